package fake

import (
	"crypto/tls"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/kproto"
)

type M = kproto.M

// Chunk is a stored batch or old format message set entry.
type Chunk struct {
	First, Last int64
	Bytes       []byte
	Recs        []kproto.Rec // records a consumer must see
	Control     bool
}

// Partition is one partition log.
type Partition struct {
	Leader   int32
	Epoch    int32
	Replicas []int32
	ISR      []int32
	LogStart int64
	HW       int64
	Chunks   []Chunk
	Err      int64 // partition error code in metadata
}

// Topic is a topic.
type Topic struct {
	Name  string
	Parts map[int32]*Partition
	Err   int64
}

// Req is one request as seen by the broker.
type Req struct {
	Conn *Conn
	Node int32
	H    kproto.ReqHeader
	Body M
	Raw  []byte
	Err  error
	Ev   *Ev
}

// Fault tells the broker how to misbehave for one request.
type Fault struct {
	CloseBefore bool            // close the connection, do not process
	CloseAfter  bool            // process, close instead of answering
	Drop        bool            // process, never answer, keep the connection
	Hold        <-chan struct{} // answer only after this is closed (or the client hung up)
	TruncateAt  int             // >0: write only that many bytes of the response frame and close
	Body        func(M) M       // rewrite the response body
	SkipProcess bool            // do not run the handler (Body gets an empty M)
	Raw         func([]byte) []byte
	Chunks      []int // sizes of successive writes (last one repeats)
	ChunkDelay  time.Duration
	Tags        []kproto.Tag
}

// Conn is one client connection.
type Conn struct {
	ID     int64
	Node   *Node
	c      net.Conn
	out    chan func() bool
	done   chan struct{}
	authed bool
	mech   string
	closed atomic.Bool
	lost   atomic.Bool // never answers again
	Opened *Ev
}

// Done is closed when the connection is gone.
func (c *Conn) Done() <-chan struct{} { return c.done }

// Kill closes the connection from the broker side.
func (c *Conn) Kill() { c.c.Close() }

// Node is a broker.
type Node struct {
	ID      int32
	Host    string
	Port    int32
	Rack    any
	ln      net.Listener
	cl      *Cluster
	Vers    map[int][2]int
	mu      sync.Mutex
	cs      map[int64]*Conn
	Down    bool
	Hidden  bool // not listed in metadata
	frozen  *freeze
	LogDirs []M
}

// Addr of the node.
func (n *Node) Addr() string { return fmt.Sprintf("%s:%d", n.Host, n.Port) }

// Sasl makes the cluster demand SASL authentication.
type Sasl struct {
	Mechanisms []string
	Check      func(mech string, token []byte) bool
}

// Cluster is the fake cluster.
type Cluster struct {
	NotHere           int64 // error of a broker that is not the leader (default 6)
	Mu                sync.Mutex
	Nodes             map[int32]*Node
	Controller        int32
	ClusterID         any
	Topics            map[string]*Topic
	Groups            map[string]*Group
	CoordOf           func(group string) int32
	Tr                *Trace
	Hook              func(*Req) *Fault
	Sasl              *Sasl
	TLS               *tls.Config
	Admin             func(r *Req) (M, bool) // custom handling of any API; consulted first
	RebalanceTimeout  time.Duration
	JoinDelay         time.Duration
	TruncateFetch     bool // cut trailing batches at max bytes, as old brokers do
	NullEmpty         bool // answer empty fetches with null records
	NullMeta          bool
	CheckEpoch        bool
	MaxBatches        int
	LogDirsUnfiltered bool
	ShuffleParts      func([]int)
	Aborted           func(topic string, p int32) any
	Configs           map[string]map[string]any
	OnBadBatch        func(r *Req, err error)
	AutoCreate        bool
	connSeq           atomic.Int64
	memberSeq         int
	wg                sync.WaitGroup
	dataCond          *sync.Cond
	stopped           bool
	host              string
	// Violations found online by the broker (wire format monitors).
	OnBad func(r *Req, err error)
}

// SetHook replaces the fault hook at run time.
func (c *Cluster) SetHook(f func(*Req) *Fault) {
	c.Mu.Lock()
	c.Hook = f
	c.Mu.Unlock()
}

// SetAdmin replaces the custom handler at run time.
func (c *Cluster) SetAdmin(f func(*Req) (M, bool)) {
	c.Mu.Lock()
	c.Admin = f
	c.Mu.Unlock()
}

// DefaultVersions is a broker that supports everything healer implements.
func DefaultVersions() map[int][2]int {
	v := map[int][2]int{}
	for k, mx := range kproto.MaxKnown {
		v[k] = [2]int{0, mx}
	}
	return v
}

var hostSeq atomic.Uint32

// loopback returns a loopback address of its own for a cluster, so that the port of
// a broker that is down cannot be taken by another cluster.
func loopback() string {
	x := uint32(os.Getpid())*2654435761>>8 + hostSeq.Add(1)
	h := fmt.Sprintf("127.%d.%d.%d", 1+(x>>16)%254, (x>>8)&0xff, 1+x%254)
	ln, err := net.Listen("tcp", h+":0")
	if err != nil {
		return "127.0.0.1"
	}
	ln.Close()
	return h
}

// Host is the address of the brokers of the cluster.
func (c *Cluster) Host() string { return c.host }

// New starts a cluster of n brokers with ids 1..n.
func New(n int) *Cluster {
	ids := []int32{}
	for i := 1; i <= n; i++ {
		ids = append(ids, int32(i))
	}
	return NewIDs(ids)
}

// NewIDs starts a cluster with the given broker ids.
func NewIDs(ids []int32) *Cluster {
	c := &Cluster{Nodes: map[int32]*Node{}, Topics: map[string]*Topic{}, Groups: map[string]*Group{}, Tr: NewTrace(),
		RebalanceTimeout: 3 * time.Second, JoinDelay: 10 * time.Millisecond, ClusterID: "fake-cluster-id"}
	c.dataCond = sync.NewCond(&c.Mu)
	c.host = loopback()
	for _, id := range ids {
		nd := &Node{ID: id, Host: c.host, cl: c, cs: map[int64]*Conn{}, Vers: DefaultVersions()}
		if err := nd.listen(0); err != nil {
			panic("HARNESS: cannot listen: " + err.Error())
		}
		c.Nodes[id] = nd
	}
	c.Controller = ids[0]
	c.CoordOf = func(g string) int32 {
		s := 0
		for _, r := range g {
			s += int(r)
		}
		return ids[s%len(ids)]
	}
	return c
}

func (n *Node) listen(port int32) error {
	var err error
	for i := 0; i < 50; i++ {
		n.ln, err = net.Listen("tcp", fmt.Sprintf("%s:%d", n.Host, port))
		if err == nil {
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	if err != nil {
		return err
	}
	n.Port = int32(n.ln.Addr().(*net.TCPAddr).Port)
	n.cl.wg.Add(1)
	go n.serve(n.ln)
	return nil
}

// Bootstrap is the bootstrap list.
func (c *Cluster) Bootstrap() string {
	var ids []int
	for id := range c.Nodes {
		ids = append(ids, int(id))
	}
	sort.Ints(ids)
	var a []string
	for _, id := range ids {
		a = append(a, c.Nodes[int32(id)].Addr())
	}
	return strings.Join(a, ",")
}

// AddTopic creates a topic; leaders are spread round robin.
func (c *Cluster) AddTopic(name string, parts int) *Topic {
	c.Mu.Lock()
	defer c.Mu.Unlock()
	return c.addTopicLocked(name, parts)
}

func (c *Cluster) addTopicLocked(name string, parts int) *Topic {
	var ids []int
	for id := range c.Nodes {
		ids = append(ids, int(id))
	}
	sort.Ints(ids)
	t := &Topic{Name: name, Parts: map[int32]*Partition{}}
	for i := 0; i < parts; i++ {
		l := int32(ids[i%len(ids)])
		p := &Partition{Leader: l, Epoch: 0, Replicas: []int32{l}, ISR: []int32{l}}
		for j := 1; j < len(ids) && j < 3; j++ {
			r := int32(ids[(i+j)%len(ids)])
			p.Replicas = append(p.Replicas, r)
			p.ISR = append(p.ISR, r)
		}
		t.Parts[int32(i)] = p
	}
	c.Topics[name] = t
	return t
}

// StopNode closes the listener and all connections of a node.
func (c *Cluster) StopNode(id int32) {
	n := c.Nodes[id]
	n.mu.Lock()
	n.Down = true
	n.ln.Close()
	for _, x := range n.cs {
		x.c.Close()
	}
	n.mu.Unlock()
}

// StartNode listens again on the same port.
func (c *Cluster) StartNode(id int32) error {
	n := c.Nodes[id]
	n.mu.Lock()
	defer n.mu.Unlock()
	n.Down = false
	return n.listen(n.Port)
}

type freeze struct {
	deaf  bool // does not read either
	stall int  // bytes of an answer that still get out
	thaw  chan struct{}
}

// Freeze makes the node stop responding without closing anything: it reads no
// more (deaf), or reads and processes requests but sends only the first stall
// bytes of its answers.
func (n *Node) Freeze(deaf bool, stall int) {
	n.mu.Lock()
	defer n.mu.Unlock()
	if n.frozen == nil {
		n.frozen = &freeze{deaf: deaf, stall: stall, thaw: make(chan struct{})}
		n.cl.Tr.Note("freeze", fmt.Sprintf("node %d deaf=%v stall=%d", n.ID, deaf, stall))
	}
}

// Thaw ends Freeze; what was held back continues.
func (n *Node) Thaw() { n.ThawNew(false) }

// ThawNew ends Freeze. If lost is set the connections of before stay open but
// never answer again, only new ones work.
func (n *Node) ThawNew(lost bool) {
	n.mu.Lock()
	defer n.mu.Unlock()
	if n.frozen != nil {
		if lost {
			for _, c := range n.cs {
				c.lost.Store(true)
			}
		}
		close(n.frozen.thaw)
		n.frozen = nil
		n.cl.Tr.Note("thaw", fmt.Sprintf("node %d", n.ID))
	}
}

func (n *Node) ice() *freeze {
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.frozen
}

func (n *Node) waitHearing() {
	for f := n.ice(); f != nil && f.deaf; f = n.ice() {
		<-f.thaw
	}
}

// KillConns drops all client connections of a node.
func (n *Node) KillConns() {
	n.mu.Lock()
	for _, x := range n.cs {
		x.c.Close()
	}
	n.mu.Unlock()
}

// OpenConns counts the live connections on the whole cluster.
func (c *Cluster) OpenConns() int {
	s := 0
	for _, n := range c.Nodes {
		n.mu.Lock()
		s += len(n.cs)
		n.mu.Unlock()
	}
	return s
}

// Stop shuts the cluster down.
func (c *Cluster) Stop() {
	c.Mu.Lock()
	c.stopped = true
	c.dataCond.Broadcast()
	for _, g := range c.Groups {
		g.shutdown()
	}
	c.Mu.Unlock()
	for _, n := range c.Nodes {
		n.Thaw()
		n.mu.Lock()
		n.ln.Close()
		for _, x := range n.cs {
			x.c.Close()
		}
		n.mu.Unlock()
	}
}

func (n *Node) serve(ln net.Listener) {
	defer n.cl.wg.Done()
	for {
		nc, err := ln.Accept()
		if err != nil {
			return
		}
		if n.cl.TLS != nil {
			nc = tls.Server(nc, n.cl.TLS)
		}
		cn := &Conn{ID: n.cl.connSeq.Add(1), Node: n, c: nc, out: make(chan func() bool, 1024), done: make(chan struct{})}
		n.mu.Lock()
		if n.Down {
			n.mu.Unlock()
			nc.Close()
			continue
		}
		n.cs[cn.ID] = cn
		n.mu.Unlock()
		cn.Opened = n.cl.Tr.Add(&Ev{Kind: "conn", Node: n.ID, Conn: cn.ID})
		n.cl.wg.Add(2)
		go cn.writer()
		go cn.reader()
	}
}

func (c *Conn) writer() {
	defer c.Node.cl.wg.Done()
	for f := range c.out {
		if !f() {
			c.c.Close()
			for range c.out {
			}
			return
		}
	}
}

func (c *Conn) reader() {
	cl := c.Node.cl
	defer cl.wg.Done()
	defer func() {
		c.c.Close()
		c.closed.Store(true)
		close(c.done)
		close(c.out)
		c.Node.mu.Lock()
		delete(c.Node.cs, c.ID)
		c.Node.mu.Unlock()
		cl.Tr.Add(&Ev{Kind: "close", Node: c.Node.ID, Conn: c.ID})
		cl.Mu.Lock()
		cl.dataCond.Broadcast()
		cl.Mu.Unlock()
	}()
	hdr := make([]byte, 4)
	for {
		c.Node.waitHearing()
		n, err := io.ReadFull(c.c, hdr)
		c.Node.waitHearing()
		if err != nil {
			if n > 0 {
				cl.Tr.Add(&Ev{Kind: "partial", Node: c.Node.ID, Conn: c.ID, Note: fmt.Sprintf("%d of 4 length bytes", n)})
			}
			return
		}
		l := int(int32(binary.BigEndian.Uint32(hdr)))
		if l < 0 || l > 200<<20 {
			r := &Req{Conn: c, Node: c.Node.ID, Err: fmt.Errorf("request frame length %d", l)}
			cl.Tr.Add(&Ev{Kind: "badreq", Node: c.Node.ID, Conn: c.ID, Err: r.Err})
			if cl.OnBad != nil {
				cl.OnBad(r, r.Err)
			}
			return
		}
		buf := make([]byte, l)
		if n, err := io.ReadFull(c.c, buf); err != nil {
			cl.Tr.Add(&Ev{Kind: "partial", Node: c.Node.ID, Conn: c.ID, Note: fmt.Sprintf("%d of %d request bytes", n, l)})
			return
		}
		if c.lost.Load() {
			continue
		}
		r := &Req{Conn: c, Node: c.Node.ID, Raw: buf}
		r.H, r.Body, r.Err = kproto.DecodeRequest(buf)
		r.Ev = cl.Tr.Add(&Ev{Kind: "req", Node: c.Node.ID, Conn: c.ID, Key: r.H.Key, Ver: r.H.Version, Corr: r.H.Corr, Body: r.Body, Raw: buf, Err: r.Err, Req: r})
		if r.Err != nil {
			if cl.OnBad != nil {
				cl.OnBad(r, r.Err)
			}
			return // a real broker closes the connection on an unparsable request
		}
		var f *Fault
		cl.Mu.Lock()
		hook := cl.Hook
		cl.Mu.Unlock()
		if hook != nil {
			f = hook(r)
		}
		if f == nil {
			f = &Fault{}
		}
		if f.CloseBefore {
			return
		}
		var body M
		keep := true
		if !f.SkipProcess {
			body, keep = cl.handle(r)
		} else {
			body = M{}
		}
		if !keep {
			return
		}
		if f.CloseAfter {
			return
		}
		if f.Body != nil && body != nil {
			body = f.Body(body)
		}
		if body == nil || f.Drop {
			continue
		}
		frame := kproto.EncodeResponse(r.H.Key, r.H.Version, r.H.Corr, f.Tags, body)
		if f.Raw != nil {
			frame = f.Raw(frame)
		}
		b := body
		select {
		case c.out <- func() bool { return c.send(r, frame, f, b) }:
		case <-time.After(60 * time.Second):
			return
		}
	}
}

func (c *Conn) send(r *Req, frame []byte, f *Fault, body M) bool {
	if f.Hold != nil {
		select {
		case <-f.Hold:
		case <-c.done:
			return false
		}
	}
	if z := c.Node.ice(); z != nil {
		if k := min(z.stall, len(frame)); k > 0 {
			c.c.Write(frame[:k])
			frame = frame[k:]
		}
		select {
		case <-z.thaw:
		case <-c.done:
			return false
		}
	}
	if c.lost.Load() {
		<-c.done
		return false
	}
	c.Node.cl.Tr.Add(&Ev{Kind: "resp", Node: c.Node.ID, Conn: c.ID, Key: r.H.Key, Ver: r.H.Version, Corr: r.H.Corr, Body: body, Req: r})
	closeAfter := false
	if f.TruncateAt > 0 && f.TruncateAt < len(frame) {
		frame = frame[:f.TruncateAt]
		closeAfter = true
	}
	if len(f.Chunks) == 0 {
		if _, err := c.c.Write(frame); err != nil {
			return false
		}
	} else {
		i := 0
		for len(frame) > 0 {
			n := f.Chunks[min(i, len(f.Chunks)-1)]
			if n <= 0 || n > len(frame) {
				n = len(frame)
			}
			if _, err := c.c.Write(frame[:n]); err != nil {
				return false
			}
			frame = frame[n:]
			i++
			if f.ChunkDelay > 0 && len(frame) > 0 && i < 400 {
				time.Sleep(f.ChunkDelay)
			}
		}
	}
	return !closeAfter
}

// notLeader is what a broker answers that does not lead the partition: a broker
// that has deleted its replica does not know the partition any more.
func (c *Cluster) notLeader() int64 {
	if c.NotHere != 0 {
		return c.NotHere
	}
	return 6
}

// SetLeader moves the leadership of a partition.
func (c *Cluster) SetLeader(topic string, p int32, leader int32) {
	c.Mu.Lock()
	defer c.Mu.Unlock()
	pt := c.Topics[topic].Parts[p]
	pt.Leader = leader
	pt.Epoch++
	c.dataCond.Broadcast()
}

// Append appends a chunk to the log.
func (c *Cluster) Append(topic string, p int32, ch Chunk) {
	c.Mu.Lock()
	defer c.Mu.Unlock()
	pt := c.Topics[topic].Parts[p]
	pt.Chunks = append(pt.Chunks, ch)
	if ch.Last+1 > pt.HW {
		pt.HW = ch.Last + 1
	}
	c.dataCond.Broadcast()
}

// Log returns the records stored in a partition.
func (c *Cluster) Log(topic string, p int32) []kproto.Rec {
	c.Mu.Lock()
	defer c.Mu.Unlock()
	var out []kproto.Rec
	for _, ch := range c.Topics[topic].Parts[p].Chunks {
		out = append(out, ch.Recs...)
	}
	return out
}

// AddNode adds a broker to the cluster.
func (c *Cluster) AddNode(id int32) *Node {
	nd := &Node{ID: id, Host: c.host, cl: c, cs: map[int64]*Conn{}, Vers: DefaultVersions()}
	if err := nd.listen(0); err != nil {
		panic("HARNESS: cannot listen: " + err.Error())
	}
	c.Mu.Lock()
	c.Nodes[id] = nd
	c.Mu.Unlock()
	return nd
}
