package fake

import (
	"fmt"
	"sort"
	"time"

	"verif/harness/kproto"
)

// Member is a member of a group.
type Member struct {
	ID        string
	ClientID  string
	Proto     string
	Meta      []byte
	Subs      []string
	Assigned  []byte
	rejoined  bool
	synced    bool
	SessionMs int64
	seen      time.Time
	waiting   int
	Auto      bool // a foreign member that takes part in every rebalance at once
}

// Generation is the record of one completed rebalance.
type Generation struct {
	N        int32
	Leader   string
	Members  map[string][]string           // subscriptions
	Assign   map[string]map[string][]int32 // member -> topic -> partitions
	Raw      map[string][]byte
	Complete bool
	BadErr   error
	Before   map[string][]int32 // partitions of all topics when the generation began
	Parts    map[string][]int32 // partitions of all topics when the assignment arrived
	Extra    []string           // assignments for members that are not in the generation
}

// Group is a consumer group with a real coordinator state machine.
type Group struct {
	Name     string
	State    string // Empty, Preparing, Completing, Stable, Dead
	Gen      int32
	Leader   string
	Members  map[string]*Member
	Offsets  map[string]map[int32]int64
	Meta     map[string]map[int32]any
	History  []*Generation
	cl       *Cluster
	stopped  bool
	joinDone bool
}

func (g *Group) shutdown() { g.stopped = true }

func (c *Cluster) group(name string) *Group {
	g := c.Groups[name]
	if g == nil {
		g = &Group{Name: name, State: "Empty", Members: map[string]*Member{}, Offsets: map[string]map[int32]int64{}, Meta: map[string]map[int32]any{}, cl: c}
		c.Groups[name] = g
	}
	return g
}

// Group returns (creating) a group.
func (c *Cluster) Group(name string) *Group {
	c.Mu.Lock()
	defer c.Mu.Unlock()
	return c.group(name)
}

// Committed returns the committed offset or -1.
func (c *Cluster) Committed(group, topic string, p int32) int64 {
	c.Mu.Lock()
	defer c.Mu.Unlock()
	g := c.group(group)
	if o, ok := g.Offsets[topic][p]; ok {
		return o
	}
	return -1
}

// SetCommitted stores an offset.
func (c *Cluster) SetCommitted(group, topic string, p int32, off int64) {
	c.Mu.Lock()
	defer c.Mu.Unlock()
	g := c.group(group)
	if g.Offsets[topic] == nil {
		g.Offsets[topic] = map[int32]int64{}
	}
	g.Offsets[topic][p] = off
}

// Expire removes a member as if its session had timed out.
func (c *Cluster) Expire(group, member string) {
	c.Mu.Lock()
	defer c.Mu.Unlock()
	g := c.group(group)
	if _, ok := g.Members[member]; !ok {
		return
	}
	delete(g.Members, member)
	c.Tr.Note("expire", "group=%s member=%s", group, member)
	g.rebalance()
}

// parts (locked) lists the partitions of all topics.
func (c *Cluster) parts() map[string][]int32 {
	out := map[string][]int32{}
	for tn, t := range c.Topics {
		for p := range t.Parts {
			out[tn] = append(out[tn], p)
		}
	}
	return out
}

// ExpireIdle removes the members that have not been heard of for that long.
func (c *Cluster) ExpireIdle(group string, d time.Duration) {
	c.Mu.Lock()
	defer c.Mu.Unlock()
	g := c.group(group)
	gone := false
	for id, m := range g.Members {
		if !m.Auto && m.waiting == 0 && time.Since(m.seen) > d {
			delete(g.Members, id)
			c.Tr.Note("expire", "group=%s member=%s (idle)", group, id)
			gone = true
		}
	}
	if gone {
		g.rebalance()
	}
}

// wait (locked) counts a request of the member that the coordinator holds back.
func (m *Member) wait() func() {
	m.waiting++
	m.seen = time.Now()
	return func() {
		m.waiting--
		m.seen = time.Now()
	}
}

// Rebalance forces a rebalance.
func (c *Cluster) Rebalance(group string) {
	c.Mu.Lock()
	defer c.Mu.Unlock()
	c.group(group).rebalance()
}

// GroupState returns state, generation and member ids.
func (c *Cluster) GroupState(name string) (string, int32, []string) {
	c.Mu.Lock()
	defer c.Mu.Unlock()
	g := c.group(name)
	var ids []string
	for id := range g.Members {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return g.State, g.Gen, ids
}

// GroupHistory copies the list of generations.
func (c *Cluster) GroupHistory(name string) []*Generation {
	c.Mu.Lock()
	defer c.Mu.Unlock()
	return append([]*Generation(nil), c.group(name).History...)
}

// real (locked) counts the members that are clients.
func (g *Group) real() (n int) {
	for _, m := range g.Members {
		if !m.Auto {
			n++
		}
	}
	return
}

// AddForeign adds a member of another kind of client to the group.
func (c *Cluster) AddForeign(group, id string, subs []string, meta []byte) {
	c.Mu.Lock()
	defer c.Mu.Unlock()
	g := c.group(group)
	g.Members[id] = &Member{ID: id, ClientID: "foreign", Proto: "range", Meta: meta, Subs: subs, rejoined: true, Auto: true}
	g.rebalance()
}

// RemoveMember makes a member leave.
func (c *Cluster) RemoveMember(group, id string) {
	c.Mu.Lock()
	defer c.Mu.Unlock()
	g := c.group(group)
	delete(g.Members, id)
	g.rebalance()
}

// rebalance (locked) moves the group to Preparing; everyone has to rejoin.
func (g *Group) rebalance() {
	if g.real() == 0 {
		g.State = "Empty"
		g.Leader = ""
		g.cl.dataCond.Broadcast()
		return
	}
	if g.State != "Preparing" {
		g.State = "Preparing"
		for _, m := range g.Members {
			m.rejoined = m.Auto
			m.synced = false
		}
		g.armRebalanceTimer()
	}
	g.tryComplete()
	g.cl.dataCond.Broadcast()
}

func (g *Group) armRebalanceTimer() {
	gen := g.Gen
	c := g.cl
	time.AfterFunc(c.RebalanceTimeout, func() {
		c.Mu.Lock()
		defer c.Mu.Unlock()
		if g.State != "Preparing" || g.Gen != gen || g.stopped {
			return
		}
		for id, m := range g.Members {
			if !m.rejoined {
				delete(g.Members, id)
				c.Tr.Note("kick", "group=%s member=%s", g.Name, id)
			}
		}
		if g.real() == 0 {
			g.State = "Empty"
			g.Leader = ""
		}
		g.tryComplete()
		c.dataCond.Broadcast()
	})
}

func (g *Group) tryComplete() {
	if g.State != "Preparing" || g.real() == 0 {
		return
	}
	for _, m := range g.Members {
		if !m.rejoined {
			return
		}
	}
	g.Gen++
	g.State = "Completing"
	if _, ok := g.Members[g.Leader]; !ok {
		var ids []string
		for id, m := range g.Members {
			if !m.Auto {
				ids = append(ids, id)
			}
		}
		sort.Strings(ids)
		g.Leader = ids[0]
	}
	gn := &Generation{N: g.Gen, Leader: g.Leader, Members: map[string][]string{}, Before: g.cl.parts()}
	for id, m := range g.Members {
		m.synced = false
		m.Assigned = nil
		gn.Members[id] = m.Subs
	}
	g.History = append(g.History, gn)
	g.cl.Tr.Note("generation", "group=%s gen=%d leader=%s members=%d", g.Name, g.Gen, g.Leader, len(g.Members))
	g.cl.dataCond.Broadcast()
}

// DecodeSubscription decodes a consumer protocol subscription strictly.
func DecodeSubscription(b []byte) (topics []string, err error) {
	d := &kproto.Dec{B: b}
	d.I16()
	n := d.I32()
	for i := int64(0); i < n && d.Err == nil; i++ {
		l := d.I16()
		topics = append(topics, string(d.Need(int(l))))
	}
	l := d.I32()
	if l > 0 {
		d.Need(int(l))
	}
	if d.Err == nil && d.Off != len(b) {
		return nil, fmt.Errorf("%d trailing bytes in subscription", len(b)-d.Off)
	}
	return topics, d.Err
}

// EncodeSubscription is the inverse, used for foreign members.
func EncodeSubscription(ver int16, topics []string, user []byte) []byte {
	e := &kproto.Enc{}
	e.I16(int64(ver))
	e.I32(int64(len(topics)))
	for _, t := range topics {
		e.I16(int64(len(t)))
		e.B = append(e.B, t...)
	}
	if user == nil {
		e.I32(-1)
	} else {
		e.I32(int64(len(user)))
		e.B = append(e.B, user...)
	}
	return e.B
}

// DecodeAssignment decodes a consumer protocol assignment strictly.
func DecodeAssignment(b []byte) (map[string][]int32, error) {
	if len(b) == 0 {
		return map[string][]int32{}, nil
	}
	d := &kproto.Dec{B: b}
	d.I16()
	n := d.I32()
	out := map[string][]int32{}
	for i := int64(0); i < n && d.Err == nil; i++ {
		l := d.I16()
		t := string(d.Need(int(l)))
		k := d.I32()
		if _, dup := out[t]; dup {
			return nil, fmt.Errorf("topic %q twice in one assignment", t)
		}
		out[t] = []int32{}
		for j := int64(0); j < k && d.Err == nil; j++ {
			out[t] = append(out[t], int32(d.I32()))
		}
	}
	l := d.I32()
	if l > 0 {
		d.Need(int(l))
	}
	if d.Err == nil && d.Off != len(b) {
		return nil, fmt.Errorf("%d trailing bytes in assignment", len(b)-d.Off)
	}
	return out, d.Err
}

// EncodeAssignment builds a member assignment.
func EncodeAssignment(a map[string][]int32) []byte {
	e := &kproto.Enc{}
	e.I16(0)
	e.I32(int64(len(a)))
	var ts []string
	for t := range a {
		ts = append(ts, t)
	}
	sort.Strings(ts)
	for _, t := range ts {
		e.I16(int64(len(t)))
		e.B = append(e.B, t...)
		e.I32(int64(len(a[t])))
		for _, p := range a[t] {
			e.I32(int64(p))
		}
	}
	e.I32(0)
	return e.B
}

func (c *Cluster) handleJoin(r *Req) M {
	b := r.Body
	c.Mu.Lock()
	defer c.Mu.Unlock()
	name := b.S("group")
	fail := func(code int64) M {
		return M{"error_code": code, "generation": int64(-1), "protocol": "", "leader": "", "member": b.S("member"), "members": []any{}}
	}
	if c.CoordOf(name) != r.Node {
		return fail(16)
	}
	g := c.group(name)
	id := b.S("member")
	if id == "" {
		c.memberSeq++
		cid := ""
		if r.H.ClientID != nil {
			cid = *r.H.ClientID
		}
		id = fmt.Sprintf("%s-%04d", cid, c.memberSeq)
		g.Members[id] = &Member{ID: id, ClientID: cid}
	} else if g.Members[id] == nil {
		return fail(25)
	}
	m := g.Members[id]
	defer m.wait()()
	ps := b.Ms("protocols")
	if len(ps) == 0 {
		return fail(23)
	}
	m.Proto = ps[0].S("name")
	m.Meta = ps[0].B("metadata")
	m.SessionMs = b.I("session_timeout")
	subs, err := DecodeSubscription(m.Meta)
	if err != nil {
		c.Tr.Add(&Ev{Kind: "badsub", Node: r.Node, Conn: r.Conn.ID, Err: err})
		if c.OnBad != nil {
			c.OnBad(r, fmt.Errorf("join subscription: %w", err))
		}
		return fail(42)
	}
	m.Subs = subs
	if g.State != "Preparing" {
		fresh := g.State == "Empty"
		for _, x := range g.Members {
			x.rejoined = x.Auto
			x.synced = false
		}
		g.State = "Preparing"
		g.armRebalanceTimer()
		c.dataCond.Broadcast()
		if fresh && c.JoinDelay > 0 {
			// initial rebalance delay
			m.rejoined = true
			gen := g.Gen
			g.holdInitial(gen)
		}
	}
	m.rejoined = true
	gen := g.Gen
	if !g.holding() {
		g.tryComplete()
	}
	dl := time.Now().Add(c.RebalanceTimeout + 10*time.Second)
	for g.Gen == gen && !g.stopped && !r.Conn.closed.Load() && time.Now().Before(dl) {
		if g.Members[id] == nil {
			return fail(25)
		}
		c.wait(50 * time.Millisecond)
	}
	if g.Gen == gen {
		return fail(27)
	}
	if g.Members[id] == nil {
		return fail(25)
	}
	res := M{"error_code": int64(0), "generation": int64(g.Gen), "protocol": m.Proto, "leader": g.Leader, "member": id, "members": []any{}}
	if g.Leader == id {
		var ids []string
		for x := range g.Members {
			ids = append(ids, x)
		}
		sort.Strings(ids)
		var ms []any
		for _, x := range ids {
			ms = append(ms, M{"member": x, "metadata": g.Members[x].Meta})
		}
		res["members"] = ms
	}
	return res
}

func (g *Group) holding() bool { return g.joinDone }

// holdInitial delays the first completion so several members can join.
func (g *Group) holdInitial(gen int32) {
	g.joinDone = true
	c := g.cl
	time.AfterFunc(c.JoinDelay, func() {
		c.Mu.Lock()
		defer c.Mu.Unlock()
		g.joinDone = false
		g.tryComplete()
		c.dataCond.Broadcast()
	})
}

// wait (locked) waits for a state change, at most d.
func (c *Cluster) wait(d time.Duration) {
	t := time.AfterFunc(d, func() { c.Mu.Lock(); c.dataCond.Broadcast(); c.Mu.Unlock() })
	c.dataCond.Wait()
	t.Stop()
}

func (c *Cluster) handleSync(r *Req) M {
	b := r.Body
	c.Mu.Lock()
	defer c.Mu.Unlock()
	fail := func(code int64) M { return M{"error_code": code, "assignment": []byte{}} }
	name := b.S("group")
	if c.CoordOf(name) != r.Node {
		return fail(16)
	}
	g := c.group(name)
	id := b.S("member")
	m := g.Members[id]
	if m == nil {
		return fail(25)
	}
	defer m.wait()()
	gen := int32(b.I("generation"))
	if gen != g.Gen {
		return fail(22)
	}
	if g.State == "Preparing" {
		return fail(27)
	}
	if g.State == "Completing" && id == g.Leader {
		gn := g.History[len(g.History)-1]
		gn.Assign = map[string]map[string][]int32{}
		gn.Raw = map[string][]byte{}
		gn.Parts = c.parts()
		for _, a := range b.Ms("assignments") {
			mid := a.S("member")
			dec, err := DecodeAssignment(a.B("assignment"))
			if err != nil && gn.BadErr == nil {
				gn.BadErr = fmt.Errorf("assignment of member %q: %w", mid, err)
			}
			if _, dup := gn.Assign[mid]; dup && gn.BadErr == nil {
				gn.BadErr = fmt.Errorf("member %q assigned twice", mid)
			}
			gn.Assign[mid] = dec
			gn.Raw[mid] = a.B("assignment")
			if g.Members[mid] == nil {
				gn.Extra = append(gn.Extra, mid)
			} else {
				g.Members[mid].Assigned = a.B("assignment")
			}
		}
		gn.Complete = true
		g.State = "Stable"
		c.Tr.Note("assigned", "group=%s gen=%d %v", name, g.Gen, gn.Assign)
		c.dataCond.Broadcast()
	}
	dl := time.Now().Add(c.RebalanceTimeout + 10*time.Second)
	for g.State == "Completing" && g.Gen == gen && !g.stopped && !r.Conn.closed.Load() && time.Now().Before(dl) {
		c.wait(50 * time.Millisecond)
	}
	m = g.Members[id]
	if m == nil {
		return fail(25)
	}
	if g.Gen != gen {
		return fail(22)
	}
	if g.State != "Stable" {
		return fail(27)
	}
	m.synced = true
	as := m.Assigned
	if as == nil {
		as = []byte{}
	}
	return M{"error_code": int64(0), "assignment": as}
}

func (c *Cluster) handleHeartbeat(r *Req) M {
	b := r.Body
	c.Mu.Lock()
	defer c.Mu.Unlock()
	code := int64(0)
	if c.CoordOf(b.S("group")) != r.Node {
		return M{"error_code": int64(16)}
	}
	g := c.group(b.S("group"))
	if m := g.Members[b.S("member")]; m != nil {
		m.seen = time.Now()
	}
	switch {
	case g.Members[b.S("member")] == nil:
		code = 25
	case int32(b.I("generation")) != g.Gen:
		code = 22
	case g.State != "Stable":
		code = 27
	}
	return M{"error_code": code}
}

func (c *Cluster) handleLeave(r *Req) M {
	b := r.Body
	c.Mu.Lock()
	defer c.Mu.Unlock()
	if c.CoordOf(b.S("group")) != r.Node {
		return M{"error_code": int64(16)}
	}
	g := c.group(b.S("group"))
	id := b.S("member")
	if g.Members[id] == nil {
		return M{"error_code": int64(25)}
	}
	delete(g.Members, id)
	c.Tr.Note("left", "group=%s member=%s", g.Name, id)
	g.rebalance()
	return M{"error_code": int64(0)}
}

func (c *Cluster) handleCommit(r *Req) M {
	b := r.Body
	c.Mu.Lock()
	defer c.Mu.Unlock()
	g := c.group(b.S("group"))
	code := int64(0)
	if c.CoordOf(b.S("group")) != r.Node {
		code = 16
	} else if r.H.Version >= 1 {
		id, gen := b.S("member"), int32(b.I("generation"))
		switch {
		case id == "" && gen < 0:
			if len(g.Members) > 0 {
				code = 25
			}
		case g.Members[id] == nil:
			code = 25
		case gen != g.Gen:
			code = 22
		case g.State == "Completing":
			code = 27
		}
	}
	var ts []any
	for _, t := range b.Ms("topics") {
		var ps []any
		for _, p := range t.Ms("partitions") {
			pid := int32(p.I("index"))
			pc := code
			if pc == 0 {
				if tt := c.Topics[t.S("name")]; tt == nil || tt.Parts[pid] == nil {
					pc = 3
				}
			}
			if pc == 0 {
				if g.Offsets[t.S("name")] == nil {
					g.Offsets[t.S("name")] = map[int32]int64{}
				}
				g.Offsets[t.S("name")][pid] = p.I("offset")
				c.Tr.Add(&Ev{Kind: "commit", Node: r.Node, Conn: r.Conn.ID, Note: fmt.Sprintf("group=%s member=%s %s-%d=%d", g.Name, b.S("member"), t.S("name"), pid, p.I("offset")),
					Body: M{"group": g.Name, "member": b.S("member"), "generation": b.I("generation"), "topic": t.S("name"), "partition": int64(pid), "offset": p.I("offset")}})
			}
			ps = append(ps, M{"index": int64(pid), "error_code": pc})
		}
		ts = append(ts, M{"name": t.S("name"), "partitions": ps})
	}
	return M{"topics": ts}
}

func (c *Cluster) handleOffsetFetch(r *Req) M {
	b := r.Body
	c.Mu.Lock()
	defer c.Mu.Unlock()
	g := c.group(b.S("group"))
	code := int64(0)
	if c.CoordOf(b.S("group")) != r.Node {
		code = 16
	}
	var ts []any
	for _, t := range b.Ms("topics") {
		var ps []any
		for _, x := range t.A("partitions") {
			pid := int32(x.(int64))
			off, ok := g.Offsets[t.S("name")][pid]
			if !ok || code != 0 {
				off = -1
			}
			var meta any = ""
			if c.NullMeta {
				meta = nil
			}
			ps = append(ps, M{"index": int64(pid), "offset": off, "metadata": meta, "error_code": code})
		}
		ts = append(ts, M{"name": t.S("name"), "partitions": ps})
	}
	return M{"topics": ts, "error_code": code}
}
