package props

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/childe/healer"

	"verif/harness/fake"
	"verif/harness/kproto"
	"verif/harness/mon"
)

// randVersions gives a node a random supported range per API, always with a
// version healer implements.
func randVersions(r *rand.Rand) map[int][2]int {
	out := map[int][2]int{}
	for k, mx := range kproto.MaxKnown {
		for {
			lo, hi := 0, mx
			switch r.Intn(4) {
			case 0: // everything
			case 1: // exactly one implemented version
				vs := versionsOf(k)
				lo = vs[r.Intn(len(vs))]
				hi = lo
			default:
				lo = r.Intn(mx + 1)
				hi = lo + r.Intn(mx-lo+1)
			}
			if k == kproto.ApiVersions {
				lo = 0
			}
			if bestVersion(k, [2]int{lo, hi}) >= 0 {
				out[k] = [2]int{lo, hi}
				break
			}
		}
	}
	return out
}

func randClientID(r *rand.Rand) string { return rstr(r, 60) }

// dialNode opens one broker connection of the fake cluster through healer.
func dialNode(t *T, n *fake.Node, cfg *healer.BrokerConfig) *healer.Broker {
	var b *healer.Broker
	var err error
	t.Do("connecting to a healthy broker", 60*time.Second, func() { b, err = healer.NewBroker(n.Addr(), n.ID, cfg) })
	if err != nil {
		t.Fatal("cannot connect to a healthy broker", "NewBroker: %v", err)
	}
	t.Cleanup(b.Close)
	return b
}

// slowConf: timeouts that never fire in a fault free run.
func slowConf() *healer.BrokerConfig {
	c := healer.DefaultBrokerConfig()
	c.Net.TimeoutMS = 120000
	c.Net.ConnectTimeoutMS = 120000
	return c
}

// sortByIndex orders partitions whose order the request does not determine.
func sortByIndex(body M) {
	for _, tp := range body.Ms("topics") {
		ps, _ := tp["partitions"].([]any)
		sort.SliceStable(ps, func(i, j int) bool {
			a, ok1 := ps[i].(M)
			b, ok2 := ps[j].(M)
			return ok1 && ok2 && a.I("index") < b.I("index")
		})
	}
}

// scripted answers the request with the given client id by the queued body.
type scripted struct {
	mu   sync.Mutex
	next M
	last *fake.Req
	n    int
}

func (s *scripted) admin(r *fake.Req) (M, bool) {
	if r.H.Key == kproto.ApiVersions {
		return nil, false
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.last = r
	s.n++
	return s.next, true
}

func (s *scripted) set(m M) { s.mu.Lock(); s.next = m; s.last = nil; s.n = 0; s.mu.Unlock() }

func (s *scripted) get() (*fake.Req, int) { s.mu.Lock(); defer s.mu.Unlock(); return s.last, s.n }

type getRes struct {
	resp healer.Response
	err  error
}

func reqAndGet(t *T, b *healer.Broker, req healer.Request, what string) getRes {
	var g getRes
	t.Do("request to a healthy broker: "+what, 60*time.Second, func() { g.resp, g.err = b.RequestAndGet(req) })
	return g
}

// shuffled driver indices so that every case covers every API.
func eachDriver(r *rand.Rand, f func(d *apiDriver)) {
	for _, i := range r.Perm(len(drivers)) {
		f(drivers[i])
	}
}

func runC02(t *T) {
	c := cluster(t, 1)
	n := c.Nodes[1]
	n.Vers = randVersions(t.Rng)
	wireMonitor(t, c)
	s := &scripted{}
	c.SetAdmin(s.admin)
	b := dialNode(t, n, slowConf())
	rounds := 4
	seenCorr := map[int64]map[int32]bool{}
	for i := 0; i < rounds; i++ {
		eachDriver(t.Rng, func(d *apiDriver) {
			cid := randClientID(t.Rng)
			ver := bestVersion(d.key, n.Vers[d.key])
			req, want := d.mk(t.Rng, cid)
			s.set(d.genResp(t.Rng, ver, kproto.GenOpt{MaxElems: 2, MaxBytes: 40}))
			t.Label("%s v%d", d.name(), ver)
			reqAndGet(t, b, req, d.name())
			r, cnt := s.get()
			if r == nil {
				t.Fatal("request not delivered: "+d.name(), "%s v%d never reached the broker (or was malformed)", d.name(), ver)
			}
			if cnt != 1 {
				t.Violate("request sent more than once: "+d.name(), "%s v%d was written %d times", d.name(), ver, cnt)
			}
			if r.H.Key != d.key {
				t.Violate("wrong api key: "+d.name(), "sent api key %d", r.H.Key)
			}
			if !d.nullClient && (r.H.ClientID == nil || *r.H.ClientID != cid) {
				t.Violate("wrong client id: "+d.name(), "sent client id %v, want %q", nstr(r.H.ClientID), cid)
			}
			if seenCorr[r.Conn.ID] == nil {
				seenCorr[r.Conn.ID] = map[int32]bool{}
			}
			if seenCorr[r.Conn.ID][r.H.Corr] {
				t.Violate("correlation id reused", "%s: correlation id %d was already used on this connection", d.name(), r.H.Corr)
			}
			seenCorr[r.Conn.ID][r.H.Corr] = true
			if d.key == kproto.ListOffsets {
				sortByIndex(r.Body)
			}
			if df := diffWire(r.Body, want, d.name()); df != "" {
				t.Violate("request content: "+d.name(), "v%d: %s\nwant %v\nsent %v", r.H.Version, df, want, r.Body)
			}
			t.Eval(fmt.Sprintf("%s/v%d/%d", d.name(), r.H.Version, len(r.Raw)))
			t.Sample("%s v%d, %d bytes decoded to %v", d.name(), r.H.Version, len(r.Raw), r.Body)
		})
	}
	for i := 0; i < 6; i++ {
		groupBlobs(t, true)
	}
}

// blob is what a subscription or an assignment of the consumer protocol carries.
type blob struct {
	ver    int64
	topics []string
	parts  [][]int32 // nil for a subscription
	user   []byte
}

func (b *blob) String() string {
	return fmt.Sprintf("version %d, topics %q, partitions %v, user data %x", b.ver, b.topics, b.parts, b.user)
}

func (b *blob) bytes() []byte {
	e := &kproto.Enc{}
	e.I16(b.ver)
	e.I32(int64(len(b.topics)))
	for i, n := range b.topics {
		e.I16(int64(len(n)))
		e.B = append(e.B, n...)
		if b.parts != nil {
			e.I32(int64(len(b.parts[i])))
			for _, p := range b.parts[i] {
				e.I32(int64(p))
			}
		}
	}
	if b.user == nil {
		e.I32(-1)
	} else {
		e.I32(int64(len(b.user)))
		e.B = append(e.B, b.user...)
	}
	return e.B
}

// groupBlobs encodes (or decodes) a random subscription and a random
// assignment and compares with the consumer protocol.
func groupBlobs(t *T, enc bool) {
	r := t.Rng
	b := &blob{ver: int64(r.Intn(4))}
	for n := r.Intn(5); n > 0; n-- {
		b.topics = append(b.topics, rstr(r, 60))
	}
	b.user = []byte(rstr(r, 200))
	if r.Intn(2) == 0 {
		b.user = b.user[:0]
	}
	if !enc && r.Intn(3) == 0 {
		b.user = nil
	}
	if r.Intn(2) == 0 {
		t.Label("subscription")
		if enc {
			m := healer.ProtocolMetadata{Version: uint16(b.ver), Subscription: b.topics, UserData: b.user}
			if got := m.Encode(); !bytes.Equal(got, b.bytes()) {
				t.Violate("request content: subscription", "%s\nencoded as %x\nwant       %x", b, got, b.bytes())
			}
		} else if m := healer.NewProtocolMetadata(b.bytes()); int64(m.Version) != b.ver || !slices.Equal(m.Subscription, b.topics) || !bytes.Equal(m.UserData, b.user) {
			t.Violate("response content: subscription", "%s\ndecoded as %+v", b, m)
		}
		t.Eval(fmt.Sprintf("subscription/%d/%d", len(b.topics), len(b.user)))
		return
	}
	t.Label("assignment")
	m := &healer.MemberAssignment{Version: int16(b.ver), UserData: b.user}
	b.parts = [][]int32{}
	for _, n := range b.topics {
		ps := make([]int32, r.Intn(6))
		for i := range ps {
			ps[i] = r.Int31() >> uint(r.Intn(31))
		}
		b.parts = append(b.parts, ps)
		m.PartitionAssignments = append(m.PartitionAssignments, &healer.PartitionAssignment{Topic: n, Partitions: ps})
	}
	if enc {
		if got := m.Encode(); !bytes.Equal(got, b.bytes()) {
			t.Violate("request content: assignment", "%s\nencoded as %x\nwant       %x", b, got, b.bytes())
		}
	} else {
		got, err := healer.NewMemberAssignment(b.bytes())
		if err != nil {
			t.Fatal("valid response rejected: assignment", "%s: %v", b, err)
		}
		same := int64(got.Version) == b.ver && bytes.Equal(got.UserData, b.user) && len(got.PartitionAssignments) == len(b.topics)
		for i := range b.topics {
			same = same && got.PartitionAssignments[i].Topic == b.topics[i] && slices.Equal(got.PartitionAssignments[i].Partitions, b.parts[i])
		}
		if !same {
			t.Violate("response content: assignment", "%s\ndecoded as %+v", b, got)
		}
	}
	t.Eval(fmt.Sprintf("assignment/%d/%d", len(b.topics), len(b.user)))
}

func runC03(t *T) {
	c := cluster(t, 1)
	n := c.Nodes[1]
	n.Vers = randVersions(t.Rng)
	s := &scripted{}
	c.SetAdmin(s.admin)
	c.SetHook(func(r *fake.Req) *fake.Fault {
		if r.H.Key == kproto.ApiVersions {
			return nil
		}
		f := &fake.Fault{}
		if a := kproto.APIs[r.H.Key]; a.Resp.Flexible(r.H.Version) && r.H.Corr%3 == 0 {
			f.Tags = []kproto.Tag{{ID: 9, Data: []byte("unknown")}}
		}
		if r.H.Corr%5 == 1 {
			f.Chunks = []int{1, 3, 7, 1, 64}
		}
		return f
	})
	b := dialNode(t, n, slowConf())
	for i := 0; i < 4; i++ {
		eachDriver(t.Rng, func(d *apiDriver) {
			ver := bestVersion(d.key, n.Vers[d.key])
			req, _ := d.mk(t.Rng, "c03")
			body := d.genResp(t.Rng, ver, kproto.GenOpt{MaxElems: 4, MaxBytes: 300})
			s.set(body)
			t.Label("%s v%d", d.name(), ver)
			g := reqAndGet(t, b, req, d.name())
			if r, _ := s.get(); r == nil || r.H.Version != ver {
				t.Stop() // C02, C05
			}
			if g.err != nil {
				t.Fatal("valid response rejected: "+d.name(), "%s v%d: %v for body %v", d.name(), ver, g.err, body)
			}
			if df := compareResponse(d.name(), g.resp, body); df != "" {
				t.Violate("response content: "+d.name(), "v%d: %s\nbroker sent %v", ver, df, body)
			}
			t.Eval(fmt.Sprintf("%s/v%d/%d", d.name(), ver, len(kproto.EncodeResponse(d.key, ver, 0, nil, body))))
			t.Sample("%s v%d carried %v", d.name(), ver, body)
		})
		// produce responses
		for _, ver := range []int{0, 9} {
			api := kproto.APIs[kproto.Produce]
			body := api.Resp.Gen(t.Rng, ver, kproto.GenOpt{MaxElems: 3, MaxBytes: 60, Tags: true})
			frame := kproto.EncodeResponse(kproto.Produce, ver, 77, nil, body)
			t.Label("Produce v%d", ver)
			resp, err := healer.NewProduceResponse(frame, uint16(ver))
			if err != nil {
				t.Fatal("valid response rejected: Produce", "v%d: %v for %v", ver, err, body)
			}
			if df := compareResponse("Produce", resp, body); df != "" {
				t.Violate("response content: Produce", "v%d: %s\nbroker sent %v", ver, df, body)
			}
			t.Eval(fmt.Sprintf("Produce/v%d/%d", ver, len(frame)))
		}
	}
	for i := 0; i < 6; i++ {
		groupBlobs(t, false)
	}
}

// setErr puts the code at one random place of an error path; it reports
// whether there was such a place.
func setErr(r *rand.Rand, body M, path string, code int64) bool {
	parts := strings.Split(path, ".")
	var leaves []M
	var walk func(m M, i int)
	walk = func(m M, i int) {
		if i == len(parts)-1 {
			if _, ok := m[parts[i]]; ok {
				leaves = append(leaves, m)
			}
			return
		}
		switch x := m[parts[i]].(type) {
		case []any:
			for _, e := range x {
				if em, ok := e.(M); ok {
					walk(em, i+1)
				}
			}
		case M:
			walk(x, i+1)
		}
	}
	walk(body, 0)
	if len(leaves) == 0 {
		return false
	}
	leaves[r.Intn(len(leaves))][parts[len(parts)-1]] = code
	return true
}

func randErrCode(r *rand.Rand) int64 {
	switch r.Intn(6) {
	case 0:
		return -1
	case 1:
		return int64(500 + r.Intn(30000)) // unknown to the client
	}
	return int64(1 + r.Intn(118))
}

func runC04(t *T) {
	c := cluster(t, 1)
	n := c.Nodes[1]
	n.Vers = randVersions(t.Rng)
	s := &scripted{}
	c.SetAdmin(s.admin)
	b := dialNode(t, n, slowConf())
	for i := 0; i < 3; i++ {
		eachDriver(t.Rng, func(d *apiDriver) {
			ver := bestVersion(d.key, n.Vers[d.key])
			for _, path := range d.errs {
				req, _ := d.mk(t.Rng, "c04")
				code := randErrCode(t.Rng)
				var body M
				ok := false
				for k := 0; k < 50 && !ok; k++ {
					body = d.genResp(t.Rng, ver, kproto.GenOpt{MaxElems: 4, MaxBytes: 40})
					ok = setErr(t.Rng, body, path, code)
				}
				if !ok {
					continue
				}
				s.set(body)
				t.Label("%s v%d %s=%d", d.name(), ver, path, code)
				g := reqAndGet(t, b, req, d.name())
				if r, _ := s.get(); r == nil || r.H.Version != ver {
					t.Stop()
				}
				if g.err == nil {
					t.Violate("error code swallowed: "+d.name()+" "+path, "v%d: %s=%d in the answer, the call returned no error; body %v", ver, path, code, body)
				} else if kc, isK := kafkaCode(g.err); isK && int64(kc) != code {
					t.Violate("wrong error code: "+d.name()+" "+path, "v%d: broker answered %d, the error says %d (%v)", ver, code, kc, g.err)
				}
				t.Eval(fmt.Sprintf("%s/v%d/%s/%d", d.name(), ver, path, code))
				t.Sample("%s v%d %s=%d -> %v", d.name(), ver, path, code, g.err)
			}
			// and no error out of nothing
			req, _ := d.mk(t.Rng, "c04")
			body := d.genResp(t.Rng, ver, kproto.GenOpt{MaxElems: 4, MaxBytes: 40})
			s.set(body)
			t.Label("%s v%d ok", d.name(), ver)
			g := reqAndGet(t, b, req, d.name())
			if g.err != nil {
				t.Violate("error without error code: "+d.name(), "v%d: %v for %v", ver, g.err, body)
			}
			t.Eval(fmt.Sprintf("%s/v%d/ok", d.name(), ver))
		})
	}
}

func runC05(t *T) {
	r := t.Rng
	nn := 1 + r.Intn(3)
	c := cluster(t, nn)
	wireMonitor(t, c)
	for _, n := range c.Nodes {
		n.Vers = randVersions(r)
	}
	var mu sync.Mutex
	var last *fake.Req
	c.SetAdmin(func(q *fake.Req) (M, bool) {
		if q.H.Key == kproto.ApiVersions || q.H.Key == kproto.Metadata {
			return nil, false
		}
		mu.Lock()
		last = q
		mu.Unlock()
		d := driverOf[q.H.Key]
		// the handler runs concurrently with the case: use its own source
		rr := rand.New(rand.NewSource(int64(q.H.Corr) + t.Seed))
		return d.genResp(rr, q.H.Version, kproto.GenOpt{MaxElems: 2, MaxBytes: 20}), true
	})
	var bs []*healer.Broker
	for i := 1; i <= nn; i++ {
		bs = append(bs, dialNode(t, c.Nodes[int32(i)], slowConf()))
	}
	var reuse healer.Request
	var reuseKey int
	for round := 0; round < 3; round++ {
		for step := 0; step < 25; step++ {
			i := r.Intn(nn)
			n := c.Nodes[int32(i+1)]
			d := drivers[r.Intn(len(drivers))]
			if d.key == kproto.Metadata {
				continue
			}
			req, _ := d.mk(r, "c05")
			key := d.key
			kind := "fresh"
			if reuse != nil && r.Intn(3) == 0 {
				// the same request object sent to another broker
				req, key, kind = reuse, reuseKey, "reused"
			}
			reuse, reuseKey = req, key
			want := bestVersion(key, n.Vers[key])
			mu.Lock()
			last = nil
			mu.Unlock()
			t.Label("%s to a broker supporting %v (%s)", kproto.APIs[key].Name, n.Vers[key], kind)
			g := reqAndGet(t, bs[i], req, kproto.APIs[key].Name)
			mu.Lock()
			q := last
			mu.Unlock()
			if q == nil {
				t.Fatal("request unreadable at the negotiated version: "+kproto.APIs[key].Name, "broker supports %v, request object %s", n.Vers[key], kind)
			}
			if q.Node != n.ID || q.H.Key != key {
				t.Stop()
			}
			if q.H.Version != want {
				t.Violate("wrong version: "+kproto.APIs[key].Name, "sent v%d, the highest common version is v%d (broker supports %v, healer implements %v)", q.H.Version, want, n.Vers[key], versionsOf(key))
			}
			if g.err != nil {
				t.Violate("answer at the negotiated version rejected: "+kproto.APIs[key].Name, "v%d (%s): %v", q.H.Version, kind, g.err)
			}
			t.Eval(fmt.Sprintf("%s/%v->%d/%s/r%d", kproto.APIs[key].Name, n.Vers[key], q.H.Version, kind, round))
			t.Sample("%s: broker %v, request v%d (%s, after %d reconnects)", kproto.APIs[key].Name, n.Vers[key], q.H.Version, kind, round)
		}
		// the broker is upgraded or downgraded: it comes back with other ranges
		for i := range bs {
			if r.Intn(2) == 0 {
				continue
			}
			n := c.Nodes[int32(i+1)]
			c.Mu.Lock()
			n.Vers = randVersions(r)
			c.Mu.Unlock()
			if r.Intn(2) == 0 {
				bs[i].Close()
			} else {
				n.KillConns()
				// the client notices with the next request at the latest
				req, _ := driverOf[kproto.Heartbeat].mk(r, "c05")
				t.Do("request after the connection died", 60*time.Second, func() { bs[i].RequestAndGet(req) })
			}
		}
	}
}

// undecodedTail: bytes at the end of a response healer has no reason to read.
func runC18(t *T) {
	r := t.Rng
	c := cluster(t, 1)
	n := c.Nodes[1]
	n.Vers = randVersions(r)
	s := &scripted{}
	c.SetAdmin(s.admin)
	var mu sync.Mutex
	var fault *fake.Fault
	c.SetHook(func(q *fake.Req) *fake.Fault {
		if q.H.Key == kproto.ApiVersions {
			return nil
		}
		mu.Lock()
		defer mu.Unlock()
		f := fault
		fault = nil
		return f
	})
	b := dialNode(t, n, slowConf())
	for i := 0; i < 2; i++ {
		eachDriver(r, func(d *apiDriver) {
			ver := bestVersion(d.key, n.Vers[d.key])
			req, _ := d.mk(r, "c18")
			body := d.genResp(r, ver, kproto.GenOpt{MaxElems: 3, MaxBytes: 30})
			kproto.StripTags(body)
			s.set(body)
			frame := kproto.EncodeResponse(d.key, ver, 0, nil, body)
			// trailing tag sections carry nothing
			full := len(frame)
			end := full
			if kproto.APIs[d.key].Resp.Flexible(ver) {
				for end > 8 && frame[end-1] == 0 {
					end--
				}
				if end <= 9 {
					return
				}
				end--
			}
			cut := r.Intn(end)
			mode := "connection dropped"
			f := &fake.Fault{TruncateAt: cut}
			if cut == 0 {
				f = &fake.Fault{CloseAfter: true}
			}
			if cut >= 4 && r.Intn(2) == 0 {
				mode = "short frame"
				f = &fake.Fault{Raw: func(x []byte) []byte {
					y := append([]byte{}, x[:cut]...)
					y[0], y[1], y[2], y[3] = byte((cut-4)>>24), byte((cut-4)>>16), byte((cut-4)>>8), byte(cut-4)
					return y
				}}
			}
			mu.Lock()
			fault = f
			mu.Unlock()
			t.Label("%s v%d cut at %d of %d (%s)", d.name(), ver, cut, full, mode)
			var g getRes
			t.Do("request answered by a truncated response: "+d.name(), 60*time.Second, func() { g.resp, g.err = b.RequestAndGet(req) })
			if q, _ := s.get(); q == nil || q.H.Version != ver {
				t.Stop()
			}
			if g.err == nil {
				t.Violate("truncated response accepted: "+d.name(), "v%d: %d of %d bytes arrived (%s), the call returned success: %+v; sent %v", ver, cut, full, mode, g.resp, body)
			}
			t.Eval(fmt.Sprintf("%s/v%d/%s/%d/%d", d.name(), ver, mode, cut, full))
			t.Sample("%s v%d %s after %d of %d bytes -> %v", d.name(), ver, mode, cut, full, g.err)
			// the same broker object must work again
			ok := false
			var err error
			for k := 0; k < 3 && !ok; k++ {
				req, _ := d.mk(r, "c18")
				s.set(body)
				g := reqAndGet(t, b, req, d.name())
				if err = g.err; err == nil {
					ok = true
					if df := compareResponse(d.name(), g.resp, body); df != "" {
						t.Violate("wrong answer after a truncated response: "+d.name(), "v%d: %s", ver, df)
					}
				}
			}
			if !ok {
				t.Fatal("broker unusable after a truncated response", "%s v%d (%s at %d): three requests in a row fail: %v", d.name(), ver, mode, cut, err)
			}
		})
	}
}

// C01: whatever happened before on the broker (timeouts, late answers, dropped
// connections, concurrent callers), an answer belongs to its own request.
func runC01(t *T) {
	r := t.Rng
	c := cluster(t, 1)
	n := c.Nodes[1]
	n.Vers = randVersions(r)
	cfg := healer.DefaultBrokerConfig()
	cfg.Net.TimeoutMS = 100
	cfg.Net.ConnectTimeoutMS = 60000
	// an answer echoes the token of the request
	var fmu sync.Mutex
	frng := rand.New(rand.NewSource(r.Int63()))
	faultRate := pick(r, 0, 2, 4, 6)
	var holds []chan struct{}
	c.SetAdmin(func(q *fake.Req) (M, bool) {
		switch q.H.Key {
		case kproto.FindCoordinator:
			return M{"error_code": int64(0), "error_message": nil, "node_id": int64(7), "host": "h-" + q.Body.S("key"), "port": int64(1)}, true
		case kproto.SyncGroup:
			return M{"throttle_time_ms": int64(0), "error_code": int64(0), "assignment": []byte(q.Body.S("member"))}, true
		case kproto.DescribeGroups:
			gs := []any{}
			for _, g := range q.Body.A("groups") {
				gs = append(gs, M{"error_code": int64(0), "group": g, "state": "Stable", "protocol_type": "consumer", "protocol": "range", "members": []any{}})
			}
			return M{"throttle_time_ms": int64(0), "groups": gs}, true
		case kproto.OffsetFetch:
			ts := []any{}
			for _, x := range q.Body.Ms("topics") {
				ps := []any{}
				for _, p := range x.A("partitions") {
					ps = append(ps, M{"index": p, "offset": int64(42), "metadata": q.Body.S("group"), "error_code": int64(0)})
				}
				ts = append(ts, M{"name": x.S("name"), "partitions": ps})
			}
			return M{"topics": ts}, true
		}
		return nil, false
	})
	var released []chan struct{}
	c.SetHook(func(q *fake.Req) *fake.Fault {
		if q.H.Key == kproto.ApiVersions {
			return nil
		}
		fmu.Lock()
		defer fmu.Unlock()
		if frng.Intn(20) >= faultRate {
			if frng.Intn(4) == 0 {
				return &fake.Fault{Chunks: []int{1, 2, 5, 9}}
			}
			return nil
		}
		switch frng.Intn(6) {
		case 0:
			return &fake.Fault{CloseBefore: true}
		case 1:
			return &fake.Fault{CloseAfter: true}
		case 2:
			return &fake.Fault{TruncateAt: 1 + frng.Intn(14)}
		case 3: // never answered
			return &fake.Fault{Drop: true}
		default: // answered late, after the client gave up
			ch := make(chan struct{})
			holds = append(holds, ch)
			return &fake.Fault{Hold: ch}
		}
	})
	release := func() {
		fmu.Lock()
		for _, h := range holds {
			close(h)
			released = append(released, h)
		}
		holds = nil
		fmu.Unlock()
	}
	t.Cleanup(release)
	b := dialNode(t, n, cfg)
	callers := pick(r, 1, 1, 2, 4, 8)
	per := 12
	var wg sync.WaitGroup
	seeds := make([]int64, callers)
	for i := range seeds {
		seeds[i] = r.Int63()
	}
	var ok, failed int
	var cm sync.Mutex
	t.Label("callers=%d faults=%d/20", callers, faultRate)
	for i := 0; i < callers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			rr := rand.New(rand.NewSource(seeds[i]))
			for k := 0; k < per; k++ {
				tok := fmt.Sprintf("tok-%d-%d-%s", i, k, kproto.RandName(rr, 30))
				var req healer.Request
				var check func(healer.Response) string
				kind := rr.Intn(4)
				switch kind {
				case 0:
					req = healer.NewFindCoordinatorRequest("c", tok)
					check = func(x healer.Response) string {
						v, isT := x.(healer.FindCoordinatorResponse)
						if !isT {
							return fmt.Sprintf("answer of type %T", x)
						}
						return v.Coordinator.Host[2:]
					}
				case 1:
					req = healer.NewSyncGroupRequest("c", "g", 1, tok, healer.GroupAssignment{})
					check = func(x healer.Response) string {
						v, isT := x.(healer.SyncGroupResponse)
						if !isT {
							return fmt.Sprintf("answer of type %T", x)
						}
						return string(v.MemberAssignment)
					}
				case 2:
					req = healer.NewDescribeGroupsRequest("c", []string{tok})
					check = func(x healer.Response) string {
						v, isT := x.(healer.DescribeGroupsResponse)
						if !isT || len(v.Groups) != 1 {
							return fmt.Sprintf("answer of type %T %v", x, x)
						}
						return v.Groups[0].GroupID
					}
				default:
					q := healer.NewOffsetFetchRequest(0, "c", tok)
					q.AddPartiton("topic", int32(k))
					req = q
					check = func(x healer.Response) string {
						v, isT := x.(healer.OffsetFetchResponse)
						if !isT || len(v.Topics) != 1 || len(v.Topics[0].Partitions) != 1 {
							return fmt.Sprintf("answer of type %T %v", x, x)
						}
						return v.Topics[0].Partitions[0].Metadata
					}
				}
				resp, err := b.RequestAndGet(req)
				if err != nil {
					// answers held back arrive now, after the client gave up
					release()
					cm.Lock()
					failed++
					cm.Unlock()
					if rr.Intn(2) == 0 {
						time.Sleep(time.Millisecond)
					}
					continue
				}
				got := check(resp)
				if got != tok {
					t.Violate("answer of another request", "caller %d request %d asked with token %q and got %q", i, k, tok, got)
				}
				cm.Lock()
				ok++
				cm.Unlock()
				t.Eval("")
			}
		}(i)
	}
	t.Do("concurrent requests on one broker", 110*time.Second, wg.Wait)
	t.Eval(fmt.Sprintf("callers=%d/faults=%d/ok=%d/failed=%d", callers, faultRate, ok, failed))
	t.Sample("callers=%d fault rate %d/20: %d answers matched, %d calls failed", callers, faultRate, ok, failed)
	if faultRate == 0 && failed > 0 {
		t.Violate("request to a healthy broker failed", "%d of %d requests failed without any fault", failed, ok+failed)
	}
	// without further faults the broker object recovers
	c.SetHook(nil)
	release()
	good := false
	var err error
	for k := 0; k < 4 && !good; k++ {
		g := reqAndGet(t, b, healer.NewFindCoordinatorRequest("c", "final"), "after faults")
		if err = g.err; err == nil {
			good = true
			if h := g.resp.(healer.FindCoordinatorResponse).Coordinator.Host; h != "h-final" {
				t.Violate("answer of another request", "asked for final, got %q", h)
			}
		}
	}
	if !good {
		t.Violate("broker unusable after transport faults", "four requests in a row fail on a healthy broker: %v", err)
	}
}

var errHarness = errors.New("harness")

func init() {
	_ = os.Stderr
	_ = errHarness
	base := []string{"the fake brokers speak the Kafka wire format through an independent codec (kproto) transcribed from the protocol specification"}
	mon.Register(&mon.Prop{ID: "C01", Level: "exploration", Rule: "distinct (callers, fault rate, matched answers, failed calls) outcomes of concurrent fault-injected request histories",
		N: map[string]int{"quick": 400, "thorough": 12000}, Par: 6, Run: runC01, Assumptions: base})
	mon.Register(&mon.Prop{ID: "C02", Level: "exploration", Rule: "distinct (api, version, request length) observed on the wire",
		N: map[string]int{"quick": 2000, "thorough": 60000}, Par: 2, Run: runC02, Assumptions: base})
	mon.Register(&mon.Prop{ID: "C03", Level: "exploration", Rule: "distinct (api, version, response length) decoded and compared field by field",
		N: map[string]int{"quick": 2000, "thorough": 60000}, Par: 2, Run: runC03, Assumptions: base})
	mon.Register(&mon.Prop{ID: "C04", Level: "exploration", Rule: "distinct (api, version, place of the error code, code) answers",
		N: map[string]int{"quick": 2000, "thorough": 60000}, Par: 2, Run: runC04, Assumptions: base})
	mon.Register(&mon.Prop{ID: "C05", Level: "exploration", Rule: "distinct (api, advertised range, version used, fresh or reused request object, reconnects)",
		N: map[string]int{"quick": 2000, "thorough": 60000}, Par: 2, Run: runC05, Assumptions: base})
	mon.Register(&mon.Prop{ID: "C18", Level: "exploration", Rule: "distinct (api, version, way of truncation, cut position, frame length)",
		N: map[string]int{"quick": 2000, "thorough": 60000}, Par: 2, Run: runC18, Assumptions: base})
}
