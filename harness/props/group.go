package props

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/childe/healer"

	"verif/harness/fake"
	"verif/harness/kproto"
	"verif/harness/mon"
)

// ---- group consumers under test ---------------------------------------------------

type gcons struct {
	id    string // client id
	topic string
	gc    *healer.GroupConsumer
	msgs  chan *healer.FullMessage
	mu    sync.Mutex
	got   []*healer.FullMessage
	quit  chan struct{}
	done  chan struct{}
	dead  bool
}

func newGcons(t *T, c *fake.Cluster, cfg healer.ConsumerConfig, id, topic string, capac int) *gcons {
	cfg.ClientID = id
	g := &gcons{id: id, topic: topic, msgs: make(chan *healer.FullMessage, capac), quit: make(chan struct{}), done: make(chan struct{})}
	var err error
	t.Do("NewGroupConsumer", 60*time.Second, func() { g.gc, err = healer.NewGroupConsumer(topic, cfg) })
	if err != nil {
		t.Fatal("cannot create a group consumer on a healthy cluster", "%v", err)
	}
	go func() {
		defer close(g.done)
		for {
			select {
			case m := <-g.msgs:
				g.mu.Lock()
				g.got = append(g.got, m)
				g.mu.Unlock()
			case <-g.quit:
				for {
					select {
					case m := <-g.msgs:
						g.mu.Lock()
						g.got = append(g.got, m)
						g.mu.Unlock()
					default:
						return
					}
				}
			}
		}
	}()
	t.Cleanup(func() {
		if !g.dead {
			go g.gc.AwaitClose(time.Second)
		}
	})
	go g.gc.Consume(g.msgs)
	return g
}

func (g *gcons) close(t *T) {
	g.dead = true
	t.Do("closing a group consumer", 90*time.Second, func() { g.gc.AwaitClose(t.Limit(60 * time.Second)) })
	close(g.quit)
	<-g.done
}

// memberOf returns the client id of a member id.
func memberOf(id string) string {
	if i := strings.LastIndex(id, "-"); i > 0 {
		return id[:i]
	}
	return id
}

// clientsOf counts the clients that are under test.
func clientsOf(ids []string) (n int) {
	for _, x := range ids {
		if !strings.HasPrefix(x, "foreign") {
			n++
		}
	}
	return
}

// settled waits until the group is stable with exactly these clients.
func settled(t *T, c *fake.Cluster, group string, clients []string, cond func() bool) {
	settledIdle(t, c, group, clients, 0, cond)
}

// settledIdle also ends the sessions of members that have been silent for idle.
func settledIdle(t *T, c *fake.Cluster, group string, clients []string, idle time.Duration, cond func() bool) {
	want := append([]string(nil), clients...)
	sort.Strings(want)
	dl := time.Now().Add(t.Limit(60 * time.Second))
	var st string
	var gen int32
	var ids []string
	for time.Now().Before(dl) {
		if idle > 0 {
			c.ExpireIdle(group, idle)
		}
		st, gen, ids = c.GroupState(group)
		var got []string
		for _, id := range ids {
			got = append(got, memberOf(id))
		}
		sort.Strings(got)
		ok := fmt.Sprint(got) == fmt.Sprint(want) && (st == "Stable" || (clientsOf(want) == 0 && st == "Empty"))
		if ok && (cond == nil || cond()) {
			return
		}
		time.Sleep(3 * time.Millisecond)
	}
	t.Hang("the group does not settle", "group is %s in generation %d with members %v, expected %v", st, gen, ids, want)
}

func checkGenerations(t *T, c *fake.Cluster, group string, from int) int {
	h := c.GroupHistory(group)
	for _, g := range h[from:] {
		if !g.Complete {
			continue
		}
		if g.BadErr != nil {
			t.Violate("invalid assignment encoding", "generation %d: %v", g.N, g.BadErr)
			continue
		}
		if len(g.Extra) > 0 {
			t.Violate("assignment for somebody who is not a member", "generation %d: %v, members %v", g.N, g.Extra, g.Members)
		}
		subs := map[string][]string{}
		for m, ts := range g.Members {
			seen := map[string]bool{}
			for _, tp := range ts {
				if !seen[tp] {
					subs[tp] = append(subs[tp], m)
				}
				seen[tp] = true
			}
		}
		for tp, ms := range subs {
			owner := map[int32]string{}
			lo, hi := 1<<30, 0
			for _, m := range ms {
				ps := g.Assign[m][tp]
				lo, hi = min(lo, len(ps)), max(hi, len(ps))
				for _, p := range ps {
					if o, dup := owner[p]; dup {
						t.Violate("partition assigned twice", "generation %d: %s-%d to %s and %s", g.N, tp, p, o, m)
					}
					owner[p] = m
				}
			}
			have := map[int32]bool{}
			for _, p := range g.Parts[tp] {
				have[p] = true
			}
			for _, p := range g.Before[tp] {
				if _, ok := owner[p]; !ok {
					t.Violate("partition assigned to nobody", "generation %d: %s-%d, subscribers %v, assignment %v", g.N, tp, p, ms, g.Assign)
				}
			}
			for p := range owner {
				if !have[p] {
					t.Violate("partition assigned that does not exist", "generation %d: %s-%d", g.N, tp, p)
				}
			}
			if hi-lo > 1 {
				t.Violate("unbalanced assignment", "generation %d: topic %s with %d partitions and %d subscribers: between %d and %d partitions each", g.N, tp, len(g.Parts[tp]), len(ms), lo, hi)
			}
			t.Eval(fmt.Sprintf("%d partitions over %d members of %d, %d topics", len(g.Parts[tp]), len(ms), len(g.Members), len(subs)))
		}
		for m, a := range g.Assign {
			for tp, ps := range a {
				ok := false
				for _, s := range g.Members[m] {
					ok = ok || s == tp
				}
				if !ok && len(ps) > 0 {
					t.Violate("topic assigned to a member that does not subscribe to it", "generation %d: %s gets %s%v, subscribes to %v", g.N, m, tp, ps, g.Members[m])
				}
			}
		}
	}
	return len(h)
}

// beats waits until every client has sent a heartbeat in this generation, as it only
// does after it has processed the assignment. It is false if the generation is over.
func beats(t *T, c *fake.Cluster, group string, clients []string) bool {
	_, gen, _ := c.GroupState(group)
	left := map[string]bool{}
	for _, x := range clients {
		if !strings.HasPrefix(x, "foreign") {
			left[x] = true
		}
	}
	if len(left) > 0 {
		next := fmt.Sprintf("group=%s gen=%d ", group, gen+1)
		ev := c.Tr.WaitFor(0, t.Limit(40*time.Second), func(e *fake.Ev) bool {
			if e.Kind == "req" && e.Key == kproto.Heartbeat && e.Body != nil && e.Body.I("generation") == int64(gen) {
				delete(left, memberOf(e.Body.S("member")))
			}
			return len(left) == 0 || e.Kind == "generation" && strings.HasPrefix(e.Note, next)
		})
		if ev == nil {
			t.Hang("a member sends no heartbeats", "generation %d: no heartbeat of %v", gen, left)
		}
	}
	st, g, _ := c.GroupState(group)
	return (st == "Stable" || clientsOf(clients) == 0) && g == gen
}

// quiet waits until the group is stable and every member knows its assignment.
func quiet(t *T, c *fake.Cluster, group string, clients []string, idle time.Duration) {
	for i := 0; ; i++ {
		settledIdle(t, c, group, clients, idle, nil)
		if beats(t, c, group, clients) {
			return
		}
		if i == 100 {
			t.Hang("the group rebalances again and again", "%d generations, members %v", len(c.GroupHistory(group)), clients)
		}
	}
}

// checkOwners: in the stable group every partition is fetched by its owner and nobody else.
func checkOwners(t *T, c *fake.Cluster, group string) {
	mark := c.Tr.Len()
	h := c.GroupHistory(group)
	if len(h) == 0 {
		return
	}
	g := h[len(h)-1]
	owner := map[string]string{}
	for m, a := range g.Assign {
		if strings.HasPrefix(m, "foreign") {
			continue
		}
		for tp, ps := range a {
			for _, p := range ps {
				owner[fmt.Sprintf("%s-%d", tp, p)] = memberOf(m)
			}
		}
	}
	fetched := func(e *fake.Ev) (string, string, bool) {
		if e.Kind != "req" || e.Key != kproto.Fetch || e.Body == nil || e.Req == nil || e.Req.H.ClientID == nil {
			return "", "", false
		}
		for _, tp := range e.Body.Ms("topics") {
			for _, p := range tp.Ms("partitions") {
				return *e.Req.H.ClientID, fmt.Sprintf("%s-%d", tp.S("topic"), p.I("partition")), true
			}
		}
		return "", "", false
	}
	for tp, o := range owner {
		ev := c.Tr.WaitFor(mark, t.Limit(40*time.Second), func(e *fake.Ev) bool {
			cl, x, ok := fetched(e)
			return ok && cl == o && x == tp
		})
		if ev == nil {
			t.Hang("an assigned partition is not consumed", "generation %d: %s is assigned to %s, which does not fetch it", g.N, tp, o)
		}
	}
	other := map[string]int{}
	for _, e := range c.Tr.Events()[mark:] {
		if cl, tp, ok := fetched(e); ok && owner[tp] != cl {
			k := cl + " " + tp
			if other[k]++; other[k] == 3 {
				t.Violate("a partition is consumed by somebody else than its owner", "generation %d: %s is fetched by %s, assigned to %q", g.N, tp, cl, owner[tp])
			}
		}
	}
	t.EvalN(len(owner))
}

// ---- C14 -----------------------------------------------------------------------

func runC14(t *T) {
	r := t.Rng
	nodes := 1 + r.Intn(2)
	c := cluster(t, nodes)
	c.JoinDelay = 5 * time.Millisecond
	c.RebalanceTimeout = t.Limit(20 * time.Second)
	ntop := pick(r, 1, 2, 3, 3, 5)
	var topics []string
	for i := 0; i < ntop; i++ {
		tp := fmt.Sprintf("topic%d", i)
		topics = append(topics, tp)
		c.AddTopic(tp, pick(r, 1, 2, 3, 4, 5, 7, 11))
	}
	if r.Intn(2) == 0 {
		seed := r.Int63()
		c.ShuffleParts = func(p []int) {
			rand.New(rand.NewSource(seed)).Shuffle(len(p), func(i, j int) { p[i], p[j] = p[j], p[i] })
		}
	}
	cfg := cconf(c)
	cfg.GroupID = "grp"
	cfg.SessionTimeoutMS = pick(r, int32(200), 400)
	cfg.FetchMaxWaitMS = 10
	cfg.MetadataMaxAgeMS = 15
	cfg.FromBeginning = r.Intn(2) == 0
	var live []*gcons
	var foreign []string
	serial := 0
	join := func() {
		serial++
		live = append(live, newGcons(t, c, cfg, fmt.Sprintf("%s%d", pick(r, "a", "b", "c"), serial), topics[r.Intn(ntop)], 10))
	}
	names := func() (out []string) {
		for _, g := range live {
			out = append(out, g.id)
		}
		for _, f := range foreign {
			out = append(out, memberOf(f))
		}
		return
	}
	start := 1 + r.Intn(4)
	t.Label("nodes=%d topics=%d start=%d", nodes, ntop, start)
	if r.Intn(3) == 0 {
		fc := pick(r, 1, 2)
		for i := 0; i < fc; i++ {
			subs := append([]string(nil), topics...)
			r.Shuffle(ntop, func(i, j int) { subs[i], subs[j] = subs[j], subs[i] })
			subs = subs[:1+r.Intn(ntop)]
			id := fmt.Sprintf("foreign%d-%04d", i, r.Intn(100))
			foreign = append(foreign, id)
			c.AddForeign("grp", id, subs, fake.EncodeSubscription(int16(r.Intn(2)), subs, pick(r, nil, []byte{}, []byte("user"))))
		}
	}
	for i := 0; i < start; i++ {
		join()
	}
	checked := 0
	steps := 1 + r.Intn(4)
	for s := 0; ; s++ {
		quiet(t, c, "grp", names(), 0)
		checked = checkGenerations(t, c, "grp", 0)
		checkOwners(t, c, "grp")
		_, _, ids := c.GroupState("grp")
		t.Eval(fmt.Sprintf("settled with %d members", len(ids)))
		if s == steps {
			break
		}
		switch what := pick(r, "join", "join", "leave", "grow", "expire", "rebalance"); what {
		case "join":
			for n := 1 + r.Intn(2); n > 0; n-- {
				join()
			}
		case "leave":
			if len(live) > 1 {
				i := r.Intn(len(live))
				g := live[i]
				live = append(live[:i], live[i+1:]...)
				g.close(t)
			}
		case "grow":
			tp := topics[r.Intn(ntop)]
			subscribed := false
			for _, g := range live {
				subscribed = subscribed || g.topic == tp
			}
			c.Mu.Lock()
			n := int32(len(c.Topics[tp].Parts))
			for k := int32(0); k <= int32(r.Intn(3)); k++ {
				c.Topics[tp].Parts[n+k] = &fake.Partition{Leader: int32(1 + r.Intn(nodes)), Replicas: []int32{1}, ISR: []int32{1}}
			}
			n = int32(len(c.Topics[tp].Parts))
			c.Mu.Unlock()
			if subscribed {
				settled(t, c, "grp", names(), func() bool {
					h := c.GroupHistory("grp")
					g := h[len(h)-1]
					return g.Complete && len(g.Parts[tp]) == int(n)
				})
				t.Eval("topic grew")
			}
		case "expire":
			_, _, ids := c.GroupState("grp")
			id := ids[r.Intn(len(ids))]
			if !strings.HasPrefix(id, "foreign") {
				c.Expire("grp", id)
				t.Eval("member expired")
			}
		case "rebalance":
			c.Rebalance("grp")
		}
	}
	// closing: one after the other, at once in the middle of each other's rebalances, or while joining
	how := pick(r, "settled", "sequence", "together")
	if r.Intn(3) == 0 {
		join()
		time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
	}
	if how == "together" {
		var wg sync.WaitGroup
		for _, g := range live {
			wg.Add(1)
			go func() {
				defer wg.Done()
				g.gc.AwaitClose(t.Limit(60 * time.Second))
			}()
		}
		t.Do("closing the consumers of a group together", 90*time.Second, wg.Wait)
	}
	for len(live) > 0 {
		g := live[0]
		live = live[1:]
		g.close(t)
		if how == "settled" {
			quiet(t, c, "grp", names(), 0)
		}
	}
	t.Eval("closed " + how)
	checkGenerations(t, c, "grp", checked)
	settledEmpty(t, c, foreign)
	t.Sample("%d generations, %d consumers", len(c.GroupHistory("grp")), serial)
}

func settledEmpty(t *T, c *fake.Cluster, foreign []string) {
	_, _, ids := c.GroupState("grp")
	if len(ids) != len(foreign) {
		t.Violate("closed consumers are still members", "members after all consumers were closed: %v", ids)
	}
}

// ---- C15 -----------------------------------------------------------------------

func runC15(t *T) {
	r := t.Rng
	nodes := 1 + r.Intn(3)
	c := cluster(t, nodes)
	c.JoinDelay = 5 * time.Millisecond
	c.RebalanceTimeout = t.Limit(20 * time.Second)
	parts := 1 + r.Intn(5)
	c.AddTopic("t", parts)
	cfg := cconf(c)
	cfg.GroupID = "grp"
	cfg.FetchMaxWaitMS = 10
	cfg.FromBeginning = true
	cfg.OffsetsStorage = 1
	cfg.AutoCommitIntervalMS = pick(r, 2, 10, 3600000)
	clean := r.Intn(2) == 0
	idle := time.Duration(0)
	if !clean {
		idle = time.Duration(float64(time.Second) * t.Slow)
		c.RebalanceTimeout = idle
	}
	cfg.SessionTimeoutMS = pick(r, int32(200), 400)
	if clean {
		cfg.SessionTimeoutMS = int32(float64(1500) * t.Slow)
	}
	// how late this machine is
	var late atomic.Int64
	quit := make(chan struct{})
	defer close(quit)
	go func() {
		for {
			b := time.Now()
			select {
			case <-quit:
				return
			case <-time.After(10 * time.Millisecond):
			}
			if d := int64(time.Since(b)) - int64(10*time.Millisecond); d > late.Load() {
				late.Store(d)
			}
		}
	}()
	g := &logGen{r: rand.New(rand.NewSource(r.Int63())), next: map[string]int64{}, ts: 1600000000000, maxV: 30, maxN: pick(r, 1, 4), kinds: []string{"v2", "v2", "compacted", "control"}}
	var lmu sync.Mutex
	write := func(n int) {
		lmu.Lock()
		defer lmu.Unlock()
		for ; n > 0; n-- {
			p := int32(g.r.Intn(parts))
			ch, _ := g.chunk(fmt.Sprint("t", p))
			c.Append("t", p, ch)
		}
	}
	write(5 * parts)
	var all, live []*gcons
	capac := pick(r, 0, 1, 50)
	t.Label("nodes=%d parts=%d clean=%v commit=%d session=%d cap=%d", nodes, parts, clean, cfg.AutoCommitIntervalMS, cfg.SessionTimeoutMS, capac)
	join := func() {
		x := newGcons(t, c, cfg, fmt.Sprintf("m%d", len(all)), "t", capac)
		all, live = append(all, x), append(live, x)
	}
	names := func() (out []string) {
		for _, x := range live {
			out = append(out, x.id)
		}
		return
	}
	var hmu sync.Mutex
	hr := rand.New(rand.NewSource(r.Int63()))
	inject := map[int]int{} // api -> number of faults
	c.SetHook(func(q *fake.Req) *fake.Fault {
		hmu.Lock()
		defer hmu.Unlock()
		if inject[q.H.Key] == 0 {
			return nil
		}
		inject[q.H.Key]--
		code := int64(0)
		switch q.H.Key {
		case kproto.Heartbeat:
			code = pick(hr, int64(22), 25, 27, 16, 15)
		case kproto.JoinGroup:
			code = pick(hr, int64(15), 16, 25, 14)
		case kproto.SyncGroup:
			code = pick(hr, int64(22), 25, 27, 16)
		case kproto.FindCoordinator:
			code = 15
		}
		k := hr.Intn(3)
		t.Eval(fmt.Sprintf("fault %s %d/%d", kproto.Name(q.H.Key), code, k))
		switch k {
		case 0:
			return &fake.Fault{CloseBefore: true}
		case 1:
			return &fake.Fault{CloseAfter: true}
		}
		return &fake.Fault{SkipProcess: true, Body: func(b M) M {
			switch q.H.Key {
			case kproto.JoinGroup:
				return M{"error_code": code, "generation": int64(-1), "protocol": "", "leader": "", "member": q.Body.S("member"), "members": []any{}}
			case kproto.SyncGroup:
				return M{"error_code": code, "assignment": []byte{}}
			case kproto.FindCoordinator:
				return M{"error_code": code, "error_message": nil, "node_id": int64(-1), "host": "", "port": int64(-1)}
			}
			return M{"error_code": code}
		}}
	})
	for n := 1 + r.Intn(3); n > 0; n-- {
		join()
	}
	quiet(t, c, "grp", names(), idle)
	steps := 1 + r.Intn(4)
	closed := map[string]time.Time{} // client -> when Close returned
	for s := 0; s < steps; s++ {
		write(r.Intn(4 * parts))
		what := pick(r, "join", "join", "leave", "leave", "none")
		if !clean {
			what = pick(r, "join", "leave", "expire", "moved", "killed", "restart", "heartbeat", "join error", "sync error", "coordinator error")
		}
		seen := len(c.GroupHistory("grp"))
		switch what {
		case "join":
			join()
		case "leave":
			if len(live) > 1 || len(live) == 1 && r.Intn(4) == 0 {
				i := r.Intn(len(live))
				x := live[i]
				live = append(live[:i], live[i+1:]...)
				x.close(t)
				closed[x.id] = time.Now()
			}
		case "expire":
			if _, _, ids := c.GroupState("grp"); len(ids) > 0 {
				c.Expire("grp", ids[r.Intn(len(ids))])
			}
		case "moved":
			to := int32(1 + r.Intn(nodes))
			c.Mu.Lock()
			c.CoordOf = func(string) int32 { return to }
			c.Mu.Unlock()
		case "killed":
			for _, n := range c.Nodes {
				n.KillConns()
			}
		case "restart":
			id := int32(1 + r.Intn(nodes))
			c.StopNode(id)
			time.Sleep(time.Duration(r.Intn(50)) * time.Millisecond)
			if c.StartNode(id) != nil {
				time.Sleep(20 * time.Millisecond)
				if c.StartNode(id) != nil {
					t.Stop()
				}
			}
		case "heartbeat":
			hmu.Lock()
			inject[kproto.Heartbeat] = 1 + r.Intn(2)
			hmu.Unlock()
		case "join error", "sync error", "coordinator error":
			hmu.Lock()
			inject[map[string]int{"join error": kproto.JoinGroup, "sync error": kproto.SyncGroup, "coordinator error": kproto.FindCoordinator}[what]] = 1 + r.Intn(2)
			hmu.Unlock()
			c.Rebalance("grp")
		}
		t.Eval("step " + what)
		if r.Intn(2) == 0 {
			time.Sleep(time.Duration(r.Intn(60)) * time.Millisecond)
		}
		write(r.Intn(3 * parts))
		if clean || r.Intn(3) > 0 {
			quiet(t, c, "grp", names(), idle)
		}
		_ = seen
	}
	if len(live) == 0 {
		join()
	}
	quiet(t, c, "grp", names(), idle)
	write(parts)
	// everything must arrive, and everybody must keep sending heartbeats
	type tpo struct {
		p int32
		o int64
	}
	count := func() (map[tpo]int, int) {
		m := map[tpo]int{}
		n := 0
		for _, x := range all {
			x.mu.Lock()
			for _, f := range x.got {
				if f.Message != nil {
					m[tpo{f.PartitionID, f.Message.Offset}]++
					n++
				}
			}
			x.mu.Unlock()
		}
		return m, n
	}
	missing := func() string {
		m, _ := count()
		for p := int32(0); int(p) < parts; p++ {
			for _, rec := range c.Log("t", p) {
				if m[tpo{p, rec.Offset}] == 0 {
					return fmt.Sprintf("t-%d offset %d", p, rec.Offset)
				}
			}
		}
		return ""
	}
	dl := time.Now().Add(t.Limit(60 * time.Second))
	for missing() != "" {
		if time.Now().After(dl) {
			t.Hang("a message is delivered to nobody", "%s was delivered to no member of the group", missing())
		}
		time.Sleep(5 * time.Millisecond)
	}
	mark := c.Tr.Len()
	for _, x := range live {
		waitEv(t, c, mark, "a member sends no heartbeats", func(e *fake.Ev) bool {
			return e.Kind == "req" && e.Key == kproto.Heartbeat && e.Req != nil && e.Req.H.ClientID != nil && *e.Req.H.ClientID == x.id
		})
	}
	quiet(t, c, "grp", names(), idle)
	for len(live) > 0 {
		x := live[0]
		live = live[1:]
		x.close(t)
		closed[x.id] = time.Now()
		quiet(t, c, "grp", names(), idle)
	}
	if st, _, ids := c.GroupState("grp"); len(ids) != 0 {
		t.Violate("closed consumers are still members", "group is %s with %v after all consumers were closed", st, ids)
	}
	// contents
	logs := map[int32]map[int64]kproto.Rec{}
	for p := int32(0); int(p) < parts; p++ {
		logs[p] = map[int64]kproto.Rec{}
		for _, rec := range c.Log("t", p) {
			logs[p][rec.Offset] = rec
		}
	}
	for _, x := range all {
		for _, m := range x.got {
			if m.Error != nil {
				t.Violate("an error was delivered as a message", "%v", m.Error)
				continue
			}
			w, ok := logs[m.PartitionID][m.Message.Offset]
			if !ok {
				t.Violate("a message that is not in the log", "t-%d offset %d", m.PartitionID, m.Message.Offset)
			} else if d := diffMsg(m, w, "t", m.PartitionID); d != "" {
				t.Violate("message altered", "t-%d offset %d: %s", m.PartitionID, m.Message.Offset, d)
			}
		}
	}
	evs := c.Tr.Events()
	kicked := false
	// membership as the coordinator knows it
	type pair struct {
		m string
		g int64
	}
	given := map[pair]bool{}
	current := map[string]pair{} // client -> last membership
	for _, e := range evs {
		switch e.Kind {
		case "kick", "expire":
			kicked = true
		case "resp":
			if e.Key == kproto.JoinGroup && e.Body != nil && e.Body.I("error_code") == 0 && e.Req != nil && e.Req.H.ClientID != nil {
				p := pair{e.Body.S("member"), e.Body.I("generation")}
				given[p] = true
				current[*e.Req.H.ClientID] = p
			}
		case "req":
			if e.Req == nil || e.Req.H.ClientID == nil || e.Body == nil {
				continue
			}
			cl := *e.Req.H.ClientID
			// a request sent just before may be read just after: allow for it
			if at, ok := closed[cl]; ok && e.At.Sub(at) > 300*time.Millisecond {
				t.Soft("a closed consumer goes on", "%s sent %s after Close had returned", cl, kproto.Name(e.Key))
			}
			switch e.Key {
			case kproto.Heartbeat, kproto.SyncGroup, kproto.OffsetCommit:
				p := pair{e.Body.S("member"), e.Body.I("generation")}
				if !given[p] || memberOf(p.m) != cl {
					t.Violate("a member uses a membership it does not have", "%s sends %s as %q generation %d", cl, kproto.Name(e.Key), p.m, p.g)
				} else if clean && e.Key != kproto.OffsetCommit && p != current[cl] {
					t.Violate("a member uses an old membership", "%s sends %s as %q generation %d, it is %q generation %d", cl, kproto.Name(e.Key), p.m, p.g, current[cl].m, current[cl].g)
				}
				t.EvalN(1)
			case kproto.LeaveGroup:
				if clean && e.Body.S("member") != current[cl].m {
					t.Violate("a member leaves under another name", "%s leaves as %q, it is %q", cl, e.Body.S("member"), current[cl].m)
				}
			}
		}
	}
	checkGenerations(t, c, "grp", 0)
	m, n := count()
	if clean && !kicked {
		var dup string
		for k, v := range m {
			if v > 1 {
				dup = fmt.Sprintf("t-%d offset %d was delivered %d times", k.p, k.o, v)
			}
		}
		if dup != "" {
			if late.Load() > int64(150*time.Millisecond) {
				t.Soft("message delivered again after a clean rebalance", "%s", dup)
			}
			t.Violate("message delivered again after a clean rebalance", "%s", dup)
		}
		for p := int32(0); int(p) < parts; p++ {
			at := c.Committed("grp", "t", p)
			l := c.Log("t", p)
			if len(l) > 0 && at <= l[len(l)-1].Offset {
				t.Violate("position not committed at close", "t-%d: all messages up to %d were delivered, committed is %d", p, l[len(l)-1].Offset, at)
			}
		}
		t.Eval(fmt.Sprintf("clean run: %d consumers, %d generations", len(all), len(c.GroupHistory("grp"))))
	} else {
		t.Eval(fmt.Sprintf("faulty run: %d consumers, %d generations", len(all), len(c.GroupHistory("grp"))))
	}
	t.Sample("%d messages delivered, %d in the log, %d generations, clean=%v", n, len(m), len(c.GroupHistory("grp")), clean)
}

func init() {
	base := []string{"The fake coordinator implements the group state machine of Kafka (join, sync, heartbeat, leave, commit) without session expiry of its own.", "All topics that members subscribe to exist."}
	mon.Register(&mon.Prop{ID: "C14", Level: "exploration", Rule: "distinct (partitions, subscribers, members, topics) of completed generations",
		N: map[string]int{"quick": 1200, "thorough": 20000}, Par: 12, Run: runC14, Assumptions: base, Required: []string{"topic grew", "member expired", "settled with 4", "closed settled", "closed sequence", "closed together"}})
	mon.Register(&mon.Prop{ID: "C15", Level: "exploration", Rule: "distinct membership changes, faults, and run shapes",
		N: map[string]int{"quick": 900, "thorough": 12000}, Par: 12, Run: runC15, Assumptions: base, Required: []string{"clean run", "faulty run", "step moved", "step restart", "fault Heartbeat", "fault JoinGroup", "fault SyncGroup"}})
}
