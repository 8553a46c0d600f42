package props

import (
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"github.com/childe/healer"

	"verif/harness/fake"
	"verif/harness/kproto"
	"verif/harness/mon"
)

func cconf(c *fake.Cluster) healer.ConsumerConfig {
	cfg := healer.DefaultConsumerConfig()
	cfg.BootstrapServers = c.Bootstrap()
	cfg.FetchMaxWaitMS = 20
	cfg.RetryBackOffMS = 5
	return cfg
}

// ---- generated logs ----------------------------------------------------------

type logGen struct {
	r     *rand.Rand
	kinds []string // allowed chunk kinds
	next  map[string]int64
	ts    int64
	maxV  int
	maxN  int
	val   func() []byte // replaces random values
	long  bool          // with some very long keys, values, headers and batches
	huge  int           // number of values of more than a megabyte
}

func (g *logGen) rec(off int64, magic int) kproto.Rec {
	r := g.r
	g.ts += int64(r.Intn(2000)) - 300
	rec := kproto.Rec{Offset: off, Ts: g.ts, Key: randBytes(r, 40), Value: randBytes(r, g.maxV)}
	if g.long && r.Intn(12) == 0 {
		n := pick(r, 127, 128, 255, 256, 511, 512, 1023, 1024, 4095, 4096, 8191, 8192, 16384, 32767, 32768, 65535, 65536, 70000+r.Intn(200000))
		b := make([]byte, n)
		r.Read(b[:n/2])
		if r.Intn(3) == 0 {
			rec.Key = b
		} else {
			rec.Value = b
		}
	}
	if g.huge > 0 && r.Intn(6) == 0 {
		g.huge--
		b := make([]byte, 1<<20+r.Intn(1<<pick(r, 10, 20, 22)))
		r.Read(b[:1000])
		rec.Value = b
	}
	if g.val != nil {
		rec.Value = g.val()
	}
	if magic == 2 {
		nh, hl := pick(r, 0, 0, 0, 1, 2, 5), 30
		if g.long && r.Intn(20) == 0 {
			nh, hl = pick(r, 1, 70, 130), pick(r, 10, 10, 3000)
		}
		for ; nh > 0; nh-- {
			h := kproto.Header{Key: kproto.RandString(r, r.Intn(12)), Value: randBytes(r, hl)}
			rec.Headers = append(rec.Headers, h)
		}
	}
	if magic == 0 {
		rec.Ts = 0
	}
	return rec
}

// chunk makes the next piece of the log of a partition.
func (g *logGen) chunk(tp string) (fake.Chunk, string) {
	r := g.r
	kind := g.kinds[r.Intn(len(g.kinds))]
	base := g.next[tp]
	codec := r.Intn(4)
	n := 1 + r.Intn(g.maxN)
	if g.long && g.maxV < 100 && r.Intn(40) == 0 {
		n = pick(r, 64, 65, 128, 300, 8200+r.Intn(200))
		g.long = false
		defer func() { g.long = true }()
	}
	var ch fake.Chunk
	var stamp int64 // the time that the broker set
	if (kind == "v2" || kind == "txn" || kind == "v1") && r.Intn(4) == 0 {
		stamp = g.ts + 5000 + int64(r.Intn(1000))
	}
	switch kind {
	case "v2", "compacted", "txn":
		var recs []kproto.Rec
		for i := 0; i < n; i++ {
			recs = append(recs, g.rec(base+int64(i), 2))
		}
		if kind == "compacted" {
			var left []kproto.Rec
			for _, x := range recs {
				if r.Intn(2) == 0 {
					left = append(left, x)
				}
			}
			recs = left
		}
		bt := g.ts
		if len(recs) > 0 {
			bt = recs[0].Ts
		}
		last := base + int64(n) - 1
		o := kproto.BatchOpt{Codec: codec, BaseOffset: base, LastOffset: last, LeaderEpoch: int32(r.Intn(3)), BaseTs: bt, ProducerID: -1, ProducerEpoch: -1, BaseSeq: -1}
		o.AppendTs = stamp
		if kind == "txn" {
			o.Transactional, o.ProducerID, o.ProducerEpoch, o.BaseSeq = true, 77, 1, 0
		}
		ch = fake.Chunk{First: base, Last: last, Bytes: kproto.EncodeBatch(recs, o), Recs: recs}
	case "empty":
		last := base + int64(n) - 1
		ch = fake.Chunk{First: base, Last: last, Bytes: kproto.EncodeBatch(nil, kproto.BatchOpt{Codec: pick(r, 0, codec), BaseOffset: base, LastOffset: last, BaseTs: g.ts, ProducerID: -1, ProducerEpoch: -1, BaseSeq: -1})}
	case "control":
		// commit or abort marker
		mk := kproto.Rec{Offset: base, Ts: g.ts, Key: []byte{0, 0, 0, byte(r.Intn(2))}, Value: []byte{0, 0, 0, 0, 0, 0}}
		ch = fake.Chunk{First: base, Last: base, Control: true, Bytes: kproto.EncodeBatch([]kproto.Rec{mk}, kproto.BatchOpt{BaseOffset: base, LastOffset: base, BaseTs: g.ts, Transactional: true, Control: true, ProducerID: 77, ProducerEpoch: 1, BaseSeq: -1})}
	case "v1", "v0":
		magic := 1
		if kind == "v0" {
			magic = 0
		}
		var recs []kproto.Rec
		off := base
		for i := 0; i < n; i++ {
			recs = append(recs, g.rec(off, magic))
			off += int64(1 + pick(r, 0, 0, 0, r.Intn(3))) // compaction
		}
		last := recs[len(recs)-1].Offset
		ch = fake.Chunk{First: base, Last: last, Bytes: kproto.EncodeMessageSet(magic, codec, recs, stamp), Recs: recs}
	}
	if stamp != 0 {
		for i := range ch.Recs {
			ch.Recs[i].Ts = stamp
		}
		kind += " append time"
	}
	g.next[tp] = ch.Last + 1
	return ch, fmt.Sprintf("%s/%d", kind, codec)
}

// ---- delivery oracle -----------------------------------------------------------

// expect checks the messages of one partition against its log.
type expect struct {
	t     *T
	c     *fake.Cluster
	topic string
	part  int32
	from  int64
	n     int // delivered
	last  int64
	prev  int64 // offset delivered before last
	bad   bool
	count *atomic.Int64
}

func (e *expect) log() []kproto.Rec {
	l := e.c.Log(e.topic, e.part)
	for i, r := range l {
		if r.Offset >= e.from {
			return l[i:]
		}
	}
	return nil
}

func (e *expect) see(m *healer.FullMessage) {
	if e.bad {
		return
	}
	t := e.t
	if m.Error != nil || m.Message == nil {
		e.bad = true
		t.Violate("an error was delivered as a message", "%s-%d: %v", e.topic, e.part, m.Error)
		return
	}
	g := m.Message
	l := e.log()
	if e.n >= len(l) {
		e.bad = true
		what := "a message that is not in the log"
		if g.Offset <= e.last {
			what = "message delivered again"
		}
		t.Violate(what, "%s-%d: offset %d delivered after the last message (offset %d)", e.topic, e.part, g.Offset, e.last)
		return
	}
	w := l[e.n]
	if g.Offset != w.Offset {
		e.bad = true
		what := "message skipped"
		if e.n > 0 && g.Offset <= e.last {
			what = "message delivered again or out of order"
		} else if g.Offset < w.Offset {
			what = "a message that should not be delivered"
		}
		t.Violate(what, "%s-%d from %d: delivered offset %d, expected %d, previous was %d", e.topic, e.part, e.from, g.Offset, w.Offset, e.last)
		return
	}
	e.n++
	e.prev, e.last = e.last, g.Offset
	if d := diffMsg(m, w, e.topic, e.part); d != "" {
		e.bad = true
		t.Violate("message altered", "%s-%d offset %d: %s", e.topic, e.part, g.Offset, d)
	}
	t.EvalN(1)
}

func diffMsg(m *healer.FullMessage, w kproto.Rec, topic string, part int32) string {
	g := m.Message
	switch {
	case m.TopicName != topic || m.PartitionID != part:
		return fmt.Sprintf("labelled %s-%d", m.TopicName, m.PartitionID)
	case !sameBytes(g.Key, w.Key):
		return fmt.Sprintf("key %s, stored %s", show(g.Key), show(w.Key))
	case !sameBytes(g.Value, w.Value):
		return fmt.Sprintf("value %s, stored %s", show(g.Value), show(w.Value))
	case w.Ts != 0 && int64(g.Timestamp) != w.Ts:
		return fmt.Sprintf("timestamp %d, stored %d", g.Timestamp, w.Ts)
	case len(g.Headers) != len(w.Headers):
		return fmt.Sprintf("%d headers, stored %d", len(g.Headers), len(w.Headers))
	}
	for i, h := range w.Headers {
		if g.Headers[i].Key != h.Key || !sameBytes(g.Headers[i].Value, h.Value) {
			return fmt.Sprintf("header %d is %q=%s, stored %q=%s", i, g.Headers[i].Key, show(g.Headers[i].Value), h.Key, show(h.Value))
		}
	}
	return ""
}

// fetchAt reports the fetch offset of a Fetch request event for a partition.
func fetchAt(e *fake.Ev, topic string, part int32) (int64, bool) {
	if e.Kind != "req" || e.Key != kproto.Fetch || e.Body == nil {
		return 0, false
	}
	for _, tp := range e.Body.Ms("topics") {
		if tp.S("topic") != topic {
			continue
		}
		for _, p := range tp.Ms("partitions") {
			if int32(p.I("partition")) == part {
				return p.I("fetch_offset"), true
			}
		}
	}
	return 0, false
}

func (c12) hw(c *fake.Cluster, topic string, p int32) (ls, hw int64) {
	c.Mu.Lock()
	defer c.Mu.Unlock()
	pt := c.Topics[topic].Parts[p]
	return pt.LogStart, pt.HW
}

type c12 struct{}

var cx c12

func waitEv(t *T, c *fake.Cluster, from int, what string, pred func(*fake.Ev) bool) *fake.Ev {
	e := c.Tr.WaitFor(from, t.Limit(40*time.Second), pred)
	if e == nil {
		t.Hang(what, "%s: nothing seen within %v", what, t.Limit(40*time.Second))
	}
	return e
}

// ---- C11 -----------------------------------------------------------------------

var (
	kindsNew = []string{"v2", "v2", "v2", "compacted", "compacted", "txn", "empty", "control"}
	kindsOld = []string{"v0", "v1"}
)

type heldMsg struct {
	m    *healer.FullMessage
	w    kproto.Rec
	tp   string
	part int32
}

func runC11(t *T) { consumeRun(t, false) }

func runC09consume(t *T) { consumeRun(t, true) }

func consumeRun(t *T, keep bool) {
	r := t.Rng
	nodes := 1 + r.Intn(3)
	c := cluster(t, nodes)
	ntop := pick(r, 1, 1, 1, 2)
	parts := 1 + r.Intn(3)
	mode := pick(r, "simple", "simple", "simple", "consumer")
	if mode == "simple" {
		ntop = 1
	}
	var topics []string
	for i := 0; i < ntop; i++ {
		topics = append(topics, fmt.Sprintf("t%d", i))
		c.AddTopic(topics[i], parts)
	}
	cfg := cconf(c)
	ver := pick(r, "10", "10", "7", "0")
	g := &logGen{r: r, next: map[string]int64{}, ts: 1600000000000, maxV: pick(r, 20, 200, 3000), maxN: pick(r, 1, 4, 15, 40), kinds: kindsNew, long: r.Intn(8) == 0}
	huge := g.long && r.Intn(5) == 0
	if huge {
		g.huge = 1 + r.Intn(2)
	}
	switch ver {
	case "7":
		for _, n := range c.Nodes {
			n.Vers[kproto.Fetch] = [2]int{0, 7 + r.Intn(3)}
		}
		g.kinds = pick(r, kindsNew, kindsOld, append(append([]string{}, kindsNew...), kindsOld...))
	case "10":
		g.kinds = pick(r, kindsNew, kindsNew, kindsOld, append(append([]string{}, kindsNew...), kindsOld...))
	case "0":
		for _, n := range c.Nodes {
			n.Vers[kproto.Fetch] = [2]int{0, r.Intn(2)}
		}
		g.kinds = []string{"v0"}
	}
	cfg.FetchMaxBytes = pick[int32](r, 10<<20, 10<<20, 2000, 300, 40)
	if g.maxV > 1000 {
		cfg.FetchMaxBytes = max(cfg.FetchMaxBytes, 300)
	}
	cfg.FetchMinBytes = pick(r, int32(1), 1, 100)
	c.TruncateFetch = r.Intn(2) == 0
	c.NullEmpty = ver == "10" && r.Intn(3) == 0
	c.CheckEpoch = r.Intn(2) == 0
	c.MaxBatches = pick(r, 0, 0, 1, 3)
	fillChunk := func(tp string, p int32) {
		ch, k := g.chunk(fmt.Sprint(tp, p))
		c.Append(tp, p, ch)
		t.Eval("fetch v" + ver + " " + k)
	}
	for _, tp := range topics {
		for p := 0; p < parts; p++ {
			if r.Intn(3) == 0 {
				base := int64(r.Intn(1 << 20))
				if r.Intn(4) == 0 {
					base += 1 << 33
				}
				g.next[fmt.Sprint(tp, int32(p))] = base
				c.Mu.Lock()
				c.Topics[tp].Parts[int32(p)].LogStart, c.Topics[tp].Parts[int32(p)].HW = base, base
				c.Mu.Unlock()
			}
			for n := r.Intn(12); n >= 0; n-- {
				fillChunk(tp, int32(p))
			}
			if r.Intn(4) == 0 { // records deleted up to the middle of a batch
				c.Mu.Lock()
				pt := c.Topics[tp].Parts[int32(p)]
				pt.LogStart += r.Int63n(min(pt.HW-pt.LogStart, 10) + 1)
				c.Mu.Unlock()
			}
		}
	}
	faulty := r.Intn(2) == 0 && !huge // the timeout is short
	budget := int64(0)
	var faults []string
	hr := rand.New(rand.NewSource(r.Int63()))
	if faulty {
		budget = int64(1 + r.Intn(6))
		faults = pick(r, []string{"truncate"}, []string{"before", "after"}, []string{"code"}, []string{"chunks"}, []string{"truncate", "before", "after", "code", "chunks", "drop"})
		cfg.Net.TimeoutMS = 100
		if t.Slow > 1 {
			cfg.Net.TimeoutMS = 400
		}
	}
	var hmu sync.Mutex
	left := budget
	c.SetHook(func(q *fake.Req) *fake.Fault {
		if !faulty {
			return nil
		}
		hmu.Lock()
		defer hmu.Unlock()
		if q.H.Key == kproto.Metadata || q.H.Key == kproto.ListOffsets {
			if left > 0 && hr.Intn(8) == 0 {
				left--
				return &fake.Fault{CloseAfter: hr.Intn(2) == 0, CloseBefore: true}
			}
			return nil
		}
		if q.H.Key != kproto.Fetch || left <= 0 || hr.Intn(3) > 0 {
			return nil
		}
		left--
		f := faults[hr.Intn(len(faults))]
		t.Eval("fault " + f)
		switch f {
		case "truncate":
			return &fake.Fault{TruncateAt: 1 + kproto.RandLen(hr, 5000)}
		case "before":
			return &fake.Fault{CloseBefore: true}
		case "after":
			return &fake.Fault{CloseAfter: true}
		case "drop":
			return &fake.Fault{Drop: true}
		case "chunks":
			left++
			if hr.Intn(10) == 0 {
				left--
			}
			return &fake.Fault{Chunks: []int{1 + hr.Intn(5), 1 + hr.Intn(50), 1 + hr.Intn(300)}}
		default:
			code := pick(hr, int64(3), 5, 6, 74, -1, 7, 9)
			return &fake.Fault{Body: func(b M) M {
				for _, x := range b.Ms("responses") {
					for _, p := range x.Ms("partitions") {
						p["error_code"] = code
						p["records"] = []byte{}
					}
				}
				return b
			}}
		}
	})
	// what is consumed
	exps := map[string]*expect{}
	add := func(tp string, p int32, from int64) {
		exps[fmt.Sprint(tp, p)] = &expect{t: t, c: c, topic: tp, part: p, from: from, last: -1}
	}
	chanCap := pick(r, 0, 1, 100)
	msgs := make(chan *healer.FullMessage, chanCap)
	t.Label("%s nodes=%d topics=%d parts=%d fetch v%s max=%d kinds=%v faults=%v cap=%d", mode, nodes, ntop, parts, ver, cfg.FetchMaxBytes, g.kinds, faults, chanCap)
	var stop func()
	switch mode {
	case "simple":
		p := int32(r.Intn(parts))
		ls, hw := cx.hw(c, "t0", p)
		from := pick(r, ls, ls, ls+r.Int63n(hw-ls+1), -2)
		var sc *healer.SimpleConsumer
		var err error
		t.Do("creating a consumer", 60*time.Second, func() {
			for i := 0; i < 10; i++ {
				if sc, err = healer.NewSimpleConsumer("t0", p, cfg); err == nil {
					break
				}
			}
		})
		if err != nil {
			t.Fatal("cannot create a consumer", "%v", err)
		}
		stop = sc.Stop
		if from == -2 {
			add("t0", p, ls)
		} else {
			add("t0", p, from)
		}
		t.Do("Consume", 60*time.Second, func() { _, err = sc.Consume(from, msgs) })
	case "consumer":
		cfg.FromBeginning = true
		var co *healer.Consumer
		var err error
		t.Do("creating a consumer", 60*time.Second, func() {
			for i := 0; i < 10; i++ {
				if co, err = healer.NewConsumer(cfg, topics...); err == nil {
					break
				}
			}
		})
		if err != nil {
			t.Fatal("cannot create a consumer", "%v", err)
		}
		asg := map[string][]int{}
		if r.Intn(2) == 0 {
			for _, tp := range topics {
				for _, p := range r.Perm(parts)[:1+r.Intn(parts)] {
					asg[tp] = append(asg[tp], p)
				}
			}
			co.Assign(asg)
		} else {
			co.Subscribe(topics...)
			for _, tp := range topics {
				for p := 0; p < parts; p++ {
					asg[tp] = append(asg[tp], p)
				}
			}
		}
		for tp, ps := range asg {
			for _, p := range ps {
				ls, _ := cx.hw(c, tp, int32(p))
				add(tp, int32(p), ls)
			}
		}
		stop = func() { co.AwaitClose(t.Limit(30 * time.Second)) }
		t.Do("Consume", 60*time.Second, func() { _, err = co.Consume(msgs) })
	}
	stopped := false
	t.Cleanup(func() {
		if !stopped {
			go stop()
		}
	})
	// writers and cluster changes while the consumer runs
	var wg sync.WaitGroup
	moves := nodes > 1 && r.Intn(2) == 0
	if moves {
		c.Mu.Lock()
		c.NotHere = pick(r, int64(6), 6, 3, 5)
		c.Mu.Unlock()
	}
	restarts := faulty && r.Intn(4) == 0
	extra := r.Intn(10)
	seed := r.Int63()
	g2 := *g
	g2.r = rand.New(rand.NewSource(seed))
	wg.Add(1)
	go func() {
		defer wg.Done()
		lr := rand.New(rand.NewSource(seed + 1))
		for i := 0; i < extra; i++ {
			time.Sleep(time.Duration(lr.Intn(3000)) * time.Microsecond)
			tp, p := topics[lr.Intn(ntop)], int32(lr.Intn(parts))
			if moves && lr.Intn(2) == 0 {
				c.SetLeader(tp, p, int32(1+lr.Intn(nodes)))
				t.Eval("leader moved")
			}
			if restarts && lr.Intn(4) == 0 {
				id := int32(1 + lr.Intn(nodes))
				c.StopNode(id)
				time.Sleep(time.Duration(lr.Intn(2000)) * time.Microsecond)
				if c.StartNode(id) != nil {
					time.Sleep(5 * time.Millisecond)
					c.StartNode(id)
				}
				t.Eval("broker restarted")
			}
			ch, k := g2.chunk(fmt.Sprint(tp, p))
			c.Append(tp, p, ch)
			t.Eval("fetch v" + ver + " " + k)
		}
	}()
	var held []heldMsg
	slow := r.Intn(4) == 0
	recv := func(m *healer.FullMessage) {
		e := exps[fmt.Sprint(m.TopicName, m.PartitionID)]
		if e == nil {
			t.Violate("message of a partition nobody asked for", "%s-%d offset %v", m.TopicName, m.PartitionID, m.Message)
			return
		}
		n := e.n
		e.see(m)
		if keep && !e.bad {
			held = append(held, heldMsg{m, e.log()[n], e.topic, e.part})
		}
		if slow && r.Intn(6) == 0 {
			time.Sleep(time.Duration(r.Intn(500)) * time.Microsecond)
		}
	}
	done := func() bool {
		for _, e := range exps {
			if e.n < len(e.log()) && !e.bad {
				return false
			}
		}
		return true
	}
	writers := make(chan struct{})
	go func() { wg.Wait(); close(writers) }()
	idle := time.NewTimer(t.Limit(40 * time.Second))
	for {
		finished := false
		select {
		case <-writers:
			finished = done()
		default:
		}
		if finished {
			break
		}
		select {
		case m := <-msgs:
			recv(m)
			idle.Reset(t.Limit(40 * time.Second))
		case <-idle.C:
			s := ""
			for _, e := range exps {
				ls, hw := cx.hw(c, e.topic, e.part)
				s += fmt.Sprintf(" %s-%d: %d of %d delivered, last offset %d, log %d..%d;", e.topic, e.part, e.n, len(e.log()), e.last, ls, hw)
			}
			t.Hang("messages are not delivered", "nothing delivered any more:%s", s)
		case <-time.After(5 * time.Millisecond):
		}
	}
	// the consumer must now ask for what comes after the log
	for _, e := range exps {
		_, hw := cx.hw(c, e.topic, e.part)
		mark := c.Tr.Len()
		ok := make(chan bool, 1)
		go func() {
			ok <- c.Tr.WaitFor(mark, t.Limit(40*time.Second), func(x *fake.Ev) bool {
				o, is := fetchAt(x, e.topic, e.part)
				return is && o == hw
			}) != nil
		}()
		for waiting := true; waiting; {
			select {
			case m := <-msgs:
				recv(m)
			case seen := <-ok:
				if !seen && !e.bad {
					t.Hang("the consumer does not go on after the last message", "%s-%d: no fetch at offset %d", e.topic, e.part, hw)
				}
				waiting = false
			}
		}
	}
	t.Do("stopping the consumer", 60*time.Second, func() { stop() })
	stopped = true
	for drained := false; !drained; {
		select {
		case m := <-msgs:
			recv(m)
		default:
			drained = true
		}
	}
	if keep {
		for _, h := range held {
			if d := diffMsg(h.m, h.w, h.tp, h.part); d != "" {
				t.Violate("delivered message changed afterwards", "%s-%d offset %d: %s", h.tp, h.part, h.w.Offset, d)
				break
			}
		}
		t.Eval(fmt.Sprintf("consume/%s/v%s/cap%d", mode, ver, chanCap))
	} else {
		t.Eval(fmt.Sprintf("run %s v%s max=%d cap=%d faults=%v moves=%v restarts=%v", mode, ver, cfg.FetchMaxBytes, chanCap, faults, moves, restarts))
	}
	n := 0
	for _, e := range exps {
		n += e.n
	}
	t.Sample("%d messages of %d partitions delivered", n, len(exps))
}

func init() {
	base := []string{"The fake cluster answers Fetch as Kafka brokers do (whole batches, from the batch that contains the offset; trailing partial batches when configured)."}
	mon.Register(&mon.Prop{ID: "C11", Level: "exploration", Rule: "distinct (fetch version, batch kind, codec), faults and consumer set-ups",
		N: map[string]int{"quick": 2500, "thorough": 60000}, Par: 6, Run: runC11, Assumptions: base, Required: []string{"fetch v10 v2/", "fetch v7 v2/", "fetch v0 v0/", "fault ", "leader moved", "broker restarted"}})
}

// ---- C12 -----------------------------------------------------------------------

func runC12(t *T) {
	r := t.Rng
	nodes := 1 + r.Intn(2)
	c := cluster(t, nodes)
	parts := 1 + r.Intn(2)
	c.AddTopic("t", parts)
	part := int32(r.Intn(parts))
	g := &logGen{r: r, next: map[string]int64{}, ts: 1600000000000, maxV: 30, maxN: 4, kinds: []string{"v2"}}
	key := fmt.Sprint("t", part)
	base := pick(r, int64(0), int64(1+r.Intn(50)))
	g.next[key] = base
	c.Mu.Lock()
	pt := c.Topics["t"].Parts[part]
	pt.LogStart, pt.HW = base, base
	c.Mu.Unlock()
	for n := r.Intn(12); n > 0; n-- {
		ch, _ := g.chunk(key)
		c.Append("t", part, ch)
	}
	ls, hw := cx.hw(c, "t", part)
	if hw > ls && r.Intn(3) == 0 {
		c.Mu.Lock()
		pt.LogStart += r.Int63n(hw - ls + 1)
		ls = pt.LogStart
		c.Mu.Unlock()
	}
	if r.Intn(3) == 0 {
		for _, n := range c.Nodes {
			n.Vers[kproto.ListOffsets] = [2]int{0, 0}
		}
	}
	cfg := cconf(c)
	cfg.AutoCommit = r.Intn(2) == 0
	cfg.OffsetsStorage = r.Intn(2)
	committed := int64(-1)
	mode := pick(r, "simple", "simple", "simple+group", "simple+group", "consumer", "consumer+group", "group")
	if mode != "simple" && mode != "consumer" {
		cfg.GroupID = "g"
		if r.Intn(3) > 0 {
			committed = pick(r, ls+r.Int63n(hw-ls+1), ls, hw, 0, hw+1+r.Int63n(20), max(0, ls-1))
			c.SetCommitted("g", "t", part, committed)
		}
	}
	// what is asked for
	var ask int64
	if mode == "simple" || mode == "simple+group" {
		ask = pick(r, int64(-1), -2, ls+r.Int63n(hw-ls+1), ls, hw, hw+1+r.Int63n(9), max(0, ls-1-r.Int63n(5)), 0)
		cfg.FromBeginning = r.Intn(2) == 0 // what is asked for is said in the call
	} else {
		cfg.FromBeginning = r.Intn(2) == 0
		ask = -1
		if cfg.FromBeginning {
			ask = -2
		}
	}
	reset := hw
	if ask == -2 {
		reset = ls
	}
	want := ask
	src := "explicit"
	if ask < 0 {
		want, src = reset, "latest"
		if ask == -2 {
			src = "earliest"
		}
		if committed >= 0 {
			want, src = committed, "committed"
		}
	}
	if want < ls || want > hw {
		want, src = reset, src+" out of range"
	}
	// lookups fail a few times
	fails := map[int]int{}
	var hmu sync.Mutex
	hr := rand.New(rand.NewSource(r.Int63()))
	fault := pick(r, "", "", "offsets", "coordinator", "metadata", "fetch")
	if r.Intn(12) == 0 {
		fault = "committed"
	}
	keyOf := map[string]int{"offsets": kproto.ListOffsets, "coordinator": kproto.FindCoordinator, "committed": kproto.OffsetFetch, "fetch": kproto.Fetch, "metadata": kproto.Metadata}
	if fault != "" {
		fails[keyOf[fault]] = 1 + r.Intn(3)
		if fault == "committed" {
			fails[keyOf[fault]] = 1
		}
	}
	made := false
	c.SetHook(func(q *fake.Req) *fake.Fault {
		hmu.Lock()
		defer hmu.Unlock()
		if fails[q.H.Key] == 0 || (q.H.Key == kproto.Metadata && !made) {
			return nil
		}
		fails[q.H.Key]--
		switch hr.Intn(3) {
		case 0:
			return &fake.Fault{CloseBefore: true}
		case 1:
			return &fake.Fault{TruncateAt: 4 + hr.Intn(20)}
		}
		key, code := q.H.Key, int64(0)
		return &fake.Fault{Body: func(b M) M {
			switch key {
			case kproto.FindCoordinator:
				b["error_code"], b["node_id"], b["host"], b["port"] = int64(15), int64(-1), "", int64(-1)
			case kproto.ListOffsets:
				code = pick(hr, int64(3), 5, 6, -1, 7)
				for _, x := range b.Ms("topics") {
					for _, p := range x.Ms("partitions") {
						p["error_code"], p["offset"], p["timestamp"], p["offsets"] = code, int64(-1), int64(-1), []any{}
					}
				}
			case kproto.OffsetFetch:
				code = pick(hr, int64(14), 16, 15, -1)
				for _, x := range b.Ms("topics") {
					for _, p := range x.Ms("partitions") {
						p["error_code"], p["offset"] = code, int64(-1)
					}
				}
			case kproto.Fetch:
				code = pick(hr, int64(3), 5, 6, 74, -1)
				for _, x := range b.Ms("responses") {
					for _, p := range x.Ms("partitions") {
						p["error_code"], p["records"] = code, []byte{}
					}
				}
			case kproto.Metadata:
				for _, x := range b.Ms("topics") {
					for _, p := range x.Ms("partitions") {
						p["error_code"], p["leader"] = int64(5), int64(-1)
					}
				}
			}
			return b
		}}
	})
	t.Label("%s ask=%d committed=%d log=%d..%d expect=%d (%s) fault=%s storage=%d", mode, ask, committed, ls, hw, want, src, fault, cfg.OffsetsStorage)
	msgs := make(chan *healer.FullMessage, 100)
	var stop func()
	mark := c.Tr.Len()
	t.Do("Consume", 60*time.Second, func() {
		switch mode {
		case "simple", "simple+group":
			sc, err := healer.NewSimpleConsumer("t", part, cfg)
			if err != nil {
				t.Violate("cannot create a consumer", "%v", err)
				return
			}
			hmu.Lock()
			made = true
			hmu.Unlock()
			sc.Consume(ask, msgs)
			stop = sc.Stop
		case "consumer", "consumer+group":
			co, err := healer.NewConsumer(cfg)
			if err != nil {
				t.Violate("cannot create a consumer", "%v", err)
				return
			}
			// its lookup of the topics waits a second after a failure
			co.Assign(map[string][]int{"t": {int(part)}})
			co.Consume(msgs)
			stop = func() { co.AwaitClose(t.Limit(30 * time.Second)) }
		case "group":
			gc, err := healer.NewGroupConsumer("t", cfg)
			if err != nil {
				t.Violate("cannot create a consumer", "%v", err)
				return
			}
			gc.Consume(msgs)
			stop = func() { gc.AwaitClose(t.Limit(30 * time.Second)) }
		}
	})
	if stop == nil {
		t.Stop()
	}
	stopped := false
	t.Cleanup(func() {
		if !stopped {
			go stop()
		}
	})
	// wait until it reads the log, then write one more message
	waitEv(t, c, mark, "the consumer does not start", func(e *fake.Ev) bool {
		o, ok := fetchAt(e, "t", part)
		return ok && o >= ls && o <= hw
	})
	ch, _ := g.chunk(key)
	c.Append("t", part, ch)
	e := &expect{t: t, c: c, topic: "t", part: part, from: want, last: -1}
	for !e.bad && e.n < len(e.log()) {
		select {
		case m := <-msgs:
			if m.PartitionID == part {
				e.see(m)
			}
		case <-time.After(t.Limit(40 * time.Second)):
			t.Hang("messages are not delivered", "%d of %d delivered", e.n, len(e.log()))
		}
	}
	t.Do("stopping the consumer", 60*time.Second, func() { stop() })
	stopped = true
	t.Eval(fmt.Sprintf("%s/%s/%s/%d", mode, src, fault, cfg.OffsetsStorage))
	t.Sample("%s: asked %d, committed %d, log %d..%d, first delivered %d", mode, ask, committed, ls, hw, want)
}

func init() {
	base := []string{"The fake cluster answers ListOffsets, OffsetFetch and Fetch as Kafka brokers do."}
	mon.Register(&mon.Prop{ID: "C12", Level: "exploration", Rule: "distinct (consumer, source of the start offset, failing lookup, offset storage)",
		N: map[string]int{"quick": 3000, "thorough": 60000}, Par: 8, Run: runC12, Assumptions: base, Required: []string{"simple/", "simple+group/committed", "consumer/", "consumer+group/", "group/committed", "simple/explicit out of range"}})
}

// ---- C13 -----------------------------------------------------------------------

func runC13(t *T) {
	r := t.Rng
	nodes := 1 + r.Intn(2)
	c := cluster(t, nodes)
	mode := pick(r, "simple", "consumer", "group", "group")
	parts := 1
	if mode != "simple" {
		parts = 1 + r.Intn(2)
	}
	c.AddTopic("t", parts)
	g := &logGen{r: r, next: map[string]int64{}, ts: 1600000000000, maxV: 30, maxN: pick(r, 1, 3, 8), kinds: kindsNew}
	total := 0
	for p := int32(0); int(p) < parts; p++ {
		key := fmt.Sprint("t", p)
		if r.Intn(2) == 0 {
			base := int64(1 + r.Intn(1000))
			g.next[key] = base
			c.Mu.Lock()
			pt := c.Topics["t"].Parts[p]
			pt.LogStart, pt.HW = base, base
			c.Mu.Unlock()
		}
		for n := 4 + r.Intn(14); n > 0; n-- {
			ch, _ := g.chunk(key)
			c.Append("t", p, ch)
			total += len(ch.Recs)
		}
	}
	auto := r.Intn(4) > 0
	cfg := cconf(c)
	cfg.GroupID = "g"
	cfg.AutoCommit = auto
	cfg.AutoCommitIntervalMS = pick(r, 1, 2, 5, 3600000)
	cfg.OffsetsStorage = pick(r, 1, 1, 0)
	cfg.FromBeginning = true
	explicit := !auto && mode != "consumer" && r.Intn(3) > 0
	faulty := r.Intn(3) == 0
	chanCap := pick(r, 0, 0, 0, 100)
	t.Label("%s parts=%d auto=%v every %d ms storage=%d explicit=%v faulty=%v cap=%d messages=%d", mode, parts, auto, cfg.AutoCommitIntervalMS, cfg.OffsetsStorage, explicit, faulty, chanCap, total)
	var inject atomic.Bool
	var hmu sync.Mutex
	hr := rand.New(rand.NewSource(r.Int63()))
	c.SetHook(func(q *fake.Req) *fake.Fault {
		if !inject.Load() || (q.H.Key != kproto.OffsetCommit && q.H.Key != kproto.Fetch) {
			return nil
		}
		hmu.Lock()
		defer hmu.Unlock()
		if hr.Intn(4) > 0 {
			return nil
		}
		if q.H.Key == kproto.Fetch {
			return pick(hr, &fake.Fault{CloseBefore: true}, &fake.Fault{TruncateAt: 1 + hr.Intn(400)}, &fake.Fault{CloseAfter: true})
		}
		code := pick(hr, int64(14), 15, 16, 27, -1)
		if mode == "group" {
			code = pick(hr, int64(14), 15, 27, -1)
		}
		return pick(hr, &fake.Fault{CloseBefore: true}, &fake.Fault{CloseAfter: true}, &fake.Fault{SkipProcess: true, Body: func(b M) M {
			var ts []any
			for _, x := range q.Body.Ms("topics") {
				var ps []any
				for _, p := range x.Ms("partitions") {
					ps = append(ps, M{"index": p.I("index"), "error_code": code})
				}
				ts = append(ts, M{"name": x.S("name"), "partitions": ps})
			}
			return M{"topics": ts}
		}})
	})

	resume := map[int32]int64{}
	for p := int32(0); int(p) < parts; p++ {
		resume[p], _ = cx.hw(c, "t", p)
	}
	type span struct{ lo, hi int64 }
	// where the next message to deliver is
	position := func(e *expect) span {
		lo := e.from
		if e.n > 0 {
			lo = e.last + 1
		}
		_, hw := cx.hw(c, "t", e.part)
		hi := hw
		if l := e.log(); e.n < len(l) {
			hi = l[e.n].Offset
		}
		return span{lo, hi}
	}
	rounds := 2 + r.Intn(4)
	moved := false
	for round := 0; round < rounds; round++ {
		exps := map[int32]*expect{}
		for p := int32(0); int(p) < parts; p++ {
			exps[p] = &expect{t: t, c: c, topic: "t", part: p, from: resume[p], last: -1}
		}
		c.Tr.Note("incarnation", "%d", round)
		msgs := make(chan *healer.FullMessage, chanCap)
		var stop, commit func()
		cfg.ClientID = fmt.Sprint("client", round)
		inject.Store(false)
		t.Do("Consume", 60*time.Second, func() {
			switch mode {
			case "simple":
				sc, err := healer.NewSimpleConsumer("t", 0, cfg)
				if err != nil {
					t.Violate("cannot create a consumer", "%v", err)
					return
				}
				sc.Consume(-2, msgs)
				stop, commit = sc.Stop, sc.CommitOffset
			case "consumer":
				co, err := healer.NewConsumer(cfg, "t")
				if err != nil {
					t.Violate("cannot create a consumer", "%v", err)
					return
				}
				co.Consume(msgs)
				stop = func() { co.AwaitClose(t.Limit(30 * time.Second)) }
			default:
				gc, err := healer.NewGroupConsumer("t", cfg)
				if err != nil {
					t.Violate("cannot create a consumer", "%v", err)
					return
				}
				gc.Consume(msgs)
				stop, commit = func() { gc.AwaitClose(t.Limit(30 * time.Second)) }, gc.CommitOffset
			}
		})
		if stop == nil {
			t.Stop()
		}
		stopped := false
		t.Cleanup(func() {
			if !stopped {
				go stop()
			}
		})
		inject.Store(faulty)
		moving := false
		left := 0
		for _, e := range exps {
			left += len(e.log())
		}
		n := r.Intn(left + 1)
		if round == rounds-1 {
			n = left
		}
		if faulty && nodes > 1 && !moved && mode == "simple" && r.Intn(2) == 0 {
			moved, moving = true, true
			to := int32(1 + r.Intn(nodes))
			c.Mu.Lock()
			c.CoordOf = func(string) int32 { return to }
			c.Mu.Unlock()
		}
		bad := false
		take := func(m *healer.FullMessage) {
			c.Tr.Add(&fake.Ev{Kind: "got", Body: M{"topic": m.TopicName, "partition": int64(m.PartitionID)}})
			if e := exps[m.PartitionID]; e != nil && m.TopicName == "t" {
				e.see(m)
				bad = bad || e.bad
			} else {
				t.Fatal("message of a partition nobody asked for", "%s-%d", m.TopicName, m.PartitionID)
			}
		}
		for i := 0; i < n && !bad; i++ {
			if r.Intn(5) == 0 {
				time.Sleep(time.Duration(r.Intn(6000)) * time.Microsecond) // nobody is receiving
			}
			if explicit && chanCap == 0 && r.Intn(4) == 0 && !faulty {
				commit()
				for p, e := range exps {
					if e.n < 2 {
						continue
					}
					// the position is advanced right after the delivery
					if at, ok := c.Committed("g", "t", p), position(e); at < max(e.from, e.prev+1) || at > ok.hi {
						t.Violate("commit does not record the position", "t-%d: committed %d, next message to deliver is in %d..%d", p, at, ok.lo, ok.hi)
					}
					t.Eval("explicit commit")
				}
			}
			c.Tr.Note("want", "")
			select {
			case m := <-msgs:
				take(m)
			case <-time.After(t.Limit(40 * time.Second)):
				t.Hang("messages are not delivered", "round %d: %d of %d delivered", round, i, n)
			}
		}
		if bad {
			return
		}
		if round == rounds-1 && r.Intn(2) == 0 {
			time.Sleep(time.Duration(r.Intn(10)) * time.Millisecond)
		}
		inject.Store(false)
		if r.Intn(2) == 0 {
			// stop while nobody receives
			t.Do("stopping the consumer", 60*time.Second, func() { stop() })
		} else {
			ch := make(chan struct{})
			go func() { defer close(ch); stop() }()
			dl := time.After(t.Limit(60 * time.Second))
			for done := false; !done; {
				c.Tr.Note("want", "")
				select {
				case m := <-msgs:
					take(m)
				case <-ch:
					done = true
				case <-dl:
					t.Hang("stopping the consumer", "did not return")
				}
			}
		}
		stopped = true
		c.Tr.Note("stopped", "%d", round)
		for drained := false; !drained; {
			select {
			case m := <-msgs:
				take(m)
			default:
				drained = true
			}
		}
		if bad {
			return
		}
		for p, e := range exps {
			at := c.Committed("g", "t", p)
			ok := position(e)
			if auto && moving && at < ok.lo {
				// the last commit may have gone to the old coordinator
				resume[p] = max(at, exps[p].from)
				if at < 0 {
					resume[p], _ = cx.hw(c, "t", p)
				}
			} else if auto {
				if e.n > 0 && (at < ok.lo || at > ok.hi) {
					t.Fatal("position not committed at stop", "t-%d: stopped with the next message at %d..%d, committed is %d", p, ok.lo, ok.hi, at)
				}
				resume[p] = ok.lo
				t.Eval(fmt.Sprintf("clean restart %s cap=%d", mode, chanCap))
			} else if at >= 0 {
				resume[p] = at
			}
		}
	}
	// the recorded commits against what had been delivered
	last := map[int64]int64{}
	open := 0
	recsOf := map[int64][]kproto.Rec{}
	for p := int32(0); int(p) < parts; p++ {
		recsOf[int64(p)] = c.Log("t", p)
		last[int64(p)] = -1
	}
	idx := map[int64]int{} // index of the next record to be received
	for _, e := range c.Tr.Events() {
		switch e.Kind {
		case "incarnation":
			open = 0
			for p := range recsOf {
				// resumes at the committed offset
				at := last[p]
				i := 0
				for i < len(recsOf[p]) && recsOf[p][i].Offset < at {
					i++
				}
				idx[p] = i
			}
		case "want":
			open = 1
		case "got":
			open = 0
			idx[e.Body.I("partition")]++
		case "commit":
			p, off := e.Body.I("partition"), e.Body.I("offset")
			if !auto && !explicit {
				t.Violate("commit without being asked", "t-%d: %d committed, auto.commit is off and nobody called CommitOffset", p, off)
			}
			if off < 0 {
				t.Violate("negative offset committed", "t-%d: %d", p, off)
			}
			if off < last[p] {
				t.Violate("committed offset went back", "t-%d: %d after %d", p, off, last[p])
			}
			last[p] = off
			lim := idx[p] + open + chanCap
			if lim < len(recsOf[p]) && off > recsOf[p][lim].Offset {
				t.Violate("offset committed before the message was delivered", "t-%d: %d committed (event #%d), but the message at offset %d is not delivered yet", p, off, e.Seq, recsOf[p][lim].Offset)
			}
			_, hw := cx.hw(c, "t", int32(p))
			if off > hw {
				t.Violate("offset committed beyond the log", "t-%d: %d, the log ends at %d", p, off, hw)
			}
			t.Eval("commit checked")
		}
	}
	t.Eval(fmt.Sprintf("%s auto=%v every=%d storage=%d explicit=%v faulty=%v cap=%d", mode, auto, cfg.AutoCommitIntervalMS, cfg.OffsetsStorage, explicit, faulty, chanCap))
	t.Sample("%s: %d rounds, %d messages, committed %d", mode, rounds, total, c.Committed("g", "t", 0))
}

func init() {
	mon.Register(&mon.Prop{ID: "C13", Level: "exploration", Rule: "distinct commit set-ups; every commit accepted by the coordinator is checked against the deliveries recorded before it",
		N: map[string]int{"quick": 3000, "thorough": 60000}, Par: 6, Run: runC13, Assumptions: []string{"A message counts as delivered when it is in the channel handed to Consume."},
		Required: []string{"simple ", "consumer ", "group ", "commit checked", "explicit commit", "clean restart"}})
}
