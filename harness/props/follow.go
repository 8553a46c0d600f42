package props

import (
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	healer "github.com/childe/healer"

	"verif/harness/fake"
	"verif/harness/kproto"
	"verif/harness/mon"
)

// ---- C28: a producer follows its topic ---------------------------------------

func runC28(t *T) {
	r := t.Rng
	if r.Intn(3) == 0 {
		groupWithoutLeaders(t)
		return
	}
	nodes := 1 + r.Intn(4)
	boot := nodes
	parts := 1 + r.Intn(6)
	c := cluster(t, nodes)
	c.AddTopic("t", parts)
	place := func(p int32) { c.SetLeader("t", p, int32(1+r.Intn(nodes))) }
	for p := int32(0); int(p) < parts; p++ {
		place(p)
	}
	lost := map[int32]bool{}
	setErr := func(p int32, code int64) {
		c.Mu.Lock()
		c.Topics["t"].Parts[p].Err = code
		c.Mu.Unlock()
	}
	lose := func(p int32) { lost[p] = true; c.SetLeader("t", p, -1); setErr(p, 5) }
	restore := func() {
		for p := range lost {
			place(p)
			setErr(p, 0)
			delete(lost, p)
		}
	}
	cfg := pconf(c)
	cfg.MetadataMaxAgeMS = pick(r, 5, 10, 30)
	cfg.RetryBackOffMS = 5
	cfg.MessageMaxCount = 1
	cfg.CompressionType = pick(r, "none", "gzip", "snappy", "lz4")
	cfg.Acks = pick(r, int16(1), -1)
	var metas atomic.Int64
	var fault atomic.Pointer[fake.Fault]
	c.SetHook(func(q *fake.Req) *fake.Fault {
		if q.H.Key != kproto.Metadata {
			return nil
		}
		metas.Add(1)
		if len(q.Body.A("topics")) == 0 { // of all the topics
			return nil
		}
		return fault.Load()
	})
	early := r.Intn(3) == 0
	if early {
		for i := 1 + r.Intn(parts); i > 0; i-- {
			lose(int32(r.Intn(parts)))
		}
		if len(lost) == parts {
			p := int32(r.Intn(parts))
			delete(lost, p)
			place(p)
			setErr(p, 0)
		}
	}
	t.Label("nodes=%d parts=%d age=%d without leader at the start=%d", nodes, parts, cfg.MetadataMaxAgeMS, len(lost))
	p := producer(t, c, "t", cfg)

	var keys [][]byte
	for i := 0; i < 12*parts; i++ {
		keys = append(keys, []byte(fmt.Sprintf("key-%d-%d", i, r.Intn(1000))))
	}
	var mu sync.Mutex
	acked := map[string]bool{}
	sent := map[string]bool{}
	seq := 0
	send := func(k []byte) (string, error) {
		mu.Lock()
		seq++
		v := fmt.Sprint("m", seq)
		sent[v] = true
		mu.Unlock()
		err := p.AddMessage(k, []byte(v))
		if err == nil {
			mu.Lock()
			acked[v] = true
			mu.Unlock()
		}
		return v, err
	}
	where := map[string]int32{} // of a key
	find := func() map[string]int32 {
		m := map[string]int32{}
		c.Mu.Lock()
		n := len(c.Topics["t"].Parts)
		c.Mu.Unlock()
		for q := int32(0); int(q) < n; q++ {
			for _, rec := range c.Log("t", q) {
				m[string(rec.Value)] = q
			}
		}
		return m
	}
	what := "creation"
	// refreshed waits until the producer has looked at the topic again, from the start to the end
	refreshed := func() {
		from := metas.Load()
		dl := time.Now().Add(t.Limit(60 * time.Second))
		for metas.Load() < from+int64(16+nodes) {
			if time.Now().After(dl) {
				t.Hang("producer does not refresh its metadata", "after %s: %d metadata requests", what, metas.Load()-from)
			}
			time.Sleep(time.Millisecond)
		}
	}
	moved := map[int32]bool{} // since the last refresh
	failed := map[string]bool{}
	last := map[string]string{} // the last message with a key
	pass := func(strict bool) {
		t.Do("sending", 100*time.Second, func() {
			for i := -1; i < len(keys); i++ {
				var k []byte
				up := len(lost) < parts && len(moved) == 0
				if i >= 0 {
					k = keys[i]
					q, known := where[string(k)]
					up = known && !lost[q] && !moved[q]
				}
				v, err := send(k)
				if i >= 0 {
					last[string(k)] = v
					if err != nil {
						failed[string(k)] = true
					}
				}
				if up && strict && err != nil {
					if isTimeout(err) {
						t.Soft("send timed out", "after %s: %v", what, err)
					}
					t.Violate("producer does not follow its topic", "after %s: message %s with key %q, to a partition that has a leader: %v", what, v, k, err)
					return
				}
				t.EvalN(1)
			}
		})
	}
	learn := func() {
		failed = map[string]bool{}
		pass(false)
		pass(false)
		m := find()
		for _, k := range keys {
			if q, ok := m[last[string(k)]]; ok {
				where[string(k)] = q
			}
		}
		if len(where) != len(keys) && len(lost) == 0 {
			t.Violate("producer does not follow its topic", "after %s: %d of %d keys can be sent although every partition has a leader", what, len(where), len(keys))
		}
	}
	if early {
		refreshed()
		what = "creation without all leaders"
		was := map[int32]bool{}
		for q := range lost {
			was[q] = true
		}
		pass(false)
		pass(true) // messages without key
		bad := map[string]bool{}
		failed = map[string]bool{}
		pass(true)
		for k := range failed {
			bad[k] = true
		}
		restore()
		what = "leaders came back"
		refreshed()
		learn()
		for k := range bad {
			if !was[where[k]] {
				t.Violate("send refused because of another partition", "key %q belongs to partition %d, which had a leader; partitions without one: %v", k, where[k], was)
			}
		}
		t.Eval("created without all leaders")
	} else {
		learn()
	}
	pass(true)

	// another caller, whose sends may fail at any time
	stop := make(chan struct{})
	var wg sync.WaitGroup
	if r.Intn(2) == 0 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; ; i++ {
				select {
				case <-stop:
					return
				default:
				}
				k := keys[i%len(keys)]
				if i%5 == 0 {
					k = nil
				}
				send(k)
				time.Sleep(500 * time.Microsecond)
			}
		}()
	}
	var evs []string
	for i := 2 + r.Intn(5); i > 0; i-- {
		what = pick(r, "moves", "moves", "lost leaders", "lost leaders", "leaders came back", "new partitions", "new broker", "stopped broker", "restarted broker", "failed refresh")
		switch what {
		case "moves":
			for q := int32(0); int(q) < parts; q++ {
				if !lost[q] && r.Intn(2) == 0 {
					moved[q] = true
					place(q)
				}
			}
		case "lost leaders":
			for q := int32(0); int(q) < parts; q++ {
				if r.Intn(3) == 0 {
					moved[q] = true
					lose(q)
				}
			}
		case "leaders came back":
			restore()
		case "new partitions":
			if len(lost) > 0 {
				what = "nothing"
				break
			}
			add := 1 + r.Intn(3)
			c.Mu.Lock()
			for k := 0; k < add; k++ {
				n := int32(1 + r.Intn(nodes))
				c.Topics["t"].Parts[int32(parts+k)] = &fake.Partition{Leader: n, Replicas: []int32{n}, ISR: []int32{n}}
			}
			c.Mu.Unlock()
			parts += add
			for k := 0; k < 12*add; k++ {
				keys = append(keys, []byte(fmt.Sprintf("key+%d-%d", len(keys), r.Intn(1000))))
			}
		case "new broker":
			nodes++
			c.AddNode(int32(nodes))
			for q := int32(0); int(q) < parts; q++ {
				if !lost[q] && r.Intn(2) == 0 {
					c.SetLeader("t", q, int32(nodes))
				}
			}
		case "stopped broker":
			if nodes < 2 {
				what = "nothing"
				break
			}
			id := int32(1 + r.Intn(nodes))
			if boot == 1 && id == 1 { // the only bootstrap address
				id = 2
			}
			for q := int32(0); int(q) < parts; q++ {
				if !lost[q] {
					to := int32(1 + r.Intn(nodes-1))
					if to >= id {
						to++
					}
					c.SetLeader("t", q, to)
				}
			}
			c.StopNode(id)
			refreshed()
			pass(false)
			pass(true)
			if err := c.StartNode(id); err != nil {
				close(stop)
				t.Stop()
			}
		case "restarted broker":
			id := int32(1 + r.Intn(nodes))
			c.StopNode(id)
			if err := c.StartNode(id); err != nil {
				close(stop)
				t.Stop()
			}
		case "failed refresh":
			f := &fake.Fault{CloseBefore: true}
			switch r.Intn(3) {
			case 0:
				code := pick(r, int64(3), 5, 29, -1)
				f = &fake.Fault{Body: func(b M) M {
					for _, x := range b.Ms("topics") {
						x["error_code"], x["partitions"] = code, []any{}
					}
					return b
				}}
			case 1:
				f = &fake.Fault{TruncateAt: 1 + r.Intn(40)}
			}
			fault.Store(f)
			refreshed()
			pass(true)
			fault.Store(nil)
		}
		if len(moved) > 0 && len(moved) < parts {
			// the others are not disturbed while the producer follows
			for from := metas.Load(); metas.Load() < from+8; {
				pass(true)
			}
			t.Eval("undisturbed")
		}
		refreshed()
		clear(moved)
		if what == "new partitions" {
			where = map[string]int32{}
			learn()
		}
		pass(false)
		pass(true)
		if what == "new partitions" {
			used := map[int32]bool{}
			for _, q := range where {
				used[q] = true
			}
			if len(used) != parts {
				t.Violate("new partitions are not used", "%d keys, %d partitions, %d are used", len(keys), parts, len(used))
			}
		}
		t.Eval("after " + what)
		evs = append(evs, what)
	}
	restore()
	what = "leaders came back"
	refreshed()
	pass(false)
	pass(true)
	close(stop)
	wg.Wait()
	t.Do("Close", 60*time.Second, p.Close)
	// what was reported as sent is stored, exactly once
	stored := map[string]int{}
	for q := int32(0); int(q) < parts; q++ {
		for _, rec := range c.Log("t", q) {
			stored[string(rec.Value)]++
		}
	}
	for v := range sent {
		if acked[v] && stored[v] != 1 || stored[v] > 1 {
			t.Violate("message lost or duplicated", "message %s, sent %v: stored %d times", v, acked[v], stored[v])
		}
	}
	t.EvalN(len(sent))
	t.Eval(fmt.Sprintf("history %v", evs))
	t.Sample("%v: %d messages, %d acknowledged", evs, len(sent), len(acked))
}

// groupWithoutLeaders: partitions of a group lose their leaders and get them
// back while members come and go.
func groupWithoutLeaders(t *T) {
	r := t.Rng
	nodes := 1 + r.Intn(3)
	parts := 2 + r.Intn(5)
	c := cluster(t, nodes)
	c.RebalanceTimeout = t.Limit(10 * time.Second)
	c.AddTopic("t", parts)
	lost := map[int32]bool{}
	lead := func(p, leader int32, code int64) {
		c.SetLeader("t", p, leader)
		c.Mu.Lock()
		c.Topics["t"].Parts[p].Err = code
		c.Mu.Unlock()
	}
	lose := func() {
		for q := int32(0); int(q) < parts; q++ {
			if !lost[q] && r.Intn(2) == 0 && len(lost) < parts-1 {
				lost[q] = true
				lead(q, -1, 5)
			}
		}
	}
	restore := func() {
		for q := range lost {
			delete(lost, q)
			lead(q, int32(1+r.Intn(nodes)), 0)
		}
	}
	var mu sync.Mutex
	seen := map[string]bool{}
	var live []*healer.GroupConsumer
	join := func() {
		cfg := cconf(c)
		cfg.GroupID = "g"
		cfg.FromBeginning = true
		cfg.SessionTimeoutMS = 400
		cfg.AutoCommitIntervalMS = 20
		cfg.MetadataMaxAgeMS = pick(r, never, 25)
		var gc *healer.GroupConsumer
		var err error
		t.Do("creating a group consumer", 60*time.Second, func() { gc, err = healer.NewGroupConsumer("t", cfg) })
		if err != nil {
			t.Fatal("cannot create a group consumer", "%v", err)
		}
		t.Cleanup(func() { go gc.Close() })
		live = append(live, gc)
		ch := make(chan *healer.FullMessage, 100)
		end := make(chan struct{})
		t.Cleanup(func() { close(end) })
		go gc.Consume(ch)
		go func() {
			for {
				select {
				case m := <-ch:
					if m != nil && m.Error == nil {
						mu.Lock()
						seen[fmt.Sprint(m.PartitionID, "/", m.Message.Offset)] = true
						mu.Unlock()
					}
				case <-end:
					return
				}
			}
		}()
	}
	what := "the start"
	arrive := func() {
		dl := time.Now().Add(t.Limit(60 * time.Second))
		for {
			missing, of := "", 0
			for q := int32(0); int(q) < parts; q++ {
				if lost[q] {
					continue
				}
				for _, rec := range c.Log("t", q) {
					of++
					id := fmt.Sprint(q, "/", rec.Offset)
					mu.Lock()
					if !seen[id] {
						missing = id
					}
					mu.Unlock()
				}
			}
			if missing == "" {
				t.EvalN(of)
				return
			}
			if time.Now().After(dl) {
				t.Hang("partition with a leader is not consumed", "after %s: message %s is not delivered; partitions without leader: %v", what, missing, lost)
			}
			time.Sleep(2 * time.Millisecond)
		}
	}
	t.Label("group nodes=%d parts=%d", nodes, parts)
	feed(c, 1+r.Intn(3))
	if r.Intn(2) == 0 {
		lose()
		what = "a start without all leaders"
	}
	join()
	arrive()
	for i := 2 + r.Intn(4); i > 0; i-- {
		what = pick(r, "join", "join", "leave", "lost leaders", "lost leaders", "leaders came back", "rebalance")
		switch what {
		case "join":
			if len(live) > 3 {
				continue
			}
			join()
		case "leave":
			if len(live) < 2 {
				continue
			}
			g := live[0]
			live = live[1:]
			t.Do("Close", 60*time.Second, g.Close)
		case "lost leaders":
			lose()
		case "leaders came back":
			restore()
		case "rebalance":
			c.Rebalance("g")
		}
		feed(c, 1+r.Intn(2))
		arrive()
		t.Eval(fmt.Sprintf("group: %s, %d without leader", what, len(lost)))
	}
	restore()
	what = "leaders came back"
	arrive()
	for _, g := range live {
		t.Do("Close", 60*time.Second, g.Close)
	}
	t.Sample("group with %d partitions: %d messages", parts, len(seen))
}

func init() {
	mon.Register(&mon.Prop{ID: "C28", Level: "exploration", Rule: "distinct histories of changes of the topic under a producer",
		N: map[string]int{"quick": 300, "thorough": 12000}, Par: 10, Run: runC28, Assumptions: []string{"The fake cluster answers metadata and produce requests as Kafka brokers do."},
		Required: []string{"created without all leaders", "after moves", "undisturbed", "after lost leaders", "after leaders came back", "after new partitions", "after new broker", "after stopped broker", "after restarted broker", "after failed refresh", "group: join, 1 without leader", "group: rebalance", "group: leave"}})
}
