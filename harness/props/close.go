package props

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"github.com/childe/healer"

	"verif/harness/fake"
	"verif/harness/kproto"
	"verif/harness/mon"
)

// ---- C21: Close leaves nothing behind ----------------------------------------------

// one buffer: the polls must not set off the garbage collector, see noGC
var (
	stackBuf  = make([]byte, 4<<20)
	stackLock sync.Mutex
)

// healerGoroutines returns the stacks of goroutines that are in healer or were started by it.
func healerGoroutines() (res []string) {
	stackLock.Lock()
	defer stackLock.Unlock()
	for _, s := range strings.Split(string(stackBuf[:runtime.Stack(stackBuf, true)]), "\n\n") {
		if strings.Contains(s, "github.com/childe/healer.") {
			res = append(res, s)
		}
	}
	return
}

// noGC keeps the garbage collector from closing connections that were forgotten.
func noGC() {
	debug.SetMemoryLimit(1200 << 20)
	debug.SetGCPercent(-1)
	var m runtime.MemStats
	if runtime.ReadMemStats(&m); m.HeapAlloc > 200<<20 {
		runtime.GC() // now, between two cases
	}
}

// gone waits until no connection is open and no goroutine of the client runs.
func gone(t *T, c *fake.Cluster, what string) {
	dl := time.Now().Add(t.Limit(30 * time.Second))
	for i := 0; ; i++ {
		n, g := c.OpenConns(), healerGoroutines()
		if n == 0 && len(g) == 0 {
			// nobody is left who could open a new one, except a connection not yet accepted
			time.Sleep(time.Millisecond)
			if c.OpenConns() == 0 {
				break
			}
			continue
		}
		if time.Now().After(dl) {
			s := ""
			for _, x := range g {
				s += x + "\n\n"
			}
			if len(g) > 0 {
				t.Hang("goroutine left behind", "%s: %d connections open, %d goroutines\n%s", what, n, len(g), s)
			}
			t.Hang("connection left open", "%s: %d connections open", what, n)
		}
		if i < 20 {
			runtime.Gosched()
		} else {
			time.Sleep(time.Millisecond)
		}
	}
	t.Eval(what)
}

func runC21(t *T) {
	noGC()
	r := t.Rng
	nodes := 1 + r.Intn(3)
	c := cluster(t, nodes)
	wireMonitor(t, c)
	c.RebalanceTimeout = t.Limit(5 * time.Second)
	c.AddTopic("t", 1+r.Intn(4))
	kind := lifeKinds[r.Intn(len(lifeKinds))]
	x := lifeConf(c)
	x.prod.FlushIntervalMS = pick(r, 1, 5, never)
	x.prod.MetadataMaxAgeMS = pick(r, 2, 10, never)
	x.cons.MetadataMaxAgeMS = pick(r, 5, 50, never)
	x.cons.AutoCommitIntervalMS = pick(r, 1, 20, never)
	x.cons.FetchMaxWaitMS = pick(r, int32(1), 20, 100)
	scene := pick(r, "quiet", "working", "working", "faults", "faults", "stuffed", "unused", "failed creation", "closed twice", "after close", "leader moves")
	t.Label("%s %s nodes=%d", kind, scene, nodes)
	what := scene + " " + kind
	if len(healerGoroutines()) > 0 {
		t.Stop() // of an aborted case before
	}
	if scene == "failed creation" {
		failedCreation(t, c, x, kind)
		return
	}
	var l *live
	var err error
	t.Do("creating a "+kind, 60*time.Second, func() { l, err = x.open(t, c, kind) })
	if err != nil {
		t.Fatal("cannot create a component on a healthy cluster", "%s: %v", kind, err)
	}
	stopFaults := func() {}
	round := func() {
		var err error
		t.Do(kind+" at work", 80*time.Second, func() { err = l.round() })
		l.judge(t, "component does not work", err)
	}
	end := func() { t.Do("closing a "+kind, 110*time.Second, l.close) }
	switch scene {
	case "unused":
		end()
	case "quiet":
		for i := 0; i < 1+r.Intn(2); i++ {
			round()
		}
		end()
	case "working": // closed in the middle of the work
		round()
		var wg sync.WaitGroup
		wg.Add(1)
		go func() { defer wg.Done(); defer func() { recover() }(); l.poke() }()
		feed(c, 5)
		time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
		end()
		t.Do("a call when the component is closed", 60*time.Second, wg.Wait)
	case "faults":
		stop := make(chan struct{})
		var wg sync.WaitGroup
		wg.Add(1)
		seed := r.Int63()
		go func() {
			defer wg.Done()
			fr := newRand(seed)
			for {
				select {
				case <-stop:
					return
				case <-time.After(time.Duration(fr.Intn(3000)) * time.Microsecond):
				}
				id := int32(1 + fr.Intn(nodes))
				if fr.Intn(3) == 0 {
					c.StopNode(id)
					time.Sleep(time.Duration(fr.Intn(2000)) * time.Microsecond)
					c.StartNode(id)
				} else {
					c.Nodes[id].KillConns()
				}
			}
		}()
		once := sync.Once{}
		stopFaults = func() { once.Do(func() { close(stop); wg.Wait() }) }
		t.Cleanup(stopFaults)
		t.Do(kind+" under faults", 100*time.Second, func() { feed(c, 3); l.poke() })
		time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
		if r.Intn(2) == 0 {
			stopFaults()
		}
		end()
		stopFaults()
	case "stuffed": // nobody receives the messages
		for i := 0; i < 40; i++ {
			feed(c, 5)
		}
		time.Sleep(time.Duration(r.Intn(15)) * time.Millisecond)
		end()
	case "closed twice":
		if r.Intn(2) == 0 {
			round()
		}
		var wg sync.WaitGroup
		wg.Add(2)
		t.Do("closing twice at the same time", 110*time.Second, func() {
			go func() { defer wg.Done(); l.close() }()
			go func() { defer wg.Done(); l.close() }()
			wg.Wait()
		})
		end()
	case "after close":
		round()
		end()
		gone(t, c, "before a late call of "+kind)
		t.Do("a call after Close", 60*time.Second, func() {
			defer func() {
				if e := recover(); e != nil {
					t.Violate("a call after Close panics", "%s: %v", kind, e)
				}
			}()
			l.poke()
		})
	case "leader moves":
		round()
		added := r.Intn(2) == 0 // some go to a broker that nobody has heard of
		if added {
			nodes++
			c.AddNode(int32(nodes))
		}
		c.Mu.Lock()
		for p := range c.Topics["t"].Parts {
			c.Topics["t"].Parts[p].Leader = int32(1 + r.Intn(nodes))
			if added && r.Intn(2) == 0 {
				c.Topics["t"].Parts[p].Leader = int32(nodes)
			}
		}
		if added && r.Intn(2) == 0 {
			id := int32(nodes)
			c.CoordOf = func(string) int32 { return id }
		}
		c.Mu.Unlock()
		time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
		if kind != "brokers" && kind != "client" {
			t.Do(kind+" after the leaders moved", 80*time.Second, func() { l.round() })
		}
		end()
	}
	gone(t, c, what)
	t.Sample("%s: %d events", what, c.Tr.Len())
}

// failedCreation: the creation ends with an error at some point, or succeeds.
func failedCreation(t *T, c *fake.Cluster, x lifeCfg, kind string) {
	r := t.Rng
	n := r.Intn(8)
	how := pick(r, "close", "error", "truncated", "sasl")
	if how == "sasl" {
		c.Sasl = &fake.Sasl{Mechanisms: []string{"PLAIN"}, Check: func(string, []byte) bool { return false }}
		s := healer.SaslConfig{Mechanism: "PLAIN", User: "u", Password: "p"}
		x.prod.Sasl, x.cons.Sasl, x.brok.Sasl = s, s, s
	}
	var mu sync.Mutex
	k := 0
	c.SetHook(func(q *fake.Req) *fake.Fault {
		mu.Lock()
		defer mu.Unlock()
		k++
		if k <= n || k > n+3 || how == "sasl" {
			return nil
		}
		switch how {
		case "close":
			return &fake.Fault{CloseAfter: true}
		case "truncated":
			return &fake.Fault{TruncateAt: 1 + n}
		}
		return &fake.Fault{Body: func(b M) M {
			switch q.H.Key {
			case kproto.ApiVersions, kproto.FindCoordinator, kproto.ListGroups:
				b["error_code"] = int64(15)
			case kproto.Metadata:
				for _, tp := range b.Ms("topics") {
					tp["error_code"] = int64(5)
				}
			}
			return b
		}}
	})
	var l *live
	var err error
	t.Do("creating a "+kind+" while requests fail", 100*time.Second, func() { l, err = x.open(t, c, kind) })
	if l != nil {
		t.Do("closing a "+kind, 110*time.Second, l.close)
	}
	gone(t, c, fmt.Sprintf("failed creation %s %s failed=%v", kind, how, err != nil))
	t.Sample("%s %s after %d requests: %v", kind, how, n, err)
}

func init() {
	mon.Register(&mon.Prop{ID: "C21", Level: "exploration", Rule: "distinct (scenario, component) pairs",
		N: map[string]int{"quick": 2000, "thorough": 30000}, Par: 1, Procs: 16, Run: runC21, CaseLimit: 300 * time.Second,
		Required: []string{"working producer", "working group consumer", "faults consumer", "faults group consumer", "stuffed group consumer", "stuffed simple consumer", "failed creation producer", "failed creation simple producer", "closed twice", "after close", "leader moves producer"}})
}
