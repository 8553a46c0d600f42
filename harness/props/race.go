package props

import (
	"context"
	"fmt"
	"math/rand"
	"sync"
	"time"

	"github.com/childe/healer"

	"verif/harness/fake"
	"verif/harness/mon"
)

// ---- C20: no data races ------------------------------------------------------------
//
// The monitor is the race detector; the binary of this check is built with -race.

// crowd runs the functions in random order from several goroutines.
func crowd(t *T, what string, workers, calls int, fs ...func(r *rand.Rand)) {
	t.Do(what, 110*time.Second, func() {
		var wg sync.WaitGroup
		for w := 0; w < workers; w++ {
			wg.Add(1)
			r := newRand(t.Rng.Int63())
			go func() {
				defer wg.Done()
				for i := 0; i < calls; i++ {
					fs[r.Intn(len(fs))](r)
				}
			}()
		}
		wg.Wait()
	})
	t.EvalN(workers * calls)
	t.Eval(what)
}

// unrest moves leaders, adds partitions and drops connections until stopped.
func unrest(t *T, c *fake.Cluster, grow bool) (stop func()) {
	end := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	r := newRand(t.Rng.Int63())
	go func() {
		defer wg.Done()
		for {
			select {
			case <-end:
				return
			case <-time.After(time.Duration(r.Intn(4000)) * time.Microsecond):
			}
			id := int32(1 + r.Intn(len(c.Nodes)))
			switch r.Intn(5) {
			case 0:
				c.Nodes[id].KillConns()
			case 1:
				c.Mu.Lock()
				ps := c.Topics["t"].Parts
				if n := int32(len(ps)); grow && n < 8 {
					ps[n] = &fake.Partition{Leader: id, Replicas: []int32{id}, ISR: []int32{id}}
				}
				c.Mu.Unlock()
			default:
				c.Mu.Lock()
				ps := c.Topics["t"].Parts
				ps[int32(r.Intn(len(ps)))].Leader = id
				c.Mu.Unlock()
			}
		}
	}()
	var once sync.Once
	stop = func() { once.Do(func() { close(end); wg.Wait() }) }
	t.Cleanup(stop)
	return
}

func runC20(t *T) {
	r := t.Rng
	if r.Intn(2) == 0 {
		id := pick(r, "C01", "C06", "C07", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C15", "C16", "C17", "C21", "C21", "C26")
		t.Label("workload of %s", id)
		t.Muted(mon.Props[id])
		t.Eval("workload of " + id)
		return
	}
	nodes := 1 + r.Intn(3)
	c := cluster(t, nodes)
	c.RebalanceTimeout = t.Limit(5 * time.Second)
	c.AddTopic("t", 1+r.Intn(4))
	x := lifeConf(c)
	x.prod.FlushIntervalMS = pick(r, 1, 3, never)
	x.prod.MetadataMaxAgeMS = pick(r, 1, 5, never)
	x.cons.MetadataMaxAgeMS = pick(r, 5, 20, never)
	x.cons.AutoCommitIntervalMS = pick(r, 1, 5)
	x.cons.FetchMaxWaitMS = 2
	scene := pick(r, "brokers", "client", "producer", "producer", "simple producer", "simple consumer", "consumer", "group consumer", "shared config")
	t.Label("%s nodes=%d", scene, nodes)
	calm := r.Intn(3) == 0
	stop := func() {}
	if !calm {
		stop = unrest(t, c, scene != "simple producer")
	}
	defer stop()
	must := func(err error) {
		if err != nil {
			t.Stop()
		}
	}
	switch scene {
	case "brokers":
		var b *healer.Brokers
		var err error
		t.Do("connecting", 60*time.Second, func() { b, err = healer.NewBrokersWithConfig(c.Bootstrap(), x.brok) })
		must(err)
		fs := []func(*rand.Rand){
			func(r *rand.Rand) {
				if br, err := b.GetBroker(int32(1 + r.Intn(nodes))); err == nil {
					br.RequestListGroups("x")
					_ = br.GetAddress() + br.String()
				}
			},
			func(r *rand.Rand) {
				if br, err := b.NewBroker(int32(1 + r.Intn(nodes))); err == nil {
					br.RequestListGroups("x")
					br.Close()
				}
			},
			func(r *rand.Rand) { b.RequestMetaData("x", []string{"t"}) },
			func(r *rand.Rand) { b.RequestOffsets("x", "t", int32(r.Intn(3)-1), -1, 1) },
			func(r *rand.Rand) { b.FindCoordinator("x", "g") },
			func(r *rand.Rand) {
				for id, i := range b.BrokersInfo() {
					_ = fmt.Sprint(id, i.Host, i.Port)
				}
			},
			func(r *rand.Rand) { b.Controller(); b.GetController() },
			func(r *rand.Rand) { // an unknown broker makes it refresh its metadata
				b.GetBroker(99)
			},
			func(r *rand.Rand) {
				if br, err := b.GetBroker(int32(1 + r.Intn(nodes))); err == nil && r.Intn(4) == 0 {
					br.Close()
				}
			},
		}
		crowd(t, "shared brokers", 2+r.Intn(6), 12, fs...)
		crowd(t, "shared brokers while they are closed", 2+r.Intn(4), 5, append(fs, func(*rand.Rand) { b.Close() })...)
		b.Close()
	case "client":
		var cl *healer.Client
		var err error
		t.Do("connecting", 60*time.Second, func() { cl, err = healer.NewClient(c.Bootstrap(), "x") })
		must(err)
		c.SetCommitted("g1", "t", 0, 1)
		fs := []func(*rand.Rand){
			func(r *rand.Rand) { cl.ListGroups() },
			func(r *rand.Rand) { cl.DescribeLogDirs([]string{"t"}) },
			func(r *rand.Rand) { cl.DeleteTopics([]string{"no"}, 100) },
			func(r *rand.Rand) { cl.CreateTopic(fmt.Sprintf("n%d", r.Intn(5)), 1, 1, 100) },
			func(r *rand.Rand) { cl.DeleteGroups([]string{"g1", "g2"}) },
			func(r *rand.Rand) { cl.DescribeConfigs("topic", "t", nil) },
			func(r *rand.Rand) { cl.DescribeConfigs("broker", "1", nil) },
			func(r *rand.Rand) { cl.RefreshMetadata() },
			func(r *rand.Rand) {
				cl.DescribeAcls(healer.DescribeAclsRequestBody{ResourceType: 1, PatternType: 1, Operation: 1, PermissionType: 1})
			},
		}
		crowd(t, "shared client", 2+r.Intn(6), 10, fs...)
		cl.Close()
	case "producer", "simple producer":
		var add func(k, v []byte) error
		var end func()
		flush := func(*rand.Rand) {}
		t.Do("creating a producer", 60*time.Second, func() {
			if scene == "producer" {
				p, err := healer.NewProducer("t", x.prod)
				if err != nil {
					return
				}
				add, end = p.AddMessage, p.Close
				flush = func(*rand.Rand) { p.Flush() }
			} else {
				p, err := healer.NewSimpleProducer(context.Background(), "t", 0, x.prod)
				if err != nil {
					return
				}
				add, end = p.AddMessage, p.Close
				flush = func(*rand.Rand) { p.Flush() }
			}
		})
		if add == nil {
			t.Stop()
		}
		put := func(r *rand.Rand) {
			b := []byte(fmt.Sprintf("v%d", r.Intn(1000)))
			var k []byte
			if r.Intn(2) == 0 {
				k = []byte(fmt.Sprint(r.Intn(20)))
			}
			add(k, b)
			for i := range b { // the caller may reuse its buffers
				b[i]++
			}
			for i := range k {
				k[i]++
			}
		}
		crowd(t, "shared "+scene, 2+r.Intn(6), 25, put, put, put, flush)
		crowd(t, "shared "+scene+" while it is closed", 2+r.Intn(4), 6, put, put, flush, func(*rand.Rand) { end() })
		t.Do("closing", 60*time.Second, end)
	case "simple consumer", "consumer", "group consumer":
		feed(c, 10)
		var ch <-chan *healer.FullMessage
		commit := func(*rand.Rand) {}
		var end func()
		grp := r.Intn(3) > 0 || scene == "group consumer"
		if grp {
			x.cons.GroupID = "g"
		}
		t.Do("creating a "+scene, 60*time.Second, func() {
			switch scene {
			case "simple consumer":
				y, err := healer.NewSimpleConsumer("t", 0, x.cons)
				if err != nil {
					return
				}
				ch, err = y.Consume(-2, nil)
				if err != nil {
					y.Stop()
					ch = nil
					return
				}
				if grp {
					commit = func(*rand.Rand) { y.CommitOffset() }
				}
				end = y.Stop
			case "consumer":
				y, err := healer.NewConsumer(x.cons, "t")
				if err != nil {
					return
				}
				ch, _ = y.Consume(nil)
				end = func() { y.AwaitClose(20 * time.Second) }
			default:
				y, err := healer.NewGroupConsumer("t", x.cons)
				if err != nil {
					return
				}
				ch, _ = y.Consume(nil)
				commit = func(*rand.Rand) { y.CommitOffset() }
				end = func() { y.AwaitClose(20 * time.Second) }
			}
		})
		if ch == nil {
			t.Stop()
		}
		var mu sync.Mutex
		var kept []*healer.FullMessage
		get := func(r *rand.Rand) {
			select {
			case m := <-ch:
				if m != nil {
					mu.Lock()
					kept = append(kept, m)
					mu.Unlock()
				}
			case <-time.After(3 * time.Millisecond):
			}
		}
		read := func(r *rand.Rand) { // the messages belong to the receiver
			mu.Lock()
			defer mu.Unlock()
			for _, m := range kept {
				if m.Message != nil {
					for i := range m.Message.Value {
						m.Message.Value[i]++
					}
					for i := range m.Message.Key {
						m.Message.Key[i]++
					}
				}
			}
		}
		more := func(r *rand.Rand) { mu.Lock(); feed(c, 1); mu.Unlock() }
		crowd(t, "shared "+scene, 2+r.Intn(5), 20, get, get, get, commit, read, more)
		if r.Intn(2) == 0 {
			stop()
		}
		crowd(t, "shared "+scene+" while it is closed", 2+r.Intn(4), 4, get, commit, read, more, func(*rand.Rand) { end() })
		t.Do("closing", 60*time.Second, end)
	case "shared config":
		stop()
		m := map[string]interface{}{"bootstrap.servers": c.Bootstrap(), "group.id": "g", "fetch.max.wait.ms": "3", "net": map[string]interface{}{"timeout.ms": "20000"}}
		pm := map[string]interface{}{"bootstrap.servers": c.Bootstrap(), "message.max.count": 2, "net": map[string]interface{}{"timeout.ms": "20000"}}
		x.cons.GroupID = "h"
		pickC := func(r *rand.Rand) any { return pick[any](r, m, x.cons) }
		pickP := func(r *rand.Rand) any { return pick[any](r, pm, x.prod) }
		crowd(t, "shared configuration", 4, 3,
			func(r *rand.Rand) {
				if y, err := healer.NewSimpleConsumer("t", 0, pickC(r)); err == nil {
					y.Consume(-2, nil)
					y.Stop()
				}
			},
			func(r *rand.Rand) {
				if y, err := healer.NewConsumer(pickC(r), "t"); err == nil {
					y.Consume(nil)
					y.AwaitClose(20 * time.Second)
				}
			},
			func(r *rand.Rand) {
				if y, err := healer.NewGroupConsumer("t", pickC(r)); err == nil {
					y.Consume(nil)
					y.AwaitClose(20 * time.Second)
				}
			},
			func(r *rand.Rand) {
				if y, err := healer.NewProducer("t", pickP(r)); err == nil {
					y.AddMessage(nil, []byte("x"))
					y.Close()
				}
			},
			func(r *rand.Rand) {
				if y, err := healer.NewSimpleProducer(context.Background(), "t", 0, pickP(r)); err == nil {
					y.AddMessage(nil, []byte("x"))
					y.Close()
				}
			},
			func(r *rand.Rand) {
				if y, err := healer.NewBrokersWithConfig(c.Bootstrap(), x.brok); err == nil {
					y.RequestMetaData("x", []string{"t"})
					y.Close()
				}
			})
	}
	t.Sample("%s calm=%v: %d events", scene, calm, c.Tr.Len())
}

func init() {
	mon.Register(&mon.Prop{ID: "C20", Level: "exploration", Rule: "distinct concurrent workloads run under the race detector",
		N: map[string]int{"quick": 500, "thorough": 12000}, Par: 3, Run: runC20, CaseLimit: 400 * time.Second,
		Assumptions: []string{"The race detector reports races of the executions it sees and no others."},
		Required:    []string{"shared brokers", "shared client", "shared producer", "shared simple producer", "shared simple consumer", "shared consumer", "shared group consumer", "shared configuration", "workload of C15", "workload of C01"}})
}
