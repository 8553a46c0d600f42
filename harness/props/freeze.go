package props

import (
	"fmt"
	"time"

	"github.com/childe/healer"

	"verif/harness/fake"
	"verif/harness/mon"
)

// ---- C26: a broker that stops responding ------------------------------------------

func runC26(t *T) {
	r := t.Rng
	nodes := 1 + r.Intn(3)
	c := cluster(t, nodes)
	wireMonitor(t, c)
	c.RebalanceTimeout = t.Limit(10 * time.Second)
	c.AddTopic("t", 1+r.Intn(3))
	kind := lifeKinds[r.Intn(len(lifeKinds))]
	if kind == "client" { // has no way to configure timeouts
		kind = "brokers"
	}
	if kind == "group consumer" && r.Intn(4) > 0 { // joining has a timeout of more than 5 s
		kind = pick(r, "simple consumer", "simple producer", "producer")
	}
	x := lifeConf(c)
	to := 60 + r.Intn(100)
	x.brok.Net.TimeoutMS, x.brok.Net.ConnectTimeoutMS = to, 300
	x.prod.Net.TimeoutMS, x.prod.Net.ConnectTimeoutMS = to, 300
	x.cons.Net.TimeoutMS, x.cons.Net.ConnectTimeoutMS = to, 300
	each := r.Intn(3)
	if each > 0 { // a timeout per api, 0 stands for the general one
		for _, n := range []*healer.NetConfig{&x.brok.Net, &x.prod.Net} {
			n.TimeoutMSForEachAPI = make([]int, 68)
			if each == 1 {
				n.TimeoutMS = 200000
				for i := range n.TimeoutMSForEachAPI {
					n.TimeoutMSForEachAPI[i] = to
				}
			}
		}
	}
	sec := pick(r, "", "", "tls", "sasl")
	switch sec {
	case "tls":
		tc := useTLS(c)
		x.brok.TLSEnabled, x.brok.TLS = true, tc
		x.prod.TLSEnabled, x.prod.TLS = true, tc
		x.cons.TLSEnabled, x.cons.TLS = true, tc
	case "sasl":
		c.Sasl = &fake.Sasl{Mechanisms: []string{"PLAIN"}, Check: func(string, []byte) bool { return true }}
		s := healer.SaslConfig{Mechanism: "PLAIN", User: "u", Password: "p"}
		x.prod.Sasl, x.cons.Sasl, x.brok.Sasl = s, s, s
	}
	mode := pick(r, "silent", "deaf", "stalled answer")
	var who []int32
	freeze := func() {
		for id, n := range c.Nodes {
			if r.Intn(2) == 0 {
				who = append(who, id)
			}
			_ = n
		}
		if len(who) == 0 {
			for id := range c.Nodes {
				who = append(who, id)
				break
			}
		}
		for _, id := range who {
			switch mode {
			case "silent":
				c.Nodes[id].Freeze(false, 0)
			case "deaf":
				c.Nodes[id].Freeze(true, 0)
			default:
				c.Nodes[id].Freeze(false, 1+r.Intn(30))
			}
		}
	}
	lost := r.Intn(3) == 0 // the old connections stay dead
	thaw := func() {
		for _, id := range who {
			c.Nodes[id].ThawNew(lost)
		}
		who = nil
	}
	scene := pick(r, "work", "work", "work", "close", "create")
	t.Label("%s %s %s %s lost=%v nodes=%d timeout=%d", kind, sec, mode, scene, lost, nodes, to)
	var l *live
	var err error
	if scene == "create" && (kind == "brokers" || kind == "simple producer") {
		// these return an error, the others wait
		freeze()
		t.Do(fmt.Sprintf("creating a %s while a broker does not respond", kind), 60*time.Second, func() { l, err = x.open(t, c, kind) })
		t.Eval(fmt.Sprintf("create %s %s %s, error=%v", kind, mode, sec, err != nil))
		if l != nil {
			t.Do("closing", 50*time.Second, l.close)
		}
		thaw()
		l, err = nil, nil
	}
	for i := 0; i < 5 && l == nil; i++ { // the answer to the first attempts may be slow on a busy machine
		t.Do("creating a "+kind, 60*time.Second, func() { l, err = x.open(t, c, kind) })
	}
	if err != nil {
		t.Stop() // loaded machine: the timeouts are real
	}
	round := func(what string) {
		var err error
		for i := 0; i < 20; i++ {
			t.Do(kind+" "+what, 50*time.Second, func() { err = l.round() })
			if err == nil {
				t.EvalN(1)
				return
			}
			if _, ok := err.(errStalled); ok {
				break
			}
		}
		l.judge(t, "client does not work after a broker stopped responding for a while", err)
	}
	round("on a healthy cluster")
	for k := 0; k < 1+r.Intn(2); k++ {
		freeze()
		n := len(who)
		t.Do(fmt.Sprintf("%s while a broker does not respond (%s)", kind, mode), 50*time.Second, l.poke)
		t.Eval(fmt.Sprintf("%s %s %d of %d %s", kind, mode, n, nodes, sec))
		if scene == "close" {
			if kind != "group consumer" {
				time.Sleep(time.Duration(r.Intn(to)) * time.Millisecond)
			}
			t.Do(fmt.Sprintf("closing a %s while a broker does not respond (%s)", kind, mode), 50*time.Second, l.close)
			t.Eval("close " + kind + " " + mode)
			return
		}
		time.Sleep(time.Duration(r.Intn(2*to)) * time.Millisecond)
		thaw()
		round("after a broker responds again")
		if lost {
			t.Eval("dead connections " + kind)
		}
	}
	t.Do("closing", 50*time.Second, l.close)
	t.Sample("%s %s %s: %d events", kind, mode, scene, c.Tr.Len())
}

func init() {
	mon.Register(&mon.Prop{ID: "C26", Level: "exploration", Rule: "distinct (component, way of not responding, number of such brokers)",
		N: map[string]int{"quick": 1200, "thorough": 20000}, Par: 8, Run: runC26, CaseLimit: 400 * time.Second,
		Assumptions: []string{"The limits (50 s and more) are far above the configured timeouts (60 to 160 ms, 5.4 s for joining a group)."},
		Required:    []string{"brokers silent", "brokers deaf", "producer deaf", "simple producer deaf", "simple consumer stalled", "close simple producer", "close simple consumer", "create brokers", "create brokers deaf tls", "dead connections simple consumer", "dead connections producer"}})
}
