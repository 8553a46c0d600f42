package props

import (
	"errors"
	"fmt"
	"sort"
	"time"

	"github.com/childe/healer"

	"verif/harness/fake"
	"verif/harness/kproto"
	"verif/harness/mon"
)

// ---- C17: requests reach the broker that is responsible ------------------------

type route struct {
	t    *T
	c    *fake.Cluster
	b    *healer.Brokers
	cl   *healer.Client
	up   map[int32]bool
	ids  []int32
	tops []string
	grps []string
}

// call runs f up to three times; need are the nodes that must be up for it to
// succeed (nil: any). It checks that requests of the api only went to allowed nodes.
func (x *route) call(what string, key int, need map[int32]bool, f func() error) (ok bool) {
	t, c := x.t, x.c
	mark := c.Tr.Len()
	all, some := true, false
	for id := range need {
		all = all && x.up[id]
	}
	for _, u := range x.up {
		some = some || u
	}
	want := some && all
	var err error
	n := 0
	for n < 3 {
		n++
		t.Do(what, 100*time.Second, func() { err = f() })
		if err == nil || !want {
			break
		}
	}
	if want && err != nil {
		t.Violate("call fails although the responsible brokers are up", "%s: %v; up %v, responsible %v", what, err, x.up, need)
	}
	if !want && err == nil {
		t.Violate("call succeeds although the responsible broker is down", "%s; up %v, responsible %v", what, x.up, need)
	}
	sent := map[int32]int{}
	for _, e := range c.Tr.Events()[mark:] {
		if e.Kind == "req" && e.Key == key {
			sent[e.Node]++
			if need != nil && !need[e.Node] {
				t.Violate("request sent to a broker that is not responsible", "%s: %s to node %d, responsible %v", what, kproto.Name(key), e.Node, need)
			}
		}
	}
	if err == nil && need != nil {
		for id := range need {
			if sent[id] == 0 {
				t.Violate("responsible broker not asked", "%s: node %d of %v", what, id, need)
			}
		}
	}
	t.Eval(fmt.Sprintf("%s over %d nodes, want=%v", what, len(need), want))
	return err == nil
}

func one(id int32) map[int32]bool { return map[int32]bool{id: true} }

func runC17(t *T) {
	r := t.Rng
	n := 1 + r.Intn(5)
	ids := uniqInts(r, n, 12)
	c := clusterIDs(t, ids...)
	wireMonitor(t, c)
	x := &route{t: t, c: c, up: map[int32]bool{}, ids: ids}
	for _, id := range ids {
		x.up[id] = true
	}
	c.Mu.Lock()
	c.Controller = ids[r.Intn(n)]
	c.Mu.Unlock()
	for i := 0; i < 1+r.Intn(3); i++ {
		x.tops = append(x.tops, fmt.Sprintf("t%d", i))
		c.AddTopic(x.tops[i], 1+r.Intn(6))
		c.Mu.Lock()
		for p, pt := range c.Topics[x.tops[i]].Parts {
			pt.Leader = ids[r.Intn(n)]
			pt.HW = int64(p)*1000 + int64(r.Intn(1000))
			pt.LogStart = int64(r.Intn(int(pt.HW) + 1))
			pt.Replicas = []int32{pt.Leader}
			if o := ids[r.Intn(n)]; o != pt.Leader {
				pt.Replicas = append(pt.Replicas, o)
			}
		}
		c.Mu.Unlock()
	}
	for i := 0; i < r.Intn(5); i++ {
		g := fmt.Sprintf("g%d", i)
		x.grps = append(x.grps, g)
		c.SetCommitted(g, x.tops[0], 0, 1)
	}
	for _, id := range ids {
		nd := c.Nodes[id]
		nd2 := 1 + r.Intn(2)
		for d := 0; d < nd2; d++ {
			ts := []any{}
			for tn, tp := range c.Topics {
				ps := []any{}
				for p, pt := range tp.Parts {
					for _, rp := range pt.Replicas {
						if rp == id && int(p)%nd2 == d {
							ps = append(ps, M{"index": int64(p), "size": int64(id)*1000 + int64(p), "offset_lag": int64(0), "is_future": false})
						}
					}
				}
				if len(ps) > 0 {
					ts = append(ts, M{"name": tn, "partitions": ps})
				}
			}
			nd.LogDirs = append(nd.LogDirs, M{"error_code": int64(0), "log_dir": fmt.Sprintf("/d%d", d), "topics": ts})
		}
	}
	// bootstrap: some addresses may be dead, or another name of a broker
	var boot string
	dead := false
	for i := 0; i < r.Intn(3); i++ {
		boot += pick(r, c.Host()+":1", "127.0.0.1:1", "no-such-host.invalid:9092", "nonsense", "") + ","
		dead = true
	}
	entry := c.Nodes[ids[r.Intn(n)]]
	alias := r.Intn(3) == 0
	if alias {
		boot += fmt.Sprintf("[::ffff:%s]:%d", entry.Host, entry.Port)
	} else {
		boot += entry.Addr()
	}
	t.Label("nodes=%d controller=%d dead=%v alias=%v", n, c.Controller, dead, alias)
	var err error
	t.Do("connecting", 60*time.Second, func() { x.b, err = healer.NewBrokers(boot) })
	if err != nil {
		t.Fatal("cannot connect although a bootstrap server is up", "%s: %v", boot, err)
	}
	defer x.b.Close()
	t.Do("connecting", 60*time.Second, func() { x.cl, err = healer.NewClient(boot, "x") })
	if err != nil {
		t.Fatal("cannot connect although a bootstrap server is up", "%s: %v", boot, err)
	}
	defer x.cl.Close()
	steps := 6 + r.Intn(12)
	serial := 0
	for s := 0; s < steps; s++ {
		switch r.Intn(9) {
		case 0: // a broker goes away or comes back
			id := x.ids[r.Intn(len(x.ids))]
			if x.up[id] {
				c.StopNode(id)
				x.up[id] = false
			} else {
				if c.StartNode(id) != nil {
					t.Stop()
				}
				x.up[id] = true
			}
		case 1: // a new broker, which may become controller or leader; asking for it makes the client learn of it
			if len(x.ids) > 6 || !x.up[entry.ID] {
				continue
			}
			id := int32(20 + s)
			c.AddNode(id)
			if i := r.Intn(len(x.ids)); r.Intn(2) == 0 && x.ids[i] != entry.ID {
				// and it replaces one that is gone for good
				old := x.ids[i]
				c.StopNode(old)
				delete(x.up, old)
				x.ids = append(append([]int32{}, x.ids[:i]...), x.ids[i+1:]...)
				c.Mu.Lock()
				c.Nodes[old].Hidden = true
				if c.Controller == old {
					c.Controller = id
				}
				for _, tp := range c.Topics {
					for _, pt := range tp.Parts {
						if pt.Leader == old {
							pt.Leader = id
						}
					}
				}
				was := c.CoordOf
				c.CoordOf = func(g string) int32 {
					if n := was(g); n != old {
						return n
					}
					return id
				}
				c.Mu.Unlock()
				t.Eval("broker replaced")
			}
			c.Mu.Lock()
			if r.Intn(2) == 0 {
				c.Controller = id
			}
			for _, tp := range c.Topics {
				for _, pt := range tp.Parts {
					if r.Intn(4) == 0 {
						pt.Leader = id
					}
				}
			}
			c.Mu.Unlock()
			x.up[id] = true
			x.ids = append(x.ids, id)
			x.node(id)
			// the client learns of it through a broker setting
			x.call("DescribeConfigs broker", kproto.DescribeConfigs, one(id), func() error {
				_, err := x.cl.DescribeConfigs("broker", fmt.Sprint(id), nil)
				return err
			})
		case 2:
			x.node(x.ids[r.Intn(len(x.ids))])
		case 3, 4:
			x.data()
		case 5, 6:
			x.groups()
		default:
			serial++
			x.admin(serial)
		}
	}
	t.Sample("%d brokers, %d steps, %d events", len(x.ids), steps, c.Tr.Len())
}

func (x *route) node(id int32) {
	x.call("GetBroker", kproto.ListGroups, one(id), func() error {
		br, err := x.b.GetBroker(id)
		if err == nil {
			_, err = br.RequestListGroups("x")
		}
		return err
	})
	if x.t.Rng.Intn(3) == 0 {
		x.call("NewBroker", kproto.ListGroups, one(id), func() error {
			br, err := x.b.NewBroker(id)
			if err == nil {
				defer br.Close()
				_, err = br.RequestListGroups("x")
			}
			return err
		})
	}
}

func (x *route) data() {
	t, r, c := x.t, x.t.Rng, x.c
	topic := x.tops[r.Intn(len(x.tops))]
	c.Mu.Lock()
	tp := c.Topics[topic]
	var parts []int32
	leader := map[int32]int32{}
	hw, ls := map[int32]int64{}, map[int32]int64{}
	for p, pt := range tp.Parts {
		parts = append(parts, p)
		leader[p], hw[p], ls[p] = pt.Leader, pt.HW, pt.LogStart
	}
	c.Mu.Unlock()
	sort.Slice(parts, func(i, j int) bool { return parts[i] < parts[j] })
	x.call("RequestMetaData", kproto.Metadata, nil, func() error {
		m, err := x.b.RequestMetaData("x", []string{topic})
		if err == nil {
			if len(m.TopicMetadatas) != 1 || len(m.TopicMetadatas[0].PartitionMetadatas) != len(parts) {
				t.Violate("wrong metadata", "%s: %+v", topic, m)
				return nil
			}
			for _, p := range m.TopicMetadatas[0].PartitionMetadatas {
				if p.Leader != leader[p.PartitionID] {
					t.Violate("wrong leader in metadata", "%s-%d: %d instead of %d", topic, p.PartitionID, p.Leader, leader[p.PartitionID])
				}
			}
		}
		return err
	})
	ts := pick(r, int64(-1), -2)
	truth := func(p int32) int64 {
		if ts == -1 {
			return hw[p]
		}
		return ls[p]
	}
	check := func(res []healer.OffsetsResponse, want []int32) {
		got := map[int32]int64{}
		for _, o := range res {
			for tn, ps := range o.TopicPartitionOffsets {
				for _, p := range ps {
					if _, dup := got[p.Partition]; dup || tn != topic {
						t.Violate("wrong offsets", "%s: %s-%d twice or of another topic: %+v", topic, tn, p.Partition, res)
					}
					v := p.Offset
					if len(p.OldStyleOffsets) > 0 {
						v = int64(p.OldStyleOffsets[0])
					}
					got[p.Partition] = v
				}
			}
		}
		if len(got) != len(want) {
			t.Violate("wrong offsets", "%s: got partitions %v, want %v", topic, got, want)
		}
		for _, p := range want {
			if got[p] != truth(p) {
				t.Violate("wrong offsets", "%s-%d: %d, the broker has %d", topic, p, got[p], truth(p))
			}
		}
	}
	p := parts[r.Intn(len(parts))]
	x.call("RequestOffsets", kproto.ListOffsets, one(leader[p]), func() error {
		res, err := x.b.RequestOffsets("x", topic, p, ts, 1)
		if err == nil {
			check(res, []int32{p})
		}
		return err
	})
	need := map[int32]bool{}
	for _, p := range parts {
		need[leader[p]] = true
	}
	x.call("RequestOffsets all", kproto.ListOffsets, need, func() error {
		res, err := x.b.RequestOffsets("x", topic, -1, ts, 1)
		if err == nil {
			check(res, parts)
		}
		return err
	})
}

func (x *route) groups() {
	t, r, c := x.t, x.t.Rng, x.c
	g := fmt.Sprintf("g%d", r.Intn(8))
	coord := c.CoordOf(g)
	x.call("FindCoordinator", kproto.FindCoordinator, nil, func() error {
		f, err := x.b.FindCoordinator("x", g)
		if err == nil && (f.Coordinator.NodeID != coord || f.Coordinator.Port != c.Nodes[coord].Port) {
			t.Violate("wrong coordinator", "%s: %+v, it is node %d", g, f.Coordinator, coord)
		}
		return err
	})
	known := map[int32]bool{}
	for _, id := range x.ids {
		known[id] = true
	}
	x.call("ListGroups", kproto.ListGroups, known, func() error {
		res, err := x.cl.ListGroups()
		if err == nil {
			want, got := map[string]int32{}, map[string]int32{}
			c.Mu.Lock()
			for n, gr := range c.Groups {
				if len(gr.Offsets) > 0 {
					want[n] = c.CoordOf(n)
				}
			}
			c.Mu.Unlock()
			for id, gs := range res {
				for _, y := range gs {
					got[y.GroupID] = id
				}
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				t.Violate("wrong list of groups", "got %v, the brokers have %v", got, want)
			}
		}
		return err
	})
	if r.Intn(3) == 0 {
		h := healer.NewHelperFromBrokers(x.b, "x")
		x.call("Helper.GetGroups", kproto.ListGroups, known, func() error {
			got := h.GetGroups()
			if got == nil {
				return errors.New("no list of groups")
			}
			var want []string
			c.Mu.Lock()
			for n, gr := range c.Groups {
				if len(gr.Offsets) > 0 {
					want = append(want, n)
				}
			}
			c.Mu.Unlock()
			sort.Strings(got)
			sort.Strings(want)
			if fmt.Sprint(got) != fmt.Sprint(want) {
				t.Violate("wrong list of groups", "Helper: got %v, the brokers have %v", got, want)
			}
			return nil
		})
	}
	if r.Intn(3) == 0 && len(x.grps) > 0 {
		del := []string{x.grps[r.Intn(len(x.grps))]}
		if y := x.grps[r.Intn(len(x.grps))]; y != del[0] {
			del = append(del, y)
		}
		need := map[int32]bool{}
		for _, d := range del {
			need[c.CoordOf(d)] = true
		}
		for id := range need {
			if !x.up[id] {
				return // the first of them may be deleted before the call fails
			}
		}
		c.Mu.Lock()
		for _, d := range del {
			if c.Groups[d] == nil {
				c.Mu.Unlock()
				return
			}
		}
		c.Mu.Unlock()
		// one try: it is not idempotent; a connection that broke before may fail it
		x.call("ListGroups", kproto.ListGroups, known, func() error { _, err := x.cl.ListGroups(); return err })
		x.call("DeleteGroups", kproto.DeleteGroups, need, func() error {
			// an earlier try may have deleted some of them before it failed
			c.Mu.Lock()
			var todo []string
			for _, d := range del {
				if c.Groups[d] != nil {
					todo = append(todo, d)
				}
			}
			c.Mu.Unlock()
			if del = todo; len(del) == 0 {
				return nil
			}
			res, err := x.cl.DeleteGroups(del)
			if err == nil {
				if len(res.Results) != len(del) {
					t.Violate("wrong result of DeleteGroups", "%v: %+v", del, res)
				}
				c.Mu.Lock()
				for _, d := range del {
					if c.Groups[d] != nil && len(c.Groups[d].Offsets) > 0 {
						t.Violate("group not deleted", "%s", d)
					}
				}
				c.Mu.Unlock()
			}
			return err
		})
	}
}

func (x *route) admin(serial int) {
	t, r, c := x.t, x.t.Rng, x.c
	c.Mu.Lock()
	ctl := c.Controller
	c.Mu.Unlock()
	topic := x.tops[r.Intn(len(x.tops))]
	switch r.Intn(10) {
	case 0:
		name := fmt.Sprintf("new%d", serial)
		x.call("CreateTopic", kproto.CreateTopics, one(ctl), func() error {
			_, err := x.cl.CreateTopic(name, 2, 1, 1000)
			if code, ok := kafkaCode(err); ok && code == 36 {
				err = nil // second try
			}
			return err
		})
	case 1:
		names := []string{fmt.Sprintf("new%d", serial), fmt.Sprintf("newer%d", serial)}
		x.call("CreateTopics", kproto.CreateTopics, one(ctl), func() error {
			_, err := x.cl.CreateTopics(names, 2, 1, 1000)
			if code, ok := kafkaCode(err); ok && code == 36 {
				err = nil
			}
			return err
		})
	case 2:
		name := fmt.Sprintf("gone%d", serial)
		c.AddTopic(name, 1)
		x.call("DeleteTopics", kproto.DeleteTopics, one(ctl), func() error {
			_, err := x.cl.DeleteTopics([]string{name}, 1000)
			if code, ok := kafkaCode(err); ok && code == 3 {
				err = nil
			}
			return err
		})
	case 3:
		name := fmt.Sprintf("grown%d", serial)
		c.AddTopic(name, 1)
		x.call("CreatePartitions", kproto.CreatePartitions, one(ctl), func() error {
			var err error
			if r.Intn(2) == 0 {
				_, err = x.cl.CreatePartitions(name, 3, 1000, false)
			} else {
				_, err = x.cl.CreatePartitionsWithAssignments(name, 3, [][]int32{{ctl}, {ctl}}, 1000, false)
			}
			if code, ok := kafkaCode(err); ok && code == 37 {
				err = nil
			}
			return err
		})
	case 4:
		x.call("DescribeAcls", kproto.DescribeAcls, one(ctl), func() error {
			_, err := x.cl.DescribeAcls(healer.DescribeAclsRequestBody{ResourceType: 1, PatternType: 1, Operation: 1, PermissionType: 1})
			return err
		})
		x.call("CreateAcls", kproto.CreateAcls, one(ctl), func() error {
			_, err := x.cl.CreateAcls([]healer.AclCreation{{ResourceType: 2, ResourceName: "t", PatternType: 3, Principal: "User:a", Host: "*", Operation: 3, PermissionType: 3}})
			return err
		})
		x.call("DeleteAcls", kproto.DeleteAcls, one(ctl), func() error {
			_, err := x.cl.DeleteAcls([]*healer.DeleteAclsFilter{{ResourceType: 1, PatternType: 1, Operation: 1, PermissionType: 1}})
			return err
		})
	case 5:
		x.call("DescribeConfigs topic", kproto.DescribeConfigs, one(ctl), func() error {
			_, err := x.cl.DescribeConfigs("topic", topic, nil)
			return err
		})
		id := x.ids[r.Intn(len(x.ids))]
		kind := pick(r, "broker", "broker", "broker_logger")
		x.call("DescribeConfigs "+kind, kproto.DescribeConfigs, one(id), func() error {
			_, err := x.cl.DescribeConfigs(kind, fmt.Sprint(id), nil)
			return err
		})
	case 6:
		x.call("ListPartitionReassignments", kproto.ListPartitionReassignments, one(ctl), func() error {
			q := healer.NewListPartitionReassignmentsRequest("x", 1000)
			q.AddTP(topic, 0)
			_, err := x.cl.ListPartitionReassignments(q)
			return err
		})
	case 7:
		x.call("AlterPartitionReassignments", kproto.AlterPartitionReassignments, one(ctl), func() error {
			q := healer.NewAlterPartitionReassignmentsRequest(1000)
			q.AddAssignment(topic, 0, []int32{x.ids[0]})
			_, err := x.b.AlterPartitionReassignments(&q)
			return err
		})
	case 8:
		x.call("ElectLeaders", kproto.ElectLeaders, one(ctl), func() error {
			q := healer.NewElectLeadersRequest(1000)
			q.Add(topic, 0)
			_, err := x.b.ElectLeaders(&q)
			return err
		})
	case 9:
		// every replica is asked about its own partitions
		type tp struct {
			t string
			p int32
		}
		tops := []string{topic}
		if o := x.tops[r.Intn(len(x.tops))]; o != topic {
			tops = append(tops, o)
		}
		want := map[int32]map[tp]bool{}
		need := map[int32]bool{}
		c.Mu.Lock()
		for _, tn := range tops {
			for p, pt := range c.Topics[tn].Parts {
				for _, id := range pt.Replicas {
					if want[id] == nil {
						want[id] = map[tp]bool{}
					}
					want[id][tp{tn, p}] = true
					need[id] = true
				}
			}
		}
		c.Mu.Unlock()
		for id := range need {
			if !x.up[id] {
				return // brokers that fail are left out
			}
		}
		c.Tr.Note("step", "warm up")
		x.call("ListGroups", kproto.ListGroups, nil, func() error { // repair broken connections: brokers that fail are left out
			for i := 0; i < 3; i++ {
				x.cl.ListGroups()
			}
			return x.ifSome()
		})
		down := false
		for _, u := range x.up {
			down = down || !u
		}
		if down {
			return
		}
		mark := c.Tr.Len()
		x.call("DescribeLogDirs", kproto.DescribeLogDirs, need, func() error {
			res, err := x.cl.DescribeLogDirs(tops)
			if err != nil {
				return err
			}
			got := map[int32]map[tp]bool{}
			for id, d := range res {
				got[id] = map[tp]bool{}
				for _, y := range d.Results {
					for _, z := range y.Topics {
						for _, p := range z.Partitions {
							got[id][tp{z.TopicName, p.PartitionID}] = true
							if p.Size != int64(id)*1000+int64(p.PartitionID) {
								t.Violate("wrong log dirs", "node %d %s-%d has size %d", id, z.TopicName, p.PartitionID, p.Size)
							}
						}
					}
				}
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				t.Violate("wrong log dirs", "got %v, want %v", got, want)
			}
			return nil
		})
		for _, e := range c.Tr.Events()[mark:] {
			if e.Kind == "req" && e.Key == kproto.DescribeLogDirs && e.Body != nil {
				asked := map[tp]bool{}
				for _, z := range e.Body.Ms("topics") {
					for _, p := range z.A("partitions") {
						asked[tp{z.S("topic"), int32(p.(int64))}] = true
					}
				}
				if fmt.Sprint(asked) != fmt.Sprint(want[e.Node]) {
					t.Violate("broker asked about other partitions than its own", "node %d: %v instead of %v", e.Node, asked, want[e.Node])
				}
			}
		}
	}
}

func (x *route) ifSome() error {
	for _, u := range x.up {
		if u {
			return nil
		}
	}
	return fmt.Errorf("nothing is up")
}

func init() {
	mon.Register(&mon.Prop{ID: "C17", Level: "exploration", Rule: "distinct (call, number of responsible brokers, whether they are up)",
		N: map[string]int{"quick": 2500, "thorough": 40000}, Par: 8, Run: runC17, Assumptions: []string{"Brokers keep their addresses; the client learns of a new controller when it meets an unknown broker id."},
		Required: []string{"RequestOffsets all over 3", "ListGroups over 3", "DeleteGroups over 2", "CreateTopic over 1 nodes, want=false", "DescribeLogDirs over 2", "RequestMetaData over 0 nodes, want=true", "ElectLeaders", "AlterPartitionReassignments", "GetBroker over 1 nodes, want=false"}})
}
