package fake

import (
	"encoding/binary"
	"fmt"
	"sort"
	"time"

	"verif/harness/kproto"
)

// handle processes a request. keep=false closes the connection.
func (c *Cluster) handle(r *Req) (body M, keep bool) {
	k := r.H.Key
	c.Mu.Lock()
	sasl := c.Sasl
	node := c.Nodes[r.Node]
	adm := c.Admin
	c.Mu.Unlock()
	if sasl != nil && !r.Conn.authed && k != kproto.ApiVersions && k != kproto.SaslHandshake && k != kproto.SaslAuthenticate {
		c.Tr.Note("unauth", "conn=%d api=%d before authentication", r.Conn.ID, k)
		return nil, false
	}
	if adm != nil {
		if b, ok := adm(r); ok {
			return b, true
		}
	}
	if rng, ok := node.Vers[k]; (!ok || r.H.Version < rng[0] || r.H.Version > rng[1]) && k != kproto.ApiVersions {
		c.Tr.Note("badver", "conn=%d api=%d version=%d not supported by node %d", r.Conn.ID, k, r.H.Version, r.Node)
		return nil, false
	}
	switch k {
	case kproto.ApiVersions:
		return c.apiVersions(node), true
	case kproto.SaslHandshake:
		if sasl == nil {
			return M{"error_code": int64(34), "mechanisms": []any{}}, true
		}
		ok := false
		for _, m := range sasl.Mechanisms {
			ok = ok || m == r.Body.S("mechanism")
		}
		code := int64(0)
		if !ok {
			code = 33
		} else {
			r.Conn.mech = r.Body.S("mechanism")
		}
		return M{"error_code": code, "mechanisms": kproto.Arr(sasl.Mechanisms...)}, true
	case kproto.SaslAuthenticate:
		if sasl == nil || r.Conn.mech == "" {
			return M{"error_code": int64(34), "error_message": "illegal sasl state", "auth_bytes": []byte{}}, true
		}
		if sasl.Check(r.Conn.mech, r.Body.B("auth_bytes")) {
			r.Conn.authed = true
			c.Tr.Note("authed", "conn=%d", r.Conn.ID)
			return M{"error_code": int64(0), "error_message": nil, "auth_bytes": []byte{}}, true
		}
		return M{"error_code": int64(58), "error_message": "bad credentials", "auth_bytes": []byte{}}, true
	case kproto.Metadata:
		return c.metadata(r), true
	case kproto.Produce:
		return c.produce(r), true
	case kproto.Fetch:
		return c.fetch(r), true
	case kproto.ListOffsets:
		return c.listOffsets(r), true
	case kproto.FindCoordinator:
		c.Mu.Lock()
		defer c.Mu.Unlock()
		n := c.Nodes[c.CoordOf(r.Body.S("key"))]
		if n == nil {
			return M{"error_code": int64(15), "error_message": nil, "node_id": int64(-1), "host": "", "port": int64(-1)}, true
		}
		return M{"error_code": int64(0), "error_message": nil, "node_id": int64(n.ID), "host": n.Host, "port": int64(n.Port)}, true
	case kproto.JoinGroup:
		return c.handleJoin(r), true
	case kproto.SyncGroup:
		return c.handleSync(r), true
	case kproto.Heartbeat:
		return c.handleHeartbeat(r), true
	case kproto.LeaveGroup:
		return c.handleLeave(r), true
	case kproto.OffsetCommit:
		return c.handleCommit(r), true
	case kproto.OffsetFetch:
		return c.handleOffsetFetch(r), true
	}
	return c.admin(r), true
}

func (c *Cluster) apiVersions(n *Node) M {
	var keys []int
	for k := range n.Vers {
		keys = append(keys, k)
	}
	sort.Ints(keys)
	var a []any
	for _, k := range keys {
		a = append(a, M{"api_key": int64(k), "min": int64(n.Vers[k][0]), "max": int64(n.Vers[k][1])})
	}
	return M{"error_code": int64(0), "api_keys": a}
}

func (c *Cluster) topicMeta(name string) M {
	t := c.Topics[name]
	if t == nil {
		return M{"error_code": int64(3), "name": name, "is_internal": false, "partitions": []any{}}
	}
	var pids []int
	for p := range t.Parts {
		pids = append(pids, int(p))
	}
	sort.Ints(pids)
	if c.ShuffleParts != nil {
		c.ShuffleParts(pids)
	}
	var ps []any
	for _, p := range pids {
		pt := t.Parts[int32(p)]
		ps = append(ps, M{"error_code": pt.Err, "index": int64(p), "leader": int64(pt.Leader), "leader_epoch": int64(pt.Epoch),
			"replicas": kproto.Ints(pt.Replicas), "isr": kproto.Ints(pt.ISR), "offline": []any{}})
	}
	return M{"error_code": t.Err, "name": name, "is_internal": false, "partitions": ps}
}

func (c *Cluster) metadata(r *Req) M {
	c.Mu.Lock()
	defer c.Mu.Unlock()
	var bs []any
	var ids []int
	for id, n := range c.Nodes {
		if n.Hidden {
			continue
		}
		ids = append(ids, int(id))
	}
	sort.Ints(ids)
	for _, id := range ids {
		n := c.Nodes[int32(id)]
		bs = append(bs, M{"node_id": int64(id), "host": n.Host, "port": int64(n.Port), "rack": n.Rack})
	}
	var ts []any
	all := r.Body["topics"] == nil || (r.H.Version == 0 && len(r.Body.A("topics")) == 0)
	if all {
		var names []string
		for n := range c.Topics {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			ts = append(ts, c.topicMeta(n))
		}
	} else {
		for _, t := range r.Body.Ms("topics") {
			ts = append(ts, c.topicMeta(t.S("name")))
		}
	}
	return M{"brokers": bs, "cluster_id": c.ClusterID, "controller_id": int64(c.Controller), "topics": ts}
}

func (c *Cluster) produce(r *Req) M {
	c.Mu.Lock()
	defer c.Mu.Unlock()
	var ts []any
	for _, t := range r.Body.Ms("topics") {
		var ps []any
		for _, p := range t.Ms("partitions") {
			pid := int32(p.I("index"))
			code, base := c.appendProduced(r, t.S("name"), pid, p.B("records"))
			if code != 0 {
				base = -1
			}
			ps = append(ps, M{"index": int64(pid), "error_code": code, "base_offset": base, "log_append_time": int64(-1), "log_start_offset": int64(0), "record_errors": []any{}, "error_message": nil})
		}
		ts = append(ts, M{"name": t.S("name"), "partitions": ps})
	}
	if r.Body.I("acks") == 0 {
		return nil
	}
	return M{"responses": ts}
}

func (c *Cluster) appendProduced(r *Req, topic string, pid int32, recs []byte) (int64, int64) {
	t := c.Topics[topic]
	if t == nil || t.Parts[pid] == nil {
		return 3, -1
	}
	pt := t.Parts[pid]
	if pt.Leader != r.Node {
		return c.notLeader(), -1
	}
	bts, err := kproto.DecodeBatches(recs)
	if err == nil && len(bts) != 1 {
		err = fmt.Errorf("%d batches in one produce request partition", len(bts))
	}
	if err == nil {
		for _, b := range bts {
			if b.LastDelta != int64(len(b.Recs))-1 {
				err = fmt.Errorf("last offset delta %d with %d records", b.LastDelta, len(b.Recs))
			}
			for i, d := range b.Deltas {
				if d != int64(i) && err == nil {
					err = fmt.Errorf("record %d of %d has offset delta %d", i, len(b.Recs), d)
				}
			}
		}
	}
	if err != nil {
		c.Tr.Add(&Ev{Kind: "badbatch", Node: r.Node, Conn: r.Conn.ID, Err: err, Raw: recs})
		if c.OnBadBatch != nil {
			c.OnBadBatch(r, err)
		}
		return 87, -1
	}
	base := pt.HW
	first := base
	for _, b := range bts {
		raw := append([]byte(nil), recs...)
		binary.BigEndian.PutUint64(raw, uint64(pt.HW))
		ch := Chunk{First: pt.HW, Last: pt.HW + int64(len(b.Recs)) - 1, Bytes: raw}
		for i, rec := range b.Recs {
			rec.Offset = pt.HW + int64(i)
			ch.Recs = append(ch.Recs, rec)
		}
		pt.Chunks = append(pt.Chunks, ch)
		pt.HW = ch.Last + 1
	}
	c.Tr.Add(&Ev{Kind: "append", Node: r.Node, Conn: r.Conn.ID, Note: fmt.Sprintf("%s-%d %d..%d", topic, pid, first, pt.HW-1),
		Body: M{"topic": topic, "partition": int64(pid), "first": first, "last": pt.HW - 1}})
	c.dataCond.Broadcast()
	return 0, first
}

func (c *Cluster) fetch(r *Req) M {
	b := r.Body
	dl := time.Now().Add(time.Duration(b.I("max_wait_ms")) * time.Millisecond)
	c.Mu.Lock()
	defer c.Mu.Unlock()
	for {
		var ts []any
		got := int64(0)
		bad := false
		for _, t := range b.Ms("topics") {
			var ps []any
			for _, p := range t.Ms("partitions") {
				pr, n, e := c.fetchPart(r, t.S("topic"), p)
				got += n
				bad = bad || e
				ps = append(ps, pr)
			}
			ts = append(ts, M{"topic": t.S("topic"), "partitions": ps})
		}
		if got >= b.I("min_bytes") || bad || c.stopped || r.Conn.closed.Load() || !time.Now().Before(dl) {
			return M{"error_code": int64(0), "session_id": int64(0), "responses": ts}
		}
		c.wait(min(time.Until(dl)+time.Millisecond, 100*time.Millisecond))
	}
}

func (c *Cluster) fetchPart(r *Req, topic string, p M) (M, int64, bool) {
	pid := int32(p.I("partition"))
	res := M{"partition": int64(pid), "error_code": int64(0), "high_watermark": int64(-1), "last_stable_offset": int64(-1), "log_start_offset": int64(-1),
		"aborted": nil, "preferred_read_replica": int64(-1), "records": []byte{}}
	fail := func(code int64) (M, int64, bool) {
		res["error_code"] = code
		return res, 0, true
	}
	t := c.Topics[topic]
	if t == nil || t.Parts[pid] == nil {
		return fail(3)
	}
	pt := t.Parts[pid]
	if pt.Leader != r.Node {
		return fail(c.notLeader())
	}
	if r.H.Version >= 9 && c.CheckEpoch {
		e := p.I("current_leader_epoch")
		if e >= 0 && e < int64(pt.Epoch) {
			return fail(74)
		}
		if e > int64(pt.Epoch) {
			return fail(76)
		}
	}
	res["high_watermark"] = pt.HW
	res["last_stable_offset"] = pt.HW
	res["log_start_offset"] = pt.LogStart
	if c.Aborted != nil {
		res["aborted"] = c.Aborted(topic, pid)
	}
	off := p.I("fetch_offset")
	if off < pt.LogStart || off > pt.HW {
		res["high_watermark"] = int64(-1)
		return fail(1)
	}
	mx := p.I("partition_max_bytes")
	if r.H.Version >= 3 && r.Body.I("max_bytes") < mx {
		mx = r.Body.I("max_bytes")
	}
	var out []byte
	i := sort.Search(len(pt.Chunks), func(i int) bool { return pt.Chunks[i].Last >= off })
	lim := len(pt.Chunks)
	if c.MaxBatches > 0 && i+c.MaxBatches < lim {
		lim = i + c.MaxBatches
	}
	for ; i < lim; i++ {
		ch := pt.Chunks[i]
		if int64(len(out)+len(ch.Bytes)) > mx {
			if len(out) == 0 && r.H.Version >= 3 {
				out = append(out, ch.Bytes...)
			} else if c.TruncateFetch || r.H.Version < 3 {
				out = append(out, ch.Bytes[:mx-int64(len(out))]...)
			}
			break
		}
		out = append(out, ch.Bytes...)
	}
	if len(out) == 0 && c.NullEmpty {
		res["records"] = nil
	} else {
		res["records"] = out
	}
	return res, int64(len(out)), false
}

func (c *Cluster) listOffsets(r *Req) M {
	c.Mu.Lock()
	defer c.Mu.Unlock()
	var ts []any
	for _, t := range r.Body.Ms("topics") {
		var ps []any
		for _, p := range t.Ms("partitions") {
			pid := int32(p.I("index"))
			x := M{"index": int64(pid), "error_code": int64(0), "offsets": []any{}, "timestamp": int64(-1), "offset": int64(-1), "leader_epoch": int64(-1)}
			tt := c.Topics[t.S("name")]
			switch {
			case tt == nil || tt.Parts[pid] == nil:
				x["error_code"] = int64(3)
			case tt.Parts[pid].Leader != r.Node:
				x["error_code"] = c.notLeader()
			default:
				off := c.offsetFor(tt.Parts[pid], p.I("timestamp"))
				x["offset"] = off
				if off >= 0 {
					x["offsets"] = []any{off}
				}
			}
			ps = append(ps, x)
		}
		ts = append(ts, M{"name": t.S("name"), "partitions": ps})
	}
	return M{"topics": ts}
}

func (c *Cluster) offsetFor(pt *Partition, ts int64) int64 {
	switch ts {
	case -1:
		return pt.HW
	case -2:
		return pt.LogStart
	}
	for _, ch := range pt.Chunks {
		for _, rec := range ch.Recs {
			if rec.Ts >= ts {
				return rec.Offset
			}
		}
	}
	return -1
}

// admin has simple truthful defaults for the administrative APIs.
func (c *Cluster) admin(r *Req) M {
	c.Mu.Lock()
	defer c.Mu.Unlock()
	b := r.Body
	ctl := r.Node == c.Controller
	switch r.H.Key {
	case kproto.ListGroups:
		var names []string
		for n, g := range c.Groups {
			if c.CoordOf(n) == r.Node && (len(g.Members) > 0 || len(g.Offsets) > 0) {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		a := []any{}
		for _, n := range names {
			a = append(a, M{"group": n, "protocol_type": "consumer", "state": c.Groups[n].State, "type": "classic"})
		}
		return M{"error_code": int64(0), "groups": a}
	case kproto.DescribeGroups:
		a := []any{}
		for _, x := range b.A("groups") {
			n := x.(string)
			g := c.Groups[n]
			if c.CoordOf(n) != r.Node {
				a = append(a, M{"error_code": int64(16), "group": n, "members": []any{}})
				continue
			}
			if g == nil || (len(g.Members) == 0 && len(g.Offsets) == 0) {
				a = append(a, M{"error_code": int64(0), "group": n, "state": "Dead", "members": []any{}})
				continue
			}
			ms := []any{}
			var ids []string
			for id := range g.Members {
				ids = append(ids, id)
			}
			sort.Strings(ids)
			for _, id := range ids {
				m := g.Members[id]
				as := m.Assigned
				if as == nil {
					as = []byte{}
				}
				ms = append(ms, M{"member": id, "client_id": m.ClientID, "client_host": "/127.0.0.1", "metadata": m.Meta, "assignment": as})
			}
			st := map[string]string{"Empty": "Empty", "Preparing": "PreparingRebalance", "Completing": "CompletingRebalance", "Stable": "Stable"}[g.State]
			a = append(a, M{"error_code": int64(0), "group": n, "state": st, "protocol_type": "consumer", "protocol": "range", "members": ms})
		}
		return M{"groups": a}
	case kproto.DeleteGroups:
		a := []any{}
		for _, x := range b.A("groups") {
			n := x.(string)
			code := int64(0)
			g := c.Groups[n]
			switch {
			case c.CoordOf(n) != r.Node:
				code = 16
			case g == nil:
				code = 69
			case len(g.Members) > 0:
				code = 68
			default:
				delete(c.Groups, n)
			}
			a = append(a, M{"group": n, "error_code": code})
		}
		return M{"results": a}
	case kproto.CreateTopics:
		a := []any{}
		for _, t := range b.Ms("topics") {
			code := int64(0)
			if !ctl {
				code = 41
			} else if c.Topics[t.S("name")] != nil {
				code = 36
			} else {
				n := int(t.I("num_partitions"))
				if as := t.Ms("assignments"); len(as) > 0 {
					n = len(as)
				}
				if n <= 0 {
					code = 37
				} else if !b.Bool("validate_only") {
					c.addTopicLocked(t.S("name"), n)
				}
			}
			a = append(a, M{"name": t.S("name"), "error_code": code, "error_message": nil})
		}
		return M{"topics": a}
	case kproto.DeleteTopics:
		a := []any{}
		for _, x := range b.A("names") {
			n := x.(string)
			code := int64(0)
			if !ctl {
				code = 41
			} else if c.Topics[n] == nil {
				code = 3
			} else {
				delete(c.Topics, n)
			}
			a = append(a, M{"name": n, "error_code": code})
		}
		return M{"responses": a}
	case kproto.CreatePartitions:
		a := []any{}
		for _, t := range b.Ms("topics") {
			code := int64(0)
			tt := c.Topics[t.S("name")]
			if !ctl {
				code = 41
			} else if tt == nil {
				code = 3
			} else if int(t.I("count")) <= len(tt.Parts) {
				code = 37
			} else if !b.Bool("validate_only") {
				for i := len(tt.Parts); i < int(t.I("count")); i++ {
					tt.Parts[int32(i)] = &Partition{Leader: c.Controller, Replicas: []int32{c.Controller}, ISR: []int32{c.Controller}}
				}
			}
			a = append(a, M{"name": t.S("name"), "error_code": code, "error_message": nil})
		}
		return M{"results": a}
	case kproto.DescribeConfigs:
		a := []any{}
		for _, x := range b.Ms("resources") {
			cfgs := []any{}
			key := fmt.Sprintf("%d/%s", x.I("type"), x.S("name"))
			var ks []string
			for k := range c.Configs[key] {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				keep := x["keys"] == nil
				for _, w := range x.A("keys") {
					keep = keep || w == k
				}
				if keep {
					cfgs = append(cfgs, M{"name": k, "value": c.Configs[key][k], "read_only": false, "is_default": false, "is_sensitive": false})
				}
			}
			a = append(a, M{"error_code": int64(0), "error_message": nil, "type": x.I("type"), "name": x.S("name"), "configs": cfgs})
		}
		return M{"results": a}
	case kproto.AlterConfigs, kproto.IncrementalAlterConfigs:
		a := []any{}
		for _, x := range b.Ms("resources") {
			key := fmt.Sprintf("%d/%s", x.I("type"), x.S("name"))
			if c.Configs == nil {
				c.Configs = map[string]map[string]any{}
			}
			if c.Configs[key] == nil || r.H.Key == kproto.AlterConfigs {
				c.Configs[key] = map[string]any{}
			}
			for _, cf := range x.Ms("configs") {
				if r.H.Key == kproto.IncrementalAlterConfigs && cf.I("op") == 1 {
					delete(c.Configs[key], cf.S("name"))
				} else {
					c.Configs[key][cf.S("name")] = cf["value"]
				}
			}
			a = append(a, M{"error_code": int64(0), "error_message": nil, "type": x.I("type"), "name": x.S("name")})
		}
		return M{"responses": a}
	case kproto.DescribeLogDirs:
		node := c.Nodes[r.Node]
		want := map[string]map[int64]bool{}
		for _, t := range b.Ms("topics") {
			want[t.S("topic")] = map[int64]bool{}
			for _, p := range t.A("partitions") {
				want[t.S("topic")][p.(int64)] = true
			}
		}
		res := []any{}
		for _, d := range node.LogDirs {
			ts := []any{}
			for _, t := range d.Ms("topics") {
				if b["topics"] != nil && want[t.S("name")] == nil && !c.LogDirsUnfiltered {
					continue
				}
				ts = append(ts, t)
			}
			res = append(res, M{"error_code": d.I("error_code"), "log_dir": d.S("log_dir"), "topics": ts})
		}
		return M{"results": res}
	case kproto.ElectLeaders, kproto.AlterPartitionReassignments:
		f, f2 := "results", "topic"
		if r.H.Key == kproto.AlterPartitionReassignments {
			f, f2 = "responses", "name"
		}
		a := []any{}
		for _, t := range b.Ms("topics") {
			ps := []any{}
			for _, p := range t.A("partitions") {
				idx, ok := p.(int64)
				if !ok {
					idx = p.(M).I("index")
				}
				ps = append(ps, M{"index": idx, "error_code": int64(0), "error_message": nil})
			}
			a = append(a, M{f2: t.S(f2), "partitions": ps})
		}
		code := int64(0)
		if !ctl {
			code = 41
		}
		return M{"error_code": code, "error_message": nil, f: a}
	case kproto.ListPartitionReassignments:
		return M{"error_code": int64(0), "error_message": nil, "topics": []any{}}
	case kproto.DescribeAcls:
		return M{"error_code": int64(0), "error_message": nil, "resources": []any{}}
	case kproto.CreateAcls:
		a := []any{}
		for range b.Ms("creations") {
			a = append(a, M{"error_code": int64(0), "error_message": nil})
		}
		return M{"results": a}
	case kproto.DeleteAcls:
		a := []any{}
		for range b.Ms("filters") {
			a = append(a, M{"error_code": int64(0), "error_message": nil, "matching_acls": []any{}})
		}
		return M{"filter_results": a}
	}
	return M{}
}
