package props

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net/url"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"

	"github.com/childe/healer"

	"verif/harness/fake"
	"verif/harness/kproto"
)

// flat replaces the topics of a request by a sorted list of topic/partition strings.
func flat(b M) {
	ts, ok := b["topics"].([]any)
	if !ok {
		return
	}
	out := []string{}
	for _, x := range ts {
		tp := x.(M)
		n := tp.S("name")
		if n == "" {
			n = tp.S("topic")
		}
		for _, p := range tp.A("partitions") {
			switch p := p.(type) {
			case M:
				extra := ""
				for _, k := range []string{"replicas", "offset"} {
					if v, ok := p[k]; ok {
						extra += fmt.Sprintf(" %s=%v", k, v)
					}
				}
				out = append(out, fmt.Sprintf("%s/%d%s", n, p.I("index"), extra))
			default:
				out = append(out, fmt.Sprintf("%s/%v", n, p))
			}
		}
	}
	sort.Strings(out)
	b["topics"] = anyStrs(out)
}

// sameResp compares JSON of the given response type with the scripted body.
func sameResp[R any](key int, body M) func([]byte, bool) string {
	return func(out []byte, _ bool) string {
		var x R
		if d := jsonInto(out, &x); d != "" {
			return d
		}
		return compareResponse(kproto.Name(key), x, body)
	}
}

func scriptedResp(r *rand.Rand, key int) M {
	ver := bestVersion(key, fake.DefaultVersions()[key])
	o := kproto.GenOpt{MaxElems: 4, MaxBytes: 40, Over: func(path, kind string) (any, bool) {
		switch path[strings.LastIndexByte(path, '.')+1:] {
		case "resource_type":
			return int64(r.Intn(8)), true
		case "pattern_type":
			return int64(r.Intn(5)), true
		case "operation":
			return int64(r.Intn(13)), true
		case "permission":
			return int64(r.Intn(4)), true
		case "throttle_time_ms":
			return int64(0), true
		}
		return nil, false
	}}
	return driverOf[key].genResp(r, ver, o)
}

func esc(s string) string { return url.PathEscape(s) }

func lines(out []byte) []string {
	s := strings.TrimSuffix(string(out), "\n")
	if s == "" {
		return nil
	}
	return strings.Split(s, "\n")
}

func sortedParts(tp *fake.Topic) (ps []int32) {
	for p := range tp.Parts {
		ps = append(ps, p)
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i] < ps[j] })
	return
}

func (s *toolState) offset(tn string, p int32, ts int64) int64 {
	pt := s.c.Topics[tn].Parts[p]
	switch ts {
	case -1:
		return pt.HW
	case -2:
		return pt.LogStart
	}
	for _, ch := range pt.Chunks {
		for _, rec := range ch.Recs {
			if rec.Ts >= ts {
				return rec.Offset
			}
		}
	}
	return -1
}

// leads tells whether a node leads a partition of the topic.
func (s *toolState) leads(tn string) func(int32) bool {
	m := map[int32]bool{}
	for _, pt := range s.c.Topics[tn].Parts {
		m[pt.Leader] = true
	}
	return func(id int32) bool { return m[id] }
}

var readOps = []func(*toolState) *top{
	// metadata
	func(s *toolState) *top {
		r := s.r
		var tops []string
		if r.Intn(3) > 0 {
			for _, i := range r.Perm(len(s.tops))[:1+r.Intn(len(s.tops))] {
				tops = append(tops, s.tops[i])
			}
		}
		cat := r.Intn(3) == 0
		o := &top{name: "get-metadata", key: kproto.Metadata, node: s.anyone}
		o.cli = s.base("get-metadata")
		q := s.q()
		for _, x := range tops {
			q.Add("topics", x)
		}
		if len(tops) > 0 {
			o.cli = append(o.cli, pick(r, "-t", "--topics"), strings.Join(tops, ","))
		}
		if cat {
			o.cli = append(o.cli, "--format", "cat")
		}
		o.http = &httpReq{method: "GET", path: "/metadata", query: q}
		show := tops
		if show == nil {
			show = s.tops
		}
		var bs, ps, cs []string
		addr := map[int32]string{}
		for id, n := range s.c.Nodes {
			addr[id] = n.Addr()
			bs = append(bs, fmt.Sprintf("%d %s", id, n.Addr()))
		}
		for _, tn := range show {
			for p, pt := range s.c.Topics[tn].Parts {
				ps = append(ps, fmt.Sprintf("%s %d leader=%d replicas=%v isr=%v", tn, p, pt.Leader, pt.Replicas, pt.ISR))
				cs = append(cs, fmt.Sprintf("%s %d %s", tn, p, addr[pt.Leader]))
			}
		}
		sort.Strings(bs)
		sort.Strings(ps)
		sort.Strings(cs)
		o.judge = func(out []byte, viaHTTP bool) string {
			if cat && !viaHTTP {
				l := lines(out)
				want := append(append([]string{"brokers:"}, bs...), "topics:")
				nb := len(want)
				if len(l) != nb+len(cs) {
					return fmt.Sprintf("%d lines instead of %d", len(l), nb+len(cs))
				}
				sort.Strings(l[1 : nb-1])
				sort.Strings(l[nb:])
				want = append(want, cs...)
				if fmt.Sprint(l) != fmt.Sprint(want) {
					return fmt.Sprintf("%q instead of %q", l, want)
				}
				return ""
			}
			var x healer.MetadataResponse
			if d := jsonInto(out, &x); d != "" {
				return d
			}
			var gb, gp []string
			for _, b := range x.Brokers {
				gb = append(gb, fmt.Sprintf("%d %s:%d", b.NodeID, b.Host, b.Port))
			}
			for _, tm := range x.TopicMetadatas {
				if tm.TopicErrorCode != 0 {
					return fmt.Sprintf("error code of %s", tm.TopicName)
				}
				for _, p := range tm.PartitionMetadatas {
					gp = append(gp, fmt.Sprintf("%s %d leader=%d replicas=%v isr=%v", tm.TopicName, p.PartitionID, p.Leader, p.Replicas, p.Isr))
				}
			}
			sort.Strings(gb)
			sort.Strings(gp)
			if fmt.Sprint(gb) != fmt.Sprint(bs) || x.ControllerID != s.c.Controller {
				return fmt.Sprintf("brokers %v controller %d instead of %v %d", gb, x.ControllerID, bs, s.c.Controller)
			}
			if fmt.Sprint(gp) != fmt.Sprint(ps) {
				return fmt.Sprintf("partitions %v instead of %v", gp, ps)
			}
			return ""
		}
		return o
	},
	// offsets
	func(s *toolState) *top {
		r := s.r
		tn := pick(r, s.tops...)
		ts := pick(r, int64(-1), -1, -2, 0, 1000, 1002, 5000)
		o := &top{name: "get-offsets", key: kproto.ListOffsets, node: s.leads(tn), errs: []string{"topics.partitions.error_code"}}
		o.cli = append(s.base("get-offsets"), pick(r, "-t", "--topic"), tn)
		if ts != -1 || r.Intn(2) == 0 {
			o.cli = append(o.cli, fmt.Sprintf("--timestamp=%d", ts))
		}
		o.http = &httpReq{method: "GET", path: "/topic/" + esc(tn) + "/offsets", query: s.q("timestamp", fmt.Sprint(ts))}
		var want []string
		for _, p := range sortedParts(s.c.Topics[tn]) {
			want = append(want, fmt.Sprintf("%s:%d %d", tn, p, s.offset(tn, p, ts)))
		}
		o.judge = func(out []byte, viaHTTP bool) string {
			var got []string
			if viaHTTP {
				var x []healer.PartitionOffset
				if d := jsonInto(out, &x); d != "" {
					return d
				}
				for _, y := range x {
					got = append(got, fmt.Sprintf("%s:%d %d", tn, y.Partition, y.GetOffset()))
				}
			} else {
				for _, l := range lines(out) {
					m := regexp.MustCompile(`^(.*):(-?\d+):(-?\d+) (-?\d+)$`).FindStringSubmatch(l)
					if m == nil {
						return fmt.Sprintf("line %q", l)
					}
					got = append(got, m[1]+":"+m[2]+" "+m[4])
				}
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				return fmt.Sprintf("timestamp %d: %q instead of %q", ts, got, want)
			}
			return ""
		}
		return o
	},
	// pending
	func(s *toolState) *top { return s.pending() },
	func(s *toolState) *top { return s.pending() },
	// groups
	func(s *toolState) *top {
		o := &top{name: "list-groups", key: kproto.ListGroups, node: s.anyone, errs: []string{"error_code"}}
		o.cli = s.base("list-groups")
		o.http = &httpReq{method: "GET", path: "/groups", query: s.q()}
		want := map[string]bool{}
		for n, g := range s.c.Groups {
			if len(g.Offsets) > 0 || len(g.Members) > 0 {
				want[fmt.Sprintf("%d/%s", s.c.CoordOf(n), n)] = true
			}
		}
		o.judge = func(out []byte, _ bool) string {
			var x map[int32][]healer.Group
			if d := jsonInto(out, &x); d != "" {
				return d
			}
			got := map[string]bool{}
			for id, gs := range x {
				for _, g := range gs {
					k := fmt.Sprintf("%d/%s", id, g.GroupID)
					if got[k] {
						return "group listed twice: " + k
					}
					got[k] = true
				}
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				return fmt.Sprintf("%v instead of %v", got, want)
			}
			return ""
		}
		return o
	},
	// one group
	func(s *toolState) *top {
		g := pick(s.r, s.grps...)
		o := &top{name: "describe-groups", key: kproto.DescribeGroups, node: s.coord(g), errs: []string{"groups.error_code"}}
		o.cli = append(s.base("describe-groups"), pick(s.r, "-g", "--group"), g)
		o.http = &httpReq{method: "GET", path: "/group/" + esc(g), query: s.q()}
		o.want = []M{{"groups": []any{g}}}
		var want []string
		state := "Dead"
		if gr := s.c.Groups[g]; gr != nil {
			if len(gr.Offsets)+len(gr.Members) > 0 {
				state = gr.State
			}
			for id, m := range gr.Members {
				as, _ := fake.DecodeAssignment(m.Assigned)
				want = append(want, member(id, m.ClientID, as))
			}
		}
		sort.Strings(want)
		o.judge = func(out []byte, _ bool) string {
			var x []healer.GroupDetail
			if d := jsonInto(out, &x); d != "" {
				return d
			}
			if len(x) != 1 || x[0].GroupID != g || x[0].State != state {
				return fmt.Sprintf("%+v instead of group %q in state %s", x, g, state)
			}
			var got []string
			for _, m := range x[0].Members {
				as := map[string][]int32{}
				if m.MemberAssignment != nil {
					for _, p := range m.MemberAssignment.PartitionAssignments {
						as[p.Topic] = append(as[p.Topic], p.Partitions...)
					}
				}
				got = append(got, member(m.MemberID, m.ClientID, as))
			}
			sort.Strings(got)
			if fmt.Sprint(got) != fmt.Sprint(want) {
				return fmt.Sprintf("members %q instead of %q", got, want)
			}
			return ""
		}
		return o
	},
	// configs
	func(s *toolState) *top {
		r := s.r
		o := &top{name: "describe-configs", key: kproto.DescribeConfigs, errs: []string{"results.error_code"}}
		rt, rn, ty := "topic", pick(r, s.tops...), int64(2)
		o.node = s.anyone
		if r.Intn(2) == 0 {
			id := pick(r, s.ids...)
			rt, rn, ty = "broker", fmt.Sprint(id), 4
			if r.Intn(3) == 0 {
				rt, ty = "broker_logger", 8
			}
			o.node = func(n int32) bool { return n == id }
		}
		o.cli = append(s.base("describe-configs"), "--resource-type", rt, "--resource-name", rn)
		if ty != 8 {
			o.http = &httpReq{method: "GET", path: "/configs/" + rt + "/" + esc(rn), query: s.q()}
		}
		cfgs := s.c.Configs[fmt.Sprintf("%d/%s", ty, rn)]
		var keys any
		want := map[string]string{}
		for k, v := range cfgs {
			want[k] = v.(string)
		}
		if r.Intn(3) == 0 {
			k := "retention.ms"
			if ty == 4 {
				k = "log.dirs"
			}
			if ty == 8 {
				k = "root"
			}
			ks := []any{k}
			o.cli = append(o.cli, "--keys", k)
			if r.Intn(2) == 0 {
				ks = append(ks, "no.such.key")
				o.cli = append(o.cli, "--keys", "no.such.key")
			}
			o.http = nil
			if ty == 2 && len(ks) == 1 {
				o.http = &httpReq{method: "GET", path: "/topic/" + esc(rn) + "/config/" + esc(k), query: s.q()}
			}
			keys = ks
			want = map[string]string{k: cfgs[k].(string)}
		}
		o.want = []M{{"resources": []any{M{"type": ty, "name": rn, "keys": keys}}}}
		o.judge = func(out []byte, _ bool) string {
			var x healer.DescribeConfigsResponse
			if d := jsonInto(out, &x); d != "" {
				return d
			}
			if len(x.Resources) != 1 || x.Resources[0].ResourceName != rn || int64(x.Resources[0].ResourceType) != ty {
				return fmt.Sprintf("%+v instead of %s %s", x, rt, rn)
			}
			got := map[string]string{}
			for _, e := range x.Resources[0].ConfigEntries {
				got[e.ConfigName] = e.ConfigValue
			}
			if fmt.Sprint(got) != fmt.Sprint(want) || len(x.Resources[0].ConfigEntries) != len(want) {
				return fmt.Sprintf("%v instead of %v", got, want)
			}
			return ""
		}
		return o
	},
	// log directories
	func(s *toolState) *top {
		r := s.r
		var tops []string
		for _, i := range r.Perm(len(s.tops))[:1+r.Intn(len(s.tops))] {
			tops = append(tops, s.tops[i])
		}
		if r.Intn(4) == 0 {
			tops = nil // all
		}
		has := map[int32]bool{}
		want := map[string]bool{}
		for tn, tp := range s.c.Topics {
			in := len(tops) == 0
			for _, x := range tops {
				in = in || x == tn
			}
			for p, pt := range tp.Parts {
				for _, id := range pt.Replicas {
					if in {
						has[id] = true
						want[fmt.Sprintf("%d %s-%d %d", id, tn, p, int64(id)*1000+int64(p))] = true
					}
				}
			}
		}
		o := &top{name: "describe-logdirs", key: kproto.DescribeLogDirs, node: func(id int32) bool { return has[id] }}
		o.cli = s.base("describe-logdirs")
		if tops != nil {
			o.cli = append(o.cli, "-t", strings.Join(tops, ","))
		}
		o.http = &httpReq{method: "POST", path: "/describe-logdirs", query: s.q(), body: toJSON(map[string]any{"topics": tops})}
		if len(tops) == 1 && r.Intn(2) == 0 {
			o.http = &httpReq{method: "GET", path: "/topic/" + esc(tops[0]) + "/logdirs", query: s.q()}
		}
		o.judge = func(out []byte, _ bool) string {
			var x map[int32]healer.DescribeLogDirsResponse
			if d := jsonInto(out, &x); d != "" {
				return d
			}
			got := map[string]bool{}
			for id, y := range x {
				for _, d := range y.Results {
					for _, z := range d.Topics {
						for _, p := range z.Partitions {
							got[fmt.Sprintf("%d %s-%d %d", id, z.TopicName, p.PartitionID, p.Size)] = true
						}
					}
				}
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				return fmt.Sprintf("%v instead of %v", got, want)
			}
			return ""
		}
		return o
	},
	// reassignments
	func(s *toolState) *top {
		r := s.r
		o := &top{name: "list-partition-reassignments", key: kproto.ListPartitionReassignments, node: s.ctl, errs: driverOf[kproto.ListPartitionReassignments].errs, canon: flat}
		to := pick(r, 1+r.Intn(1000), 1000+r.Intn(60000), 1<<30+r.Intn(1<<30))
		tps, list := s.someTPs()
		o.cli = append(s.base("list-partition-reassignments"), "--timeout.ms", fmt.Sprint(to))
		w := M{"timeout_ms": int64(to), "topics": anyStrs(list)}
		body := toJSON(tps)
		if r.Intn(3) == 0 {
			w["topics"] = nil
			body = pick(r, "", "[]")
		} else {
			o.cli = append(o.cli, pick(r, "-d", "--data"), body)
		}
		o.http = &httpReq{method: "POST", path: "/list-partition-reassignments", query: s.q("timeout", fmt.Sprint(to)), body: body}
		o.want = []M{w}
		o.resp = scriptedResp(r, o.key)
		o.judge = sameResp[healer.ListPartitionReassignmentsResponse](o.key, o.resp)
		return o
	},
	// acls
	func(s *toolState) *top {
		o := &top{name: "describe-acls", key: kproto.DescribeAcls, node: s.ctl, errs: driverOf[kproto.DescribeAcls].errs}
		a := randACL(s.r, true)
		o.cli = append(s.base("describe-acls"), a.flags(s.r)...)
		o.http = &httpReq{method: "POST", path: "/describe-acls", query: s.q(), body: toJSON(a.json(s.r))}
		o.want = []M{a.m()}
		o.resp = scriptedResp(s.r, o.key)
		o.judge = sameResp[healer.DescribeAclsResponse](o.key, o.resp)
		return o
	},
	func(s *toolState) *top { return s.readNonsense() },
}

func member(id, client string, as map[string][]int32) string {
	var x []string
	for tn, ps := range as {
		for _, p := range ps {
			x = append(x, fmt.Sprintf("%s-%d", tn, p))
		}
	}
	sort.Strings(x)
	return fmt.Sprintf("%s %s %v", id, client, x)
}

// pending is get-pending of one group, of all groups or of those matching a pattern.
func (s *toolState) pending() *top {
	r := s.r
	g := pick(r, s.grps...)
	tn := s.tops[0]
	o := &top{name: "get-pending", key: kproto.OffsetFetch, node: s.coord(g), errs: []string{"topics.partitions.error_code"}}
	arg := g
	match := map[string]bool{g: true}
	active := map[string]bool{}
	for n, gr := range s.c.Groups {
		if len(gr.Offsets) > 0 || len(gr.Members) > 0 {
			active[n] = true
		}
	}
	mode := r.Intn(4)
	switch mode {
	case 0: // all groups
		arg, match = "", active
	case 1: // pattern
		rs := []rune(g)
		k := r.Intn(len(rs) + 1)
		pre, post := string(rs[:k]), ""
		if r.Intn(2) == 0 && k < len(rs) {
			post = string(rs[k+r.Intn(len(rs)-k):])
		}
		arg = pre + "*" + post
		match = map[string]bool{}
		for n := range active {
			if len(n) >= len(pre)+len(post) && strings.HasPrefix(n, pre) && strings.HasSuffix(n, post) {
				match[n] = true
			}
		}
	}
	single := mode > 1
	if !single {
		o.node = func(id int32) bool {
			for n := range match {
				if s.c.CoordOf(n) == id {
					return true
				}
			}
			return false
		}
		o.name += " of several groups"
	}
	o.cli = s.base("get-pending")
	if arg != "" {
		o.cli = append(o.cli, pick(r, "-g", "--group"), arg)
	}
	byTopic := r.Intn(3) > 0
	if byTopic {
		o.cli = append(o.cli, pick(r, "-t", "--topic"), tn)
	} else {
		o.name += " by subscription"
	}
	header, total := r.Intn(2) == 0, r.Intn(2) == 0
	o.cli = append(o.cli, fmt.Sprintf("--header=%v", header), fmt.Sprintf("--total=%v", total))
	if byTopic && single {
		o.http = &httpReq{method: "GET", path: "/group/" + esc(g) + "/pending/" + esc(tn), query: s.q()}
	}
	if len(match) == 0 {
		o.node = func(int32) bool { return false }
	}
	// expected lines: topic group partition offset committed lag member; a lag without a commit is not judged
	type tg struct{ t, g string }
	want := map[string]bool{}
	totals := map[string]bool{}
	wantTG := 0
	for n := range match {
		gr := s.c.Groups[n]
		tops := map[string]map[int32]string{}
		if byTopic {
			tops[tn] = map[int32]string{}
		} else if gr != nil {
			for id, m := range gr.Members {
				as, _ := fake.DecodeAssignment(m.Assigned)
				for x, ps := range as {
					if tops[x] == nil {
						tops[x] = map[int32]string{}
					}
					for _, p := range ps {
						tops[x][p] = " " + id
					}
				}
			}
		}
		for x, owner := range tops {
			wantTG++
			for p, pt := range s.c.Topics[x].Parts {
				cm := int64(-1)
				if gr != nil {
					if v, ok := gr.Offsets[x][p]; ok {
						cm = v
					}
				}
				lag := fmt.Sprint(pt.HW - cm)
				if cm < 0 {
					lag = "*"
				}
				own := owner[p]
				if !byTopic && own == "" {
					own = " "
				}
				want[fmt.Sprintf("%s  %s  %d  %d  %d  %s%s", x, n, p, pt.HW, cm, lag, own)] = true
			}
			totals[x+"  "+n] = true
		}
	}
	o.judge = func(out []byte, viaHTTP bool) string {
		got := map[string]bool{}
		n := 0
		if viaHTTP {
			var x []struct {
				Partition int32 `json:"partition"`
				Offset    int64 `json:"offset"`
				Committed int64 `json:"committed"`
				Lag       int64 `json:"lag"`
			}
			if d := jsonInto(out, &x); d != "" {
				return d
			}
			for _, y := range x {
				lag := fmt.Sprint(y.Lag)
				if y.Committed < 0 {
					lag = "*"
				}
				got[fmt.Sprintf("%s  %s  %d  %d  %d  %s", tn, g, y.Partition, y.Offset, y.Committed, lag)] = true
				n++
			}
		} else {
			hs, tots := 0, 0
			sums := map[string][3]int64{} // topic and group: offset, committed, lag
			for _, l := range lines(out) {
				switch {
				case strings.HasPrefix(l, "timestamp  topic"):
					hs++
				case strings.HasPrefix(l, "TOTAL  "):
					tots++
					// the sums of the lines before it
					m := regexp.MustCompile(`^TOTAL  (.*)  (-?\d+)  (-?\d+)  (-?\d+)$`).FindStringSubmatch(l)
					if m == nil || !totals[m[1]] {
						return fmt.Sprintf("unexpected total %q, want %q", l, keys(totals))
					}
					if sum := fmt.Sprint(sums[m[1]]); sum != fmt.Sprint(m[2:]) {
						return fmt.Sprintf("total %q, but the sums of the lines are %s", l, sum)
					}
				default:
					i := strings.Index(l, "  ")
					if i < 0 {
						return fmt.Sprintf("line %q", l)
					}
					if _, err := strconv.ParseInt(l[:i], 10, 64); err != nil {
						return fmt.Sprintf("line %q", l)
					}
					m := regexp.MustCompile(`^(.*  -?\d+  -?\d+  )(-?\d+)(  )(-?\d+)( .*)?$`).FindStringSubmatch(l[i+2:])
					if m == nil {
						return fmt.Sprintf("line %q", l)
					}
					v := regexp.MustCompile(`^(.*)  -?\d+  (-?\d+)  $`).FindStringSubmatch(m[1])
					if v == nil {
						return fmt.Sprintf("line %q", l)
					}
					sum := sums[v[1]]
					for i, x := range []string{v[2], m[2], m[4]} {
						k, _ := strconv.ParseInt(x, 10, 64)
						sum[i] += k
					}
					sums[v[1]] = sum
					if m[2] == "-1" {
						m[4] = "*"
					}
					got[strings.Join(m[1:], "")] = true
					n++
				}
			}
			if header && hs != wantTG || !header && hs != 0 {
				return fmt.Sprintf("%d headers for %d topics of groups", hs, wantTG)
			}
			if total && tots != len(totals) || !total && tots != 0 {
				return fmt.Sprintf("%d totals for %d topics of groups", tots, len(totals))
			}
		}
		if fmt.Sprint(keys(got)) != fmt.Sprint(keys(want)) || n != len(want) {
			return fmt.Sprintf("%q instead of %q", keys(got), keys(want))
		}
		return ""
	}
	return o
}

func keys[V any](m map[string]V) (ks []string) {
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return
}

type tpJSON struct {
	Topic     string  `json:"topic"`
	Partition int32   `json:"partition"`
	Replicas  []int32 `json:"replicas,omitempty"`
}

// someTPs are some partitions, in the JSON form and flattened.
func (s *toolState) someTPs() (tps []tpJSON, list []string) {
	for len(tps) == 0 {
		for _, tn := range s.tops {
			for _, p := range sortedParts(s.c.Topics[tn]) {
				if s.r.Intn(2) == 0 {
					tps = append(tps, tpJSON{Topic: tn, Partition: p})
				}
			}
		}
	}
	s.r.Shuffle(len(tps), func(i, j int) { tps[i], tps[j] = tps[j], tps[i] })
	for _, x := range tps {
		list = append(list, fmt.Sprintf("%s/%d", x.Topic, x.Partition))
	}
	sort.Strings(list)
	return
}

// ---- access control lists -----------------------------------------------------------

type acl struct {
	rt, pt, op, pm        int64
	name, principal, host any // string, nil: not given
	filter                bool
	def                   map[string]bool // flags left out
}

var (
	aclRT = map[int64][]string{1: {"any"}, 2: {"topic"}, 3: {"group"}, 4: {"cluster"}, 5: {"transactional_id"}, 6: {"delegation_token"}}
	aclPT = map[int64][]string{1: {"any"}, 2: {"match"}, 3: {"literal"}, 4: {"prefixed"}}
	aclOP = map[int64][]string{1: {"any"}, 2: {"all"}, 3: {"read"}, 4: {"write"}, 5: {"create"}, 6: {"delete"}, 7: {"alter"}, 8: {"describe"},
		9: {"clusteraction", "cluster_action"}, 10: {"describeconfigs", "describe_configs"}, 11: {"alterconfigs", "alter_configs"}, 12: {"idempotentwrite", "idempotent_write"}}
	aclPM = map[int64][]string{1: {"any"}, 2: {"deny"}, 3: {"allow"}}
)

func randACL(r *rand.Rand, filter bool) acl {
	a := acl{rt: int64(1 + r.Intn(6)), pt: int64(1 + r.Intn(4)), op: int64(1 + r.Intn(12)), pm: int64(1 + r.Intn(3)), filter: filter, def: map[string]bool{}}
	a.name, a.principal, a.host = someText(r), "User:"+someText(r), someText(r)
	if filter {
		for _, p := range []*any{&a.name, &a.principal, &a.host} {
			switch r.Intn(4) {
			case 0:
				*p = nil
			case 1:
				*p = pick(r, "*", "User:*", "")
			}
		}
	}
	return a
}

func (a acl) m() M {
	return M{"resource_type": a.rt, "resource_name": a.name, "pattern_type": a.pt, "principal": a.principal, "host": a.host, "operation": a.op, "permission": a.pm}
}

func spell(r *rand.Rand, m map[int64][]string, k int64) string {
	s := pick(r, m[k]...)
	if r.Intn(2) == 0 {
		s = strings.ToUpper(s)
	}
	return s
}

func (a acl) flags(r *rand.Rand) (fs []string) {
	add := func(k string, v any) {
		if v != nil {
			fs = append(fs, fmt.Sprintf("--%s=%v", k, v))
		}
	}
	add("resourcetype", spell(r, aclRT, a.rt))
	add("patterntype", spell(r, aclPT, a.pt))
	add("operation", spell(r, aclOP, a.op))
	add("permissiontype", spell(r, aclPM, a.pm))
	add("resource", a.name)
	add("principal", a.principal)
	add("host", a.host)
	r.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	return
}

func (a acl) json(r *rand.Rand) map[string]any {
	m := map[string]any{"ResourceType": spell(r, aclRT, a.rt), "PatternType": spell(r, aclPT, a.pt), "Operation": spell(r, aclOP, a.op), "PermissionType": spell(r, aclPM, a.pm)}
	for k, v := range map[string]any{"ResourceName": a.name, "Principal": a.principal, "Host": a.host} {
		if v != nil || r.Intn(2) == 0 {
			m[k] = v
		}
	}
	return m
}

// ---- changes --------------------------------------------------------------------------

var writeOps = []func(*toolState) *top{
	// topics
	func(s *toolState) *top {
		r := s.r
		o := &top{name: "create-topic", key: kproto.CreateTopics, node: s.ctl, errs: driverOf[kproto.CreateTopics].errs}
		tn := topicName(r)
		o.cli = append(s.base("create-topic"), pick(r, "-t", "--topic"), tn)
		w := M{"name": tn, "num_partitions": int64(-1), "replication_factor": int64(-1), "assignments": []any{}, "configs": []any{}}
		to := int64(30000)
		if r.Intn(2) == 0 {
			to = int64(1000 + r.Intn(100000))
			o.cli = append(o.cli, "--timeout", fmt.Sprint(to))
		}
		if r.Intn(3) == 0 {
			var as []any
			var txt []string
			for p := 0; p < 1+r.Intn(12); p++ {
				bs := brokerIDs(r, 1+r.Intn(3))
				as = append(as, M{"index": int64(p), "brokers": ints(bs)})
				txt = append(txt, strings.ReplaceAll(strings.Trim(fmt.Sprint(bs), "[]"), " ", ":"))
			}
			w["assignments"] = as
			o.cli = append(o.cli, "--replica-assignment", strings.Join(txt, ","))
			o.name = "create-topic with replicas"
		} else {
			if r.Intn(4) > 0 {
				n := 1 + r.Intn(100)
				w["num_partitions"] = int64(n)
				o.cli = append(o.cli, "--partitions", fmt.Sprint(n))
			}
			if r.Intn(4) > 0 {
				n := 1 + r.Intn(5)
				w["replication_factor"] = int64(n)
				o.cli = append(o.cli, "--replication-factor", fmt.Sprint(n))
			}
		}
		o.want = []M{{"topics": []any{w}, "timeout_ms": to, "validate_only": false}}
		o.canon = func(b M) {
			for _, x := range b.Ms("topics") {
				as := x.A("assignments")
				sort.Slice(as, func(i, j int) bool { return as[i].(M).I("index") < as[j].(M).I("index") })
			}
		}
		o.resp = M{"topics": []any{M{"name": tn, "error_code": int64(0)}}}
		return o
	},
	func(s *toolState) *top {
		r := s.r
		o := &top{name: "delete-topics", key: kproto.DeleteTopics, node: s.ctl, errs: driverOf[kproto.DeleteTopics].errs}
		var ts []string
		for _, i := range r.Perm(len(s.tops))[:1+r.Intn(len(s.tops))] {
			ts = append(ts, s.tops[i])
		}
		o.cli = append(s.base("delete-topics"), pick(r, "-t", "--topics"), strings.Join(ts, ","))
		o.want = []M{{"names": anyStrs(ts)}}
		a := []any{}
		for _, x := range ts {
			a = append(a, M{"name": x, "error_code": int64(0)})
		}
		o.resp = M{"responses": a}
		o.judge = sameResp[healer.DeleteTopicsResponse](o.key, o.resp)
		return o
	},
	func(s *toolState) *top {
		r := s.r
		o := &top{name: "create-partitions", key: kproto.CreatePartitions, node: s.ctl, errs: driverOf[kproto.CreatePartitions].errs}
		tn := pick(r, s.tops...)
		cnt := len(s.c.Topics[tn].Parts) + 1 + r.Intn(20)
		to := pick(r, 1+r.Intn(1000), 1000+r.Intn(60000), 1<<30+r.Intn(1<<30))
		w := M{"name": tn, "count": int64(cnt), "assignments": nil}
		full := M{"topics": []any{w}, "timeout_ms": int64(to), "validate_only": false}
		o.http = &httpReq{method: "POST", path: "/create-partitions", query: s.q(), body: toJSON(map[string]any{"topic": tn, "count": cnt, "timeout": to})}
		o.resp = M{"results": []any{M{"name": tn, "error_code": int64(0), "error_message": nil}}, "throttle_time_ms": int64(0)}
		o.judge = func(out []byte, viaHTTP bool) string {
			if !viaHTTP {
				return ""
			}
			return sameResp[healer.CreatePartitionsResponse](o.key, o.resp)(out, true)
		}
		o.want = []M{full}
		if r.Intn(2) == 0 {
			o.http = nil
			o.cli = append(s.base("create-partitions"), "-t", tn, "--count", fmt.Sprint(cnt), "--timeout", fmt.Sprint(to))
			if r.Intn(2) == 0 {
				o.cli = append(o.cli, "--validate-only=false")
			} else {
				full["validate_only"] = true
				if r.Intn(2) == 0 {
					o.cli = append(o.cli, "--validate-only")
				}
			}
			if r.Intn(2) == 0 {
				var as []any
				var txt []string
				for p := 0; p < 1+r.Intn(12); p++ {
					bs := brokerIDs(r, 1+r.Intn(3))
					as = append(as, M{"brokers": ints(bs)})
					txt = append(txt, strings.ReplaceAll(strings.Trim(fmt.Sprint(bs), "[]"), " ", ":"))
				}
				w["assignments"] = as
				if r.Intn(3) == 0 { // empty items are skipped
					i := r.Intn(len(txt) + 1)
					txt = append(txt[:i:i], append([]string{""}, txt[i:]...)...)
				}
				o.cli = append(o.cli, "--assignments", strings.Join(txt, ","))
				o.name = "create-partitions with replicas"
			}
		}
		return o
	},
	// groups
	func(s *toolState) *top {
		r := s.r
		o := &top{name: "delete-groups", key: kproto.DeleteGroups, errs: driverOf[kproto.DeleteGroups].errs}
		var gs []string
		for _, i := range r.Perm(len(s.grps)) {
			g := s.grps[i]
			if gr := s.c.Groups[g]; gr != nil && len(gr.Members) == 0 && (len(gs) == 0 || r.Intn(2) == 0) {
				gs = append(gs, g)
			}
		}
		if len(gs) == 0 {
			gs = []string{"other"}
			s.c.SetCommitted("other", s.tops[0], 0, 0)
		}
		in := map[int32]bool{}
		gone := map[string]bool{}
		for _, g := range gs {
			in[s.c.CoordOf(g)] = true
			gone[g] = true
		}
		o.node = func(id int32) bool { return in[id] }
		o.cli = s.base("delete-groups")
		for _, g := range gs {
			o.cli = append(o.cli, pick(r, "-g", "--groups"), csvQuote(g))
		}
		var keep []string
		for g := range s.c.Groups {
			if !gone[g] {
				keep = append(keep, g)
			}
		}
		sort.Strings(keep)
		sort.Strings(gs)
		o.judge = func(out []byte, _ bool) string {
			var x healer.DeleteGroupsResponse
			if d := jsonInto(out, &x); d != "" {
				return d
			}
			var got []string
			for _, y := range x.Results {
				if y.ErrorCode != 0 {
					return fmt.Sprintf("error code %d for %s", y.ErrorCode, y.GroupID)
				}
				got = append(got, y.GroupID)
			}
			sort.Strings(got)
			if fmt.Sprint(got) != fmt.Sprint(gs) {
				return fmt.Sprintf("%q instead of %q", got, gs)
			}
			s.c.Mu.Lock()
			defer s.c.Mu.Unlock()
			left := keys(s.c.Groups)
			if fmt.Sprint(left) != fmt.Sprint(keep) {
				return fmt.Sprintf("groups left %q instead of %q", left, keep)
			}
			return ""
		}
		return o
	},
	// configs
	func(s *toolState) *top {
		r := s.r
		o := &top{name: "alter-configs", key: kproto.IncrementalAlterConfigs, node: s.ctl, errs: driverOf[kproto.IncrementalAlterConfigs].errs}
		rt, rn, ty := "topic", pick(r, s.tops...), int64(2)
		k, v := topicName(r), someText(r)
		if r.Intn(2) == 0 {
			id := pick(r, s.ids...)
			rt, rn, ty = "broker", fmt.Sprint(id), 4
			if r.Intn(3) == 0 {
				rt, ty = "broker_logger", 8
			}
			o.node = func(n int32) bool { return n == id }
			if rt == "broker" && r.Intn(4) == 0 { // the default of all brokers
				rn, o.node = "", s.ctl
			}
		} else {
			o.http = &httpReq{method: "POST", path: "/topic/" + esc(rn) + "/config/" + esc(k) + "/" + esc(v), query: s.q()}
		}
		o.cli = append(s.base("alter-configs"), "--resource-type", rt, "--resource-name", rn, "--config-name", k, "--config-value", v)
		o.want = []M{{"resources": []any{M{"type": ty, "name": rn, "configs": []any{M{"name": k, "op": int64(0), "value": v}}}}, "validate_only": false}}
		o.resp = scriptedResp(r, o.key)
		o.judge = sameResp[healer.IncrementalAlterConfigsResponse](o.key, o.resp)
		return o
	},
	// replicas and leaders
	func(s *toolState) *top {
		r := s.r
		o := &top{name: "alter-partition-reassignments", key: kproto.AlterPartitionReassignments, node: s.ctl, errs: driverOf[kproto.AlterPartitionReassignments].errs, canon: flat}
		to := 1000 + r.Intn(60000)
		tps, _ := s.someTPs()
		var list []string
		for i := range tps {
			var w any = []any(nil)
			if r.Intn(4) > 0 {
				tps[i].Replicas = brokerIDs(r, 1+r.Intn(4))
				w = ints(tps[i].Replicas)
				list = append(list, fmt.Sprintf("%s/%d replicas=%v", tps[i].Topic, tps[i].Partition, w))
			} else { // cancels a pending reassignment
				list = append(list, fmt.Sprintf("%s/%d replicas=%v", tps[i].Topic, tps[i].Partition, nil))
			}
		}
		sort.Strings(list)
		o.cli = append(s.base("alter-partition-reassignments"), "--timeout.ms", fmt.Sprint(to), pick(r, "-r", "--reassignments"), toJSON(tps))
		o.http = &httpReq{method: "POST", path: "/alter-partition-reassignments", query: s.q("timeout", fmt.Sprint(to)), body: toJSON(tps)}
		o.want = []M{{"timeout_ms": int64(to), "topics": anyStrs(list)}}
		o.resp = scriptedResp(r, o.key)
		o.judge = func(out []byte, viaHTTP bool) string {
			if !viaHTTP {
				return ""
			}
			return sameResp[healer.AlterPartitionReassignmentsResponse](o.key, o.resp)(out, true)
		}
		return o
	},
	func(s *toolState) *top {
		r := s.r
		o := &top{name: "elect-leaders", key: kproto.ElectLeaders, node: s.ctl, errs: driverOf[kproto.ElectLeaders].errs, canon: flat}
		to := pick(r, 1+r.Intn(1000), 1000+r.Intn(60000), 1<<30+r.Intn(1<<30))
		tps, list := s.someTPs()
		o.cli = append(s.base("elect-leaders"), "--timeout.ms", fmt.Sprint(to), pick(r, "-d", "--data"), toJSON(tps))
		o.http = &httpReq{method: "POST", path: "/elect-leaders", query: s.q("timeout", fmt.Sprint(to)), body: toJSON(tps)}
		o.want = []M{{"timeout_ms": int64(to), "topics": anyStrs(list)}}
		o.resp = scriptedResp(r, o.key)
		o.judge = sameResp[healer.ElectLeadersResponse](o.key, o.resp)
		return o
	},
	// acls
	func(s *toolState) *top {
		r := s.r
		o := &top{name: "create-acls", key: kproto.CreateAcls, node: s.ctl, errs: driverOf[kproto.CreateAcls].errs}
		as := []acl{randACL(r, false)}
		o.cli = append(s.base("create-acls"), as[0].flags(r)...)
		if r.Intn(2) == 0 {
			o.cli = nil
			for i := 0; i < r.Intn(3); i++ {
				as = append(as, randACL(r, false))
			}
		}
		var js, ms []any
		for _, a := range as {
			js = append(js, a.json(r))
			ms = append(ms, a.m())
		}
		o.http = &httpReq{method: "POST", path: "/create-acls", query: s.q(), body: toJSON(js)}
		o.want = []M{{"creations": ms}}
		o.resp = scriptedResp(r, o.key)
		o.judge = sameResp[healer.CreateAclsResponse](o.key, o.resp)
		return o
	},
	func(s *toolState) *top {
		r := s.r
		o := &top{name: "delete-acls", key: kproto.DeleteAcls, node: s.ctl, errs: driverOf[kproto.DeleteAcls].errs}
		as := []acl{randACL(r, true)}
		o.cli = append(s.base("delete-acls"), as[0].flags(r)...)
		if r.Intn(2) == 0 {
			o.cli = nil
			for i := 0; i < r.Intn(3); i++ {
				as = append(as, randACL(r, true))
			}
		}
		var js, ms []any
		for _, a := range as {
			js = append(js, a.json(r))
			ms = append(ms, a.m())
		}
		o.http = &httpReq{method: "DELETE", path: "/delete-acls", query: s.q(), body: toJSON(js)}
		o.want = []M{{"filters": ms}}
		o.resp = scriptedResp(r, o.key)
		o.judge = sameResp[healer.DeleteAclsResponse](o.key, o.resp)
		return o
	},
	// committed offsets
	func(s *toolState) *top { return s.reset() },
	func(s *toolState) *top { return s.reset() },
	// arguments that make no sense
	func(s *toolState) *top { return s.nonsense() },
}

func csvQuote(s string) string {
	if strings.ContainsAny(s, "\",\n") {
		return `"` + strings.ReplaceAll(s, `"`, `""`) + `"`
	}
	return s
}

// reset is reset-offset.
func (s *toolState) reset() *top {
	r := s.r
	tn := pick(r, s.tops...)
	g := pick(r, append(s.grps, "new group")...)
	s.c.Mu.Lock()
	if gr := s.c.Groups[g]; gr != nil { // the coordinator refuses the offsets of a group with members
		gr.Members = map[string]*fake.Member{}
		gr.State = "Empty"
	}
	s.c.Mu.Unlock()
	o := &top{name: "reset-offset", key: kproto.OffsetCommit, node: s.coord(g), errs: driverOf[kproto.OffsetCommit].errs, canon: flat}
	ts := pick(r, int64(-1), -2, -2, 0, 1000, 1001, 5000)
	o.cli = append(s.base("reset-offset"), pick(r, "-t", "--topic"), tn, pick(r, "-g", "--group"), g, fmt.Sprintf("--timestamp=%d", ts))
	parts := sortedParts(s.c.Topics[tn])
	if r.Intn(2) == 0 {
		var some []int32
		var txt []string
		for _, i := range r.Perm(len(parts))[:1+r.Intn(len(parts))] {
			some = append(some, parts[i])
			txt = append(txt, fmt.Sprint(parts[i]))
		}
		parts = some
		o.cli = append(o.cli, pick(r, "-p", "--partitions"), strings.Join(txt, ","))
		o.name += " of some partitions"
	}
	var list []string
	for _, p := range parts {
		off := s.offset(tn, p, ts)
		if off < 0 {
			o.bad = true
			o.name += " without an offset"
			o.errs = nil
			return o
		}
		list = append(list, fmt.Sprintf("%s/%d offset=%d", tn, p, off))
	}
	sort.Strings(list)
	o.want = []M{{"group": g, "generation": int64(-1), "member": "", "topics": anyStrs(list)}}
	o.judge = func([]byte, bool) string {
		s.c.Mu.Lock()
		defer s.c.Mu.Unlock()
		for _, p := range parts {
			if got := s.c.Groups[g].Offsets[tn][p]; got != s.offset(tn, p, ts) {
				return fmt.Sprintf("committed offset of %s-%d is %d", tn, p, got)
			}
		}
		return ""
	}
	return o
}

// readNonsense are inquiries that must be refused without a request.
func (s *toolState) readNonsense() *top {
	r := s.r
	tn := pick(r, s.tops...)
	junk := pick(r, "{", "[1", "nonsense", `[{"topic":1}]`, `[{"partition":"0"}]`, `"x"`, `{"topic":"`+tn+`"}`)
	num := pick(r, "soon", "1s", "1.5", "0x10", "99999999999999999999")
	var o *top
	switch r.Intn(6) {
	case 0, 1:
		o = &top{name: "list-partition-reassignments", key: kproto.ListPartitionReassignments, cli: append(s.base("list-partition-reassignments"), "-d", junk),
			http: &httpReq{method: "POST", path: "/list-partition-reassignments", query: s.q("timeout", "1000"), body: junk}}
	case 2:
		o = &top{name: "timeout", key: kproto.ListPartitionReassignments, cli: append(s.base("list-partition-reassignments"), "--timeout.ms", num),
			http: &httpReq{method: "POST", path: "/list-partition-reassignments", query: s.q("timeout", num), body: "[]"}}
		if num == "0x10" { // a number on the command line
			o.cli = nil
		}
	case 3:
		o = &top{name: "timestamp", key: kproto.ListOffsets, cli: append(s.base("get-offsets"), "-t", tn, "--timestamp", num),
			http: &httpReq{method: "GET", path: "/topic/" + esc(tn) + "/offsets", query: s.q("timestamp", num)}}
		if num == "0x10" {
			o.cli = nil
		}
	case 4:
		o = &top{name: "describe-logdirs", key: kproto.DescribeLogDirs, http: &httpReq{method: "POST", path: "/describe-logdirs", query: s.q(), body: pick(r, "{", "[1", "nonsense", `{"topics":1}`, `{"topics":"x"}`, `"x"`, "")}}
	default:
		o = &top{name: "describe-configs", key: kproto.DescribeConfigs, cli: append(s.base("describe-configs"), "--resource-type", pick(r, "topics", "", "x"), "--resource-name", tn)}
		if r.Intn(2) == 0 {
			o.cli = append(s.base("describe-configs"), "--resource-type", pick(r, "broker", "broker_logger"), "--resource-name", pick(r, "x", "1.5", "one"))
		}
	}
	o.name = "nonsense: " + o.name
	o.node = s.anyone
	o.bad = true
	return o
}

// brokerIDs are ids of any size.
func brokerIDs(r *rand.Rand, n int) []int32 {
	ids := uniqInts(r, n, 9)
	if r.Intn(3) == 0 {
		for i := range ids {
			ids[i] += pick(r, int32(100), 1000, 40000, 100000, 1<<30)
		}
		for i := range ids {
			if slices.Contains(ids[:i], ids[i]) {
				return uniqInts(r, n, 9)
			}
		}
	}
	return ids
}

// nonsense must be refused without a request.
func (s *toolState) nonsense() *top {
	r := s.r
	tn := pick(r, s.tops...)
	a := randACL(r, true)
	junk := pick(r, "{", "[1", "nonsense", `[{"topic":1}]`, `"x"`)
	badACL := func(cmd string, key int) *top {
		fs := a.flags(r)
		k := pick(r, "resourcetype", "patterntype", "operation", "permissiontype")
		for i := range fs {
			if strings.HasPrefix(fs[i], "--"+k+"=") {
				fs[i] = "--" + k + "=" + pick(r, "nonsense", "topics", "99", "an y", `"`, "all-of-it")
			}
		}
		return &top{name: cmd + " " + k, key: key, cli: append(s.base(cmd), fs...)}
	}
	badACLHTTP := func(m, path string, key int) *top {
		j := a.json(r)
		k := pick(r, "ResourceType", "PatternType", "Operation", "PermissionType")
		j[k] = pick(r, "nonsense", "topics", "99")
		body := toJSON([]any{j})
		if key == kproto.DescribeAcls {
			body = toJSON(j)
		}
		return &top{name: path + " " + k, key: key, http: &httpReq{method: m, path: path, query: s.q(), body: body}}
	}
	var o *top
	switch r.Intn(15) {
	case 0:
		o = &top{name: "create-topic with both", key: kproto.CreateTopics, cli: append(s.base("create-topic"), "-t", "x", "--replica-assignment", "1:2", pick(r, "--partitions", "--replication-factor"), "2")}
	case 1:
		o = &top{name: "create-topic with replicas", key: kproto.CreateTopics, cli: append(s.base("create-topic"), "-t", "x", "--replica-assignment", pick(r, "a", "1:x", "1:2,", ",1", "1::2"))}
	case 2:
		o = &top{name: "create-partitions with replicas", key: kproto.CreatePartitions, cli: append(s.base("create-partitions"), "-t", tn, "--count", "9", "--assignments", pick(r, "a", "1:x", "1::2"))}
	case 3:
		o = badACL("create-acls", kproto.CreateAcls)
	case 4:
		o = badACL("delete-acls", kproto.DeleteAcls)
	case 5:
		o = badACL("describe-acls", kproto.DescribeAcls)
	case 6:
		o = badACLHTTP("POST", "/create-acls", kproto.CreateAcls)
	case 7:
		o = badACLHTTP("DELETE", "/delete-acls", kproto.DeleteAcls)
	case 8:
		o = &top{name: "reset-offset of a missing partition", key: kproto.OffsetCommit, cli: append(s.base("reset-offset"), "-t", tn, "-g", "g", "--timestamp=-1", "-p", pick(r, "77", "0,77"))}
	case 9:
		o = &top{name: "elect-leaders", key: kproto.ElectLeaders, cli: append(s.base("elect-leaders"), "-d", junk),
			http: &httpReq{method: "POST", path: "/elect-leaders", query: s.q("timeout", "1000"), body: junk}}
	case 10:
		o = &top{name: "alter-partition-reassignments", key: kproto.AlterPartitionReassignments, cli: append(s.base("alter-partition-reassignments"), "-r", junk),
			http: &httpReq{method: "POST", path: "/alter-partition-reassignments", query: s.q("timeout", "1000"), body: junk}}
	case 11:
		o = &top{name: "timeout", key: kproto.AlterPartitionReassignments, http: &httpReq{method: "POST", path: "/alter-partition-reassignments", query: s.q("timeout", "soon"), body: `[]`}}
	case 12:
		o = &top{name: "reset-offset without group", key: kproto.OffsetCommit, cli: append(s.base("reset-offset"), "-t", tn, "--timestamp=-1")}
	case 13:
		o = &top{name: "alter-configs of an unknown type", key: kproto.IncrementalAlterConfigs, cli: append(s.base("alter-configs"), "--resource-type", pick(r, "topics", "", "x"), "--resource-name", tn, "--config-name", "a", "--config-value", "b")}
		if r.Intn(2) == 0 {
			o = &top{name: "alter-configs of no broker", key: kproto.IncrementalAlterConfigs, cli: append(s.base("alter-configs"), "--resource-type", pick(r, "broker", "broker_logger"), "--resource-name", pick(r, "x", tn, "99999999999", "1.5"), "--config-name", "a", "--config-value", "b")}
		}
	default:
		o = &top{name: "reset-offset of a missing topic", key: kproto.OffsetCommit, cli: append(s.base("reset-offset"), "-t", "no-such-topic", "-g", "g", "--timestamp=-1")}
	}
	o.name = "nonsense: " + o.name
	o.node = s.anyone
	o.bad = true
	return o
}

var _ = json.Marshal
