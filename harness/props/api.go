package props

import (
	"math/rand"
	"sort"

	"github.com/childe/healer"

	"verif/harness/fake"
	"verif/harness/kproto"
)

// apiDriver builds random requests of one API and the bodies a broker may
// answer with.
type apiDriver struct {
	key  int
	mk   func(r *rand.Rand, clientID string) (healer.Request, M)
	resp func(r *rand.Rand, ver int, o *kproto.GenOpt) // extra constraints on the response
	// errs are the paths of the error codes a client must look at.
	errs []string
	// nullClient: the request constructor takes no client id.
	nullClient bool
}

func (d *apiDriver) name() string { return kproto.APIs[d.key].Name }

func ints(xs []int32) []any { return kproto.Ints(xs) }

func rstr(r *rand.Rand, max int) string { return kproto.RandString(r, kproto.RandLen(r, max)) }

func rnull(r *rand.Rand, max int) *string {
	if r.Intn(3) == 0 {
		return nil
	}
	s := rstr(r, max)
	return &s
}

type tpm struct {
	order []string
	parts map[string][]int32
}

// rtp is a random set of topics and partitions, in insertion order.
func rtp(r *rand.Rand) tpm {
	x := tpm{parts: map[string][]int32{}}
	for _, n := range uniqNames(r, r.Intn(4), 200) {
		x.order = append(x.order, n)
		x.parts[n] = uniqInts(r, 1+r.Intn(5), 300)
	}
	return x
}

func (x tpm) each(f func(t string, p int32)) {
	for _, t := range x.order {
		for _, p := range x.parts[t] {
			f(t, p)
		}
	}
}

var drivers = []*apiDriver{
	{key: kproto.ListOffsets, errs: []string{"topics.partitions.error_code"},
		mk: func(r *rand.Rand, cid string) (healer.Request, M) {
			topic := rstr(r, 200)
			ps := uniqInts(r, 1+r.Intn(6), 50)
			sort.Slice(ps, func(i, j int) bool { return ps[i] < ps[j] })
			ts := pick(r, int64(-1), -2, kproto.RandInt(r, 64))
			n := uint32(r.Intn(5))
			a := []any{}
			for _, p := range ps {
				a = append(a, M{"index": int64(p), "timestamp": ts, "max_num_offsets": int64(n)})
			}
			return healer.NewOffsetsRequest(topic, ps, ts, n, cid), M{"replica_id": int64(-1), "topics": []any{M{"name": topic, "partitions": a}}}
		}},
	{key: kproto.Metadata, errs: []string{"topics.error_code", "topics.partitions.error_code"},
		mk: func(r *rand.Rand, cid string) (healer.Request, M) {
			var topics []string
			if r.Intn(4) > 0 {
				topics = uniqNames(r, r.Intn(4), 200)
				if topics == nil {
					topics = []string{}
				}
			}
			req := healer.NewMetadataRequest(cid, topics)
			auto := r.Intn(2) == 0
			req.AllowAutoTopicCreation = auto
			w := M{"topics": nil, "allow_auto_topic_creation": auto}
			if topics != nil {
				a := []any{}
				for _, x := range topics {
					a = append(a, M{"name": x})
				}
				w["topics"] = a
			}
			return req, w
		}},
	{key: kproto.OffsetCommit, errs: []string{"topics.partitions.error_code"},
		mk: func(r *rand.Rand, cid string) (healer.Request, M) {
			g, m := rstr(r, 200), rstr(r, 200)
			req := healer.NewOffsetCommitRequest(0, cid, g)
			gen, ret := int32(kproto.RandInt(r, 32)), kproto.RandInt(r, 64)
			req.SetGenerationID(gen)
			req.SetMemberID(m)
			req.SetRetentionTime(ret)
			x := rtp(r)
			ts := []any{}
			for _, tn := range x.order {
				ps := []any{}
				for _, p := range x.parts[tn] {
					off, md := kproto.RandInt(r, 64), rstr(r, 100)
					req.AddPartiton(tn, p, off, md)
					ps = append(ps, M{"index": int64(p), "offset": off, "metadata": md})
				}
				ts = append(ts, M{"name": tn, "partitions": ps})
			}
			return req, M{"group": g, "generation": int64(gen), "member": m, "retention_ms": ret, "topics": ts}
		}},
	{key: kproto.OffsetFetch, errs: []string{"topics.partitions.error_code"},
		mk: func(r *rand.Rand, cid string) (healer.Request, M) {
			g := rstr(r, 200)
			req := healer.NewOffsetFetchRequest(0, cid, g)
			x := rtp(r)
			ts := []any{}
			x.each(func(t string, p int32) { req.AddPartiton(t, p) })
			for _, tn := range x.order {
				ts = append(ts, M{"name": tn, "partitions": ints(x.parts[tn])})
			}
			return req, M{"group": g, "topics": ts}
		}},
	{key: kproto.FindCoordinator, errs: []string{"error_code"},
		mk: func(r *rand.Rand, cid string) (healer.Request, M) {
			g := rstr(r, 250)
			return healer.NewFindCoordinatorRequest(cid, g), M{"key": g}
		}},
	{key: kproto.JoinGroup, errs: []string{"error_code"},
		mk: func(r *rand.Rand, cid string) (healer.Request, M) {
			req := healer.NewJoinGroupRequest(0, cid)
			req.GroupID, req.MemberID, req.ProtocolType = rstr(r, 200), rstr(r, 200), rstr(r, 30)
			req.SessionTimeout = int32(kproto.RandInt(r, 32))
			ps := []any{}
			for i := 0; i < r.Intn(4); i++ {
				n, md := rstr(r, 40), kproto.RandBytes(r, kproto.RandLen(r, 200))
				req.AddGroupProtocal(&healer.GroupProtocol{ProtocolName: n, ProtocolMetadata: md})
				ps = append(ps, M{"name": n, "metadata": md})
			}
			return req, M{"group": req.GroupID, "session_timeout": int64(req.SessionTimeout), "member": req.MemberID, "protocol_type": req.ProtocolType, "protocols": ps}
		}},
	{key: kproto.Heartbeat, errs: []string{"error_code"},
		mk: func(r *rand.Rand, cid string) (healer.Request, M) {
			g, m, gen := rstr(r, 200), rstr(r, 200), int32(kproto.RandInt(r, 32))
			return healer.NewHeartbeatRequest(cid, g, gen, m), M{"group": g, "generation": int64(gen), "member": m}
		}},
	{key: kproto.LeaveGroup, errs: []string{"error_code"},
		mk: func(r *rand.Rand, cid string) (healer.Request, M) {
			g, m := rstr(r, 200), rstr(r, 200)
			return healer.NewLeaveGroupRequest(cid, g, m), M{"group": g, "member": m}
		}},
	{key: kproto.SyncGroup, errs: []string{"error_code"},
		mk: func(r *rand.Rand, cid string) (healer.Request, M) {
			g, m, gen := rstr(r, 200), rstr(r, 200), int32(kproto.RandInt(r, 32))
			var ga healer.GroupAssignment
			as := []any{}
			for i := 0; i < r.Intn(4); i++ {
				mm, b := rstr(r, 60), kproto.RandBytes(r, kproto.RandLen(r, 200))
				ga = append(ga, struct {
					MemberID         string
					MemberAssignment []byte
				}{mm, b})
				as = append(as, M{"member": mm, "assignment": b})
			}
			return healer.NewSyncGroupRequest(cid, g, gen, m, ga), M{"group": g, "generation": int64(gen), "member": m, "assignments": as}
		}},
	{key: kproto.DescribeGroups, errs: []string{"groups.error_code"},
		mk: func(r *rand.Rand, cid string) (healer.Request, M) {
			gs := uniqNames(r, r.Intn(4), 200)
			return healer.NewDescribeGroupsRequest(cid, gs), M{"groups": anyStrs(gs)}
		},
		resp: func(r *rand.Rand, ver int, o *kproto.GenOpt) {
			o.Over = chain(o.Over, func(path, kind string) (any, bool) {
				if path != "groups.members.assignment" {
					return nil, false
				}
				if r.Intn(4) == 0 {
					return []byte{}, true
				}
				a := map[string][]int32{}
				x := rtp(r)
				for _, t := range x.order {
					a[t] = x.parts[t]
				}
				return fake.EncodeAssignment(a), true
			})
		}},
	{key: kproto.ListGroups, errs: []string{"error_code"},
		mk: func(r *rand.Rand, cid string) (healer.Request, M) {
			req := healer.NewListGroupsRequest(cid)
			w := M{"states_filter": []any{}, "types_filter": []any{}}
			if r.Intn(2) == 0 {
				s := uniqNames(r, r.Intn(3), 140)
				req.SetStatesFilter(s)
				w["states_filter"] = anyStrs(s)
			}
			if r.Intn(2) == 0 {
				s := uniqNames(r, r.Intn(3), 140)
				req.SetTypesFilter(s)
				w["types_filter"] = anyStrs(s)
			}
			return req, w
		}},
	{key: kproto.CreateTopics, errs: []string{"topics.error_code"},
		mk: func(r *rand.Rand, cid string) (healer.Request, M) {
			to := uint32(r.Int31())
			req := healer.NewCreateTopicsRequest(cid, to)
			ts := []any{}
			for _, n := range uniqNames(r, r.Intn(4), 200) {
				np, rf := int32(r.Intn(1000)-1), int16(r.Intn(5)-1)
				_ = req.AddTopic(n, np, rf)
				as := []any{}
				cf := []any{}
				if r.Intn(2) == 0 {
					for p := int32(0); p < int32(r.Intn(4)); p++ {
						rs := uniqInts(r, r.Intn(4), 10)
						if req.AddReplicaAssignment(n, p, rs) == nil {
							as = append(as, M{"index": int64(p), "brokers": ints(rs)})
						}
					}
				}
				for i := 0; i < r.Intn(3); i++ {
					k, v := rstr(r, 60), rstr(r, 60)
					ct := req.CreateTopicRequests[len(req.CreateTopicRequests)-1]
					ct.ConfigEntries = append(ct.ConfigEntries, &healer.ConfigEntry{ConfigName: k, ConfigValue: v})
					cf = append(cf, M{"name": k, "value": v})
				}
				ts = append(ts, M{"name": n, "num_partitions": int64(np), "replication_factor": int64(rf), "assignments": as, "configs": cf})
			}
			return req, M{"topics": ts, "timeout_ms": int64(to)}
		}},
	{key: kproto.DeleteTopics, errs: []string{"responses.error_code"},
		mk: func(r *rand.Rand, cid string) (healer.Request, M) {
			ns, to := uniqNames(r, r.Intn(4), 200), int32(kproto.RandInt(r, 32))
			return healer.NewDeleteTopicsRequest(cid, ns, to), M{"names": anyStrs(ns), "timeout_ms": int64(to)}
		}},
	{key: kproto.DescribeAcls, errs: []string{"error_code"},
		mk: func(r *rand.Rand, cid string) (healer.Request, M) {
			b := healer.DescribeAclsRequestBody{ResourceType: healer.AclsResourceType(r.Intn(7)), ResourceName: rnull(r, 200), PatternType: healer.AclsPatternType(r.Intn(5)),
				Principal: rnull(r, 100), Host: rnull(r, 100), Operation: healer.AclsOperation(r.Intn(13)), PermissionType: healer.AclsPermissionType(r.Intn(4))}
			return &healer.DescribeAclsRequest{RequestHeader: healer.RequestHeader{APIKey: healer.API_DescribeAcls, ClientID: &cid}, DescribeAclsRequestBody: b},
				M{"resource_type": int64(b.ResourceType), "resource_name": nstr(b.ResourceName), "pattern_type": int64(b.PatternType), "principal": nstr(b.Principal), "host": nstr(b.Host), "operation": int64(b.Operation), "permission": int64(b.PermissionType)}
		}},
	{key: kproto.CreateAcls, errs: []string{"results.error_code"},
		mk: func(r *rand.Rand, cid string) (healer.Request, M) {
			req := &healer.CreateAclsRequest{RequestHeader: healer.RequestHeader{APIKey: healer.API_CreateAcls, ClientID: &cid}}
			a := []any{}
			for i := 0; i < r.Intn(4); i++ {
				c := healer.AclCreation{ResourceType: healer.AclsResourceType(r.Intn(7)), ResourceName: rstr(r, 200), PatternType: healer.AclsPatternType(r.Intn(5)),
					Principal: rstr(r, 100), Host: rstr(r, 100), Operation: healer.AclsOperation(r.Intn(13)), PermissionType: healer.AclsPermissionType(r.Intn(4))}
				req.Creations = append(req.Creations, c)
				a = append(a, M{"resource_type": int64(c.ResourceType), "resource_name": c.ResourceName, "pattern_type": int64(c.PatternType), "principal": c.Principal, "host": c.Host, "operation": int64(c.Operation), "permission": int64(c.PermissionType)})
			}
			return req, M{"creations": a}
		}},
	{key: kproto.DeleteAcls, errs: []string{"filter_results.error_code", "filter_results.matching_acls.error_code"},
		mk: func(r *rand.Rand, cid string) (healer.Request, M) {
			var fs []*healer.DeleteAclsFilter
			a := []any{}
			for i := 0; i < r.Intn(4); i++ {
				c := &healer.DeleteAclsFilter{ResourceType: healer.AclsResourceType(r.Intn(7)), ResourceName: rnull(r, 200), PatternType: healer.AclsPatternType(r.Intn(5)),
					Principal: rnull(r, 100), Host: rnull(r, 100), Operation: healer.AclsOperation(r.Intn(13)), PermissionType: healer.AclsPermissionType(r.Intn(4))}
				fs = append(fs, c)
				a = append(a, M{"resource_type": int64(c.ResourceType), "resource_name": nstr(c.ResourceName), "pattern_type": int64(c.PatternType), "principal": nstr(c.Principal), "host": nstr(c.Host), "operation": int64(c.Operation), "permission": int64(c.PermissionType)})
			}
			return healer.NewDeleteAclsRequest(cid, fs), M{"filters": a}
		}},
	{key: kproto.DescribeConfigs, errs: []string{"results.error_code"},
		mk: func(r *rand.Rand, cid string) (healer.Request, M) {
			var rs []*healer.DescribeConfigsRequestResource
			a := []any{}
			for i := 0; i < r.Intn(4); i++ {
				x := &healer.DescribeConfigsRequestResource{ResourceType: uint8(pick(r, 2, 4)), ResourceName: rstr(r, 200)}
				w := M{"type": int64(x.ResourceType), "name": x.ResourceName, "keys": nil}
				if r.Intn(3) > 0 {
					x.ConfigNames = append([]string{}, uniqNames(r, r.Intn(3), 60)...)
					w["keys"] = anyStrs(x.ConfigNames)
				}
				rs = append(rs, x)
				a = append(a, w)
			}
			return healer.NewDescribeConfigsRequest(cid, rs), M{"resources": a}
		}},
	{key: kproto.AlterConfigs, errs: []string{"responses.error_code"},
		mk: func(r *rand.Rand, cid string) (healer.Request, M) {
			req := healer.NewAlterConfigsRequest(cid)
			v := r.Intn(2) == 0
			req.SetValidateOnly(v)
			a := []any{}
			for _, n := range uniqNames(r, r.Intn(3), 100) {
				ty := uint8(pick(r, 2, 4))
				cs := []any{}
				for _, k := range uniqNames(r, 1+r.Intn(3), 60) {
					val := rstr(r, 100)
					_ = req.AddConfig(ty, n, k, val)
					cs = append(cs, M{"name": k, "value": val})
				}
				a = append(a, M{"type": int64(ty), "name": n, "configs": cs})
			}
			return req, M{"resources": a, "validate_only": v}
		}},
	{key: kproto.IncrementalAlterConfigs, errs: []string{"responses.error_code"},
		mk: func(r *rand.Rand, cid string) (healer.Request, M) {
			req := healer.NewIncrementalAlterConfigsRequest(cid)
			v := r.Intn(2) == 0
			req.SetValidateOnly(v)
			a := []any{}
			for _, n := range uniqNames(r, r.Intn(3), 100) {
				ty := uint8(pick(r, 2, 4))
				cs := []any{}
				for _, k := range uniqNames(r, 1+r.Intn(3), 60) {
					val := rstr(r, 100)
					_ = req.AddConfig(ty, n, k, val)
					cs = append(cs, M{"name": k, "value": val, "op": int64(0)})
				}
				a = append(a, M{"type": int64(ty), "name": n, "configs": cs})
			}
			return req, M{"resources": a, "validate_only": v}
		}},
	{key: kproto.DescribeLogDirs, errs: []string{"results.error_code"},
		mk: func(r *rand.Rand, cid string) (healer.Request, M) {
			req := healer.NewDescribeLogDirsRequest(cid, nil)
			x := rtp(r)
			if len(x.order) == 0 {
				x.order = []string{"t"}
				x.parts["t"] = []int32{0}
			}
			x.each(req.AddTopicPartition)
			ts := []any{}
			for _, tn := range x.order {
				ts = append(ts, M{"topic": tn, "partitions": ints(x.parts[tn])})
			}
			return req, M{"topics": ts}
		}},
	{key: kproto.SaslHandshake, errs: []string{"error_code"},
		mk: func(r *rand.Rand, cid string) (healer.Request, M) {
			m := pick(r, "PLAIN", "plain", "SCRAM-SHA-256", rstr(r, 40))
			return healer.NewSaslHandShakeRequest(cid, m), M{"mechanism": m}
		}},
	{key: kproto.SaslAuthenticate, errs: []string{"error_code"},
		mk: func(r *rand.Rand, cid string) (healer.Request, M) {
			u, p := rstr(r, 60), rstr(r, 60)
			return healer.NewSaslAuthenticateRequest(cid, u, p, "PLAIN"), M{"auth_bytes": []byte("\x00" + u + "\x00" + p)}
		}},
	{key: kproto.CreatePartitions, errs: []string{"results.error_code"},
		mk: func(r *rand.Rand, cid string) (healer.Request, M) {
			to, v := uint32(r.Int31()), r.Intn(2) == 0
			req := healer.NewCreatePartitionsRequest(cid, to, v)
			a := []any{}
			for _, n := range uniqNames(r, r.Intn(4), 200) {
				cnt := int32(r.Intn(1000))
				w := M{"name": n, "count": int64(cnt), "assignments": nil}
				var as [][]int32
				if r.Intn(2) == 0 {
					as = [][]int32{}
					aw := []any{}
					for i := 0; i < 1+r.Intn(3); i++ {
						x := uniqInts(r, r.Intn(4), 10)
						as = append(as, x)
						aw = append(aw, M{"brokers": ints(x)})
					}
					w["assignments"] = aw
				}
				req.AddTopic(n, cnt, as)
				a = append(a, w)
			}
			return &req, M{"topics": a, "timeout_ms": int64(to), "validate_only": v}
		}},
	{key: kproto.DeleteGroups, errs: []string{"results.error_code"},
		mk: func(r *rand.Rand, cid string) (healer.Request, M) {
			gs := uniqNames(r, r.Intn(4), 200)
			return healer.NewDeleteGroupsRequest(cid, gs), M{"groups": anyStrs(gs)}
		}},
	{key: kproto.ElectLeaders, errs: []string{"results.partitions.error_code"}, nullClient: true,
		mk: func(r *rand.Rand, cid string) (healer.Request, M) {
			to := int32(kproto.RandInt(r, 32))
			req := healer.NewElectLeadersRequest(to)
			x := rtp(r)
			x.each(req.Add)
			ts := []any{}
			for _, tn := range x.order {
				ts = append(ts, M{"topic": tn, "partitions": ints(x.parts[tn])})
			}
			return &req, M{"topics": ts, "timeout_ms": int64(to)}
		}},
	{key: kproto.AlterPartitionReassignments, errs: []string{"error_code", "responses.partitions.error_code"}, nullClient: true,
		mk: func(r *rand.Rand, cid string) (healer.Request, M) {
			to := int32(kproto.RandInt(r, 32))
			req := healer.NewAlterPartitionReassignmentsRequest(to)
			x := rtp(r)
			ts := []any{}
			for _, tn := range x.order {
				ps := []any{}
				for _, p := range x.parts[tn] {
					var rs []int32
					var w any
					if r.Intn(4) > 0 {
						rs = append([]int32{}, uniqInts(r, 1+r.Intn(4), 20)...)
						w = ints(rs)
					}
					req.AddAssignment(tn, p, rs)
					ps = append(ps, M{"index": int64(p), "replicas": w})
				}
				ts = append(ts, M{"name": tn, "partitions": ps})
			}
			return &req, M{"timeout_ms": int64(to), "topics": ts}
		}},
	{key: kproto.ListPartitionReassignments, errs: []string{"error_code"},
		mk: func(r *rand.Rand, cid string) (healer.Request, M) {
			to := int32(kproto.RandInt(r, 32))
			req := healer.NewListPartitionReassignmentsRequest(cid, to)
			x := rtp(r)
			x.each(req.AddTP)
			var ts any
			if len(x.order) > 0 {
				a := []any{}
				for _, tn := range x.order {
					a = append(a, M{"name": tn, "partitions": ints(x.parts[tn])})
				}
				ts = a
			}
			return req, M{"timeout_ms": int64(to), "topics": ts}
		}},
}

var driverOf = func() map[int]*apiDriver {
	m := map[int]*apiDriver{}
	for _, d := range drivers {
		m[d.key] = d
	}
	return m
}()

func chain(a, b func(string, string) (any, bool)) func(string, string) (any, bool) {
	if a == nil {
		return b
	}
	return func(p, k string) (any, bool) {
		if v, ok := b(p, k); ok {
			return v, true
		}
		return a(p, k)
	}
}

func isErrCode(path string) bool {
	return path == "error_code" || len(path) > 11 && path[len(path)-11:] == ".error_code"
}

// genResp makes a random response body without any error code.
func (d *apiDriver) genResp(r *rand.Rand, ver int, o kproto.GenOpt) M {
	names := map[string]bool{}
	idx := kproto.RandInt(r, 16)
	o.Over = chain(o.Over, func(path, kind string) (any, bool) {
		if isErrCode(path) {
			return int64(0), true
		}
		if d.key == kproto.Metadata && path == "topics.partitions.index" {
			idx++
			return idx, true
		}
		if (d.key == kproto.ListOffsets || d.key == kproto.Metadata) && path == "topics.name" {
			// decoded into a map: a broker names each topic once
			for {
				s := rstr(r, 100)
				if !names[s] {
					names[s] = true
					return s, true
				}
			}
		}
		return nil, false
	})
	if d.resp != nil {
		d.resp(r, ver, &o)
	}
	o.Tags = true
	return kproto.APIs[d.key].Resp.Gen(r, ver, o)
}
