// Package props holds the property workloads and oracles.
package props

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/childe/healer"
	"github.com/go-logr/logr"

	"verif/harness/fake"
	"verif/harness/kproto"
	"verif/harness/mon"
)

type M = kproto.M
type T = mon.T

func init() {
	if os.Getenv("VERIF_LOG") == "" {
		healer.SetLogger(logr.Discard())
	}
}

// implemented lists, per API, the protocol versions healer implements
// (everything else only at version 0).
var implemented = map[int][]int{
	kproto.Produce: {9, 0}, kproto.Fetch: {10, 7, 0}, kproto.ListOffsets: {1, 0}, kproto.Metadata: {7, 4, 1},
	kproto.OffsetCommit: {2, 0}, kproto.OffsetFetch: {1, 0}, kproto.ListGroups: {5, 4, 3, 2, 1, 0},
	kproto.SaslHandshake: {1, 0}, kproto.DescribeAcls: {2, 1, 0}, kproto.CreateAcls: {3, 2, 1, 0},
	kproto.DeleteAcls: {3, 2, 1, 0}, kproto.CreatePartitions: {2, 0},
}

func versionsOf(key int) []int {
	if v, ok := implemented[key]; ok {
		return v
	}
	return []int{0}
}

// bestVersion is the highest implemented version within the range, -1 if none.
func bestVersion(key int, rng [2]int) int {
	for _, v := range versionsOf(key) {
		if v >= rng[0] && v <= rng[1] {
			return v
		}
	}
	return -1
}

// cluster starts a fake cluster that is stopped at the end of the case.
func cluster(t *T, n int) *fake.Cluster {
	c := fake.New(n)
	t.Context(func() string { return c.Tr.Tail(60) })
	t.Cleanup(c.Stop)
	return c
}

func clusterIDs(t *T, ids ...int32) *fake.Cluster {
	c := fake.NewIDs(ids)
	t.Context(func() string { return c.Tr.Tail(60) })
	t.Cleanup(c.Stop)
	return c
}

// wireMonitor makes malformed requests violations.
func wireMonitor(t *T, c *fake.Cluster) {
	c.OnBad = func(r *fake.Req, err error) {
		t.Violate("malformed request on the wire", "node %d: %v (%d bytes)", r.Node, err, len(r.Raw))
	}
}

func bconf() *healer.BrokerConfig { return healer.DefaultBrokerConfig() }

// opener gives a Brokers for the cluster; failing to connect to a healthy cluster is a violation.
func brokers(t *T, c *fake.Cluster) *healer.Brokers {
	return brokersCfg(t, c, bconf())
}

func brokersCfg(t *T, c *fake.Cluster, cfg *healer.BrokerConfig) *healer.Brokers {
	var b *healer.Brokers
	var err error
	t.Do("connecting to a healthy cluster", 60*time.Second, func() { b, err = healer.NewBrokersWithConfig(c.Bootstrap(), cfg) })
	if err != nil {
		t.Fatal("cannot connect to a healthy cluster", "NewBrokersWithConfig: %v", err)
	}
	t.Cleanup(func() { defer func() { recover() }(); b.Close() })
	return b
}

func broker(t *T, b *healer.Brokers, id int32) *healer.Broker {
	var br *healer.Broker
	var err error
	t.Do("GetBroker", 60*time.Second, func() { br, err = b.GetBroker(id) })
	if err != nil {
		t.Fatal("cannot get a healthy broker", "GetBroker(%d): %v", id, err)
	}
	return br
}

// kafkaCode extracts a Kafka error code from an error; ok is false if there is none.
func kafkaCode(err error) (int16, bool) {
	var k healer.KafkaError
	if errors.As(err, &k) {
		return int16(k), true
	}
	return 0, false
}

func sp(s string) *string { return &s }

func pick[X any](r *rand.Rand, xs ...X) X { return xs[r.Intn(len(xs))] }

// uniqNames returns n distinct names.
func uniqNames(r *rand.Rand, n, maxLen int) []string {
	seen := map[string]bool{}
	var out []string
	for len(out) < n {
		l := 1 + kproto.RandLen(r, maxLen-1)
		s := strings.ReplaceAll(kproto.RandString(r, l), " ", "_")
		if s != "" && !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

func uniqInts(r *rand.Rand, n int, max int) []int32 {
	p := r.Perm(max)
	var out []int32
	for i := 0; i < n && i < max; i++ {
		out = append(out, int32(p[i]))
	}
	return out
}

func anyStrs(ss []string) []any {
	out := []any{}
	for _, s := range ss {
		out = append(out, s)
	}
	return out
}

func nstr(p *string) any {
	if p == nil {
		return nil
	}
	return *p
}

// ---- comparison of value trees -------------------------------------------

// diffWire compares a decoded request body with what the caller asked for.
// want may contain fields that do not exist in the version on the wire.
func diffWire(got, want any, path string) string {
	switch g := got.(type) {
	case kproto.M:
		w, ok := want.(kproto.M)
		if !ok {
			return fmt.Sprintf("%s: got a structure, want %v", path, want)
		}
		var ks []string
		for k := range g {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if k == kproto.TagsKey {
				continue
			}
			wv, ok := w[k]
			if !ok {
				continue // not determined by the request
			}
			if d := diffWire(g[k], wv, path+"."+k); d != "" {
				return d
			}
		}
		return ""
	case []any:
		w, ok := want.([]any)
		if !ok {
			return fmt.Sprintf("%s: got %d elements, want %v", path, len(g), want)
		}
		if len(g) != len(w) {
			return fmt.Sprintf("%s: got %d elements, want %d", path, len(g), len(w))
		}
		for i := range g {
			if d := diffWire(g[i], w[i], fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
		return ""
	case []byte:
		w, ok := want.([]byte)
		if !ok || string(w) != string(g) {
			return fmt.Sprintf("%s: got bytes %x, want %v", path, g, want)
		}
		return ""
	}
	if !reflect.DeepEqual(got, want) {
		return fmt.Sprintf("%s: got %#v, want %#v", path, trunc(got), trunc(want))
	}
	return ""
}

func trunc(v any) any {
	if s, ok := v.(string); ok && len(s) > 120 {
		return s[:120] + fmt.Sprintf("...(%d)", len(s))
	}
	return v
}

// cands maps schema field names to the exported Go fields that may hold them.
var cands = map[string][]string{
	"index":            {"Partition", "PartitionID", "Pid"},
	"name":             {"TopicName", "Topic", "ResourceName", "ConfigName", "Name"},
	"topic":            {"TopicName", "Topic"},
	"error_code":       {"ErrorCode", "TopicErrorCode", "PartitionErrorCode"},
	"error_message":    {"ErrorMessage", "ErrorMsg"},
	"throttle_time_ms": {"ThrottleTimeMs", "ThrottleTimeMS"},
	"node_id":          {"NodeID"}, "host": {"Host"}, "port": {"Port"}, "rack": {"Rack"},
	"cluster_id": {"ClusterID"}, "controller_id": {"ControllerID"}, "brokers": {"Brokers"},
	"topics":      {"TopicMetadatas", "TopicErrors", "Topics", "TopicPartitionOffsets"},
	"partitions":  {"PartitionMetadatas", "PartitionResults", "Partitions"},
	"is_internal": {"IsInternal"}, "leader_epoch": {"LeaderEpoch"}, "replicas": {"Replicas"}, "isr": {"Isr"}, "offline": {"OfflineReplicas"},
	"timestamp": {"Timestamp"}, "offset": {"Offset"}, "offsets": {"OldStyleOffsets"}, "metadata": {"Metadata", "MemberMetadata"},
	"generation": {"GenerationID"}, "protocol": {"GroupProtocol", "Protocol"}, "member": {"MemberID"}, "members": {"Members"},
	"group": {"GroupID"}, "groups": {"Groups"}, "state": {"GroupState", "State"}, "protocol_type": {"ProtocolType"},
	"client_id": {"ClientID"}, "client_host": {"ClientHost"}, "type": {"GroupType", "ResourceType"},
	"mechanisms": {"EnabledMechanisms"}, "auth_bytes": {"SaslAuthBytes"},
	"resources": {"Resources"}, "resource_type": {"ResourceType"}, "resource_name": {"ResourceName"}, "pattern_type": {"PatternType"},
	"acls": {"Acls"}, "principal": {"Principal"}, "operation": {"Operation"}, "permission": {"PermissionType"},
	"results": {"Results", "Resources", "ReplicaElectionResults"}, "filter_results": {"FilterResults"}, "matching_acls": {"MatchingAcls"},
	"configs": {"ConfigEntries"}, "value": {"ConfigValue"}, "read_only": {"ReadOnly"}, "is_default": {"IsDefault"}, "is_sensitive": {"IsSensitive"},
	"responses": {"Responses", "Resources", "Results", "ProduceResponses"}, "log_dir": {"LogDir"}, "size": {"Size"}, "offset_lag": {"OffsetLag"}, "is_future": {"IsFutureKey"},
	"adding": {"AddingReplicas"}, "removing": {"RemovingReplicas"}, "base_offset": {"BaseOffset"}, "log_append_time": {"LogAppendTimeMs"},
	"log_start_offset": {"LogStartOffset"}, "record_errors": {"RecordErrors"}, "batch_index": {"BatchIndex"}, "message": {"BatchIndexErrorMessage"},
}

// special Go names that depend on the API.
var candsAPI = map[string]string{
	"JoinGroup.leader": "LeaderID", "SyncGroup.assignment": "MemberAssignment", "DescribeGroups.groups.members.assignment": "RawMemberAssignment",
	"Metadata.topics.partitions.leader": "Leader",
	"FindCoordinator.node_id":           "Coordinator.NodeID", "FindCoordinator.host": "Coordinator.Host", "FindCoordinator.port": "Coordinator.Port",
	"ElectLeaders.results.topic": "Topic",
}

// unexposed response fields: the response types have no field for them.
var unexposed = map[string]bool{}

func goField(v reflect.Value, api, path, name string) (reflect.Value, bool) {
	if n, ok := candsAPI[api+"."+path]; ok {
		for _, p := range strings.Split(n, ".") {
			v = v.FieldByName(p)
			if !v.IsValid() {
				return v, false
			}
		}
		return v, true
	}
	for _, c := range cands[name] {
		if f := v.FieldByName(c); f.IsValid() {
			return f, true
		}
	}
	return reflect.Value{}, false
}

func deref(v reflect.Value) reflect.Value {
	for v.IsValid() && (v.Kind() == reflect.Pointer || v.Kind() == reflect.Interface) {
		if v.IsNil() {
			return reflect.Value{}
		}
		v = v.Elem()
	}
	return v
}

// errNoField is reported separately: the harness cannot see the field.
type noField struct{ s string }

// diffResp compares a decoded healer response with the body the broker sent.
func diffResp(api string, v reflect.Value, want any, path string) string {
	at := api + "." + path
	switch w := want.(type) {
	case kproto.M:
		v = deref(v)
		if !v.IsValid() || v.Kind() != reflect.Struct {
			return at + ": structure missing"
		}
		var ks []string
		for k := range w {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if k == kproto.TagsKey {
				continue
			}
			p := k
			if path != "" {
				p = path + "." + k
			}
			f, ok := goField(v, api, p, k)
			if !ok {
				if unexposed[api+"."+p] {
					continue
				}
				panic(noField{fmt.Sprintf("no Go field for %s.%s in %s", api, p, v.Type())})
			}
			if d := diffResp(api, f, w[k], p); d != "" {
				return d
			}
		}
		return ""
	case []any:
		v = deref(v)
		if v.IsValid() && v.Kind() == reflect.Map {
			return diffMap(api, v, w, path)
		}
		n := 0
		if v.IsValid() {
			n = v.Len()
		}
		if n != len(w) {
			return fmt.Sprintf("%s: decoded %d elements, broker sent %d", at, n, len(w))
		}
		for i := range w {
			if d := diffResp(api, v.Index(i), w[i], path); d != "" {
				return fmt.Sprintf("[%d] %s", i, d)
			}
		}
		return ""
	case nil:
		if v.Kind() == reflect.Pointer {
			if !v.IsNil() {
				return fmt.Sprintf("%s: decoded %q, broker sent null", at, deref(v))
			}
			return ""
		}
		v = deref(v)
		if v.IsValid() && v.Len() != 0 {
			return fmt.Sprintf("%s: decoded %v, broker sent null", at, v)
		}
		return ""
	case []byte:
		v = deref(v)
		if !v.IsValid() {
			if len(w) == 0 {
				return ""
			}
			return at + ": missing"
		}
		if string(v.Bytes()) != string(w) {
			return fmt.Sprintf("%s: decoded bytes %x, broker sent %x", at, v.Bytes(), w)
		}
		return ""
	case string:
		v = deref(v)
		if !v.IsValid() {
			return fmt.Sprintf("%s: decoded nil, broker sent %q", at, trunc(w))
		}
		if v.Kind() != reflect.String || v.String() != w {
			return fmt.Sprintf("%s: decoded %v, broker sent %q", at, trunc(fmt.Sprint(v)), trunc(w))
		}
		return ""
	case bool:
		if v.Bool() != w {
			return fmt.Sprintf("%s: decoded %v, broker sent %v", at, v.Bool(), w)
		}
		return ""
	case int64:
		var g int64
		switch v.Kind() {
		case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
			g = v.Int()
		default:
			u := v.Uint()
			switch v.Kind() {
			case reflect.Uint8:
				g = int64(int8(u))
			case reflect.Uint16:
				g = int64(int16(u))
			case reflect.Uint32:
				g = int64(int32(u))
			default:
				g = int64(u)
			}
		}
		if g != w {
			return fmt.Sprintf("%s: decoded %d, broker sent %d", at, g, w)
		}
		return ""
	}
	panic(noField{fmt.Sprintf("unhandled %T", want)})
}

// diffMap: a list of {name, partitions} decoded into a map keyed by topic.
func diffMap(api string, v reflect.Value, w []any, path string) string {
	if v.Len() != len(w) {
		return fmt.Sprintf("%s.%s: decoded %d topics, broker sent %d", api, path, v.Len(), len(w))
	}
	for _, x := range w {
		m := x.(kproto.M)
		e := v.MapIndex(reflect.ValueOf(m.S("name")))
		if !e.IsValid() {
			return fmt.Sprintf("%s.%s: topic %q is missing", api, path, m.S("name"))
		}
		if d := diffResp(api, e, m["partitions"], path+".partitions"); d != "" {
			return d
		}
	}
	return ""
}

// compareResponse is diffResp with harness errors separated.
func compareResponse(api string, resp any, body kproto.M) (d string) {
	defer func() {
		if e := recover(); e != nil {
			if nf, ok := e.(noField); ok {
				panic("HARNESS: " + nf.s)
			}
			panic(e)
		}
	}()
	if api == "Metadata" {
		// healer sorts topics by name and partitions by id
		ts, _ := body["topics"].([]any)
		sort.SliceStable(ts, func(i, j int) bool { return ts[i].(M).S("name") < ts[j].(M).S("name") })
		for _, x := range ts {
			ps, _ := x.(M)["partitions"].([]any)
			sort.SliceStable(ps, func(i, j int) bool { return ps[i].(M).I("index") < ps[j].(M).I("index") })
		}
	}
	return diffResp(api, reflect.ValueOf(resp), body, "")
}

func newRand(seed int64) *rand.Rand { return rand.New(rand.NewSource(seed)) }
