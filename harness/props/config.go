package props

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"time"

	"github.com/childe/healer"

	"verif/harness/fake"
	"verif/harness/kproto"
	"verif/harness/mon"
)

// ---- C19: configuration ------------------------------------------------------------

// setting is one option of a configuration, by its documented name.
type setting struct {
	name string
	val  any // int, bool or string
}

// asMap renders the settings as the map form, values as numbers, strings or booleans.
func asMap(r *rand.Rand, ss []setting) map[string]interface{} {
	m := map[string]interface{}{}
	put := func(m map[string]interface{}, k string, v any) {
		switch v := v.(type) {
		case int:
			m[k] = pick[any](r, v, int64(v), float64(v), fmt.Sprint(v), json.Number(fmt.Sprint(v)))
		case bool:
			n := 0
			if v {
				n = 1
			}
			m[k] = pick[any](r, v, fmt.Sprint(v), n)
		default:
			m[k] = v
		}
	}
	for _, s := range ss {
		if rest, ok := strings.CutPrefix(s.name, "net."); ok {
			sub, _ := m["net"].(map[string]interface{})
			if sub == nil {
				sub = map[string]interface{}{}
				m["net"] = sub
			}
			put(sub, rest, s.val)
			continue
		}
		put(m, s.name, s.val)
	}
	return m
}

func deep(x any) string { return fmt.Sprintf("%#v", x) }

func value(ss []setting, name string, def any) any {
	for _, s := range ss {
		if s.name == name {
			return s.val
		}
	}
	return def
}

func iv(ss []setting, name string, def int) int         { return value(ss, name, def).(int) }
func bv(ss []setting, name string, def bool) bool       { return value(ss, name, def).(bool) }
func sv(ss []setting, name string, def string) string   { return value(ss, name, def).(string) }
func some(r *rand.Rand, ss *[]setting, n string, v any) { someP(r, ss, n, v, 3) }
func someP(r *rand.Rand, ss *[]setting, n string, v any, p int) {
	if r.Intn(p) > 0 {
		*ss = append(*ss, setting{n, v})
	}
}

func consumerStruct(ss []setting) healer.ConsumerConfig {
	c := healer.DefaultConsumerConfig()
	for _, s := range ss {
		switch s.name {
		case "bootstrap.servers":
			c.BootstrapServers = s.val.(string)
		case "client.id":
			c.ClientID = s.val.(string)
		case "group.id":
			c.GroupID = s.val.(string)
		case "session.timeout.ms":
			c.SessionTimeoutMS = int32(s.val.(int))
		case "fetch.max.wait.ms":
			c.FetchMaxWaitMS = int32(s.val.(int))
		case "fetch.max.bytes":
			c.FetchMaxBytes = int32(s.val.(int))
		case "fetch.min.bytes":
			c.FetchMinBytes = int32(s.val.(int))
		case "from.beginning":
			c.FromBeginning = s.val.(bool)
		case "auto.commit":
			c.AutoCommit = s.val.(bool)
		case "auto.commit.interval.ms":
			c.AutoCommitIntervalMS = s.val.(int)
		case "offsets.storage":
			c.OffsetsStorage = s.val.(int)
		case "retry.backoff.ms":
			c.RetryBackOffMS = s.val.(int)
		case "metadata.max.age.ms":
			c.MetadataMaxAgeMS = s.val.(int)
		case "net.timeout.ms":
			c.Net.TimeoutMS = s.val.(int)
		case "net.connect.timeout.ms":
			c.Net.ConnectTimeoutMS = s.val.(int)
		default:
			panic("HARNESS: " + s.name)
		}
	}
	return c
}

func producerStruct(ss []setting) healer.ProducerConfig {
	c := healer.DefaultProducerConfig()
	for _, s := range ss {
		switch s.name {
		case "bootstrap.servers":
			c.BootstrapServers = s.val.(string)
		case "client.id":
			c.ClientID = s.val.(string)
		case "acks":
			c.Acks = int16(s.val.(int))
		case "compress.type":
			c.CompressionType = s.val.(string)
		case "message.max.count":
			c.MessageMaxCount = s.val.(int)
		case "flush.interval.ms":
			c.FlushIntervalMS = s.val.(int)
		case "request.timeout.ms":
			c.RequestTimeoutMS = int32(s.val.(int))
		case "metadata.max.age.ms":
			c.MetadataMaxAgeMS = s.val.(int)
		case "healer.magicbyte":
			c.HealerMagicByte = s.val.(int)
		case "net.timeout.ms":
			c.Net.TimeoutMS = s.val.(int)
		default:
			panic("HARNESS: " + s.name)
		}
	}
	return c
}

var (
	defOnce sync.Once
	defC    string
	defP    string
)

func runC19(t *T) {
	r := t.Rng
	defOnce.Do(func() { defC, defP = deep(healer.DefaultConsumerConfig()), deep(healer.DefaultProducerConfig()) })
	n := 1 + r.Intn(3)
	var wg sync.WaitGroup
	var fs []func()
	for i := 0; i < n; i++ { // several at once, with different settings
		sub := newRand(r.Int63())
		switch k := r.Intn(5); {
		case k < 2:
			fs = append(fs, func() { consumerSettings(t, sub) })
		case k < 4:
			fs = append(fs, func() { producerSettings(t, sub) })
		default:
			fs = append(fs, func() { invalidSettings(t, sub) })
		}
	}
	if r.Intn(2) == 0 || n == 1 {
		for _, f := range fs {
			f()
		}
	} else {
		for _, f := range fs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				mon.Guard(f)
			}()
		}
		wg.Wait()
	}
	if d := deep(healer.DefaultConsumerConfig()); d != defC {
		t.Violate("default configuration changed", "%s\ninstead of %s", d, defC)
	}
	if d := deep(healer.DefaultProducerConfig()); d != defP {
		t.Violate("default configuration changed", "%s\ninstead of %s", d, defP)
	}
}

func randName(r *rand.Rand) string {
	return pick(r, "a", "my-client", "client with space", "ünï", "x.y_z", "1234", "true", strings.Repeat("n", 200))
}

func consumerSettings(t *T, r *rand.Rand) {
	c := cluster2(t)
	c.AddTopic("t", 1+r.Intn(2))
	c.RebalanceTimeout = t.Limit(5 * time.Second)
	before := feed(c, 3)
	ss := []setting{{"bootstrap.servers", c.Bootstrap()}, {"retry.backoff.ms", 5}}
	kind := pick(r, "simple consumer", "consumer", "group consumer")
	some(r, &ss, "client.id", randName(r))
	if kind == "group consumer" {
		ss = append(ss, setting{"group.id", randName(r)})
	} else {
		some(r, &ss, "group.id", randName(r))
	}
	group := sv(ss, "group.id", "")
	some(r, &ss, "session.timeout.ms", 300+r.Intn(60000))
	ss = append(ss, setting{"fetch.max.wait.ms", 1 + r.Intn(40)})
	some(r, &ss, "fetch.max.bytes", 5000+r.Intn(1<<20))
	some(r, &ss, "fetch.min.bytes", pick(r, 1, 2, 3, 1000, 70000, 5<<20))
	beginning := r.Intn(2) == 0
	some(r, &ss, "from.beginning", beginning)
	beginning = bv(ss, "from.beginning", false)
	auto := r.Intn(3) > 0
	some(r, &ss, "auto.commit", auto)
	auto = bv(ss, "auto.commit", true)
	interval := pick(r, 3, 20, 3000000)
	ss = append(ss, setting{"auto.commit.interval.ms", interval})
	some(r, &ss, "offsets.storage", 1)
	some(r, &ss, "metadata.max.age.ms", 200000+r.Intn(1000))
	some(r, &ss, "net.timeout.ms", 60000+r.Intn(1000))
	some(r, &ss, "net.connect.timeout.ms", 60000+r.Intn(1000))
	r.Shuffle(len(ss), func(i, j int) { ss[i], ss[j] = ss[j], ss[i] })
	form := pick(r, "map", "map", "struct")
	var cfg any
	var st healer.ConsumerConfig
	if form == "map" {
		cfg = asMap(r, ss)
	} else {
		st = consumerStruct(ss)
		cfg = st
	}
	orig := deep(cfg)
	t.Label("%s %s %v", kind, form, ss)
	var ch <-chan *healer.FullMessage
	var end func()
	var err error
	t.Do("creating a "+kind, 60*time.Second, func() {
		switch kind {
		case "simple consumer":
			var x *healer.SimpleConsumer
			if x, err = healer.NewSimpleConsumer("t", 0, cfg); err != nil {
				return
			}
			off := int64(-1)
			if beginning {
				off = -2
			}
			ch, err = x.Consume(off, nil)
			end = x.Stop
		case "consumer":
			var x *healer.Consumer
			if x, err = healer.NewConsumer(cfg, "t"); err != nil {
				return
			}
			ch, err = x.Consume(nil)
			end = func() { x.AwaitClose(t.Limit(40 * time.Second)) }
		default:
			var x *healer.GroupConsumer
			if x, err = healer.NewGroupConsumer("t", cfg); err != nil {
				return
			}
			ch, err = x.Consume(nil)
			end = func() { x.AwaitClose(t.Limit(40 * time.Second)) }
		}
	})
	if err != nil {
		t.Fatal("valid configuration refused", "%s %s %s: %v", kind, form, orig, err)
	}
	parts := len(c.Topics["t"].Parts)
	if kind == "simple consumer" {
		before, parts = 3, 1
	}
	// the consumer has its position when every partition was fetched
	fetched := func() int {
		m := map[int64]bool{}
		for _, e := range c.Tr.Events() {
			if e.Kind == "req" && e.Key == kproto.Fetch && e.Body != nil {
				for _, tp := range e.Body.Ms("topics") {
					for _, p := range tp.Ms("partitions") {
						m[p.I("partition")] = true
					}
				}
			}
		}
		return len(m)
	}
	wait := func(what string, f func() bool) {
		dl := time.Now().Add(t.Limit(40 * time.Second))
		for !f() {
			if time.Now().After(dl) {
				t.Hang(what, "%s %s %v", kind, form, ss)
			}
			time.Sleep(time.Millisecond)
		}
	}
	wait("consumer does not fetch", func() bool { return fetched() >= parts })
	feed(c, 2)
	want := 2 * parts
	if beginning {
		want += before
	}
	got := 0
	low := int64(1 << 60)
	for got < want {
		select {
		case m := <-ch:
			if m.Error != nil {
				continue
			}
			got++
			low = min(low, m.Message.Offset)
		case <-time.After(t.Limit(40 * time.Second)):
			t.Hang("consumer does not deliver", "%s %s %v: %d of %d", kind, form, ss, got, want)
		}
	}
	if beginning != (low == 0) {
		t.Violate("from.beginning not followed", "%s %s: from.beginning is %v, the first offset delivered is %d", kind, form, beginning, low)
	}
	commits := func() int {
		n := 0
		for _, e := range c.Tr.Events() {
			if e.Kind == "req" && e.Key == kproto.OffsetCommit {
				n++
			}
		}
		return n
	}
	if group != "" && auto && interval < 100 {
		wait("offsets are not committed at the interval", func() bool { return commits() > 0 })
	}
	midCommits := commits()
	t.Do("closing", 100*time.Second, end)
	// judge what was seen
	id := sv(ss, "client.id", "healer")
	for _, e := range c.Tr.Events() {
		if e.Kind != "req" || e.Body == nil {
			continue
		}
		switch e.Key {
		case kproto.Fetch, kproto.ListOffsets, kproto.OffsetCommit, kproto.OffsetFetch, kproto.JoinGroup, kproto.SyncGroup, kproto.Heartbeat, kproto.LeaveGroup, kproto.FindCoordinator:
			if x := cid(e.Req.H.ClientID); x != id {
				t.Violate("client.id not used", "%s %s: %s has client id %q instead of %q", kind, form, kproto.Name(e.Key), x, id)
			}
		}
		switch e.Key {
		case kproto.Fetch:
			check(t, "fetch.max.wait.ms", e.Body.I("max_wait_ms"), int64(iv(ss, "fetch.max.wait.ms", 500)))
			check(t, "fetch.min.bytes", e.Body.I("min_bytes"), int64(iv(ss, "fetch.min.bytes", 1)))
			for _, tp := range e.Body.Ms("topics") {
				for _, p := range tp.Ms("partitions") {
					check(t, "fetch.max.bytes", p.I("partition_max_bytes"), int64(iv(ss, "fetch.max.bytes", 10<<20)))
				}
			}
		case kproto.JoinGroup:
			check(t, "session.timeout.ms", e.Body.I("session_timeout"), int64(iv(ss, "session.timeout.ms", 30000)))
			if g := e.Body.S("group"); g != group {
				t.Violate("group.id not used", "%q instead of %q", g, group)
			}
		case kproto.OffsetCommit:
			if !auto || group == "" {
				t.Violate("offsets committed although auto.commit is off or there is no group", "%s %s %v", kind, form, ss)
			}
			if g := e.Body.S("group"); g != group {
				t.Violate("group.id not used", "%q instead of %q", g, group)
			}
		}
	}
	if group != "" && auto && interval > 1000000 && midCommits > 0 {
		t.Violate("auto.commit.interval.ms not followed", "%s %s: %d commits before the interval was over", kind, form, midCommits)
	}
	if group != "" && auto && commits() == 0 {
		t.Violate("auto.commit not followed", "%s %s: nothing committed", kind, form)
	}
	if deep(cfg) != orig {
		t.Violate("the caller's configuration was changed", "%s\ninstead of %s", deep(cfg), orig)
	}
	for _, s := range ss {
		t.Eval(fmt.Sprintf("%s %s %s", kind, form, s.name))
	}
	t.Sample("%s %s with %d settings: %d events", kind, form, len(ss), c.Tr.Len())
}

func check(t *T, name string, got, want int64) {
	if got != want {
		t.Violate(name+" not used", "the request has %d, configured is %d", got, want)
	}
	t.EvalN(1)
}

func producerSettings(t *T, r *rand.Rand) {
	c := cluster2(t)
	c.AddTopic("t", 1)
	count := 1 + r.Intn(6)
	ss := []setting{{"bootstrap.servers", c.Bootstrap()}}
	kind := pick(r, "producer", "simple producer")
	some(r, &ss, "client.id", randName(r))
	acks := pick(r, 1, -1, 0)
	some(r, &ss, "acks", acks)
	some(r, &ss, "compress.type", pick(r, "none", "gzip", "snappy", "lz4"))
	ss = append(ss, setting{"message.max.count", count})
	timed := r.Intn(3) == 0
	if timed {
		ss = append(ss, setting{"flush.interval.ms", 1 + r.Intn(20)})
	} else {
		ss = append(ss, setting{"flush.interval.ms", never})
	}
	some(r, &ss, "request.timeout.ms", 1+r.Intn(100000))
	some(r, &ss, "metadata.max.age.ms", 100000+r.Intn(1000))
	some(r, &ss, "net.timeout.ms", 60000+r.Intn(1000))
	someP(r, &ss, "healer.magicbyte", r.Intn(3), 2)
	r.Shuffle(len(ss), func(i, j int) { ss[i], ss[j] = ss[j], ss[i] })
	form := pick(r, "map", "map", "struct")
	var cfg any
	if form == "map" {
		cfg = asMap(r, ss)
	} else {
		cfg = producerStruct(ss)
	}
	orig := deep(cfg)
	t.Label("%s %s %v", kind, form, ss)
	var add func(k, v []byte) error
	var end func()
	var err error
	t.Do("creating a "+kind, 60*time.Second, func() {
		if kind == "producer" {
			var p *healer.Producer
			if p, err = healer.NewProducer("t", cfg); err == nil {
				add, end = p.AddMessage, p.Close
			}
		} else {
			var p *healer.SimpleProducer
			if p, err = healer.NewSimpleProducer(context.Background(), "t", 0, cfg); err == nil {
				add, end = p.AddMessage, p.Close
			}
		}
	})
	if err != nil {
		t.Fatal("valid configuration refused", "%s %s %s: %v", kind, form, orig, err)
	}
	total := 0
	batches := 1 + r.Intn(3)
	n := count * batches
	if timed {
		n = 1
	}
	for i := 0; i < n; i++ {
		t.Do("AddMessage", 60*time.Second, func() { err = add(nil, []byte(fmt.Sprintf("value %d", i))) })
		if err != nil {
			t.Violate("AddMessage fails on a healthy cluster", "%v", err)
		}
		total++
	}
	stored := func() int { return len(c.Log("t", 0)) }
	dl := time.Now().Add(t.Limit(40 * time.Second))
	for stored() < total {
		if time.Now().After(dl) {
			t.Hang("messages are not sent at the count or interval configured", "%s %s %v: %d of %d", kind, form, ss, stored(), total)
		}
		time.Sleep(time.Millisecond)
	}
	if !timed && count > 1 { // one less than a full batch stays until Close
		for i := 0; i < count-1; i++ {
			add(nil, []byte("rest"))
		}
		time.Sleep(2 * time.Millisecond)
		if k := stored(); k != total {
			t.Violate("messages sent before message.max.count was reached", "%s %s %v: %d instead of %d", kind, form, ss, k, total)
		}
		total += count - 1
	}
	t.Do("closing", 60*time.Second, end)
	dl = time.Now().Add(t.Limit(40 * time.Second))
	for stored() < total {
		if time.Now().After(dl) {
			t.Hang("messages are not sent at Close", "%s %s %v: %d of %d", kind, form, ss, stored(), total)
		}
		time.Sleep(time.Millisecond)
	}
	codec := map[string]int{"none": 0, "gzip": 1, "snappy": 2, "lz4": 3}[sv(ss, "compress.type", "none")]
	id := sv(ss, "client.id", "healer")
	for _, e := range c.Tr.Events() {
		if e.Kind != "req" || e.Key != kproto.Produce || e.Body == nil {
			continue
		}
		check(t, "acks", e.Body.I("acks"), int64(iv(ss, "acks", -1)))
		check(t, "request.timeout.ms", e.Body.I("timeout_ms"), int64(iv(ss, "request.timeout.ms", 1500)))
		if x := cid(e.Req.H.ClientID); x != id {
			t.Violate("client.id not used", "%s %s: Produce has client id %q instead of %q", kind, form, x, id)
		}
		for _, tp := range e.Body.Ms("topics") {
			for _, p := range tp.Ms("partitions") {
				raw := p.B("records")
				if len(raw) < 61 {
					continue
				}
				check(t, "healer.magicbyte", int64(raw[16]), 2)
				check(t, "compress.type", int64(raw[22]&7), int64(codec))
				if k := int(raw[57])<<24 | int(raw[58])<<16 | int(raw[59])<<8 | int(raw[60]); k > count {
					t.Violate("more messages in a batch than message.max.count", "%d, configured is %d", k, count)
				}
			}
		}
	}
	if deep(cfg) != orig {
		t.Violate("the caller's configuration was changed", "%s\ninstead of %s", deep(cfg), orig)
	}
	for _, s := range ss {
		t.Eval(fmt.Sprintf("%s %s %s", kind, form, s.name))
	}
	t.Sample("%s %s with %d settings: %d events", kind, form, len(ss), c.Tr.Len())
}

func invalidSettings(t *T, r *rand.Rand) {
	c := cluster2(t)
	c.AddTopic("t", 1)
	bs := c.Bootstrap()
	type bad struct {
		kind string // which constructors: producers, producer, consumers, group, any
		what string
		ss   []setting
	}
	bads := []bad{
		{"producers", "no bootstrap servers", nil},
		{"consumers", "no bootstrap servers", []setting{{"group.id", "g"}}},
		{"group", "no group", []setting{{"bootstrap.servers", bs}}},
		{"group", "offsets.storage", []setting{{"bootstrap.servers", bs}, {"group.id", "g"}, {"offsets.storage", pick(r, 2, -1, 7)}}},
		{"producers", "message.max.count", []setting{{"bootstrap.servers", bs}, {"message.max.count", pick(r, 0, -1)}}},
		{"producers", "flush.interval.ms", []setting{{"bootstrap.servers", bs}, {"flush.interval.ms", pick(r, 0, -1)}}},
		{"producers", "compress.type", []setting{{"bootstrap.servers", bs}, {"compress.type", pick(r, "zstd", "", "GZIP", "gzip ")}}},
		{"producer", "metadata.max.age.ms", []setting{{"bootstrap.servers", bs}, {"metadata.max.age.ms", pick(r, 0, -1)}}},
		{"group", "metadata.max.age.ms", []setting{{"bootstrap.servers", bs}, {"group.id", "g"}, {"metadata.max.age.ms", pick(r, 0, -1)}}},
		{"group", "session.timeout.ms", []setting{{"bootstrap.servers", bs}, {"group.id", "g"}, {"session.timeout.ms", pick(r, 0, -1)}}},
		{"consumers", "auto.commit.interval.ms", []setting{{"bootstrap.servers", bs}, {"group.id", "g"}, {"auto.commit.interval.ms", pick(r, 0, -1)}}},
		{"any", "undecodable", nil},
		{"any", "type", nil},
		{"any", "nil", nil},
	}
	b := bads[r.Intn(len(bads))]
	kinds := map[string][]string{"producers": {"producer", "simple producer"}, "producer": {"producer"}, "group": {"group consumer"},
		"consumers": {"consumer", "simple consumer", "group consumer"}, "any": {"producer", "simple producer", "consumer", "simple consumer", "group consumer"}}[b.kind]
	kind := kinds[r.Intn(len(kinds))]
	prod := strings.Contains(kind, "producer")
	var cfg any
	form := pick(r, "map", "struct")
	switch b.what {
	case "undecodable":
		form = "map"
		m := map[string]interface{}{"bootstrap.servers": bs, "group.id": "g"}
		keys := []string{"retry.backoff.ms", "metadata.max.age.ms", "net"}
		if prod {
			keys = append(keys, "acks", "message.max.count", "flush.interval.ms", "batch.size")
		} else {
			keys = append(keys, "session.timeout.ms", "from.beginning", "auto.commit", "fetch.max.bytes")
		}
		m[keys[r.Intn(len(keys))]] = pick[any](r, "abc", "1x", "--1")
		cfg = m
	case "type":
		form = "other"
		cc, pc := consumerStruct([]setting{{"bootstrap.servers", bs}, {"group.id", "g"}}), producerStruct([]setting{{"bootstrap.servers", bs}})
		cfg = pick[any](r, map[string]string{"bootstrap.servers": bs, "group.id": "g"}, "bootstrap.servers="+bs, 42, []string{bs}, struct{ BootstrapServers string }{bs})
		if r.Intn(3) == 0 {
			if prod {
				cfg = cc
			} else {
				cfg = pc
			}
		}
	case "nil":
		form = "nil"
	default:
		if form == "map" {
			cfg = asMap(r, b.ss)
		} else if prod {
			cfg = producerStruct(b.ss)
		} else {
			cfg = consumerStruct(b.ss)
		}
	}
	t.Label("invalid %s %s %s", kind, form, b.what)
	var err error
	var x any
	t.Do("creating a "+kind+" with an invalid configuration", 60*time.Second, func() {
		switch kind {
		case "producer":
			var p *healer.Producer
			if p, err = healer.NewProducer("t", cfg); err == nil {
				x = p
			}
		case "simple producer":
			var p *healer.SimpleProducer
			if p, err = healer.NewSimpleProducer(context.Background(), "t", 0, cfg); err == nil {
				x = p
			}
		case "consumer":
			var p *healer.Consumer
			if p, err = healer.NewConsumer(cfg, "t"); err == nil {
				x = p
			}
		case "simple consumer":
			var p *healer.SimpleConsumer
			if p, err = healer.NewSimpleConsumer("t", 0, cfg); err == nil {
				x = p
			}
		case "group consumer":
			var p *healer.GroupConsumer
			if p, err = healer.NewGroupConsumer("t", cfg); err == nil {
				x = p
			}
		}
	})
	if err == nil {
		t.Violate("invalid configuration accepted", "%s %s %s: %v", kind, form, b.what, cfg)
	}
	_ = x
	for _, e := range c.Tr.Events() {
		if e.Kind == "req" {
			t.Violate("request sent with an invalid configuration", "%s %s %s: %s", kind, form, b.what, e.String())
			break
		}
	}
	t.Eval(fmt.Sprintf("invalid %s %s %s", kind, form, b.what))
}

func cid(s *string) string {
	if s == nil {
		return "null"
	}
	return *s
}

func cluster2(t *T) *fake.Cluster {
	c := fake.New(1)
	t.Cleanup(c.Stop)
	wireMonitor(t, c)
	return c
}

func init() {
	mon.Register(&mon.Prop{ID: "C19", Level: "exploration", Rule: "distinct (component, form of the configuration, setting)",
		N: map[string]int{"quick": 8000, "thorough": 100000}, Par: 6, Run: runC19,
		Required: []string{"group consumer map session.timeout.ms", "consumer struct fetch.max.bytes", "producer map acks", "simple producer map compress.type", "invalid producer map compress.type", "invalid group consumer struct session.timeout.ms", "invalid simple consumer map undecodable", "invalid consumer other type"}})
}
