package props

import (
	"bytes"
	"context"
	"fmt"
	"hash/fnv"
	"math/rand"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/childe/healer"

	"verif/harness/fake"
	"verif/harness/kproto"
	"verif/harness/mon"
)

var codecs = map[string]int64{"none": 0, "gzip": 1, "snappy": 2, "lz4": 3}

const never = 3600 * 1000

func pconf(c *fake.Cluster) healer.ProducerConfig {
	p := healer.DefaultProducerConfig()
	p.BootstrapServers = c.Bootstrap()
	p.FlushIntervalMS = never
	p.MetadataMaxAgeMS = never
	return p
}

func simpleProducer(t *T, c *fake.Cluster, topic string, p int32, cfg any) *healer.SimpleProducer {
	var sp *healer.SimpleProducer
	var err error
	t.Do("creating a producer", 60*time.Second, func() { sp, err = healer.NewSimpleProducer(context.Background(), topic, p, cfg) })
	if err != nil {
		if isTimeout(err) {
			t.Soft("creating a producer timed out", "%v", err)
		}
		t.Fatal("cannot create a producer on a healthy cluster", "NewSimpleProducer(%s-%d): %v", topic, p, err)
	}
	t.Cleanup(func() { go sp.Close() })
	return sp
}

func producer(t *T, c *fake.Cluster, topic string, cfg any) *healer.Producer {
	var p *healer.Producer
	var err error
	t.Do("creating a producer", 60*time.Second, func() { p, err = healer.NewProducer(topic, cfg) })
	if err != nil {
		if isTimeout(err) {
			t.Soft("creating a producer timed out", "%v", err)
		}
		t.Fatal("cannot create a producer on a healthy cluster", "NewProducer(%s): %v", topic, err)
	}
	t.Cleanup(func() { go p.Close() })
	return p
}

// msgID builds a value that names the caller and the sequence number.
func msgVal(r *rand.Rand, caller, seq, pad int) []byte {
	b := []byte(fmt.Sprintf("c%d:%d:", caller, seq))
	x := make([]byte, pad)
	if r.Intn(3) == 0 {
		r.Read(x)
	} else {
		for i := range x {
			x[i] = byte('a' + (i+seq)%26)
		}
	}
	return append(b, x...)
}

func parseVal(v []byte) (caller, seq int, ok bool) {
	s := string(v)
	if !strings.HasPrefix(s, "c") {
		return
	}
	p := strings.SplitN(s[1:], ":", 3)
	if len(p) != 3 {
		return
	}
	a, e1 := strconv.Atoi(p[0])
	b, e2 := strconv.Atoi(p[1])
	return a, b, e1 == nil && e2 == nil
}

type sent struct {
	key, val []byte
	err      error
	part     int32 // -1: the producer chooses
}

func sameBytes(a, b []byte) bool { return (a == nil) == (b == nil) && bytes.Equal(a, b) }

func show(b []byte) string {
	if b == nil {
		return "null"
	}
	if len(b) > 40 {
		return fmt.Sprintf("%q...(%d bytes)", b[:40], len(b))
	}
	return fmt.Sprintf("%q", b)
}

// randBytes returns nil, empty, short or long content.
func randBytes(r *rand.Rand, max int) []byte {
	switch r.Intn(8) {
	case 0:
		return nil
	case 1:
		return []byte{}
	}
	n := 1 + kproto.RandLen(r, max)
	b := make([]byte, n)
	switch r.Intn(3) {
	case 0:
		r.Read(b)
	case 1:
		for i := range b {
			b[i] = byte(r.Intn(3))
		}
	default:
		for i := range b {
			b[i] = byte('a' + i%23)
		}
	}
	return b
}

func yield(r *rand.Rand) {
	switch r.Intn(12) {
	case 0:
		runtime.Gosched()
	case 1:
		time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
	}
}

// jitter delays some answers and splits some.
func jitter(seed int64, every int) func(*fake.Req) *fake.Fault {
	r := rand.New(rand.NewSource(seed))
	var mu sync.Mutex
	return func(q *fake.Req) *fake.Fault {
		mu.Lock()
		defer mu.Unlock()
		if every <= 0 || r.Intn(every) != 0 {
			return nil
		}
		f := &fake.Fault{}
		if r.Intn(2) == 0 {
			ch := make(chan struct{})
			time.AfterFunc(time.Duration(r.Intn(2000))*time.Microsecond, func() { close(ch) })
			f.Hold = ch
		}
		if r.Intn(2) == 0 {
			f.Chunks = []int{1 + r.Intn(9), 1 + r.Intn(60), 4096}
		}
		return f
	}
}

// ---- C06 -------------------------------------------------------------------

func runC06(t *T) {
	r := t.Rng
	nodes := 1 + r.Intn(3)
	parts := 1 + r.Intn(4)
	c := cluster(t, nodes)
	topic := "topic" + strconv.Itoa(r.Intn(1000))
	c.AddTopic(topic, parts)
	c.OnBadBatch = func(q *fake.Req, err error) { t.Violate("invalid batch produced", "node %d: %v", q.Node, err) }
	jit := pick(r, 0, 0, 1, 3)
	c.SetHook(jitter(r.Int63(), jit))
	cfg := pconf(c)
	cfg.Acks = pick(r, int16(-1), -1, 1, 1, 0)
	cfg.CompressionType = pick(r, "none", "none", "gzip", "snappy", "lz4")
	cfg.MessageMaxCount = pick(r, 1, 2, 3, 7, 50, 1024)
	cfg.FlushIntervalMS = pick(r, never, never, 1, 2, 5, 20)
	callers := pick(r, 1, 2, 4, 8)
	per := 10 + r.Intn(60)
	mode := pick(r, "simple", "simple", "producer", "producer", "many")
	if mode == "producer" {
		cfg.MetadataMaxAgeMS = pick(r, never, 3, 10, 40)
	}
	if cfg.Acks == 0 {
		// unacknowledged messages over successive connections have no order
		cfg.MetadataMaxAgeMS = never
	}
	closeEarly := r.Intn(3) == 0
	flushers := mode != "producer" && r.Intn(2) == 0
	maxPad := pick(r, 5, 50, 2000)
	if r.Intn(25) == 0 {
		maxPad, per = 60000, 12
	}
	t.Label("%s nodes=%d parts=%d acks=%d codec=%s max=%d flush=%d age=%d callers=%d per=%d early=%v", mode, nodes, parts, cfg.Acks, cfg.CompressionType, cfg.MessageMaxCount, cfg.FlushIntervalMS, cfg.MetadataMaxAgeMS, callers, per, closeEarly)

	var sps []*healer.SimpleProducer
	var pr *healer.Producer
	spPart := map[*healer.SimpleProducer]int32{}
	switch mode {
	case "simple":
		part := int32(r.Intn(parts))
		sps = append(sps, simpleProducer(t, c, topic, part, cfg))
		spPart[sps[0]] = part
	case "many":
		for i := 0; i < parts; i++ {
			sps = append(sps, simpleProducer(t, c, topic, int32(i), cfg))
			spPart[sps[i]] = int32(i)
		}
	default:
		pr = producer(t, c, topic, cfg)
	}
	all := make([][]sent, callers)
	seeds := make([]int64, callers)
	for i := range seeds {
		seeds[i] = r.Int63()
	}
	closeAfter := int64(1 + r.Intn(callers*per))
	var count atomic.Int64
	var wg sync.WaitGroup
	closeAll := func() {
		for _, s := range sps {
			s.Close()
		}
		if pr != nil {
			pr.Close()
		}
	}
	t.Do("producing", 90*time.Second, func() {
		for i := 0; i < callers; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				lr := rand.New(rand.NewSource(seeds[i]))
				for n := 0; n < per; n++ {
					s := sent{val: msgVal(lr, i, n, lr.Intn(maxPad)), part: -1}
					if lr.Intn(3) > 0 {
						s.key = []byte("k" + strconv.Itoa(lr.Intn(8)))
					}
					if pr != nil {
						s.err = pr.AddMessage(s.key, s.val)
					} else {
						sp := sps[lr.Intn(len(sps))]
						s.part = spPart[sp]
						s.err = sp.AddMessage(s.key, s.val)
						if s.err == nil && flushers && lr.Intn(6) == 0 {
							if err := sp.Flush(); err != nil {
								t.Violate("sending failed on a healthy cluster", "Flush: %v", err)
							}
						}
					}
					all[i] = append(all[i], s)
					if s.err != nil && !(s.err == healer.ErrProducerClosed && closeEarly) {
						t.Violate("sending failed on a healthy cluster", "AddMessage: %v", s.err)
					}
					if count.Add(1) == closeAfter && closeEarly {
						wg.Add(1)
						go func() { defer wg.Done(); closeAll() }()
					}
					yield(lr)
				}
			}(i)
		}
		wg.Wait()
		closeAll()
	})
	accepted := 0
	for _, a := range all {
		for _, s := range a {
			if s.err == nil {
				accepted++
			}
		}
	}
	readAll := func() (n int, logs map[int32][]kproto.Rec) {
		logs = map[int32][]kproto.Rec{}
		for i := 0; i < parts; i++ {
			logs[int32(i)] = c.Log(topic, int32(i))
			n += len(logs[int32(i)])
		}
		return
	}
	n, logs := readAll()
	if cfg.Acks == 0 {
		// not acknowledged: the broker may still be reading
		for dl := time.Now().Add(t.Limit(10 * time.Second)); n < accepted && time.Now().Before(dl) && c.OpenConns() > 0; n, logs = readAll() {
			time.Sleep(5 * time.Millisecond)
		}
		time.Sleep(2 * time.Millisecond)
		n, logs = readAll()
	}
	checkLogs(t, all, logs)
	t.Sample("accepted %d messages, log has %d", accepted, n)
	t.Eval(fmt.Sprintf("%s/%d/%s/%d/%d/%d/%v", mode, cfg.Acks, cfg.CompressionType, cfg.MessageMaxCount, cfg.FlushIntervalMS, callers, closeEarly))
}

// checkLogs: every accepted message once, rejected ones never, per caller and partition in order.
func checkLogs(t *T, all [][]sent, logs map[int32][]kproto.Rec) {
	seen := make([]map[int]int, len(all))
	for i := range seen {
		seen[i] = map[int]int{}
	}
	for p, l := range logs {
		last := map[[2]int]int{}
		h := fnv.New64a()
		for _, rec := range l {
			cl, sq, ok := parseVal(rec.Value)
			if !ok || cl >= len(all) || sq >= len(all[cl]) {
				t.Violate("a message that nobody sent", "partition %d offset %d: key %s value %s", p, rec.Offset, show(rec.Key), show(rec.Value))
				continue
			}
			s := all[cl][sq]
			if !sameBytes(s.key, rec.Key) || !sameBytes(s.val, rec.Value) {
				t.Violate("message altered", "caller %d message %d: sent key %s value %s, stored key %s value %s", cl, sq, show(s.key), show(s.val), show(rec.Key), show(rec.Value))
			}
			if s.part >= 0 && s.part != p {
				t.Violate("message in the wrong partition", "caller %d message %d: for partition %d, stored in %d", cl, sq, s.part, p)
			}
			seen[cl][sq]++
			// a keyed producer queues messages with and without key separately
			q := [2]int{cl, 0}
			if s.part < 0 && s.key != nil {
				q[1] = 1
			}
			if prev, ok := last[q]; ok && prev >= sq {
				t.Violate("messages reordered", "partition %d: message %d of caller %d is stored after its message %d", p, sq, cl, prev)
			}
			last[q] = sq
			fmt.Fprintf(h, "%d,", cl)
			t.EvalN(1)
		}
		if len(all) > 1 && len(l) > 0 {
			t.Eval(fmt.Sprintf("il:%x", h.Sum64()))
		}
	}
	for cl := range all {
		for sq, s := range all[cl] {
			k := seen[cl][sq]
			switch {
			case k > 1:
				t.Violate("message stored more than once", "caller %d message %d is stored %d times", cl, sq, k)
			case s.err == nil && k == 0:
				t.Violate("accepted message lost", "caller %d message %d (key %s) was accepted and is in no partition", cl, sq, show(s.key))
			case s.err == healer.ErrProducerClosed && k > 0:
				t.Violate("rejected message stored", "caller %d message %d was rejected with %v but is stored", cl, sq, s.err)
			}
		}
	}
}

// ---- C07 -------------------------------------------------------------------

var produceErrs = []int64{-1, 1, 2, 3, 5, 6, 7, 9, 10, 17, 18, 19, 20, 21, 29, 45, 72, 87, 89}

// the causes are not always wrapped
func isTimeout(err error) bool { return err != nil && strings.Contains(err.Error(), "i/o timeout") }

func runC07(t *T) {
	r := t.Rng
	nodes := 1 + r.Intn(3)
	c := cluster(t, nodes)
	parts := 1 + r.Intn(3)
	c.AddTopic("t", parts)
	cfg := pconf(c)
	cfg.Acks = pick(r, int16(-1), 1)
	cfg.CompressionType = pick(r, "none", "gzip", "snappy", "lz4")
	useDrop := r.Intn(8) == 0
	mode := pick(r, "flush", "fill", "producer", "flush all")
	cfg.MessageMaxCount = pick(r, 1, 3, 5)
	if mode == "producer" {
		cfg.MessageMaxCount = 1
	}
	if mode == "flush" || mode == "flush all" {
		cfg.MessageMaxCount = 1000
	}
	if useDrop {
		cfg.Net.TimeoutMS = int(400 * t.Slow)
	}
	var sp *healer.SimpleProducer
	var pr *healer.Producer
	part := int32(r.Intn(parts))
	if mode == "producer" || mode == "flush all" {
		pr = producer(t, c, "t", cfg)
	} else {
		sp = simpleProducer(t, c, "t", part, cfg)
	}
	leader := c.Topics["t"].Parts[part].Leader
	t.Label("%s acks=%d codec=%s max=%d drop=%v", mode, cfg.Acks, cfg.CompressionType, cfg.MessageMaxCount, useDrop)
	var all []sent
	type round struct {
		from, to int
		fault    string
		code     int64
		err      error
		acked    bool
	}
	var rounds []round
	var cur atomic.Value // *fake.Fault
	cur.Store((*fake.Fault)(nil))
	var only, produced, hit atomic.Int32 // which of the requests of a round fails, -1: each
	c.SetHook(func(q *fake.Req) *fake.Fault {
		if q.H.Key != kproto.Produce {
			return nil
		}
		f := cur.Load().(*fake.Fault)
		if k := produced.Add(1) - 1; f == nil || only.Load() >= 0 && only.Load() != k {
			return nil
		}
		hit.Add(1)
		return f
	})
	seq := 0
	nRounds := 6 + r.Intn(10)
	for i := 0; i < nRounds; i++ {
		rd := round{from: seq, fault: "none"}
		if i > 0 && r.Intn(2) == 0 {
			rd.fault = pick(r, "code", "code", "before", "after", "truncate", "kill", "down")
			if useDrop {
				rd.fault = pick(r, "drop", "code", "after")
			}
		}
		if (rd.fault == "down" || rd.fault == "kill") && pr != nil {
			rd.fault = "code"
		}
		var f *fake.Fault
		switch rd.fault {
		case "code":
			rd.code = pick(r, produceErrs...)
			code := rd.code
			f = &fake.Fault{Body: func(b M) M {
				p := b.Ms("responses")[0].Ms("partitions")[0]
				p["error_code"] = code
				p["base_offset"] = int64(-1)
				return b
			}}
		case "before":
			f = &fake.Fault{CloseBefore: true}
		case "after":
			f = &fake.Fault{CloseAfter: true}
		case "truncate":
			f = &fake.Fault{TruncateAt: 1 + r.Intn(30)}
		case "drop":
			f = &fake.Fault{Drop: true}
		case "kill":
			c.Nodes[leader].KillConns()
		case "down":
			c.StopNode(leader)
		}
		only.Store(-1)
		if mode == "flush all" {
			only.Store(int32(r.Intn(4) - 1))
		}
		produced.Store(0)
		hit.Store(0)
		cur.Store(f)
		mark := c.Tr.Len()
		n := 1
		if mode == "fill" {
			n = cfg.MessageMaxCount
		} else if mode == "flush" || mode == "flush all" {
			n = 1 + r.Intn(6)
		}
		// the machine may be slow, and the limit is short
		slow := func(err error) {
			if useDrop && rd.fault != "drop" && isTimeout(err) {
				t.Soft("answered send timed out", "round %d (%s): %v", i, rd.fault, err)
			}
		}
		var buffering error
		t.Do("a send", 60*time.Second, func() {
			for k := 0; k < n; k++ {
				s := sent{val: msgVal(r, 0, seq, r.Intn(200)), part: -1}
				if pr != nil {
					s.key = []byte("k" + strconv.Itoa(r.Intn(10)))
					if mode == "flush all" && r.Intn(4) == 0 {
						s.key = nil
					}
					rd.err = pr.AddMessage(s.key, s.val)
					if mode == "flush all" && rd.err != nil {
						buffering = rd.err
					}
				} else {
					s.part = part
					rd.err = sp.AddMessage(s.key, s.val)
					if k < n-1 && rd.err != nil {
						buffering = rd.err
					}
				}
				all = append(all, s)
				seq++
			}
			if mode == "flush" {
				rd.err = sp.Flush()
			} else if mode == "flush all" {
				rd.err = pr.Flush()
			}
		})
		if buffering != nil {
			slow(buffering)
			t.Violate("buffering a message failed", "round %d, AddMessage: %v", i, buffering)
		}
		if mode == "flush all" {
			if hit.Load() == 0 {
				rd.fault = "none"
			} else if rd.err == nil {
				t.Violate("send reported as successful without acknowledgement", "round %d (%s, code %d): %d of %d batches were not acknowledged, Flush returned nil", i, rd.fault, rd.code, hit.Load(), produced.Load())
			}
			// a partition that fails does not keep the others from being sent
			onWire := map[string]bool{}
			for _, e := range c.Tr.Events()[mark:] {
				if e.Kind != "req" || e.Key != kproto.Produce {
					continue
				}
				bts, _ := kproto.DecodeBatches(e.Body.Ms("topics")[0].Ms("partitions")[0].B("records"))
				for _, b := range bts {
					for _, rec := range b.Recs {
						onWire[string(rec.Value)] = true
					}
				}
			}
			for k := rd.from; k < seq; k++ {
				if !onWire[string(all[k].val)] {
					slow(rd.err)
					t.Violate("Flush left messages unsent", "round %d (%s): message %d of %d..%d is in no produce request; %d of %d requests failed, Flush returned %v", i, rd.fault, k, rd.from, seq-1, hit.Load(), produced.Load(), rd.err)
					break
				}
			}
			t.Eval(fmt.Sprintf("flush all/%d of %d", hit.Load(), produced.Load()))
		}
		rd.to = seq
		for _, e := range c.Tr.Events()[mark:] {
			if e.Kind == "resp" && e.Key == kproto.Produce && e.Body.Ms("responses")[0].Ms("partitions")[0].I("error_code") == 0 && rd.fault != "truncate" {
				rd.acked = true
			}
		}
		if rd.err == nil && !rd.acked {
			t.Violate("send reported as successful without acknowledgement", "round %d (%s, code %d): messages %d..%d, the call returned nil", i, rd.fault, rd.code, rd.from, rd.to-1)
		}
		slow(rd.err)
		if rd.err != nil && rd.fault == "none" {
			prev := ""
			if i > 0 {
				prev = rounds[i-1].fault
			}
			t.Violate("send failed on a healthy broker", "round %d after %q: %v", i, prev, rd.err)
		}
		if rd.fault == "code" && rd.err != nil {
			if k, ok := kafkaCode(rd.err); !ok || int64(k) != rd.code {
				t.Violate("broker's error code not reported", "the broker sent %d, the error is %v", rd.code, rd.err)
			}
		}
		if rd.fault == "down" {
			if err := c.StartNode(leader); err != nil {
				t.Stop()
			}
		}
		t.Eval(fmt.Sprintf("%s/%s/%d/%v", mode, rd.fault, rd.code, rd.err == nil))
		rounds = append(rounds, rd)
	}
	cur.Store((*fake.Fault)(nil))
	t.Do("Close", 60*time.Second, func() {
		if pr != nil {
			pr.Close()
		} else {
			sp.Close()
		}
	})
	// outcome of the whole batch
	for _, rd := range rounds {
		for i := rd.from; i < rd.to; i++ {
			all[i].err = rd.err
		}
	}
	logs := map[int32][]kproto.Rec{}
	for i := 0; i < parts; i++ {
		logs[int32(i)] = c.Log("t", int32(i))
	}
	checkLogs(t, [][]sent{all}, logs)
	t.Sample("rounds=%d faults=%v", len(rounds), func() (s []string) {
		for _, x := range rounds {
			s = append(s, x.fault)
		}
		return
	}())
}

// ---- C08 -------------------------------------------------------------------

func runC08(t *T) {
	r := t.Rng
	c := cluster(t, 1)
	topic := uniqNames(r, 1, 60)[0]
	c.AddTopic(topic, 3)
	part := int32(r.Intn(3))
	cfg := pconf(c)
	cfg.Acks = pick(r, int16(-1), 1, 1)
	cfg.CompressionType = pick(r, "none", "gzip", "snappy", "lz4")
	cfg.RequestTimeoutMS = int32(r.Intn(100000))
	cfg.ClientID = uniqNames(r, 1, 40)[0]
	cfg.MessageMaxCount = pick(r, 1, 2, 5, 64, 200)
	n := 1 + kproto.RandLen(r, 300)
	maxLen := pick(r, 10, 100, 1000, 70000)
	if maxLen > 1000 {
		n = 1 + r.Intn(6)
	}
	if r.Intn(60) == 0 {
		n, maxLen = 1+r.Intn(3), 3<<20
	}
	if r.Intn(60) == 0 {
		n, maxLen, cfg.MessageMaxCount = 8000+r.Intn(1000), 3, pick(r, 8193, 10000)
	}
	many := r.Intn(250) == 0
	if many {
		n, maxLen, cfg.MessageMaxCount = 33000+r.Intn(40000), 2, 80000
	}
	t.Label("codec=%s n=%d max=%d len=%d", cfg.CompressionType, n, cfg.MessageMaxCount, maxLen)
	bad := func(q *fake.Req, err error) { t.Violate("invalid batch produced", "%v", err) }
	c.OnBadBatch = bad
	c.OnBad = bad
	sp := simpleProducer(t, c, topic, part, cfg)
	var want []sent
	var added []int64 // when the message was handed over
	pause := -1
	if r.Intn(3) == 0 {
		pause = r.Intn(n)
	}
	t.Do("producing", 60*time.Second, func() {
		for i := 0; i < n; i++ {
			s := sent{key: randBytes(r, maxLen), val: randBytes(r, maxLen)}
			want = append(want, s)
			if i == pause {
				time.Sleep(time.Duration(2+r.Intn(6)) * time.Millisecond)
			}
			added = append(added, time.Now().UnixMilli())
			if err := sp.AddMessage(s.key, s.val); err != nil {
				t.Violate("sending failed on a healthy cluster", "AddMessage: %v", err)
			}
			if !many && r.Intn(40) == 0 {
				if err := sp.Flush(); err != nil {
					t.Violate("sending failed on a healthy cluster", "Flush: %v", err)
				}
			}
		}
		sp.Close()
	})
	end := time.Now().UnixMilli()
	var got []kproto.Rec
	for _, e := range c.Tr.Events() {
		if e.Kind != "req" || e.Key != kproto.Produce {
			continue
		}
		b := e.Body
		ts := b.Ms("topics")
		if len(ts) != 1 || ts[0].S("name") != topic || len(ts[0].Ms("partitions")) != 1 || ts[0].Ms("partitions")[0].I("index") != int64(part) {
			t.Violate("produce request for the wrong partition", "%v", trunc(fmt.Sprint(ts)))
			continue
		}
		if b.I("acks") != int64(cfg.Acks) || b.I("timeout_ms") != int64(cfg.RequestTimeoutMS) || b["transactional_id"] != nil {
			t.Violate("produce request does not carry the configured acks and timeout", "acks=%v timeout=%v transactional_id=%v", b["acks"], b["timeout_ms"], b["transactional_id"])
		}
		bts, err := kproto.DecodeBatches(ts[0].Ms("partitions")[0].B("records"))
		if err != nil {
			t.Violate("invalid batch produced", "%v", err)
			continue
		}
		for _, bt := range bts {
			if bt.Attr != codecs[cfg.CompressionType] {
				t.Violate("batch attributes", "attributes %x for compression %s", bt.Attr, cfg.CompressionType)
			}
			if bt.PID != -1 {
				t.Violate("batch producer id", "producer id %d of a producer that is not idempotent", bt.PID)
			}
			if len(bt.Recs) > cfg.MessageMaxCount || len(bt.Recs) == 0 {
				t.Violate("batch size", "%d messages in a batch, the limit is %d", len(bt.Recs), cfg.MessageMaxCount)
			}
			mx, start := int64(0), int64(0)
			if len(got) < len(added) {
				start = added[len(got)] // of the first one of the batch
			}
			for _, rec := range bt.Recs {
				if rec.Ts < start || rec.Ts > end {
					t.Violate("message timestamp", "timestamp %d, sent between %d and %d", rec.Ts, start, end)
				}
				mx = max(mx, rec.Ts)
			}
			if mx != bt.MaxTs {
				t.Violate("batch max timestamp", "%d, records say %d", bt.MaxTs, mx)
			}
			got = append(got, bt.Recs...)
			t.Eval(fmt.Sprintf("%s/%d/%d", cfg.CompressionType, len(bt.Recs), len(e.Raw)))
		}
	}
	if len(got) != len(want) {
		t.Fatal("number of messages", "%d messages sent, batches contain %d", len(want), len(got))
	}
	for i := range got {
		if !sameBytes(got[i].Key, want[i].key) || !sameBytes(got[i].Value, want[i].val) || len(got[i].Headers) != 0 {
			t.Violate("message altered", "message %d of %d: sent key %s value %s, on the wire key %s value %s headers %v", i, len(want), show(want[i].key), show(want[i].val), show(got[i].Key), show(got[i].Value), got[i].Headers)
		}
		t.EvalN(1)
	}
}

// ---- C09 -------------------------------------------------------------------

func runC09(t *T) {
	r := t.Rng
	if r.Intn(2) == 0 {
		runC09consume(t)
		return
	}
	c := cluster(t, 1+r.Intn(2))
	parts := 1 + r.Intn(3)
	c.AddTopic("t", parts)
	c.SetHook(jitter(r.Int63(), pick(r, 0, 2)))
	cfg := pconf(c)
	cfg.CompressionType = pick(r, "none", "gzip", "snappy", "lz4")
	cfg.MessageMaxCount = pick(r, 1, 4, 30, 1000)
	cfg.FlushIntervalMS = pick(r, never, 1, 3, 10)
	useProducer := r.Intn(2) == 0
	callers := pick(r, 1, 3, 6)
	per := 15 + r.Intn(40)
	t.Label("producer=%v codec=%s max=%d flush=%d callers=%d", useProducer, cfg.CompressionType, cfg.MessageMaxCount, cfg.FlushIntervalMS, callers)
	var sp *healer.SimpleProducer
	var pr *healer.Producer
	if useProducer {
		pr = producer(t, c, "t", cfg)
	} else {
		sp = simpleProducer(t, c, "t", 0, cfg)
	}
	all := make([][]sent, callers)
	seeds := make([]int64, callers)
	for i := range seeds {
		seeds[i] = r.Int63()
	}
	t.Do("producing", 90*time.Second, func() {
		var wg sync.WaitGroup
		for i := 0; i < callers; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				lr := rand.New(rand.NewSource(seeds[i]))
				// one pair of buffers, used again for every message
				kb, vb := make([]byte, 0, 64), make([]byte, 0, 4096)
				for n := 0; n < per; n++ {
					pad := lr.Intn(500)
					if lr.Intn(8) == 0 {
						pad = pick(lr, 512, 1024, 4096, 5000, 8192, 20000, 70000)
					}
					v := msgVal(lr, i, n, pad)
					s := sent{val: v, part: -1}
					if pr == nil {
						s.part = 0
					}
					vb = append(vb[:0], v...)
					var kk []byte
					if lr.Intn(4) > 0 {
						s.key = []byte(fmt.Sprintf("key-%d-%d", i, lr.Intn(9)))
						if lr.Intn(8) == 0 {
							s.key = append(s.key, bytes.Repeat([]byte{'k'}, pick(lr, 20, 60, 130, 600, 5000))...)
						}
						kb = append(kb[:0], s.key...)
						kk = kb
					}
					if pr != nil {
						s.err = pr.AddMessage(kk, vb)
					} else {
						s.err = sp.AddMessage(kk, vb)
					}
					all[i] = append(all[i], s)
					// scribble over the buffers as soon as the call returned
					for j := range vb {
						vb[j] = 0xEE
					}
					for j := range kb {
						kb[j] = 0xEE
					}
					yield(lr)
				}
			}(i)
		}
		wg.Wait()
		if pr != nil {
			pr.Close()
		} else {
			sp.Close()
		}
	})
	logs := map[int32][]kproto.Rec{}
	for i := 0; i < parts; i++ {
		logs[int32(i)] = c.Log("t", int32(i))
	}
	checkLogs(t, all, logs)
	t.Eval(fmt.Sprintf("produce/%v/%s/%d/%d/%d", useProducer, cfg.CompressionType, cfg.MessageMaxCount, cfg.FlushIntervalMS, callers))
}

// ---- C10 -------------------------------------------------------------------

func runC10(t *T) {
	r := t.Rng
	nodes := 1 + r.Intn(3)
	parts := pick(r, 1, 2, 3, 4, 5, 7, 12, 31)
	c := cluster(t, nodes)
	c.AddTopic("t", parts)
	if r.Intn(2) == 0 {
		sr := rand.New(rand.NewSource(r.Int63()))
		c.ShuffleParts = func(p []int) { sr.Shuffle(len(p), func(i, j int) { p[i], p[j] = p[j], p[i] }) }
	}
	nk := 40 * parts
	if nk > 500 {
		nk = 500
	}
	if parts == 31 {
		nk = 31 * 40
	}
	keys := map[string]bool{"": true}
	var ks [][]byte
	ks = append(ks, []byte{})
	for len(ks) < nk {
		l := pick(r, 1, 2, 3, 4, 5, 7, 8, 11, 16, 33, 200)
		if r.Intn(30) == 0 {
			l = pick(r, 127, 128, 256, 1000, 5000)
		}
		b := make([]byte, l)
		r.Read(b)
		if !keys[string(b)] {
			keys[string(b)] = true
			ks = append(ks, b)
		}
	}
	where := map[string]int32{}
	used := map[int32]bool{}
	producers := 2 + r.Intn(2)
	t.Label("nodes=%d parts=%d keys=%d producers=%d", nodes, parts, nk, producers)
	seen := map[int32]int{}
	scan := func() {
		for p := int32(0); int(p) < parts; p++ {
			l := c.Log("t", p)
			for _, rec := range l[seen[p]:] {
				k := string(rec.Key)
				if w, ok := where[k]; ok && w != p {
					t.Violate("equal keys in different partitions", "key %s went to partition %d and to partition %d", show(rec.Key), w, p)
				}
				where[k] = p
				used[p] = true
				t.EvalN(1)
			}
			seen[p] = len(l)
		}
	}
	for i := 0; i < producers; i++ {
		cfg := pconf(c)
		cfg.MessageMaxCount = pick(r, 1, 5, 100)
		cfg.CompressionType = pick(r, "none", "gzip", "snappy", "lz4")
		cfg.FlushIntervalMS = pick(r, never, 2)
		cfg.MetadataMaxAgeMS = pick(r, never, 5)
		moving := r.Intn(4) == 0 && nodes > 1 && parts > 1
		if moving {
			cfg.MetadataMaxAgeMS = pick(r, 5, 15, 30)
		}
		cfg.ClientID = uniqNames(r, 1, 20)[0]
		p := producer(t, c, "t", cfg)
		callers := pick(r, 1, 4)
		subset := ks
		if i > 0 {
			subset = append([][]byte(nil), ks...)
			r.Shuffle(len(subset), func(a, b int) { subset[a], subset[b] = subset[b], subset[a] })
			subset = subset[:len(subset)/2+1]
		}
		t.Do("producing", 90*time.Second, func() {
			var wg sync.WaitGroup
			for g := 0; g < callers; g++ {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					for j, k := range subset {
						if j%callers != g {
							continue
						}
						if err := p.AddMessage(k, []byte(fmt.Sprint(i, j))); err != nil {
							t.Violate("sending failed on a healthy cluster", "AddMessage: %v", err)
						}
					}
				}(g)
			}
			wg.Wait()
			if moving { // some sends fail until the producer has noticed
				if err := p.Flush(); err != nil {
					t.Violate("sending failed on a healthy cluster", "Flush: %v", err)
				}
				for q := int32(0); int(q) < parts; q++ {
					if r.Intn(3) == 0 {
						c.SetLeader("t", q, int32(1+r.Intn(nodes)))
					}
				}
				end := time.Now().Add(time.Duration(cfg.MetadataMaxAgeMS)*time.Millisecond + 20*time.Millisecond)
				for j := 0; time.Now().Before(end); j++ {
					p.AddMessage(subset[r.Intn(len(subset))], []byte(fmt.Sprint(i, "moving", j)))
					if j%10 == 0 {
						time.Sleep(time.Millisecond)
					}
				}
				t.Eval("leaders moved under a producer")
			}
			p.Close()
		})
		scan()
		if i == 0 && r.Intn(2) == 0 && nodes > 1 {
			// leaders move, the partition count stays
			for p := int32(0); int(p) < parts; p++ {
				c.SetLeader("t", p, int32(1+r.Intn(nodes)))
			}
		}
	}
	if len(where) != len(ks) {
		t.Violate("keyed messages lost", "%d distinct keys sent, %d stored", len(ks), len(where))
	}
	if len(used) != parts {
		t.Violate("keys are not spread over the partitions", "%d random keys, %d partitions, only %d are used", nk, parts, len(used))
	}
	t.Eval(fmt.Sprintf("%d parts %d nodes %d producers", parts, nodes, producers))
	t.Sample("%d keys over %d partitions", nk, parts)
}

func init() {
	base := []string{"The fake cluster implements Produce v9 as Kafka brokers do.", "Failures of the timed background flush are only logged by design; they are not part of this property."}
	mon.Register(&mon.Prop{ID: "C06", Level: "exploration", Rule: "distinct producer set-ups and distinct interleavings of the callers' messages in the partition logs (il:)",
		N: map[string]int{"quick": 2500, "thorough": 60000}, Par: 3, Run: runC06, Assumptions: base, Required: []string{"simple/", "producer/", "many/", "il:"}})
	mon.Register(&mon.Prop{ID: "C07", Level: "exploration", Rule: "distinct (way of sending, fault, error code, outcome)",
		N: map[string]int{"quick": 2500, "thorough": 60000}, Par: 4, Run: runC07, Assumptions: base, Required: []string{"flush/", "fill/", "producer/", "flush all/1 of 2", "flush all/1 of 3"}})
	mon.Register(&mon.Prop{ID: "C08", Level: "exploration", Rule: "distinct (codec, records in the batch, request length)",
		N: map[string]int{"quick": 3000, "thorough": 80000}, Par: 2, Run: runC08, Assumptions: base, Required: []string{"none/", "gzip/", "snappy/", "lz4/"}})
	mon.Register(&mon.Prop{ID: "C09", Level: "exploration", Rule: "distinct set-ups and interleavings (il:) of producers whose callers overwrite their buffers, and of consumers whose messages are kept",
		N: map[string]int{"quick": 2000, "thorough": 60000}, Par: 3, Run: runC09, Assumptions: base, Required: []string{"produce/", "consume/"}})
	mon.Register(&mon.Prop{ID: "C10", Level: "exploration", Rule: "distinct (partitions, nodes, producers) set-ups",
		N: map[string]int{"quick": 250, "thorough": 8000}, Par: 2, Run: runC10, Assumptions: base})
}
