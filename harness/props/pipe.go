package props

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"math/rand"
	"net"
	"os/exec"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/childe/healer"

	"verif/harness/fake"
	"verif/harness/kproto"
	"verif/harness/mon"
)

// ---- C25: credentials of the HTTP API ----------------------------------------------

var apiCreds = []string{"admin:secret", "u:p:q:", "ünï:pä ss\"\\", ":only", "only:", "Admin:Secret"}

// badAuth is an Authorization header that does not carry the credentials.
func badAuth(r *rand.Rand, cred string) (map[string]string, string) {
	i := strings.Index(cred, ":")
	u, p := cred[:i], cred[i+1:]
	b64 := func(s string) string { return base64.StdEncoding.EncodeToString([]byte(s)) }
	kind := pick(r, "none", "none", "empty", "no token", "user only", "other user", "other password", "longer password", "shorter password", "swapped", "case", "space", "two fields", "bearer", "plain text", "not base64", "url", "other header", "random")
	basic := func(s string) map[string]string { return map[string]string{"Authorization": "Basic " + b64(s)} }
	switch kind {
	case "none":
		return nil, kind
	case "empty":
		return map[string]string{"Authorization": ""}, kind
	case "no token":
		return map[string]string{"Authorization": pick(r, "Basic", "Basic ")}, kind
	case "user only":
		return basic(u), kind
	case "other user":
		return basic(pick(r, "x", u+"x", u+" ", "root") + ":" + p), kind
	case "other password":
		return basic(u + ":" + pick(r, "x", "*", p+p+"x", "password")), kind
	case "longer password":
		return basic(u + ":" + p + pick(r, " ", "\n", "\x00", ":", "x")), kind
	case "shorter password":
		if p == "" {
			return basic(u + ":" + "x"), kind
		}
		return basic(u + ":" + p[:len(p)-1]), kind
	case "swapped":
		if u == p {
			return nil, "none"
		}
		return basic(p + ":" + u), kind
	case "case":
		if s := strings.ToUpper(cred); s != cred {
			return basic(s), kind
		}
		return nil, "none"
	case "space":
		return basic(" " + cred), kind
	case "two fields":
		return basic(u + "::" + p + ":"), kind
	case "bearer":
		return map[string]string{"Authorization": pick(r, "Bearer ", "Digest ", "Basic2 ", "") + b64(cred)}, kind
	case "plain text":
		return map[string]string{"Authorization": "Basic %" + fmt.Sprintf("%x", cred)}, kind
	case "not base64":
		return map[string]string{"Authorization": "Basic !!!" + b64(cred)}, kind
	case "url":
		return map[string]string{"X-User": u, "X-Password": p}, kind
	case "other header":
		return map[string]string{pick(r, "Proxy-Authorization", "X-Authorization", "Cookie"): "Basic " + b64(cred)}, kind
	}
	return basic(string(randBytes(r, 20)) + "\x01"), "random"
}

// served demands that the request is not refused and reaches the brokers.
func (s *toolState) served(o *top, head map[string]string) {
	q := *o.http
	q.head = head
	before := s.c.Tr.Len()
	x := apiWith(s.t, s.flags...).do(s.t, q)
	conns := 0
	for _, e := range s.c.Tr.Events()[before:] {
		if e.Kind == "conn" {
			conns++
		}
	}
	if x.code == 401 || conns == 0 {
		s.t.Violate("allowed request is not served", "flags %q, header %v\n%s\n%s\n%d connections to the brokers", s.flags, head, q, x, conns)
	}
}

func runC25(t *T) {
	r := t.Rng
	s := newToolState(t)
	cred := apiCreds[r.Intn(len(apiCreds))]
	if r.Intn(25) == 0 {
		t.Label("malformed credentials in the arguments")
		x := tool(t, "api", nil, "api", "-a", "127.0.0.1", "-p", "0", "--auth", pick(r, "nocolon", "x", "user pass", "user;pass"))
		if x.code == 0 {
			t.Violate("the server starts with credentials that cannot be given", "%s", x)
		}
		t.Eval("malformed")
	}
	if r.Intn(40) == 0 {
		t.Label("an address that is taken")
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err == nil {
			x := tool(t, "api", nil, "api", "-a", "127.0.0.1", "-p", strconv.Itoa(l.Addr().(*net.TCPAddr).Port), "--auth", cred)
			l.Close()
			if x.code == 0 {
				t.Violate("a server that cannot listen reports success", "%s", x)
			}
			t.Eval("address taken")
		}
	}
	getAllowed := r.Intn(3) == 0
	cors := r.Intn(4) == 0
	s.flags = []string{"--auth", cred}
	if getAllowed {
		s.flags = append(s.flags, "--get-allowed")
	}
	if cors {
		s.flags = append(s.flags, "--cors")
	}
	good := map[string]string{"Authorization": "Basic " + base64.StdEncoding.EncodeToString([]byte(cred))}
	ops := append(append([]func(*toolState) *top{}, readOps...), writeOps...)
	for n := 2 + r.Intn(4); n > 0; n-- {
		var o *top
		for o == nil || o.http == nil || o.bad {
			o = ops[r.Intn(len(ops))](s)
		}
		free := getAllowed && (o.http.method == "GET" || o.http.method == "HEAD" || o.http.method == "OPTIONS")
		if r.Intn(3) == 0 {
			s.served(o, good)
			t.Eval("credentials given")
			continue
		}
		h, kind := badAuth(r, cred)
		if free {
			s.served(o, h)
			t.Eval("get allowed, " + kind)
			continue
		}
		q := *o.http
		q.head = h
		switch r.Intn(12) {
		case 0: // other methods and paths
			q.method = pick(r, "PUT", "PATCH", "HEAD", "OPTIONS", "DELETE", "POST", "GET", "TRACE")
		case 1:
			q.path = pick(r, "/", "/health", "/swagger/index.html", "/metadata", "/nothing", "/groups")
		}
		if getAllowed && (q.method == "GET" || q.method == "HEAD" || q.method == "OPTIONS") {
			continue
		}
		before := s.c.Tr.Len()
		x := apiWith(t, s.flags...).do(t, q)
		t.Label("%s %s with %s", q.method, o.name, kind)
		if x.code != 401 {
			t.Violate("request without the credentials is not refused", "credentials %q, header %v (%s)\n%s\n%s", cred, h, kind, q, x)
		}
		if len(x.body) > 0 && x.code == 401 && bytes.Contains(x.body, []byte("{")) {
			t.Violate("refused request is answered with data", "%s\n%s", q, x)
		}
		for _, e := range s.c.Tr.Events()[before:] {
			if e.Kind == "req" {
				t.Violate("refused request reaches a broker", "credentials %q, header %v (%s)\n%s\n%s", cred, h, kind, q, e)
				break
			}
		}
		t.Eval(o.http.method + " " + o.name + ", " + kind)
		t.Eval("refused, " + kind)
	}
	if cors {
		o := readOps[r.Intn(len(readOps))](s)
		if o.http == nil || o.bad {
			return
		}
		q := *o.http
		q.head = good
		if x := apiWith(t, s.flags...).do(t, q); x.head.Get("Access-Control-Allow-Origin") != "*" {
			t.Violate("no cors header", "%s: %v", q, x.head)
		}
		q.method = "OPTIONS"
		if x := apiWith(t, s.flags...).do(t, q); x.code != 204 {
			t.Violate("preflight request is not answered", "%s: %s %v", q, x, x.head)
		}
		t.Eval("cors")
	}
}

// ---- C27: the console commands -----------------------------------------------------

// line is one line of text without the characters that end a line.
func line(r *rand.Rand, max int) []byte {
	b := randBytes(r, max)
	for i := range b {
		if b[i] == '\n' || b[i] == '\r' {
			b[i] = 'n'
		}
	}
	return b
}

func pipeCluster(t *T) (*fake.Cluster, string, int) {
	r := t.Rng
	c := cluster(t, 1+r.Intn(3))
	wireMonitor(t, c)
	topic := topicName(r)
	n := 1 + r.Intn(4)
	c.AddTopic(topic, n)
	return c, topic, n
}

func configFlag(r *rand.Rand, m map[string]any) []string {
	for k, v := range m {
		if r.Intn(2) == 0 {
			m[k] = fmt.Sprint(v)
		}
	}
	return []string{"--config", toJSON(m)}
}

func waitLog(t *T, n int, f func() int) {
	for dl := time.Now().Add(t.Limit(20 * time.Second)); f() < n && time.Now().Before(dl); {
		time.Sleep(2 * time.Millisecond)
	}
}

func runPipeProduce(t *T) {
	r := t.Rng
	c, topic, n := pipeCluster(t)
	simple := r.Intn(2) == 0
	part := int32(r.Intn(n))
	scene := pick(r, "ok", "ok", "ok", "long line", "rejected", "fault")
	acks := pick(r, -1, 1, 1, 1)
	if scene == "ok" {
		acks = pick(r, -1, 0, 1, 1)
	}
	cfg := map[string]any{"acks": acks, "message.max.count": pick(r, 1, 2, 7, 100, 1024), "compress.type": pick(r, "none", "gzip", "snappy", "lz4"),
		"flush.interval.ms": pick(r, 1, 5, 200, 3600000), "retry.backoff.ms": 5}
	if scene != "ok" {
		cfg["flush.interval.ms"] = 3600000
	}
	var lines [][]byte
	var in bytes.Buffer
	count := pick(r, 0, 1, 2, 5, r.Intn(300), r.Intn(3000))
	if scene == "rejected" && count == 0 {
		count = 1
	}
	for i := 0; i < count; i++ {
		b := line(r, pick(r, 5, 60, 60, 3000, 60000))
		if r.Intn(8) > 0 {
			b = append([]byte(fmt.Sprintf("%d.", i)), b...)
		} else if len(b) > 3 {
			b = nil
		}
		if in.Len() > 4<<20 {
			break
		}
		lines = append(lines, b)
	}
	if scene == "long line" {
		at := r.Intn(len(lines) + 1)
		lines = append(lines[:at], append([][]byte{bytes.Repeat([]byte("x"), 65536+r.Intn(100000))}, lines[at:]...)...)
	}
	for i, b := range lines {
		in.Write(b)
		if i < len(lines)-1 || len(b) == 0 || r.Intn(2) == 0 {
			in.WriteByte('\n')
		}
	}
	cmd := "console-producer"
	args := []string{}
	if simple {
		cmd = "simple-producer"
		args = append(args, "--partition", fmt.Sprint(part))
	}
	if r.Intn(2) == 0 {
		args = append(args, "-c", "me")
	}
	args = append(append([]string{cmd, "-b", c.Bootstrap(), pick(r, "-t", "--topic"), topic}, args...), configFlag(r, cfg)...)
	faults := 0
	hook := newRand(r.Int63())
	var hookMu sync.Mutex
	if scene == "rejected" || scene == "fault" {
		code := pick(r, int64(2), 3, 5, 6, 7, 10, 17, 19, 20, 29)
		drop := scene == "fault"
		c.SetHook(func(q *fake.Req) *fake.Fault {
			if q.H.Key != kproto.Produce || q.Body == nil {
				return nil
			}
			hookMu.Lock()
			defer hookMu.Unlock()
			if drop {
				if hook.Intn(4) == 0 {
					faults++
					return pick(hook, &fake.Fault{CloseBefore: true}, &fake.Fault{CloseAfter: true}, &fake.Fault{TruncateAt: 1 + hook.Intn(8)})
				}
				return nil
			}
			faults++
			ts := []any{}
			for _, x := range q.Body.Ms("topics") {
				ps := []any{}
				for _, y := range x.Ms("partitions") {
					ps = append(ps, M{"index": y.I("index"), "error_code": code, "base_offset": int64(-1), "log_append_time": int64(-1), "log_start_offset": int64(0), "record_errors": []any{}, "error_message": nil})
				}
				ts = append(ts, M{"name": x.S("name"), "partitions": ps})
			}
			return &fake.Fault{SkipProcess: true, Body: func(M) M { return M{"responses": ts} }}
		})
	}
	t.Label("%s %s", cmd, scene)
	x := tool(t, cmd, in.Bytes(), args...)
	c.SetHook(nil)
	total := func() (k int) {
		for p := 0; p < n; p++ {
			k += len(c.Log(topic, int32(p)))
		}
		return
	}
	if x.code == 0 && acks == 0 {
		waitLog(t, len(lines), total)
	}
	desc := func() string { return fmt.Sprintf("%q\n%d lines, %d faults\n%s", args, len(lines), faults, x) }
	switch scene {
	case "ok":
		if x.code != 0 {
			t.Violate("producing fails although all brokers are up", "%s", desc())
		}
	case "long line", "rejected":
		if x.code == 0 {
			t.Violate("lines are not written and the command reports success", "%s", desc())
		}
	}
	left := append([][]byte{}, lines...)
	for p := int32(0); p < int32(n); p++ {
		i := 0
		for _, rec := range c.Log(topic, p) {
			if simple && p != part {
				t.Violate("line written to another partition", "%s-%d instead of %d\n%s", topic, p, part, desc())
			}
			if rec.Key != nil || rec.Value == nil {
				t.Violate("line written with a key or without a value", "%v\n%s", rec, desc())
			}
			if scene == "fault" { // written at least once
				continue
			}
			for i < len(left) && !(left[i] != nil && bytes.Equal(left[i], rec.Value) || left[i] == nil && len(rec.Value) == 0) {
				i++
			}
			if i == len(left) {
				t.Violate("the log differs from the lines", "%s-%d: offset %d %s is not (or not in this order) among the lines\n%s", topic, p, rec.Offset, show(rec.Value), desc())
				return
			}
			left = append(left[:i:i], left[i+1:]...)
		}
	}
	if x.code == 0 && scene != "fault" && len(left) > 0 {
		t.Violate("lines are not written and the command reports success", "%d lines are missing, the first is %s\n%s", len(left), show(left[0]), desc())
	}
	if x.code == 0 && scene == "fault" {
		have := map[string]int{}
		for p := int32(0); p < int32(n); p++ {
			for _, rec := range c.Log(topic, p) {
				have[string(rec.Value)]++
			}
		}
		need := map[string]int{}
		for _, l := range lines {
			need[string(l)]++
		}
		for l, k := range need {
			if have[l] < k {
				t.Violate("lines are not written and the command reports success", "%s is there %d times instead of %d\n%s", show([]byte(l)), have[l], k, desc())
				break
			}
		}
	}
	t.Eval(cmd + " " + scene)
	t.Sample("%s %s: %d lines, %d records, %d faults, exit %d", cmd, scene, len(lines), total(), faults, x.code)
}

// fill writes generated records into the partitions.
func fillPipe(t *T, c *fake.Cluster, topic string, n int, text bool) *logGen {
	r := t.Rng
	g := &logGen{r: r, kinds: []string{"v2", "v2", "compacted", "empty", "control", "v1", "v0"}, next: map[string]int64{}, ts: 1600000000000, maxV: pick(r, 20, 20, 300, 5000), maxN: pick(r, 3, 20)}
	if text {
		id := 0
		g.val = func() []byte {
			id++
			return append([]byte(fmt.Sprintf("%d.", id)), line(r, g.maxV)...)
		}
	}
	for p := int32(0); p < int32(n); p++ {
		tp := fmt.Sprintf("%s/%d", topic, p)
		if r.Intn(3) == 0 {
			start := int64(r.Intn(1000))
			g.next[tp] = start
			c.Mu.Lock()
			c.Topics[topic].Parts[p].LogStart, c.Topics[topic].Parts[p].HW = start, start
			c.Mu.Unlock()
		}
		for k := r.Intn(6); k > 0; k-- {
			ch, _ := g.chunk(tp)
			c.Append(topic, p, ch)
		}
	}
	return g
}

func consumerFlags(r *rand.Rand, more map[string]any) []string {
	m := map[string]any{"fetch.max.wait.ms": 20, "retry.backoff.ms": 5, "fetch.max.bytes": pick(r, 500, 10000, 1<<20)}
	for k, v := range more {
		m[k] = v
	}
	return configFlag(r, m)
}

func runPipeSimpleConsume(t *T) {
	r := t.Rng
	c, topic, n := pipeCluster(t)
	g := fillPipe(t, c, topic, n, false)
	p := int32(r.Intn(n))
	if len(c.Log(topic, p)) == 0 {
		g.kinds = []string{"v2"}
		ch, _ := g.chunk(fmt.Sprintf("%s/%d", topic, p))
		c.Append(topic, p, ch)
	}
	fromEnd := r.Intn(4) == 0
	var recs []kproto.Rec
	from := int64(-2)
	if !fromEnd {
		recs = c.Log(topic, p)
		if r.Intn(2) == 0 {
			from = recs[r.Intn(len(recs))].Offset
			for recs[0].Offset < from {
				recs = recs[1:]
			}
		}
	}
	c.Mu.Lock()
	hw := c.Topics[topic].Parts[p].HW
	c.Mu.Unlock()
	later := []fake.Chunk{}
	if fromEnd {
		from = -1
		g.kinds = []string{"v2", "v2", "empty"}
		for len(recs) == 0 || r.Intn(2) == 0 {
			g.next[fmt.Sprintf("%s/%d", topic, p)] = hw
			ch, _ := g.chunk(fmt.Sprintf("%s/%d", topic, p))
			hw = ch.Last + 1
			later = append(later, ch)
			recs = append(recs, ch.Recs...)
		}
	}
	args := []string{"simple-consumer", "--brokers", c.Bootstrap(), "-t", topic}
	if p > 0 || r.Intn(2) == 0 {
		args = append(args, "--partition", fmt.Sprint(p))
	}
	if !fromEnd || r.Intn(2) == 0 {
		args = append(args, fmt.Sprintf("--offset=%d", from))
	}
	max := 0
	if r.Intn(2) == 0 || fromEnd {
		max = 1 + r.Intn(len(recs))
	}
	if max == 0 || r.Intn(3) == 0 {
		stop := recs[r.Intn(len(recs))].Offset - int64(r.Intn(2))
		if stop <= 0 && max == 0 {
			max = 1 + r.Intn(len(recs))
		}
		if stop > 0 {
			args = append(args, fmt.Sprintf("--stopoffset=%d", stop))
			for i, x := range recs {
				if x.Offset >= stop {
					recs = recs[:i]
					break
				}
			}
		}
	}
	if max > 0 {
		args = append(args, fmt.Sprintf("--max-messages=%d", max))
		recs = recs[:min(max, len(recs))]
	}
	js, po := r.Intn(3) == 0, r.Intn(2) == 0
	if js {
		args = append(args, "--json")
	}
	if !po || r.Intn(2) == 0 {
		args = append(args, fmt.Sprintf("--printoffset=%v", po))
	}
	args = append(args, consumerFlags(r, nil)...)
	if fromEnd {
		base := c.Tr.Len()
		go func() {
			c.Tr.WaitFor(base, 100*time.Second, func(e *fake.Ev) bool { return e.Kind == "resp" && e.Key == kproto.ListOffsets })
			for _, ch := range later {
				c.Append(topic, p, ch)
			}
		}()
	}
	t.Label("simple-consumer json=%v end=%v", js, fromEnd)
	x := tool(t, "simple-consumer", nil, args...)
	desc := fmt.Sprintf("%q\n%s", args, x)
	if x.code != 0 {
		t.Violate("consuming fails although all brokers are up", "%s", desc)
	}
	if js {
		ls := bytes.Split(bytes.TrimSuffix(x.out, []byte("\n")), []byte("\n"))
		if len(x.out) == 0 {
			ls = nil
		}
		if len(ls) != len(recs) {
			t.Fatal("output differs from the log", "%d messages instead of %d\n%s", len(ls), len(recs), desc)
		}
		for i, l := range ls {
			var m healer.Message
			if d := jsonInto(l, &m); d != "" {
				t.Fatal("output differs from the log", "%s: %s\n%s", d, l, desc)
			}
			d := diffMsg(&healer.FullMessage{TopicName: topic, PartitionID: p, Message: &m}, recs[i], topic, p)
			if m.Offset != recs[i].Offset {
				d = fmt.Sprintf("offset %d, stored %d", m.Offset, recs[i].Offset)
			}
			if d != "" {
				t.Fatal("output differs from the log", "message %d: %s\n%s", i, d, desc)
			}
		}
	} else {
		var want bytes.Buffer
		for _, x := range recs {
			if po {
				fmt.Fprintf(&want, "%d: ", x.Offset)
			}
			want.Write(x.Value)
			want.WriteByte('\n')
		}
		if !bytes.Equal(want.Bytes(), x.out) {
			i := 0
			for i < len(x.out) && i < want.Len() && x.out[i] == want.Bytes()[i] {
				i++
			}
			t.Violate("output differs from the log", "%d bytes instead of %d, first difference at %d: %s instead of %s\n%s", len(x.out), want.Len(), i, show(x.out[i:]), show(want.Bytes()[i:]), desc)
		}
	}
	t.Eval(fmt.Sprintf("simple-consumer json=%v offset=%v end=%v stop=%v", js, po, fromEnd, strings.Contains(desc, "--stopoffset")))
	t.Sample("simple-consumer: %d messages from %d", len(recs), from)
}

// printed parses the output of a consumer of several partitions; the values identify the messages.
type printed struct {
	part int32
	rec  kproto.Rec
}

var groupLine = regexp.MustCompile(`(?s)^(.*?):(-?\d+):(-?\d+): (.*)$`)

func parsePrinted(t *T, out []byte, kind, topic string, js, po bool, byVal map[string]printed, desc string) (got []printed) {
	if len(out) == 0 {
		return nil
	}
	for _, l := range bytes.Split(bytes.TrimSuffix(out, []byte("\n")), []byte("\n")) {
		bad := func(f string, a ...any) {
			t.Fatal("output differs from the log", "line %s: %s\n%s", show(l), fmt.Sprintf(f, a...), desc)
		}
		if js {
			var m healer.FullMessage
			if d := jsonInto(l, &m); d != "" {
				bad("%s", d)
			}
			if m.Message == nil {
				bad("no message")
			}
			w, ok := byVal[string(m.Message.Value)]
			if !ok {
				bad("no such message")
			}
			if d := diffMsg(&m, w.rec, topic, w.part); d != "" {
				bad("%s", d)
			}
			if m.Message.Offset != w.rec.Offset {
				bad("offset %d, stored %d", m.Message.Offset, w.rec.Offset)
			}
			got = append(got, w)
			continue
		}
		v := l
		off, part := int64(-1), int32(-1)
		if kind == "group-consumer" {
			m := groupLine.FindSubmatch(l)
			if m == nil || string(m[1]) != topic {
				bad("not topic:partition:offset: value")
			}
			x, _ := strconv.Atoi(string(m[2]))
			part = int32(x)
			off, _ = strconv.ParseInt(string(m[3]), 10, 64)
			v = m[4]
		} else if po {
			i := bytes.Index(l, []byte(": "))
			if i < 0 {
				bad("not offset: value")
			}
			o, err := strconv.ParseInt(string(l[:i]), 10, 64)
			if err != nil {
				bad("not offset: value")
			}
			off, v = o, l[i+2:]
		}
		w, ok := byVal[string(v)]
		if !ok || off >= 0 && off != w.rec.Offset || part >= 0 && part != w.part {
			bad("no such message (%d %d)", part, off)
		}
		got = append(got, w)
	}
	return got
}

// inOrder demands that the messages of each partition are the next ones of its log.
func inOrder(t *T, got []printed, logs map[int32][]kproto.Rec, desc string) {
	for _, g := range got {
		l := logs[g.part]
		if len(l) == 0 || l[0].Offset != g.rec.Offset {
			next := int64(-1)
			if len(l) > 0 {
				next = l[0].Offset
			}
			t.Fatal("message skipped, repeated or out of order", "partition %d: offset %d, the next one is %d\n%s", g.part, g.rec.Offset, next, desc)
		}
		logs[g.part] = l[1:]
	}
}

func byValue(c *fake.Cluster, topic string, n int) (map[string]printed, map[int32][]kproto.Rec, int) {
	m, logs, k := map[string]printed{}, map[int32][]kproto.Rec{}, 0
	for p := int32(0); p < int32(n); p++ {
		logs[p] = c.Log(topic, p)
		for _, x := range logs[p] {
			m[string(x.Value)] = printed{p, x}
			k++
		}
	}
	return m, logs, k
}

func runPipeConsume(t *T) {
	r := t.Rng
	c, topic, n := pipeCluster(t)
	g := fillPipe(t, c, topic, n, true)
	parts := []int{}
	if r.Intn(2) == 0 {
		for p := 0; p < n; p++ {
			if r.Intn(2) == 0 {
				parts = append(parts, p)
			}
		}
	}
	ch, _ := func() (fake.Chunk, string) {
		g.kinds = []string{"v2"}
		p := 0
		if len(parts) > 0 {
			p = parts[0]
		}
		ch, k := g.chunk(fmt.Sprintf("%s/%d", topic, p))
		c.Append(topic, int32(p), ch)
		return ch, k
	}()
	_ = ch
	byVal, logs, total := byValue(c, topic, n)
	args := []string{"console-consumer", "-b", c.Bootstrap(), "-t", topic}
	if len(parts) > 0 {
		s := []string{}
		for _, p := range parts {
			s = append(s, fmt.Sprint(p))
		}
		args = append(args, "--partitions", strings.Join(s, ","))
		for p := range logs {
			if !contains(parts, int(p)) {
				total -= len(logs[p])
				logs[p] = nil
			}
		}
	}
	js, po := r.Intn(3) == 0, r.Intn(2) == 0
	if js {
		args = append(args, "--json")
	}
	if !po || r.Intn(2) == 0 {
		args = append(args, fmt.Sprintf("--printoffset=%v", po))
	}
	max := pick(r, total, total, 1+r.Intn(total))
	args = append(args, fmt.Sprintf("--max-messages=%d", max))
	args = append(args, consumerFlags(r, map[string]any{"from.beginning": true})...)
	t.Label("console-consumer json=%v", js)
	x := tool(t, "console-consumer", nil, args...)
	desc := fmt.Sprintf("%q\n%s", args, x)
	if x.code != 0 {
		t.Violate("consuming fails although all brokers are up", "%s", desc)
	}
	got := parsePrinted(t, x.out, "console-consumer", topic, js, po, byVal, desc)
	inOrder(t, got, logs, desc)
	if len(got) != max {
		t.Violate("output differs from the log", "%d messages instead of %d\n%s", len(got), max, desc)
	}
	t.Eval(fmt.Sprintf("console-consumer json=%v offset=%v some=%v all=%v", js, po, len(parts) > 0, max == total))
	t.Sample("console-consumer: %d of %d messages of %d partitions", max, total, n)
}

func contains(xs []int, x int) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

// runPipeGroup runs group consumers one after the other, which are ended by their limit or by an interrupt.
func runPipeGroup(t *T) {
	r := t.Rng
	c, topic, n := pipeCluster(t)
	g := fillPipe(t, c, topic, n, true)
	g.kinds, g.maxN = []string{"v2"}, pick(r, 5, 200)
	for k := 1 + r.Intn(4); k > 0; k-- {
		p := r.Intn(n)
		ch, _ := g.chunk(fmt.Sprintf("%s/%d", topic, p))
		c.Append(topic, int32(p), ch)
	}
	byVal, logs, total := byValue(c, topic, n)
	left, runs := total, 0
	group := groupName(r)
	how := []string{}
	for left > 0 {
		runs++
		max := 1 + r.Intn(left)
		if runs >= 4 || r.Intn(3) == 0 {
			max = left
		}
		js := r.Intn(3) == 0
		args := []string{"group-consumer", "-b", c.Bootstrap(), "-t", topic, pick(r, "-g", "--group"), group}
		if js {
			args = append(args, "--json")
		}
		interrupt := r.Intn(3) == 0
		if !interrupt {
			args = append(args, fmt.Sprintf("--max-messages=%d", max))
		}
		args = append(args, consumerFlags(r, map[string]any{"from.beginning": true, "session.timeout.ms": 6000, "auto.commit.interval.ms": pick(r, 10, 5000)})...)
		t.Label("group-consumer run %d interrupt=%v", runs, interrupt)
		var x toolRun
		if interrupt {
			how = append(how, "interrupt")
			x = interrupted(t, args, max)
		} else {
			how = append(how, fmt.Sprint(max))
			x = tool(t, "group-consumer", nil, args...)
		}
		desc := fmt.Sprintf("run %d (%v), %d messages left\n%q\n%s", runs, how, left, args, x)
		if x.code != 0 {
			t.Violate("consuming fails although all brokers are up", "%s", desc)
		}
		got := parsePrinted(t, x.out, "group-consumer", topic, js, true, byVal, desc)
		inOrder(t, got, logs, desc)
		if !interrupt && len(got) != max || interrupt && len(got) < max {
			t.Violate("output differs from the log", "%d messages instead of %d\n%s", len(got), max, desc)
		}
		left -= len(got)
		if _, _, ms := c.GroupState(group); len(ms) > 0 {
			t.Violate("consumer has not left its group", "%v\n%s", ms, desc)
		}
		for p, l := range logs {
			want := int64(-1)
			if len(l) > 0 {
				want = l[0].Offset
			}
			if cm := c.Committed(group, topic, p); len(l) > 0 && cm > want {
				t.Violate("messages that were not printed are committed", "%s-%d: committed %d, the next message is %d\n%s", topic, p, cm, want, desc)
			}
		}
		t.Eval(fmt.Sprintf("group-consumer json=%v interrupt=%v run %d", js, interrupt, min(runs, 3)))
	}
	t.Sample("group-consumer: %d messages in %d runs %v", total, runs, how)
}

// interrupted runs the tool and interrupts it when n lines have been printed.
func interrupted(t *T, args []string, n int) toolRun {
	cmd := exec.Command(toolPath(), args...)
	out, log := &lineCounter{n: n, hit: make(chan struct{})}, &lockedBuf{}
	cmd.Stdout, cmd.Stderr = out, log
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.WaitDelay = time.Minute
	if err := cmd.Start(); err != nil {
		panic("HARNESS: " + err.Error())
	}
	done := make(chan struct{})
	var late bool
	go func() { late = cmd.Wait() == exec.ErrWaitDelay; close(done) }()
	stopped := func(what string) {
		select {
		case <-done:
		case <-time.After(t.Limit(100 * time.Second)):
			cmd.Process.Kill()
			t.Hang(what, "%q\n%s", args, log.tail())
		}
	}
	select {
	case <-out.hit:
	case <-done:
	case <-time.After(t.Limit(100 * time.Second)):
		cmd.Process.Kill()
		t.Hang("messages are not printed", "%q\n%d lines not printed of %d\n%s", args, out.n, n, log.tail())
	}
	cmd.Process.Signal(syscall.SIGINT)
	stopped("command does not end when interrupted")
	if late {
		t.Hang("output does not end", "%q", args)
	}
	return toolRun{out: out.bytes(), log: []byte(log.tail()), code: cmd.ProcessState.ExitCode()}
}

type lineCounter struct {
	mu  sync.Mutex
	b   []byte
	n   int // lines still to come
	hit chan struct{}
}

func (l *lineCounter) Write(b []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.b = append(l.b, b...)
	if l.n > 0 {
		if l.n -= bytes.Count(b, []byte("\n")); l.n <= 0 {
			close(l.hit)
		}
	}
	return len(b), nil
}

func (l *lineCounter) bytes() []byte {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b
}

// runPipeBad gives the console commands arguments they cannot use.
func runPipeBad(t *T) {
	r := t.Rng
	c, topic, _ := pipeCluster(t)
	cmd := pick(r, "console-producer", "simple-producer", "console-consumer", "simple-consumer", "group-consumer")
	kind := pick(r, "no topic", "config", "config", "value", "brokers", "number")
	b := c.Bootstrap()
	if kind == "brokers" {
		for id := range c.Nodes {
			c.StopNode(id)
		}
	}
	args := []string{cmd, "-b", b}
	if kind != "no topic" {
		args = append(args, "-t", topic)
	}
	if cmd == "group-consumer" {
		if kind == "no topic" && r.Intn(2) == 0 {
			args = append(args, "-t", topic) // no group
		} else {
			args = append(args, "-g", "g")
		}
	}
	switch kind {
	case "config":
		args = append(args, "--config", pick(r, "{", "x", `{"acks"=1}`, `{"acks":1`, "[1]", `"x"`, "12"))
	case "value":
		args = append(args, "--config", pick(r, `{"acks":"x","session.timeout.ms":"x"}`, `{"message.max.count":[1],"fetch.max.bytes":[1]}`, `{"flush.interval.ms":"1h","fetch.max.wait.ms":"1h"}`, `{"compress.type":"zip","session.timeout.ms":{}}`))
	case "number":
		switch cmd {
		case "simple-producer":
			args = append(args, "--partition", pick(r, "x", "1.5", "99999999999"))
		case "console-producer":
			args = append(args, "--partition", "0")
		default:
			args = append(args, "--max-messages", pick(r, "x", "1.5", ""))
		}
	}
	t.Label("%s, bad %s", cmd, kind)
	from := c.Tr.Len()
	x := tool(t, cmd, []byte("one\ntwo\n"), args...)
	if x.code == 0 {
		t.Violate("arguments that make no sense are not refused", "%q\n%s", args, x)
	}
	if kind != "brokers" {
		for _, e := range c.Tr.Events()[from:] {
			if e.Kind == "req" && (e.Key == kproto.Produce || e.Key == kproto.Fetch || e.Key == kproto.JoinGroup) {
				t.Violate("arguments that make no sense are not refused", "%s is sent\n%q\n%s", e, args, x)
				break
			}
		}
	}
	t.Eval(cmd + " bad " + kind)
}

// runPipeThrough sends lines through a producer and a consumer command.
func runPipeThrough(t *T) {
	r := t.Rng
	c, topic, n := pipeCluster(t)
	p := int32(r.Intn(n))
	var in bytes.Buffer
	k := 1 + r.Intn(200)
	for i := 0; i < k; i++ {
		in.Write(line(r, pick(r, 30, 3000)))
		in.WriteByte('\n')
	}
	t.Label("producer and consumer")
	x := tool(t, "simple-producer", in.Bytes(), append([]string{"simple-producer", "-b", c.Bootstrap(), "-t", topic, "--partition", fmt.Sprint(p)}, configFlag(r, map[string]any{"compress.type": pick(r, "none", "gzip", "snappy", "lz4"), "message.max.count": pick(r, 1, 10, 1024)})...)...)
	if x.code != 0 {
		t.Fatal("producing fails although all brokers are up", "%s", x)
	}
	y := tool(t, "simple-consumer", nil, append([]string{"simple-consumer", "-b", c.Bootstrap(), "-t", topic, "--partition", fmt.Sprint(p), "--offset=-2", "--printoffset=false", fmt.Sprintf("--max-messages=%d", k)}, consumerFlags(r, nil)...)...)
	if y.code != 0 || !bytes.Equal(y.out, in.Bytes()) {
		t.Violate("output differs from the lines produced", "%d lines, %d bytes in, %d bytes out\n%s", k, in.Len(), len(y.out), y)
	}
	t.Eval("through")
	t.Sample("%d lines, %d bytes through simple-producer and simple-consumer", k, in.Len())
}

func runC27(t *T) {
	switch t.Rng.Intn(16) {
	case 0, 1, 2, 3:
		runPipeProduce(t)
	case 4, 5, 6:
		runPipeSimpleConsume(t)
	case 7, 8, 9:
		runPipeConsume(t)
	case 10, 11, 12:
		runPipeGroup(t)
	case 13:
		runPipeThrough(t)
	default:
		runPipeBad(t)
	}
}

func init() {
	mon.Register(&mon.Prop{ID: "C25", Level: "exploration", Rule: "distinct (method and operation, kind of credentials)",
		N: map[string]int{"quick": 1500, "thorough": 40000}, Par: 8, Run: runC25, CaseLimit: 300 * time.Second,
		Required: []string{"refused, none", "refused, other password", "refused, longer password", "refused, user only", "refused, bearer", "credentials given", "get allowed", "cors", "malformed"}})
	mon.Register(&mon.Prop{ID: "C27", Level: "exploration", Rule: "distinct (command, output form, scene)",
		N: map[string]int{"quick": 900, "thorough": 30000}, Par: 8, Run: runC27, CaseLimit: 400 * time.Second,
		Required: []string{"console-producer ok", "simple-producer ok", "console-producer rejected", "simple-producer rejected", "console-producer fault", "simple-consumer json=true", "simple-consumer json=false", "console-consumer json=true", "console-consumer json=false", "group-consumer json=false interrupt=true", "group-consumer json=true interrupt=false", "through"}})
}
