package props

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"regexp"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/harness/fake"
	"verif/harness/kproto"
	"verif/harness/mon"
)

// ---- running the command line tool and the HTTP API --------------------------------

type toolRun struct {
	out, log []byte
	code     int
}

func (x toolRun) String() string {
	l := x.log
	if len(l) > 1500 {
		l = append(append([]byte{}, l[:300]...), append([]byte(" ... "), l[len(l)-1200:]...)...)
	}
	o := x.out
	if len(o) > 1500 {
		o = o[:1500]
	}
	return fmt.Sprintf("exit %d\nstdout: %s\nstderr: %s", x.code, o, l)
}

func toolPath() string {
	p := os.Getenv("VMON_TOOL")
	if p == "" {
		panic("HARNESS: VMON_TOOL is not set")
	}
	return p
}

// tool runs the command line tool to its end.
func tool(t *T, what string, stdin []byte, args ...string) toolRun {
	lim := t.Limit(100 * time.Second)
	ctx, cancel := context.WithTimeout(context.Background(), lim)
	defer cancel()
	cmd := exec.CommandContext(ctx, toolPath(), args...)
	cmd.Stdin = bytes.NewReader(stdin)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.WaitDelay = time.Minute
	err := cmd.Run()
	x := toolRun{out: o.Bytes(), log: e.Bytes(), code: cmd.ProcessState.ExitCode()}
	if ctx.Err() != nil || err == exec.ErrWaitDelay {
		t.Hang("command does not end", "%s: %q\n%s", what, args, x)
	}
	if _, ok := err.(*exec.ExitError); err != nil && !ok {
		panic(fmt.Sprintf("HARNESS: running %q: %v", args, err))
	}
	if x.code == 2 && bytes.Contains(x.log, []byte("goroutine ")) || x.code < 0 {
		t.Fatal("command crashes", "%s: %q\n%s", what, args, x)
	}
	return x
}

// apiServer is a running HTTP API.
type apiServer struct {
	addr string
	dead chan struct{}
	log  *lockedBuf
}

type lockedBuf struct {
	mu sync.Mutex
	b  []byte
}

func (l *lockedBuf) Write(b []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.b = append(l.b, b...)
	if len(l.b) > 1<<20 {
		l.b = append([]byte{}, l.b[len(l.b)-(1<<18):]...)
	}
	return len(b), nil
}

func (l *lockedBuf) tail() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return string(l.b[max(0, len(l.b)-6000):])
}

var (
	apiMu   sync.Mutex
	apiSrvs = map[string]*apiServer{}
	apiPort int
)

// apiWith returns a running server with the given flags; it is shared by the cases.
func apiWith(t *T, flags ...string) *apiServer {
	apiMu.Lock()
	defer apiMu.Unlock()
	k := fmt.Sprintf("%q", flags)
	if s := apiSrvs[k]; s != nil {
		select {
		case <-s.dead:
		default:
			return s
		}
	}
	for i := 0; i < 20; i++ {
		// an address of this process only, and a port nobody has used: a request must not meet another server
		host := fmt.Sprintf("127.251.%d.%d", os.Getpid()>>8&255, os.Getpid()&255)
		apiPort++
		port := fmt.Sprint(10000 + apiPort)
		addr := net.JoinHostPort(host, port)
		cmd := exec.Command(toolPath(), append([]string{"api", "-a", host, "-p", port}, flags...)...)
		cmd.Env = append(os.Environ(), "GIN_MODE=release", "GOGC=off", "GOMEMLIMIT=1GiB")
		s := &apiServer{addr: addr, dead: make(chan struct{}), log: &lockedBuf{}}
		cmd.Stdout, cmd.Stderr = s.log, s.log
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		if err := cmd.Start(); err != nil {
			panic("HARNESS: " + err.Error())
		}
		go func() { cmd.Wait(); close(s.dead) }()
		for dl := time.Now().Add(30 * time.Second); time.Now().Before(dl); {
			if rs, err := httpClient.Get("http://" + addr + "/health"); err == nil {
				rs.Body.Close()
				apiSrvs[k] = s
				return s
			}
			select {
			case <-s.dead:
				dl = time.Now()
			case <-time.After(5 * time.Millisecond):
			}
		}
		cmd.Process.Kill()
	}
	panic("HARNESS: the api server does not start")
}

type httpReq struct {
	method, path string
	query        url.Values
	body         string
	head         map[string]string
}

func (q httpReq) String() string {
	return fmt.Sprintf("%s %s?%s %s", q.method, q.path, q.query.Encode(), q.body)
}

type httpRes struct {
	code int
	body []byte
	head http.Header
}

func (x httpRes) String() string {
	b := x.body
	if len(b) > 1500 {
		b = b[:1500]
	}
	return fmt.Sprintf("status %d\n%s", x.code, b)
}

var httpClient = &http.Client{CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse },
	Transport: &http.Transport{DisableKeepAlives: true}}

func (s *apiServer) do(t *T, q httpReq) httpRes {
	lim := t.Limit(100 * time.Second)
	ctx, cancel := context.WithTimeout(context.Background(), lim)
	defer cancel()
	u := "http://" + s.addr + q.path
	if len(q.query) > 0 {
		u += "?" + q.query.Encode()
	}
	rq, err := http.NewRequestWithContext(ctx, q.method, u, strings.NewReader(q.body))
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
	for k, v := range q.head {
		rq.Header.Set(k, v)
	}
	rs, err := httpClient.Do(rq)
	if err != nil {
		if ctx.Err() != nil {
			t.Soft("http request is not answered", "%s", q)
		}
		time.Sleep(100 * time.Millisecond)
		select {
		case <-s.dead:
			t.Fatal("http api crashed", "%s: %v\n%s", q, err, s.log.tail())
		default:
		}
		t.Soft("http request is not answered", "%s: %v\n%s", q, err, s.log.tail())
	}
	defer rs.Body.Close()
	b, err := io.ReadAll(rs.Body)
	if err != nil {
		t.Fatal("http answer is broken", "%s: %v", q, err)
	}
	x := httpRes{code: rs.StatusCode, body: b, head: rs.Header}
	if x.code == 500 && bytes.Contains([]byte(s.log.tail()), []byte("[Recovery]")) && len(b) == 0 {
		t.Fatal("http handler panics", "%s\n%s", q, s.log.tail())
	}
	return x
}

// ---- operations of the tools -------------------------------------------------------

// top is one operation, which can be requested on the command line or over HTTP.
type top struct {
	name  string
	cli   []string // nil: not on the command line
	http  *httpReq // nil: not in the HTTP API
	key   int
	node  func(id int32) bool // nodes responsible
	want  []M                 // the requests (each must be seen exactly once); nil: not checked
	resp  M                   // scripted answer of API key; nil: the state of the cluster
	judge func(out []byte, viaHTTP bool) string
	bad   bool    // must be refused
	canon func(M) // brings a request into the order of want
	errs  []string
}

func jsonInto(out []byte, p any) string {
	if err := json.Unmarshal(out, p); err != nil {
		return fmt.Sprintf("output is not the documented JSON: %v", err)
	}
	return ""
}

// toolState is a cluster with content.
type toolState struct {
	t    *T
	r    *rand.Rand
	c    *fake.Cluster
	ids  []int32
	tops []string
	grps []string

	flags []string // of the api server
}

func topicName(r *rand.Rand) string {
	const cs = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789._-"
	b := make([]byte, 1+r.Intn(pick(r, 4, 30)))
	for i := range b {
		b[i] = cs[r.Intn(len(cs))]
	}
	if s := string(b); s[0] != '-' && s != "." && s != ".." && s != ".-" {
		return s
	}
	return topicName(r)
}

func groupName(r *rand.Rand) string {
	cs := []rune("abcxyz0123456789._-:@ #%&?=+$!é世")
	b := make([]rune, 1+r.Intn(12))
	for i := range b {
		b[i] = cs[r.Intn(len(cs))]
	}
	b[0] = rune("abcxyz"[r.Intn(6)])
	return string(b)
}

func someText(r *rand.Rand) string {
	cs := []rune("abcxyz0123456789._-:@ #&=+$!é世*\"\\'{}[]<>|~^")
	b := make([]rune, 1+r.Intn(12))
	for i := range b {
		b[i] = cs[r.Intn(len(cs))]
	}
	b[0] = rune("abcxyz*"[r.Intn(7)])
	return string(b)
}

func distinct(r *rand.Rand, n int, f func(*rand.Rand) string) (out []string) {
	seen := map[string]bool{}
	for len(out) < n {
		if s := f(r); !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return
}

func newToolState(t *T) *toolState {
	r := t.Rng
	n := 1 + r.Intn(4)
	ids := uniqInts(r, n, 12)
	c := clusterIDs(t, ids...)
	wireMonitor(t, c)
	s := &toolState{t: t, r: r, c: c, ids: ids, tops: distinct(r, 1+r.Intn(3), topicName), grps: distinct(r, 1+r.Intn(4), groupName)}
	c.Mu.Lock()
	c.Controller = ids[r.Intn(n)]
	off := r.Intn(n)
	sorted := append([]int32{}, ids...)
	sort.Slice(sorted, func(i, j int) bool { return sorted[i] < sorted[j] })
	c.CoordOf = func(g string) int32 {
		h := off
		for _, b := range []byte(g) {
			h += int(b)
		}
		return sorted[h%n]
	}
	c.Mu.Unlock()
	for _, tn := range s.tops {
		c.AddTopic(tn, 1+r.Intn(5))
		c.Mu.Lock()
		for p, pt := range c.Topics[tn].Parts {
			pt.Leader = ids[r.Intn(n)]
			pt.Replicas = []int32{pt.Leader}
			for _, id := range ids {
				if id != pt.Leader && r.Intn(2) == 0 {
					pt.Replicas = append(pt.Replicas, id)
				}
			}
			pt.ISR = append([]int32{}, pt.Replicas[:1+r.Intn(len(pt.Replicas))]...)
			pt.HW = pick(r, int64(0), int64(r.Intn(100)), int64(p)*1000+int64(r.Intn(1000)), 1<<40)
			pt.LogStart = 0
			if pt.HW > 0 && r.Intn(2) == 0 {
				pt.LogStart = r.Int63n(pt.HW + 1)
			}
			if pt.HW > pt.LogStart && r.Intn(2) == 0 { // a record with a timestamp
				o := pt.LogStart + r.Int63n(pt.HW-pt.LogStart)
				pt.Chunks = []fake.Chunk{{First: o, Last: o, Recs: []kproto.Rec{{Offset: o, Ts: 1000 + int64(p)}}}}
			}
		}
		c.Mu.Unlock()
	}
	for _, g := range s.grps {
		for _, tn := range s.tops {
			if r.Intn(2) == 0 && tn != s.tops[0] {
				continue
			}
			for p, pt := range c.Topics[tn].Parts {
				if r.Intn(4) > 0 {
					c.SetCommitted(g, tn, p, pick(r, 0, pt.LogStart, pt.HW, pt.LogStart+r.Int63n(pt.HW-pt.LogStart+1)))
				}
			}
		}
		c.Mu.Lock()
		if r.Intn(2) == 0 && c.Groups[g] != nil {
			gr := c.Groups[g]
			gr.State, gr.Gen = "Stable", 3
			left := map[string][]int32{}
			for _, tn := range s.tops {
				for p := range c.Topics[tn].Parts {
					left[tn] = append(left[tn], p)
				}
			}
			for m := 0; m < 1+r.Intn(3); m++ {
				id := fmt.Sprintf("member-%d-%x%s", m, r.Int31(), strings.Repeat("-8c3f", r.Intn(12)))
				as := map[string][]int32{}
				for tn, ps := range left {
					k := r.Intn(len(ps) + 1)
					if k > 0 && r.Intn(2) == 0 {
						as[tn], left[tn] = ps[:k], ps[k:]
					}
				}
				gr.Members[id] = &fake.Member{ID: id, ClientID: fmt.Sprint("c", m), Proto: "range", Subs: s.tops, Meta: fake.EncodeSubscription(0, s.tops, nil), Assigned: fake.EncodeAssignment(as)}
			}
		}
		c.Mu.Unlock()
	}
	for _, id := range ids {
		nd := 1 + r.Intn(2)
		for d := 0; d < nd; d++ {
			ts := []any{}
			for tn, tp := range c.Topics {
				ps := []any{}
				for p, pt := range tp.Parts {
					for _, rp := range pt.Replicas {
						if rp == id && int(p)%nd == d {
							ps = append(ps, M{"index": int64(p), "size": int64(id)*1000 + int64(p), "offset_lag": int64(r.Intn(5)), "is_future": false})
						}
					}
				}
				if len(ps) > 0 {
					ts = append(ts, M{"name": tn, "partitions": ps})
				}
			}
			c.Nodes[id].LogDirs = append(c.Nodes[id].LogDirs, M{"error_code": int64(0), "log_dir": fmt.Sprintf("/d%d", d), "topics": ts})
		}
	}
	c.Configs = map[string]map[string]any{}
	for _, tn := range s.tops {
		c.Configs["2/"+tn] = map[string]any{"retention.ms": fmt.Sprint(r.Intn(100000)), "cleanup.policy": pick(r, "delete", "compact"), "x.y": someText(r)}
	}
	for _, id := range ids {
		c.Configs[fmt.Sprintf("8/%d", id)] = map[string]any{"root": pick(r, "INFO", "DEBUG"), "kafka.log.LogCleaner": pick(r, "WARN", "TRACE")}
		c.Configs[fmt.Sprintf("4/%d", id)] = map[string]any{"log.dirs": fmt.Sprintf("/data/%d", id), "num.io.threads": fmt.Sprint(r.Intn(64))}
	}
	return s
}

func (s *toolState) base(args ...string) []string {
	b := s.c.Bootstrap()
	switch s.r.Intn(3) {
	case 0:
		return append([]string{args[0], "-b", b}, args[1:]...)
	case 1:
		return append([]string{args[0], "--brokers=" + b}, args[1:]...)
	}
	return append(append([]string{}, args...), "--brokers", b)
}

func (s *toolState) q(kv ...string) url.Values {
	v := url.Values{"bootstrap": {s.c.Bootstrap()}}
	for i := 0; i+1 < len(kv); i += 2 {
		v.Add(kv[i], kv[i+1])
	}
	return v
}

func (s *toolState) ctl(id int32) bool { return id == s.c.Controller }

func (s *toolState) anyone(int32) bool { return true }

func (s *toolState) coord(g string) func(int32) bool {
	id := s.c.CoordOf(g)
	return func(n int32) bool { return n == id }
}

func toJSON(x any) string {
	b, err := json.Marshal(x)
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
	return string(b)
}

// execute performs the operation and judges the requests, the result and the output.
func (s *toolState) execute(o *top, scene string) {
	t, c, r := s.t, s.c, s.r
	viaHTTP := o.http != nil && (o.cli == nil || r.Intn(2) == 0)
	what := o.name
	if viaHTTP {
		what = "http " + what
	}
	t.Label("%s %s", what, scene)
	code := int64(0)
	errPath := ""
	resp := o.resp
	if scene == "error code" && len(o.errs) > 0 {
		code = randErrCode(r)
		errPath = pick(r, o.errs...)
	}
	var mu sync.Mutex
	var seen []M
	var nodes []int32
	var ver int
	applied, cuts := false, 0
	c.SetHook(func(q *fake.Req) *fake.Fault {
		if q.H.Key != o.key || q.Body == nil {
			return nil
		}
		mu.Lock()
		defer mu.Unlock()
		b := q.Body
		if o.canon != nil {
			b = cloneBody(b).(M)
			o.canon(b)
		}
		seen = append(seen, b)
		nodes = append(nodes, q.Node)
		if scene == "cut" {
			if o.key == kproto.Metadata && len(seen) == 1 {
				return nil // of the creation of the client
			}
			cuts++
			return &fake.Fault{CloseBefore: true}
		}
		ver = q.H.Version
		return &fake.Fault{Body: func(b M) M {
			mu.Lock()
			defer mu.Unlock()
			if resp != nil {
				b = resp
			}
			if code != 0 && setErr(r, b, errPath, code) {
				applied = true
			}
			return b
		}, SkipProcess: resp != nil}
	})
	var down []int32
	if scene == "down" {
		for id := range c.Nodes {
			if o.node(id) {
				c.StopNode(id)
				down = append(down, id)
			}
		}
		if len(down) == 0 {
			scene = "ok"
		}
	}
	var out []byte
	ok := false
	desc := ""
	if viaHTTP {
		x := apiWith(t).do(t, *o.http)
		out, ok = x.body, x.code >= 200 && x.code < 300
		desc = fmt.Sprintf("%s\n%s", o.http, x)
		for dl := time.Now().Add(t.Limit(30 * time.Second)); c.OpenConns() > 0; time.Sleep(time.Millisecond) {
			if time.Now().After(dl) {
				t.Hang("the server keeps connections", "%d connections to the brokers are still open\n%s", c.OpenConns(), desc)
			}
		}
	} else {
		x := tool(t, what, nil, o.cli...)
		out, ok = x.out, x.code == 0
		desc = fmt.Sprintf("%q\n%s", o.cli, x)
	}
	c.SetHook(nil)
	mu.Lock()
	defer mu.Unlock()
	for _, n := range nodes {
		if !o.node(n) {
			t.Violate("request sent to a broker that is not responsible", "%s: node %d\n%s", what, n, desc)
		}
	}
	if o.bad {
		if ok {
			t.Violate("arguments that make no sense are not refused", "%s", desc)
		}
		if len(seen) > 0 {
			t.Violate("request sent although the arguments make no sense", "%s: %v", desc, seen)
		}
		t.Eval(what)
		return
	}
	switch scene {
	case "ok":
		if !ok {
			t.Fatal("fails although all brokers are up and accept the request", "%s", desc)
		}
		if o.want != nil {
			if len(seen) != len(o.want) {
				t.Violate("not exactly the requests that were asked for", "%s: %d requests instead of %d\n%s", what, len(seen), len(o.want), desc)
			} else {
				left := append([]M{}, o.want...)
				for _, b := range seen {
					d, hit := "", -1
					for i, w := range left {
						if d = diffWire(b, w, ""); d == "" {
							hit = i
							break
						}
					}
					if hit < 0 {
						t.Violate("request differs from what was asked for", "%s: %s\nrequest %v\nwanted %v\n%s", what, d, b, left, desc)
						break
					}
					left = append(left[:hit], left[hit+1:]...)
				}
			}
		}
		if o.judge != nil {
			if d := o.judge(out, viaHTTP); d != "" {
				t.Violate("output differs from the state of the cluster", "%s (version %d): %s\n%s", what, ver, d, desc)
			}
		}
	case "error code":
		if applied && ok && !regexp.MustCompile(fmt.Sprintf(`(?i)error_?code"?:\s*%d\b`, code)).Match(out) {
			t.Violate("error of the broker is not reported", "%s: %s = %d\n%s", what, errPath, code, desc)
		}
		if !applied {
			t.EvalN(1)
			return
		}
	case "cut":
		if ok && cuts > 0 {
			t.Violate("succeeds although the request is not answered", "%s: %d requests cut\n%s", what, cuts, desc)
		}
	case "down":
		if ok {
			t.Violate("succeeds although the responsible brokers are down", "%s: %v\n%s", what, down, desc)
		}
	}
	t.Eval(what + " " + scene)
	t.Sample("%s %s: %d requests to %v", what, scene, len(seen), nodes)
}

func runTool(ops []func(*toolState) *top) func(t *T) {
	return func(t *T) {
		s := newToolState(t)
		r := t.Rng
		n := 1 + r.Intn(3)
		for i := 0; i < n; i++ {
			scene := pick(r, "ok", "ok", "ok", "error code")
			if i == n-1 && r.Intn(6) == 0 {
				scene = "down"
			}
			o := ops[r.Intn(len(ops))](s)
			if scene == "ok" && r.Intn(8) == 0 && o.key != kproto.DescribeLogDirs {
				scene = "cut"
			}
			s.execute(o, scene)
		}
	}
}

func init() {
	mon.Register(&mon.Prop{ID: "C22", Level: "exploration", Rule: "distinct (operation, way of asking, scene)",
		N: map[string]int{"quick": 3000, "thorough": 60000}, Par: 8, Run: runTool(readOps), CaseLimit: 300 * time.Second,
		Required: []string{"get-metadata ok", "http get-metadata ok", "get-metadata cut", "get-offsets ok", "get-pending ok", "get-pending of several groups ok", "http get-pending ok", "list-groups ok", "http list-groups ok", "describe-groups ok",
			"describe-configs ok", "describe-logdirs ok", "describe-acls ok", "describe-acls error code", "list-partition-reassignments ok", "http list-partition-reassignments ok", "describe-groups down"}})
	mon.Register(&mon.Prop{ID: "C24", Level: "exploration", Rule: "distinct (operation, way of asking, scene)",
		N: map[string]int{"quick": 3000, "thorough": 60000}, Par: 8, Run: runTool(writeOps), CaseLimit: 300 * time.Second,
		Required: []string{"create-topic ok", "delete-topics ok", "create-partitions ok", "http create-partitions ok", "create-partitions with replicas ok", "alter-configs ok", "delete-groups ok", "delete-groups down", "reset-offset ok", "reset-offset of some partitions ok",
			"create-acls ok", "delete-acls ok", "http delete-acls ok", "elect-leaders ok", "alter-partition-reassignments ok", "alter-partition-reassignments error code", "create-topic cut"}})
}

// cloneBody copies a decoded message
func cloneBody(v any) any {
	switch x := v.(type) {
	case M:
		y := M{}
		for k, e := range x {
			y[k] = cloneBody(e)
		}
		return y
	case []any:
		if x == nil {
			return x
		}
		y := make([]any, len(x))
		for i, e := range x {
			y[i] = cloneBody(e)
		}
		return y
	}
	return v
}
