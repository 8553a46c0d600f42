// Package mon is the monitoring framework: cases run in child processes, the
// parent classifies crashes and hangs, collects violations and evidence.
package mon

import (
	"bufio"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Prop is one property check.
type Prop struct {
	ID    string
	Title string
	Level string
	Rule  string // what counts as a distinct non-trivial observation
	// N is the number of cases per tier.
	N map[string]int
	// Par is the number of cases in flight per child.
	Par int
	// Procs bounds the number of children (default: number of CPUs).
	Procs       int
	Run         func(t *T)
	Assumptions []string
	// CaseLimit is the watchdog for a whole case.
	CaseLimit time.Duration
	// Final runs in the parent after everything (tier, distinct keys); it can
	// add violations, e.g. when the workload reached nothing.
	Required []string // distinct key prefixes that must have been observed
}

// Props registered.
var Props = map[string]*Prop{}

// Register adds a property.
func Register(p *Prop) { Props[p.ID] = p }

// T is handed to a case.
type T struct {
	Prop  *Prop
	Tier  string
	Seed  int64
	Index int
	Rng   *rand.Rand
	Slow  float64 // multiplies every limit
	w     *writer
	mu    sync.Mutex
	evals int
	keys  map[string]bool
	samp  []string
	clean []func()
	ctxs  []func() string
	label string
	done  bool
}

type abort struct{}

type rec struct {
	Kind   string   `json:"k"` // start, done, viol, hang
	Case   int      `json:"c"`
	Evals  int      `json:"e,omitempty"`
	Keys   []string `json:"keys,omitempty"`
	Samp   []string `json:"samp,omitempty"`
	Sig    string   `json:"sig,omitempty"`
	Msg    string   `json:"msg,omitempty"`
	Detail string   `json:"detail,omitempty"`
	Label  string   `json:"label,omitempty"`
	Soft   bool     `json:"soft,omitempty"`  // a hang that was noticed after a short time only
	Stall  float64  `json:"stall,omitempty"` // longest time (s) the child did not get to run lately
}

// stalls remembers when and how long the process was kept from running.
var stalls struct {
	sync.Mutex
	at []time.Time
	d  []time.Duration
}

func watchStalls() {
	const nap = 20 * time.Millisecond
	for {
		t0 := time.Now()
		time.Sleep(nap)
		if d := time.Since(t0) - nap; d > 200*time.Millisecond {
			stalls.Lock()
			stalls.at, stalls.d = append(stalls.at, time.Now()), append(stalls.d, d)
			stalls.Unlock()
		}
	}
}

// stalled is the longest stall of the last three minutes in seconds.
func stalled() float64 {
	stalls.Lock()
	defer stalls.Unlock()
	var m time.Duration
	for i, a := range stalls.at {
		if time.Since(a) < 3*time.Minute {
			m = max(m, stalls.d[i])
		}
	}
	return m.Seconds()
}

type writer struct {
	mu sync.Mutex
	f  *os.File
}

func (w *writer) put(r rec) {
	if w.f == nil {
		return
	}
	b, _ := json.Marshal(r)
	w.mu.Lock()
	w.f.Write(append(b, '\n'))
	w.mu.Unlock()
}

// Label names the case for reports.
func (t *T) Label(f string, a ...any) {
	t.mu.Lock()
	t.label = fmt.Sprintf(f, a...)
	t.mu.Unlock()
}

// Quick reports whether the quick tier runs.
func (t *T) Quick() bool { return t.Tier != "thorough" }

// Eval counts one evaluation of the oracle and the distinct observation key.
func (t *T) Eval(key string) {
	t.mu.Lock()
	t.evals++
	if key != "" {
		t.keys[key] = true
	}
	t.mu.Unlock()
}

// EvalN counts n evaluations.
func (t *T) EvalN(n int) {
	t.mu.Lock()
	t.evals += n
	t.mu.Unlock()
}

// Sample keeps a description of an observation for the evidence.
func (t *T) Sample(f string, a ...any) {
	t.mu.Lock()
	if len(t.samp) < 2 {
		s := fmt.Sprintf(f, a...)
		if len(s) > 400 {
			s = s[:400]
		}
		t.samp = append(t.samp, s)
	}
	t.mu.Unlock()
}

// Muted runs another property's workload for its side effects: what it
// reports is dropped.
func (t *T) Muted(p *Prop) {
	m := &T{Prop: p, Tier: t.Tier, Seed: t.Seed, Index: t.Index, Rng: rand.New(rand.NewSource(t.Rng.Int63())), Slow: t.Slow, w: &writer{}, keys: map[string]bool{}}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(abort); !ok {
					panic(e)
				}
			}
		}()
		p.Run(m)
	}()
	for i := len(m.clean) - 1; i >= 0; i-- {
		m.clean[i]()
	}
	t.mu.Lock()
	t.evals += m.evals
	t.mu.Unlock()
}

// Context adds a renderer for reports (trace tails).
func (t *T) Context(f func() string) { t.ctxs = append(t.ctxs, f) }

// Cleanup registers a function run at the end of the case.
func (t *T) Cleanup(f func()) {
	t.mu.Lock()
	t.clean = append(t.clean, f)
	t.mu.Unlock()
}

func (t *T) detail() string {
	s := ""
	for _, f := range t.ctxs {
		s += f() + "\n"
	}
	return s
}

// Violate records a violation. sig identifies what failed (matched against
// the known findings), the message describes this instance.
func (t *T) Violate(sig, f string, a ...any) {
	t.w.put(rec{Kind: "viol", Case: t.Index, Sig: sig, Msg: fmt.Sprintf(f, a...), Detail: t.detail(), Label: t.label})
}

// Fatal records a violation and ends the case.
func (t *T) Fatal(sig, f string, a ...any) {
	t.w.put(rec{Kind: "viol", Case: t.Index, Sig: sig, Msg: fmt.Sprintf(f, a...), Detail: t.detail(), Label: t.label})
	panic(abort{})
}

// Guard lets a goroutine of a case end through Fatal, Hang or Stop.
func Guard(f func()) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(abort); !ok {
				panic(e)
			}
		}
	}()
	f()
}

// Stop ends the case without a verdict.
func (t *T) Stop() { panic(abort{}) }

// Limit scales a duration.
func (t *T) Limit(d time.Duration) time.Duration {
	return time.Duration(float64(d) * t.Slow)
}

func stacks() string {
	b := make([]byte, 1<<20)
	return string(b[:runtime.Stack(b, true)])
}

// Hang reports that something that must happen did not happen in time. The
// parent decides whether to believe it (see believe).
func (t *T) Hang(sig, f string, a ...any) {
	t.w.put(rec{Kind: "hang", Case: t.Index, Sig: sig, Msg: fmt.Sprintf(f, a...), Detail: t.detail() + "\n" + stacks(), Label: t.label, Stall: stalled()})
	panic(abort{})
}

// Soft is Hang for what was noticed after less than some tens of seconds: it
// is only believed if it repeats when the case runs alone.
func (t *T) Soft(sig, f string, a ...any) {
	t.w.put(rec{Kind: "hang", Case: t.Index, Sig: sig, Msg: fmt.Sprintf(f, a...), Detail: t.detail() + "\n" + stacks(), Label: t.label, Soft: true, Stall: stalled()})
	panic(abort{})
}

// Do runs fn, which must return within the limit (scaled).
func (t *T) Do(sig string, limit time.Duration, fn func()) {
	ch := make(chan struct{})
	go func() { defer close(ch); fn() }()
	select {
	case <-ch:
	case <-time.After(t.Limit(limit)):
		t.Hang(sig, "%s did not return within %v", sig, t.Limit(limit))
	}
}

// Try is Do without verdict: it reports whether fn returned.
func (t *T) Try(limit time.Duration, fn func()) bool {
	ch := make(chan struct{})
	go func() { defer close(ch); fn() }()
	select {
	case <-ch:
		return true
	case <-time.After(t.Limit(limit)):
		return false
	}
}

func runCase(p *Prop, tier string, seed int64, idx int, slow float64, w *writer) {
	h := sha256.Sum256([]byte(fmt.Sprintf("%s/%d/%d", p.ID, seed, idx)))
	var s int64
	for i := 0; i < 8; i++ {
		s = s<<8 | int64(h[i])
	}
	t := &T{Prop: p, Tier: tier, Seed: seed, Index: idx, Rng: rand.New(rand.NewSource(s)), Slow: slow, w: w, keys: map[string]bool{}}
	w.put(rec{Kind: "start", Case: idx})
	lim := p.CaseLimit
	if lim == 0 {
		lim = 120 * time.Second
	}
	fin := make(chan struct{})
	if f := os.Getenv("VMON_SLOW"); f != "" { // for debugging: where do slow cases wait
		d, _ := time.ParseDuration(f)
		time.AfterFunc(d, func() {
			select {
			case <-fin:
			default:
				os.WriteFile(fmt.Sprintf("/tmp/slow-%s-%d.txt", p.ID, idx), []byte(t.label+"\n"+t.detail()+"\n"+stacks()), 0o644)
			}
		})
	}
	go func() {
		defer close(fin)
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(abort); ok {
					return
				}
				// a panic on the case goroutine: crash the child with the original stack
				fmt.Fprintf(os.Stderr, "CASE %d label=%q\npanic: %v\n\ngoroutine 1 [running]:\n%s\n", idx, t.label, e, debug.Stack())
				os.Exit(2)
			}
		}()
		p.Run(t)
	}()
	select {
	case <-fin:
	case <-time.After(time.Duration(float64(lim) * slow)):
		w.put(rec{Kind: "hang", Case: idx, Sig: "case-timeout", Msg: fmt.Sprintf("case not finished after %v", lim), Detail: t.detail() + "\n" + stacks(), Label: t.label, Stall: stalled()})
	}
	for i := len(t.clean) - 1; i >= 0; i-- {
		t.clean[i]()
	}
	t.mu.Lock()
	ks := make([]string, 0, len(t.keys))
	for k := range t.keys {
		ks = append(ks, k)
	}
	w.put(rec{Kind: "done", Case: idx, Evals: t.evals, Keys: ks, Samp: t.samp, Label: t.label})
	t.mu.Unlock()
}

// WorkDir is a directory that is removed after the run.
var WorkDir string

// Child runs cases i with i%shards==shard, i>=from.
func child(p *Prop, tier string, seed int64, list []int, slow float64, out string) {
	f, err := os.OpenFile(out, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		panic(err)
	}
	w := &writer{f: f}
	WorkDir = filepath.Dir(out)
	go watchStalls()
	par := p.Par
	if par <= 0 {
		par = 1
	}
	if slow >= 3 {
		par = 1
	}
	ch := make(chan int)
	var wg sync.WaitGroup
	for i := 0; i < par; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for idx := range ch {
				runCase(p, tier, seed, idx, slow, w)
			}
		}()
	}
	for _, i := range list {
		ch <- i
	}
	close(ch)
	wg.Wait()
	w.put(rec{Kind: "end"})
	f.Close()
	os.Exit(0)
}

// Violation is a confirmed violation.
type Violation struct {
	Property string `json:"property"`
	Tier     string `json:"tier"`
	Seed     int64  `json:"seed"`
	Case     int    `json:"case"`
	Sig      string `json:"signature"`
	Msg      string `json:"message"`
	Label    string `json:"label,omitempty"`
	Detail   string `json:"detail,omitempty"`
	Replay   string `json:"replay_cmd"`
	Known    bool   `json:"-"`
}

type knownFile struct {
	Findings []struct {
		Property  string `json:"property"`
		Signature string `json:"signature"`
		What      string `json:"what"`
	} `json:"findings"`
	Fixed []string `json:"fixed"`
}

func repoFrames(s string) bool { return strings.Contains(s, "github.com/childe/healer") }

var reFrame = regexp.MustCompile(`github\.com/childe/healer[./]([^\s(]*(?:\(\*?\w+\))?[^\s(]*)\(`)

// crashSig names the crash by its panic value and the first healer frame.
func crashSig(s string) string {
	i := strings.Index(s, "panic:")
	if i < 0 {
		i = strings.Index(s, "fatal error:")
	}
	if i < 0 {
		i = strings.Index(s, "DATA RACE")
	}
	if i < 0 {
		i = 0
	}
	fn := "?"
	if m := reFrame.FindStringSubmatch(s[i:]); m != nil {
		fn = m[1]
	}
	line := s[i:]
	if j := strings.IndexByte(line, '\n'); j >= 0 {
		line = line[:j]
	}
	line = regexp.MustCompile(`0x[0-9a-f]+|\d+`).ReplaceAllString(line, "N")
	if len(line) > 120 {
		line = line[:120]
	}
	return "crash: " + fn + ": " + line
}

type result struct {
	recs   []rec
	ended  bool
	stderr string
	code   int
	killed bool
}

func runChild(self string, p *Prop, tier string, seed int64, list []int, slow float64, dir string, n int, limit time.Duration) result {
	out := filepath.Join(dir, fmt.Sprintf("child-%d.jsonl", n))
	os.Remove(out)
	errp := filepath.Join(dir, fmt.Sprintf("child-%d.err", n))
	lst := filepath.Join(dir, fmt.Sprintf("child-%d.list", n))
	b, _ := json.Marshal(list)
	os.WriteFile(lst, b, 0o644)
	ef, _ := os.Create(errp)
	cmd := exec.Command(self, "-child", "-prop", p.ID, "-tier", tier, "-seed", fmt.Sprint(seed), "-list", lst, "-slow", fmt.Sprint(slow), "-out", out)
	cmd.Stderr = ef
	cmd.Stdout = ef
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "GORACE=halt_on_error=0 exitcode=0 history_size=3")
	var r result
	if err := cmd.Start(); err != nil {
		r.stderr = err.Error()
		r.code = 3
		return r
	}
	tm := time.AfterFunc(limit, func() { r.killed = true; cmd.Process.Kill() })
	err := cmd.Wait()
	tm.Stop()
	ef.Close()
	if err != nil {
		r.code = 1
	}
	fi, _ := os.Open(errp)
	if fi != nil {
		st, _ := fi.Stat()
		sz := st.Size()
		if sz > 8<<20 {
			sz = 8 << 20
		}
		eb := make([]byte, sz)
		fi.Read(eb)
		r.stderr = string(eb)
		fi.Close()
	}
	f, err := os.Open(out)
	if err == nil {
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 64<<20)
		for sc.Scan() {
			var x rec
			if json.Unmarshal(sc.Bytes(), &x) == nil {
				if x.Kind == "end" {
					r.ended = true
				}
				r.recs = append(r.recs, x)
			}
		}
		f.Close()
	}
	return r
}

// Main is the entry point of the monitor binary.
func Main() {
	var (
		isChild = flag.Bool("child", false, "")
		prop    = flag.String("prop", "", "")
		tier    = flag.String("tier", "quick", "")
		seed    = flag.Int64("seed", 1, "")
		listF   = flag.String("list", "", "")
		slow    = flag.Float64("slow", 1, "")
		out     = flag.String("out", "", "")
		evid    = flag.String("evidence", "", "")
		replays = flag.String("replays", "", "")
		known   = flag.String("known", "", "")
		work    = flag.String("work", "", "")
		one     = flag.Int("case", -1, "run a single case and print what happened")
		nOver   = flag.Int("n", 0, "override number of cases")
	)
	flag.Parse()
	p := Props[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	if *isChild {
		var list []int
		b, _ := os.ReadFile(*listF)
		json.Unmarshal(b, &list)
		child(p, *tier, *seed, list, *slow, *out)
		return
	}
	os.Exit(parent(p, *tier, *seed, *evid, *replays, *known, *work, *one, *nOver, *slow))
}

func parent(p *Prop, tier string, seed int64, evid, replays, known, work string, one, nOver int, slow float64) int {
	start := time.Now()
	self, _ := os.Executable()
	os.MkdirAll(work, 0o755)
	n := p.N[tier]
	if nOver > 0 {
		n = nOver
	}
	procs := p.Procs
	if procs <= 0 {
		procs = runtime.NumCPU()
	}
	var all []int
	if one >= 0 {
		all = []int{one}
	} else {
		for i := 0; i < n; i++ {
			all = append(all, i)
		}
	}
	if procs > len(all) {
		procs = len(all)
	}
	budget := 600 * time.Second
	if tier == "thorough" {
		budget = 4 * time.Hour
	}
	deadline := start.Add(budget)

	var kf knownFile
	if b, err := os.ReadFile(known); err == nil {
		if err := json.Unmarshal(b, &kf); err != nil {
			fmt.Fprintln(os.Stderr, "known findings file:", err)
			return 2
		}
	}
	isKnown := func(sig string) (string, bool) {
		for _, f := range kf.Findings {
			if f.Property == p.ID && f.Signature == sig {
				return f.What, true
			}
		}
		return "", false
	}

	var (
		mu       sync.Mutex
		viols    []Violation
		evals    int
		cases    int
		keys     = map[string]bool{}
		samples  []string
		hangs    []rec
		harness  []string
		childSeq int
		knownHit = map[string]string{}
	)
	addViol := func(c int, sig, msg, label, detail string) {
		mu.Lock()
		defer mu.Unlock()
		if w, ok := isKnown(sig); ok {
			knownHit[sig] = w
			return
		}
		for _, v := range viols {
			if v.Sig == sig && len(viols) > 20 {
				return
			}
		}
		viols = append(viols, Violation{Property: p.ID, Tier: tier, Seed: seed, Case: c, Sig: sig, Msg: msg, Label: label, Detail: detail})
	}
	keepGoing := os.Getenv("VERIF_ALL") != "" // development: do not stop at the first violation
	nviol := func() int {
		mu.Lock()
		defer mu.Unlock()
		if keepGoing {
			return 0
		}
		n := map[string]int{}
		for _, h := range hangs {
			if credible(h) {
				n[h.Sig]++
			}
			if len(hangs) >= 12 || n[h.Sig] >= 3 { // enough to look at, and every hang takes long
				return max(1, len(viols))
			}
		}
		return len(viols)
	}

	// consume handles the outcome of a child; it returns the cases not run.
	consume := func(list []int, r result, final bool) []int {
		started := map[int]bool{}
		done := map[int]bool{}
		mu.Lock()
		for _, x := range r.recs {
			switch x.Kind {
			case "start":
				started[x.Case] = true
			case "done":
				done[x.Case] = true
				cases++
				evals += x.Evals
				for _, k := range x.Keys {
					keys[k] = true
				}
				if len(samples) < 12 {
					samples = append(samples, x.Samp...)
				}
			case "hang":
				if !final {
					hangs = append(hangs, x)
				}
			}
		}
		mu.Unlock()
		for _, x := range r.recs {
			if x.Kind == "viol" {
				addViol(x.Case, x.Sig, x.Msg, x.Label, x.Detail)
			}
			if final && x.Kind == "hang" {
				addViol(x.Case, x.Sig, x.Msg, x.Label, x.Detail)
			}
		}
		// race detector reports
		for _, rp := range raceReports(r.stderr) {
			if raceInHealer(rp) {
				addViol(-1, raceSig(rp), "data race reported by the race detector", "", rp)
			}
		}
		if r.ended {
			return nil
		}
		var inflight, rest []int
		for _, c := range list {
			if started[c] && !done[c] {
				inflight = append(inflight, c)
			} else if !started[c] {
				rest = append(rest, c)
			}
		}
		if r.killed {
			mu.Lock()
			for _, c := range inflight {
				hangs = append(hangs, rec{Kind: "hang", Case: c, Sig: "case-timeout", Msg: "child killed by the overall limit", Detail: tail(r.stderr, 20000)})
			}
			mu.Unlock()
			return nil
		}
		crash := r.stderr
		if i := strings.Index(crash, "panic:"); i >= 0 {
			if j := strings.LastIndex(crash[:i], "\n"); j >= 0 {
				crash = crash[j+1:]
			}
		} else if i := strings.Index(crash, "fatal error:"); i >= 0 {
			crash = crash[i:]
		}
		if isHealerCrash(crash) {
			c := -1
			if len(inflight) > 0 {
				c = inflight[0]
			}
			addViol(c, crashSig(crash), fmt.Sprintf("the process crashed inside healer (cases in flight: %v)", inflight), "", tail2(crash, 12000))
		} else {
			mu.Lock()
			harness = append(harness, fmt.Sprintf("child failed outside healer code: %s", tail2(crash, 3000)))
			mu.Unlock()
		}
		return rest
	}

	hangBudget := 780 * time.Second // of a run that must end within 900 s
	if tier == "thorough" {
		hangBudget = 10 * time.Hour
	}
	// split into shards, several rounds so that a violation stops early
	var wg sync.WaitGroup
	jobs := make(chan []int)
	per := len(all) / (procs * 3)
	if per < 1 {
		per = 1
	}
	if p.Par > 1 && per < p.Par {
		per = p.Par
	}
	for i := 0; i < procs; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for list := range jobs {
				for len(list) > 0 && nviol() == 0 && time.Now().Before(deadline) {
					mu.Lock()
					childSeq++
					id := childSeq
					mu.Unlock()
					list = consume(list, runChild(self, p, tier, seed, list, slow, work, id, time.Until(deadline)), false)
				}
			}
		}()
	}
	skipped := 0
	for i := 0; i < len(all); i += per {
		j := min(i+per, len(all))
		if nviol() > 0 || time.Now().After(deadline) {
			skipped += j - i
			continue
		}
		jobs <- all[i:j]
	}
	close(jobs)
	wg.Wait()

	// A hang is believed if
	// - three cases hung in the same way although their process always got to run, or
	// - a case that hung hangs again when it runs alone with three times the limits (some tries), or
	// - one that hung hangs again among the others that hung, with twice the limits, in a process that always got to run.
	if len(viols) == 0 || keepGoing {
		seen := map[int]bool{}
		bySig := map[string][]rec{}
		var todo []rec
		for _, h := range hangs {
			if w, ok := isKnown(h.Sig); ok {
				knownHit[h.Sig] = w
				continue
			}
			if os.Getenv("VMON_HANGS") != "" {
				fmt.Printf("HANG case=%d stall=%.1f %s\n%s: %s\n%s\n", h.Case, h.Stall, h.Label, h.Sig, h.Msg, h.Detail)
			}
			if seen[h.Case] {
				continue
			}
			seen[h.Case] = true
			todo = append(todo, h)
			if credible(h) {
				bySig[h.Sig] = append(bySig[h.Sig], h)
			}
		}
		for _, l := range bySig {
			if len(l) >= 3 {
				addViol(l[0].Case, l[0].Sig, fmt.Sprintf("%s (%d cases)", l[0].Msg, len(l)), l[0].Label, l[0].Detail)
			}
		}
		found := func() bool { return len(viols) > 0 && !keepGoing }
		for try := 0; try < 5 && !found(); try++ {
			for i, h := range todo {
				left := hangBudget - time.Since(start)
				if i >= 4 || left < 60*time.Second || found() {
					break
				}
				childSeq++
				r := runChild(self, p, tier, seed, []int{h.Case}, slow*3, work, childSeq, min(left, 400*time.Second))
				consume([]int{h.Case}, r, true)
			}
		}
		if left := hangBudget - time.Since(start); len(todo) > 0 && !found() && left > 120*time.Second {
			var crowd []int
			for len(crowd) < max(8*p.Par, 40) {
				for _, h := range todo {
					if !h.Soft {
						crowd = append(crowd, h.Case)
					}
				}
				if len(crowd) == 0 {
					break
				}
			}
			childSeq++
			r := runChild(self, p, tier, seed, crowd, slow*2, work, childSeq, min(left, 500*time.Second))
			var keep []rec
			for _, x := range r.recs {
				if x.Kind != "hang" || credible(x) {
					keep = append(keep, x)
				}
			}
			r.recs = keep
			if r.ended || !r.killed {
				consume(crowd, r, true)
			}
		}
	}

	res := 0
	reached := func(k string) bool {
		for x := range keys {
			if strings.HasPrefix(x, k) {
				return true
			}
		}
		return false
	}
	if one < 0 && nviol() == 0 && len(harness) == 0 && skipped == 0 {
		for _, k := range p.Required {
			if !reached(k) {
				harness = append(harness, "workload never observed "+k)
			}
		}
	}
	if len(viols) > 0 {
		res = 1
		os.MkdirAll(replays, 0o755)
		sort.SliceStable(viols, func(i, j int) bool { return viols[i].Sig < viols[j].Sig })
		printed := map[string]bool{}
		for i := range viols {
			v := &viols[i]
			if printed[v.Sig] || len(printed) >= 5 && !keepGoing {
				continue
			}
			printed[v.Sig] = true
			v.Replay = fmt.Sprintf("bash /verif/check.sh %s %s --seed %d --case %d", p.ID, tier, seed, v.Case)
			h := sha256.Sum256([]byte(v.Sig))
			path := filepath.Join(replays, fmt.Sprintf("%s-%s.json", p.ID, hex.EncodeToString(h[:4])))
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(path, b, 0o644)
			fmt.Printf("%s\n  case %d %s\n  %s\n", v.Sig, v.Case, v.Label, v.Msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		}
	} else if len(harness) > 0 {
		for _, h := range harness {
			fmt.Fprintln(os.Stderr, "HARNESS:", h)
		}
		res = 2
	}
	var ks []string
	for sig := range knownHit {
		ks = append(ks, sig)
	}
	sort.Strings(ks)
	for _, sig := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, knownHit[sig])
	}
	if evid != "" {
		if len(samples) > 12 {
			samples = samples[:12]
		}
		if len(samples) == 0 {
			samples = []string{"none"}
		}
		ev := map[string]any{
			"property": p.ID, "tier": tier, "seed": seed, "level": p.Level,
			"coverage": map[string]any{
				"evaluations": evals, "distinct_nontrivial": len(keys), "rule": p.Rule, "samples": samples,
			},
			"wall_s": float64(int(time.Since(start).Seconds()*10)) / 10, "violations": len(viols), "assumptions": append([]string{}, p.Assumptions...),
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Dir(evid), 0o755)
		os.WriteFile(evid, append(b, '\n'), 0o644)
	}
	fmt.Printf("%s tier=%s seed=%d cases=%d evaluations=%d distinct=%d hangs_rechecked=%d skipped=%d wall=%.1fs result=%d\n",
		p.ID, tier, seed, cases, evals, len(keys), len(hangs), skipped, time.Since(start).Seconds(), res)
	return res
}

// credible: the hang lasted for long and the process was never kept from running for long.
func credible(h rec) bool { return h.Kind == "hang" && !h.Soft && h.Stall < 1 }

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}
func tail2(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// isHealerCrash decides whether the first goroutine of a crash report ran
// healer code: the crash belongs to the system under test, not the harness.
func isHealerCrash(s string) bool {
	// panicking goroutine is the first one printed
	i := strings.Index(s, "goroutine ")
	if i < 0 {
		return false
	}
	g := s[i:]
	if j := strings.Index(g, "\n\ngoroutine "); j >= 0 {
		// when the case goroutine re-raises, the first block is ours: keep it whole
		g = g[:j]
	}
	if strings.Contains(s, "concurrent map") {
		return repoFrames(s)
	}
	if !repoFrames(g) {
		return false
	}
	// the innermost non runtime frame decides
	for _, ln := range strings.Split(g, "\n") {
		ln = strings.TrimSpace(ln)
		if strings.HasPrefix(ln, "github.com/childe/healer") {
			return true
		}
		if strings.HasPrefix(ln, "verif/harness") && !strings.Contains(ln, "mon.runCase") {
			return false
		}
	}
	return false
}

func raceReports(s string) []string {
	var out []string
	for {
		i := strings.Index(s, "WARNING: DATA RACE")
		if i < 0 {
			return out
		}
		s = s[i:]
		j := strings.Index(s, "\n==================")
		if j < 0 {
			out = append(out, s)
			return out
		}
		out = append(out, s[:j])
		s = s[j:]
	}
}

// raceInHealer reports whether one of the two accesses was made by healer.
func raceInHealer(rp string) bool {
	for _, f := range strings.Split(strings.TrimPrefix(raceSig(rp), "race: "), " / ") {
		if f != "" && f != "?" {
			return true
		}
	}
	return false
}

// raceSig identifies a race by the two accessing functions.
func raceSig(rp string) string {
	// blocks: "Write at ... by goroutine", "Previous read at ... by"
	var fns []string
	parts := regexp.MustCompile(`(?m)^(?:Write|Read|Previous write|Previous read|Atomic write|Previous atomic write)[^\n]*\n`).Split(rp, -1)
	for _, b := range parts[1:] {
		if j := strings.Index(b, "\n\n"); j >= 0 {
			b = b[:j]
		}
		if m := reFrame.FindStringSubmatch(b); m != nil {
			fns = append(fns, m[1])
		} else {
			fns = append(fns, "?")
		}
	}
	sort.Strings(fns)
	return "race: " + strings.Join(fns, " / ")
}

// Itoa is a shorthand.
func Itoa(i int) string { return strconv.Itoa(i) }
