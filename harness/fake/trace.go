// Package fake is an in-process Kafka cluster listening on loopback TCP. It
// speaks the protocol through kproto (independent of the system under test),
// keeps real partition logs and group state, injects faults on request and
// records every event for the monitors.
package fake

import (
	"fmt"
	"sync"
	"time"

	"verif/harness/kproto"
)

// Ev is one recorded event.
type Ev struct {
	Seq  int64
	At   time.Time
	Kind string // conn, close, req, resp, and client side kinds chosen by the workloads
	Node int32
	Conn int64
	Key  int
	Ver  int
	Corr int32
	Body kproto.M
	Raw  []byte
	Err  error
	Note string
	Req  *Req
}

func (e *Ev) String() string {
	n := ""
	if a := kproto.APIs[e.Key]; a != nil && (e.Kind == "req" || e.Kind == "resp") {
		n = fmt.Sprintf("%s v%d corr=%d ", a.Name, e.Ver, e.Corr)
	}
	er := ""
	if e.Err != nil {
		er = " err=" + e.Err.Error()
	}
	b := ""
	if e.Body != nil {
		b = fmt.Sprintf("%v", e.Body)
		if len(b) > 300 {
			b = b[:300] + "..."
		}
	}
	return fmt.Sprintf("#%d %s node=%d conn=%d %s%s%s %s", e.Seq, e.Kind, e.Node, e.Conn, n, e.Note, er, b)
}

// Trace is a totally ordered event log.
type Trace struct {
	mu   sync.Mutex
	cond *sync.Cond
	evs  []*Ev
}

func NewTrace() *Trace {
	t := &Trace{}
	t.cond = sync.NewCond(&t.mu)
	return t
}

func (t *Trace) Add(e *Ev) *Ev {
	t.mu.Lock()
	e.Seq = int64(len(t.evs))
	e.At = time.Now()
	t.evs = append(t.evs, e)
	t.cond.Broadcast()
	t.mu.Unlock()
	return e
}

// Note records a client side event.
func (t *Trace) Note(kind, f string, a ...any) *Ev {
	return t.Add(&Ev{Kind: kind, Note: fmt.Sprintf(f, a...)})
}

func (t *Trace) Events() []*Ev {
	t.mu.Lock()
	defer t.mu.Unlock()
	return append([]*Ev(nil), t.evs...)
}

func (t *Trace) Len() int {
	t.mu.Lock()
	defer t.mu.Unlock()
	return len(t.evs)
}

// WaitFor blocks until pred is true for some event at or after from, or the
// timeout passes; it returns the event or nil.
func (t *Trace) WaitFor(from int, timeout time.Duration, pred func(*Ev) bool) *Ev {
	deadline := time.Now().Add(timeout)
	timer := time.AfterFunc(timeout, func() { t.mu.Lock(); t.cond.Broadcast(); t.mu.Unlock() })
	defer timer.Stop()
	t.mu.Lock()
	defer t.mu.Unlock()
	i := from
	for {
		for ; i < len(t.evs); i++ {
			if pred(t.evs[i]) {
				return t.evs[i]
			}
		}
		if !time.Now().Before(deadline) {
			return nil
		}
		t.cond.Wait()
	}
}

// Tail renders the last n events.
func (t *Trace) Tail(n int) string {
	evs := t.Events()
	if len(evs) > n {
		evs = evs[len(evs)-n:]
	}
	s := ""
	for _, e := range evs {
		s += e.String() + "\n"
	}
	return s
}
