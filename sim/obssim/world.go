package main

import (
	"container/heap"
	"errors"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"sort"
	"time"

	"verif/sim/simnet"
	"verif/sim/simrt"
)

// Event is one step of the environment. Every event can be left out of a run without changing any
// other.
type Event struct {
	ID   int    `json:"id"`
	Kind string `json:"kind"`
	At   int64  `json:"at_ms"`
	Dur  int64  `json:"dur_ms,omitempty"`
	A    int    `json:"a,omitempty"`
	S    uint64 `json:"s,omitempty"`
}

type timer struct {
	at  time.Time
	seq int
	f   func()
}

type timerHeap []*timer

func (h timerHeap) Len() int { return len(h) }
func (h timerHeap) Less(i, j int) bool {
	if !h[i].at.Equal(h[j].at) {
		return h[i].at.Before(h[j].at)
	}
	return h[i].seq < h[j].seq
}
func (h timerHeap) Swap(i, j int)       { h[i], h[j] = h[j], h[i] }
func (h *timerHeap) Push(x interface{}) { *h = append(*h, x.(*timer)) }
func (h *timerHeap) Pop() interface{} {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

// scenario is what one property needs: a chain, a node, an observer process and an oracle.
type scenario interface {
	generate(r *simrt.Rng)
	config() interface{}
	setup()
	// content applies an event that is not a fault of the node
	content(e *Event)
	fault(e *Event) bool
	tick()
	quiet()
	final()
	lst() *simnet.Listener
	// observe runs inside the observer process and returns when it ends by itself
	observe(o *obsProc) string
}

// World is one run.
type World struct {
	tr       Trace
	scn      scenario
	rng      *simrt.Rng
	t0       time.Time
	timers   timerHeap
	seq      int
	events   []*Event
	skip     map[int]bool
	viols    []*Violation
	stop     bool
	stats    map[string]int
	hash     uint64
	isQuiet  bool
	faultEnd int64
	end      int64
	period   time.Duration
	stopped  time.Time // the chain makes no blocks until then

	procs     map[uintptr]*simnet.Proc
	proc      *simnet.Proc
	inc       int
	up        bool
	downUntil time.Time
	s         svc
	faulted   time.Time // until when a fault may excuse an exit
	lastRPC   time.Time // when the last request was answered
	inflight  int
}

// svc is the fault state of the observed node.
type svc struct {
	failUntil, slowUntil, stallUntil, downUntil, freezeUntil, lagUntil time.Time
	failP                                                              float64
	slowMs, lag                                                        int
	rpcCrash                                                           int
	rpcAfter                                                           bool
	rpcDown                                                            time.Duration
	rpcDo                                                              string // what happens at the n-th RPC
}

func newWorld(t Trace) *World {
	w := &World{tr: t, stats: map[string]int{}, skip: map[int]bool{}, procs: map[uintptr]*simnet.Proc{}, hash: t.Seed}
	for _, i := range t.Skip {
		w.skip[i] = true
	}
	runtime.SimSeed(t.Seed)
	runtime.SimSetFIFO(t.FIFO)
	root := simrt.NewRng(t.Seed)
	switch t.Prop {
	case "K06":
		w.scn = newShm(w)
	case "K07":
		w.scn = newEth(w)
	default:
		panic("unknown property " + t.Prop)
	}
	w.t0 = time.Now()
	w.scn.generate(root.Fork("gen"))
	w.rng = root.Fork("run")
	simnet.ProcOf = func() *simnet.Proc { return w.procs[runtime.SimTag()] }
	w.scn.setup()
	return w
}

func (w *World) now() time.Time { return time.Now() }
func (w *World) ms() int64      { return time.Since(w.t0).Milliseconds() }

func (w *World) at(d time.Duration, f func()) {
	w.seq++
	heap.Push(&w.timers, &timer{w.now().Add(d), w.seq, f})
}

func (w *World) logf(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	h := fnv.New64a()
	fmt.Fprintf(h, "%x %d %s", w.hash, w.ms(), s)
	w.hash = h.Sum64()
	if verbose {
		fmt.Fprintf(os.Stderr, "[%8.3f] %s\n", float64(w.ms())/1000, s)
	}
}

func (w *World) violate(class, format string, a ...interface{}) {
	v := &Violation{Prop: w.tr.Prop, Class: class, Msg: fmt.Sprintf(format, a...), At: float64(w.ms()) / 1000}
	w.logf("VIOLATION %s: %s", class, v.Msg)
	for _, x := range w.viols {
		if x.Class == v.Class && x.Msg == v.Msg {
			return
		}
	}
	if len(w.viols) < 100 {
		w.viols = append(w.viols, v)
	}
	if !known(v) {
		w.stop = true
	}
}

func (w *World) violation() *Violation {
	var k *Violation
	for _, v := range w.viols {
		if !known(v) {
			return v
		}
		if k == nil {
			k = v
		}
	}
	return k
}

func (w *World) add(e Event) *Event {
	x := e
	x.ID = len(w.events)
	w.events = append(w.events, &x)
	return &x
}

func (w *World) eventIDs() []int {
	var out []int
	for _, e := range w.events {
		if !w.skip[e.ID] {
			out = append(out, e.ID)
		}
	}
	return out
}

func (w *World) enabledEvents() []*Event {
	var out []*Event
	for _, e := range w.events {
		if !w.skip[e.ID] {
			out = append(out, e)
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].At < out[j].At })
	return out
}

// nodeFaults with weights, common to both scenarios.
var nodeFaults = []struct {
	kind string
	w    int
}{
	{"crash", 4}, {"at_rpc", 8}, {"fail", 4}, {"down", 2}, {"break", 3}, {"stall", 2}, {"slow", 2}, {"lag", 3}, {"freeze", 3},
	{"syncing", 2}, {"regress", 3}, {"stop", 1}, {"burst", 3}, {"slow_reader", 3},
	{"mute", 2},
}

// generateFaults adds a seeded set of faults, using a random subset of the kinds in each run.
func (w *World) generateFaults(r *simrt.Rng, from, to int64, extra ...string) {
	if r.P(0.08) {
		return
	}
	var kinds []string
	for _, f := range nodeFaults {
		if r.P(0.5) {
			for i := 0; i < f.w; i++ {
				kinds = append(kinds, f.kind)
			}
		}
	}
	for _, k := range extra {
		if r.P(0.6) {
			kinds = append(kinds, k, k, k)
		}
	}
	if len(kinds) == 0 {
		return
	}
	n := r.Range(1, 8)
	if r.P(0.5) {
		n = r.Range(6, 30)
	}
	for i := 0; i < n; i++ {
		e := Event{Kind: kinds[r.Intn(len(kinds))], At: from + int64(r.Intn(int(to-from))), Dur: int64(r.Range(300, 8000)), A: r.Range(1, 5), S: r.Uint64()}
		if r.P(0.12) {
			e.Dur = int64(r.Range(8000, 28000))
		}
		w.add(e)
	}
}

func later(a *time.Time, b time.Time) {
	if b.After(*a) {
		*a = b
	}
}

func (w *World) apply(e *Event) {
	d := time.Duration(e.Dur) * time.Millisecond
	until := w.now().Add(d)
	if end := w.t0.Add(time.Duration(w.faultEnd) * time.Millisecond); until.After(end) {
		until, d = end, end.Sub(w.now())
	}
	w.logf("event %d %s", e.ID, e.Kind)
	known := true
	switch e.Kind {
	case "crash":
		w.crash(d)
	case "at_rpc":
		// something happens exactly at the n-th request from now
		w.s.rpcCrash, w.s.rpcAfter, w.s.rpcDown = 1+int(e.S%12), e.S>>8&1 == 0, d
		w.s.rpcDo = []string{"crash", "break", "error", "error", "stall"}[e.S>>16%5]
	case "fail":
		later(&w.s.failUntil, until)
		w.s.failP = float64(e.A) * 0.2
	case "down":
		w.setDown(d)
	case "break":
		w.scn.lst().Break()
	case "stall":
		later(&w.s.stallUntil, until)
	case "slow":
		later(&w.s.slowUntil, until)
		w.s.slowMs = e.A * 500
	case "lag":
		later(&w.s.lagUntil, until)
		w.s.lag = e.A
	case "freeze":
		later(&w.s.freezeUntil, until)
	case "stop":
		later(&w.stopped, until)
	default:
		known = false
	}
	if known || w.scn.fault(e) {
		w.stats["fault_"+e.Kind]++
		later(&w.faulted, until.Add(60*time.Second))
		return
	}
	w.scn.content(e)
}

func (w *World) setDown(d time.Duration) {
	l := w.scn.lst()
	l.Down = true
	l.Break()
	later(&w.s.downUntil, w.now().Add(d))
	w.at(d, func() {
		if !w.now().Before(w.s.downUntil) {
			l.Down = false
		}
	})
}

var errInjected = errors.New("injected fault: service unavailable")

// gate runs before the node answers a request, after once it has the answer.
func (w *World) gate(m string) error {
	w.inflight++
	defer w.done()
	return w.before()
}

func (w *World) done() {
	w.inflight--
	w.lastRPC = w.now()
}

func (w *World) before() error {
	now := w.now()
	d := time.Duration(w.rng.Range(1, 20)) * time.Millisecond
	if now.Before(w.s.slowUntil) {
		w.stats["fault_slow_rpc"]++
		d += time.Duration(w.rng.Intn(w.s.slowMs+1)) * time.Millisecond
	}
	if now.Before(w.s.stallUntil) {
		w.stats["fault_stalled_rpc"]++
		d += w.s.stallUntil.Sub(now)
	}
	time.Sleep(d)
	if err := w.atRPC(false); err != nil {
		return err
	}
	if w.now().Before(w.s.failUntil) && w.rng.P(w.s.failP) {
		w.stats["fault_rpc_error"]++
		return errInjected
	}
	w.stats["rpcs"]++
	return nil
}

func (w *World) after(m string) error {
	w.inflight++
	defer w.done()
	return w.atRPC(true)
}

func (w *World) atRPC(after bool) error {
	if w.s.rpcCrash == 0 || w.s.rpcAfter != after || !w.up {
		return nil
	}
	w.s.rpcCrash--
	if w.s.rpcCrash > 0 {
		return nil
	}
	w.stats["fault_rpc_"+w.s.rpcDo]++
	switch w.s.rpcDo {
	case "crash":
		w.crash(w.s.rpcDown)
	case "break":
		w.scn.lst().Break()
	case "stall":
		time.Sleep(w.s.rpcDown)
		return nil
	}
	return errInjected
}

// obsProc is one incarnation of the observer.
type obsProc struct {
	w    *World
	proc *simnet.Proc
	inc  int
}

func (o *obsProc) live() bool { return o.proc == o.w.proc && o.w.up }

func (w *World) start() {
	if w.up || w.stop {
		return
	}
	if d := w.downUntil.Sub(w.now()); d > 0 {
		w.at(d, w.start)
		return
	}
	w.inc++
	w.up = true
	tag := uintptr(1000 + w.inc)
	o := &obsProc{w, simnet.NewProc(0, w.inc), w.inc}
	w.proc = o.proc
	w.procs[tag] = o.proc
	w.logf("observer starts (incarnation %d)", w.inc)
	if w.inc > 1 {
		w.stats["restart"]++
	}
	go func() {
		runtime.SimSetTag(tag)
		why := w.scn.observe(o)
		if o.live() {
			w.logf("observer ends: %s", why)
			w.stats["observer_exits"]++
			if w.now().After(w.faulted) {
				w.violate("exit-without-fault", "the observer gives up although nothing is wrong with its node: %s", why)
			}
			w.crash(3 * time.Second)
		}
		simnet.Park()
	}()
}

func (w *World) crash(down time.Duration) {
	if !w.up {
		return
	}
	w.up = false
	w.s.rpcCrash = 0
	w.logf("observer crashes")
	w.proc.Kill()
	w.downUntil = w.now().Add(down)
	w.at(down, w.start)
}

func (w *World) panicked(v interface{}) {
	p := w.procs[runtime.SimTag()]
	if p == nil {
		return // the simulator's own panic: let it die
	}
	if p == w.proc && w.up {
		w.violate("observer-panic", "the observer panics: %v at %s", v, stack())
		w.crash(3 * time.Second)
	}
	simnet.Park()
}

func (w *World) exit(code int) {
	p := w.procs[runtime.SimTag()]
	if p == nil {
		return
	}
	if p == w.proc && w.up {
		w.violate("observer-exit", "the observer calls os.Exit(%d) at %s", code, stack())
		w.crash(3 * time.Second)
	}
	simnet.Park()
}

func (w *World) tick() {
	w.at(w.period, w.tick)
	if w.now().Before(w.stopped) {
		return
	}
	w.scn.tick()
}

func (w *World) beginQuiet() {
	w.logf("quiet")
	w.isQuiet = true
	w.s = svc{}
	w.stopped = time.Time{}
	w.scn.lst().Down = false
	w.scn.quiet()
	later(&w.faulted, w.now().Add(60*time.Second))
}

func (w *World) run() {
	w.at(time.Duration(w.rng.Range(0, 3000))*time.Millisecond, w.start)
	w.at(w.period, w.tick)
	for _, e := range w.events {
		if w.skip[e.ID] {
			continue
		}
		e := e
		w.at(time.Duration(e.At)*time.Millisecond, func() { w.apply(e) })
	}
	w.at(time.Duration(w.faultEnd)*time.Millisecond, w.beginQuiet)
	end := w.t0.Add(time.Duration(w.end) * time.Millisecond)
	for !w.stop && len(w.timers) > 0 {
		t := heap.Pop(&w.timers).(*timer)
		if t.at.After(end) {
			break
		}
		if d := t.at.Sub(w.now()); d > 0 {
			time.Sleep(d)
		}
		if w.stop {
			break
		}
		t.f()
	}
	if !w.stop {
		w.scn.final()
	}
	sw, _, sh := runtime.SimStats()
	w.stats["goroutine_switches"] = int(sw)
	w.logf("schedule %x", sh)
}
