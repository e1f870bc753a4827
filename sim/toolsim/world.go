package main

import (
	"bytes"
	"container/heap"
	"crypto/ecdsa"
	"errors"
	"fmt"
	"hash/fnv"
	"math/big"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/spf13/cobra"
	"github.com/spf13/pflag"

	"github.com/shutter-network/shutter/shuttermint/cmd"
	"github.com/shutter-network/shutter/shuttermint/cmd/config"
	"github.com/shutter-network/shutter/shuttermint/shmsg"

	"verif/sim/ethsim"
	"verif/sim/simnet"
	"verif/sim/simrt"
	"verif/sim/tmsim"
)

// Event is one step of the operator or of the environment. Every event can be left out of a run
// without changing any other.
type Event struct {
	ID   int    `json:"id"`
	Kind string `json:"kind"`
	At   int64  `json:"at_ms"` // faults only: commands follow each other
	Dur  int64  `json:"dur_ms,omitempty"`
	A    int    `json:"a,omitempty"`
	S    uint64 `json:"s,omitempty"`
}

type timer struct {
	at  time.Time
	seq int
	f   func()
}

type timerHeap []*timer

func (h timerHeap) Len() int { return len(h) }
func (h timerHeap) Less(i, j int) bool {
	if !h[i].at.Equal(h[j].at) {
		return h[i].at.Before(h[j].at)
	}
	return h[i].seq < h[j].seq
}
func (h timerHeap) Swap(i, j int)       { h[i], h[j] = h[j], h[i] }
func (h *timerHeap) Push(x interface{}) { *h = append(*h, x.(*timer)) }
func (h *timerHeap) Pop() interface{} {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

type cfg struct {
	HeadsUp uint64 `json:"heads_up"`
	Cmds    int    `json:"commands"`
	Faulty  bool   `json:"faults"`
}

// World is one run.
type World struct {
	tr     Trace
	cfg    cfg
	rng    *simrt.Rng
	t0     time.Time
	timers timerHeap
	seq    int
	events []*Event
	skip   map[int]bool
	viols  []*Violation
	stop   bool
	done   bool
	stats  map[string]int
	hash   uint64
	dir    string
	disk   *simrt.NodeDisk

	owner   *ecdsa.PrivateKey
	keys    []*ecdsa.PrivateKey // accounts that may become keypers
	d       *ethsim.Deployment
	node    *ethsim.Node
	stopped time.Time // the chain makes no blocks until then
	faulted time.Time // until when a fault may excuse a failure
	s       svc
	isQuiet bool

	procs  map[uintptr]*simnet.Proc
	nrun   int
	cur    *run // the running command
	last   *run // the last started one
	queue  []*Event
	byTx   map[common.Hash]*run
	sets   []*keyperSet // written by the prepare command
	seen   []*ethsim.Block
	stderr bytes.Buffer

	// T02
	owner2    *ecdsa.PrivateKey
	boots     []*ecdsa.PrivateKey // the genesis keypers
	tm        *tmsim.Chain
	tmNode    *tmsim.Node
	tmStopped time.Time
	said      []said
	votes     int
	boot      []*run // the bootstrap commands
	roots     []string
	chainIDs  map[string]bool
	contracts string // the contracts file in use
	outPath   string
}

// svc is the fault state of the node.
type svc struct {
	failUntil, slowUntil, stallUntil, downUntil, freezeUntil, lagUntil time.Time
	failP                                                              float64
	slowMs, lag                                                        int
	rpcN                                                               int
	rpcAfter                                                           bool
	rpcDown                                                            time.Duration
	rpcDo                                                              string
}

// run is one execution of one command.
type run struct {
	n       int
	e       *Event
	job     *job
	try     int
	proc    *simnet.Proc
	started time.Time
	first   *ethsim.Block // the node's head at the start
	fChain  *ethsim.Block // the chain's head at the start
	pending int           // transactions waiting at the start
	faulty  bool          // a fault may have hit it
	txs     []*types.Transaction
	stdout  string
	out     []byte
	errOut  []byte
	before  map[string][]byte // files of the directory it works on
	d       *ethsim.Deployment
	configs int                // of the shuttermint app at the start
	half    *shmsg.BatchConfig // the last config of the app, not started yet
	blocks  []*ethsim.Block    // what its node had as head
}

func newWorld(t Trace, dir string) *World {
	w := &World{tr: t, dir: dir, stats: map[string]int{}, skip: map[int]bool{}, procs: map[uintptr]*simnet.Proc{}, hash: t.Seed, byTx: map[common.Hash]*run{}, chainIDs: map[string]bool{}}
	for _, i := range t.Skip {
		w.skip[i] = true
	}
	if t.Prop != "T01" && t.Prop != "T02" {
		panic("unknown property " + t.Prop)
	}
	runtime.SimSeed(t.Seed)
	runtime.SimSetFIFO(t.FIFO)
	root := simrt.NewRng(t.Seed)
	w.t0 = time.Now()
	w.generate(root.Fork("gen"))
	w.rng = root.Fork("run")
	simnet.ProcOf = func() *simnet.Proc { return w.procs[runtime.SimTag()] }
	w.disk = simrt.NewDisk(dir, root.Fork("disk"))
	w.disk.OnCrash = func() {
		if w.cur != nil && w.procs[runtime.SimTag()] == w.cur.proc {
			w.kill("in a file operation")
		}
		simnet.Park()
	}
	simrt.InstallDisk()
	w.setup(root.Fork("setup"))
	return w
}

func (w *World) now() time.Time { return time.Now() }
func (w *World) ms() int64      { return time.Since(w.t0).Milliseconds() }
func (w *World) unix() uint64   { return uint64(w.now().Unix()) }

func (w *World) at(d time.Duration, f func()) {
	w.seq++
	heap.Push(&w.timers, &timer{w.now().Add(d), w.seq, f})
}

func (w *World) logf(format string, a ...interface{}) {
	s := strings.ReplaceAll(fmt.Sprintf(format, a...), w.dir, "$DIR")
	h := fnv.New64a()
	fmt.Fprintf(h, "%x %d %s", w.hash, w.ms(), s)
	w.hash = h.Sum64()
	if verbose {
		fmt.Fprintf(os.Stderr, "[%8.3f] %s\n", float64(w.ms())/1000, s)
	}
}

func (w *World) violate(class, format string, a ...interface{}) {
	v := &Violation{Prop: w.tr.Prop, Class: class, Msg: strings.ReplaceAll(fmt.Sprintf(format, a...), w.dir, "$DIR"), At: float64(w.ms()) / 1000}
	w.logf("VIOLATION %s: %s", class, v.Msg)
	for _, x := range w.viols {
		if x.Class == v.Class && x.Msg == v.Msg {
			return
		}
	}
	if len(w.viols) < 100 {
		w.viols = append(w.viols, v)
	}
	if !known(v) {
		w.stop = true
	}
}

func (w *World) violation() *Violation {
	var k *Violation
	for _, v := range w.viols {
		if !known(v) {
			return v
		}
		if k == nil {
			k = v
		}
	}
	return k
}

func (w *World) add(e Event) *Event {
	x := e
	x.ID = len(w.events)
	w.events = append(w.events, &x)
	return &x
}

func (w *World) eventIDs() []int {
	var out []int
	for _, e := range w.events {
		if !w.skip[e.ID] {
			out = append(out, e.ID)
		}
	}
	return out
}

func (w *World) enabledEvents() []*Event {
	var out []*Event
	for _, e := range w.events {
		if !w.skip[e.ID] {
			out = append(out, e)
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].At < out[j].At })
	return out
}

// cmdKinds and faultKinds with weights; a run uses a random part of them.
var cmdKinds = []struct {
	kind string
	w    int
}{
	{"set-next", 8}, {"schedule", 4}, {"schedule-config", 10}, {"query", 4}, {"list", 2}, {"fund", 5}, {"unfund", 4}, {"balances", 2}, {"prepare", 5}, {"manual", 5}, {"copy", 3},
	{"spend", 3}, {"wait", 2},
}

var faultKinds = []struct {
	kind string
	w    int
}{
	{"kill", 4}, {"at_rpc", 10}, {"fail", 4}, {"down", 2}, {"break", 3}, {"stall", 2}, {"slow", 3}, {"lag", 3}, {"freeze", 3}, {"regress", 2}, {"stop", 3}, {"disk", 3}, {"stop_tm", 3},
}

// netKinds are the commands of T02.
var netKinds = []struct {
	kind string
	w    int
}{
	{"deploy", 8}, {"init", 9}, {"bootstrap", 8}, {"config", 5}, {"wait", 2},
}

func (w *World) generate(r *simrt.Rng) {
	w.cfg = cfg{HeadsUp: uint64(r.Intn(12)), Cmds: r.Range(4, 14), Faulty: r.P(0.85)}
	var kinds []string
	list := cmdKinds
	if w.tr.Prop == "T02" {
		list = netKinds
	}
	for _, k := range list {
		if k.w >= 8 || r.P(0.7) {
			for i := 0; i < k.w; i++ {
				kinds = append(kinds, k.kind)
			}
		}
	}
	for i := 0; i < w.cfg.Cmds; i++ {
		e := Event{Kind: kinds[r.Intn(len(kinds))], Dur: int64(r.Range(0, 4000)), A: r.Range(0, 3), S: r.Uint64()}
		if r.P(0.3) {
			e.Dur = int64(r.Range(4000, 40000))
		}
		w.add(e)
	}
	if !w.cfg.Faulty {
		return
	}
	var fk []string
	for _, k := range faultKinds {
		if k.kind == "stop_tm" && w.tr.Prop != "T02" {
			continue
		}
		if k.kind == "disk" && w.tr.Prop == "T02" {
			k.w = 10
		}
		if r.P(0.5) {
			for i := 0; i < k.w; i++ {
				fk = append(fk, k.kind)
			}
		}
	}
	if len(fk) == 0 {
		return
	}
	span := w.cfg.Cmds * 15_000
	for i := r.Range(1, 3*w.cfg.Cmds); i > 0; i-- {
		e := Event{Kind: fk[r.Intn(len(fk))], At: int64(r.Intn(span)), Dur: int64(r.Range(300, 8000)), A: r.Range(1, 6), S: r.Uint64()}
		w.add(e)
	}
}

func later(a *time.Time, b time.Time) {
	if b.After(*a) {
		*a = b
	}
}

func (w *World) apply(e *Event) {
	if w.isQuiet {
		return
	}
	d := time.Duration(e.Dur) * time.Millisecond
	until := w.now().Add(d)
	w.logf("event %d %s", e.ID, e.Kind)
	w.stats["fault_"+e.Kind]++
	later(&w.faulted, until)
	switch e.Kind {
	case "kill":
		w.kill("by the operator")
	case "at_rpc":
		w.s.rpcN, w.s.rpcAfter = 1+int(e.S%40), e.S>>8&1 == 0
		w.s.rpcDown, w.s.rpcDo = d, []string{"kill", "kill", "kill", "break", "error", "stall"}[e.S>>16%6]
		if e.S>>24%2 == 0 {
			w.s.rpcN = 1 + int(e.S%8)
		}
	case "fail":
		later(&w.s.failUntil, until)
		w.s.failP = float64(e.A) * 0.15
	case "down":
		for _, l := range w.listeners(e.S) {
			l.Down = true
			l.Break()
		}
		later(&w.s.downUntil, until)
		w.at(d, func() {
			if !w.now().Before(w.s.downUntil) {
				w.up()
			}
		})
	case "break":
		for _, l := range w.listeners(e.S) {
			l.Break()
		}
	case "stall":
		later(&w.s.stallUntil, until)
	case "slow":
		later(&w.s.slowUntil, until.Add(d))
		w.s.slowMs = e.A * 400
	case "lag":
		later(&w.s.lagUntil, until.Add(d))
		w.s.lag = e.A
	case "freeze":
		later(&w.s.freezeUntil, until.Add(d))
	case "regress":
		h := w.node.Head
		for i := 0; i < e.A && h.Parent != nil; i++ {
			h = h.Parent
		}
		w.setHead(h)
	case "stop":
		later(&w.stopped, until.Add(2*d))
	case "disk":
		w.diskFault(e)
	case "stop_tm":
		later(&w.tmStopped, until.Add(2*d))
	}
	if w.cur != nil {
		w.cur.faulty = true
	}
}

// listeners of the nodes a fault hits.
func (w *World) listeners(s uint64) []*simnet.Listener {
	l := []*simnet.Listener{w.node.Lst}
	if w.tmNode != nil {
		l = append(l, w.tmNode.Lst)
		if x := s >> 40 % 3; x > 0 {
			l = l[x-1 : x]
		}
	}
	return l
}

func (w *World) up() {
	for _, l := range w.listeners(0) {
		l.Down = false
	}
}

// diskFault lets one of the next file operations of a command fail, or kill it.
func (w *World) diskFault(e *Event) {
	span := uint64(12)
	if w.tr.Prop == "T02" {
		span = 45
	}
	n, act := w.disk.Ops+1+int(e.S%span), []simrt.DiskAction{simrt.DiskENOSPC, simrt.DiskEIO, simrt.DiskShort, simrt.DiskCrash, simrt.DiskCrash}[e.S>>8%5]
	w.disk.Plan = func(k, op int, path string) simrt.DiskAction {
		if k < n || w.isQuiet {
			return simrt.DiskOK
		}
		w.disk.Plan = nil
		if w.cur != nil {
			w.cur.faulty = true
		}
		return act
	}
}

var errInjected = errors.New("injected fault: service unavailable")

// gate runs before the node answers a request, after once it has the answer.
func (w *World) gate(m string) error {
	r := w.last
	now := w.now()
	d := time.Duration(w.rng.Range(1, 20)) * time.Millisecond
	if now.Before(w.s.slowUntil) {
		w.stats["fault_slow_rpc"]++
		d += time.Duration(w.rng.Intn(w.s.slowMs+1)) * time.Millisecond
	}
	if now.Before(w.s.stallUntil) {
		w.stats["fault_stalled_rpc"]++
		d += w.s.stallUntil.Sub(now)
	}
	time.Sleep(d)
	if r != w.last {
		return errInjected // sent by a command that is gone
	}
	if err := w.atRPC(false); err != nil {
		return err
	}
	if w.now().Before(w.s.failUntil) && w.rng.P(w.s.failP) {
		w.stats["fault_rpc_error"]++
		w.hit()
		return errInjected
	}
	w.stats["rpcs"]++
	return nil
}

func (w *World) hit() {
	if w.cur != nil {
		w.cur.faulty = true
	}
}

func (w *World) after(m string) error { return w.atRPC(true) }

func (w *World) atRPC(after bool) error {
	if w.s.rpcN == 0 || w.s.rpcAfter != after || w.cur == nil {
		return nil
	}
	w.s.rpcN--
	if w.s.rpcN > 0 {
		return nil
	}
	w.hit()
	w.stats["fault_rpc_"+w.s.rpcDo]++
	switch w.s.rpcDo {
	case "kill":
		w.kill("at a request")
	case "break":
		for _, l := range w.listeners(0) {
			l.Break()
		}
	case "stall":
		time.Sleep(w.s.rpcDown)
		return nil
	}
	return errInjected
}

// liveLog collects what the running command logs.
type liveLog struct{}

var theWorld *World

func (liveLog) Write(b []byte) (int, error) {
	p := simnet.ProcOf()
	if p == nil || theWorld == nil || theWorld.cur == nil || theWorld.cur.proc != p {
		return len(b), nil
	}
	theWorld.cur.errOut = append(theWorld.cur.errOut, b...)
	return len(b), nil
}

const period = 2000 * time.Millisecond

func (w *World) tick() {
	w.at(period, w.tick)
	if w.now().Before(w.stopped) {
		return
	}
	b := w.d.Chain.Mine(w.unix())
	w.mined(b)
	switch {
	case w.now().Before(w.s.freezeUntil):
	case w.now().Before(w.s.lagUntil):
		h := b
		for i := 0; i < w.s.lag && h.Parent != nil; i++ {
			h = h.Parent
		}
		if h.Num > w.node.Head.Num {
			w.setHead(h)
		}
	default:
		w.setHead(b)
	}
}

func (w *World) setHead(b *ethsim.Block) {
	w.node.SetHead(b)
	w.seen = append(w.seen, b)
	if w.cur != nil {
		w.cur.blocks = append(w.cur.blocks, b)
	}
}

// resetFlags gives every flag of every command its default value back, as in a new process.
func resetFlags(c *cobra.Command) {
	f := func(f *pflag.Flag) {
		if l, ok := f.Value.(pflag.SliceValue); ok && f.Changed {
			l.Replace(nil)
			f.Changed = false
			return
		}
		if f.Changed {
			f.Value.Set(f.DefValue)
			f.Changed = false
		}
	}
	c.PersistentFlags().VisitAll(f)
	c.Flags().VisitAll(f)
	for _, s := range c.Commands() {
		resetFlags(s)
	}
}

// start runs a command in a process of its own.
func (w *World) start(e *Event, j *job, try int) {
	w.nrun++
	tag := uintptr(1000 + w.nrun)
	r := &run{n: w.nrun, e: e, job: j, try: try, proc: simnet.NewProc(0, w.nrun), started: w.now(), first: w.node.Head, fChain: w.d.Chain.Head, pending: w.d.Chain.PoolLen()}
	r.faulty = w.now().Before(w.faulted) || w.node.Head != w.d.Chain.Head || w.s.rpcN > 0 || w.disk.Plan != nil || w.now().Before(w.stopped)
	r.faulty = r.faulty || w.now().Before(w.s.freezeUntil) || w.now().Before(w.s.lagUntil) || w.now().Before(w.s.slowUntil)
	r.stdout = filepath.Join(os.TempDir(), fmt.Sprintf("toolsim-out-%d-%d", os.Getpid(), r.n))
	r.faulty = r.faulty || w.now().Before(w.tmStopped)
	r.d, r.blocks = w.d, []*ethsim.Block{w.node.Head}
	if w.tm != nil {
		r.configs = len(w.tm.App.Configs)
		if c := w.tm.App.LastConfig(); r.configs == 2 && !c.Started {
			r.half = &shmsg.BatchConfig{StartBatchIndex: c.StartBatchIndex, Threshold: c.Threshold, ConfigIndex: c.ConfigIndex, ConfigContractAddress: c.ConfigContractAddress.Bytes()}
			for _, k := range c.Keypers {
				k := k
				r.half.Keypers = append(r.half.Keypers, k.Bytes())
			}
		}
	}
	switch e.Kind {
	case "init":
		r.before = w.files(j.dir)
	case "bootstrap":
		w.boot = append(w.boot, r)
	}
	w.cur, w.last = r, r
	w.procs[tag] = r.proc
	w.disk.Frozen = false
	w.seen = []*ethsim.Block{w.node.Head}
	w.logf("run %d: %s (try %d) %v", r.n, e.Kind, try, j.args)
	w.stats["cmd_"+e.Kind]++
	root := config.ConfigCmd.Root()
	resetFlags(root)
	simrt.Raw(func() {
		f, err := os.Create(r.stdout)
		if err != nil {
			panic(err)
		}
		os.Stdout = f
	})
	root.SetErr(errWriter{r})
	root.SetOut(errWriter{r})
	os.Args = append([]string{"shuttermint"}, j.args...)
	w.at(200*time.Second, func() {
		if w.cur != r {
			return
		}
		if w.now().After(w.faulted.Add(100*time.Second)) && w.now().After(w.stopped.Add(100*time.Second)) {
			w.violate("hangs", "%s is still running after %.0f s, its node has been answering for more than 100 s", w.describe(r), w.now().Sub(r.started).Seconds())
		}
		w.kill("by the operator, who lost patience")
	})
	go func() {
		runtime.SimSetTag(tag)
		cmd.Execute()
		simnet.Park()
	}()
}

type errWriter struct{ r *run }

func (e errWriter) Write(b []byte) (int, error) {
	e.r.errOut = append(e.r.errOut, b...)
	return len(b), nil
}

func (w *World) describe(r *run) string {
	return fmt.Sprintf("run %d, `shuttermint %s` (try %d),", r.n, strings.Join(r.job.args, " "), r.try)
}

// kill ends the running command at once.
func (w *World) kill(why string) {
	r := w.cur
	if r == nil {
		return
	}
	r.faulty = true
	w.logf("run %d is killed %s", r.n, why)
	w.stats["killed"]++
	w.ended(r, -1)
}

func (w *World) exit(code int) {
	p := w.procs[runtime.SimTag()]
	if p == nil {
		return
	}
	if w.cur != nil && p == w.cur.proc {
		w.logf("run %d exits with %d", w.cur.n, code)
		w.ended(w.cur, code)
	}
	simnet.Park()
}

func (w *World) panicked(v interface{}) {
	p := w.procs[runtime.SimTag()]
	if p == nil {
		return // the simulator's own panic: let it die
	}
	if r := w.cur; r != nil && p == r.proc {
		if r.e.Kind == "init" && r.faulty {
			w.ended(r, 2) // tendermint's way to report disk errors
			simnet.Park()
		}
		w.violate("panic", "%s panics: %v at %s", w.describe(w.cur), v, stack())
		w.ended(w.cur, 2)
	}
	simnet.Park()
}

// ended judges a command that has ended and lets the operator go on.
func (w *World) ended(r *run, code int) {
	w.cur = nil
	r.proc.Kill()
	simrt.Raw(func() {
		os.Stdout.Close()
		os.Stdout = realStdout
		r.out, _ = os.ReadFile(r.stdout)
		os.Remove(r.stdout)
	})
	if code == 0 {
		w.stats["cmd_ok"]++
	} else if code > 0 {
		w.stats["cmd_failed"]++
		w.logf("it says: %.300s", r.errOut)
	}
	w.judge(r, code)
	pause := time.Duration(r.e.Dur) * time.Millisecond
	if code != 0 && r.try < r.e.A && !r.job.invalid {
		w.at(pause/4, func() { w.start(r.e, r.job, r.try+1) })
		return
	}
	w.at(pause, w.next)
}

// next lets the operator do the next thing on the list.
func (w *World) next() {
	if w.stop {
		return
	}
	if len(w.queue) == 0 {
		if !w.isQuiet {
			w.quiet()
			return
		}
		if w.tr.Prop == "T02" {
			w.finalNet()
		}
		w.done = true
		return
	}
	e := w.queue[0]
	w.queue = w.queue[1:]
	w.do(e)
}

// quiet ends the faults; then every kind of command has to work.
func (w *World) quiet() {
	w.logf("quiet")
	w.isQuiet = true
	w.s = svc{}
	w.stopped = time.Time{}
	w.tmStopped = time.Time{}
	w.up()
	w.disk.Plan = nil
	if w.tr.Prop == "T02" {
		for i, e := range w.quietNet() {
			e.ID, e.Dur, e.S = -1-i, 3000, simrt.Mix(w.tr.Seed, uint64(i))|1<<63
			w.queue = append(w.queue, e)
		}
		w.at(20*time.Second, w.next)
		return
	}
	for i, k := range []string{"schedule-config", "query", "fund", "schedule-config", "list"} {
		w.queue = append(w.queue, &Event{ID: -1 - i, Kind: k, Dur: 6000, S: simrt.Mix(w.tr.Seed, uint64(i)) | 1<<63})
	}
	w.at(20*time.Second, w.next)
}

func (w *World) run() {
	theWorld = w
	w.at(time.Second, w.next)
	w.at(period, w.tick)
	if w.tm != nil {
		w.at(700*time.Millisecond, w.tickTM)
	}
	for _, e := range w.events {
		if w.skip[e.ID] {
			continue
		}
		e := e
		if isFault(e.Kind) {
			w.at(time.Duration(e.At)*time.Millisecond, func() { w.apply(e) })
		} else {
			w.queue = append(w.queue, e)
		}
	}
	for !w.stop && !w.done && len(w.timers) > 0 {
		// other goroutines add timers too: look again every now and then
		if d := w.timers[0].at.Sub(w.now()); d > 0 {
			if d > 50*time.Millisecond {
				d = 50 * time.Millisecond
			}
			time.Sleep(d)
			continue
		}
		heap.Pop(&w.timers).(*timer).f()
		if w.ms() > 7_200_000 {
			panic("the simulated operator does not come to an end")
		}
	}
	sw, _, sh := runtime.SimStats()
	w.stats["goroutine_switches"] = int(sw)
	w.logf("schedule %x", sh)
}

func isFault(k string) bool {
	for _, f := range faultKinds {
		if f.kind == k {
			return true
		}
	}
	return false
}

func ether(f float64) *big.Int {
	x, _ := new(big.Float).Mul(big.NewFloat(f), big.NewFloat(1e18)).Int(nil)
	return x
}
