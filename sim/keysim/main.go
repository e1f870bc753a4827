// Command keysim simulates a whole shutter deployment in one process: real keypers against the
// real shuttermint application and the real contracts, over a simulated network, disk and clock,
// with faults and Byzantine keypers.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strings"

	"verif/sim/simnet"
	"verif/sim/simrt"
)

// Violation of a property.
type Violation struct {
	Props []string `json:"props"`
	Class string   `json:"class"`
	Msg   string   `json:"msg"`
	At    float64  `json:"at_s"`
}

func (v *Violation) has(p string) bool {
	for _, q := range v.Props {
		if q == p {
			return true
		}
	}
	return false
}

// Trace identifies one execution: everything follows from the seed, minus the disabled events.
type Trace struct {
	Prop   string   `json:"prop"`
	Seed   uint64   `json:"seed"`
	Skip   []int    `json:"disabled_events"`
	FIFO   bool     `json:"fifo,omitempty"`
	Events []*Event `json:"events,omitempty"` // informational: the enabled events
}

func emit(v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	os.Stdout.Write(append(b, '\n'))
}

type skipRule struct {
	class string
	re    *regexp.Regexp
}

type skipList []skipRule

func (s *skipList) String() string { return "" }
func (s *skipList) Set(v string) error {
	p := strings.SplitN(v, "=", 2)
	*s = append(*s, skipRule{p[0], regexp.MustCompile(p[1])})
	return nil
}

var (
	skips   skipList
	verbose bool
)

// liveLog drops what the goroutines of killed processes, which cannot be stopped, still log.
type liveLog struct{}

func (liveLog) Write(b []byte) (int, error) {
	if p := simnet.ProcOf(); p != nil && p.Dead() {
		return len(b), nil
	}
	return os.Stderr.Write(b)
}

func main() {
	prop := flag.String("prop", "K01", "")
	seed := flag.Uint64("seed", 1, "")
	first := flag.Int("first", 0, "")
	flag.Int("step", 1, "")
	flag.Int("n", 1, "")
	flag.Float64("wall", 10, "")
	scratch := flag.String("scratch", "", "")
	replay := flag.String("replay", "", "")
	hashes := flag.Bool("hashes", false, "")
	flag.BoolVar(&verbose, "v", false, "")
	flag.Var(&skips, "skip", "class=regex of known findings")
	flag.Parse()
	debug.SetGCPercent(-1)
	if !verbose {
		log.SetOutput(io.Discard)
	} else {
		log.SetOutput(liveLog{})
	}
	simrt.InstallDisk()
	simnet.Install()
	dir := filepath.Join(*scratch, fmt.Sprintf("k%d", *first))
	os.RemoveAll(dir)
	os.MkdirAll(dir, 0o755)

	var t Trace
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			panic(err)
		}
		var f struct {
			Trace Trace `json:"trace"`
		}
		if err := json.Unmarshal(b, &f); err != nil {
			panic(err)
		}
		t = f.Trace
	} else {
		emit(map[string]interface{}{"type": "run", "k": *first})
		t = Trace{Prop: *prop, Seed: simrt.Mix(*seed, simrt.HashString(*prop), uint64(*first))}
	}
	if p := os.Getenv("SIM_CPUPROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	w := newWorld(t, dir)
	runtime.SimPanic = w.panicked
	os.SimExit = w.exit
	if p := os.Getenv("SIM_TRACE"); p != "" {
		runtime.SimTrace = make([][4]uint64, 1<<20)
		defer dumpTrace(p)
	}
	w.run()
	if p := os.Getenv("SIM_STACKS"); p != "" {
		buf := make([]byte, 64<<20)
		os.WriteFile(p, buf[:runtime.Stack(buf, true)], 0o644)
	}
	v := w.violation()
	hash := fmt.Sprintf("%016x", w.hash)
	if *replay != "" {
		out := map[string]interface{}{"type": "replay", "hash": hash, "violation": nil, "events": w.eventIDs(), "all": w.viols, "stats": w.stats}
		if v != nil {
			out["violation"] = v
		}
		emit(out)
		return
	}
	if v != nil {
		t.Events = w.enabledEvents()
		emit(map[string]interface{}{"type": "violation", "seed": t.Seed, "violation": v, "trace": t, "events": w.eventIDs(), "hash": hash})
	}
	rep := map[string]interface{}{"type": "report", "runs": 1, "stats": w.stats, "sim_ns": w.now().Sub(w.t0).Nanoseconds()}
	if w.stats["eon_success"] > 0 {
		rep["nontrivial"] = 1
		rep["distinct"] = []uint64{w.hash}
	}
	fb := map[string]int{}
	for _, x := range w.viols {
		if x != v && !known(x) {
			fb[x.Props[0]+"/"+x.Class]++
			if verbose {
				fmt.Fprintf(os.Stderr, "FOREIGN %v %s: %s\n", x.Props, x.Class, x.Msg)
			}
		}
	}
	rep["foreign_by"] = fb
	if len(fb) > 0 && w.cutShort {
		rep["foreign"] = 1
	}
	if *hashes {
		rep["run_hashes"] = []string{hash}
	}
	rep["samples"] = []interface{}{map[string]interface{}{"seed": t.Seed, "config": w.cfg, "events": w.sampleEvents()}}
	emit(rep)
}

func known(v *Violation) bool {
	for _, s := range skips {
		if s.class == v.Class && s.re.MatchString(v.Msg) {
			return true
		}
	}
	return false
}

// violation returns the first violation of the property under test that is not a known finding,
// or a known one when there is no other.
func (w *World) violation() *Violation {
	var k *Violation
	for _, v := range w.viols {
		if !v.has(w.tr.Prop) {
			continue
		}
		if !known(v) {
			return v
		}
		if k == nil {
			k = v
		}
	}
	return k
}

func (w *World) sampleEvents() []*Event {
	es := w.enabledEvents()
	if len(es) > 6 {
		es = es[:6]
	}
	return es
}

func stack() string {
	var out []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "shutter-network") {
			l = strings.TrimSpace(l)
			if i := strings.Index(l, " +0x"); i > 0 {
				l = l[:i]
			}
			if i := strings.LastIndex(l, "/repo/"); i >= 0 && strings.Contains(l, ".go:") {
				out = append(out, l[i+6:])
			}
		}
	}
	if len(out) > 6 {
		out = out[:6]
	}
	return strings.Join(out, " < ")
}

// dumpTrace writes the recorded goroutine switches; only for finding lost determinism.
func dumpTrace(path string) {
	f, err := os.Create(path)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	bw := bufio.NewWriter(f)
	defer bw.Flush()
	for i, x := range runtime.SimTrace {
		if x[0] != 0 {
			fmt.Fprintf(bw, "%d g%d %s t%d of %d state %x\n", i, x[0], runtime.FuncForPC(uintptr(x[1])).Name(), x[2], x[3]&255, x[3]>>8)
		}
	}
}
