// Command obssim simulates one keyper's two observers: the real shuttermint view and the real main
// chain view, each kept in sync with a faulty node, crashed and restarted, and compared with the
// chain it watches.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strings"

	"verif/sim/simnet"
	"verif/sim/simrt"
)

// Violation of a property.
type Violation struct {
	Prop  string  `json:"prop"`
	Class string  `json:"class"`
	Msg   string  `json:"msg"`
	At    float64 `json:"at_s"`
}

// Trace identifies one execution: everything follows from the seed, minus the disabled events.
type Trace struct {
	Prop   string   `json:"prop"`
	Seed   uint64   `json:"seed"`
	Skip   []int    `json:"disabled_events"`
	FIFO   bool     `json:"fifo,omitempty"`
	Events []*Event `json:"events,omitempty"` // informational: the enabled events
}

func emit(v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	os.Stdout.Write(append(b, '\n'))
}

type skipRule struct {
	class string
	re    *regexp.Regexp
}

type skipList []skipRule

func (s *skipList) String() string { return "" }
func (s *skipList) Set(v string) error {
	p := strings.SplitN(v, "=", 2)
	*s = append(*s, skipRule{p[0], regexp.MustCompile(p[1])})
	return nil
}

var (
	skips   skipList
	verbose bool
)

// liveLog drops what the goroutines of killed processes, which cannot be stopped, still log.
type liveLog struct{}

func (liveLog) Write(b []byte) (int, error) {
	if p := simnet.ProcOf(); p != nil && p.Dead() {
		return len(b), nil
	}
	return os.Stderr.Write(b)
}

func main() {
	prop := flag.String("prop", "K06", "")
	seed := flag.Uint64("seed", 1, "")
	first := flag.Int("first", 0, "")
	flag.Int("step", 1, "")
	flag.Int("n", 1, "")
	flag.Float64("wall", 10, "")
	flag.String("scratch", "", "")
	replay := flag.String("replay", "", "")
	hashes := flag.Bool("hashes", false, "")
	flag.BoolVar(&verbose, "v", false, "")
	flag.Var(&skips, "skip", "class=regex of known findings")
	flag.Parse()
	debug.SetGCPercent(-1)
	if !verbose {
		log.SetOutput(io.Discard)
	} else {
		log.SetOutput(liveLog{})
	}
	simnet.Install()

	var t Trace
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			panic(err)
		}
		var f struct {
			Trace Trace `json:"trace"`
		}
		if err := json.Unmarshal(b, &f); err != nil {
			panic(err)
		}
		t = f.Trace
	} else {
		emit(map[string]interface{}{"type": "run", "k": *first})
		t = Trace{Prop: *prop, Seed: simrt.Mix(*seed, simrt.HashString(*prop), uint64(*first))}
	}
	if p := os.Getenv("SIM_CPUPROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	w := newWorld(t)
	runtime.SimPanic = w.panicked
	os.SimExit = w.exit
	w.run()
	v := w.violation()
	hash := fmt.Sprintf("%016x", w.hash)
	if *replay != "" {
		out := map[string]interface{}{"type": "replay", "hash": hash, "violation": nil, "events": w.eventIDs(), "all": w.viols, "stats": w.stats}
		if v != nil {
			out["violation"] = v
		}
		emit(out)
		return
	}
	if v != nil {
		t.Events = w.enabledEvents()
		emit(map[string]interface{}{"type": "violation", "seed": t.Seed, "violation": v, "trace": t, "events": w.eventIDs(), "hash": hash})
	}
	rep := map[string]interface{}{"type": "report", "runs": 1, "stats": w.stats, "sim_ns": w.now().Sub(w.t0).Nanoseconds()}
	if w.stats["views_compared"] >= 10 {
		rep["nontrivial"] = 1
		rep["distinct"] = []uint64{w.hash}
	}
	if *hashes {
		rep["run_hashes"] = []string{hash}
	}
	es := w.enabledEvents()
	if len(es) > 8 {
		es = es[:8]
	}
	rep["samples"] = []interface{}{map[string]interface{}{"seed": t.Seed, "config": w.scn.config(), "events": es}}
	emit(rep)
}

func known(v *Violation) bool {
	for _, s := range skips {
		if s.class == v.Class && s.re.MatchString(v.Msg) {
			return true
		}
	}
	return false
}

func stack() string {
	var out []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		l = strings.TrimSpace(l)
		if i := strings.Index(l, " +0x"); i > 0 {
			l = l[:i]
		}
		if i := strings.LastIndex(l, "/repo/"); i >= 0 && strings.Contains(l, ".go:") {
			out = append(out, l[i+6:])
		}
	}
	if len(out) > 6 {
		out = out[:6]
	}
	return strings.Join(out, " < ")
}
