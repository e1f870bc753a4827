// Command dkgsim simulates shlib's distributed key generation and threshold decryption: several
// parties in one process, a lossy network, misbehaving parties, crashes and restarts. One seed is
// one execution: the simulation is single threaded and replaces crypto/rand's source.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

// Event is one fault or one act of a misbehaving party. Runs are generated up-front as a list of
// events; leaving events out does not change what the others do.
type Event struct {
	ID   int    `json:"id"`
	Kind string `json:"kind"`
	At   int    `json:"at"`
	Node int    `json:"node"`
	A    int    `json:"a"`
	B    int    `json:"b"`
	C    int    `json:"c"`
	Seed uint64 `json:"seed"`
}

// Trace is what is needed to repeat a run.
type Trace struct {
	Prop   string  `json:"property"`
	Seed   uint64  `json:"seed"`
	Cfg    Cfg     `json:"cfg"`
	Events []Event `json:"events"`
}

// Cfg holds the sizes of a run.
type Cfg struct {
	N      int   `json:"n"`
	T      int   `json:"t"`
	L      int   `json:"phase_length"`
	Byz    []int `json:"misbehaving"`
	Eons   int   `json:"eons"`
	Epochs int   `json:"epochs"`
	Msgs   int   `json:"messages"`
	Faulty bool  `json:"faulty"`
}

// Violation says what was broken.
type Violation struct {
	Props []string `json:"props"`
	Class string   `json:"class"`
	Msg   string   `json:"msg"`
	Op    int      `json:"op"`
}

type result struct {
	viol  *Violation
	hash  uint64
	stats map[string]int
	ticks int
	rich  bool
}

// run carries what a simulation accumulates.
type run struct {
	t     Trace
	stats map[string]int
	h     uint64
	ticks int
	log   bool
	rich  bool
}

type stop struct{ v *Violation }

func (r *run) fail(class, format string, args ...interface{}) {
	panic(stop{&Violation{Props: []string{r.t.Prop}, Class: class, Msg: fmt.Sprintf(format, args...), Op: r.ticks}})
}

func (r *run) note(format string, args ...interface{}) {
	s := fmt.Sprintf(format, args...)
	r.h = Mix(r.h, HashString(s))
	if r.log {
		fmt.Fprintf(os.Stderr, "%4d %s\n", r.ticks, s)
	}
}

var libFrame = regexp.MustCompile(`/repo/shlib/\S+\.go:\d+`)

func execute(t Trace) (res result) {
	r := &run{t: t, stats: map[string]int{}, log: os.Getenv("SIM_TRACE") != ""}
	defer func() {
		if p := recover(); p != nil {
			if s, ok := p.(stop); ok {
				res.viol = s.v
			} else {
				frames := libFrame.FindAllString(string(debug.Stack()), -1)
				if len(frames) == 0 {
					panic(p)
				}
				if len(frames) > 4 {
					frames = frames[:4]
				}
				res.viol = &Violation{Props: []string{t.Prop}, Class: "panic", Msg: fmt.Sprintf("%v at %s", p, strings.Join(frames, ", ")), Op: r.ticks}
			}
			r.note("violation %s %s", res.viol.Class, res.viol.Msg)
		}
		res.hash, res.stats, res.ticks, res.rich = r.h, r.stats, r.ticks, r.rich
	}()
	switch t.Prop {
	case "S01":
		runDKG(r)
	case "S02":
		runDecryption(r)
	default:
		panic("unknown property")
	}
	return
}

func generate(prop string, seed uint64) Trace {
	if prop == "S02" {
		return genDecryption(seed)
	}
	return genDKG(seed)
}

type report struct {
	Type      string         `json:"type"`
	Runs      int            `json:"runs"`
	Foreign   int            `json:"foreign"`
	Nontriv   int            `json:"nontrivial"`
	Distinct  []uint64       `json:"distinct"`
	Stats     map[string]int `json:"stats"`
	Samples   []interface{}  `json:"samples"`
	SimNanos  int64          `json:"sim_ns"`
	RunHashes []string       `json:"run_hashes,omitempty"`
}

func emit(v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	os.Stdout.Write(append(b, '\n'))
}

type skipList []string

func (s *skipList) String() string     { return strings.Join(*s, ",") }
func (s *skipList) Set(v string) error { *s = append(*s, v); return nil }

func (s skipList) skips(v *Violation) bool {
	for _, x := range s {
		p := strings.SplitN(x, "=", 2)
		if p[0] == v.Class && (len(p) == 1 || regexp.MustCompile(p[1]).MatchString(v.Msg)) {
			return true
		}
	}
	return false
}

func main() {
	prop := flag.String("prop", "S01", "")
	seed := flag.Uint64("seed", 1, "")
	first := flag.Int("first", 0, "")
	step := flag.Int("step", 1, "")
	n := flag.Int("n", 1000000, "")
	wall := flag.Float64("wall", 10, "seconds")
	_ = flag.String("scratch", "", "")
	replay := flag.String("replay", "", "")
	minimize := flag.String("minimize", "", "")
	hashes := flag.Bool("hashes", false, "")
	var skip skipList
	flag.Var(&skip, "skip", "class=regexp of violations that are known")
	flag.Parse()
	debug.SetGCPercent(400)

	if *replay != "" {
		res := execute(loadTrace(*replay))
		emit(map[string]interface{}{"type": "replay", "hash": fmt.Sprintf("%016x", res.hash), "violation": res.viol, "stats": res.stats})
		return
	}
	if *minimize != "" {
		emit(minimise(loadTrace(*minimize)))
		return
	}

	if f := os.Getenv("SIM_CPUPROF"); f != "" {
		h, err := os.Create(f)
		if err != nil {
			panic(err)
		}
		if err := pprof.StartCPUProfile(h); err != nil {
			panic(err)
		}
		defer pprof.StopCPUProfile()
	}
	start := time.Now()
	rep := report{Type: "report", Stats: map[string]int{}}
	seen := map[uint64]bool{}
	for k := 0; k < *n; k++ {
		if time.Since(start).Seconds() > *wall {
			break
		}
		emit(map[string]interface{}{"type": "run", "k": *first + k**step})
		s := Mix(*seed, HashString(*prop), uint64(*first+k**step))
		t := generate(*prop, s)
		res := execute(t)
		rep.Runs++
		rep.SimNanos += int64(res.ticks) * 1e9
		for k, v := range res.stats {
			rep.Stats[k] += v
		}
		if res.rich {
			rep.Nontriv++
			if !seen[res.hash] {
				seen[res.hash] = true
				rep.Distinct = append(rep.Distinct, res.hash)
			}
		}
		if *hashes {
			rep.RunHashes = append(rep.RunHashes, fmt.Sprintf("%016x", res.hash))
		}
		if len(rep.Samples) < 2 && res.viol == nil {
			ev := t.Events
			if len(ev) > 4 {
				ev = ev[:4]
			}
			rep.Samples = append(rep.Samples, map[string]interface{}{"seed": s, "cfg": t.Cfg, "events": len(t.Events), "first_events": ev})
		}
		if res.viol != nil {
			if skip.skips(res.viol) {
				rep.Foreign++
				continue
			}
			emit(map[string]interface{}{"type": "violation", "seed": s, "violation": res.viol, "trace": t})
			break
		}
		if k%256 == 255 {
			runtime.GC()
		}
	}
	sort.Slice(rep.Distinct, func(i, j int) bool { return rep.Distinct[i] < rep.Distinct[j] })
	emit(rep)
}

func loadTrace(p string) Trace {
	b, err := os.ReadFile(p)
	if err != nil {
		panic(err)
	}
	var f struct {
		Trace Trace `json:"trace"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		panic(err)
	}
	return f.Trace
}

type minimised struct {
	Type      string     `json:"type"`
	Trace     Trace      `json:"trace"`
	Violation *Violation `json:"violation"`
	Hash      string     `json:"hash"`
	Before    int        `json:"ops_before"`
	After     int        `json:"ops_after"`
	Tries     int        `json:"tries"`
}

// minimise leaves out events while the same class of violation persists.
func minimise(t Trace) minimised {
	start := time.Now()
	m := minimised{Type: "minimised", Before: len(t.Events), Trace: t}
	best := execute(t)
	if best.viol == nil {
		return m
	}
	class := best.viol.Class
	try := func(c Trace) bool {
		if time.Since(start) > time.Minute {
			return false
		}
		m.Tries++
		r := execute(c)
		if r.viol != nil && r.viol.Class == class {
			t, best = c, r
			return true
		}
		return false
	}
	for again := true; again; {
		again = false
		for size := len(t.Events); size >= 1; size /= 2 {
			for i := 0; i+size <= len(t.Events); {
				c := t
				c.Events = append(append([]Event{}, t.Events[:i]...), t.Events[i+size:]...)
				if try(c) {
					again = true
				} else {
					i += size
				}
			}
		}
		for _, f := range []func(c *Cfg){
			func(c *Cfg) { c.Eons = 1 }, func(c *Cfg) { c.Epochs = 1 }, func(c *Cfg) { c.Msgs = 1 },
			func(c *Cfg) { c.L = 2 },
		} {
			c := t
			f(&c.Cfg)
			if fmt.Sprint(c.Cfg) != fmt.Sprint(t.Cfg) && try(c) {
				again = true
			}
		}
	}
	m.Trace, m.Violation, m.After, m.Hash = t, best.viol, len(t.Events), fmt.Sprintf("%016x", best.hash)
	return m
}
