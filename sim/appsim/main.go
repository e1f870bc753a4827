// Command appsim simulates replicas of the shuttermint application under crashes, disk faults,
// lag, local mempool traffic and hostile transactions.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"

	"verif/sim/simrt"
)

type report struct {
	Type      string         `json:"type"`
	Runs      int            `json:"runs"`
	Foreign   int            `json:"foreign"`
	Nontriv   int            `json:"nontrivial"`
	Distinct  []uint64       `json:"distinct"`
	Stats     map[string]int `json:"stats"`
	Samples   []interface{}  `json:"samples"`
	SimNanos  int64          `json:"sim_ns"`
	RunHashes []string       `json:"run_hashes,omitempty"`
	ForeignBy map[string]int `json:"foreign_by,omitempty"`
}

func emit(v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	os.Stdout.Write(append(b, '\n'))
}

func main() {
	prop := flag.String("prop", "A01", "")
	seed := flag.Uint64("seed", 1, "")
	first := flag.Int("first", 0, "")
	step := flag.Int("step", 1, "")
	n := flag.Int("n", 1000000, "")
	wall := flag.Float64("wall", 10, "seconds")
	scratch := flag.String("scratch", "", "")
	replay := flag.String("replay", "", "")
	minimize := flag.String("minimize", "", "")
	hashes := flag.Bool("hashes", false, "")
	flag.Parse()
	simrt.InstallDisk()
	dir := filepath.Join(*scratch, fmt.Sprintf("w%d", *first))

	if *replay != "" {
		t := loadTrace(*replay)
		res := runTrace(t, dir)
		out := map[string]interface{}{"type": "replay", "hash": fmt.Sprintf("%016x", res.hash), "violation": res.viol}
		emit(out)
		return
	}
	if *minimize != "" {
		t := loadTrace(*minimize)
		emit(minimise(t, dir))
		return
	}

	start := runtime.SimRealNano()
	rep := report{Type: "report", Stats: map[string]int{}, ForeignBy: map[string]int{}}
	seen := map[uint64]bool{}
	for k := 0; k < *n; k++ {
		if float64(runtime.SimRealNano()-start) > *wall*1e9 {
			break
		}
		emit(map[string]interface{}{"type": "run", "k": *first + k**step})
		s := simrt.Mix(*seed, simrt.HashString(*prop), uint64(*first+k**step))
		r := simrt.NewRng(s)
		g := randGenesis(r, s)
		var gn *gen
		t0 := timeNow()
		res := runWith(g, *prop, dir, func(w *world) {
			gn = newGen(w, r)
			gn.run()
		})
		rep.SimNanos += timeNow() - t0
		rep.Runs++
		for k, v := range res.stats {
			rep.Stats[k] += v
		}
		if res.stats["delivertx_accepted"] >= 5 {
			rep.Nontriv++
			if !seen[res.hash] {
				seen[res.hash] = true
				rep.Distinct = append(rep.Distinct, res.hash)
			}
		}
		if *hashes {
			rep.RunHashes = append(rep.RunHashes, fmt.Sprintf("%016x", res.hash))
		}
		if len(rep.Samples) < 2 && res.viol == nil && gn != nil {
			rep.Samples = append(rep.Samples, map[string]interface{}{"seed": s, "genesis": g, "ops": len(gn.ops), "first_ops": sampleOps(gn.ops)})
		}
		if res.viol != nil {
			if !res.viol.has(*prop) {
				rep.Foreign++
				rep.ForeignBy[res.viol.Props[0]+"/"+res.viol.Class]++
				continue
			}
			var ops []Op
			if gn != nil {
				ops = gn.ops
			}
			emit(map[string]interface{}{"type": "violation", "seed": s, "violation": res.viol, "trace": Trace{Prop: *prop, Genesis: g, Ops: ops}})
			break
		}
		if k%64 == 63 {
			runtime.SimGC()
		}
	}
	sort.Slice(rep.Distinct, func(i, j int) bool { return rep.Distinct[i] < rep.Distinct[j] })
	emit(rep)
}

func sampleOps(ops []Op) []Op {
	if len(ops) > 3 {
		ops = ops[:3]
	}
	return ops
}

func loadTrace(p string) Trace {
	b, err := os.ReadFile(p)
	if err != nil {
		panic(err)
	}
	var f struct {
		Trace Trace `json:"trace"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		panic(err)
	}
	return f.Trace
}

func hex16(x uint64) string { return fmt.Sprintf("%016x", x) }
