package main

import (
	"runtime"
	"time"
)

func timeNow() int64 { return time.Now().UnixNano() }

type minimised struct {
	Type      string     `json:"type"`
	Trace     Trace      `json:"trace"`
	Violation *Violation `json:"violation"`
	Hash      string     `json:"hash"`
	Before    int        `json:"ops_before"`
	After     int        `json:"ops_after"`
	Tries     int        `json:"tries"`
}

// minimise shrinks the op list while the same class of violation of the same property persists.
func minimise(t Trace, dir string) minimised {
	start := runtime.SimRealNano()
	m := minimised{Type: "minimised", Before: len(t.Ops)}
	first := runTrace(t, dir)
	m.Violation = first.viol
	if first.viol == nil || !first.viol.has(t.Prop) {
		m.Trace = t
		return m
	}
	class := first.viol.Class
	if first.viol.Op+1 < len(t.Ops) {
		t.Ops = t.Ops[:first.viol.Op+1]
	}
	best := first
	try := func(ops []Op) bool {
		if runtime.SimRealNano()-start > 60e9 {
			return false
		}
		m.Tries++
		c := t
		c.Ops = ops
		r := runTrace(c, dir)
		if r.viol != nil && r.viol.Class == class && r.viol.has(t.Prop) {
			best = r
			return true
		}
		return false
	}
	if !try(t.Ops) {
		t2 := t
		m.Trace = t2
		return m
	}
	// drop chunks of ops
	for size := len(t.Ops) / 2; size >= 1; {
		changed := false
		for i := 0; i+size <= len(t.Ops); {
			ops := append(append([]Op{}, t.Ops[:i]...), t.Ops[i+size:]...)
			if try(ops) {
				t.Ops = ops
				changed = true
			} else {
				i += size
			}
		}
		if size == 1 && !changed {
			break
		}
		if size > 1 {
			size /= 2
		}
	}
	// simplify each op
	for i := range t.Ops {
		edit := func(f func(o *Op)) {
			ops := append([]Op{}, t.Ops...)
			f(&ops[i])
			if try(ops) {
				t.Ops = ops
			}
		}
		for j := 0; j < len(t.Ops[i].Txs); {
			n := len(t.Ops[i].Txs)
			edit(func(o *Op) { o.Txs = append(append([]Tx{}, o.Txs[:j]...), o.Txs[j+1:]...) })
			if len(t.Ops[i].Txs) == n {
				j++
			}
		}
		if len(t.Ops[i].Checks) > 0 {
			edit(func(o *Op) { o.Checks = nil })
		}
		for j := 0; j < len(t.Ops[i].Checks); {
			n := len(t.Ops[i].Checks)
			edit(func(o *Op) { o.Checks = append(append([]Check{}, o.Checks[:j]...), o.Checks[j+1:]...) })
			if len(t.Ops[i].Checks) == n {
				j++
			}
		}
		if t.Ops[i].Dt != 0 {
			edit(func(o *Op) { o.Dt = 0 })
		}
		if t.Ops[i].CrashAt != 0 {
			edit(func(o *Op) { o.CrashAt = 0 })
		}
		if t.Ops[i].Disk != 0 {
			edit(func(o *Op) { o.Disk, o.DiskOp = 0, 0 })
		}
		if t.Ops[i].Power {
			edit(func(o *Op) { o.Power = false })
		}
	}
	m.Trace = t
	m.After = len(t.Ops)
	m.Violation = best.viol
	last := runTrace(t, dir)
	m.Hash = hex16(last.hash)
	m.Violation = last.viol
	return m
}
