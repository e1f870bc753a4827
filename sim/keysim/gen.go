package main

import (
	"sort"

	"verif/sim/simrt"
)

// Event is one step of the environment: a fault, a Byzantine behaviour or a user's action. Every
// event can be left out of a run without changing any other.
type Event struct {
	ID   int    `json:"id"`
	Kind string `json:"kind"`
	At   int64  `json:"at_ms"`
	Dur  int64  `json:"dur_ms,omitempty"`
	Node int    `json:"node"`
	A    int    `json:"a,omitempty"`
	B    int    `json:"b,omitempty"`
	S    uint64 `json:"s,omitempty"`
}

// node fault kinds, with weights
var nodeFaults = []struct {
	kind string
	w    int
}{
	{"crash", 5}, {"crash_disk", 5}, {"crash_rpc", 5}, {"stop", 3}, {"stop_rpc", 4}, {"stop_disk", 4}, {"eth_fail", 3}, {"tm_fail", 3}, {"eth_down", 2}, {"tm_down", 2},
	{"eth_break", 2}, {"tm_break", 2}, {"eth_stall", 2}, {"tm_stall", 2}, {"eth_slow", 2}, {"tm_slow", 5},
	{"eth_lag", 2}, {"tm_lag", 2}, {"eth_freeze", 3}, {"tm_freeze", 3}, {"eth_lose", 2}, {"tm_lose", 3},
	{"eth_syncing", 3}, {"tm_catchup", 3}, {"eth_regress", 2}, {"tm_regress", 2}, {"partition", 3},
	{"eth_mute", 2}, {"tm_mute", 2}, {"eth_reject", 2}, {"tm_reject", 4}, {"tm_boundary", 4},
}

var globalFaults = []struct {
	kind string
	w    int
}{
	{"eth_reorg", 4}, {"eth_stop", 1}, {"tm_stop", 1}, {"tm_delay", 3}, {"eth_delay", 3}, {"tm_txlost", 2}, {"eth_congested", 2},
}

var byzDKG = []string{
	"eval_corrupt", "eval_invalid", "eval_garbage", "eval_drop", "commit_none", "commit_degree", "commit_random", "poly_zero",
	"accuse_false", "accuse_none", "apology_none", "apology_bad", "apology_unsolicited", "checkin_none", "vote_spurious",
	"dkg_late",
}

var byzEpoch = []string{
	"share_none", "share_bad", "share_epoch", "share_early", "sig_none", "sig_bad", "sig_other", "sig_extra", "sig_highs", "sig_copy",
	"exec_wrong", "exec_now", "accuse_eth", "config_bogus", "vote_spurious",
}

var byzSlash = []string{"exec_wrong", "exec_now", "exec_now", "accuse_eth"}

func (w *World) generate(r *simrt.Rng) {
	c := &w.cfg
	dkgOnly := w.tr.Prop == "K01" || w.tr.Prop == "K02"
	// the keypers have no key before the first batches have been skipped
	noKey := w.tr.Prop == "K02" && r.P(0.12) || !dkgOnly && r.P(0.04)
	if noKey {
		dkgOnly = false
	}
	c.N = r.Range(3, 5)
	if r.P(0.5) {
		c.N = r.Range(3, 4)
	}
	c.T = r.Range(2, c.N-1)
	maxF := c.N - c.T
	if c.T-1 < maxF {
		maxF = c.T - 1
	}
	nbyz := 0
	if maxF > 0 && r.P(0.65) {
		nbyz = r.Range(1, maxF)
	}
	c.Nodes = c.N
	c.Follow = uint64(r.Intn(4))
	c.Stagger = uint64(r.Intn(3))
	c.Span = uint64(r.Range(4, 7))
	c.Timeout = uint64(r.Range(8, 20))
	c.Phase = uint64(r.Range(5, 9))
	c.Start = uint64(r.Range(17, 28)) // relative to the deployment
	c.Batches = r.Range(4, 8)
	c.Limits = r.Intn(len(limits))
	if noKey {
		c.Timeout, c.Batches = uint64(r.Range(8, 10)), r.Range(5, 7)
		// time enough for what has been waiting meanwhile
		if c.Phase < 8 {
			c.Phase += 2
		}
	}
	if dkgOnly {
		c.Batches = r.Range(1, 2)
		c.Start = uint64(r.Range(25, 45))
	}
	nc := 0
	slashing := w.tr.Prop == "K09" && r.P(0.65)
	if slashing && nbyz == 0 && maxF > 0 {
		nbyz = 1
	}
	pair := w.tr.Prop == "K02" && r.P(0.2)
	if (r.P(0.45) || slashing || pair) && !noKey {
		nc = 1
		if r.P(0.45) || pair {
			nc = 2
		}
	}
	if nc > 0 && r.P(0.6) {
		c.Nodes++
	}
	longest, delayLast := c.Timeout, false
	for i := 0; i < nc; i++ {
		ids := r.Perm(c.Nodes)
		k := r.Range(3, len(ids))
		if k > 5 {
			k = 5
		}
		ch := Change{Set: append([]int{}, ids[:k]...), T: r.Range(2, k-1), Span: c.Span, Timeout: c.Timeout, Limits: c.Limits}
		if r.P(0.7) && !slashing {
			sort.Ints(ch.Set)
		}
		ch.After = uint64(r.Range(2, c.Batches+1))
		if i > 0 {
			ch.After = uint64(r.Range(1, 3))
		}
		if r.P(0.3) {
			ch.Span = uint64(r.Range(4, 7))
		}
		if r.P(0.4) {
			ch.Timeout = uint64(r.Range(8, 24))
		}
		if r.P(0.3) {
			ch.Limits = r.Intn(len(limits))
		}
		if i == 0 && !dkgOnly && r.P(0.25) {
			// the old config's last batches are delayed until after the new one's timeout
			c.Timeout, ch.Timeout, delayLast = uint64(r.Range(16, 24)), uint64(r.Range(8, 10)), true
			if ch.After > uint64(c.Batches) {
				ch.After = uint64(c.Batches)
			}
			longest = c.Timeout
		}
		if ch.Timeout > longest {
			longest = ch.Timeout
		}
		c.Changes = append(c.Changes, ch)
	}
	for _, i := range r.Perm(c.N) {
		if len(c.Byz) >= nbyz {
			break
		}
		// keep the number of Byzantine members of the other sets within its bound as well
		ok := true
		for _, ch := range c.Changes {
			in := 0
			for _, j := range append(append([]int{}, c.Byz...), i) {
				for _, s := range ch.Set {
					if s == j {
						in++
					}
				}
			}
			ok = ok && in <= len(ch.Set)-ch.T && in <= ch.T-1
		}
		if !ok {
			continue
		}
		c.Byz = append(c.Byz, i)
	}
	sort.Ints(c.Byz)
	c.FaultEnd = int64(c.Start+uint64(c.Batches)*c.Span)*2000 + int64(r.Intn(10000))
	// afterwards: DKG attempts that were under way, and batches still to be executed or skipped
	c.End = c.FaultEnd + int64(2*3*c.Phase+10)*1000 + int64(longest)*2000 + 60_000

	add := func(e Event) *Event {
		x := e
		x.ID = len(w.events)
		w.events = append(w.events, &x)
		return &x
	}
	startMs := int64(c.Start) * 2000

	// users
	for b := 0; b < c.Batches+2; b++ {
		open := startMs + int64(b)*int64(c.Span)*2000
		nt := r.Intn(5)
		if r.P(0.15) {
			nt = 0
		}
		if slashing && nt == 0 {
			nt = 1
		}
		for i := 0; i < nt; i++ {
			at := open - 4000 + int64(r.Intn(int(c.Span)*2000+4000))
			if at > c.FaultEnd+20_000 {
				continue
			}
			kind := "user_cipher"
			x := r.Intn(10)
			if slashing && i == 0 {
				// something to be executed wrongly and signed
			} else if x < 3 {
				kind = "user_plain"
			} else if x < 5 {
				kind = "user_bad"
			}
			add(Event{Kind: kind, At: at, Node: r.Intn(3), A: r.Intn(4), B: r.Intn(2), S: r.Uint64()})
		}
	}
	if !dkgOnly && r.P(0.3) {
		// somebody fills a batch
		b := r.Intn(c.Batches)
		open := startMs + int64(b)*int64(c.Span)*2000
		kind := "user_fill_plain"
		if r.P(0.4) {
			kind = "user_fill_cipher"
		}
		add(Event{Kind: kind, At: open + int64(r.Intn(int(c.Span-2)*2000)), Node: r.Intn(3), A: r.Range(5, 70), S: r.Uint64()})
	}
	for i := 0; i < 3; i++ {
		if !dkgOnly && r.P(0.2) {
			// anybody may skip empty batches
			add(Event{Kind: "user_skip", At: startMs + int64(r.Intn(int(c.FaultEnd-startMs))), Node: r.Intn(3), A: r.Range(1, 4)})
		}
	}
	at := int64(10_000)
	for i, batches := 0, uint64(0); i < len(c.Changes); i++ {
		// between just after the bootstrap and the last moment that leaves the batches seamless
		batches += c.Changes[i].After
		latest := startMs + int64(batches)*int64(c.Span)*2000 - int64(c.Span+headsUp+5)*2000
		if i > 0 && (r.P(0.6) || pair) {
			if r.P(0.4) || pair {
				at += int64(r.Intn(500)) // in the same block, or nearly
			} else {
				at += int64(r.Intn(12_000)) // both are under way at the same time
			}
		} else if latest > at {
			at += int64(r.Intn(int(latest - at)))
		}
		add(Event{Kind: "config_change", At: at, Node: -1, A: i})
		if i == 0 && delayLast {
			end := startMs + int64(batches*c.Span)*2000 + int64(c.Follow)*2000
			add(Event{Kind: "user_cipher", At: end - int64(c.Follow)*2000 - int64(r.Range(3000, 6000)), Node: r.Intn(3), S: r.Uint64()})
			add(Event{Kind: "tm_stop", At: end - int64(r.Intn(4000)), Dur: int64(r.Range(int(c.Changes[0].Timeout)*2000-2000, int(c.Timeout)*2000-8000)), Node: -1})
		}
	}

	// Byzantine keypers
	for _, b := range c.Byz {
		nb := r.Range(1, 4)
		for i := 0; i < nb; i++ {
			list := byzDKG
			if !dkgOnly && r.P(0.65) {
				list = byzEpoch
			}
			if slashing && i == 0 {
				list = byzSlash
			}
			kind := list[r.Intn(len(list))]
			if slashing && i == 0 && r.P(0.6) {
				// accusations that are in order and others that are not, at the same time
				kind = "exec_now"
				add(Event{Kind: "byz_accuse_eth", At: 1, Node: b, A: 31, B: r.Intn(4), S: r.Uint64()})
			}
			if dkgOnly && i == 0 && r.P(0.25) {
				kind = "dkg_late"
			}
			e := add(Event{Kind: "byz_" + kind, At: 1, Node: b, A: 1 + r.Intn(31), B: r.Intn(4), S: r.Uint64()})
			if kind == "dkg_late" && r.P(0.7) {
				if r.P(0.5) {
					e.A = 1 << uint(r.Intn(4))
				}
				// others that see the phase's last and the next phase's first messages at once
				for _, k := range r.Perm(c.Nodes)[:r.Range(2, 3)] {
					add(Event{Kind: "tm_boundary", At: 4000, Dur: int64(r.Range(3000, 8000)), Node: k, S: r.Uint64()})
				}
			}
			if kind == "poly_zero" && r.P(0.6) {
				// something that matters when the state is restored
				for k := 0; k < c.Nodes; k++ {
					at := int64(5000 + r.Intn(int(c.Phase)*3000+8000))
					add(Event{Kind: "crash", At: at, Dur: int64(r.Range(300, 2500)), Node: k, A: r.Intn(2), S: r.Uint64()})
				}
			}
			if (kind == "sig_highs" || kind == "sig_copy") && r.P(0.6) {
				// something that makes the signatures matter
				add(Event{Kind: "byz_accuse_eth", At: 1, Node: b, A: 1 + r.Intn(31), B: r.Intn(4), S: r.Uint64()})
			}
		}
	}

	if noKey {
		end := startMs + int64(c.Span+c.Timeout+c.Follow)*2000 + int64(r.Range(2000, 8000))
		for k := 0; k < c.N; k++ {
			at := int64(r.Range(4000, 9000))
			add(Event{Kind: "tm_reject", At: at, Dur: end - at + int64(r.Intn(1500)), Node: k, A: 1, S: r.Uint64()})
		}
	}

	// faults: each run uses a random subset of the kinds
	level := r.Intn(10)
	if level == 0 {
		return
	}
	nf := r.Range(1, 6)
	if level > 4 {
		nf = r.Range(6, 16)
	}
	var nk []int
	for i, f := range nodeFaults {
		if r.P(0.45) {
			for j := 0; j < f.w; j++ {
				nk = append(nk, i)
			}
		}
	}
	var gk []int
	for i, f := range globalFaults {
		if r.P(0.5) {
			for j := 0; j < f.w; j++ {
				gk = append(gk, i)
			}
		}
	}
	from, to := int64(3000), c.FaultEnd-2000
	for i := 0; i < nf; i++ {
		at := from + int64(r.Intn(int(to-from)))
		if r.P(0.4) { // concentrate on the first DKG and on batch ends
			if dkgOnly || r.P(0.4) {
				at = from + int64(r.Intn(int(c.Phase)*3000+12000))
			} else {
				b := r.Intn(c.Batches)
				at = startMs + int64(b+1)*int64(c.Span)*2000 + int64(r.Intn(8000)) - 2000
			}
			if at > to {
				at = to
			}
		}
		dur := int64(r.Range(500, 12000))
		if r.P(0.15) {
			dur = int64(r.Range(12000, 45000))
		}
		e := Event{At: at, Dur: dur, Node: r.Intn(c.Nodes), S: r.Uint64()}
		if len(gk) > 0 && r.P(0.25) || len(nk) == 0 {
			if len(gk) == 0 {
				continue
			}
			e.Kind, e.Node = globalFaults[gk[r.Intn(len(gk))]].kind, -1
			e.A = r.Range(1, 3)
			if e.Kind == "eth_stop" || e.Kind == "tm_stop" {
				e.Dur = int64(r.Range(3000, 40000))
			}
			if e.Kind == "eth_congested" {
				e.A = r.Range(4, 20)
				e.Dur = int64(r.Range(4000, 40000))
			}
		} else {
			e.Kind = nodeFaults[nk[r.Intn(len(nk))]].kind
			switch e.Kind {
			case "crash":
				e.A = r.Intn(2) // power loss
			case "crash_disk", "stop_disk":
				e.A, e.B = 1+r.Intn(24), r.Intn(4)
			case "crash_rpc", "stop_rpc":
				e.A, e.B = 1+r.Intn(30), r.Intn(4)
				if e.B&2 != 0 {
					e.A = r.Range(1, 5)
				}
			default:
				e.A = r.Range(1, 4)
			}
		}
		add(e)
		if (e.Kind == "tm_reject" || e.Kind == "eth_reject") && r.P(0.5) {
			// the process ends while things wait to be sent
			add(Event{Kind: []string{"crash", "stop"}[r.Intn(2)], At: at + int64(r.Intn(int(dur)+1500)), Dur: int64(r.Range(300, 4000)), Node: e.Node, S: r.Uint64()})
		}
	}
	if w.tr.Prop == "K05" && r.P(0.6) {
		// messages pile up, then the process ends
		for _, k := range r.Perm(c.Nodes)[:r.Range(1, 3)] {
			at := from + int64(r.Intn(14_000))
			if r.P(0.4) {
				at = startMs + int64(r.Range(1, c.Batches))*int64(c.Span)*2000 - int64(r.Intn(2000))
			}
			dur := int64(r.Range(5000, 16000))
			add(Event{Kind: "tm_reject", At: at, Dur: dur, Node: k, S: r.Uint64()})
			add(Event{Kind: []string{"crash", "stop"}[r.Intn(2)], At: at + dur/3 + int64(r.Intn(int(dur)*2/3)), Dur: int64(r.Range(300, 4000)), Node: k, S: r.Uint64()})
		}
	}
	if r.P(0.3) {
		// a keyper that only watches, because one of its nodes says that it is catching up, is
		// restarted
		for _, k := range r.Perm(c.Nodes)[:r.Range(1, 3)] {
			at := from + int64(r.Intn(int(c.Phase)*3000+6000))
			if !dkgOnly && r.P(0.6) {
				at = startMs + int64(r.Range(1, c.Batches))*int64(c.Span)*2000 - int64(r.Intn(3000))
			}
			dur := int64(r.Range(4000, 12000))
			add(Event{Kind: []string{"eth_syncing", "tm_catchup"}[r.Intn(2)], At: at, Dur: dur, Node: k, S: r.Uint64()})
			add(Event{Kind: []string{"crash", "stop"}[r.Intn(2)], At: at + dur/2 + int64(r.Intn(int(dur)/2)), Dur: int64(r.Range(200, 2000)), Node: k, S: r.Uint64()})
		}
	}
	if r.P(0.3) {
		// requests that are answered blocks later, while keys are generated or epochs end
		for _, k := range r.Perm(c.Nodes)[:r.Range(1, 3)] {
			at := from + int64(r.Intn(int(c.Phase)*3000+6000))
			if !dkgOnly && r.P(0.7) {
				at = startMs + int64(r.Range(1, c.Batches))*int64(c.Span)*2000 + int64(c.Follow)*2000 - int64(r.Intn(3000))
			}
			add(Event{Kind: "tm_slow", At: at, Dur: int64(r.Range(4000, 12000)), Node: k, A: r.Range(2, 4), S: r.Uint64()})
		}
	}
	if r.P(0.25) {
		// several nodes are cut off at a time, for instance while keys are generated
		at := from + int64(r.Intn(int(to-from)))
		if r.P(0.6) {
			at = from + 5000 + int64(r.Intn(int(c.Phase)*3000))
		}
		dur := int64(r.Range(3000, int(c.Phase)*2000+6000))
		kind := []string{"tm_down", "tm_freeze", "tm_reject", "partition", "crash", "tm_boundary"}[r.Intn(6)]
		for _, k := range r.Perm(c.Nodes)[:r.Range(2, c.Nodes)] {
			add(Event{Kind: kind, At: at + int64(r.Intn(1500)), Dur: dur, Node: k, S: r.Uint64()})
		}
	}
}
