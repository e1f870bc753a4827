package main

import (
	"fmt"
	"sort"

	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/crypto"

	"verif/sim/simrt"
)

// The workload and fault generator. It looks at the model of the chain tip so that most of what it
// sends is meaningful, and records every step as a concrete op.

type gen struct {
	near  int
	r     *simrt.Rng
	w     *world
	queue []Tx // transactions of ongoing campaigns
	sent  []Tx
	wt    map[string]float64
	ops   []Op
	nmax  uint64
	flood bool
	big   bool
}

var kinds = []string{"config", "started", "checkin", "eonvote", "dkg", "signature", "share", "garbage", "replay", "again", "flood"}

var focus = map[string][]string{
	"A01": {"config", "checkin", "dkg", "eonvote", "started", "signature", "again"},
	"A02": {"config", "checkin", "dkg", "eonvote", "started", "signature", "again"},
	"A03": {"share", "garbage", "replay", "signature"},
	"A04": {"config", "started"},
	"A05": {"checkin", "config", "started"},
	"A06": {"dkg", "eonvote", "config", "again"},
	"A07": {"signature", "share", "config", "again"},
	"A08": {"config", "share"},
}

func randGenesis(r *simrt.Rng, seed uint64) Genesis {
	n := r.Range(1, 6)
	g := Genesis{Seed: seed, Chain: "shutter-" + fmt.Sprint(r.Intn(3))}
	p := r.Perm(numAccounts)
	g.Keypers = append(g.Keypers, p[:n]...)
	g.Threshold = uint64(r.Range(1, n))
	if r.P(0.5) {
		g.Threshold = uint64((2*n + 2) / 3)
	}
	nv := r.Range(1, n)
	for i := 0; i < nv; i++ {
		g.Validators = append(g.Validators, i)
	}
	g.Power = 10
	g.Replicas = r.Range(2, 4)
	g.PersistMs = []int{0, 0, 500, 3000, 30000}[r.Intn(5)]
	g.LoseRenames = r.P(0.3)
	return g
}

func newGen(w *world, r *simrt.Rng) *gen {
	g := &gen{r: r, w: w, wt: map[string]float64{}}
	for _, k := range kinds {
		g.wt[k] = []float64{0, 0.3, 1, 1}[r.Intn(4)]
	}
	for _, k := range focus[w.prop] {
		g.wt[k] += 1.5
	}
	g.wt["again"] /= 2
	g.wt["flood"] = 0
	if r.P(0.03) || w.prop == "A03" && r.P(0.12) {
		g.wt["flood"] = 0.2
	}
	if g.wt["config"] < 0.3 {
		g.wt["config"] = 0.3
	}
	g.nmax = []uint64{12, 200, 0}[r.Intn(3)]
	g.near = -1
	if r.P(0.35) {
		g.near = r.Intn(32)
	}
	return g
}

func (g *gen) pick() string {
	t := 0.0
	for _, k := range kinds {
		t += g.wt[k]
	}
	x := g.r.Float() * t
	for _, k := range kinds {
		if x -= g.wt[k]; x < 0 {
			return k
		}
	}
	return "share"
}

func (g *gen) nonce() uint64 {
	if g.nmax == 0 {
		return g.r.Uint64()
	}
	// small but mostly unused numbers
	return uint64(g.r.Intn(int(g.nmax))) + uint64(len(g.sent))/3*uint64(g.r.Intn(2))
}

func (g *gen) tx(from int, m Msg) Tx {
	n := g.nonce()
	if g.r.P(0.9) && g.nmax != 0 {
		n = 1000 + uint64(len(g.sent)+len(g.queue))*7 + uint64(g.r.Intn(7))
	}
	return Tx{From: from, Chain: g.w.g.Chain, Nonce: n, Msg: m}
}

func idx(as []addr) []int {
	var r []int
	for _, a := range as {
		r = append(r, accountOf[a])
	}
	return r
}

func (g *gen) anyone() int { return g.r.Intn(numAccounts) }

func (g *gen) member(as []addr) int {
	if len(as) == 0 || g.r.P(0.07) {
		return g.anyone()
	}
	return accountOf[as[g.r.Intn(len(as))]]
}

// voters returns a random group of roughly threshold size.
func (g *gen) voters(as []addr, threshold uint64) []int {
	p := g.r.Perm(len(as))
	n := int(threshold)
	switch g.r.Intn(6) {
	case 0:
		n--
	case 1:
		n++
	case 2:
		n = len(as)
	case 3:
		n = g.r.Intn(len(as) + 1)
	}
	if n > len(as) {
		n = len(as)
	}
	if n < 0 {
		n = 0
	}
	var r []int
	for _, i := range p[:n] {
		r = append(r, accountOf[as[i]])
	}
	if g.r.P(0.15) {
		r = append(r, g.anyone())
	}
	if g.r.P(0.15) && len(r) > 0 {
		r = append(r, r[g.r.Intn(len(r))])
	}
	return r
}

func (g *gen) config() Msg {
	l := g.w.tip.last()
	m := Msg{Kind: "batch_config", Contract: g.r.Intn(2)}
	m.Start = l.start + uint64([]int{0, 1, 3, 10, 100}[g.r.Intn(5)])
	m.Index = l.index + uint64([]int{1, 1, 1, 1, 2}[g.r.Intn(5)])
	switch g.r.Intn(5) {
	case 0:
		m.Members = idx(l.keypers)
	case 1: // rotated
		k := idx(l.keypers)
		m.Members = append(k[1:len(k):len(k)], k[0])
	default:
		m.Members = g.r.Perm(numAccounts)[:g.r.Range(1, 6)]
	}
	m.Threshold = uint64(g.r.Range(1, len(m.Members)))
	if g.r.P(0.3) {
		m.Threshold = l.threshold
	}
	if g.r.P(0.08) {
		m.Started = true
	}
	if g.r.P(0.04) {
		m.ValUpd = true
	}
	if g.r.P(0.12) {
		switch g.r.Intn(9) {
		case 0:
			m.Threshold = 0
		case 1:
			m.Threshold = uint64(len(m.Members) + 1)
		case 2:
			m.Threshold = 1 << 63
		case 3:
			m.Threshold = ^uint64(0)
		case 4:
			m.Members = append(m.Members, m.Members[0])
		case 5:
			m.Members = append(m.Members, -2)
		case 6:
			m.Contract = -2
		case 7:
			m.Index = l.index
		case 8:
			if l.start > 0 {
				m.Start = l.start - 1
			} else {
				m.Members = nil
			}
		}
	}
	return m
}

func (g *gen) newTxs() []Tx {
	m := g.w.tip
	l := m.last()
	var out []Tx
	all := func() []addr {
		var as []addr
		seen := map[addr]bool{}
		for _, c := range m.configs {
			for _, k := range c.keypers {
				if !seen[k] {
					seen[k] = true
					as = append(as, k)
				}
			}
		}
		return as
	}
	switch g.pick() {
	case "config":
		c := g.config()
		vs := g.voters(l.keypers, l.threshold)
		alt := c
		if g.r.P(0.25) {
			switch g.r.Intn(4) {
			case 0:
				alt.Threshold = 1
			case 1:
				alt.Start++
			case 2:
				alt.Contract = 1 - alt.Contract
			case 3:
				alt.Members = append([]int{}, alt.Members...)
				if len(alt.Members) > 1 {
					alt.Members[0], alt.Members[1] = alt.Members[1], alt.Members[0]
				}
			}
		}
		for _, v := range vs {
			x := c
			if g.r.P(0.3) {
				x = alt
			}
			out = append(out, g.tx(v, x))
		}
	case "started":
		i := l.index
		if g.r.P(0.1) {
			i += uint64(g.r.Intn(2))*2 - 1 // wraps around at zero
		}
		c := l
		if len(m.configs) > 1 && g.r.P(0.9) {
			c = m.configs[len(m.configs)-2]
		}
		for _, v := range g.voters(c.keypers, c.threshold) {
			out = append(out, g.tx(v, Msg{Kind: "config_started", Index: i}))
		}
	case "checkin":
		for _, v := range g.voters(l.keypers, l.threshold) {
			a := accounts[v]
			x := Msg{Kind: "check_in", Val: hexutil.Encode(a.val), Enc: hexutil.Encode(a.enc)}
			if g.near >= 0 {
				// validator keys are free to choose: let them all but coincide
				v := crypto.Keccak256([]byte("near"))
				v[g.near] = a.val[0]
				x.Val = hexutil.Encode(v)
			}
			switch g.r.Intn(20) {
			case 0:
				x.Val = x.Val[:len(x.Val)-2]
			case 1:
				x.Enc = x.Enc[:len(x.Enc)-2]
			case 2:
				x.Enc = "0x04" + x.Enc[4:]
			case 3:
				x.Val = hexutil.Encode(accounts[g.anyone()].val)
			case 4:
				x.Val = hexutil.Encode([]byte(noValidator))
			case 5:
				x.Val = hexutil.Encode(genesisVal(g.r.Intn(3)))
			}
			out = append(out, g.tx(v, x))
		}
	case "eonvote":
		c := m.configs[g.r.Intn(len(m.configs))]
		s := c.start + uint64(g.r.Intn(4))
		for _, v := range g.voters(c.keypers, c.threshold) {
			x := s
			if g.r.P(0.2) {
				x += uint64(g.r.Intn(3))
			}
			out = append(out, g.tx(v, Msg{Kind: "eon_vote", Start: x}))
		}
	case "dkg":
		eon := m.eonCount
		if eon > 1 && g.r.P(0.3) {
			eon = uint64(g.r.Range(1, int(eon)))
		}
		if g.r.P(0.05) {
			eon = []uint64{0, m.eonCount + 1, ^uint64(0)}[g.r.Intn(3)]
		}
		e := m.eons[eon]
		var ks []addr
		if e != nil {
			ks = e.keypers
		} else {
			ks = l.keypers
		}
		for n := g.r.Range(1, 6); n > 0; n-- {
			from := g.member(ks)
			x := Msg{Eon: eon}
			peers := func() {
				p := g.r.Perm(len(ks))
				for _, i := range p[:g.r.Intn(len(ks)+1)] {
					a := accountOf[ks[i]]
					if a != from || g.r.P(0.04) {
						x.Members = append(x.Members, a)
					}
				}
				if g.r.P(0.06) {
					x.Members = append(x.Members, []int{-1, -2, g.anyone()}[g.r.Intn(3)])
				}
				if g.r.P(0.04) && len(x.Members) > 0 {
					x.Members = append(x.Members, x.Members[0])
				}
			}
			evals := func() {
				for range x.Members {
					x.Data = append(x.Data, hexutil.Encode(g.r.Bytes([]int{0, 1, 32, 32, 40, 113}[g.r.Intn(6)])))
				}
				if g.r.P(0.05) {
					x.Data = append(x.Data, "0x01")
				}
			}
			switch g.r.Intn(5) {
			case 0, 1:
				x.Kind = "poly_eval"
				peers()
				evals()
			case 2:
				x.Kind = "commitment"
				for i := g.r.Range(0, 4); i > 0; i-- {
					x.Data = append(x.Data, fmt.Sprintf("gen:%d", g.r.Range(1, 6)))
				}
				if g.r.P(0.1) {
					x.Data = append(x.Data, hexutil.Encode(g.r.Bytes([]int{0, 10, 128, 130}[g.r.Intn(4)])))
				}
				if g.r.P(0.03) {
					x.Data = append(x.Data, hexutil.Encode(make([]byte, 128)))
				}
			case 3:
				x.Kind = "accusation"
				peers()
			case 4:
				x.Kind = "apology"
				peers()
				evals()
			}
			out = append(out, g.tx(from, x))
		}
	case "signature":
		c := m.configs[g.r.Intn(len(m.configs))]
		b := c.start + uint64(g.r.Intn(3))
		for _, v := range g.voters(c.keypers, c.threshold) {
			out = append(out, g.tx(v, Msg{Kind: "signature", Index: b, Data: []string{hexutil.Encode(g.r.Bytes([]int{65, 65, 65, 0, 1, 200}[g.r.Intn(6)]))}}))
		}
	case "share":
		as := all()
		for n := g.r.Range(1, 3); n > 0; n-- {
			d := fmt.Sprintf("gen:%d", g.r.Range(1, 9))
			if g.r.P(0.1) {
				d = hexutil.Encode(g.r.Bytes([]int{0, 63, 64, 65}[g.r.Intn(4)]))
			}
			out = append(out, g.tx(g.member(as), Msg{Kind: "key_share", Eon: uint64(g.r.Intn(3)), Index: uint64(g.r.Intn(50)), Data: []string{d}}))
		}
	case "garbage":
		t := g.tx(g.member(all()), Msg{Kind: "key_share", Eon: 1, Index: uint64(g.r.Intn(50)), Data: []string{"gen:3"}})
		if len(g.sent) > 0 && g.r.P(0.5) {
			t = g.sent[g.r.Intn(len(g.sent))]
		}
		t.Arg = g.r.Intn(100000)
		switch g.r.Intn(10) {
		case 0:
			t.Mangle = "flip"
		case 1:
			t.Mangle = "truncate"
		case 2:
			t.Mangle = "append"
		case 3:
			t.Mangle = "payload"
		case 4:
			t.Mangle = "padded"
		case 5:
			t.Mangle = "raw"
		case 6:
			t.Mangle = "newline"
		case 7:
			t.Mangle = ""
			t.Chain = []string{"", "shutter-x", t.Chain + "x", "shutter"}[g.r.Intn(4)]
		case 8:
			t.Mangle = ""
			t.Msg = Msg{Kind: "empty"}
		case 9:
			t.Mangle = ""
			t.Msg = Msg{Kind: "nil"}
		}
		out = append(out, t)
	case "replay":
		for n := g.r.Range(1, 3); n > 0 && len(g.sent) > 0; n-- {
			t := g.sent[g.r.Intn(len(g.sent))]
			switch g.r.Intn(6) {
			case 5: // a number that differs in one bit only
				t.Nonce ^= 1 << g.r.Intn(64)
				t.Mangle = ""
			case 0:
				t.Mangle = "malleate"
			case 1: // same number, other content
				t.Msg = Msg{Kind: "key_share", Eon: 1, Index: uint64(g.r.Intn(50)), Data: []string{"gen:4"}}
				t.Mangle = ""
			case 2: // same number, other sender
				t.From = g.anyone()
				t.Mangle = ""
			}
			out = append(out, t)
		}
	case "again": // the same statement in a new message
		for n := g.r.Range(1, 4); n > 0 && len(g.sent) > 0; n-- {
			t := g.sent[g.r.Intn(len(g.sent))]
			if g.r.P(0.5) {
				t = g.sent[g.r.Intn(len(g.sent)/3+1)]
			}
			if g.r.P(0.5) { // kinds which come in small numbers too
				kind := []string{"signature", "poly_eval", "commitment", "accusation", "apology", "check_in", "batch_config"}[g.r.Intn(7)]
				var of []Tx
				for _, u := range g.sent {
					if u.Msg.Kind == kind {
						of = append(of, u)
					}
				}
				if len(of) > 0 {
					t = of[g.r.Intn(len(of))]
				}
			}
			x := g.tx(t.From, t.Msg)
			if (t.Msg.Kind == "signature" || t.Msg.Kind == "poly_eval") && g.r.P(0.5) {
				x.Msg.Data = append([]string{}, x.Msg.Data...)
				for i := range x.Msg.Data {
					x.Msg.Data[i] = hexutil.Encode(g.r.Bytes(65))
				}
			}
			out = append(out, x)
		}
	case "flood": // hundreds of messages from one sender, and replays of the first ones
		from := g.member(all())
		n := []int{40, 80, 150, 300, 600}[g.r.Intn(5)]
		for i := 0; i < n; i++ {
			out = append(out, g.tx(from, Msg{Kind: "key_share", Eon: 1, Index: uint64(i), Data: []string{"gen:2"}}))
		}
		for _, i := range g.r.Perm(n)[:10] {
			out = append(out, out[i])
		}
		g.wt["flood"] = 0
		g.flood = true
	}
	return out
}

func (g *gen) do(op Op) {
	g.ops = append(g.ops, op)
	g.w.op = len(g.ops) - 1
	g.w.do(op)
}

func (g *gen) checks(n int) []Check {
	var cs []Check
	p := 0.15
	if g.w.prop == "A08" {
		p = 0.6
	}
	if !g.r.P(p) {
		return nil
	}
	burst := g.r.P(0.3)
	k := g.r.Range(1, 4)
	if burst {
		k = g.r.Range(8, 14)
	}
	from := g.anyone()
	at := g.r.Intn(n + 4)
	for i := 0; i < k; i++ {
		var t Tx
		switch {
		case burst:
			t = g.tx(from, Msg{Kind: "key_share", Eon: 1, Index: uint64(i), Data: []string{"gen:2"}})
			t.Nonce = g.r.Uint64()
			if g.r.P(0.1) && len(cs) > 0 {
				t = cs[g.r.Intn(len(cs))].Tx
			}
		case len(g.sent) > 0 && g.r.P(0.4):
			t = g.sent[g.r.Intn(len(g.sent))]
		case len(g.queue) > 0:
			t = g.queue[g.r.Intn(len(g.queue))]
		default:
			t = g.tx(g.anyone(), Msg{Kind: "key_share", Eon: 1, Data: []string{"gen:2"}})
		}
		if g.r.P(0.1) {
			t.Mangle, t.Arg = []string{"flip", "malleate", "truncate", "raw"}[g.r.Intn(4)], g.r.Intn(10000)
		}
		if g.r.P(0.05) {
			t.Chain += "z"
		}
		a := at
		if g.r.P(0.3) {
			a = g.r.Intn(n + 4)
		}
		cs = append(cs, Check{At: a, Recheck: g.r.P(0.2), Tx: t})
	}
	sort.SliceStable(cs, func(i, j int) bool { return cs[i].At < cs[j].At })
	return cs
}

func (g *gen) run() {
	r := g.r
	blocks := r.Range(6, 30)
	crashP := []float64{0, 0.05, 0.15, 0.3}[r.Intn(4)]
	diskP := []float64{0, 0.05, 0.2}[r.Intn(3)]
	if g.w.prop == "A02" {
		crashP = []float64{0.08, 0.15, 0.3}[r.Intn(3)]
	}
	for b := 0; b < blocks; b++ {
		for n := r.Intn(3); n > 0 || len(g.queue) == 0; n-- {
			g.queue = append(g.queue, g.newTxs()...)
			if n <= 0 && r.P(0.5) {
				break
			}
		}
		n := r.Intn(9)
		if g.flood {
			n = 200
		}
		var txs []Tx
		for ; n > 0 && len(g.queue) > 0; n-- {
			i := 0
			if !g.flood && r.P(0.4) {
				i = r.Intn(len(g.queue))
			}
			t := g.queue[i]
			g.queue = append(g.queue[:i:i], g.queue[i+1:]...)
			if r.P(0.04) {
				continue // lost
			}
			txs = append(txs, t)
			g.sent = append(g.sent, t)
			if r.P(0.04) {
				txs = append(txs, t) // included twice
			}
		}
		if len(g.queue) == 0 {
			g.flood = false
		}
		if len(g.queue) > 25 && !g.flood {
			g.queue = g.queue[r.Intn(10):]
		}
		dt := int64(r.Intn(8000))
		if r.P(0.05) {
			dt = int64(r.Intn(86400000))
		}
		g.do(Op{Kind: "block", Txs: txs, Dt: dt, Checks: g.checks(len(txs))})
		for i := 1; i < len(g.w.reps); i++ {
			rep := g.w.reps[i]
			if !rep.alive {
				if r.P(0.5) {
					g.do(Op{Kind: "restart", R: i, Dt: int64(r.Intn(3000))})
				}
				continue
			}
			for rep.alive && rep.height < len(g.w.chain) && !r.P(0.15) {
				k := len(g.w.chain[rep.height].txs)
				op := Op{Kind: "exec", R: i, Checks: g.checks(k), Dt: int64(r.Intn(1500))}
				if r.P(crashP) {
					op.CrashAt = r.Range(1, k+4)
					op.Power = r.P(0.5)
				} else if r.P(diskP + crashP) {
					op.DiskOp = r.Range(1, 6)
					op.Disk = r.Range(1, 4)
					if crashP == 0 {
						op.Disk = r.Range(1, 3)
					}
					op.Power = r.P(0.5)
				}
				g.do(op)
			}
		}
	}
	g.w.op = len(g.ops)
	g.w.settle()
}
