package main

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"math/big"
	"sort"

	"github.com/shutter-network/shutter/shlib/puredkg"
	"github.com/shutter-network/shutter/shlib/shcrypto"
)

// The distributed key generation: n nodes that read the same log of messages, block by block, and
// drive one PureDKG each per eon.

type kind int

const (
	kCommit = kind(iota)
	kEval
	kAccuse
	kApology
)

var kindNames = [...]string{"commitment", "evaluation", "accusation", "apology"}

type message struct {
	ID       uint64
	Kind     kind
	Eon      int
	Sender   int
	Receiver int // of an evaluation
	Accuser  int
	Accused  int
	Wire     []byte     // commitment
	Exps     []*big.Int // the commitment's discrete logarithms; nil if it cannot be decoded
	Eval     *big.Int
	Sent     bool
}

func (m *message) String() string {
	switch m.Kind {
	case kCommit:
		return fmt.Sprintf("commitment of %d, eon %d, %d points", m.Sender, m.Eon, len(m.Exps))
	case kEval:
		return fmt.Sprintf("evaluation %d to %d, eon %d: %s", m.Sender, m.Receiver, m.Eon, short(m.Eval))
	case kAccuse:
		return fmt.Sprintf("accusation %d of %d, eon %d", m.Accuser, m.Accused, m.Eon)
	}
	return fmt.Sprintf("apology of %d to %d, eon %d: %s", m.Accused, m.Accuser, m.Eon, short(m.Eval))
}

func short(x *big.Int) string {
	s := x.Text(16)
	if len(s) > 10 {
		s = s[:10] + fmt.Sprintf("..(%d)", len(s))
	}
	return s
}

// model is the reference: what one party must have accepted and concluded.
type model struct {
	phase  puredkg.Phase
	poly   []*big.Int
	commit [][]*big.Int
	evals  []*big.Int
	accus  map[[2]int]bool
	apol   map[[2]int]*big.Int
}

func newModel(n int) *model {
	return &model{commit: make([][]*big.Int, n), evals: make([]*big.Int, n), accus: map[[2]int]bool{}, apol: map[[2]int]*big.Int{}}
}

func (m *model) clone() *model {
	c := &model{phase: m.phase, poly: m.poly, commit: append([][]*big.Int{}, m.commit...), evals: append([]*big.Int{}, m.evals...),
		accus: map[[2]int]bool{}, apol: map[[2]int]*big.Int{}}
	for k, v := range m.accus {
		c.accus[k] = v
	}
	for k, v := range m.apol {
		c.apol[k] = v
	}
	return c
}

func inRange(x *big.Int) bool { return x.Sign() >= 0 && x.Cmp(order) < 0 }

// accept decides whether the party self must accept the message, and records it.
func (m *model) accept(msg *message, self, eon, t int) (bool, string) {
	if msg.Eon != eon {
		return false, "other eon"
	}
	switch msg.Kind {
	case kCommit:
		switch {
		case m.phase > puredkg.Dealing:
			return false, "late"
		case m.commit[msg.Sender] != nil:
			return false, "duplicate"
		case len(msg.Exps) != t:
			return false, "degree"
		}
		m.commit[msg.Sender] = msg.Exps
	case kEval:
		switch {
		case m.phase > puredkg.Dealing:
			return false, "late"
		case msg.Receiver != self:
			return false, "other receiver"
		case m.evals[msg.Sender] != nil:
			return false, "duplicate"
		case !inRange(msg.Eval):
			return false, "range"
		}
		m.evals[msg.Sender] = msg.Eval
	case kAccuse:
		k := [2]int{msg.Accuser, msg.Accused}
		switch {
		case m.phase > puredkg.Accusing:
			return false, "late"
		case m.accus[k]:
			return false, "duplicate"
		}
		m.accus[k] = true
	case kApology:
		k := [2]int{msg.Accuser, msg.Accused}
		switch {
		case m.phase > puredkg.Apologizing:
			return false, "late"
		case m.apol[k] != nil:
			return false, "duplicate"
		case !inRange(msg.Eval):
			return false, "range"
		}
		m.apol[k] = msg.Eval
	}
	return true, ""
}

// matches says whether an evaluation for the party fits a commitment.
func matches(commit []*big.Int, party int, eval *big.Int) bool {
	return commit != nil && eval != nil && polyAt(commit, int64(party)+1).Cmp(eval) == 0
}

func (m *model) corrupt(d int) bool {
	if m.commit[d] == nil {
		return true
	}
	for k, e := range m.apol {
		if k[1] == d && !matches(m.commit[d], k[0], e) {
			return true
		}
	}
	for k := range m.accus {
		if k[1] == d && m.apol[k] == nil {
			return true
		}
	}
	return false
}

type outcome struct {
	ok    bool
	why   string
	qual  []int
	coefs []*big.Int // of the sum of the qualified dealers' polynomials
	share *big.Int
}

func (m *model) outcome(self, n, t int) outcome {
	o := outcome{share: new(big.Int)}
	for i := 0; i < t; i++ {
		o.coefs = append(o.coefs, new(big.Int))
	}
	for d := 0; d < n; d++ {
		if m.corrupt(d) {
			continue
		}
		e := m.evals[d]
		if a := m.apol[[2]int{self, d}]; a != nil {
			e = a
		}
		if !matches(m.commit[d], self, e) {
			o.why = fmt.Sprintf("dealer %d cheated on this party, but the accusation was not recorded", d)
			return o
		}
		o.qual = append(o.qual, d)
		for i := range o.coefs {
			o.coefs[i].Add(o.coefs[i], m.commit[d][i])
		}
		o.share.Add(o.share, e)
	}
	o.share.Mod(o.share, order)
	if len(o.qual) < t {
		o.why = fmt.Sprintf("only %d dealers qualified", len(o.qual))
		return o
	}
	o.ok = true
	return o
}

// eonState is what a party keeps on disk for one eon.
type eonState struct {
	Pure   *puredkg.PureDKG
	Done   bool
	Failed bool
	Result *puredkg.Result
}

type diskState struct {
	Cursor int
	Eons   []eonState
	Outbox []message
}

type party struct {
	id      int
	st      diskState
	models  []*model
	saved   []byte
	savedM  []*model
	byz     bool
	busyTil int // does not read blocks before that height
	down    bool
	qual    [][]int
}

type dkgWorld struct {
	*run
	rng     *Rng
	start   []int
	parties []*party
	blocks  [][]*message
	pool    map[int][]*message
	height  int
	seq     uint64
	crashes map[[2]int]Event
	alts    map[int]Event
	mutes   map[int][]Event
	delays  map[int][]Event
	says    map[int][]Event
	lags    map[int][]Event
	misc    map[int][]Event
	honest  bool // nothing but the misbehaving parties disturbs this run
}

func genDKG(seed uint64) Trace {
	r := NewRng(seed)
	c := Cfg{N: r.Range(1, 6), L: r.Range(2, 5), Eons: 1}
	if c.N < 3 && r.P(0.8) || c.N > 4 && r.P(0.6) {
		c.N = r.Range(3, 4)
	}
	c.T = r.Range(1, c.N)
	if r.P(0.3) {
		c.Eons = 2
	}
	f := c.N - c.T
	if f > 0 && r.P(0.85) {
		k := r.Range(1, f)
		for _, i := range r.Perm(c.N)[:k] {
			c.Byz = append(c.Byz, i)
		}
		sort.Ints(c.Byz)
	}
	c.Faulty = r.P(0.6)
	t := Trace{Prop: "S01", Seed: seed, Cfg: c}
	add := func(e Event) {
		e.ID = len(t.Events) + 1
		e.Seed = r.Uint64()
		t.Events = append(t.Events, e)
	}
	end := 3*c.L + 2 + 3*(c.Eons-1)
	for _, b := range c.Byz {
		if r.P(0.3) {
			add(Event{Kind: "alt", Node: b, A: r.Intn(c.N), B: r.Intn(3)})
		}
		for i := r.Intn(4); i > 0; i-- {
			add(Event{Kind: "mute", Node: b, A: r.Intn(4), B: r.Range(-1, c.N-1)})
		}
		for i := r.Intn(3); i > 0; i-- {
			add(Event{Kind: "delay", Node: b, A: r.Intn(4), B: r.Range(-1, c.N-1), C: r.Range(1, 3*c.L)})
		}
		for i := r.Intn(2 + c.N); i > 0; i-- {
			k := r.Intn(4)
			at := 1 + k*c.L + r.Intn(c.L)
			if k > 0 {
				at -= c.L
			}
			if r.P(0.3) {
				at = r.Range(1, end)
			}
			add(Event{Kind: "say", Node: b, At: at, A: k, B: r.Intn(c.N), C: r.Intn(16)})
		}
	}
	for i := r.Intn(4); i > 0; i-- {
		add(Event{Kind: "misroute", Node: r.Intn(c.N), At: r.Range(1, end), A: r.Intn(2)})
	}
	for i := r.Intn(3); i > 0; i-- {
		add(Event{Kind: "redeliver", Node: r.Intn(c.N), At: r.Range(1, end)})
	}
	// crashes of parties that restart at once do not count as disturbance
	for i := r.Intn(4); i > 0; i-- {
		down := 0
		if c.Faulty {
			down = r.Intn(2 * c.L)
		}
		add(Event{Kind: "crash", Node: r.Intn(c.N), At: r.Range(1, end), A: r.Intn(5), B: r.Intn(8), C: down})
	}
	if c.Faulty {
		for i := r.Intn(3); i > 0; i-- {
			add(Event{Kind: "lag", Node: r.Intn(c.N), At: r.Range(1, end), C: r.Range(1, 2*c.L)})
		}
		for i := r.Intn(4); i > 0; i-- {
			d := r.Range(1, 2*c.L)
			if r.P(0.3) {
				d = 1000
			}
			add(Event{Kind: "delay", Node: r.Intn(c.N), A: r.Intn(4), B: r.Range(-1, c.N-1), C: d})
		}
	}
	return t
}

func runDKG(r *run) {
	c := r.t.Cfg
	w := &dkgWorld{run: r, rng: NewRng(Mix(r.t.Seed, 7)), pool: map[int][]*message{}, crashes: map[[2]int]Event{}, alts: map[int]Event{},
		mutes: map[int][]Event{}, delays: map[int][]Event{}, says: map[int][]Event{}, lags: map[int][]Event{}, misc: map[int][]Event{}, honest: !c.Faulty}
	for _, e := range r.t.Events {
		switch e.Kind {
		case "alt":
			w.alts[e.Node] = e
		case "mute":
			w.mutes[e.Node] = append(w.mutes[e.Node], e)
		case "delay":
			w.delays[e.Node] = append(w.delays[e.Node], e)
		case "say":
			w.says[e.At] = append(w.says[e.At], e)
		case "lag":
			w.lags[e.At] = append(w.lags[e.At], e)
		case "crash":
			w.crashes[[2]int{e.Node, e.At}] = e
		default:
			w.misc[e.At] = append(w.misc[e.At], e)
		}
	}
	isByz := map[int]bool{}
	for _, b := range c.Byz {
		isByz[b] = true
	}
	for e := 0; e < c.Eons; e++ {
		w.start = append(w.start, 1+3*e)
	}
	for i := 0; i < c.N; i++ {
		p := &party{id: i, byz: isByz[i], qual: make([][]int, c.Eons)}
		for e := 0; e < c.Eons; e++ {
			d := puredkg.NewPureDKG(uint64(e), uint64(c.N), uint64(c.T), uint64(i))
			p.st.Eons = append(p.st.Eons, eonState{Pure: &d})
			p.models = append(p.models, newModel(c.N))
		}
		w.parties = append(w.parties, p)
		w.save(p)
	}
	end := w.start[c.Eons-1] + 3*c.L + 1
	limit := end + 4*c.L + 5
	w.blocks = append(w.blocks, nil)
	for w.height = 1; w.height <= limit; w.height++ {
		r.ticks++
		w.makeBlock()
		for _, e := range w.lags[w.height] {
			p := w.parties[e.Node]
			if til := w.height + e.C; til > p.busyTil {
				p.busyTil = til
			}
			r.stats["fault_lag"]++
		}
		for _, i := range w.rng.Perm(c.N) {
			w.turn(w.parties[i])
		}
	}
	w.judge()
}

// makeBlock puts the messages that are due into the next block, in an order decided by the seed.
func (w *dkgWorld) makeBlock() {
	for _, e := range w.says[w.height] {
		w.say(e)
	}
	ms := w.pool[w.height]
	delete(w.pool, w.height)
	sort.Slice(ms, func(i, j int) bool { return Mix(w.t.Seed, ms[i].ID) < Mix(w.t.Seed, ms[j].ID) })
	w.blocks = append(w.blocks, ms)
	for _, m := range ms {
		w.note("block %d: %s", w.height, m)
		w.stats["msg_"+kindNames[m.Kind]]++
	}
}

func (w *dkgWorld) save(p *party) {
	b := new(bytes.Buffer)
	if err := gob.NewEncoder(b).Encode(&p.st); err != nil {
		w.fail("not-storable", "party %d: the state of a DKG cannot be stored: %v", p.id, err)
	}
	p.saved = b.Bytes()
	p.savedM = nil
	for _, m := range p.models {
		p.savedM = append(p.savedM, m.clone())
	}
}

func (w *dkgWorld) restart(p *party) {
	p.st = diskState{}
	if err := gob.NewDecoder(bytes.NewReader(p.saved)).Decode(&p.st); err != nil {
		w.fail("not-storable", "party %d: the stored state of a DKG cannot be read: %v", p.id, err)
	}
	p.models = nil
	for _, m := range p.savedM {
		p.models = append(p.models, m.clone())
	}
	w.stats["restarts"]++
	w.note("party %d restarts at block %d", p.id, p.st.Cursor)
}

// turn lets a party read the blocks it has not seen yet.
func (w *dkgWorld) turn(p *party) {
	if w.height < p.busyTil {
		return
	}
	if p.down {
		p.down = false
		w.restart(p)
	}
	w.flush(p) // what a crash kept from being sent
	for p.st.Cursor < w.height {
		h := p.st.Cursor + 1
		ev, crash := w.crashes[[2]int{p.id, h}]
		if crash {
			delete(w.crashes, [2]int{p.id, h})
		}
		die := func(point int) bool {
			if !crash || ev.A != point {
				return false
			}
			w.stats["fault_crash"]++
			w.note("party %d crashes at block %d, point %d", p.id, h, point)
			p.busyTil = w.height + ev.C
			if ev.C == 0 {
				w.restart(p)
			} else {
				p.down = true
			}
			return true
		}
		if die(0) {
			w.turn(p)
			return
		}
		w.phases(p, h)
		for i, m := range w.blocks[h] {
			if i == ev.B && die(1) {
				w.turn(p)
				return
			}
			for e := range p.st.Eons {
				if m.Eon == e && (m.Kind != kEval || m.Receiver == p.id) {
					w.deliver(p, e, m)
				}
			}
		}
		for _, e := range w.misc[h] {
			if e.Node == p.id {
				w.disturb(p, e, h)
			}
		}
		if die(2) {
			w.turn(p)
			return
		}
		p.st.Cursor = h
		w.save(p)
		if die(3) {
			w.turn(p)
			return
		}
		w.flush(p)
		if die(4) {
			w.turn(p)
			return
		}
	}
}

func (w *dkgWorld) flush(p *party) {
	for i := range p.st.Outbox {
		m := &p.st.Outbox[i]
		if !m.Sent {
			m.Sent = true
			w.transmit(p, m)
		}
	}
}

// transmit hands a message to the network.
func (w *dkgWorld) transmit(p *party, m *message) {
	target := m.Receiver
	switch m.Kind {
	case kAccuse:
		target = m.Accused
	case kApology:
		target = m.Accuser
	}
	if p.byz {
		for _, e := range w.mutes[p.id] {
			if kind(e.A) == m.Kind && (e.B < 0 || m.Kind == kCommit || e.B == target) {
				w.stats["fault_withheld"]++
				return
			}
		}
		if e, ok := w.alts[p.id]; ok && (m.Kind == kCommit || m.Kind == kEval || m.Kind == kApology) {
			w.stats["fault_other_polynomial"]++
			poly := w.altPoly(e, m.Eon)
			switch m.Kind {
			case kCommit:
				m = w.commitMsg(p.id, m.Eon, poly)
			case kEval:
				m = &message{Kind: kEval, Eon: m.Eon, Sender: p.id, Receiver: m.Receiver, Eval: polyAt(poly, int64(m.Receiver)+1)}
			case kApology:
				m = &message{Kind: kApology, Eon: m.Eon, Sender: p.id, Accuser: m.Accuser, Accused: p.id, Eval: polyAt(poly, int64(m.Accuser)+1)}
			}
		}
	}
	at := w.height + 1
	for _, e := range w.delays[p.id] {
		if kind(e.A) == m.Kind && (e.B < 0 || m.Kind == kCommit || e.B == target) {
			at += e.C
			w.stats["fault_delayed"]++
			break
		}
	}
	w.put(m, at)
}

func (w *dkgWorld) put(m *message, at int) {
	w.seq++
	c := *m
	c.ID = w.seq
	w.pool[at] = append(w.pool[at], &c)
}

// altPoly is a polynomial chosen by a misbehaving dealer: with a root at the target's position,
// with zero coefficients, or just another one.
func (w *dkgWorld) altPoly(e Event, eon int) []*big.Int {
	r := NewRng(Mix(e.Seed, uint64(eon)))
	var p []*big.Int
	for i := 0; i < w.t.Cfg.T; i++ {
		p = append(p, randScalar(r))
	}
	switch e.B {
	case 1: // the target's evaluation is zero
		v := polyAt(p, int64(e.A)+1)
		p[0] = new(big.Int).Mod(new(big.Int).Sub(p[0], v), order)
	case 2: // contributes nothing to the secret
		p[0] = new(big.Int)
		if e.A%2 == 0 {
			for i := range p {
				p[i] = new(big.Int)
			}
		}
	}
	return p
}

func (w *dkgWorld) commitMsg(sender, eon int, exps []*big.Int) *message {
	m := &message{Kind: kCommit, Eon: eon, Sender: sender, Exps: exps}
	for _, x := range exps {
		m.Wire = append(m.Wire, g2exp(x).Compress()...)
	}
	return m
}

// say lets a misbehaving party send an additional message.
func (w *dkgWorld) say(e Event) {
	c := w.t.Cfg
	r := NewRng(e.Seed)
	p := w.parties[e.Node]
	eon := r.Intn(c.Eons)
	base := []*big.Int{}
	if m := p.models[eon]; m.poly != nil {
		base = m.poly
	} else {
		for i := 0; i < c.T; i++ {
			base = append(base, randScalar(r))
		}
	}
	w.stats["fault_said_"+kindNames[e.A]]++
	switch kind(e.A) {
	case kCommit:
		exps := append([]*big.Int{}, base...)
		switch e.C % 8 {
		case 0:
			exps = append(exps, randScalar(r))
		case 1:
			exps = exps[:len(exps)-1]
		case 2:
			exps = nil
		case 3: // copy or negate another dealer's commitment
			other := w.parties[e.B].models[eon].commit
			for d, x := range other {
				if d != e.Node && x != nil {
					exps = nil
					for _, v := range x {
						if e.C >= 8 {
							v = new(big.Int).Mod(new(big.Int).Neg(v), order)
						}
						exps = append(exps, v)
					}
					break
				}
			}
		case 4:
			exps[0] = new(big.Int)
		case 5:
			exps[len(exps)-1] = randScalar(r)
		}
		m := w.commitMsg(e.Node, eon, exps)
		if exps == nil {
			m.Exps = []*big.Int{}
		}
		if len(m.Wire) > 0 {
			switch e.C {
			case 6:
				m.Wire = m.Wire[:len(m.Wire)-1-r.Intn(40)]
				m.Exps = nil
			case 7:
				m.Wire[20+r.Intn(70)] ^= 1 << r.Intn(8)
				m.Exps = nil
			case 14:
				copy(m.Wire, r.Bytes(96))
				m.Exps = nil
			case 15:
				m.Wire[0] &^= 0x80
				m.Exps = nil
			}
		}
		w.put(m, w.height)
	case kEval:
		if e.B == e.Node {
			return
		}
		w.put(&message{Kind: kEval, Eon: eon, Sender: e.Node, Receiver: e.B, Eval: w.badEval(r, base, e.B, e.C)}, w.height)
	case kAccuse:
		w.put(&message{Kind: kAccuse, Eon: eon, Sender: e.Node, Accuser: e.Node, Accused: e.B}, w.height)
	case kApology:
		w.put(&message{Kind: kApology, Eon: eon, Sender: e.Node, Accuser: e.B, Accused: e.Node, Eval: w.badEval(r, base, e.B, e.C)}, w.height)
	}
}

func (w *dkgWorld) badEval(r *Rng, base []*big.Int, target, mode int) *big.Int {
	good := polyAt(base, int64(target)+1)
	switch mode % 10 {
	case 0:
		return good
	case 1:
		return randScalar(r)
	case 2:
		return new(big.Int)
	case 3:
		return new(big.Int).Neg(good)
	case 4:
		return new(big.Int).Add(good, order)
	case 5:
		return new(big.Int).Set(order)
	case 6:
		return new(big.Int).Sub(order, big.NewInt(1))
	case 7:
		return new(big.Int).Lsh(new(big.Int).SetBytes(r.Bytes(40)), 8)
	case 8:
		return polyAt(base, int64(target)+2)
	}
	return new(big.Int).Mod(new(big.Int).Add(good, big.NewInt(1)), order)
}

// disturb feeds a party something its host should have kept from it.
func (w *dkgWorld) disturb(p *party, e Event, h int) {
	r := NewRng(e.Seed)
	var seen []*message
	for _, b := range w.blocks[:h+1] {
		seen = append(seen, b...)
	}
	if len(seen) == 0 {
		return
	}
	m := seen[r.Intn(len(seen))]
	w.stats["fault_"+e.Kind]++
	eon := m.Eon
	if e.Kind == "redeliver" {
		if m.Kind == kEval && m.Receiver != p.id {
			return
		}
	} else if e.A == 0 {
		eon = r.Intn(len(p.st.Eons))
	}
	w.deliver(p, eon, m)
}

// phases starts the phases that begin with block h.
func (w *dkgWorld) phases(p *party, h int) {
	c := w.t.Cfg
	for e := range p.st.Eons {
		st, m := &p.st.Eons[e], p.models[e]
		if st.Pure.Phase < puredkg.Finalized {
			if _, err := st.Pure.ComputeResult(); err == nil {
				w.fail("early-result", "party %d, eon %d: a result in phase %s", p.id, e, st.Pure.Phase)
			}
		}
		switch h {
		case w.start[e]:
			w.deal(p, e)
		case w.start[e] + c.L:
			accs := st.Pure.StartPhase2Accusing()
			m.phase = puredkg.Accusing
			want := map[int]bool{}
			for d := 0; d < c.N; d++ {
				if d != p.id && !matches(m.commit[d], p.id, m.evals[d]) {
					want[d] = true
				}
			}
			for _, a := range accs {
				if a.Eon != uint64(e) || a.Accuser != uint64(p.id) {
					w.fail("wrong-accusation", "party %d, eon %d sends %+v", p.id, e, a)
				}
				if !want[int(a.Accused)] {
					w.fail("unfounded-accusation", "party %d accuses %d in eon %d, which dealt correctly", p.id, a.Accused, e)
				}
				delete(want, int(a.Accused))
				w.send(p, message{Kind: kAccuse, Eon: e, Sender: p.id, Accuser: p.id, Accused: int(a.Accused)})
			}
			for d := range want {
				w.fail("missing-accusation", "party %d does not accuse %d in eon %d", p.id, d, e)
			}
		case w.start[e] + 2*c.L:
			apos := st.Pure.StartPhase3Apologizing()
			m.phase = puredkg.Apologizing
			sort.Slice(apos, func(i, j int) bool { return apos[i].Accuser < apos[j].Accuser })
			want := map[int]bool{}
			for k := range m.accus {
				if k[1] == p.id {
					want[k[0]] = true
				}
			}
			for _, a := range apos {
				if a.Eon != uint64(e) || a.Accused != uint64(p.id) {
					w.fail("wrong-apology", "party %d, eon %d sends %+v", p.id, e, a)
				}
				if !want[int(a.Accuser)] {
					w.fail("unprovoked-apology", "party %d reveals the evaluation of %d in eon %d, which has not accused it", p.id, a.Accuser, e)
				}
				delete(want, int(a.Accuser))
				if a.Eval.Cmp(polyAt(m.poly, int64(a.Accuser)+1)) != 0 {
					w.fail("wrong-apology", "party %d apologizes to %d in eon %d with another evaluation than its polynomial's", p.id, a.Accuser, e)
				}
				w.send(p, message{Kind: kApology, Eon: e, Sender: p.id, Accuser: int(a.Accuser), Accused: p.id, Eval: a.Eval})
			}
			for d := range want {
				w.fail("missing-apology", "party %d does not answer the accusation of %d in eon %d", p.id, d, e)
			}
		case w.start[e] + 3*c.L:
			st.Pure.Finalize()
			m.phase = puredkg.Finalized
			if p.byz { // nobody relies on it
				st.Done = true
			} else {
				w.result(p, e)
			}
		}
		if Mix(w.t.Seed, uint64(p.id), uint64(h))%8 == 0 {
			_ = st.Pure.ShortInfo() // goes to the log: must not fail or change anything
		}
		if got := st.Pure.Phase; got != m.phase {
			w.fail("wrong-phase", "party %d, eon %d is in phase %s instead of %s", p.id, e, got, m.phase)
		}
	}
}

func (w *dkgWorld) send(p *party, m message) {
	w.note("party %d sends %s", p.id, &m)
	p.st.Outbox = append(p.st.Outbox, m)
}

func (w *dkgWorld) deal(p *party, e int) {
	c := w.t.Cfg
	st, m := &p.st.Eons[e], p.models[e]
	ent := &entropy{r: NewRng(Mix(w.t.Seed, 99, uint64(p.id), uint64(e), uint64(w.height))), failAfter: -1}
	if w.rng.P(0.2) {
		ent.short = 1 + w.rng.Intn(31)
		w.stats["fault_short_random_read"]++
	}
	var commit puredkg.PolyCommitmentMsg
	var evals []puredkg.PolyEvalMsg
	var err error
	withEntropy(ent, func() { commit, evals, err = st.Pure.StartPhase1Dealing() })
	if err != nil {
		w.fail("does-not-deal", "party %d, eon %d: %v", p.id, e, err)
	}
	m.phase = puredkg.Dealing
	for _, x := range *st.Pure.Polynomial {
		m.poly = append(m.poly, new(big.Int).Set(x))
	}
	if len(m.poly) != c.T {
		w.fail("wrong-polynomial", "party %d, eon %d deals with %d coefficients, the threshold is %d", p.id, e, len(m.poly), c.T)
	}
	for i, x := range m.poly {
		for _, q := range w.parties {
			for e2, m2 := range q.models {
				for j, y := range m2.poly {
					if (q != p || e2 != e || j != i) && x.Cmp(y) == 0 {
						w.fail("weak-polynomial", "coefficient %d of party %d in eon %d is also coefficient %d of party %d in eon %d", i, p.id, e, j, q.id, e2)
					}
				}
			}
		}
		if !inRange(x) || x.BitLen() < 128 {
			w.fail("weak-polynomial", "coefficient %d of party %d in eon %d is %s", i, p.id, e, x)
		}
	}
	if commit.Eon != uint64(e) || commit.Sender != uint64(p.id) {
		w.fail("wrong-commitment", "party %d, eon %d: the commitment names eon %d and sender %d", p.id, e, commit.Eon, commit.Sender)
	}
	if len(*commit.Gammas) != c.T {
		w.fail("wrong-commitment", "party %d, eon %d commits to %d coefficients", p.id, e, len(*commit.Gammas))
	}
	for i, g := range *commit.Gammas {
		if !g.Equals(g2exp(m.poly[i])) {
			w.fail("wrong-commitment", "party %d, eon %d: the commitment does not fit coefficient %d", p.id, e, i)
		}
	}
	m.evals[p.id] = polyAt(m.poly, int64(p.id)+1)
	w.send(p, message{Kind: kCommit, Eon: e, Sender: p.id, Wire: commit.Gammas.Marshal(), Exps: m.poly})
	seen := map[uint64]bool{}
	for _, v := range evals {
		if v.Eon != uint64(e) || v.Sender != uint64(p.id) || v.Receiver == uint64(p.id) || v.Receiver >= uint64(c.N) || seen[v.Receiver] {
			w.fail("wrong-evaluation", "party %d, eon %d sends an evaluation for eon %d from %d to %d", p.id, e, v.Eon, v.Sender, v.Receiver)
		}
		seen[v.Receiver] = true
		if v.Eval.Cmp(polyAt(m.poly, int64(v.Receiver)+1)) != 0 {
			w.fail("wrong-evaluation", "party %d, eon %d: the evaluation for %d is not its polynomial's", p.id, e, v.Receiver)
		}
		w.send(p, message{Kind: kEval, Eon: e, Sender: p.id, Receiver: int(v.Receiver), Eval: v.Eval})
	}
	if len(seen) != c.N-1 {
		w.fail("wrong-evaluation", "party %d, eon %d deals to %d parties", p.id, e, len(seen))
	}
	// whatever else arrived before this party dealt is kept by the model as well
}

// deliver feeds a message to a party and compares its reaction with the reference's.
func (w *dkgWorld) deliver(p *party, e int, m *message) {
	c := w.t.Cfg
	st := &p.st.Eons[e]
	var err error
	switch m.Kind {
	case kCommit:
		g := new(shcrypto.Gammas)
		derr := g.Unmarshal(m.Wire)
		if (derr == nil) != (m.Exps != nil) {
			w.fail("decoding", "party %d: the %s decodes with error %v", p.id, m, derr)
		}
		if derr != nil {
			w.stats["undecodable"]++
			return
		}
		err = st.Pure.HandlePolyCommitmentMsg(puredkg.PolyCommitmentMsg{Eon: uint64(m.Eon), Sender: uint64(m.Sender), Gammas: g})
	case kEval:
		err = st.Pure.HandlePolyEvalMsg(puredkg.PolyEvalMsg{Eon: uint64(m.Eon), Sender: uint64(m.Sender), Receiver: uint64(m.Receiver), Eval: new(big.Int).Set(m.Eval)})
	case kAccuse:
		err = st.Pure.HandleAccusationMsg(puredkg.AccusationMsg{Eon: uint64(m.Eon), Accuser: uint64(m.Accuser), Accused: uint64(m.Accused)})
	case kApology:
		err = st.Pure.HandleApologyMsg(puredkg.ApologyMsg{Eon: uint64(m.Eon), Accuser: uint64(m.Accuser), Accused: uint64(m.Accused), Eval: new(big.Int).Set(m.Eval)})
	}
	ok, why := p.models[e].accept(m, p.id, e, c.T)
	if ok {
		w.stats["accepted"]++
	} else {
		w.stats["rejected_"+why]++
	}
	w.note("party %d eon %d: %s -> %v", p.id, e, m, err == nil)
	if ok && err != nil {
		w.fail("message-rejected", "party %d rejects, in phase %s of eon %d, the %s: %v", p.id, st.Pure.Phase, e, m, err)
	}
	if !ok && err == nil {
		w.fail("message-accepted", "party %d accepts, in phase %s of eon %d, the %s (%s)", p.id, st.Pure.Phase, e, m, why)
	}
}

func (w *dkgWorld) result(p *party, e int) {
	c := w.t.Cfg
	st, m := &p.st.Eons[e], p.models[e]
	want := m.outcome(p.id, c.N, c.T)
	res, err := st.Pure.ComputeResult()
	st.Done = true
	w.note("party %d eon %d: result %v, qualified %v", p.id, e, err == nil, want.qual)
	if want.ok != (err == nil) {
		w.fail("dkg-outcome", "party %d, eon %d: result %v, expected %v %s (qualified %v)", p.id, e, err, want.ok, want.why, want.qual)
	}
	if err != nil {
		st.Failed = true
		w.stats["dkg_failed"]++
		return
	}
	w.stats["dkg_succeeded"]++
	if len(want.qual) < c.N {
		w.stats["dkg_with_disqualified"]++
	}
	w.rich = true
	p.qual[e] = want.qual
	if res.Eon != uint64(e) || res.NumKeypers != uint64(c.N) || res.Threshold != uint64(c.T) || res.Keyper != uint64(p.id) {
		w.fail("wrong-result", "party %d, eon %d: result for eon %d, keyper %d, %d of %d", p.id, e, res.Eon, res.Keyper, res.Threshold, res.NumKeypers)
	}
	if (*big.Int)(res.SecretKeyShare).Cmp(want.share) != 0 {
		w.fail("wrong-share", "party %d, eon %d: the secret share is not the sum of the qualified dealers' evaluations", p.id, e)
	}
	if want.share.Cmp(polyAt(want.coefs, int64(p.id)+1)) != 0 {
		panic("model: share does not fit")
	}
	pk := (*shcrypto.EonPublicKey)(g2exp(want.coefs[0]))
	if !res.PublicKey.Equal(pk) {
		w.fail("wrong-key", "party %d, eon %d: the public key is not the qualified dealers' (%v)", p.id, e, want.qual)
	}
	if len(res.PublicKeyShares) != c.N {
		w.fail("wrong-key", "party %d, eon %d: %d public key shares", p.id, e, len(res.PublicKeyShares))
	}
	for i, s := range res.PublicKeyShares {
		if !s.Equal((*shcrypto.EonPublicKeyShare)(g2exp(polyAt(want.coefs, int64(i)+1)))) {
			w.fail("wrong-key", "party %d, eon %d: wrong public key share of %d", p.id, e, i)
		}
	}
	if Mix(w.t.Seed, uint64(p.id), 77)%4 != 0 {
		st.Result = &res
		return
	}
	again, err := st.Pure.ComputeResult()
	if err != nil || !again.PublicKey.Equal(res.PublicKey) || !again.SecretKeyShare.Equal(res.SecretKeyShare) {
		w.fail("wrong-result", "party %d, eon %d: the second result differs from the first", p.id, e)
	}
	st.Result = &res
}

// judge looks at all parties' results together.
func (w *dkgWorld) judge() {
	c := w.t.Cfg
	for e := 0; e < c.Eons; e++ {
		var first *party
		var xs []int64
		var ys []*big.Int
		for _, p := range w.parties {
			st := p.st.Eons[e]
			if !st.Done {
				panic(fmt.Sprintf("party %d has not finished eon %d", p.id, e))
			}
			if p.byz {
				continue
			}
			if w.honest && st.Failed {
				w.fail("dkg-fails", "party %d, eon %d: no result, although all but %d of %d parties follow the protocol and nothing else went wrong (threshold %d)",
					p.id, e, len(c.Byz), c.N, c.T)
			}
			if st.Failed {
				continue
			}
			if w.honest {
				q := map[int]bool{}
				for _, d := range p.qual[e] {
					q[d] = true
				}
				for _, o := range w.parties {
					if !o.byz && !q[o.id] {
						w.fail("honest-disqualified", "party %d, eon %d: %d is disqualified, although it follows the protocol", p.id, e, o.id)
					}
				}
			}
			if first == nil {
				first = p
			}
			fr := first.st.Eons[e].Result
			if !fr.PublicKey.Equal(st.Result.PublicKey) {
				w.fail("no-agreement", "eon %d: parties %d and %d have different public keys", e, first.id, p.id)
			}
			for i := range fr.PublicKeyShares {
				if !fr.PublicKeyShares[i].Equal(st.Result.PublicKeyShares[i]) {
					w.fail("no-agreement", "eon %d: parties %d and %d have different public key shares for %d", e, first.id, p.id, i)
				}
			}
			if !fr.PublicKeyShares[p.id].Equal((*shcrypto.EonPublicKeyShare)(g2exp((*big.Int)(st.Result.SecretKeyShare)))) {
				w.fail("no-agreement", "eon %d: the secret share of party %d does not fit the public key share %d computed for it", e, p.id, first.id)
			}
			xs, ys = append(xs, int64(p.id)+1), append(ys, (*big.Int)(st.Result.SecretKeyShare))
		}
		if len(xs) >= c.T {
			w.stats["reconstructed"]++
			r := NewRng(Mix(w.t.Seed, 5, uint64(e)))
			var sx []int64
			var sy []*big.Int
			for _, i := range r.Perm(len(xs))[:c.T] {
				sx, sy = append(sx, xs[i]), append(sy, ys[i])
			}
			pk := (*shcrypto.EonPublicKey)(g2exp(interpolate(sx, sy)))
			if !pk.Equal(first.st.Eons[e].Result.PublicKey) {
				w.fail("no-agreement", "eon %d: the shares of %v do not determine the secret of the public key", e, sx)
			}
		}
	}
}
