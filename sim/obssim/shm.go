package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/gob"
	"encoding/hex"
	"fmt"
	"math"
	"math/big"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/ethereum/go-ethereum/common"
	ethcrypto "github.com/ethereum/go-ethereum/crypto"
	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	"github.com/ethereum/go-ethereum/crypto/ecies"
	abci "github.com/tendermint/tendermint/abci/types"
	"github.com/tendermint/tendermint/rpc/client/http"
	tmtypes "github.com/tendermint/tendermint/types"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"

	"verif/sim/simnet"
	"verif/sim/simrt"
	"verif/sim/tmsim"
)

// fact is one thing a block says, in the oracle's own notation.
type fact struct {
	kind   string // checkin, config, eon, commitment, eval, accusation, apology, share, signature
	height int64
	eon    uint64
	batch  uint64
	sender common.Address
	val    string
	cfg    *shutterevents.BatchConfig
}

type shmCfg struct {
	Start  int64 `json:"start_height"` // blocks that exist before the observer first starts
	Blocks int   `json:"blocks"`
	Eons   int   `json:"eons"`
}

type shm struct {
	w     *World
	cfg   shmCfg
	chain *tmsim.Chain
	node  *tmsim.Node

	addrs   []common.Address
	encs    []*ecies.PublicKey
	gammas  []*shcrypto.Gammas
	shares  []*shcrypto.EpochSecretKeyShare
	facts   []fact
	eons    uint64
	lastCfg uint64
	pending []uint64 // seeds of content for the next blocks, in order
	fill    int      // so many further transactions for the next block

	saved     []byte
	savedDump string
	cur       *observe.Shutter
	curDump   string
	sent      []observe.ShutterFilter
	last      observe.ShutterFilter // the newest filter the reader asked for
	old       []*observe.Shutter
	oldDump   []string
	maxLC     int64 // highest last committed height the node has shown
	slowTil   time.Time
	lastView  time.Time
	status    string
}

func newShm(w *World) *shm { return &shm{w: w} }

func (s *shm) config() interface{}   { return s.cfg }
func (s *shm) lst() *simnet.Listener { return s.node.Lst }

func (s *shm) generate(r *simrt.Rng) {
	w := s.w
	w.period = time.Second
	s.cfg.Start = int64(r.Range(1, 20))
	if r.P(0.06) {
		s.cfg.Start = int64(r.Range(450, 1100)) // the first synchronisation needs several queries
	}
	s.cfg.Blocks = r.Range(30, 110)
	w.faultEnd = int64(s.cfg.Blocks) * 1000
	w.end = w.faultEnd + 130_000
	// content: mostly small, now and then a flood
	p := 0.2 + 0.7*r.Float()
	for i := 0; i < s.cfg.Blocks; i++ {
		if r.P(p) {
			a := 0
			if r.P(0.03) {
				a = 1
			}
			w.add(Event{Kind: "txs", At: int64(i)*1000 + 10, A: a, S: r.Uint64()})
		}
	}
	for i := 0; i < 6; i++ { // some while nothing fails any more
		w.add(Event{Kind: "txs", At: w.faultEnd + int64(i)*15_000 + 50, S: r.Uint64()})
	}
	w.generateFaults(r, 500, w.faultEnd-500)
	for r.P(0.16) {
		w.add(Event{Kind: "backlog", At: int64(500 + r.Intn(int(w.faultEnd)-1000)), S: r.Uint64()})
	}
}

func (s *shm) setup() {
	w := s.w
	r := simrt.NewRng(w.tr.Seed ^ 0x5eed)
	for i := 0; i < 6; i++ {
		s.addrs = append(s.addrs, common.BytesToAddress(r.Bytes(20)))
	}
	for len(s.encs) < 4 {
		k, err := ethcrypto.ToECDSA(r.Bytes(32))
		if err == nil {
			s.encs = append(s.encs, ecies.ImportECDSAPublic(&k.PublicKey))
		}
	}
	for d := 0; d < 3; d++ {
		g := shcrypto.Gammas{}
		for i := 0; i <= d; i++ {
			g = append(g, new(bn256.G2).ScalarBaseMult(new(big.Int).SetBytes(r.Bytes(31))))
		}
		s.gammas = append(s.gammas, &g)
	}
	inf := shcrypto.Gammas{(*s.gammas[0])[0], new(bn256.G2).ScalarBaseMult(new(big.Int))}
	s.gammas = append(s.gammas, &inf)
	for i := 0; i < 4; i++ {
		s.shares = append(s.shares, (*shcrypto.EpochSecretKeyShare)(new(bn256.G1).ScalarBaseMult(new(big.Int).SetBytes(r.Bytes(31)))))
	}
	s.shares = append(s.shares, (*shcrypto.EpochSecretKeyShare)(new(bn256.G1).ScalarBaseMult(new(big.Int))))
	s.chain = tmsim.NewRaw("obs")
	s.chain.Append(w.now(), nil, nil)
	pre := simrt.NewRng(w.tr.Seed ^ 0xbeef)
	for s.chain.Height() < s.cfg.Start {
		if pre.P(0.15) {
			x := pre.Uint64()
			if !pre.P(0.05) {
				x &^= 1 << 63
			}
			s.pending = append(s.pending, x)
		}
		s.block()
	}
	s.node = tmsim.NewNode(s.chain, 0, "tm.k0:26657")
	s.node.Gate = func(_ *tmsim.Node, m string) error { return w.gate(m) }
	s.node.After = func(_ *tmsim.Node, m string) error { return w.after(m) }
	s.setHeight(s.chain.Height())
	s.node.Idx = s.node.H
}

func (s *shm) setHeight(h int64) {
	s.node.SetHeight(h)
	if h-1 > s.maxLC {
		s.maxLC = h - 1
	}
}

// --- the chain ---------------------------------------------------------------------------------

func (s *shm) content(e *Event) {
	if e.Kind != "txs" {
		panic("unknown event " + e.Kind)
	}
	x := e.S
	if e.A == 1 {
		x |= 1 << 63 // a flood
	} else {
		x &^= 1 << 63
	}
	s.pending = append(s.pending, x)
}

// block makes the next block from the content that is waiting.
func (s *shm) block() {
	h := s.chain.Height() + 1
	var txs []tmtypes.Tx
	var res []abci.ResponseDeliverTx
	for _, seed := range s.pending {
		r := simrt.NewRng(seed)
		n := r.Range(1, 5)
		if seed>>63 == 1 {
			n = r.Range(90, 320)
		}
		for i := 0; i < n; i++ {
			txs = append(txs, tmtypes.Tx(r.Bytes(24)))
			res = append(res, s.result(r, h))
		}
	}
	for r := simrt.NewRng(uint64(h)); s.fill > 0; s.fill-- {
		txs = append(txs, tmtypes.Tx(r.Bytes(24)))
		res = append(res, s.result(r, h))
	}
	s.pending = nil
	s.chain.Append(s.w.now(), txs, res)
	s.w.logf("block %d, %d txs", h, len(txs))
}

func (s *shm) result(r *simrt.Rng, h int64) abci.ResponseDeliverTx {
	if r.P(0.1) {
		return abci.ResponseDeliverTx{Code: 1, Log: "rejected"}
	}
	var evs []abci.Event
	n := 1
	if r.P(0.15) {
		n = r.Intn(4)
	}
	for i := 0; i < n; i++ {
		if r.P(0.06) {
			evs = append(evs, s.malformed(r, h))
			continue
		}
		f, ev := s.fact(r, h)
		s.facts = append(s.facts, f)
		evs = append(evs, ev)
	}
	return abci.ResponseDeliverTx{Events: evs}
}

// malformed returns an event no reader can make sense of.
func (s *shm) malformed(r *simrt.Rng, h int64) abci.Event {
	switch r.Intn(4) {
	case 0:
		return abci.Event{Type: "transfer", Attributes: []abci.EventAttribute{{Key: []byte("Sender"), Value: r.Bytes(8)}}}
	case 1:
		ev := shutterevents.Accusation{Eon: 1, Sender: s.addrs[0], Accused: s.addrs[:1]}.MakeABCIEvent()
		ev.Attributes = ev.Attributes[:r.Intn(2)]
		return ev
	case 2:
		ev := shutterevents.DecryptionSignature{BatchIndex: 1, Sender: s.addrs[0], Signature: r.Bytes(65)}.MakeABCIEvent()
		ev.Attributes[0].Value = []byte("-1")
		return ev
	default:
		ev := shutterevents.EonStarted{Eon: 1 << 40, BatchIndex: 3}.MakeABCIEvent()
		ev.Attributes[0].Value = []byte("99999999999999999999999999")
		return ev
	}
}

func (s *shm) addr(r *simrt.Rng) common.Address { return s.addrs[r.Intn(len(s.addrs))] }

func (s *shm) some(r *simrt.Rng) []common.Address {
	var out []common.Address
	for _, i := range r.Perm(len(s.addrs))[:r.Intn(len(s.addrs)+1)] {
		out = append(out, s.addrs[i])
	}
	return out
}

func bigUint(r *simrt.Rng, small int) uint64 {
	if r.P(0.04) {
		return math.MaxUint64 - uint64(r.Intn(2))
	}
	return uint64(r.Intn(small))
}

func (s *shm) fact(r *simrt.Rng, h int64) (fact, abci.Event) {
	k := r.Intn(20)
	if s.eons == 0 && k > 3 {
		k = 2
	}
	snd := s.addr(r)
	eon := uint64(0)
	if s.eons > 0 {
		eon = 1 + uint64(r.Intn(int(s.eons)))
		if r.P(0.6) {
			eon = s.eons
		}
	}
	f := fact{height: h, eon: eon, sender: snd}
	var ev shutterevents.IEvent
	switch {
	case k <= 1:
		e := &shutterevents.CheckIn{Sender: snd, EncryptionPublicKey: s.encs[r.Intn(len(s.encs))]}
		f.kind, f.val, ev = "checkin", encKey(e.EncryptionPublicKey), e
	case s.eons == 0 || k == 2 && r.P(0.5):
		s.eons++
		e := &shutterevents.EonStarted{Eon: s.eons, BatchIndex: bigUint(r, 50)}
		f.kind, f.eon, f.batch, f.val, ev = "eon", e.Eon, e.BatchIndex, fmt.Sprintf("h%d eon %d from %d", h, e.Eon, e.BatchIndex), e
	case k == 3 || k == 2:
		s.lastCfg += 1 + uint64(r.Intn(2))
		e := &shutterevents.BatchConfig{Keypers: s.some(r), StartBatchIndex: bigUint(r, 60), Threshold: uint64(r.Intn(6)), ConfigIndex: s.lastCfg, ConfigContractAddress: s.addr(r)}
		c := *e
		f.kind, f.cfg, f.val, ev = "config", &c, configStr(h, e.Keypers, e.StartBatchIndex, e.Threshold, e.ConfigIndex), e
	case k <= 6:
		e := &shutterevents.PolyCommitment{Eon: eon, Sender: snd, Gammas: s.gammas[r.Intn(len(s.gammas))]}
		f.kind, f.val, ev = "commitment", commitmentStr(h, eon, snd, e.Gammas), e
	case k <= 9:
		e := &shutterevents.PolyEval{Eon: eon, Sender: snd, Receivers: s.some(r)}
		for range e.Receivers {
			e.EncryptedEvals = append(e.EncryptedEvals, r.Bytes(r.Intn(40)))
		}
		f.kind, f.val, ev = "eval", evalStr(h, eon, snd, e.Receivers, e.EncryptedEvals), e
	case k <= 11:
		e := &shutterevents.Accusation{Eon: eon, Sender: snd, Accused: s.some(r)}
		f.kind, f.val, ev = "accusation", accStr(h, eon, snd, e.Accused), e
	case k <= 13:
		e := &shutterevents.Apology{Eon: eon, Sender: snd, Accusers: s.some(r)}
		for range e.Accusers {
			e.PolyEval = append(e.PolyEval, new(big.Int).SetBytes(r.Bytes(r.Intn(33))))
		}
		f.kind, f.val, ev = "apology", apologyStr(h, eon, snd, e.Accusers, e.PolyEval), e
	case k <= 16:
		e := &shutterevents.EpochSecretKeyShare{Eon: eon, Sender: snd, Epoch: bigUint(r, 60), Share: s.shares[r.Intn(len(s.shares))]}
		f.kind, f.batch, f.val, ev = "share", e.Epoch, shareStr(h, eon, snd, e.Epoch, e.Share), e
	default:
		e := &shutterevents.DecryptionSignature{BatchIndex: bigUint(r, 60), Sender: snd, Signature: r.Bytes(r.Range(0, 80))}
		f.kind, f.batch, f.val, ev = "signature", e.BatchIndex, sigStr(h, e.BatchIndex, snd, e.Signature), e
	}
	return f, ev.MakeABCIEvent()
}

func encKey(k *ecies.PublicKey) string {
	return hex.EncodeToString(ethcrypto.FromECDSAPub(k.ExportECDSA()))
}
func addrsStr(as []common.Address) string {
	var out []string
	for _, a := range as {
		out = append(out, hex.EncodeToString(a[:]))
	}
	return "[" + strings.Join(out, " ") + "]"
}
func configStr(h int64, ks []common.Address, start, t, idx uint64) string {
	return fmt.Sprintf("h%d config %d from %d threshold %d %s", h, idx, start, t, addrsStr(ks))
}
func short(b []byte) string {
	if len(b) <= 8 {
		return hex.EncodeToString(b)
	}
	x := sha256.Sum256(b)
	return fmt.Sprintf("%d:%x", len(b), x[:8])
}
func commitmentStr(h int64, eon uint64, s common.Address, g *shcrypto.Gammas) string {
	var out []string
	if g != nil {
		for _, x := range *g {
			out = append(out, short(x.Marshal()))
		}
	}
	return fmt.Sprintf("h%d e%d %x commits %v", h, eon, s[:4], out)
}
func evalStr(h int64, eon uint64, s common.Address, rs []common.Address, es [][]byte) string {
	var out []string
	for _, x := range es {
		out = append(out, short(x))
	}
	return fmt.Sprintf("h%d e%d %x deals %s %v", h, eon, s[:4], addrsStr(rs), out)
}
func accStr(h int64, eon uint64, s common.Address, as []common.Address) string {
	return fmt.Sprintf("h%d e%d %x accuses %s", h, eon, s[:4], addrsStr(as))
}
func apologyStr(h int64, eon uint64, s common.Address, as []common.Address, es []*big.Int) string {
	return fmt.Sprintf("h%d e%d %x apologises to %s with %v", h, eon, s[:4], addrsStr(as), es)
}
func shareStr(h int64, eon uint64, s common.Address, ep uint64, sh *shcrypto.EpochSecretKeyShare) string {
	return fmt.Sprintf("h%d e%d %x shares %d %s", h, eon, s[:4], ep, short((*bn256.G1)(sh).Marshal()))
}
func sigStr(h int64, b uint64, s common.Address, sig []byte) string {
	return fmt.Sprintf("h%d batch %d signed by %x: %s", h, b, s[:4], short(sig))
}

// --- environment -------------------------------------------------------------------------------

func (s *shm) tick() {
	s.block()
	if s.chain.Height()%40 == 0 {
		runtime.SimGC()
	}
	s.w.at(time.Duration(s.w.rng.Range(20, 250))*time.Millisecond, s.advance)
}

func (s *shm) advance() {
	h := s.chain.Height()
	now := s.w.now()
	if now.Before(s.w.s.freezeUntil) {
		return
	}
	if now.Before(s.w.s.lagUntil) {
		h -= int64(s.w.s.lag) * 2
	}
	if h > s.node.H {
		s.setHeight(h)
		s.w.at(time.Duration(s.w.rng.Intn(150))*time.Millisecond, func() {
			if s.node.Idx < s.node.H {
				s.node.Idx = s.node.H
			}
		})
	}
}

func (s *shm) fault(e *Event) bool {
	d := time.Duration(e.Dur) * time.Millisecond
	switch e.Kind {
	case "mute":
		s.node.Mute()
	case "syncing":
		s.node.CatchingUp = true
		s.w.at(d, func() { s.node.CatchingUp = false })
	case "regress": // another node answers from now on, one that is some blocks behind
		s.regress(e, s.w.now().Add(d))
	case "burst":
		for i := 0; i < e.A*3; i++ {
			s.block()
		}
		s.w.at(time.Duration(s.w.rng.Range(20, 250))*time.Millisecond, s.advance)
	case "backlog":
		// the node catches up with more blocks than the observer asks for at once
		r := simrt.NewRng(e.S)
		n := 500*r.Range(1, 2) + r.Range(-3, 30)
		mode := r.Intn(3)
		if r.P(0.45) {
			s.roundQuery(r)
			mode = r.Intn(2)
			n = r.Intn(600)
		}
		for i := 0; i < n; i++ {
			p := 0.3
			switch {
			case mode == 0 && i < 500, mode == 1 && i >= 500:
				p = 0
			case i%500 > 490 || i%500 < 5:
				p = 0.9
			}
			if r.P(p) {
				s.pending = append(s.pending, r.Uint64()>>1)
			}
			s.block()
		}
		s.w.at(time.Duration(s.w.rng.Range(20, 250))*time.Millisecond, s.advance)
	case "slow_reader":
		later(&s.slowTil, s.w.now().Add(d))
	default:
		return false
	}
	return true
}

// roundQuery adds blocks such that the first 500 the observer asks for have a multiple of 100
// transactions, which is how many it gets at a time.
func (s *shm) roundQuery(r *simrt.Rng) {
	from := int64(0)
	if s.cur != nil {
		from = s.cur.CurrentBlock
	}
	total := 0
	for h := from + 1; h <= s.chain.Height() && h <= from+500; h++ {
		if h < 1 {
			continue
		}
		total += len(s.chain.At(h).Txs)
	}
	p := 0.4 * r.Float()
	for s.chain.Height() < from+499 {
		if r.P(p) {
			s.pending = append(s.pending, r.Uint64()>>1)
		}
		s.block()
		total += len(s.chain.At(s.chain.Height()).Txs)
	}
	if s.chain.Height() == from+499 {
		s.fill = (100-total%100)%100 + 100*r.Intn(2)
		later := s.pending
		s.pending = nil
		s.block()
		s.pending = later
		s.w.stats["backlog_of_full_pages"]++
	}
}

// regress waits for a moment in which the observer is not in the middle of a synchronisation: a node
// that forgets blocks between two of its requests would silently lack what the observer asks for.
func (s *shm) regress(e *Event, until time.Time) {
	w := s.w
	if w.isQuiet || w.now().After(until) {
		return
	}
	if w.inflight > 0 || w.now().Sub(w.lastRPC) < 400*time.Millisecond {
		w.at(100*time.Millisecond, func() { s.regress(e, until) })
		return
	}
	if h := s.node.H - int64(e.A); h >= 2 {
		w.stats["fault_regressed"]++
		s.node.Rewind(h)
		later(&w.s.freezeUntil, until)
	}
}

func (s *shm) quiet() {
	s.node.CatchingUp = false
	s.slowTil = time.Time{}
	s.advance()
}

// --- the observer ------------------------------------------------------------------------------

type stored struct{ Shutter *observe.Shutter }

func (s *shm) observe(o *obsProc) string {
	w := s.w
	view := observe.NewShutter()
	if s.saved != nil {
		st := stored{}
		if err := gob.NewDecoder(bytes.NewReader(s.saved)).Decode(&st); err != nil {
			w.violate("view-lost", "the saved view cannot be read: %v", err)
			return "cannot load"
		}
		view = st.Shutter
		if d := dumpShutter(view); d != s.savedDump {
			w.violate("view-lost", "the view read back is not the one saved: %s", firstDiff(s.savedDump, d))
		}
	}
	s.cur, s.curDump, s.old, s.oldDump = view, dumpShutter(view), nil, nil
	s.sent = []observe.ShutterFilter{view.Filter}
	s.last = view.Filter
	cl, err := http.New("http://tm.k0:26657", "/websocket")
	if err != nil {
		return err.Error()
	}
	if err := cl.Start(); err != nil {
		return err.Error()
	}
	ch := make(chan *observe.Shutter)
	fch := make(chan observe.ShutterFilter, 3)
	errc := make(chan error, 1)
	go func() { errc <- observe.SyncShutter(context.Background(), cl, view, ch, fch) }()
	for {
		select {
		case err := <-errc:
			return fmt.Sprint(err)
		case v := <-ch:
			if !o.live() {
				simnet.Park()
			}
			s.onView(v)
			if w.rng.P(0.8) {
				var buf bytes.Buffer
				if err := gob.NewEncoder(&buf).Encode(stored{v}); err != nil {
					w.violate("view-unsaveable", "the view cannot be encoded: %v", err)
				}
				s.saved, s.savedDump = buf.Bytes(), s.curDump
			}
			if w.now().Before(s.slowTil) {
				time.Sleep(time.Duration(w.rng.Range(500, 14_000)) * time.Millisecond)
			} else if w.rng.P(0.1) {
				time.Sleep(time.Duration(w.rng.Range(10, 2000)) * time.Millisecond)
			}
			if !o.live() {
				simnet.Park()
			}
			if w.rng.P(0.25) {
				f := s.last
				if w.rng.P(0.7) && v.CurrentBlock > f.SyncHeight {
					f.SyncHeight += int64(w.rng.Intn(int(v.CurrentBlock-f.SyncHeight) + 2))
				}
				if w.rng.P(0.6) {
					f.BatchIndex += uint64(w.rng.Intn(8))
				}
				select {
				case fch <- f:
					s.last = f
					s.sent = append(s.sent, f)
					w.stats["filters"]++
				default:
				}
			}
		}
	}
}

// --- oracle ------------------------------------------------------------------------------------

// dumpShutter writes everything the view says in a fixed order.
func dumpShutter(v *observe.Shutter) string {
	var b strings.Builder
	fmt.Fprintf(&b, "block %d lastcommitted %d filter %d %d synced %v\n", v.CurrentBlock, v.LastCommittedHeight, v.Filter.SyncHeight, v.Filter.BatchIndex, v.IsSynced())
	var ks []string
	for a, k := range v.KeyperEncryptionKeys {
		ks = append(ks, a.Hex()+" "+encKey((*ecies.PublicKey)(k)))
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, "checkin %s\n", k)
	}
	for _, c := range v.BatchConfigs {
		fmt.Fprintf(&b, "%s\n", configStr(c.Height, c.Keypers, c.StartBatchIndex, c.Threshold, c.ConfigIndex))
	}
	for i := range v.Eons {
		e := &v.Eons[i]
		fmt.Fprintf(&b, "h%d eon %d from %d, h%d eon %d\n", e.StartHeight, e.Eon, e.StartEvent.BatchIndex, e.StartEvent.Height, e.StartEvent.Eon)
		for _, l := range eonLists(e) {
			for _, x := range l {
				fmt.Fprintf(&b, "  %s\n", x.val)
			}
		}
	}
	var bs []uint64
	for i := range v.Batches {
		bs = append(bs, i)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i] < bs[j] })
	for _, i := range bs {
		fmt.Fprintf(&b, "batch %d (%d)\n", i, v.Batches[i].BatchIndex)
		for _, x := range v.Batches[i].DecryptionSignatures {
			fmt.Fprintf(&b, "  %s\n", sigStr(x.Height, x.BatchIndex, x.Sender, x.Signature))
		}
	}
	return b.String()
}

type item struct {
	h   int64
	val string
}

var listNames = []string{"commitment", "eval", "accusation", "apology", "share"}

func eonLists(e *observe.Eon) [][]item {
	out := make([][]item, 5)
	for _, x := range e.Commitments {
		out[0] = append(out[0], item{x.Height, commitmentStr(x.Height, x.Eon, x.Sender, x.Gammas)})
	}
	for _, x := range e.PolyEvals {
		out[1] = append(out[1], item{x.Height, evalStr(x.Height, x.Eon, x.Sender, x.Receivers, x.EncryptedEvals)})
	}
	for _, x := range e.Accusations {
		out[2] = append(out[2], item{x.Height, accStr(x.Height, x.Eon, x.Sender, x.Accused)})
	}
	for _, x := range e.Apologies {
		out[3] = append(out[3], item{x.Height, apologyStr(x.Height, x.Eon, x.Sender, x.Accusers, x.PolyEval)})
	}
	for _, x := range e.EpochSecretKeyShares {
		out[4] = append(out[4], item{x.Height, shareStr(x.Height, x.Eon, x.Sender, x.Epoch, x.Share)})
	}
	return out
}

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) || i < len(y); i++ {
		l, r := "(nothing)", "(nothing)"
		if i < len(x) {
			l = x[i]
		}
		if i < len(y) {
			r = y[i]
		}
		if l != r {
			return fmt.Sprintf("%q became %q", l, r)
		}
	}
	return "equal"
}

// compareList demands that got contains exactly the facts at or above from, in order, and older
// ones, if at all, only from the chain and in order as well.
func (s *shm) compareList(what string, got []item, want []fact, from int64) bool {
	j := 0
	for _, g := range got {
		for j < len(want) && want[j].val != g.val {
			if want[j].height >= from {
				s.w.violate("view-differs", "%s: the chain has %q, the view at block %d has %q there", what, want[j].val, s.cur.CurrentBlock, g.val)
				return false
			}
			j++
		}
		if j == len(want) {
			s.w.violate("view-differs", "%s: the view at block %d has %q, the chain nothing more", what, s.cur.CurrentBlock, g.val)
			return false
		}
		j++
	}
	for ; j < len(want); j++ {
		if want[j].height >= from {
			s.w.violate("view-differs", "%s: the view at block %d (filter %d) lacks %q", what, s.cur.CurrentBlock, from, want[j].val)
			return false
		}
	}
	return true
}

func (s *shm) onView(v *observe.Shutter) {
	w := s.w
	prev, prevDump := s.cur, s.curDump
	if d := dumpShutter(prev); d != prevDump {
		w.violate("old-view-changed", "the view of block %d changed after it had been handed out: %s", prev.CurrentBlock, firstDiff(prevDump, d))
	}
	s.old, s.oldDump = append(s.old, prev), append(s.oldDump, prevDump)
	if len(s.old) > 4 {
		s.old, s.oldDump = s.old[1:], s.oldDump[1:]
	}
	i := w.rng.Intn(len(s.old))
	if d := dumpShutter(s.old[i]); d != s.oldDump[i] {
		w.violate("old-view-changed", "the view of block %d changed after it had been handed out: %s", s.old[i].CurrentBlock, firstDiff(s.oldDump[i], d))
	}
	s.cur, s.curDump = v, dumpShutter(v)
	s.lastView = w.now()
	w.stats["views_compared"]++
	w.logf("view of block %d, filter %v", v.CurrentBlock, v.Filter)
	if v.CurrentBlock < prev.CurrentBlock {
		w.violate("view-went-back", "the view goes back from block %d to %d", prev.CurrentBlock, v.CurrentBlock)
	}
	if v.CurrentBlock > s.maxLC {
		w.violate("view-ahead", "the view claims block %d, the node never had more than %d committed", v.CurrentBlock, s.maxLC)
		return
	}
	okF := false
	for _, f := range s.sent {
		okF = okF || f == v.Filter
	}
	if !okF || v.Filter.SyncHeight < prev.Filter.SyncHeight || v.Filter.BatchIndex < prev.Filter.BatchIndex {
		w.violate("wrong-filter", "the view has filter %v, before that %v; none asked for", v.Filter, prev.Filter)
	}
	s.compare(v)
	s.lookups(v)
}

func (s *shm) upTo(h int64) []fact {
	n := sort.Search(len(s.facts), func(i int) bool { return s.facts[i].height > h })
	return s.facts[:n]
}

func (s *shm) compare(v *observe.Shutter) {
	w := s.w
	var configs []fact
	checkins := map[common.Address]string{}
	var eons []fact
	msgs := map[uint64]map[string][]fact{}
	sigs := map[uint64][]fact{}
	for _, f := range s.upTo(v.CurrentBlock) {
		switch f.kind {
		case "checkin":
			checkins[f.sender] = f.val
		case "config":
			configs = append(configs, f)
		case "eon":
			eons = append(eons, f)
			msgs[f.eon] = map[string][]fact{}
		case "signature":
			sigs[f.batch] = append(sigs[f.batch], f)
		default:
			msgs[f.eon][f.kind] = append(msgs[f.eon][f.kind], f)
		}
	}
	for a, k := range v.KeyperEncryptionKeys {
		if checkins[a] != encKey((*ecies.PublicKey)(k)) {
			w.violate("view-differs", "the view at block %d has a key for %s that is not the one it checked in with last", v.CurrentBlock, a.Hex())
			return
		}
	}
	if len(checkins) != len(v.KeyperEncryptionKeys) {
		w.violate("view-differs", "the view at block %d knows %d checked in keypers, the chain %d", v.CurrentBlock, len(v.KeyperEncryptionKeys), len(checkins))
		return
	}
	var got []item
	for _, c := range v.BatchConfigs {
		got = append(got, item{c.Height, configStr(c.Height, c.Keypers, c.StartBatchIndex, c.Threshold, c.ConfigIndex)})
	}
	if !s.compareList("configs", got, configs, 0) {
		return
	}
	got = nil
	for i := range v.Eons {
		e := &v.Eons[i]
		if e.StartHeight != e.StartEvent.Height || e.Eon != e.StartEvent.Eon {
			w.violate("view-differs", "eon %d of the view at block %d contradicts itself: %d %d %d", e.Eon, v.CurrentBlock, e.StartHeight, e.StartEvent.Height, e.StartEvent.Eon)
			return
		}
		got = append(got, item{e.StartHeight, fmt.Sprintf("h%d eon %d from %d", e.StartHeight, e.Eon, e.StartEvent.BatchIndex)})
	}
	if !s.compareList("eons", got, eons, 0) {
		return
	}
	for i := range v.Eons {
		e := &v.Eons[i]
		for j, l := range eonLists(e) {
			if !s.compareList(fmt.Sprintf("%ss of eon %d", listNames[j], e.Eon), l, msgs[e.Eon][listNames[j]], v.Filter.SyncHeight) {
				return
			}
		}
	}
	for b := range sigs {
		bd := v.Batches[b]
		var got []item
		if bd != nil {
			if bd.BatchIndex != b {
				w.violate("view-differs", "batch %d of the view says it is batch %d", b, bd.BatchIndex)
				return
			}
			for _, x := range bd.DecryptionSignatures {
				got = append(got, item{x.Height, sigStr(x.Height, x.BatchIndex, x.Sender, x.Signature)})
			}
		}
		from := int64(0)
		if b < v.Filter.BatchIndex {
			from = math.MaxInt64
		}
		if !s.compareList(fmt.Sprintf("signatures of batch %d", b), got, sigs[b], from) {
			return
		}
	}
	for b, bd := range v.Batches {
		if len(bd.DecryptionSignatures) > 0 && len(sigs[b]) == 0 {
			w.violate("view-differs", "the view at block %d has signatures for batch %d, the chain none", v.CurrentBlock, b)
			return
		}
	}
}

// lookups compares the answers of the view's query methods.
func (s *shm) lookups(v *observe.Shutter) {
	w := s.w
	var eons []fact
	var cfgs []*shutterevents.BatchConfig
	in := map[common.Address]bool{}
	fs := s.upTo(v.CurrentBlock)
	for i := range fs {
		f := &fs[i]
		switch f.kind {
		case "eon":
			eons = append(eons, *f)
		case "config":
			cfgs = append(cfgs, f.cfg)
		case "checkin":
			in[f.sender] = true
		}
	}
	var probes []uint64
	for i := 0; i < 3; i++ {
		probes = append(probes, bigUint(w.rng, 60))
	}
	for i := 0; i < 3 && len(eons) > 0; i++ {
		f := eons[w.rng.Intn(len(eons))]
		probes = append(probes, f.batch, f.batch-1)
	}
	for _, b := range probes {
		want := int64(-1)
		for _, f := range eons {
			if f.batch <= b {
				want = int64(f.eon)
			}
		}
		got := int64(-1)
		if e, err := v.FindEonByBatchIndex(b); err == nil {
			got = int64(e.Eon)
		}
		if got != want {
			w.violate("lookup", "FindEonByBatchIndex(%d) at block %d: %d instead of %d", b, v.CurrentBlock, got, want)
		}
		wc := uint64(0)
		for _, c := range cfgs {
			if c.StartBatchIndex <= b {
				wc = c.ConfigIndex
			}
		}
		if g := v.FindBatchConfigByBatchIndex(b); g.ConfigIndex != wc {
			w.violate("lookup", "FindBatchConfigByBatchIndex(%d) at block %d: config %d instead of %d", b, v.CurrentBlock, g.ConfigIndex, wc)
		}
	}
	for j := 0; j < 6; j++ {
		i := uint64(w.rng.Intn(len(eons) + 2))
		e, err := v.FindEon(i)
		if (err == nil) != (i >= 1 && i <= uint64(len(eons))) || err == nil && e.Eon != i {
			w.violate("lookup", "FindEon(%d) at block %d: %v %v", i, v.CurrentBlock, e, err)
		}
	}
	idx := map[uint64]bool{}
	for _, c := range cfgs {
		idx[c.ConfigIndex] = true
		g, err := v.FindBatchConfigByConfigIndex(c.ConfigIndex)
		if err != nil || addrsStr(g.Keypers) != addrsStr(c.Keypers) {
			w.violate("lookup", "FindBatchConfigByConfigIndex(%d) at block %d: %v %v", c.ConfigIndex, v.CurrentBlock, g, err)
		}
	}
	if _, err := v.FindBatchConfigByConfigIndex(s.lastCfg + 5); err == nil {
		w.violate("lookup", "FindBatchConfigByConfigIndex finds a config that does not exist")
	}
	for _, a := range append([]common.Address{{1}}, s.addrs...) {
		isK := false
		for _, c := range cfgs {
			for _, k := range c.Keypers {
				isK = isK || k == a
			}
		}
		if v.IsKeyper(a) != isK {
			w.violate("lookup", "IsKeyper(%s) at block %d: %v", a.Hex(), v.CurrentBlock, !isK)
		}
		if v.IsCheckedIn(a) != in[a] {
			w.violate("lookup", "IsCheckedIn(%s) at block %d: %v", a.Hex(), v.CurrentBlock, !in[a])
		}
	}
}

func (s *shm) final() {
	w := s.w
	if !w.up {
		w.violate("observer-down", "the observer is not running long after the last fault")
		return
	}
	// the view may be two blocks behind: one because only committed blocks count, one in flight
	if s.cur == nil || s.cur.CurrentBlock < s.chain.Height()-4 {
		b := int64(-1)
		if s.cur != nil {
			b = s.cur.CurrentBlock
		}
		w.violate("view-stuck", "the last fault ended %.0f s ago, yet the view is at block %d while the chain is at %d", float64(w.end-w.faultEnd)/1000, b, s.chain.Height())
		return
	}
	if !s.cur.IsSynced() {
		w.violate("view-stuck", "the view still says that the node is catching up")
	}
}
