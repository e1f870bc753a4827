package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	abci "github.com/tendermint/tendermint/abci/types"
	tmcrypto "github.com/tendermint/tendermint/proto/tendermint/crypto"
	tmtypes "github.com/tendermint/tendermint/types"

	"github.com/shutter-network/shutter/shuttermint/app"
	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"

	"verif/sim/simrt"
)

// Genesis is the configuration of one run.
type Genesis struct {
	Chain       string `json:"chain"`
	Keypers     []int  `json:"keypers"`
	Threshold   uint64 `json:"threshold"`
	Validators  []int  `json:"validators"`
	Power       int64  `json:"power"`
	Replicas    int    `json:"replicas"`
	PersistMs   int    `json:"persist_ms"`
	LoseRenames bool   `json:"lose_renames"`
	Seed        uint64 `json:"seed"`
}

// Check is a mempool admission request made right before ABCI call At of a block.
type Check struct {
	At      int  `json:"at"`
	Recheck bool `json:"recheck,omitempty"`
	Tx      Tx   `json:"tx"`
}

// Op is one step of a run.
type Op struct {
	Kind    string  `json:"op"` // block, exec, check, crash, restart
	R       int     `json:"r,omitempty"`
	Dt      int64   `json:"dt_ms,omitempty"`
	Txs     []Tx    `json:"txs,omitempty"`
	Checks  []Check `json:"checks,omitempty"`
	CrashAt int     `json:"crash_at,omitempty"` // 1-based ABCI call before which the node dies
	Power   bool    `json:"power,omitempty"`
	DiskOp  int     `json:"disk_op,omitempty"` // 1-based file operation that fails
	Disk    int     `json:"disk,omitempty"`
}

// Trace is a replayable run.
type Trace struct {
	Prop    string  `json:"property"`
	Genesis Genesis `json:"genesis"`
	Ops     []Op    `json:"ops"`
}

// Violation describes what broke.
type Violation struct {
	Props []string `json:"props"`
	Class string   `json:"class"`
	Msg   string   `json:"msg"`
	Op    int      `json:"op"`
}

func (v *Violation) has(p string) bool {
	for _, x := range v.Props {
		if x == p || x == "*" {
			return true
		}
	}
	return false
}

type crashSig struct{}
type exitSig struct{ code int }

type block struct {
	txs  []Tx
	raw  [][]byte
	resp []string // digests of replica 0's responses, per call
}

type replica struct {
	id      int
	app     *app.ShutterApp
	disk    *simrt.NodeDisk
	inc     int
	model   *model
	vals    *tmtypes.ValidatorSet
	height  int
	alive   bool
	power   bool
	crashes int
}

type world struct {
	g     Genesis
	prop  string
	dir   string
	chain []*block // index 0 is height 1
	tip   *model
	reps  []*replica
	stats map[string]int
	hash  uint64
	op    int
	viol  *Violation
	log   io.Writer
	keep  map[string]bool
}

func genesisVal(i int) []byte {
	return crypto.Keccak256([]byte(fmt.Sprintf("genesis-validator-%d", i)))
}

func (w *world) fail(class string, props []string, f string, args ...interface{}) {
	panic(&Violation{Props: props, Class: class, Msg: fmt.Sprintf(f, args...), Op: w.op})
}

func (w *world) init() {
	g, scratch := w.g, w.dir
	runtime.SimSeed(g.Seed)
	simrt.Raw(func() {
		os.RemoveAll(scratch)
		os.MkdirAll(scratch, 0o755)
	})
	app.PersistMinDuration = time.Duration(g.PersistMs) * time.Millisecond
	w.tip = newModel(&g)
	for i := 0; i < g.Replicas; i++ {
		r := &replica{id: i}
		w.reps = append(w.reps, r)
		w.boot(r, nil, true)
	}
}

func (w *world) close() {
	for _, r := range w.reps {
		if r.disk != nil {
			r.disk.Close()
		}
	}
	simrt.Raw(func() { os.RemoveAll(w.dir) })
}

func (w *world) mixHash(s string) { w.hash = (w.hash ^ simrt.HashString(s)) * 1099511628211 }

// call runs one call into the code under test; crashed reports a simulated crash inside it.
func (w *world) call(r *replica, what string, f func()) (crashed bool) {
	defer func() {
		x := recover()
		switch x := x.(type) {
		case nil:
		case crashSig:
			crashed = true
		case exitSig:
			panic(&Violation{Props: []string{"*"}, Class: "exit", Msg: fmt.Sprintf("replica %d: process exit during %s", r.id, what), Op: w.op})
		case *Violation:
			panic(x)
		default:
			panic(&Violation{Props: []string{"*"}, Class: "panic", Msg: fmt.Sprintf("replica %d: panic during %s: %v\n%s", r.id, what, x, trimStack(debug.Stack())), Op: w.op})
		}
	}()
	f()
	return false
}

func trimStack(b []byte) string {
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 8 {
		out = out[:8]
	}
	return strings.Join(out, "\n")
}

// boot starts a replica on a disk with the given files; returns false if it died again.
func (w *world) boot(r *replica, files map[string][]byte, first bool) bool {
	if r.disk != nil {
		r.disk.Close()
	}
	r.inc++
	dir := filepath.Join(w.dir, fmt.Sprintf("r%d-%d", r.id, r.inc))
	simrt.Raw(func() { os.MkdirAll(dir, 0o755) })
	d := simrt.NewDisk(dir, simrt.NewRng(simrt.Mix(w.g.Seed, uint64(r.id), uint64(r.inc))))
	d.LoseRenames = w.g.LoseRenames
	d.OnCrash = func() { panic(crashSig{}) }
	d.Restore(files)
	r.disk = d
	r.alive = true

	var a app.ShutterApp
	var err error
	w.call(r, "LoadShutterAppFromFile", func() { a, err = app.LoadShutterAppFromFile(filepath.Join(dir, "shutter.gob")) })
	if err != nil {
		w.fail("no-restart", []string{"A02"}, "replica %d cannot start from what its disk holds after a crash: %v", r.id, err)
	}
	r.app = &a
	var info abci.ResponseInfo
	w.call(r, "Info", func() { info = a.Info(abci.RequestInfo{}) })
	h := int(info.LastBlockHeight)
	if h > r.height || h < 0 {
		w.fail("ahead", []string{"A02"}, "replica %d reports height %d after restart, but only %d blocks were executed", r.id, h, r.height)
	}
	if !first {
		w.stats["restarts"]++
		if h < r.height {
			w.stats["restart_replays_blocks"]++
		}
		if h > 0 {
			w.stats["restart_from_saved_state"]++
		}
	}
	r.model = newModel(&w.g)
	r.vals = nil
	if h == 0 {
		var vu []abci.ValidatorUpdate
		for _, v := range w.g.Validators {
			vu = append(vu, abci.ValidatorUpdate{Power: w.g.Power, PubKey: tmcrypto.PublicKey{Sum: &tmcrypto.PublicKey_Ed25519{Ed25519: genesisVal(v)}}})
		}
		var ks []common.Address
		for _, k := range w.g.Keypers {
			ks = append(ks, accounts[k].addr)
		}
		gs := app.NewGenesisAppState(ks, int(w.g.Threshold))
		b, err := json.Marshal(struct {
			Keypers   []common.MixedcaseAddress `json:"keypers"`
			Threshold string                    `json:"threshold"` // amino writes 64 bit numbers as strings
		}{gs.Keypers, fmt.Sprint(gs.Threshold)})
		if err != nil {
			panic(err)
		}
		w.call(r, "InitChain", func() {
			a.InitChain(abci.RequestInitChain{ChainId: w.g.Chain, Validators: vu, AppStateBytes: b})
		})
	}
	upTo := r.height
	r.height = 0
	var vs []*tmtypes.Validator
	for _, v := range w.g.Validators {
		pk, err := tmtypes.PB2TM.ValidatorUpdates([]abci.ValidatorUpdate{{Power: w.g.Power, PubKey: tmcrypto.PublicKey{Sum: &tmcrypto.PublicKey_Ed25519{Ed25519: genesisVal(v)}}}})
		if err != nil {
			panic(err)
		}
		vs = append(vs, pk...)
	}
	r.vals = tmtypes.NewValidatorSet(vs)
	// the model and the validator set fast-forward to the saved height; the blocks above it are
	// executed again, as tendermint does on restart
	for r.height < h {
		r.height++
		b := w.chain[r.height-1]
		for i, t := range b.txs {
			r.model.deliver(t, b.raw[i])
		}
		up := r.model.endBlock(int64(r.height))
		w.applyVals(r, up)
		r.model.resetCheck()
	}
	r.model.probes = map[string]int{}
	for r.height < upTo {
		w.stats["blocks_replayed"]++
		if !w.exec(r, Op{}) {
			return false
		}
	}
	return true
}

func (w *world) applyVals(r *replica, up []valUpdate) {
	var vu []abci.ValidatorUpdate
	for _, u := range up {
		vu = append(vu, abci.ValidatorUpdate{Power: u.power, PubKey: tmcrypto.PublicKey{Sum: &tmcrypto.PublicKey_Ed25519{Ed25519: []byte(u.key)}}})
	}
	w.applyTM(r, vu)
}

func (w *world) applyTM(r *replica, vu []abci.ValidatorUpdate) {
	if len(vu) == 0 {
		return
	}
	vs, err := tmtypes.PB2TM.ValidatorUpdates(vu)
	if err == nil {
		err = r.vals.UpdateWithChangeSet(vs)
	}
	if err != nil {
		w.fail("validators-refused", []string{"A05"}, "replica %d height %d: tendermint refuses the validator updates: %v", r.id, r.height, err)
	}
}

func evs(a []abci.Event) string {
	b, _ := json.Marshal(a)
	return string(b)
}

func canonEvent(e abci.Event) (string, error) {
	x, err := shutterevents.MakeEvent(e, 7)
	if err != nil {
		return "", err
	}
	switch v := x.(type) {
	case *shutterevents.CheckIn:
		return fmt.Sprintf("check-in %x %x", v.Sender, crypto.CompressPubkey(v.EncryptionPublicKey.ExportECDSA())), nil
	case *shutterevents.BatchConfig:
		return fmt.Sprintf("config %d %d %d %s", v.ConfigIndex, v.StartBatchIndex, v.Threshold, canonAddrs(v.Keypers)), nil
	case *shutterevents.DecryptionSignature:
		return fmt.Sprintf("signature %d %x %x", v.BatchIndex, v.Sender, v.Signature), nil
	case *shutterevents.EonStarted:
		return fmt.Sprintf("eon %d %d", v.Eon, v.BatchIndex), nil
	case *shutterevents.PolyCommitment:
		var bs [][]byte
		for _, g := range *v.Gammas {
			bs = append(bs, g.Marshal())
		}
		return fmt.Sprintf("commitment %x %d %s", v.Sender, v.Eon, canonBytes(bs)), nil
	case *shutterevents.PolyEval:
		return fmt.Sprintf("poly-eval %x %d %s %s", v.Sender, v.Eon, canonAddrs(v.Receivers), canonBytes(v.EncryptedEvals)), nil
	case *shutterevents.Accusation:
		return fmt.Sprintf("accusation %x %d %s", v.Sender, v.Eon, canonAddrs(v.Accused)), nil
	case *shutterevents.Apology:
		var bs [][]byte
		for _, e := range v.PolyEval {
			bs = append(bs, e.Bytes())
		}
		return fmt.Sprintf("apology %x %d %s %s", v.Sender, v.Eon, canonAddrs(v.Accusers), canonBytes(bs)), nil
	case *shutterevents.EpochSecretKeyShare:
		b, _ := v.Share.GobEncode()
		return fmt.Sprintf("key-share %x %d %d %x", v.Sender, v.Eon, v.Epoch, b), nil
	}
	return "", fmt.Errorf("unknown event %T", x)
}

// compare judges a response: between replicas for A01/A02, against the model for the others.
func (w *world) compareReplica(r *replica, b *block, call int, what, digest string) {
	w.mixHash(digest)
	if r.id == 0 && len(b.resp) == call {
		b.resp = append(b.resp, digest)
		return
	}
	if b.resp[call] != digest {
		p, cl := "A01", "replicas-differ"
		if r.crashes > 0 {
			p, cl = "A02", "recovered-differs"
		}
		if w.prop == "A01" || w.prop == "A02" {
			w.fail(cl, []string{p}, "height %d %s: replica %d answers %s, replica 0 answered %s", r.height+1, what, r.id, digest, b.resp[call])
		}
	}
}

func (w *world) modelOn() bool { return w.prop != "A01" && w.prop != "A02" }

func (w *world) judgeTx(r *replica, t Tx, v verdict, res abci.ResponseDeliverTx) {
	if !w.modelOn() {
		return
	}
	desc := func() string { b, _ := json.Marshal(t); return string(b) }
	ok := res.Code == 0
	if ok != v.ok {
		props := []string{v.cat}
		if t.Msg.Kind == "key_share" && v.ok {
			props = append(props, "A03")
		}
		w.fail("verdict", props, "replica %d height %d: %s %s, but the rules say %v (%s); the node logs %q", r.id, r.height+1, desc(),
			map[bool]string{true: "accepted", false: "rejected"}[ok], map[bool]string{true: "accept", false: "reject"}[v.ok], v.why, res.Log)
	}
	if v.loose {
		return
	}
	var got []string
	for _, e := range res.Events {
		c, err := canonEvent(e)
		if err != nil {
			w.fail("event", []string{v.cat}, "replica %d height %d: %s: event %s cannot be decoded by keypers: %v", r.id, r.height+1, desc(), e.Type, err)
		}
		got = append(got, c)
	}
	split := func(l []string) (eon, rest string) {
		for _, s := range l {
			if strings.HasPrefix(s, "eon ") {
				eon += s + "; "
			} else {
				rest += s + "; "
			}
		}
		return
	}
	ge, gr := split(got)
	we, wr := split(v.events)
	if ge != we {
		w.fail("event", []string{"A06"}, "replica %d height %d: %s announces eons [%s], the rules say [%s]", r.id, r.height+1, desc(), ge, we)
	}
	if gr != wr {
		w.fail("event", []string{v.cat}, "replica %d height %d: %s announces [%s], the rules say [%s]", r.id, r.height+1, desc(), gr, wr)
	}
}

func (w *world) doCheck(r *replica, c Check) bool {
	raw := c.Tx.Bytes()
	typ := abci.CheckTxType_New
	if c.Recheck {
		typ = abci.CheckTxType_Recheck
	}
	want, why := r.model.check(c.Tx, raw)
	var res abci.ResponseCheckTx
	if w.call(r, "CheckTx", func() { res = r.app.CheckTx(abci.RequestCheckTx{Tx: raw, Type: typ}) }) {
		return false
	}
	w.stats["checktx"]++
	if want {
		w.stats["checktx_admitted"]++
	}
	if (res.Code == 0) != want && w.modelOn() {
		b, _ := json.Marshal(c.Tx)
		w.fail("mempool", []string{"A08"}, "replica %d height %d: mempool admission of %s: code %d, but the rules say admit=%v (%s)", r.id, r.height, b, res.Code, want, why)
	}
	return true
}

func (w *world) die(r *replica, power bool) {
	r.disk.Frozen = true
	r.alive = false
	r.power = power
	r.crashes++
	w.stats["crash"]++
	if power {
		w.stats["power_loss"]++
	}
}

// exec lets a replica execute its next block.
func (w *world) exec(r *replica, op Op) bool {
	b := w.chain[r.height]
	h := int64(r.height + 1)
	n := len(b.txs)
	base := r.disk.Ops
	if op.Disk != 0 {
		r.disk.Plan = func(k, o int, path string) simrt.DiskAction {
			if k == base+op.DiskOp {
				return simrt.DiskAction(op.Disk)
			}
			return simrt.DiskOK
		}
		defer func() { r.disk.Plan = nil }()
	}
	for c := 0; c <= n+3; c++ {
		for _, ck := range op.Checks {
			if ck.At == c {
				if !w.doCheck(r, ck) {
					w.die(r, op.Power)
					return false
				}
			}
		}
		if op.CrashAt == c+1 {
			w.die(r, op.Power)
			return false
		}
		crashed := false
		switch {
		case c == 0:
			crashed = w.call(r, "BeginBlock", func() {
				r.app.BeginBlock(abci.RequestBeginBlock{Header: tmHeader(h)})
			})
		case c <= n:
			t, raw := b.txs[c-1], b.raw[c-1]
			v := r.model.deliver(t, raw)
			var res abci.ResponseDeliverTx
			crashed = w.call(r, "DeliverTx", func() { res = r.app.DeliverTx(abci.RequestDeliverTx{Tx: raw}) })
			if !crashed {
				w.stats["delivertx"]++
				if v.ok {
					w.stats["delivertx_accepted"]++
				}
				w.compareReplica(r, b, c-1, "tx", fmt.Sprintf("code=%d data=%x gas=%d/%d events=%s", res.Code, res.Data, res.GasWanted, res.GasUsed, evs(res.Events)))
				w.judgeTx(r, t, v, res)
			}
		case c == n+1:
			up := r.model.endBlock(h)
			var res abci.ResponseEndBlock
			crashed = w.call(r, "EndBlock", func() { res = r.app.EndBlock(abci.RequestEndBlock{Height: h}) })
			if crashed {
				break
			}
			var ds []string
			for _, u := range res.ValidatorUpdates {
				ds = append(ds, fmt.Sprintf("%s=%d", hex.EncodeToString(u.PubKey.GetEd25519()), u.Power))
			}
			w.compareReplica(r, b, n, "end of block", fmt.Sprintf("validators=%v params=%v events=%s", ds, res.ConsensusParamUpdates, evs(res.Events)))
			if w.modelOn() {
				w.applyTM(r, res.ValidatorUpdates)
				w.judgeVals(r, h, up, ds)
			}
		case c == n+2:
			var res abci.ResponseCommit
			before := r.disk.Stats["eio"] + r.disk.Stats["enospc"] + r.disk.Stats["short_write"]
			ops := r.disk.Ops
			crashed = w.call(r, "Commit", func() { res = r.app.Commit() })
			if r.disk.Ops > ops {
				w.stats["state_saves"]++
			}
			if r.disk.Stats["eio"]+r.disk.Stats["enospc"]+r.disk.Stats["short_write"] > before {
				w.stats["save_failed_by_disk"]++
			}
			if !crashed {
				w.compareReplica(r, b, n+1, "commit", fmt.Sprintf("apphash=%x retain=%d", res.Data, res.RetainHeight))
				r.model.resetCheck()
			}
			r.height++ // if it died in Commit, the saved state may or may not include the block
		case c == n+3:
			w.stats["blocks_executed"]++
			for k, v := range r.model.probes {
				w.stats["probe_"+k] += v
			}
			r.model.probes = map[string]int{}
		}
		if crashed {
			w.die(r, op.Power)
			return false
		}
	}
	return true
}

func (w *world) judgeVals(r *replica, h int64, up []valUpdate, got []string) {
	want := map[string]int64{}
	for k, p := range r.model.power {
		want[string(tmEd(k).Address())] = p
	}
	bad := len(r.vals.Validators) != len(want)
	for _, v := range r.vals.Validators {
		if want[string(v.Address)] != v.VotingPower {
			bad = true
		}
	}
	if bad {
		w.fail("validators", []string{"A05", "A04"}, "replica %d height %d: after updates %v the validator set has %d members and differs from the one the configs and check-ins call for (%d members, expected updates %d)",
			r.id, h, got, len(r.vals.Validators), len(want), len(up))
	}
}

// do executes one op; ops that make no sense in the current state are skipped.
func (w *world) do(op Op) {
	if op.Dt > 0 {
		runtime.SimSetTime(time.Now().UnixNano() + op.Dt*1e6)
	}
	switch op.Kind {
	case "block":
		b := &block{txs: op.Txs}
		for _, t := range op.Txs {
			raw := t.Bytes()
			b.raw = append(b.raw, raw)
			w.tip.deliver(t, raw)
		}
		w.tip.endBlock(int64(len(w.chain) + 1))
		w.chain = append(w.chain, b)
		w.exec(w.reps[0], Op{Checks: op.Checks})
	case "exec":
		if op.R == 0 || op.R >= len(w.reps) {
			return
		}
		r := w.reps[op.R]
		if r.alive && r.height < len(w.chain) {
			w.exec(r, op)
		}
	case "check":
		if op.R < len(w.reps) && w.reps[op.R].alive {
			for _, c := range op.Checks {
				w.doCheck(w.reps[op.R], c)
			}
		}
	case "crash":
		if op.R > 0 && op.R < len(w.reps) && w.reps[op.R].alive {
			w.die(w.reps[op.R], op.Power)
		}
	case "restart":
		if op.R > 0 && op.R < len(w.reps) && !w.reps[op.R].alive {
			r := w.reps[op.R]
			for k, v := range r.disk.Stats {
				w.stats["disk_"+k] += v
			}
			r.disk.Stats = map[string]int{}
			files := r.disk.Snapshot(r.power)
			for k, v := range r.disk.Stats {
				w.stats["disk_"+k] += v
			}
			r.disk.Stats = map[string]int{}
			w.boot(r, files, false)
		}
	}
}

// settle restarts everything that is down and lets all replicas catch up.
func (w *world) settle() {
	for _, r := range w.reps {
		if !r.alive {
			w.do(Op{Kind: "restart", R: r.id})
		}
		for r.alive && r.height < len(w.chain) {
			w.exec(r, Op{})
		}
		for k, v := range r.disk.Stats {
			w.stats["disk_"+k] += v
		}
		r.disk.Stats = map[string]int{}
	}
}

// result of one run.
type result struct {
	viol  *Violation
	stats map[string]int
	hash  uint64
	ops   int
}

// runTrace executes a fixed list of ops.
func runTrace(t Trace, scratch string) (res result) {
	return runWith(t.Genesis, t.Prop, scratch, func(w *world) {
		for i, op := range t.Ops {
			w.op = i
			w.do(op)
		}
		w.op = len(t.Ops)
		w.settle()
	})
}

func runWith(g Genesis, prop, scratch string, body func(w *world)) (res result) {
	w := &world{g: g, prop: prop, dir: scratch, stats: map[string]int{}, hash: 14695981039346656037}
	defer func() {
		w.close()
		res.stats, res.hash, res.ops = w.stats, w.hash, w.op
		switch x := recover().(type) {
		case nil:
		case *Violation:
			res.viol = x
		default:
			panic(x)
		}
	}()
	w.init()
	body(w)
	return
}

func init() {
	log.SetOutput(io.Discard)
	os.SimExit = func(code int) { panic(exitSig{code}) }
}
