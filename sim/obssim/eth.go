package main

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"encoding/gob"
	"fmt"
	"math/big"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"

	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/keyper"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"

	"verif/sim/ethsim"
	"verif/sim/simnet"
	"verif/sim/simrt"
)

type ethCfg struct {
	Follow  uint64 `json:"follow"`
	Pre     int    `json:"pre_blocks"` // blocks with content before the observer first starts
	Blocks  int    `json:"blocks"`
	Keypers int    `json:"keypers"`
	Appeal  uint64 `json:"appeal_blocks"`
	HeadsUp uint64 `json:"heads_up"`
	preSeed uint64
}

type eth struct {
	w    *World
	cfg  ethCfg
	d    *ethsim.Deployment
	node *ethsim.Node

	keys    []*ecdsa.PrivateKey // keypers first, then users
	addrs   []common.Address
	byAddr  map[common.Address]*ecdsa.PrivateKey
	maxHead uint64 // highest block the node has shown
	confs   []contract.BatchConfig
	truths  map[uint64]string

	saved     []byte
	savedDump string
	cur       *observe.MainChain
	curDump   string
	old       []*observe.MainChain
	oldDump   []string
	slowTil   time.Time
}

func newEth(w *World) *eth {
	return &eth{w: w, byAddr: map[common.Address]*ecdsa.PrivateKey{}, truths: map[uint64]string{}}
}

func (s *eth) config() interface{}   { return s.cfg }
func (s *eth) lst() *simnet.Listener { return s.node.Lst }

const ethPeriod = 2000 * time.Millisecond

// actions with weights; a run uses a random part of them.
var ethActions = []struct {
	kind string
	w    int
}{
	{"add", 10}, {"progress", 10}, {"accuse", 3}, {"appeal", 3}, {"slash", 2}, {"deposit", 4}, {"request", 2}, {"withdraw", 2}, {"schedule", 3},
	{"unschedule", 2}, {"jump", 1}, {"skip_many", 2},
}

func (s *eth) generate(r *simrt.Rng) {
	w := s.w
	w.period = ethPeriod
	s.cfg = ethCfg{Follow: uint64(r.Intn(7)), Pre: r.Intn(6), Blocks: r.Range(25, 80), Keypers: r.Range(1, 6), Appeal: uint64(r.Range(1, 12)), HeadsUp: uint64(r.Intn(5)), preSeed: r.Uint64()}
	if r.P(0.3) {
		s.cfg.Pre = r.Range(6, 60)
	}
	w.faultEnd = int64(s.cfg.Blocks) * 2000
	w.end = w.faultEnd + 150_000
	kinds := pick(r)
	n := s.cfg.Blocks * r.Range(1, 5) / 2
	for i := 0; i < n; i++ {
		w.add(Event{Kind: kinds[r.Intn(len(kinds))], At: int64(r.Intn(int(w.faultEnd))), S: r.Uint64()})
	}
	for i := 0; i < 20; i++ { // some while nothing fails any more
		w.add(Event{Kind: kinds[r.Intn(len(kinds))], At: w.faultEnd + int64(r.Intn(110_000)), S: r.Uint64()})
	}
	var extra []string
	if s.cfg.Follow > 0 {
		extra = []string{"reorg"}
	}
	w.generateFaults(r, 500, w.faultEnd-500, extra...)
}

func pick(r *simrt.Rng) []string {
	var kinds []string
	for _, a := range ethActions {
		if a.w >= 10 || r.P(0.75) {
			for i := 0; i < a.w; i++ {
				kinds = append(kinds, a.kind)
			}
		}
	}
	return kinds
}

func (s *eth) time() uint64 { return uint64(s.w.now().Unix()) }

func (s *eth) setup() {
	w := s.w
	r := simrt.NewRng(w.tr.Seed ^ 0x5eed)
	for len(s.keys) < s.cfg.Keypers+3 {
		k, err := crypto.ToECDSA(r.Bytes(32))
		if err != nil {
			continue
		}
		s.keys = append(s.keys, k)
		s.addrs = append(s.addrs, ethsim.AddrOf(k))
		s.byAddr[ethsim.AddrOf(k)] = k
	}
	owner, err := crypto.ToECDSA(r.Bytes(32))
	if err != nil {
		panic(err)
	}
	s.d = ethsim.Deploy(owner, s.addrs, s.cfg.HeadsUp, s.cfg.Appeal, s.time)
	for _, a := range s.addrs {
		s.d.Send(owner, "token", "send", a, big.NewInt(1000), []byte{})
	}
	s.d.Chain.Mine(s.time())
	pre := simrt.NewRng(s.cfg.preSeed)
	s.act("schedule", pre)
	s.d.Chain.Mine(s.time())
	s.readConfs()
	kinds := pick(pre)
	for i := 0; i < s.cfg.Pre; i++ {
		for j := pre.Intn(3); j > 0; j-- {
			s.act(kinds[pre.Intn(len(kinds))], pre)
		}
		s.d.Chain.Mine(s.time())
		s.readConfs()
	}
	s.d.Chain.Delay = s.delay
	s.node = ethsim.NewNode(s.d.Chain, 0, "eth.k0:8546")
	s.node.Gate = func(_ *ethsim.Node, m string) error { return w.gate(m) }
	s.node.After = func(_ *ethsim.Node, m string) error { return w.after(m) }
	s.setHead(s.d.Chain.Head)
}

func (s *eth) delay(*types.Transaction) int {
	if s.w.isQuiet || s.w.rng.P(0.85) {
		return 0
	}
	return s.w.rng.Intn(3)
}

// readConfs reads the configs at the head, for the actors.
func (s *eth) readConfs() { s.confs = s.configsAt(s.d.Chain.Head) }

func (s *eth) configsAt(b *ethsim.Block) []contract.BatchConfig {
	n := s.d.View(b, "config", "numConfigs")[0].(uint64)
	var out []contract.BatchConfig
	for i := uint64(0); i < n; i++ {
		u := func(m string) uint64 { return s.d.View(b, "config", m, i)[0].(uint64) }
		a := func(m string) common.Address { return s.d.View(b, "config", m, i)[0].(common.Address) }
		c := contract.BatchConfig{
			StartBatchIndex: u("configStartBatchIndex"), StartBlockNumber: u("configStartBlockNumber"), Threshold: u("configThreshold"),
			BatchSpan: u("configBatchSpan"), BatchSizeLimit: u("configBatchSizeLimit"), TransactionSizeLimit: u("configTransactionSizeLimit"),
			TransactionGasLimit: u("configTransactionGasLimit"), FeeReceiver: a("configFeeReceiver"), TargetAddress: a("configTargetAddress"),
			TargetFunctionSelector: s.d.View(b, "config", "configTargetFunctionSelector", i)[0].([4]byte), ExecutionTimeout: u("configExecutionTimeout"),
		}
		for j := uint64(0); j < u("configNumKeypers"); j++ {
			c.Keypers = append(c.Keypers, s.d.View(b, "config", "configKeypers", i, j)[0].(common.Address))
		}
		out = append(out, c)
	}
	return out
}

// confFor returns the index of the config responsible for a batch.
func (s *eth) confFor(batch uint64) int {
	for i := len(s.confs) - 1; i >= 0; i-- {
		if s.confs[i].StartBatchIndex <= batch {
			return i
		}
	}
	return 0
}

// end is the block at which a batch is closed.
func end(c contract.BatchConfig, batch uint64) uint64 {
	return c.StartBlockNumber + (batch-c.StartBatchIndex+1)*c.BatchSpan
}

// --- actors ------------------------------------------------------------------------------------

func (s *eth) content(e *Event) { s.act(e.Kind, simrt.NewRng(e.S)) }

func (s *eth) head() *ethsim.Block { return s.d.Chain.Head }

func (s *eth) act(kind string, r *simrt.Rng) {
	if s.d.Chain.PoolLen() > 60 {
		return
	}
	switch kind {
	case "add":
		s.addTx(r)
	case "progress":
		s.progress(r)
	case "accuse":
		s.accuse(r)
	case "appeal":
		s.appeal(r)
	case "slash":
		for hs := uint64(0); hs < 2*s.halfSteps(); hs += 2 {
			a := s.d.View(s.head(), "slasher", "accusations", hs)
			if a[0].(bool) && !a[1].(bool) && !a[2].(bool) && r.P(0.7) {
				s.d.Send(s.user(r), "slasher", "slash", hs)
				return
			}
		}
	case "deposit":
		data := make([]byte, 32)
		if r.P(0.9) {
			data[31] = byte(r.Intn(6))
		} else {
			copy(data[24:], r.Bytes(8))
		}
		s.d.Send(s.anyone(r), "token", "send", s.d.Addr("deposit"), big.NewInt(int64(r.Intn(60))), data)
	case "request":
		s.d.Send(s.anyone(r), "deposit", "requestWithdrawal")
	case "withdraw":
		s.d.Send(s.anyone(r), "deposit", "withdraw", s.addrs[r.Intn(len(s.addrs))])
	case "schedule":
		s.schedule(r)
	case "unschedule":
		s.d.Send(s.d.Owner, "config", "unscheduleConfigs", s.head().Num+s.cfg.HeadsUp+2+uint64(r.Intn(12)))
	case "jump":
		s.d.Send(s.d.Owner, "executor", "setHalfSteps", s.halfSteps()+1+uint64(r.Intn(8)))
	case "skip_many":
		s.d.Send(s.anyone(r), "executor", "skipEmptyOrTimedOutBatches", uint64(r.Range(1, 5)))
	default:
		panic("unknown event " + kind)
	}
}

func (s *eth) user(r *simrt.Rng) *ecdsa.PrivateKey   { return s.keys[s.cfg.Keypers+r.Intn(3)] }
func (s *eth) anyone(r *simrt.Rng) *ecdsa.PrivateKey { return s.keys[r.Intn(len(s.keys))] }

func (s *eth) halfSteps() uint64 {
	return s.d.View(s.head(), "executor", "numExecutionHalfSteps")[0].(uint64)
}

// addTx adds a transaction to one of the open batches.
func (s *eth) addTx(r *simrt.Rng) {
	next := s.head().Num + 1
	var c contract.BatchConfig
	for _, x := range s.confs {
		if x.StartBlockNumber <= next && x.BatchSpan > 0 {
			c = x
		}
	}
	if c.BatchSpan == 0 {
		return
	}
	batch := c.StartBatchIndex + (next-c.StartBlockNumber)/c.BatchSpan
	if r.P(0.25) {
		batch++
	}
	for i := r.Range(1, 3); i > 0; i-- {
		n := r.Range(1, 120)
		if r.P(0.04) {
			n = r.Range(2000, 6000)
		}
		s.d.Send(s.user(r), "batcher", "addTransaction", batch, uint8(r.Intn(2)), r.Bytes(n))
	}
}

// progress executes or skips the next half steps, as far as the blocks allow it.
func (s *eth) progress(r *simrt.Rng) {
	hs := s.halfSteps()
	next := s.head().Num + 1
	for i := r.Range(1, 5); i > 0; i-- {
		batch := hs / 2
		c := s.confs[s.confFor(batch)]
		if c.BatchSpan == 0 || next < end(c, batch) {
			return
		}
		if hs%2 == 1 {
			s.d.Send(s.anyone(r), "executor", "executePlainBatch", batch, s.batchTxs(batch, 1))
		} else {
			hash := s.batchHash(s.head(), batch, 0)
			var ks []int
			for j, k := range c.Keypers {
				if s.byAddr[k] != nil {
					ks = append(ks, j)
				}
			}
			if len(ks) == 0 || next >= end(c, batch)+c.ExecutionTimeout || r.P(0.15) {
				s.d.Send(s.anyone(r), "executor", "skipCipherExecution", batch)
			} else {
				txs := [][]byte{}
				if hash != (common.Hash{}) {
					for j := r.Intn(4); j > 0; j-- {
						txs = append(txs, r.Bytes(r.Range(1, 80)))
					}
				}
				j := ks[r.Intn(len(ks))]
				s.d.Send(s.byAddr[c.Keypers[j]], "executor", "executeCipherBatch", batch, [32]byte(hash), txs, uint64(j))
			}
		}
		hs++
	}
}

func (s *eth) batchHash(b *ethsim.Block, batch uint64, typ uint8) common.Hash {
	return s.d.View(b, "batcher", "batchHashes", batch, typ)[0].([32]byte)
}

// added is one transaction in a batch, as the chain's log has it.
type added struct {
	batch uint64
	typ   uint8
	tx    []byte
	hash  [32]byte
}

// logs returns the logs of a contract's event up to a block, oldest first.
func (s *eth) logs(b *ethsim.Block, name, event string) []*types.Log {
	c := s.d.C[name]
	id := c.ABI.Events[event].ID
	var out []*types.Log
	for ; b != nil && b.Num > 0; b = b.Parent {
		ls := b.Logs()
		for i := len(ls) - 1; i >= 0; i-- {
			if ls[i].Address == c.Addr && ls[i].Topics[0] == id {
				out = append(out, ls[i])
			}
		}
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (s *eth) added(b *ethsim.Block) []added {
	ev := s.d.C["batcher"].ABI.Events["TransactionAdded"]
	var out []added
	for _, l := range s.logs(b, "batcher", "TransactionAdded") {
		v, err := ev.Inputs.NonIndexed().Unpack(l.Data)
		if err != nil {
			panic(err)
		}
		out = append(out, added{v[0].(uint64), v[1].(uint8), v[2].([]byte), v[3].([32]byte)})
	}
	return out
}

func (s *eth) batchTxs(batch uint64, typ uint8) [][]byte {
	out := [][]byte{}
	for _, a := range s.added(s.head()) {
		if a.batch == batch && a.typ == typ {
			out = append(out, a.tx)
		}
	}
	return out
}

func (s *eth) receipt(b *ethsim.Block, hs uint64) contract.CipherExecutionReceipt {
	v := s.d.View(b, "executor", "getReceipt", hs)
	return *abi.ConvertType(v[0], new(contract.CipherExecutionReceipt)).(*contract.CipherExecutionReceipt)
}

func (s *eth) accuse(r *simrt.Rng) {
	n := s.halfSteps()
	var cand []uint64
	for hs := uint64(0); hs < n; hs += 2 {
		rc := s.receipt(s.head(), hs)
		if rc.Executed && rc.CipherBatchHash != ([32]byte{}) && !s.d.View(s.head(), "slasher", "accusations", hs)[0].(bool) {
			cand = append(cand, hs)
		}
	}
	if len(cand) == 0 {
		return
	}
	hs := cand[r.Intn(len(cand))]
	if r.P(0.4) {
		hs = cand[len(cand)-1]
	}
	c := s.confs[s.confFor(hs/2)]
	for _, j := range r.Perm(len(c.Keypers)) {
		if k := s.byAddr[c.Keypers[j]]; k != nil {
			s.d.Send(k, "slasher", "accuse", hs, uint64(j))
			if r.P(0.3) { // in the same block
				s.sendAppeal(r, hs)
			}
			return
		}
	}
}

func (s *eth) appeal(r *simrt.Rng) {
	var cand []uint64
	for hs := uint64(0); hs < s.halfSteps(); hs += 2 {
		a := s.d.View(s.head(), "slasher", "accusations", hs)
		if a[0].(bool) && !a[1].(bool) {
			cand = append(cand, hs)
		}
	}
	if len(cand) > 0 {
		s.sendAppeal(r, cand[r.Intn(len(cand))])
	}
}

func (s *eth) sendAppeal(r *simrt.Rng, hs uint64) {
	rc := s.receipt(s.head(), hs)
	c := s.confs[s.confFor(hs/2)]
	var b8 [8]byte
	for i := range b8 {
		b8[i] = byte(hs / 2 >> (56 - 8*i))
	}
	h := crypto.Keccak256([]byte("\x19dectx"), s.d.Addr("batcher").Bytes(), b8[:], rc.CipherBatchHash[:], rc.BatchHash[:])
	au := contract.Authorization{HalfStep: hs, BatchHash: rc.BatchHash, SignerIndices: []uint64{}, Signatures: [][]byte{}}
	for j, k := range c.Keypers {
		key := s.byAddr[k]
		if key == nil {
			continue
		}
		sig, err := crypto.Sign(h, key)
		if err != nil {
			panic(err)
		}
		sig[64] += 27
		au.SignerIndices = append(au.SignerIndices, uint64(j))
		au.Signatures = append(au.Signatures, sig)
	}
	s.d.Send(s.user(r), "slasher", "appeal", au)
}

func (s *eth) schedule(r *simrt.Rng) {
	next := s.head().Num + 1
	last := contract.BatchConfig{}
	if len(s.confs) > 0 {
		last = s.confs[len(s.confs)-1]
	}
	if len(s.confs) > 8 {
		return
	}
	heads := s.cfg.HeadsUp
	if last.BatchSpan > heads {
		heads = last.BatchSpan
	}
	c := contract.BatchConfig{BatchSpan: uint64(r.Range(1, 5)), ExecutionTimeout: uint64(r.Intn(9)), Threshold: 0}
	if len(s.confs) > 1 && r.P(0.12) {
		c.BatchSpan = 0
	}
	min := next + heads + 1
	if last.BatchSpan == 0 {
		c.StartBatchIndex = last.StartBatchIndex
		c.StartBlockNumber = min + uint64(r.Intn(8))
	} else {
		delta := uint64(1)
		if min > last.StartBlockNumber {
			delta = (min-last.StartBlockNumber)/last.BatchSpan + 1
		}
		delta += uint64(r.Intn(5))
		c.StartBatchIndex = last.StartBatchIndex + delta
		c.StartBlockNumber = last.StartBlockNumber + delta*last.BatchSpan
	}
	for _, j := range r.Perm(s.cfg.Keypers)[:r.Intn(s.cfg.Keypers+1)] {
		c.Keypers = append(c.Keypers, s.addrs[j])
	}
	if len(s.confs) <= 1 { // the first has all of them
		c.Keypers = append([]common.Address{}, s.addrs[:s.cfg.Keypers]...)
	}
	if len(c.Keypers) > 0 && r.P(0.15) { // listed twice
		c.Keypers = append(c.Keypers, c.Keypers[r.Intn(len(c.Keypers))])
	}
	c.Threshold = uint64(r.Intn(len(c.Keypers) + 1))
	o := func(m string, a ...interface{}) { s.d.Send(s.d.Owner, "config", m, a...) }
	o("nextConfigSetStartBatchIndex", c.StartBatchIndex)
	o("nextConfigSetStartBlockNumber", c.StartBlockNumber)
	o("nextConfigSetThreshold", c.Threshold)
	o("nextConfigSetBatchSpan", c.BatchSpan)
	o("nextConfigSetBatchSizeLimit", uint64(100_000+r.Intn(100_000)))
	o("nextConfigSetTransactionSizeLimit", uint64(10_000+r.Intn(100)))
	o("nextConfigSetTransactionGasLimit", uint64(100_000+r.Intn(1000)))
	o("nextConfigSetFeeReceiver", s.addrs[r.Intn(len(s.addrs))])
	o("nextConfigSetTargetAddress", s.d.Addr("target"))
	var sel [4]byte
	copy(sel[:], s.d.C["target"].ABI.Methods["call"].ID)
	o("nextConfigSetTargetFunctionSelector", sel)
	o("nextConfigSetExecutionTimeout", c.ExecutionTimeout)
	o("nextConfigRemoveKeypers", uint64(1000))
	o("nextConfigAddKeypers", c.Keypers)
	o("scheduleNextConfig")
}

// --- environment -------------------------------------------------------------------------------

func (s *eth) tick() {
	s.d.Chain.Mine(s.time())
	s.newHead()
	if s.head().Num%20 == 0 {
		runtime.SimGC()
	}
}

func (s *eth) newHead() {
	b := s.head()
	s.w.logf("block %d %x, %d txs", b.Num, b.Hash[:4], len(b.Txs))
	if verbose {
		for i, r := range b.Receipts {
			m, _ := s.methodOf(b.Txs[i])
			s.w.stats["status_"+m+fmt.Sprint(r.Status)]++
			s.w.logf("  %s status %d", m, r.Status)
		}
	}
	for i, r := range b.Receipts {
		if m, _ := s.methodOf(b.Txs[i]); r.Status == 1 {
			s.w.stats["done_"+m]++
		}
	}
	s.readConfs()
	s.w.at(time.Duration(s.w.rng.Range(20, 400))*time.Millisecond, s.advance)
}

func (s *eth) methodOf(tx *types.Transaction) (string, error) {
	for _, c := range s.d.C {
		if tx.To() != nil && c.Addr == *tx.To() {
			m, err := c.ABI.MethodById(tx.Data())
			if err != nil {
				return "", err
			}
			return m.Name, nil
		}
	}
	return "", nil
}

func (s *eth) setHead(b *ethsim.Block) {
	if b.Num > s.maxHead {
		s.maxHead = b.Num
	}
	s.node.SetHead(b)
}

func (s *eth) advance() {
	b := s.head()
	now := s.w.now()
	if now.Before(s.w.s.freezeUntil) {
		return
	}
	if now.Before(s.w.s.lagUntil) {
		l := uint64(s.w.s.lag)
		if l > s.cfg.Follow {
			l = s.cfg.Follow
		}
		b = ethsim.Ancestor(b, b.Num-l)
	}
	// a node never shows less than what it has shown before minus the follow distance
	if b.Num+s.cfg.Follow >= s.maxHead {
		s.setHead(b)
	}
}

func (s *eth) fault(e *Event) bool {
	d := time.Duration(e.Dur) * time.Millisecond
	switch e.Kind {
	case "mute":
		s.node.Mute()
	case "syncing":
		s.node.Syncing = true
		s.w.at(d, func() { s.node.Syncing = false })
	case "regress": // another node answers from now on, one that is some blocks behind
		h := s.node.Head.Num - uint64(e.A)
		if h+s.cfg.Follow >= s.maxHead {
			s.setHead(ethsim.Ancestor(s.node.Head, h))
			later(&s.w.s.freezeUntil, s.w.now().Add(d))
		}
	case "reorg":
		depth := 1 + int(e.S%s.cfg.Follow)
		r := simrt.NewRng(e.S)
		lose := r.Float() * 0.5
		s.d.Chain.Reorg(depth, s.time(), func(*types.Transaction) (bool, int) { return !r.P(lose), r.Intn(3) })
		s.newHead()
	case "burst":
		for i := 0; i < e.A*2; i++ {
			s.d.Chain.Mine(s.time())
		}
		s.newHead()
	case "slow_reader":
		later(&s.slowTil, s.w.now().Add(d))
	default:
		return false
	}
	return true
}

func (s *eth) quiet() {
	s.node.Syncing = false
	s.slowTil = time.Time{}
	s.advance()
}

// --- the observer ------------------------------------------------------------------------------

type storedMain struct{ MainChain *observe.MainChain }

func (s *eth) observe(o *obsProc) string {
	w := s.w
	view := observe.NewMainChain(s.cfg.Follow)
	if s.saved != nil {
		st := storedMain{}
		if err := gob.NewDecoder(bytes.NewReader(s.saved)).Decode(&st); err != nil {
			w.violate("view-lost", "the saved view cannot be read: %v", err)
			return "cannot load"
		}
		view = st.MainChain
		if d := dumpMain(view); d != s.savedDump {
			w.violate("view-lost", "the view read back is not the one saved: %s", firstDiff(s.savedDump, d))
		}
	}
	s.cur, s.curDump, s.old, s.oldDump = view, dumpMain(view), nil, nil
	cc, err := keyper.NewContractCallerFromConfig(keyper.Config{
		EthereumURL: "ws://eth.k0:8546", SigningKey: s.keys[0], ConfigContractAddress: s.d.Addr("config"), BatcherContractAddress: s.d.Addr("batcher"),
		KeyBroadcastContractAddress: s.d.Addr("broadcast"), ExecutorContractAddress: s.d.Addr("executor"), DepositContractAddress: s.d.Addr("deposit"),
		KeyperSlasherAddress: s.d.Addr("slasher"), MainChainFollowDistance: s.cfg.Follow,
	})
	if err != nil {
		return err.Error()
	}
	ch := make(chan *observe.MainChain)
	errc := make(chan error, 1)
	go func() { errc <- observe.SyncMain(context.Background(), &cc, view, ch) }()
	for {
		select {
		case err := <-errc:
			return fmt.Sprint(err)
		case v := <-ch:
			if !o.live() {
				simnet.Park()
			}
			s.onView(v)
			if w.rng.P(0.8) {
				var buf bytes.Buffer
				if err := gob.NewEncoder(&buf).Encode(storedMain{v}); err != nil {
					w.violate("view-unsaveable", "the view cannot be encoded: %v", err)
				}
				s.saved, s.savedDump = buf.Bytes(), s.curDump
			}
			if w.now().Before(s.slowTil) {
				time.Sleep(time.Duration(w.rng.Range(500, 14_000)) * time.Millisecond)
			} else if w.rng.P(0.1) {
				time.Sleep(time.Duration(w.rng.Range(10, 4000)) * time.Millisecond)
			}
			if !o.live() {
				simnet.Park()
			}
		}
	}
}

// --- oracle ------------------------------------------------------------------------------------

type mainDump struct {
	block, half uint64
	configs     []contract.BatchConfig
	batches     map[uint64]*observe.Batch
	receipts    map[uint64]contract.CipherExecutionReceipt
	deposits    map[common.Address]observe.Deposit
	accusations map[uint64]observe.Accusation
}

// text writes a view, or what the chain says, in one fixed form. What is absent and what is empty
// is the same.
func (m *mainDump) text() string {
	var b strings.Builder
	fmt.Fprintf(&b, "half steps %d\n", m.half)
	for i, c := range m.configs {
		fmt.Fprintf(&b, "config %d: batch %d block %d keypers %s threshold %d span %d limits %d %d %d fees %s target %s %x timeout %d\n", i, c.StartBatchIndex, c.StartBlockNumber,
			addrsStr(c.Keypers), c.Threshold, c.BatchSpan, c.BatchSizeLimit, c.TransactionSizeLimit, c.TransactionGasLimit, c.FeeReceiver.Hex(), c.TargetAddress.Hex(),
			c.TargetFunctionSelector, c.ExecutionTimeout)
	}
	var ks []uint64
	for k := range m.batches {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	for _, k := range ks {
		x := m.batches[k]
		if len(x.EncryptedTransactions)+len(x.PlainTransactions) == 0 && x.EncryptedBatchHash == (common.Hash{}) && x.PlainBatchHash == (common.Hash{}) {
			continue
		}
		fmt.Fprintf(&b, "batch %d (%d): encrypted %s %x, plain %s %x\n", k, x.BatchIndex, txsStr(x.EncryptedTransactions), x.EncryptedBatchHash[:6], txsStr(x.PlainTransactions), x.PlainBatchHash[:6])
	}
	ks = nil
	for k := range m.receipts {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	for _, k := range ks {
		x := m.receipts[k]
		fmt.Fprintf(&b, "receipt %d (%d): %v by %s cipher %x result %x\n", k, x.HalfStep, x.Executed, x.Executor.Hex(), x.CipherBatchHash[:6], x.BatchHash[:6])
	}
	var as []string
	for a, d := range m.deposits {
		amt := "0"
		if d.Amount != nil {
			amt = d.Amount.String()
		}
		if amt != "0" || d.Slashed || d.WithdrawalDelayBlocks != 0 || d.WithdrawalRequestedBlock != 0 {
			as = append(as, fmt.Sprintf("deposit %s (%s): %s delay %d requested %d slashed %v", a.Hex(), d.Account.Hex(), amt, d.WithdrawalDelayBlocks, d.WithdrawalRequestedBlock, d.Slashed))
		}
	}
	sort.Strings(as)
	for _, a := range as {
		fmt.Fprintln(&b, a)
	}
	ks = nil
	for k := range m.accusations {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	for _, k := range ks {
		x := m.accusations[k]
		fmt.Fprintf(&b, "accusation %d (%d): %s by %s at %d appealed %v\n", k, x.HalfStep, x.Executor.Hex(), x.Accuser.Hex(), x.BlockNumber, x.Appealed)
	}
	return b.String()
}

func txsStr(txs [][]byte) string {
	var out []string
	for _, t := range txs {
		out = append(out, short(t))
	}
	return "[" + strings.Join(out, " ") + "]"
}

func dumpMain(v *observe.MainChain) string {
	m := mainDump{block: v.CurrentBlock, half: v.NumExecutionHalfSteps, configs: v.BatchConfigs, batches: v.Batches, receipts: map[uint64]contract.CipherExecutionReceipt{},
		deposits: map[common.Address]observe.Deposit{}, accusations: map[uint64]observe.Accusation{}}
	for k, x := range v.CipherExecutionReceipts {
		m.receipts[k] = *x
	}
	for k, x := range v.Deposits {
		m.deposits[k] = *x
	}
	for k, x := range v.Accusations {
		m.accusations[k] = *x
	}
	return m.text()
}

// truth is what the chain says as of a block that cannot be reorganised away.
func (s *eth) truth(b *ethsim.Block) string {
	if t, ok := s.truths[b.Num]; ok {
		return t
	}
	m := mainDump{block: b.Num, half: s.d.View(b, "executor", "numExecutionHalfSteps")[0].(uint64), configs: s.configsAt(b), batches: map[uint64]*observe.Batch{},
		receipts: map[uint64]contract.CipherExecutionReceipt{}, deposits: map[common.Address]observe.Deposit{}, accusations: map[uint64]observe.Accusation{}}
	for i := range m.configs {
		seen := map[common.Address]bool{}
		var ks []common.Address
		for _, k := range m.configs[i].Keypers {
			if !seen[k] {
				ks = append(ks, k)
			}
			seen[k] = true
		}
		m.configs[i].Keypers = ks
	}
	for _, a := range s.added(b) {
		x := m.batches[a.batch]
		if x == nil {
			x = &observe.Batch{BatchIndex: a.batch}
			m.batches[a.batch] = x
		}
		if a.typ == 0 {
			x.EncryptedTransactions = append(x.EncryptedTransactions, a.tx)
			x.EncryptedBatchHash = s.batchHash(b, a.batch, 0)
		} else {
			x.PlainTransactions = append(x.PlainTransactions, a.tx)
			x.PlainBatchHash = s.batchHash(b, a.batch, 1)
		}
	}
	for hs := uint64(0); hs < m.half; hs++ {
		if r := s.receipt(b, hs); r.Executed {
			m.receipts[hs] = r
		}
	}
	for _, a := range append([]common.Address{ethsim.AddrOf(s.d.Owner)}, s.addrs...) {
		d := observe.Deposit{Account: a}
		d.Amount = s.d.View(b, "deposit", "getDepositAmount", a)[0].(*big.Int)
		d.WithdrawalDelayBlocks = s.d.View(b, "deposit", "getWithdrawalDelayBlocks", a)[0].(uint64)
		d.WithdrawalRequestedBlock = s.d.View(b, "deposit", "getWithdrawalRequestedBlock", a)[0].(uint64)
		d.Slashed = s.d.View(b, "deposit", "isSlashed", a)[0].(bool)
		m.deposits[a] = d
	}
	for _, l := range s.logs(b, "slasher", "Accused") {
		hs := new(big.Int).SetBytes(l.Topics[1][:]).Uint64()
		a := s.d.View(b, "slasher", "accusations", hs)
		m.accusations[hs] = observe.Accusation{Appealed: a[1].(bool), Executor: a[3].(common.Address), HalfStep: a[4].(uint64), BlockNumber: a[5].(uint64),
			Accuser: common.BytesToAddress(l.Topics[3][:])}
	}
	t := m.text()
	s.truths[b.Num] = t
	return t
}

func (s *eth) onView(v *observe.MainChain) {
	w := s.w
	prev, prevDump := s.cur, s.curDump
	if v != prev {
		s.old, s.oldDump = append(s.old, prev), append(s.oldDump, prevDump)
		if len(s.old) > 4 {
			s.old, s.oldDump = s.old[1:], s.oldDump[1:]
		}
	}
	for i, x := range s.old {
		if i < len(s.old)-1 && !w.rng.P(0.3) {
			continue
		}
		if d := dumpMain(x); d != s.oldDump[i] {
			w.violate("old-view-changed", "the view of block %d changed after it had been handed out: %s", x.CurrentBlock, firstDiff(s.oldDump[i], d))
		}
	}
	s.cur, s.curDump = v, dumpMain(v)
	w.stats["views_compared"]++
	w.logf("view of block %d", v.CurrentBlock)
	if v.CurrentBlock < prev.CurrentBlock {
		w.violate("view-went-back", "the view goes back from block %d to %d", prev.CurrentBlock, v.CurrentBlock)
		return
	}
	if v.CurrentBlock+s.cfg.Follow > s.maxHead && v.CurrentBlock != 0 {
		w.violate("view-ahead", "the view claims block %d with follow distance %d, the node's highest block was %d", v.CurrentBlock, s.cfg.Follow, s.maxHead)
		return
	}
	b := ethsim.Ancestor(s.head(), v.CurrentBlock)
	if v.CurrentBlock == 0 && s.curDump == dumpMain(observe.NewMainChain(0)) {
		return // nothing synchronised yet
	}
	if t := s.truth(b); t != s.curDump {
		w.violate("view-differs", "the view at block %d is not what the chain says: %s", v.CurrentBlock, firstDiff(t, s.curDump))
		return
	}
	s.lookups(v, b)
}

func (s *eth) lookups(v *observe.MainChain, b *ethsim.Block) {
	w := s.w
	confs := v.BatchConfigs
	for i := 0; i < 3; i++ {
		batch := uint64(w.rng.Intn(80))
		if w.rng.P(0.4) {
			c := confs[w.rng.Intn(len(confs))]
			batch = c.StartBatchIndex + uint64(w.rng.Intn(2))
			if batch > 0 && w.rng.P(0.3) {
				batch--
			}
		}
		ci := s.d.View(b, "config", "configIndexForBatchIndex", batch)[0].(uint64)
		active := s.d.View(b, "config", "batchingActive", ci)[0].(bool)
		got, ok := v.ConfigIndexForBatchIndex(batch)
		if ok != active || ok && uint64(got) != ci {
			w.violate("lookup", "ConfigIndexForBatchIndex(%d) at block %d: %d %v, the contract says %d %v", batch, v.CurrentBlock, got, ok, ci, active)
		}
		if c, ok := v.ConfigForBatchIndex(batch); ok && (c.StartBatchIndex != confs[ci].StartBatchIndex || c.StartBlockNumber != confs[ci].StartBlockNumber) {
			w.violate("lookup", "ConfigForBatchIndex(%d) at block %d is not config %d", batch, v.CurrentBlock, ci)
		}
		if active {
			bb := s.d.View(b, "config", "batchBoundaryBlocks", ci, batch)
			e := bb[1].(uint64)
			c := confs[ci]
			if c.BatchEndBlock(batch) != e {
				w.violate("lookup", "batch %d ends at block %d, the contract says %d", batch, c.BatchEndBlock(batch), e)
			}
			if x := c.BatchIndex(e - 1); x != batch {
				w.violate("lookup", "block %d belongs to batch %d, by the contract's boundaries it is in %d", e-1, x, batch)
			}
			if x := c.BatchIndex(e); x != batch+1 {
				w.violate("lookup", "block %d belongs to batch %d, by the contract's boundaries it is in %d", e, x, batch+1)
			}
		}
		n := uint64(w.rng.Intn(int(v.CurrentBlock) + 40))
		want := 0
		for j, c := range confs {
			if c.StartBlockNumber <= n {
				want = j
			}
		}
		if got := v.ActiveConfigIndex(n); got != want {
			w.violate("lookup", "ActiveConfigIndex(%d) at block %d: %d instead of %d", n, v.CurrentBlock, got, want)
		}
	}
	first := 0
	for j, c := range confs {
		if c.StartBlockNumber <= v.CurrentBlock {
			first = j
		}
	}
	for _, a := range s.addrs {
		want := false
		for _, c := range confs[first:] {
			for _, k := range c.Keypers {
				want = want || k == a
			}
		}
		if got := v.IsActiveKeyper(a); got != want {
			w.violate("lookup", "IsActiveKeyper(%s) at block %d: %v", a.Hex(), v.CurrentBlock, got)
		}
	}
}

func (s *eth) final() {
	w := s.w
	if !w.up {
		w.violate("observer-down", "the observer is not running long after the last fault")
		return
	}
	if s.cur == nil || s.cur.CurrentBlock+s.cfg.Follow+2 < s.head().Num {
		b := uint64(0)
		if s.cur != nil {
			b = s.cur.CurrentBlock
		}
		w.violate("view-stuck", "the last fault ended %.0f s ago, yet the view is at block %d while the chain is at %d (follow distance %d)", float64(w.end-w.faultEnd)/1000, b, s.head().Num, s.cfg.Follow)
		return
	}
	if !s.cur.IsSynced() {
		w.violate("view-stuck", "the view still says that the node is syncing")
	}
}
