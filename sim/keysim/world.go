package main

import (
	"container/heap"
	"crypto/ecdsa"
	"crypto/ed25519"
	"fmt"
	"hash/fnv"
	"math/big"
	"os"
	"runtime"
	"sort"
	"time"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/crypto/ecies"
	abci "github.com/tendermint/tendermint/abci/types"
	tmtypes "github.com/tendermint/tendermint/types"

	"github.com/shutter-network/shutter/shuttermint/app"
	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/contract/erc1820"
	"github.com/shutter-network/shutter/shuttermint/keyper"
	"github.com/shutter-network/shutter/shuttermint/shmsg"

	"verif/sim/ethsim"
	"verif/sim/simnet"
	"verif/sim/simrt"
	"verif/sim/tmsim"
)

// Change is a further config.
type Change struct {
	Set     []int  `json:"set"`
	T       int    `json:"t"`
	After   uint64 `json:"after"` // batches of the config before it
	Span    uint64 `json:"span"`
	Timeout uint64 `json:"timeout"`
	Limits  int    `json:"limits"`
}

// Cfg is the deployment one seed describes.
type Cfg struct {
	N        int      `json:"n"` // keypers in config 1
	T        int      `json:"t"`
	Nodes    int      `json:"nodes"` // all keyper nodes, including later joiners
	Byz      []int    `json:"byz"`
	Follow   uint64   `json:"follow"`
	Stagger  uint64   `json:"stagger"`
	Span     uint64   `json:"span"`
	Timeout  uint64   `json:"timeout"`
	Phase    uint64   `json:"phase"`
	Batches  int      `json:"batches"`
	Limits   int      `json:"limits"` // index into limits
	Start    uint64   `json:"start_block"`
	Changes  []Change `json:"changes"`
	FaultEnd int64    `json:"fault_end_ms"`
	End      int64    `json:"end_ms"`
}

const (
	tmPeriod  = 1000 * time.Millisecond
	ethPeriod = 2000 * time.Millisecond
	chainID   = "shutter-sim"
)

type timer struct {
	at  time.Time
	seq int
	f   func()
}

type timerHeap []*timer

func (h timerHeap) Len() int { return len(h) }
func (h timerHeap) Less(i, j int) bool {
	if !h[i].at.Equal(h[j].at) {
		return h[i].at.Before(h[j].at)
	}
	return h[i].seq < h[j].seq
}
func (h timerHeap) Swap(i, j int)       { h[i], h[j] = h[j], h[i] }
func (h *timerHeap) Push(x interface{}) { *h = append(*h, x.(*timer)) }
func (h *timerHeap) Pop() interface{} {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

// World is one simulated deployment.
type World struct {
	tr       Trace
	dir      string
	cfg      Cfg
	rng      *simrt.Rng // only for decisions at run time
	eth      *ethsim.Chain
	tm       *tmsim.Chain
	nodes    []*KNode
	byAddr   map[common.Address]*KNode
	addrs    []common.Address
	deployer *ecdsa.PrivateKey
	users    []*ecdsa.PrivateKey
	boot     *ecdsa.PrivateKey
	t0       time.Time
	timers   timerHeap
	seq      int
	events   []*Event
	skip     map[int]bool
	viols    []*Violation
	stop     bool
	cutShort bool
	stats    map[string]int
	hash     uint64
	quiet    bool
	procs    map[uintptr]*simnet.Proc

	cc                                                         map[string]*ethsim.Contract
	cfgAddr, batcher, keyBroadcast, executor, deposit, slasher common.Address
	target, feeBank                                            common.Address
	tmDelayUntil, ethDelayUntil, tmStop, ethStop               time.Time
	tmDelayMax, ethDelayMax, tmLose                            int
	o                                                          *oracle
	confs                                                      []contract.BatchConfig // as scheduled on the main chain
	sched                                                      []scheduled
	maxSettled                                                 *ethsim.Block
}

func (w *World) now() time.Time { return time.Now() }

func (w *World) ms() int64 { return time.Since(w.t0).Milliseconds() }

func (w *World) at(d time.Duration, f func()) {
	w.seq++
	heap.Push(&w.timers, &timer{w.now().Add(d), w.seq, f})
}

func (w *World) logf(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	h := fnv.New64a()
	var b [8]byte
	for i := range b {
		b[i] = byte(w.hash >> (8 * i))
	}
	h.Write(b[:])
	fmt.Fprintf(h, "%d %s", w.ms(), s)
	w.hash = h.Sum64()
	if verbose {
		sw, _, sh := runtime.SimStats()
		fmt.Fprintf(os.Stderr, "[%8.3f] %s {%d %x}\n", float64(w.ms())/1000, s, sw, sh&0xffff)
	}
}

func (w *World) violate(class string, props []string, format string, a ...interface{}) {
	v := &Violation{Props: props, Class: class, Msg: fmt.Sprintf(format, a...), At: float64(w.ms()) / 1000}
	w.logf("VIOLATION %s %v: %s", class, props, v.Msg)
	for _, x := range w.viols {
		if x.Class == v.Class && x.Msg == v.Msg {
			return
		}
	}
	if len(w.viols) < 200 {
		w.viols = append(w.viols, v)
	}
	if v.has(w.tr.Prop) && !known(v) {
		w.stop = true
	}
}

func key(r *simrt.Rng) *ecdsa.PrivateKey {
	for {
		k, err := crypto.ToECDSA(r.Bytes(32))
		if err == nil {
			return k
		}
	}
}

func addrOf(k *ecdsa.PrivateKey) common.Address { return crypto.PubkeyToAddress(k.PublicKey) }

func newWorld(t Trace, dir string) *World {
	w := &World{tr: t, dir: dir, stats: map[string]int{}, skip: map[int]bool{}, byAddr: map[common.Address]*KNode{}, procs: map[uintptr]*simnet.Proc{}, hash: t.Seed}
	for _, i := range t.Skip {
		w.skip[i] = true
	}
	runtime.SimSeed(t.Seed)
	runtime.SimSetFIFO(t.FIFO)
	root := simrt.NewRng(t.Seed)
	w.generate(root.Fork("gen"))
	w.rng = root.Fork("run")
	kr := root.Fork("keys")
	w.deployer, w.boot = key(kr), key(kr)
	for i := 0; i < 3; i++ {
		w.users = append(w.users, key(kr))
	}
	simnet.ProcOf = func() *simnet.Proc { return w.procs[runtime.SimTag()] }
	w.t0 = w.now()
	w.o = newOracle(w)
	for i := 0; i < w.cfg.Nodes; i++ {
		n := &KNode{w: w, ID: i, key: key(kr), rng: root.Fork(fmt.Sprintf("node%d", i)), files: map[string][]byte{}}
		n.addr = addrOf(n.key)
		n.enc = ecies.ImportECDSA(key(kr))
		n.val = ed25519.NewKeyFromSeed(kr.Bytes(32))
		w.nodes = append(w.nodes, n)
		w.byAddr[n.addr] = n
		w.addrs = append(w.addrs, n.addr)
	}
	for _, b := range w.cfg.Byz {
		w.nodes[b].byz = true
	}
	w.setup()
	return w
}

func (w *World) isByz(i int) bool { return w.nodes[i].byz }

// --- contracts ---------------------------------------------------------------------------------

func (w *World) sendEth(k *ecdsa.PrivateKey, to *common.Address, value *big.Int, data []byte, gas uint64) *types.Transaction {
	n := w.eth.PendingNonce(w.eth.Head, addrOf(k))
	var tx *types.Transaction
	if value == nil {
		value = new(big.Int)
	}
	if to == nil {
		tx = types.NewContractCreation(n, value, gas, ethsim.GasPrice, data)
	} else {
		tx = types.NewTransaction(n, *to, value, gas, ethsim.GasPrice, data)
	}
	tx, err := types.SignTx(tx, w.eth.Signer(), k)
	if err != nil {
		panic(err)
	}
	if err := w.eth.Submit(w.eth.Head, tx); err != nil {
		panic(fmt.Sprintf("simulator's own transaction refused: %v", err))
	}
	return tx
}

func (w *World) ethTime() uint64 { return uint64(w.now().Unix()) }

func (w *World) deploy(name, abiDef, bin string, args ...interface{}) common.Address {
	c := ethsim.NewContract(common.Address{}, abiDef)
	data, err := c.ABI.Pack("", args...)
	if err != nil {
		panic(err)
	}
	tx := w.sendEth(w.deployer, nil, nil, append(common.FromHex(bin), data...), 10_000_000)
	b := w.eth.Mine(w.ethTime())
	for i, x := range b.Txs {
		if x.Hash() == tx.Hash() {
			if b.Receipts[i].Status != 1 {
				panic("deployment of " + name + " failed")
			}
			c.Addr = b.Receipts[i].ContractAddress
			w.cc[name] = c
			return c.Addr
		}
	}
	panic("deployment of " + name + " not mined")
}

func (w *World) owner(name, method string, args ...interface{}) *types.Transaction {
	c := w.cc[name]
	data, err := c.ABI.Pack(method, args...)
	if err != nil {
		panic(err)
	}
	return w.sendEth(w.deployer, &c.Addr, nil, data, 5_000_000)
}

func (w *World) scheduleConfig(startBlock, startBatch uint64, c Change) {
	var keypers []common.Address
	for _, i := range c.Set {
		keypers = append(keypers, w.addrs[i])
	}
	w.sched = append(w.sched, scheduled{startBlock, startBatch, c})
	w.owner("config", "nextConfigSetStartBatchIndex", startBatch)
	w.owner("config", "nextConfigSetStartBlockNumber", startBlock)
	w.owner("config", "nextConfigSetThreshold", uint64(c.T))
	w.owner("config", "nextConfigSetBatchSpan", c.Span)
	w.owner("config", "nextConfigSetBatchSizeLimit", limits[c.Limits][0])
	w.owner("config", "nextConfigSetTransactionSizeLimit", limits[c.Limits][1])
	w.owner("config", "nextConfigSetTransactionGasLimit", limits[c.Limits][2])
	w.owner("config", "nextConfigSetFeeReceiver", common.Address{})
	w.owner("config", "nextConfigSetTargetAddress", w.target)
	var sel [4]byte
	copy(sel[:], w.cc["target"].ABI.Methods["call"].ID)
	w.owner("config", "nextConfigSetTargetFunctionSelector", sel)
	w.owner("config", "nextConfigSetExecutionTimeout", c.Timeout)
	w.owner("config", "nextConfigAddKeypers", keypers)
	w.owner("config", "scheduleNextConfig")
}

type scheduled struct {
	block, batch uint64
	Change
}

const headsUp = 3

// limits on the size of a batch, the size of a transaction, and its gas: what the tool that prepares
// configs writes, and roomier ones
var limits = [][3]uint64{{100_000, 1000, 10_000}, {1_000_000, 10_000, 100_000}, {60_000, 4000, 30_000}}

func (w *World) setup() {
	w.cc = map[string]*ethsim.Contract{}
	funds := []common.Address{addrOf(w.deployer), erc1820.DeployerAddress}
	funds = append(funds, w.addrs...)
	for _, u := range w.users {
		funds = append(funds, addrOf(u))
	}
	w.eth = ethsim.New(funds, nil, w.ethTime())
	if err := w.eth.Submit(w.eth.Head, erc1820.DeploymentTransaction); err != nil {
		panic(err)
	}
	w.eth.Mine(w.ethTime())
	w.cfgAddr = w.deploy("config", contract.ConfigContractABI, contract.ConfigContractBin, uint64(headsUp))
	w.feeBank = w.deploy("feebank", contract.FeeBankContractABI, contract.FeeBankContractBin)
	w.batcher = w.deploy("batcher", contract.BatcherContractABI, contract.BatcherContractBin, w.cfgAddr, w.feeBank)
	token := w.deploy("token", contract.TestDepositTokenContractABI, contract.TestDepositTokenContractBin)
	w.deposit = w.deploy("deposit", contract.DepositContractABI, contract.DepositContractBin, token)
	w.executor = w.deploy("executor", contract.ExecutorContractABI, contract.ExecutorContractBin, w.cfgAddr, w.batcher, w.deposit)
	w.slasher = w.deploy("slasher", contract.KeyperSlasherABI, contract.KeyperSlasherBin, big.NewInt(100_000), w.cfgAddr, w.executor, w.deposit)
	w.keyBroadcast = w.deploy("broadcast", contract.KeyBroadcastContractABI, contract.KeyBroadcastContractBin, w.cfgAddr)
	w.target = w.deploy("target", contract.MockTargetContractABI, contract.MockTargetContractBin)

	w.cfg.Start += w.eth.Head.Num
	first := Change{T: w.cfg.T, Span: w.cfg.Span, Timeout: w.cfg.Timeout, Limits: w.cfg.Limits}
	for i := 0; i < w.cfg.N; i++ {
		first.Set = append(first.Set, i)
	}
	w.scheduleConfig(w.cfg.Start, 0, first)
	b := w.eth.Mine(w.ethTime())
	for _, r := range b.Receipts {
		if r.Status != 1 {
			panic("config transaction failed")
		}
	}
	w.refreshConfs()

	var pk [32]byte
	copy(pk[:], simrt.NewRng(w.tr.Seed^7).Bytes(32))
	bootVal, err := app.NewValidatorPubkey(ed25519.NewKeyFromSeed(pk[:]).Public().(ed25519.PublicKey))
	if err != nil {
		panic(err)
	}
	w.tm = tmsim.New(chainID, []common.Address{addrOf(w.boot)}, 1, firstUpdate(bootVal))
	w.tm.Make(w.now())
	w.tm.Delay = w.tmTxDelay
	w.eth.Delay = w.ethTxDelay
	w.tm.OnBlock = w.o.onTMBlock
	for _, n := range w.nodes {
		n.setup()
	}
}

func firstUpdate(k app.ValidatorPubkey) abci.ValidatorUpdate {
	pm := app.Powermap{k: 10}
	return pm.ValidatorUpdates()[0]
}

// refreshConfs reads the scheduled configs from the head of the main chain.
func (w *World) refreshConfs() {
	c := w.cc["config"]
	n := w.eth.View(w.eth.Head, c, "numConfigs")[0].(uint64)
	var out []contract.BatchConfig
	for i := uint64(0); i < n; i++ {
		var bc contract.BatchConfig
		get := func(m string) uint64 { return w.eth.View(w.eth.Head, c, m, i)[0].(uint64) }
		bc.StartBatchIndex, bc.StartBlockNumber = get("configStartBatchIndex"), get("configStartBlockNumber")
		bc.Threshold, bc.BatchSpan, bc.ExecutionTimeout = get("configThreshold"), get("configBatchSpan"), get("configExecutionTimeout")
		nk := get("configNumKeypers")
		for j := uint64(0); j < nk; j++ {
			bc.Keypers = append(bc.Keypers, w.eth.View(w.eth.Head, c, "configKeypers", i, j)[0].(common.Address))
		}
		out = append(out, bc)
	}
	w.confs = out
}

// confFor returns the config responsible for a batch (nil: none).
func (w *World) confFor(batch uint64) *contract.BatchConfig {
	for i := len(w.confs) - 1; i > 0; i-- {
		if w.confs[i].StartBatchIndex <= batch {
			return &w.confs[i]
		}
	}
	return nil
}

// endBlock is the block at which the batch is closed.
func (w *World) endBlock(batch uint64) uint64 {
	c := w.confFor(batch)
	return c.StartBlockNumber + (batch-c.StartBatchIndex+1)*c.BatchSpan
}

// batchAt is the index of the batch that is open at the block (and at none before the start).
func (w *World) batchAt(block uint64) (uint64, bool) {
	for i := len(w.confs) - 1; i > 0; i-- {
		c := w.confs[i]
		if c.StartBlockNumber <= block {
			return c.StartBatchIndex + (block-c.StartBlockNumber)/c.BatchSpan, true
		}
	}
	return 0, false
}

func (w *World) keyperConfig(n *KNode) keyper.Config {
	return keyper.Config{
		ShuttermintURL: fmt.Sprintf("http://tm.k%d:26657", n.ID), EthereumURL: fmt.Sprintf("ws://eth.k%d:8546", n.ID),
		DBDir: n.disk.Dir, SigningKey: n.key, ValidatorKey: n.val, EncryptionKey: n.enc,
		ConfigContractAddress: w.cfgAddr, BatcherContractAddress: w.batcher, KeyBroadcastContractAddress: w.keyBroadcast,
		ExecutorContractAddress: w.executor, DepositContractAddress: w.deposit, KeyperSlasherAddress: w.slasher,
		MainChainFollowDistance: w.cfg.Follow, ExecutionStaggering: w.cfg.Stagger, DKGPhaseLength: w.cfg.Phase, GasPriceMultiplier: 1,
	}
}

// --- chains ------------------------------------------------------------------------------------

func (w *World) tmTxDelay(tx tmtypes.Tx) int {
	if w.quiet {
		return 0
	}
	if w.tmLose > 0 {
		w.tmLose--
		w.stats["fault_tm_tx_lost"]++
		return -1
	}
	if w.now().Before(w.tmDelayUntil) {
		w.stats["fault_tm_tx_delayed"]++
		return w.rng.Intn(w.tmDelayMax + 1)
	}
	if w.rng.P(0.1) {
		return 1
	}
	return 0
}

func (w *World) ethTxDelay(tx *types.Transaction) int {
	if w.quiet || tx.To() != nil && *tx.To() == w.cfgAddr {
		return 0 // the operator makes sure that a config is scheduled as it should be
	}
	if w.now().Before(w.ethDelayUntil) {
		w.stats["fault_eth_tx_delayed"]++
		return w.rng.Intn(w.ethDelayMax + 1)
	}
	if w.rng.P(0.1) {
		return 1
	}
	return 0
}

func (w *World) tmTick() {
	w.at(tmPeriod, w.tmTick)
	if w.now().Before(w.tmStop) {
		return
	}
	b := w.tm.Make(w.now())
	for i, r := range b.Results {
		w.logf("tm %d: tx %x code %d %s", b.H, b.Txs[i].Hash()[:4], r.Code, r.Log)
	}
	w.o.afterTMBlock(b)
	for _, n := range w.nodes {
		n := n
		w.at(time.Duration(w.rng.Range(20, 250))*time.Millisecond, n.advanceTM)
	}
	if b.H%20 == 0 {
		runtime.SimGC()
	}
}

func (w *World) ethTick() {
	w.at(ethPeriod, w.ethTick)
	if w.now().Before(w.ethStop) {
		return
	}
	w.eth.Mine(w.ethTime())
	w.newEthHead()
}

func (w *World) newEthHead() {
	b := w.eth.Head
	w.logf("eth %d %x txs %d", b.Num, b.Hash[:4], len(b.Txs))
	for i, r := range b.Receipts {
		w.logf("   eth tx %x status %d", b.Txs[i].Hash().Bytes()[:4], r.Status)
	}
	w.refreshIfConfig(b)
	w.o.onEthHead(b)
	for _, n := range w.nodes {
		n := n
		w.at(time.Duration(w.rng.Range(20, 400))*time.Millisecond, n.advanceEth)
	}
}

func (w *World) refreshIfConfig(b *ethsim.Block) {
	for _, tx := range b.Txs {
		if tx.To() != nil && *tx.To() == w.cfgAddr {
			w.refreshConfs()
			return
		}
	}
}

// settled is the newest main chain block no allowed reorganisation can remove any more.
func (w *World) settled() *ethsim.Block {
	h := w.eth.Head
	if h.Num < w.cfg.Follow {
		return ethsim.Ancestor(h, 0)
	}
	return ethsim.Ancestor(h, h.Num-w.cfg.Follow)
}

// sendTM signs and submits a shuttermint message.
func (w *World) sendTM(k *ecdsa.PrivateKey, msg *shmsg.Message) {
	tx := signTM(k, msg, w.rng.Uint64())
	r, err := w.tm.Submit(tx)
	w.logf("direct tm tx %x: %v %v", tmtypes.Tx(tx).Hash()[:4], r.Code, err)
}

// --- main loop ---------------------------------------------------------------------------------

func (w *World) run() {
	for _, n := range w.nodes {
		n := n
		w.at(time.Duration(w.rng.Range(0, 3000))*time.Millisecond, n.start)
	}
	w.at(tmPeriod, w.tmTick)
	w.at(ethPeriod+300*time.Millisecond, w.ethTick)
	bootAt := 2000 + w.rng.Intn(4000)
	w.at(time.Duration(bootAt)*time.Millisecond, func() {
		c := w.confs[1]
		defer func(l int) { w.tmLose = l }(w.tmLose)
		w.tmLose = 0 // the operator would notice and try again
		w.sendTM(w.boot, shmsg.NewBatchConfig(c.StartBatchIndex, c.Keypers, c.Threshold, w.cfgAddr, 1, false, false))
		w.logf("bootstrap")
	})
	for _, e := range w.events {
		if w.skip[e.ID] {
			continue
		}
		e := e
		w.at(time.Duration(e.At)*time.Millisecond, func() { w.apply(e) })
	}
	w.at(time.Duration(w.cfg.FaultEnd)*time.Millisecond, w.beginQuiet)
	end := w.t0.Add(time.Duration(w.cfg.End) * time.Millisecond)
	for !w.stop && len(w.timers) > 0 {
		t := heap.Pop(&w.timers).(*timer)
		if t.at.After(end) {
			break
		}
		if d := t.at.Sub(w.now()); d > 0 {
			time.Sleep(d)
		}
		if w.stop {
			break
		}
		t.f()
	}
	if !w.stop {
		w.o.final()
	}
	for _, n := range w.nodes {
		if n.disk != nil {
			for k, v := range n.disk.Stats {
				w.stats["fault_disk_"+k] += v
			}
		}
	}
	sw, _, sh := runtime.SimStats()
	w.stats["goroutine_switches"] = int(sw)
	w.logf("schedule %x", sh)
}

func (w *World) eventIDs() []int {
	var out []int
	for _, e := range w.events {
		if !w.skip[e.ID] {
			out = append(out, e.ID)
		}
	}
	return out
}

func (w *World) enabledEvents() []*Event {
	var out []*Event
	for _, e := range w.events {
		if !w.skip[e.ID] {
			out = append(out, e)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].At < out[j].At })
	return out
}
