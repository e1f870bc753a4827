package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/ed25519"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/spf13/viper"
	abci "github.com/tendermint/tendermint/abci/types"
	tmjson "github.com/tendermint/tendermint/libs/json"
	"github.com/tendermint/tendermint/p2p"
	"github.com/tendermint/tendermint/privval"
	tmtypes "github.com/tendermint/tendermint/types"

	"github.com/shutter-network/shutter/shuttermint/app"
	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/contract/erc1820"
	"github.com/shutter-network/shutter/shuttermint/sandbox"
	"github.com/shutter-network/shutter/shuttermint/shmsg"

	"verif/sim/ethsim"
	"verif/sim/simrt"
	"verif/sim/tmsim"
)

// T02: setting up a network with deploy, init and bootstrap.

const (
	tmHost  = "tm.k0:26657"
	tmChain = "shutter-test-chain-1"
)

// contractABIs maps the simulator's names of the contracts to what `deploy` calls them and to
// their ABI.
var contractABIs = []struct{ name, field, abi string }{
	{"config", "ConfigContract", contract.ConfigContractABI},
	{"broadcast", "KeyBroadcastContract", contract.KeyBroadcastContractABI},
	{"feebank", "FeeBankContract", contract.FeeBankContractABI},
	{"batcher", "BatcherContract", contract.BatcherContractABI},
	{"executor", "ExecutorContract", contract.ExecutorContractABI},
	{"token", "TokenContract", contract.TestDepositTokenContractABI},
	{"deposit", "DepositContract", contract.DepositContractABI},
	{"slasher", "KeyperSlasherContract", contract.KeyperSlasherABI},
	{"proxy", "TargetProxyContract", contract.TargetProxyContractABI},
	{"target", "TargetContract", contract.TestTargetContractABI},
}

// links says which getter of which contract has to give which contract's address.
var links = []struct{ c, getter, to string }{
	{"broadcast", "configContract", "config"},
	{"batcher", "configContract", "config"},
	{"batcher", "feeBankContract", "feebank"},
	{"executor", "configContract", "config"},
	{"executor", "batcherContract", "batcher"},
	{"executor", "depositContract", "deposit"},
	{"deposit", "token", "token"},
	{"slasher", "configContract", "config"},
	{"slasher", "executorContract", "executor"},
	{"slasher", "depositContract", "deposit"},
	{"proxy", "executor", "executor"},
	{"target", "executor", "proxy"},
}

func (w *World) setupNet(r *simrt.Rng) {
	n := []int{1, 1, 1, 2, 3}[r.Intn(5)]
	var as []common.Address
	for i := 0; i < n; i++ {
		k := w.key(r)
		w.boots = append(w.boots, k)
		as = append(as, ethsim.AddrOf(k))
	}
	val, err := app.NewValidatorPubkey(ed25519.NewKeyFromSeed(r.Bytes(32)).Public().(ed25519.PublicKey))
	if err != nil {
		panic(err)
	}
	w.tm = tmsim.New(tmChain, as, (2*n+2)/3, app.Powermap{val: 10}.ValidatorUpdates()[0])
	w.tm.Make(w.now())
	w.tm.Delay = func(tmtypes.Tx) int {
		if w.isQuiet || w.rng.P(0.7) {
			return 0
		}
		return w.rng.Intn(5)
	}
	w.tm.OnBlock = w.tmBlock
	w.tmNode = tmsim.NewNode(w.tm, 0, tmHost)
	w.tmNode.Gate = func(_ *tmsim.Node, m string) error { return w.gate("tm_" + m) }
	w.tmNode.After = func(_ *tmsim.Node, m string) error { return w.after("tm_" + m) }
	w.tmNode.SetHeight(w.tm.Height())
}

func (w *World) tickTM() {
	w.at(time.Second, w.tickTM)
	if w.now().Before(w.tmStopped) {
		return
	}
	b := w.tm.Make(w.now())
	w.tmNode.SetHeight(b.H)
}

// said is a message on the shuttermint chain.
type said struct {
	by   common.Address
	m    *shmsg.Message
	code uint32
}

func parseTM(tx []byte) (common.Address, *shmsg.MessageWithNonce, bool) {
	b, err := base64.RawURLEncoding.DecodeString(string(tx))
	if err != nil || len(b) < 65 {
		return common.Address{}, nil, false
	}
	s, err := shmsg.GetSigner(b)
	if err != nil {
		return common.Address{}, nil, false
	}
	m, err := shmsg.GetMessage(b)
	if err != nil || m.Msg == nil {
		return common.Address{}, nil, false
	}
	return s, m, true
}

// tmBlock records a block of the shuttermint chain.
func (w *World) tmBlock(b *tmsim.Block) {
	for i, tx := range b.Txs {
		s, m, ok := parseTM(tx)
		if !ok {
			w.violate("unasked", "an unreadable message is on the shuttermint chain: %x", []byte(tx))
			continue
		}
		w.logf("shuttermint block %d: %s says %s: %d", b.H, s.Hex(), m.Msg, b.Results[i].Code)
		w.said = append(w.said, said{s, m.Msg, b.Results[i].Code})
		w.stats["messages"]++
		if b.Results[i].Code == 0 && !w.isQuiet && len(w.boots) > 1 {
			w.votes++ // two keypers may have voted for different configs
		}
		switch {
		case m.Msg.GetBatchConfig() != nil, m.Msg.GetBatchConfigStarted() != nil:
			if x := m.Msg.GetBatchConfig(); x != nil && !w.asked(s, x) {
				w.violate("unasked", "%s proposes a batch config nobody asked for or that differs from the contract's: %s", s.Hex(), x)
			}
		default:
			w.violate("unasked", "%s says %s", s.Hex(), m.Msg)
		}
	}
}

// asked finds out if a bootstrap command could have meant this batch config.
func (w *World) asked(s common.Address, x *shmsg.BatchConfig) bool {
	for _, r := range w.boot {
		if ethsim.AddrOf(r.job.keys[0]) != s {
			continue
		}
		for _, c := range r.meant() {
			if sameBatchConfig(x, c, r.d) {
				return true
			}
		}
	}
	return false
}

// indexed is a config of the contract with its index.
type indexed struct {
	conf
	i uint64
}

// meant gives the configs a bootstrap command may have read.
func (r *run) meant() []indexed {
	var out []indexed
	for _, b := range r.blocks {
		if r.d.Chain.StateAt(b).GetCodeSize(r.d.Addr("config")) == 0 {
			continue
		}
		n := r.d.View(b, "config", "numConfigs")[0].(uint64)
		i := n - 1
		if r.job.number >= 0 {
			i = uint64(r.job.number)
		}
		if i < n {
			out = append(out, indexed{fromContract(r.d.View(b, "config", "configForConfigIndex", i)[0]), i})
		}
	}
	return out
}

func sameBatchConfig(x *shmsg.BatchConfig, c indexed, d *ethsim.Deployment) bool {
	if x.StartBatchIndex != c.StartBatchIndex || x.Threshold != c.Threshold || x.ConfigIndex != c.i || x.Started || x.ValidatorsUpdated || !bytes.Equal(x.ConfigContractAddress, d.Addr("config").Bytes()) {
		return false
	}
	if len(x.Keypers) != len(c.Keypers) {
		return false
	}
	for i, k := range c.addrs() {
		if !bytes.Equal(k.Bytes(), x.Keypers[i]) {
			return false
		}
	}
	return true
}

func (w *World) setupArgs(rest ...string) []string { return append(rest, "-e", "ws://"+nodeHost) }

// doNet starts the commands of T02.
func (w *World) doNet(e *Event, r *simrt.Rng, final bool) bool {
	switch e.Kind {
	case "deploy":
		j := &job{out: w.path(fmt.Sprintf("contracts%d.json", e.ID+10))}
		if !final && r.P(0.3) && w.outPath != "" {
			j.out = w.outPath // over what is there
		}
		j.keys = []*ecdsa.PrivateKey{w.owner}
		if !final && r.P(0.2) {
			j.keys[0] = w.owner2
		}
		j.args = w.setupArgs("deploy", "-k", w.prefix(r)+hex.EncodeToString(crypto.FromECDSA(j.keys[0])))
		if final || r.P(0.8) {
			j.args = append(j.args, "-o", j.out)
		} else {
			j.out = ""
		}
		if r.P(0.2) {
			j.gwei = int64(r.Range(1, 5))
			j.args = append(j.args, "--gas-price", fmt.Sprint(j.gwei))
		}
		if !final && r.P(0.1) && w.d.Chain.StateAt(w.d.Chain.Head).GetCodeSize(erc1820.ContractAddress) > 0 {
			j.args = append(j.args, "--no-erc1820")
		}
		w.start(e, j, 0)
	case "init":
		w.doInit(e, r, final)
	case "bootstrap":
		if len(w.d.C) == 0 {
			w.at(0, w.next)
			return true
		}
		j := &job{number: -1, keys: []*ecdsa.PrivateKey{w.boots[r.Intn(len(w.boots))]}}
		n := int(w.numConfs(w.d.Chain.Head))
		if final {
			j.keys[0] = w.boots[e.A]
		} else {
			if r.P(0.15) {
				j.keys[0] = w.keys[r.Intn(len(w.keys))]
			}
			if r.P(0.5) {
				j.number = r.Intn(n)
				if r.P(0.1) {
					j.number = n
				}
			}
		}
		j.args = w.setupArgs("bootstrap", "-s", "http://"+tmHost, "-c", w.contracts, "-k", hex.EncodeToString(crypto.FromECDSA(j.keys[0])))
		if j.number >= 0 {
			j.args = append(j.args, "-i", fmt.Sprint(j.number))
		}
		w.start(e, j, 0)
	case "config": // the owner schedules a config, not with the commands
		if final && w.d.Chain.PoolLen() > 0 && e.A < 20 {
			e.A++
			w.at(2*time.Second, func() { w.do(e) })
			return true
		}
		w.schedule(r)
		d := time.Duration(e.Dur) * time.Millisecond
		if final {
			d = 20 * time.Second
		}
		w.at(d, w.next)
	default:
		return false
	}
	return true
}

// schedule has the owner schedule a config that the contract accepts.
func (w *World) schedule(r *simrt.Rng) {
	if len(w.d.C) == 0 {
		return
	}
	h := w.d.Chain.Head
	if w.d.Chain.PoolLen() > 0 {
		return // of an interrupted command: it would mix with ours
	}
	c := w.someConf(r)
	c.BatchSpan = uint64(r.Range(1, 20))
	last := w.lastConf(h)
	min := h.Num + 20 + last.BatchSpan + 5
	if last.StartBlockNumber > min {
		min = last.StartBlockNumber + 1
	}
	if last.BatchSpan > 0 {
		k := (min-last.StartBlockNumber)/last.BatchSpan + 1
		c.StartBlockNumber, c.StartBatchIndex = last.StartBlockNumber+k*last.BatchSpan, last.StartBatchIndex+k
	} else {
		c.StartBlockNumber, c.StartBatchIndex = min, last.StartBatchIndex
	}
	send := func(m string, a ...interface{}) { w.d.Send(w.d.Owner, "config", m, a...) }
	next := w.nextConf(h)
	for n := len(next.Keypers); n > 0; n-- {
		send("nextConfigRemoveKeypers", uint64(1))
	}
	send("nextConfigAddKeypers", c.addrs())
	send("nextConfigSetThreshold", c.Threshold)
	send("nextConfigSetBatchSpan", c.BatchSpan)
	send("nextConfigSetStartBlockNumber", c.StartBlockNumber)
	send("nextConfigSetStartBatchIndex", c.StartBatchIndex)
	send("scheduleNextConfig")
	w.logf("the owner schedules %s", c)
}

func (w *World) doInit(e *Event, r *simrt.Rng, final bool) {
	j := &job{dir: w.path(fmt.Sprintf("node%d", e.ID+10)), block: 1, number: r.Intn(6)}
	if len(w.roots) > 0 && r.P(0.4) && !final {
		j.dir = w.roots[r.Intn(len(w.roots))]
	} else {
		w.roots = append(w.roots, j.dir)
	}
	j.args = []string{"init", "--root", j.dir, "--index", fmt.Sprint(j.number)}
	if r.P(0.3) {
		j.dev = true
		j.args = append(j.args, "--dev")
	}
	if r.P(0.5) {
		j.block = []float64{0.5, 1, 2, 3, 5, 0.1, 1.5}[r.Intn(7)]
		j.args = append(j.args, "--blocktime", fmt.Sprint(j.block))
	}
	var as []string
	for i := r.Range(0, 5); i > 0; i-- {
		a := common.BytesToAddress(r.Bytes(20))
		j.genesis = append(j.genesis, a)
		s := a.Hex()
		if r.P(0.2) {
			s = strings.ToLower(s)
		}
		as = append(as, s)
	}
	if len(as) == 0 {
		j.genesis = append(j.genesis, crypto.PubkeyToAddress(sandbox.GanacheKey(sandbox.NumGanacheKeys()-1).PublicKey))
	} else if !final && r.P(0.1) {
		as[r.Intn(len(as))] = []string{"0x12", "keyper0", as[0] + "00"}[r.Intn(3)]
		j.invalid = true
	}
	if r.P(0.5) {
		for _, a := range as {
			j.args = append(j.args, "--genesis-keyper", a)
		}
	} else if len(as) > 0 {
		j.args = append(j.args, "--genesis-keyper", strings.Join(as, ","))
	}
	w.start(e, j, 0)
}

// judgeNet checks what a command of T02 did.
func (w *World) judgeNet(r *run, code int) {
	switch r.e.Kind {
	case "deploy":
		w.judgeDeploy(r, code)
	case "init":
		w.judgeInit(r, code)
	case "bootstrap":
		w.judgeBootstrap(r, code)
	}
}

// undisturbed: nothing excuses a failure of the command.
func (w *World) undisturbed(r *run) bool {
	return !r.faulty && r.pending == 0 && r.fChain == r.first
}

func (w *World) judgeDeploy(r *run, code int) {
	j, h := r.job, w.d.Chain.Head
	if code > 0 && r.try == 0 && w.undisturbed(r) {
		w.violate("fails-without-fault", "%s fails although nothing is wrong with its node: %.300s", w.describe(r), r.errOut)
	}
	if code != 0 {
		return
	}
	for _, tx := range r.txs {
		b, i := w.find(tx.Hash())
		if b == nil {
			w.violate("not-waited", "%s succeeds before its transaction %x is mined", w.describe(r), tx.Hash().Bytes()[:4])
			return
		}
		if b.Receipts[i].Status != 1 {
			w.violate("failure-hidden", "%s succeeds although its transaction %x failed", w.describe(r), tx.Hash().Bytes()[:4])
			return
		}
	}
	addr := map[string]common.Address{}
	for _, m := range regexp.MustCompile(`(?m)^ *([A-Za-z]+): (0x[0-9a-fA-F]{40})$`).FindAllSubmatch(r.out, -1) {
		n := string(m[1])
		if n == "KeyperSlasher" {
			n = "KeyperSlasherContract"
		}
		addr[n] = common.HexToAddress(string(m[2]))
	}
	if j.out != "" {
		f := map[string]string{}
		if err := json.Unmarshal(w.files(filepath.Dir(j.out))[filepath.Base(j.out)], &f); err != nil {
			w.violate("addresses-lost", "%s succeeds, but its output file cannot be read: %v", w.describe(r), err)
			return
		}
		for _, c := range contractABIs {
			if f[c.field] == "" || common.HexToAddress(f[c.field]) != addr[c.field] {
				w.violate("addresses-lost", "%s writes %s=%s, and prints %s", w.describe(r), c.field, f[c.field], addr[c.field].Hex())
				return
			}
		}
	}
	st := w.d.Chain.StateAt(h)
	d := ethsim.Bare(j.keys[0], nil, w.unix)
	d.Chain = w.d.Chain
	for _, c := range contractABIs {
		a := addr[c.field]
		if (a == common.Address{}) || st.GetCodeSize(a) == 0 {
			w.violate("not-deployed", "%s succeeds, but there is no code at %s's address %s", w.describe(r), c.field, a.Hex())
			return
		}
		d.C[c.name] = ethsim.NewContract(a, c.abi)
	}
	if st.GetCodeSize(erc1820.ContractAddress) == 0 {
		w.violate("not-deployed", "%s succeeds, but there is no ERC1820 registry", w.describe(r))
	}
	try := func(c, m string) (out interface{}, err string) {
		defer func() {
			if x := recover(); x != nil {
				err = fmt.Sprint(x)
			}
		}()
		return d.View(h, c, m)[0], ""
	}
	for _, l := range links {
		got, err := try(l.c, l.getter)
		if err != "" || got != interface{}(d.Addr(l.to)) {
			w.violate("wrong-link", "%s: %s's %s is %v %s, not the %s contract %s", w.describe(r), l.c, l.getter, got, err, l.to, d.Addr(l.to).Hex())
		}
	}
	for _, c := range []string{"config", "deposit"} {
		if got, err := try(c, "owner"); err != "" || got != interface{}(ethsim.AddrOf(j.keys[0])) {
			w.violate("wrong-link", "%s: the owner of the %s contract is %v %s", w.describe(r), c, got, err)
		}
	}
	if got, err := try("slasher", "appealBlocks"); err != "" || got.(*big.Int).Sign() <= 0 {
		w.violate("wrong-link", "%s: the slasher leaves %v %s blocks for an appeal", w.describe(r), got, err)
	}
	if got, err := try("config", "configChangeHeadsUpBlocks"); err != "" || got.(uint64) == 0 {
		w.violate("wrong-link", "%s: configs may change without notice: %v %s", w.describe(r), got, err)
	}
	w.stats["deployments"]++
	if j.out == "" || (r.e.S>>60&1 == 0 && len(w.d.C) > 0) {
		return
	}
	w.d, w.contracts, w.outPath = d, j.out, j.out
	simrt.Raw(func() { // a later deployment may write to the same file
		w.contracts = w.path(fmt.Sprintf("in-use%d.json", r.n))
		w.write(filepath.Base(w.contracts), w.files(w.dir)[filepath.Base(j.out)])
	})
}

// minedNet checks a transaction of a command of T02.
func (w *World) minedNet(r *run, tx *types.Transaction) {
	w.stats["payments_checked"]++
	from := w.d.Chain.Sender(tx)
	switch {
	case r.e.Kind != "deploy":
	case tx.Hash() == erc1820.DeploymentTransaction.Hash():
		return
	case from != ethsim.AddrOf(r.job.keys[0]):
	case tx.To() == nil && tx.Value().Sign() == 0:
		if g := r.job.gwei; g > 0 && tx.GasPrice().Cmp(new(big.Int).Mul(big.NewInt(g), big.NewInt(1e9))) != 0 {
			w.violate("unasked", "%s pays a gas price of %s", w.describe(r), tx.GasPrice())
		}
		return
	case tx.To() != nil && *tx.To() == erc1820.DeployerAddress && tx.Value().Cmp(erc1820.DeployerAmount) == 0:
		return
	}
	w.violate("unasked", "%s sends a transaction from %s to %v with %s wei", w.describe(r), from.Hex(), tx.To(), tx.Value())
}

// precious files are what init must never replace.
var precious = []string{"config/priv_validator_key.json", "config/node_key.json", "config/genesis.json"}

func (w *World) judgeInit(r *run, code int) {
	j := r.job
	now := w.files(j.dir)
	for _, n := range precious {
		if b, ok := r.before[n]; ok && len(b) > 0 && !bytes.Equal(b, now[n]) {
			w.violate("key-file-overwritten", "%s changes the existing file %s", w.describe(r), n)
		}
	}
	if j.invalid {
		if code == 0 {
			w.violate("invalid-accepted", "%s succeeds", w.describe(r))
		}
		return
	}
	if code > 0 && !r.faulty {
		w.violate("fails-without-fault", "%s fails although nothing disturbs it (files before: %v): %.300s", w.describe(r), sorted(r.before), r.errOut)
	}
	if code != 0 {
		return
	}
	bad := func(format string, a ...interface{}) {
		w.violate("node-unusable", "%s succeeds, but %s (files before: %v)", w.describe(r), fmt.Sprintf(format, a...), sorted(r.before))
	}
	v := viper.New()
	v.SetConfigType("toml")
	if err := v.ReadConfig(bytes.NewReader(now["config/config.toml"])); err != nil {
		bad("config.toml cannot be read: %v", err)
		return
	}
	if got, want := v.GetString("rpc.laddr"), fmt.Sprintf(":%d", 26657+2*j.number); !strings.HasSuffix(got, want) {
		bad("the RPC address is %s", got)
	}
	if got, want := v.GetString("p2p.laddr"), fmt.Sprintf(":%d", 26656+2*j.number); !strings.HasSuffix(got, want) {
		bad("the P2P address is %s", got)
	}
	got := v.GetDuration("consensus.timeout_commit").Seconds()
	if got < j.block*0.999 || got > j.block*1.001 {
		bad("blocks take %v s", got)
	}
	var key privval.FilePVKey
	if err := tmjson.Unmarshal(now["config/priv_validator_key.json"], &key); err != nil || key.PrivKey == nil || !bytes.Equal(key.PrivKey.PubKey().Bytes(), key.PubKey.Bytes()) {
		bad("its validator key is not usable: %v", err)
		return
	}
	var state privval.FilePVLastSignState
	if err := tmjson.Unmarshal(now["data/priv_validator_state.json"], &state); err != nil {
		bad("its validator state is not usable: %v", err)
	}
	var nk p2p.NodeKey
	if err := tmjson.Unmarshal(now["config/node_key.json"], &nk); err != nil || nk.PrivKey == nil {
		bad("its node key is not usable: %v", err)
	}
	gen, err := tmtypes.GenesisDocFromJSON(now["config/genesis.json"])
	if err != nil {
		bad("its genesis file is not usable: %v", err)
		return
	}
	if len(gen.Validators) != 1 || !bytes.Equal(gen.Validators[0].PubKey.Bytes(), key.PubKey.Bytes()) || gen.Validators[0].Power <= 0 {
		bad("the genesis file names the validators %v", gen.Validators)
	}
	if _, ok := r.before["config/genesis.json"]; !ok {
		// what the node's application makes of it
		a := app.NewShutterApp()
		a.InitChain(abci.RequestInitChain{ChainId: gen.ChainID, Validators: []abci.ValidatorUpdate{app.Powermap{app.ValidatorPubkey{Ed25519pubkey: string(key.PubKey.Bytes())}: 10}.ValidatorUpdates()[0]}, AppStateBytes: gen.AppState})
		c := a.Configs[0]
		ok := len(c.Keypers) == len(j.genesis) && int(c.Threshold) == (2*len(j.genesis)+2)/3
		for i := range c.Keypers {
			ok = ok && c.Keypers[i] == j.genesis[i]
		}
		if !ok {
			bad("the application starts with keypers %v and threshold %d", c.Keypers, c.Threshold)
		}
		if gen.ChainID == "" || w.chainIDs[gen.ChainID] {
			bad("its chain ID %s is in use", gen.ChainID)
		}
		w.chainIDs[gen.ChainID] = true
	}
	simrt.Raw(func() {
		a, err := app.LoadShutterAppFromFile(filepath.Join(j.dir, "data/shutter.gob"))
		if err != nil {
			bad("the application's state cannot be loaded: %v", err)
			return
		}
		if a.DevMode != j.dev || a.LastBlockHeight != 0 {
			bad("the application starts at height %d in dev mode %v", a.LastBlockHeight, a.DevMode)
		}
	})
	if _, ok := now["data/shutter.gob"]; !ok {
		bad("there is no application state")
	}
	w.stats["nodes_initialized"]++
}

func (w *World) judgeBootstrap(r *run, code int) {
	j := r.job
	me := ethsim.AddrOf(j.keys[0])
	if code > 0 && !r.faulty && w.tm.PoolLen() == 0 && len(w.boots) == 1 && me == ethsim.AddrOf(w.boots[0]) && (r.configs == 1 || r.half != nil) {
		c := r.meant()
		ok := len(c) > 0
		for _, x := range c {
			ok = ok && x.String() == c[0].String() && x.i > 0 && x.i == c[0].i
		}
		if r.half != nil { // an interrupted bootstrap can be completed
			ok = ok && sameBatchConfig(r.half, c[0], r.d)
		}
		if ok {
			w.violate("fails-without-fault", "%s fails although nothing is wrong with its nodes and the config is the first: %.300s", w.describe(r), r.errOut)
		}
	}
	if code != 0 {
		return
	}
	var done *indexed
	for _, c := range r.meant() {
		c := c
		proposed, started := false, false
		for _, s := range w.said {
			if s.by != me || s.code != 0 {
				continue
			}
			if x := s.m.GetBatchConfig(); x != nil && sameBatchConfig(x, c, r.d) {
				proposed = true
			}
			if x := s.m.GetBatchConfigStarted(); x != nil && x.BatchConfigIndex == c.i {
				started = true
			}
		}
		if proposed && started {
			done = &c
		}
	}
	if done == nil {
		w.violate("not-bootstrapped", "%s succeeds, but the shuttermint chain has not accepted its config and its start; %s said: %v", w.describe(r), me.Hex(), w.saidBy(me))
		return
	}
	for _, c := range w.tm.App.Configs {
		if c.ConfigIndex == done.i {
			w.stats["bootstraps"]++
			return
		}
	}
	w.violate("not-bootstrapped", "%s succeeds, but the shuttermint chain does not have config %d", w.describe(r), done.i)
}

func (w *World) saidBy(a common.Address) []string {
	out := []string{}
	for _, s := range w.said {
		if s.by == a {
			out = append(out, fmt.Sprintf("%s: %d", s.m, s.code))
		}
	}
	return out
}

// quietNet: what the operator does after the faults, to get a network after all.
func (w *World) quietNet() []*Event {
	ev := []*Event{{Kind: "deploy"}, {Kind: "init"}, {Kind: "config"}}
	for i := 0; i < 2*len(w.boots); i++ {
		ev = append(ev, &Event{Kind: "bootstrap", A: i % len(w.boots)})
	}
	return append(ev, &Event{Kind: "init"})
}

// finalNet checks that there is a network in the end.
func (w *World) finalNet() {
	if len(w.d.C) == 0 {
		w.violate("no-network", "after the faults have ended, there are still no contracts")
		return
	}
	if len(w.tm.App.Configs) < 2 && w.votes == 0 {
		w.violate("no-network", "after the faults have ended, the shuttermint chain still has only the genesis config; said: %v", w.said)
		return
	}
	if len(w.tm.App.Configs) > 1 {
		w.stats["networks"]++
	}
}
