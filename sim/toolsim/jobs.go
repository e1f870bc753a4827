package main

import (
	"crypto/ecdsa"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"

	"verif/sim/ethsim"
	"verif/sim/simrt"
)

// conf is a batch config as the contract stores it and as config files say it.
type conf struct {
	StartBatchIndex, StartBlockNumber, Threshold, BatchSpan, BatchSizeLimit, TransactionSizeLimit, TransactionGasLimit, ExecutionTimeout uint64
	FeeReceiver, TargetAddress                                                                                                           string
	TargetFunctionSelector                                                                                                               string
	Keypers                                                                                                                              []string
}

func (c conf) String() string {
	b, _ := json.Marshal(c)
	return string(b)
}

func (c conf) addrs() []common.Address {
	var out []common.Address
	for _, k := range c.Keypers {
		out = append(out, common.HexToAddress(k))
	}
	return out
}

// job is what the operator wants one command to do.
type job struct {
	args    []string
	invalid bool // the command has to refuse
	file    *conf
	auto    bool // the file leaves the start to the command
	index   string
	set     *keyperSet
	to      common.Address
	keys    []*ecdsa.PrivateKey
	dir     string
	gwei    int64             // the gas price asked for
	before  map[string][]byte // files there before
	expect  bool              // nothing forbids what is asked: it has to work
	out     string            // deploy: the file for the addresses
	number  int               // bootstrap: the config, init: the keyper's index
	dev     bool
	block   float64 // seconds per block
	genesis []common.Address
}

// keyperSet is what `prepare configs` wrote.
type keyperSet struct {
	dir  string
	conf conf
	keys []*ecdsa.PrivateKey
}

const nodeHost = "eth.k0:8546"

func (w *World) key(r *simrt.Rng) *ecdsa.PrivateKey {
	for {
		if k, err := crypto.ToECDSA(r.Bytes(32)); err == nil {
			return k
		}
	}
}

func (w *World) setup(r *simrt.Rng) {
	w.owner = w.key(r)
	if w.tr.Prop == "T02" {
		w.owner2 = w.key(r)
		w.d = ethsim.Bare(w.owner, []common.Address{ethsim.AddrOf(w.owner2)}, w.unix)
		w.cfg.HeadsUp = 20 // what deploy gives
		w.setupNet(r)
	} else {
		w.d = ethsim.Deploy(w.owner, nil, w.cfg.HeadsUp, 5, w.unix)
	}
	for i := 0; i < 8; i++ {
		k := w.key(r)
		w.keys = append(w.keys, k)
		if f := []float64{0, 0, 0, 0.3, 0.5, 0.4999, 0.7, 1, 1.5, 0.0001}[r.Intn(10)]; f > 0 {
			w.pay(w.owner, ethsim.AddrOf(k), ether(f))
		}
	}
	w.d.Chain.Mine(w.unix())
	w.d.Chain.Delay = func(*types.Transaction) int {
		if w.isQuiet || w.rng.P(0.7) {
			return 0
		}
		return w.rng.Intn(4)
	}
	w.node = ethsim.NewNode(w.d.Chain, 0, nodeHost)
	w.node.Pending = true
	w.node.Gate = func(_ *ethsim.Node, m string) error { return w.gate(m) }
	w.node.After = func(_ *ethsim.Node, m string) error { return w.after(m) }
	w.node.Sent = func(tx *types.Transaction) {
		w.byTx[tx.Hash()] = w.last
		w.last.txs = append(w.last.txs, tx)
		w.logf("run %d sends %s nonce %d %x", w.last.n, w.name(tx), tx.Nonce(), tx.Data())
	}
	if w.tr.Prop == "T02" {
		return
	}
	names := map[string]string{"ConfigContract": "config", "KeyBroadcastContract": "broadcast", "FeeBankContract": "feebank", "BatcherContract": "batcher", "ExecutorContract": "executor",
		"TokenContract": "token", "DepositContract": "deposit", "KeyperSlasherContract": "slasher", "TargetProxyContract": "target", "TargetContract": "target"}
	cj := map[string]string{}
	for k, v := range names {
		cj[k] = w.d.Addr(v).Hex()
	}
	b, _ := json.Marshal(cj)
	w.write("contracts.json", b)
}

func (w *World) path(name string) string { return filepath.Join(w.dir, name) }

func (w *World) write(name string, b []byte) {
	simrt.Raw(func() {
		os.MkdirAll(filepath.Dir(w.path(name)), 0o755)
		if err := os.WriteFile(w.path(name), b, 0o644); err != nil {
			panic(err)
		}
	})
}

func (w *World) pay(from *ecdsa.PrivateKey, to common.Address, v *big.Int) *types.Transaction {
	n := w.d.Chain.PendingNonce(w.d.Chain.Head, ethsim.AddrOf(from))
	tx, err := types.SignTx(types.NewTransaction(n, to, v, 21000, ethsim.GasPrice, nil), w.d.Chain.Signer(), from)
	if err != nil {
		panic(err)
	}
	if err := w.d.Chain.Submit(w.d.Chain.Head, tx); err != nil {
		w.logf("payment refused: %v", err)
	}
	return tx
}

// name of the contract method a transaction calls.
func (w *World) name(tx *types.Transaction) string {
	if len(tx.Data()) < 4 {
		return "transfer"
	}
	if tx.To() == nil {
		return "create"
	}
	if w.d.C["config"] == nil {
		return "?"
	}
	if m, err := w.d.C["config"].ABI.MethodById(tx.Data()[:4]); err == nil {
		return m.Name
	}
	return "?"
}

// fromContract converts what the binding returns for a config.
func fromContract(x interface{}) conf {
	v := reflect.ValueOf(x)
	u := func(n string) uint64 { return v.FieldByName(n).Uint() }
	a := func(n string) string { return v.FieldByName(n).Interface().(common.Address).Hex() }
	sel := v.FieldByName("TargetFunctionSelector").Interface().([4]byte)
	c := conf{StartBatchIndex: u("StartBatchIndex"), StartBlockNumber: u("StartBlockNumber"), Threshold: u("Threshold"), BatchSpan: u("BatchSpan"), BatchSizeLimit: u("BatchSizeLimit"),
		TransactionSizeLimit: u("TransactionSizeLimit"), TransactionGasLimit: u("TransactionGasLimit"), ExecutionTimeout: u("ExecutionTimeout"),
		FeeReceiver: a("FeeReceiver"), TargetAddress: a("TargetAddress"), TargetFunctionSelector: "0x" + hex.EncodeToString(sel[:])}
	for _, k := range v.FieldByName("Keypers").Interface().([]common.Address) {
		c.Keypers = append(c.Keypers, k.Hex())
	}
	return c
}

func (w *World) nextConf(b *ethsim.Block) conf {
	return fromContract(w.d.View(b, "config", "nextConfig")[0])
}

func (w *World) numConfs(b *ethsim.Block) uint64 {
	return w.d.View(b, "config", "numConfigs")[0].(uint64)
}

func (w *World) confAt(b *ethsim.Block, i uint64) conf {
	return fromContract(w.d.View(b, "config", "configForConfigIndex", i)[0])
}

func (w *World) lastConf(b *ethsim.Block) conf { return w.confAt(b, w.numConfs(b)-1) }

// someConf makes a config for a file.
func (w *World) someConf(r *simrt.Rng) conf {
	a := func() string { return common.BytesToAddress(r.Bytes(20)).Hex() }
	u := func() uint64 {
		if r.P(0.2) {
			return []uint64{0, 1, 1<<63 - 1, 1 << 63, 1<<64 - 1}[r.Intn(5)]
		}
		return uint64(r.Intn(100000))
	}
	c := conf{BatchSpan: uint64(r.Range(1, 30)), BatchSizeLimit: u(), TransactionSizeLimit: u(), TransactionGasLimit: u(), ExecutionTimeout: u(), FeeReceiver: a(), TargetAddress: a(),
		TargetFunctionSelector: "0x" + hex.EncodeToString(r.Bytes(4))}
	if r.P(0.2) {
		c.BatchSpan = 0
	}
	if r.P(0.15) {
		c.BatchSpan = uint64(r.Range(30, 200))
	}
	n := r.Range(1, 6)
	for _, i := range r.Perm(len(w.keys))[:n] {
		c.Keypers = append(c.Keypers, ethsim.AddrOf(w.keys[i]).Hex())
	}
	if r.P(0.4) { // close to what is there: only some fields change
		old := w.lastConf(w.d.Chain.Head)
		if r.P(0.5) {
			old = w.nextConf(w.d.Chain.Head)
		}
		old.Keypers = dedup(old.Keypers)
		if len(old.Keypers) > 0 {
			keep := reflect.ValueOf(&c).Elem()
			for i := 0; i < keep.NumField(); i++ {
				if r.P(0.7) {
					keep.Field(i).Set(reflect.ValueOf(old).Field(i))
				}
			}
		}
	}
	c.Threshold = uint64(r.Range(1, len(c.Keypers)))
	c.StartBatchIndex, c.StartBlockNumber = 0, 0
	return c
}

func dedup(s []string) []string {
	var out []string
	seen := map[string]bool{}
	for _, x := range s {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return out
}

// explicitStart gives a config a start that the contract accepts (or, rarely, not).
func (w *World) explicitStart(c *conf, r *simrt.Rng) (valid bool) {
	last := w.lastConf(w.d.Chain.Head)
	ahead := w.cfg.HeadsUp + last.BatchSpan + uint64(r.Range(40, 140))
	min := w.d.Chain.Head.Num + ahead
	if last.StartBlockNumber > min {
		min = last.StartBlockNumber + 1
	}
	if last.BatchSpan == 0 {
		c.StartBlockNumber, c.StartBatchIndex = min, last.StartBatchIndex
	} else {
		k := (min-last.StartBlockNumber)/last.BatchSpan + 1
		c.StartBlockNumber, c.StartBatchIndex = last.StartBlockNumber+k*last.BatchSpan, last.StartBatchIndex+k
	}
	if r.P(0.2) {
		if r.P(0.5) {
			c.StartBatchIndex++
		} else {
			c.StartBlockNumber = 1 + uint64(r.Intn(int(w.d.Chain.Head.Num)))
		}
		return false
	}
	return true
}

func (w *World) args(rest ...string) []string {
	return append(rest, "-e", "ws://"+nodeHost, "-c", w.path("contracts.json"))
}

func (w *World) ownerHex() string { return hex.EncodeToString(crypto.FromECDSA(w.owner)) }

// do prepares and starts the next thing on the operator's list.
func (w *World) do(e *Event) {
	r := simrt.NewRng(e.S)
	final := e.S>>63 == 1 && e.ID < 0
	name := fmt.Sprintf("f%d.json", e.ID+10)
	if w.tr.Prop == "T02" && w.doNet(e, r, final) {
		return
	}
	switch e.Kind {
	case "wait":
		w.at(time.Duration(e.Dur)*4*time.Millisecond, w.next)
	case "manual":
		w.manual(r)
		w.at(time.Duration(e.Dur)*time.Millisecond, w.next)
	case "spend":
		w.spend(r, e)
	case "set-next", "schedule-config", "copy":
		j := &job{}
		c := w.someConf(r)
		if len(w.sets) > 0 && r.P(0.3) && !final {
			s := w.sets[r.Intn(len(w.sets))]
			c, name = s.conf, strings.TrimPrefix(filepath.Join(s.dir, "config.json"), w.dir+"/")
			j.auto = true
		} else if e.Kind == "copy" {
			// what the contract holds already, as the query command prints it
			h := w.d.Chain.Head
			c = w.confAt(h, uint64(r.Intn(int(w.numConfs(h)))))
			c.Keypers = dedup(c.Keypers)
			if c.Threshold == 0 || c.Threshold > uint64(len(c.Keypers)) || c.StartBlockNumber == 0 {
				w.at(0, w.next)
				return
			}
			w.write(name, w.render(c, r))
		} else {
			j.auto = final || r.P(0.6)
			j.expect = true
			if !j.auto {
				j.expect = w.explicitStart(&c, r)
			}
			b := w.render(c, r)
			if !final && r.P(0.12) {
				b = w.damage(c, r)
				j.invalid = true
			}
			if b == nil {
				name = "no-such-file.json"
			} else {
				w.write(name, b)
			}
		}
		j.file = &c
		cmd := "set-next"
		if e.Kind == "schedule-config" {
			cmd = "schedule"
		}
		j.args = w.args("config", cmd, "-k", w.prefix(r)+w.ownerHex(), "--config", w.path(name))
		if r.P(0.15) {
			j.gwei = int64(r.Range(1, 5))
			j.args = append(j.args, "--gas-price", fmt.Sprint(j.gwei))
		}
		w.start(e, j, 0)
	case "schedule":
		w.start(e, &job{args: w.args("config", "schedule", "-k", w.ownerHex())}, 0)
	case "query":
		n := int(w.numConfs(w.d.Chain.Head))
		j := &job{index: []string{"next", "last", "all", fmt.Sprint(r.Intn(n)), fmt.Sprint(n + r.Intn(2))}[r.Intn(5)]}
		changing := !final && r.P(0.5)
		if changing && r.P(0.7) {
			j.index = "next"
		}
		j.args = w.args("config", "query", "-i", j.index)
		if j.index == "all" && r.P(0.5) {
			j.args = w.args("config", "query")
		}
		if changing {
			w.meanwhile(r)
		}
		w.start(e, j, 0)
	case "list":
		if !final && r.P(0.4) {
			w.meanwhile(r)
		}
		w.start(e, &job{args: w.args("config", "list")}, 0)
	case "fund":
		j := &job{}
		c := w.someConf(r)
		if len(w.sets) > 0 && r.P(0.4) && !final {
			s := w.sets[r.Intn(len(w.sets))]
			c, name = s.conf, strings.TrimPrefix(filepath.Join(s.dir, "config.json"), w.dir+"/")
		} else {
			w.write(name, w.render(c, r))
		}
		j.file = &c
		j.args = []string{"prepare", "fund", "-k", w.ownerHex(), "-e", "ws://" + nodeHost, "--config", w.path(name)}
		w.start(e, j, 0)
	case "balances":
		j := &job{}
		c := w.someConf(r)
		w.write(name, w.render(c, r))
		j.file = &c
		j.args = []string{"prepare", "fund", "query", "-e", "ws://" + nodeHost, "--config", w.path(name)}
		w.start(e, j, 0)
	case "unfund":
		if len(w.sets) == 0 {
			w.at(0, w.next)
			return
		}
		s := w.sets[r.Intn(len(w.sets))]
		j := &job{to: common.BytesToAddress(r.Bytes(20)), set: s}
		j.args = []string{"prepare", "unfund", "-e", "ws://" + nodeHost, "--to", j.to.Hex()}
		for i, k := range s.keys {
			if r.P(0.8) {
				j.keys = append(j.keys, k)
				j.args = append(j.args, filepath.Join(s.dir, fmt.Sprintf("keyper%d", i), "config.toml"))
			}
		}
		w.start(e, j, 0)
	case "prepare":
		dir := w.path(fmt.Sprintf("set%d", e.ID))
		if len(w.sets) > 0 && r.P(0.3) { // once more over what is there
			dir = w.sets[r.Intn(len(w.sets))].dir
		}
		n := r.Range(1, 5)
		j := &job{dir: dir, index: fmt.Sprint(n)}
		j.args = []string{"prepare", "configs", "-d", dir, "-n", j.index, "-e", "ws://" + nodeHost, "-s", "http://shm:26657", "-c", w.path("contracts.json")}
		j.before = w.files(dir)
		w.start(e, j, 0)
	default:
		panic(e.Kind)
	}
}

func (w *World) prefix(r *simrt.Rng) string {
	if r.P(0.3) {
		return "0x"
	}
	return ""
}

// render writes a config file the way an operator might.
func (w *World) render(c conf, r *simrt.Rng) []byte {
	m := map[string]interface{}{}
	v := reflect.ValueOf(c)
	for i := 0; i < v.NumField(); i++ {
		if x := v.Field(i); !x.IsZero() || r.P(0.6) {
			m[v.Type().Field(i).Name] = x.Interface()
		}
	}
	if c.Keypers == nil {
		m["Keypers"] = []string{}
	}
	b, err := json.MarshalIndent(m, "", "    ")
	if err != nil {
		panic(err)
	}
	return b
}

// damage writes a config file that must not be accepted.
func (w *World) damage(c conf, r *simrt.Rng) []byte {
	b := w.render(c, r)
	switch r.Intn(8) {
	case 0:
		c.Threshold = uint64(len(c.Keypers) + 1 + r.Intn(3))
	case 1:
		c.Threshold = 0
	case 2:
		c.Keypers = nil
	case 3:
		c.TargetFunctionSelector = c.TargetFunctionSelector[:len(c.TargetFunctionSelector)-2]
	case 4:
		c.TargetFunctionSelector += "00"
	case 5:
		k := []byte(c.Keypers[0]) // a typo: the checksum does not match any more
		for i := 2 + r.Intn(30); ; i++ {
			if ch := k[2+i%40]; ch >= 'a' && ch <= 'f' || ch >= 'A' && ch <= 'F' {
				k[2+i%40] ^= 0x20
				break
			}
		}
		c.Keypers[0] = string(k)
	case 6:
		return b[:r.Intn(len(b)-1)]
	default:
		return nil
	}
	return w.render(c, r)
}

// manual is the owner working on the contract by other means.
// meanwhile lets the owner change the config in preparation while a slow command looks at it.
func (w *World) meanwhile(r *simrt.Rng) {
	until := w.now().Add(time.Duration(r.Range(2000, 9000)) * time.Millisecond)
	later(&w.faulted, until)
	later(&w.s.slowUntil, until)
	w.s.slowMs = 300 * r.Range(1, 5)
	f := r.Fork("meanwhile")
	for i := r.Range(1, 3); i > 0; i-- {
		w.at(time.Duration(r.Intn(4000))*time.Millisecond, func() {
			if !w.isQuiet {
				w.manual(f)
			}
		})
	}
	w.stats["queries_during_changes"]++
}

func (w *World) manual(r *simrt.Rng) {
	send := func(m string, a ...interface{}) {
		w.logf("the owner calls %s %v", m, a)
		w.d.Send(w.owner, "config", m, a...)
	}
	for i := r.Range(1, 3); i > 0; i-- {
		switch r.Intn(7) {
		case 0:
			send("nextConfigSetThreshold", uint64(r.Intn(5)))
		case 1:
			send("nextConfigSetBatchSpan", uint64(r.Intn(30)))
		case 2, 3:
			var as []common.Address
			for j := r.Range(1, 4); j > 0; j-- {
				as = append(as, ethsim.AddrOf(w.keys[r.Intn(len(w.keys))]))
			}
			send("nextConfigAddKeypers", as)
		case 4:
			send("nextConfigRemoveKeypers", uint64(r.Intn(3)))
		case 5:
			send("nextConfigSetStartBlockNumber", uint64(r.Intn(1000)))
		case 6:
			if last := w.lastConf(w.d.Chain.Head); last.StartBlockNumber > w.d.Chain.Head.Num+w.cfg.HeadsUp+10 {
				send("unscheduleConfigs", last.StartBlockNumber)
			} else {
				send("nextConfigSetTransactionGasLimit", r.Uint64())
			}
		}
	}
}

// spend lets keypers use up part of what they own; the operator waits for it.
func (w *World) spend(r *simrt.Rng, e *Event) {
	var txs []*types.Transaction
	old := w.d.Chain.Delay
	w.d.Chain.Delay = nil
	st := w.d.Chain.StateAt(w.d.Chain.Head)
	for _, k := range w.allKeys() {
		b := st.GetBalance(ethsim.AddrOf(k))
		b = new(big.Int).Sub(b, ether(0.01))
		if b.Sign() > 0 && r.P(0.5) {
			b.Mul(b, big.NewInt(int64(r.Range(1, 100)))).Div(b, big.NewInt(100))
			txs = append(txs, w.pay(k, common.Address{0xdd}, b))
		}
	}
	w.d.Chain.Delay = old
	var wait func()
	wait = func() {
		st := w.d.Chain.StateAt(w.d.Chain.Head)
		for _, tx := range txs {
			if st.GetNonce(w.d.Chain.Sender(tx)) <= tx.Nonce() {
				w.at(time.Second, wait)
				return
			}
		}
		w.at(time.Duration(e.Dur)*time.Millisecond, w.next)
	}
	wait()
}

func (w *World) allKeys() []*ecdsa.PrivateKey {
	out := append([]*ecdsa.PrivateKey{}, w.keys...)
	for _, s := range w.sets {
		out = append(out, s.keys...)
	}
	return out
}

// files reads a directory tree.
func (w *World) files(dir string) map[string][]byte {
	out := map[string][]byte{}
	simrt.Raw(func() {
		filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() {
				out[strings.TrimPrefix(p, dir+"/")], _ = os.ReadFile(p)
			}
			return nil
		})
	})
	return out
}

func sorted(m map[string][]byte) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
