package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/spf13/viper"

	"verif/sim/ethsim"
	"verif/sim/simrt"
)

// same compares a config of the contract with what a file asks for.
func same(got, want conf, auto bool) string {
	if auto {
		want.StartBatchIndex, want.StartBlockNumber = got.StartBatchIndex, got.StartBlockNumber
	}
	if got.String() == want.String() {
		return ""
	}
	return fmt.Sprintf("%s, the file says %s", got, want)
}

// judge checks what a command did once it has ended (code -1: it was killed).
func (w *World) judge(r *run, code int) {
	j, h := r.job, w.d.Chain.Head
	if w.tr.Prop == "T02" {
		w.judgeNet(r, code)
		return
	}
	if j.invalid {
		if code == 0 {
			w.violate("invalid-accepted", "%s succeeds with an invalid file", w.describe(r))
		}
		if len(r.txs) > 0 {
			w.violate("invalid-accepted", "%s sends %s although the file is invalid", w.describe(r), w.name(r.txs[0]))
		}
		return
	}
	// the first run of its kind with no fault around, and nothing unfinished before it, has to work
	if code > 0 && r.try == 0 && !r.faulty && r.pending == 0 && r.fChain == r.first {
		must := false
		switch r.e.Kind {
		case "set-next", "copy", "list", "balances":
			must = true
		case "query":
			must = j.index == "next" || j.index == "last" || j.index == "all"
		case "schedule-config":
			must = j.expect
		case "fund":
			must = true
		case "prepare":
			must = len(j.before) == 0
		}
		if must {
			w.violate("fails-without-fault", "%s fails although nothing is wrong with its node and what is asked is possible: %.300s", w.describe(r), r.errOut)
		}
	}
	switch r.e.Kind {
	case "query":
		if code == 0 {
			w.judgeQuery(r)
		}
		return
	case "list":
		if code == 0 {
			w.judgeList(r)
		}
		return
	case "balances":
		if code == 0 {
			w.judgeBalances(r)
		}
		return
	case "prepare":
		w.judgePrepare(r, code)
		return
	}
	if code != 0 {
		return
	}
	for _, tx := range r.txs {
		b, i := w.find(tx.Hash())
		if b == nil {
			w.violate("not-waited", "%s succeeds before its transaction %s is mined", w.describe(r), w.name(tx))
			return
		}
		if b.Receipts[i].Status != 1 {
			w.violate("failure-hidden", "%s succeeds although its transaction %s failed", w.describe(r), w.name(tx))
		}
	}
	switch r.e.Kind {
	case "set-next", "copy":
		got := w.nextConf(h)
		if d := same(got, *j.file, j.auto); d != "" {
			w.violate("next-config-differs", "%s succeeds, but the contract's next config is %s", w.describe(r), d)
			return
		}
		w.stats["next_configs_compared"]++
		if j.auto {
			w.judgeStart(r, got)
		}
	case "schedule", "schedule-config":
		n := 0
		for _, tx := range r.txs {
			if w.name(tx) == "scheduleNextConfig" {
				n++
			}
		}
		if n != 1 {
			w.violate("not-scheduled", "%s succeeds after scheduling %d times", w.describe(r), n)
			return
		}
		w.stats["schedules"]++
	case "fund":
		st := w.d.Chain.StateAt(h)
		for _, a := range j.file.addrs() {
			if b := st.GetBalance(a); b.Cmp(ether(0.5)) < 0 {
				w.violate("not-funded", "%s succeeds, but %s has only %s wei", w.describe(r), a.Hex(), b)
			}
		}
		w.stats["fundings"]++
	case "unfund":
		if r.pending > 0 {
			return
		}
		excused := bytes.Count(r.errOut, []byte("Cannot drain"))
		st := w.d.Chain.StateAt(h)
		for _, k := range j.keys {
			b := st.GetBalance(ethsim.AddrOf(k))
			if b.Sign() == 0 {
				continue
			}
			if excused--; excused < 0 {
				w.violate("not-drained", "%s succeeds and complains less often than there are accounts left, e.g. %s with %s wei", w.describe(r), ethsim.AddrOf(k).Hex(), b)
				return
			}
		}
		w.stats["drains"]++
	}
}

func (w *World) find(h common.Hash) (*ethsim.Block, int) {
	for b := w.d.Chain.Head; b != nil; b = b.Parent {
		for i, tx := range b.Txs {
			if tx.Hash() == h {
				return b, i
			}
		}
	}
	return nil, 0
}

// judgeStart checks the start a command chose for a config.
func (w *World) judgeStart(r *run, c conf) {
	last := w.lastConf(w.d.Chain.Head)
	for _, b := range append(w.window(), r.fChain) {
		if r.pending > 0 || w.lastConf(b).String() != last.String() {
			return // what it had to go by changed, or the node was behind
		}
	}
	lag := uint64(12) // a node that is behind does not know better
	if !r.faulty && r.first == r.fChain {
		lag = 0
	}
	min := r.first.Num + w.cfg.HeadsUp + 1
	if m := r.first.Num + last.BatchSpan + 1; m > min {
		min = m
	}
	if c.StartBlockNumber+lag < min {
		w.violate("bad-start", "%s chooses start block %d at block %d, the contract requires %d at least", w.describe(r), c.StartBlockNumber, r.first.Num, min)
		return
	}
	max := w.d.Chain.Head.Num + w.cfg.HeadsUp + last.BatchSpan + 25
	if last.StartBlockNumber > max {
		max = last.StartBlockNumber
	}
	if c.StartBlockNumber > max+2*last.BatchSpan {
		w.violate("bad-start", "%s chooses start block %d at block %d", w.describe(r), c.StartBlockNumber, r.first.Num)
		return
	}
	ok := c.StartBatchIndex == last.StartBatchIndex
	if last.BatchSpan > 0 {
		k := c.StartBatchIndex - last.StartBatchIndex
		ok = k > 0 && k < 1<<32 && last.StartBlockNumber+k*last.BatchSpan == c.StartBlockNumber
	}
	if !ok {
		w.violate("bad-start", "%s chooses start block %d and batch %d, which does not continue the config that starts at block %d with batch %d and span %d", w.describe(r), c.StartBlockNumber,
			c.StartBatchIndex, last.StartBlockNumber, last.StartBatchIndex, last.BatchSpan)
		return
	}
	w.stats["starts_checked"]++
}

// mined looks at the transactions of a new block.
func (w *World) mined(b *ethsim.Block) {
	st := w.d.Chain.StateAt(b)
	before := w.d.Chain.StateAt(b.Parent)
	for i, tx := range b.Txs {
		r := w.byTx[tx.Hash()]
		name := w.name(tx)
		w.logf("block %d: %s nonce %d status %d", b.Num, name, tx.Nonce(), b.Receipts[i].Status)
		if r == nil {
			continue
		}
		w.stats["txs_mined"]++
		if w.tr.Prop == "T02" {
			w.minedNet(r, tx)
			continue
		}
		if g := r.job.gwei; g > 0 && tx.GasPrice().Cmp(new(big.Int).Mul(big.NewInt(g), big.NewInt(1e9))) != 0 {
			w.violate("unasked", "%s pays a gas price of %s", w.describe(r), tx.GasPrice())
		}
		ok := map[string]string{"fund": "transfer", "unfund": "transfer", "set-next": "nextConfig", "copy": "nextConfig", "schedule-config": "nextConfig", "schedule": "scheduleNextConfig"}[r.e.Kind]
		if !strings.HasPrefix(name, ok) || ok == "" {
			if !(r.e.Kind == "schedule-config" && name == "scheduleNextConfig") {
				w.violate("unasked", "%s sends %s", w.describe(r), name)
			}
		}
		switch {
		case name == "scheduleNextConfig" && b.Receipts[i].Status == 1 && r.e.Kind == "schedule-config":
			// find the config this transaction scheduled: the contract counts them
			k := new(big.Int).SetBytes(b.Receipts[i].Logs[0].Data).Uint64()
			if k > w.numConfs(b) {
				continue // unscheduled again in the same block
			}
			if d := same(w.confAt(b, k-1), *r.job.file, r.job.auto); d != "" {
				w.violate("scheduled-differs", "%s schedules %s", w.describe(r), d)
			}
			w.stats["schedules_compared"]++
		case r.e.Kind == "fund":
			in := false
			for _, a := range r.job.file.addrs() {
				in = in || a == *tx.To()
			}
			if !in {
				w.violate("unasked", "%s pays %s wei to %s, which is not in the file", w.describe(r), tx.Value(), tx.To().Hex())
			} else if bal := st.GetBalance(*tx.To()); bal.Cmp(ether(1)) > 0 && tx.Value().Sign() > 0 {
				w.violate("paid-too-much", "%s brings %s from %s to %s wei, more than one ether", w.describe(r), tx.To().Hex(), before.GetBalance(*tx.To()), bal)
			} else if before.GetBalance(*tx.To()).Cmp(ether(0.5)) >= 0 {
				w.violate("paid-too-much", "%s pays %s wei to %s, which had %s", w.describe(r), tx.Value(), tx.To().Hex(), before.GetBalance(*tx.To()))
			}
			w.stats["payments_checked"]++
		case r.e.Kind == "unfund":
			mine := false
			for _, k := range r.job.keys {
				mine = mine || ethsim.AddrOf(k) == w.d.Chain.Sender(tx)
			}
			if *tx.To() != r.job.to || !mine {
				w.violate("unasked", "%s pays %s wei from %s to %s", w.describe(r), tx.Value(), w.d.Chain.Sender(tx).Hex(), tx.To().Hex())
			}
		}
	}
}

// window returns the blocks a command may have seen.
func (w *World) window() []*ethsim.Block {
	seen := map[*ethsim.Block]bool{}
	var out []*ethsim.Block
	for _, b := range w.seen {
		if !seen[b] {
			seen[b] = true
			out = append(out, b)
		}
	}
	return out
}

func (w *World) judgeQuery(r *run) {
	var want []string
	for _, b := range w.window() {
		n := w.numConfs(b)
		show := func(c conf) conf {
			c.Keypers = dedup(c.Keypers)
			return c
		}
		var x interface{}
		switch r.job.index {
		case "next":
			x = show(w.nextConf(b))
		case "last":
			x = show(w.lastConf(b))
		case "all":
			var l []conf
			for i := uint64(0); i < n; i++ {
				l = append(l, show(w.confAt(b, i)))
			}
			x = l
		default:
			var i uint64
			fmt.Sscan(r.job.index, &i)
			if i >= n {
				continue
			}
			x = show(w.confAt(b, i))
		}
		s, _ := json.Marshal(x)
		want = append(want, string(s))
	}
	got := ""
	var l []conf
	var c conf
	if err := json.Unmarshal(r.out, &l); err == nil {
		got = norm(l)
	} else if err := json.Unmarshal(r.out, &c); err == nil {
		got = norm(c)
	}
	for _, s := range want {
		if strings.ReplaceAll(s, `"Keypers":null`, `"Keypers":[]`) == got {
			w.stats["queries_compared"]++
			return
		}
	}
	w.violate("query-differs", "%s prints %s, the contract said %s", w.describe(r), r.out, strings.Join(want, " or "))
}

func norm(x interface{}) string {
	b, _ := json.Marshal(x)
	return strings.ReplaceAll(string(b), `"Keypers":null`, `"Keypers":[]`)
}

var reSpace = regexp.MustCompile(`\s+`)

func (w *World) judgeList(r *run) {
	var rows []string
	for _, l := range strings.Split(strings.TrimSpace(string(r.out)), "\n")[1:] {
		rows = append(rows, strings.TrimSpace(reSpace.ReplaceAllString(l, " ")))
	}
	got := strings.Join(rows, "; ")
	var want []string
	for _, b := range w.window() {
		var l []string
		for i := uint64(0); i < w.numConfs(b); i++ {
			c := w.confAt(b, i)
			l = append(l, fmt.Sprintf("%d %d %d", i, c.StartBatchIndex, c.StartBlockNumber))
		}
		c := w.nextConf(b)
		l = append(l, fmt.Sprintf("Next %d %d", c.StartBatchIndex, c.StartBlockNumber))
		s := strings.Join(l, "; ")
		if s == got {
			w.stats["queries_compared"]++
			return
		}
		want = append(want, s)
	}
	w.violate("query-differs", "%s prints %q, the contract said %q", w.describe(r), got, want)
}

func (w *World) judgeBalances(r *run) {
	var rows []string
	for _, l := range strings.Split(strings.TrimSpace(string(r.out)), "\n")[1:] {
		rows = append(rows, strings.TrimSpace(reSpace.ReplaceAllString(l, " ")))
	}
	if len(rows) != len(r.job.file.Keypers)+2 {
		w.violate("query-differs", "%s prints %q", w.describe(r), rows)
		return
	}
	show := func(x *big.Int) string {
		return fmt.Sprintf("%f", new(big.Float).Quo(new(big.Float).SetInt(x), big.NewFloat(1e18)))
	}
	for i, a := range r.job.file.addrs() {
		ok := false
		var want []string
		for _, b := range w.window() {
			s := fmt.Sprintf("%d %s %s", i, a.Hex(), show(w.d.Chain.StateAt(b).GetBalance(a)))
			ok = ok || s == rows[i]
			want = append(want, s)
		}
		if !ok {
			w.violate("query-differs", "%s prints %q, the chain says %q", w.describe(r), rows[i], want)
			return
		}
	}
	if len(w.window()) == 1 {
		sum := new(big.Int)
		for _, a := range r.job.file.addrs() {
			sum.Add(sum, w.d.Chain.StateAt(w.window()[0]).GetBalance(a))
		}
		if got := rows[len(rows)-1]; got != show(sum) {
			w.violate("query-differs", "%s prints a sum of %s, it is %s", w.describe(r), got, show(sum))
		}
	}
	w.stats["queries_compared"]++
}

// judgePrepare checks the files `prepare configs` wrote.
func (w *World) judgePrepare(r *run, code int) {
	now := w.files(r.job.dir)
	for _, n := range sorted(r.job.before) {
		if strings.HasSuffix(n, ".toml") && !bytes.Equal(now[n], r.job.before[n]) {
			w.violate("key-file-overwritten", "%s changes the existing file %s", w.describe(r), n)
		}
	}
	if code != 0 {
		return
	}
	if len(r.job.before) > 0 {
		w.violate("key-file-overwritten", "%s succeeds in a directory that holds keypers' keys", w.describe(r))
		return
	}
	s := &keyperSet{dir: r.job.dir}
	if err := json.Unmarshal(now["config.json"], &s.conf); err != nil {
		w.violate("prepared-unusable", "%s writes a config.json that cannot be read: %v", w.describe(r), err)
		return
	}
	for i := 0; fmt.Sprint(i) != r.job.index; i++ {
		v := viper.New()
		v.SetConfigType("toml")
		if err := v.ReadConfig(bytes.NewReader(now[filepath.Join(fmt.Sprintf("keyper%d", i), "config.toml")])); err != nil {
			w.violate("prepared-unusable", "%s: keyper %d's file cannot be read: %v", w.describe(r), i, err)
			return
		}
		k, err := crypto.HexToECDSA(v.GetString("SigningKey"))
		if err != nil {
			w.violate("prepared-unusable", "%s: keyper %d's file has no valid signing key: %v", w.describe(r), i, err)
			return
		}
		if e, err := crypto.HexToECDSA(v.GetString("EncryptionKey")); err != nil || e.Equal(k) || len(v.GetString("ValidatorSeed")) != 64 {
			w.violate("prepared-unusable", "%s: keyper %d's file lacks keys of its own", w.describe(r), i)
			return
		}
		for f, n := range map[string]string{"ConfigContract": "config", "BatcherContract": "batcher", "DepositContract": "deposit", "ExecutorContract": "executor", "KeyBroadcastContract": "broadcast", "KeyperSlasher": "slasher"} {
			if v.GetString(f) != w.d.Addr(n).Hex() {
				w.violate("prepared-unusable", "%s: keyper %d's file says %s = %s", w.describe(r), i, f, v.GetString(f))
				return
			}
		}
		s.keys = append(s.keys, k)
		if i >= len(s.conf.Keypers) || s.conf.Keypers[i] != ethsim.AddrOf(k).Hex() {
			w.violate("prepared-unusable", "%s: config.json's keyper %d is not the one whose key is in keyper%d/config.toml", w.describe(r), i, i)
			return
		}
	}
	if t := s.conf.Threshold; len(s.conf.Keypers) != len(s.keys) || 3*t < 2*uint64(len(s.keys)) || t > uint64(len(s.keys)) {
		w.violate("prepared-unusable", "%s writes a config.json with threshold %d and %d keypers", w.describe(r), t, len(s.conf.Keypers))
		return
	}
	simrt.Raw(func() {
		for i := range s.keys {
			if fi, err := os.Stat(filepath.Join(r.job.dir, fmt.Sprintf("keyper%d", i), "config.toml")); err != nil || fi.Mode().Perm()&0o077 != 0 {
				w.violate("prepared-unusable", "%s: everybody can read the keys of keyper %d", w.describe(r), i)
			}
		}
	})
	w.stats["sets_prepared"]++
	w.sets = append(w.sets, s)
}
