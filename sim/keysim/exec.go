package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sort"

	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shuttermint/contract"

	"verif/sim/ethsim"
)

// content of a batch on a chain
type content struct {
	cipher, plain         [][]byte
	cipherHash, plainHash [32]byte
}

func (o *oracle) content(b *ethsim.Block, batch uint64) content {
	w := o.w
	c := w.cc["batcher"]
	ev := c.ABI.Events["TransactionAdded"]
	var logs []*types.Log
	for x := b; x != nil && x.Num > 0; x = x.Parent {
		ls := x.Logs()
		for i := len(ls) - 1; i >= 0; i-- {
			if ls[i].Address == c.Addr && ls[i].Topics[0] == ev.ID {
				logs = append(logs, ls[i])
			}
		}
	}
	var out content
	for i := len(logs) - 1; i >= 0; i-- {
		v, err := ev.Inputs.NonIndexed().Unpack(logs[i].Data)
		if err != nil {
			panic(err)
		}
		// batchIndex, type, transaction, hash; whichever are indexed come from the topics
		var idx uint64
		k := 0
		if ev.Inputs[0].Indexed {
			idx = binary.BigEndian.Uint64(logs[i].Topics[1][24:])
		} else {
			idx = v[k].(uint64)
			k++
		}
		if idx != batch {
			continue
		}
		typ := v[k].(uint8)
		tx := v[k+1].([]byte)
		if typ == 0 {
			out.cipher = append(out.cipher, tx)
			out.cipherHash = crypto.Keccak256Hash(tx, out.cipherHash[:])
		} else {
			out.plain = append(out.plain, tx)
			out.plainHash = crypto.Keccak256Hash(tx, out.plainHash[:])
		}
	}
	return out
}

// expected is the correct decryption of a batch under the key of one eon.
type expected struct {
	eon     uint64
	txs     [][]byte
	hash    []byte
	sigHash []byte
}

// expect returns the correct decryptions of a closed batch, one per eon whose epoch key is
// determined by the shares on the shuttermint chain.
func (o *oracle) expect(batch uint64) []expected {
	w := o.w
	if w.confFor(batch) == nil || w.eth.Head.Num < w.endBlock(batch) {
		return nil
	}
	var out []expected
	ct := o.content(ethsim.Ancestor(w.eth.Head, w.endBlock(batch)), batch)
	for _, e := range o.eons {
		r := e.epochs[batch]
		if r == nil || r.key == nil {
			continue
		}
		ck := fmt.Sprintf("%d/%d/%x/%d", e.id, batch, ct.cipherHash, len(ct.cipher))
		if x, ok := o.expCache[ck]; ok {
			out = append(out, x...)
			continue
		}
		var plain [][]byte
		for _, c := range ct.cipher {
			m := shcrypto.EncryptedMessage{}
			if m.Unmarshal(c) != nil {
				continue
			}
			d, err := m.Decrypt(r.key)
			if err != nil {
				continue
			}
			plain = append(plain, d)
		}
		plain = shcrypto.Shuffle(plain, r.key)
		h := make([]byte, 32)
		for _, t := range plain {
			h = crypto.Keccak256(t, h)
		}
		x := expected{eon: e.id, txs: plain, hash: h}
		x.sigHash = crypto.Keccak256([]byte("\x19dectx"), w.batcher.Bytes(), epochBytes(batch), ct.cipherHash[:], h)
		o.expCache[ck] = []expected{x}
		out = append(out, x)
	}
	return out
}

func sameTxs(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

// validSigs counts the keypers of the batch's config whose signature over the hash is on the
// shuttermint chain.
func (o *oracle) validSigs(batch uint64, hash []byte) int {
	c := o.w.confFor(batch)
	got := map[common.Address]bool{}
	for _, s := range o.sigs[batch] {
		if signedBy(hash, s.sig, s.sender) {
			for _, k := range c.Keypers {
				if k == s.sender {
					got[k] = true
				}
			}
		}
	}
	return len(got)
}

func (o *oracle) receipt(b *ethsim.Block, halfStep uint64) contract.CipherExecutionReceipt {
	v := o.w.eth.View(b, o.w.cc["executor"], "getReceipt", halfStep)
	return *abi.ConvertType(v[0], new(contract.CipherExecutionReceipt)).(*contract.CipherExecutionReceipt)
}

func (o *oracle) halfSteps(b *ethsim.Block) uint64 {
	return o.w.eth.View(b, o.w.cc["executor"], "numExecutionHalfSteps")[0].(uint64)
}

// seen is the newest main chain block an honest keyper may act upon.
func (o *oracle) seen(n *KNode) uint64 {
	if n.maxEth < o.w.cfg.Follow {
		return 0
	}
	return n.maxEth - o.w.cfg.Follow
}

// checkEthTx judges a main chain transaction of an honest keyper.
func (o *oracle) checkEthTx(n *KNode, tx *types.Transaction) {
	w := o.w
	var name string
	for k, c := range w.cc {
		if c.Addr == *tx.To() {
			name = k
		}
	}
	c := w.cc[name]
	if c == nil {
		return // reported as undecided
	}
	m, err := c.ABI.MethodById(tx.Data())
	if err != nil {
		return
	}
	args, err := m.Inputs.Unpack(tx.Data()[4:])
	if err != nil {
		return
	}
	w.stats["eth_"+m.Name]++
	switch m.Name {
	case "executeCipherBatch":
		batch, hash, txs := args[0].(uint64), args[1].([32]byte), args[2].([][]byte)
		if w.confFor(batch) == nil || o.seen(n) < w.endBlock(batch) {
			w.violate("early-execution", []string{"K08"}, "%s executes batch %d before it is closed", n, batch)
			return
		}
		ct := o.content(ethsim.Ancestor(w.eth.Head, w.endBlock(batch)), batch)
		if ct.cipherHash != hash {
			w.violate("wrong-cipher-hash", []string{"K08"}, "%s executes batch %d with cipher batch hash %x, on the chain it is %x", n, batch, hash, ct.cipherHash)
			return
		}
		if len(ct.cipher) == 0 {
			if len(txs) != 0 {
				w.violate("wrong-execution", []string{"K08"}, "%s executes %d transactions for the empty batch %d", n, len(txs), batch)
			}
			return
		}
		w.stats["cipher_executions"]++
		for _, x := range o.expect(batch) {
			if sameTxs(x.txs, txs) {
				t := w.confFor(batch).Threshold
				if s := o.validSigs(batch, x.sigHash); uint64(s) < t {
					w.violate("execution-without-signatures", []string{"K08"}, "%s executes batch %d although only %d of %d keypers have signed the result", n, batch, s, t)
				}
				return
			}
		}
		w.violate("wrong-execution", []string{"K08"}, "%s executes batch %d with %d transactions, which are not the decryption of its %d encrypted ones under any epoch key (%d known)", n, batch, len(txs), len(ct.cipher), len(o.expect(batch)))
	case "executePlainBatch":
		batch, txs := args[0].(uint64), args[1].([][]byte)
		if w.confFor(batch) == nil || o.seen(n) < w.endBlock(batch) {
			w.violate("early-execution", []string{"K08"}, "%s executes plain batch %d before it is closed", n, batch)
			return
		}
		ct := o.content(ethsim.Ancestor(w.eth.Head, w.endBlock(batch)), batch)
		if !sameTxs(ct.plain, txs) {
			w.violate("wrong-plain-execution", []string{"K08"}, "%s executes %d plain transactions for batch %d, which has %d", n, len(txs), batch, len(ct.plain))
		}
	case "skipCipherExecution":
		batch := args[0].(uint64)
		if cf := w.confFor(batch); cf == nil || o.seen(n) < w.endBlock(batch)+cf.ExecutionTimeout {
			w.violate("early-skip", []string{"K08"}, "%s skips batch %d before its execution timeout", n, batch)
		}
	case "accuse":
		hs, idx := args[0].(uint64), args[1].(uint64)
		r := o.receipt(n.eth.Head, hs)
		if cf := w.confFor(hs / 2); cf == nil || idx >= uint64(len(cf.Keypers)) || cf.Keypers[idx] != n.addr {
			w.violate("bad-accuser-index", []string{"K09"}, "%s accuses for half step %d as keyper %d", n, hs, idx)
		}
		if !r.Executed {
			break // its main chain node may have switched to another branch
		}
		exp := o.expect(hs / 2)
		ok := 0
		for _, x := range exp {
			if bytes.Equal(x.hash, r.BatchHash[:]) {
				ok++
			}
		}
		if ok > 0 && ok == len(exp) {
			w.violate("unfounded-slashing-accusation", []string{"K09"}, "%s accuses %s, who executed half step %d correctly", n, o.name(r.Executor), hs)
		}
	}
}

func (o *oracle) name(a common.Address) string {
	if n := o.w.byAddr[a]; n != nil {
		return n.String()
	}
	return a.Hex()
}

func (o *oracle) onEthHead(b *ethsim.Block) { o.w.byzEth(b) }

type accusation struct {
	Accused, Appealed, Slashed bool
	Executor                   common.Address
	HalfStep, BlockNumber      uint64
}

func (o *oracle) accusation(b *ethsim.Block, hs uint64) accusation {
	v := o.w.eth.View(b, o.w.cc["slasher"], "accusations", hs)
	return accusation{v[0].(bool), v[1].(bool), v[2].(bool), v[3].(common.Address), v[4].(uint64), v[5].(uint64)}
}

// executions checks at the end of a run what happened to every batch.
func (o *oracle) executions() {
	w := o.w
	head := w.eth.Head
	hs := o.halfSteps(head)
	for b := uint64(0); ; b++ {
		cf := w.confFor(b)
		if cf == nil || w.endBlock(b) > head.Num {
			break
		}
		end := w.endBlock(b)
		honest := 0
		for _, k := range cf.Keypers {
			if n := w.byAddr[k]; n != nil && !n.byz {
				honest++
			}
		}
		if hs < 2*b+2 {
			if end+cf.ExecutionTimeout+cf.ExecutionTimeout/2+w.cfg.Follow+14 < head.Num && honest > 0 {
				w.violate("batch-stuck", []string{"K10"}, "batch %d closed at block %d with timeout %d is not executed or skipped at block %d (%d half steps done, quiet for %d s)", b, end, cf.ExecutionTimeout, head.Num, hs, (w.ms()-w.cfg.FaultEnd)/1000)
				break
			}
			continue
		}
		w.stats["batches"]++
		r := o.receipt(head, 2*b)
		ct := o.content(head, b)
		exp := o.expect(b)
		if !r.Executed {
			w.stats["batches_skipped"]++
			if o.mustExecute(b) {
				w.violate("batch-skipped", []string{"K10"}, "batch %d with %d encrypted transactions was skipped although no fault was active and all honest keypers had the eon key", b, len(ct.cipher))
			}
			continue
		}
		w.stats["batches_executed"]++
		if len(ct.cipher) == 0 {
			continue
		}
		right := false
		var sh []byte
		for _, x := range exp {
			if bytes.Equal(x.hash, r.BatchHash[:]) {
				right, sh = true, x.sigHash
			}
		}
		a := o.accusation(head, 2*b)
		by := w.byAddr[r.Executor]
		if right && by != nil && !by.byz {
			w.stats["cipher_batches_executed_by_honest"]++
		}
		if !right {
			w.stats["wrong_executions"]++
			know := ""
			for _, n := range w.nodes {
				if n.byz || n.kpr == nil || !n.up {
					continue
				}
				for _, k := range n.kpr.State.EKGs {
					if k.EpochKG.SecretKeys[b] != nil {
						know = n.String()
					}
				}
			}
			if len(exp) > 0 && know != "" && !a.Accused && o.execBlock(2*b)+16+w.cfg.Follow < head.Num && honestMember(w, cf, know) {
				w.violate("wrong-execution-unpunished", []string{"K09"}, "%s executed batch %d wrongly and was not accused, although %s knows the right result", o.name(r.Executor), b, know)
			}
		}
		if a.Accused {
			w.stats["accusations"]++
			if a.Appealed {
				w.stats["appeals"]++
			}
			if right && by != nil && !by.byz && !a.Appealed && a.BlockNumber+20+w.cfg.Follow < head.Num && uint64(o.validSigs(b, sh)) >= cf.Threshold {
				w.violate("no-appeal", []string{"K09"}, "%s was accused over batch %d, which it executed correctly, and nobody appealed", by, b)
			}
		}
	}
}

func honestMember(w *World, cf *contract.BatchConfig, name string) bool {
	for _, n := range w.nodes {
		if n.String() == name {
			for _, k := range cf.Keypers {
				if k == n.addr {
					return true
				}
			}
		}
	}
	return false
}

// execBlock is the block in which a half step was done.
func (o *oracle) execBlock(hs uint64) uint64 {
	for b := o.w.eth.Head; b.Parent != nil; b = b.Parent {
		if o.halfSteps(b.Parent) <= hs {
			return b.Num
		}
	}
	return 0
}

// mustExecute says whether nothing excuses honest keypers from executing the batch in time: the
// faults were over well before it closed and every honest member had the eon key by then.
func (o *oracle) mustExecute(b uint64) bool {
	w := o.w
	e := o.eonForBatch(b)
	cf := w.confFor(b)
	if e == nil || !e.final || e.pk == nil || cf.ExecutionTimeout < 8 {
		return false
	}
	honest := 0
	for k, a := range e.keypers {
		if n := w.byAddr[a]; n != nil && !n.byz {
			if !e.success[k] {
				return false
			}
			honest++
		}
	}
	if uint64(honest) < e.t || int(w.confIndex(cf)) != e.conf {
		return false
	}
	endB := ethsim.Ancestor(w.eth.Head, w.endBlock(b))
	if endB == nil {
		return false
	}
	endMs := int64(endB.Header.Time)*1000 - w.t0.Unix()*1000
	fin := int64(0)
	if h := e.start + 3*int64(w.cfg.Phase); h <= w.tm.Height() {
		fin = w.tm.At(h).Time.Sub(w.t0).Milliseconds()
	}
	if endMs < w.cfg.FaultEnd+30_000 || endMs < fin+10_000 {
		return false
	}
	// the backlog of earlier batches must not have delayed it
	for x := b; x > 0 && x+3 > b; x-- {
		if p := x - 1; o.execBlock(2*p+1) > w.endBlock(b) {
			return false
		}
	}
	return true
}

func (w *World) confIndex(c *contract.BatchConfig) int {
	for i := range w.confs {
		if &w.confs[i] == c {
			return i
		}
	}
	return -1
}

var _ = sort.Ints
