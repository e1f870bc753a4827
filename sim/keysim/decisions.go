package main

import (
	"bytes"
	"crypto/ed25519"
	"fmt"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"google.golang.org/protobuf/proto"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shuttermint/keyper/fx"
	"github.com/shutter-network/shutter/shuttermint/shmsg"

	"math/big"

	"verif/sim/ethsim"
)

// record is what the simulator remembers about one keyper across restarts.
type record struct {
	checked     map[uint64]bool
	keyOK       map[[2]uint64]bool
	onceM       map[string]bool
	saved       bool
	lastCounter uint64 // of the saved state
	next        uint64 // next action id not decided yet
	kinds       map[uint64]string
	tmOrder     []uint64 // ids of shuttermint messages in order
	tmDone      int      // how many of them have been broadcast
	tmCount     map[string]int
	sent        map[string]int // main chain calls seen
	commit      map[uint64][]byte
	bcasts      int
	decidedAt   map[uint64]int64
	did         map[string]bool // what the decisions are about
	snaps       [2]*snap        // of the last two decisions
}

func (r *record) init() {
	r.checked, r.keyOK, r.onceM = map[uint64]bool{}, map[[2]uint64]bool{}, map[string]bool{}
	r.decidedAt, r.did = map[uint64]int64{}, map[string]bool{}
	r.kinds, r.tmCount, r.sent, r.commit = map[uint64]string{}, map[string]int{}, map[string]int{}, map[uint64][]byte{}
}

// once says whether it has been called with the arguments before.
func (r *record) once(k string, v uint64) bool {
	s := fmt.Sprintf("%s/%d", k, v)
	if r.onceM[s] {
		return true
	}
	r.onceM[s] = true
	return false
}

func canonMsg(m *shmsg.Message) string {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	if err != nil {
		panic(err)
	}
	return "tm:" + string(b)
}

func (w *World) canonCall(contract, method string, args ...interface{}) string {
	c := w.cc[contract]
	data, err := c.ABI.Pack(method, args...)
	if err != nil {
		panic(err)
	}
	return "eth:" + string(c.Addr.Bytes()) + string(data)
}

func (o *oracle) canonVote(k, batch uint64, key []byte) string {
	return o.w.canonCall("broadcast", "vote", k, batch, key)
}

// canonAction describes an action by the effect it must have.
func canonAction(w *World, a fx.IAction) string {
	switch x := a.(type) {
	case *fx.SendShuttermintMessage:
		return canonMsg(x.Msg)
	case *fx.ExecuteCipherBatch:
		return w.canonCall("executor", "executeCipherBatch", x.BatchIndex, x.CipherBatchHash, x.Transactions, x.KeyperIndex)
	case *fx.ExecutePlainBatch:
		return w.canonCall("executor", "executePlainBatch", x.BatchIndex, x.Transactions)
	case *fx.SkipCipherBatch:
		return w.canonCall("executor", "skipCipherExecution", x.BatchIndex)
	case *fx.Accuse:
		return w.canonCall("slasher", "accuse", x.HalfStep, x.KeyperIndex)
	case *fx.Appeal:
		return w.canonCall("slasher", "appeal", x.Authorization)
	case *fx.EonKeyBroadcast:
		return w.canonCall("broadcast", "vote", x.KeyperIndex, x.StartBatchIndex, x.EonPublicKey.Marshal())
	}
	panic(fmt.Sprintf("unknown action %T", a))
}

// recordDecisions notes the actions a keyper has just committed itself to.
func (o *oracle) recordDecisions(n *KNode) {
	st := n.kpr.State
	r := &n.rec
	r.saved, r.lastCounter = true, st.ActionCounter
	for i, a := range st.Actions {
		id := st.ActionCounter + uint64(i)
		c := canonAction(o.w, a)
		if old, ok := r.kinds[id]; ok {
			if old != c && !n.byz {
				o.w.violate("decision-changed", []string{"K05"}, "%s: action %d was decided before with another content", n, id)
			}
			continue
		}
		if id != r.next && !n.byz {
			o.w.violate("action-numbering", []string{"K05"}, "%s: a new decision has action id %d, the next free one is %d", n, id, r.next)
		}
		r.next = id + 1
		r.kinds[id] = c
		r.decidedAt[id] = o.w.ms()
		o.w.stats["actions"]++
		if m := messageOf(a); m != nil {
			r.noteDeeds(m)
		}
		if c[:3] == "tm:" {
			r.tmOrder = append(r.tmOrder, id)
		}
		o.w.logf("%s decides %d: %v", n, id, a)
		switch x := a.(type) {
		case *fx.Accuse:
			r.did[fmt.Sprintf("accuse %d", x.HalfStep)] = true
			if !n.byz {
				o.checkAccusation(n, x)
			}
		case *fx.Appeal:
			r.did[fmt.Sprintf("appeal %d", x.Authorization.HalfStep)] = true
		}
	}
}

// checkAccusation judges the decision to accuse by the main chain as far as it cannot change any more.
func (o *oracle) checkAccusation(n *KNode, x *fx.Accuse) {
	b := ethsim.Ancestor(o.w.eth.Head, o.seen(n))
	if b == nil {
		return
	}
	r := o.receipt(b, x.HalfStep)
	if !r.Executed {
		o.w.violate("unfounded-slashing-accusation", []string{"K09"}, "%s decides to accuse over half step %d, which nobody has executed", n, x.HalfStep)
		return
	}
	exp := o.expect(x.HalfStep / 2)
	for _, e := range exp {
		if !bytes.Equal(e.hash, r.BatchHash[:]) {
			return
		}
	}
	o.w.violate("unfounded-slashing-accusation", []string{"K09"}, "%s decides to accuse %s, who executed half step %d correctly (%d keys known)", n, o.name(r.Executor), x.HalfStep, len(exp))
}

// onMessage sees every message a keyper hands to its shuttermint node.
func (o *oracle) onMessage(n *KNode, mn *shmsg.MessageWithNonce) {
	r := &n.rec
	c := canonMsg(mn.Msg)
	r.bcasts++
	r.tmCount[c]++
	if n.byz {
		return
	}
	o.w.stats["tm_messages"]++
	switch {
	case r.tmDone < len(r.tmOrder) && r.kinds[r.tmOrder[r.tmDone]] == c:
		r.tmDone++
	case r.tmCount[c] > 1:
		o.w.stats["tm_retransmissions"]++
	default:
		later := false
		for _, id := range r.tmOrder[r.tmDone:] {
			if r.kinds[id] == c {
				later = true
			}
		}
		if later {
			o.w.violate("message-order", []string{"K05"}, "%s sends %s before action %d, which was decided earlier and was never sent", n, describe(mn.Msg), r.tmOrder[r.tmDone])
		} else {
			o.w.violate("undecided-message", []string{"K05"}, "%s sends a message that no saved decision contains: %s", n, describe(mn.Msg))
		}
	}
	o.checkMessage(n, mn.Msg)
}

// checkMessage holds an honest keyper's message against what it may reveal and claim.
func (o *oracle) checkMessage(n *KNode, m *shmsg.Message) {
	w := o.w
	switch p := m.Payload.(type) {
	case *shmsg.Message_CheckIn:
		if !bytes.Equal(p.CheckIn.ValidatorPublicKey, n.val.Public().(ed25519.PublicKey)) || !bytes.Equal(p.CheckIn.EncryptionPublicKey, crypto.CompressPubkey(n.enc.PublicKey.ExportECDSA())) {
			w.violate("wrong-check-in", []string{"K02"}, "%s checks in with keys other than its own", n)
		}
	case *shmsg.Message_BatchConfig:
		o.checkConfigVote(n, p.BatchConfig)
	case *shmsg.Message_EonStartVote:
		failed := false
		for _, e := range o.eons {
			k := e.index(n.addr)
			failed = failed || e.batch == p.EonStartVote.StartBatchIndex && e.final && k >= 0 && !e.success[k]
		}
		if !failed {
			w.violate("unfounded-restart-vote", []string{"K02"}, "%s votes for starting a DKG for the batches from %d on, and no DKG for them has failed", n, p.EonStartVote.StartBatchIndex)
		}
	case *shmsg.Message_PolyCommitment:
		id := p.PolyCommitment.Eon
		c := bytes.Join(p.PolyCommitment.Gammas, nil)
		if old := n.rec.commit[id]; old != nil && !bytes.Equal(old, c) {
			w.violate("two-commitments", []string{"K01", "K03"}, "%s commits to two different polynomials in eon %d", n, id)
		}
		n.rec.commit[id] = c
	case *shmsg.Message_PolyEval:
		e := o.eon(p.PolyEval.Eon)
		if e == nil {
			return
		}
		g := splitGammas(n.rec.commit[e.id])
		for i, rc := range p.PolyEval.Receivers {
			a := common.BytesToAddress(rc)
			k := e.index(a)
			if k < 0 || a == n.addr {
				w.violate("eval-to-outsider", []string{"K03"}, "%s sends a polynomial evaluation of eon %d to %s", n, e.id, a.Hex())
				continue
			}
			enc := p.PolyEval.EncryptedEvals[i]
			var v *big.Int
			for _, x := range w.nodes {
				plain, err := x.enc.Decrypt(enc, []byte(""), []byte(""))
				if err != nil {
					continue
				}
				if x.addr != a {
					w.violate("eval-readable-by-other", []string{"K03"}, "%s: the evaluation for %s in eon %d can be decrypted by %s", n, w.byAddr[a], e.id, x)
				} else {
					v = new(big.Int).SetBytes(plain)
				}
			}
			if v == nil && !w.byAddr[a].byz {
				w.violate("eval-unreadable", []string{"K02", "K03"}, "%s: %s cannot decrypt its evaluation in eon %d", n, w.byAddr[a], e.id)
			}
			if v != nil && (g == nil || !shcrypto.VerifyPolyEval(k, v, g, e.t)) {
				w.violate("eval-not-committed", []string{"K01", "K02"}, "%s: the evaluation for %s in eon %d does not match its commitment", n, w.byAddr[a], e.id)
			}
		}
	case *shmsg.Message_Accusation:
		e := o.eon(p.Accusation.Eon)
		if e == nil {
			return
		}
		k := e.index(n.addr)
		for _, a := range p.Accusation.Accused {
			d := e.index(common.BytesToAddress(a))
			if d < 0 || o.phase(e, w.tm.Height()+1) < 2 {
				w.violate("bad-accusation", []string{"K01"}, "%s accuses %x in eon %d out of turn", n, a, e.id)
				continue
			}
			c, v := e.commits[d], e.evals[[2]int{d, k}]
			if c != nil && v != nil && shcrypto.VerifyPolyEval(k, v, c, e.t) {
				w.violate("unfounded-accusation", []string{"K01", "K02"}, "%s accuses dealer %d of eon %d, whose commitment and evaluation on the chain are in order", n, d, e.id)
			}
		}
	case *shmsg.Message_Apology:
		e := o.eon(p.Apology.Eon)
		if e == nil {
			return
		}
		k := e.index(n.addr)
		g := splitGammas(n.rec.commit[e.id])
		for i, a := range p.Apology.Accusers {
			d := e.index(common.BytesToAddress(a))
			if !e.accus[akey{d, k}] {
				w.violate("unprovoked-apology", []string{"K03"}, "%s reveals the evaluation for keyper %d of eon %d, which did not accuse it", n, d, e.id)
			}
			if g != nil && !shcrypto.VerifyPolyEval(d, new(big.Int).SetBytes(p.Apology.PolyEvals[i]), g, e.t) {
				w.violate("apology-not-committed", []string{"K01", "K02"}, "%s: its apology towards keyper %d in eon %d does not match its commitment", n, d, e.id)
			}
		}
	case *shmsg.Message_EpochSecretKeyShare:
		s := p.EpochSecretKeyShare
		w.stats["shares_sent"]++
		if w.confFor(s.Epoch) == nil {
			w.violate("early-share", []string{"K03"}, "%s publishes a key share for batch %d, for which there is no config", n, s.Epoch)
			return
		}
		end := w.endBlock(s.Epoch)
		if n.maxEth < w.cfg.Follow || n.maxEth-w.cfg.Follow < end {
			w.violate("early-share", []string{"K03"}, "%s publishes its key share for batch %d, which closes at block %d; it has seen main chain block %d with follow distance %d", n, s.Epoch, end, n.maxEth, w.cfg.Follow)
		}
		e := o.eon(s.Eon)
		if e == nil || e.pk == nil || !e.member(n.addr) {
			w.violate("share-without-eon", []string{"K03", "K04"}, "%s publishes a key share for eon %d without a key", n, s.Eon)
			return
		}
		if o.validShare(e, s.Epoch, e.index(n.addr), s.Share) == nil {
			w.violate("invalid-share", []string{"K04"}, "%s publishes an invalid key share for epoch %d of eon %d", n, s.Epoch, s.Eon)
		}
	case *shmsg.Message_DecryptionSignature:
		d := p.DecryptionSignature
		w.stats["signatures_sent"]++
		exp := o.expect(d.BatchIndex)
		ok := false
		for _, x := range exp {
			if signedBy(x.sigHash, d.Signature, n.addr) {
				ok = true
			}
		}
		if !ok {
			w.violate("wrong-signature", []string{"K09"}, "%s signs something other than the decryption of batch %d (%d keys known)", n, d.BatchIndex, len(exp))
		}
	}
}

// checkConfigVote: a vote names a config of the main chain with its exact content.
func (o *oracle) checkConfigVote(n *KNode, m *shmsg.BatchConfig) {
	w := o.w
	w.stats["config_votes"]++
	if m.ConfigIndex == 0 || m.ConfigIndex >= uint64(len(w.confs)) {
		w.violate("wrong-config-vote", []string{"K02"}, "%s votes for config %d, the main chain has %d", n, m.ConfigIndex, len(w.confs))
		return
	}
	c := w.confs[m.ConfigIndex]
	ok := m.StartBatchIndex == c.StartBatchIndex && m.Threshold == c.Threshold && len(m.Keypers) == len(c.Keypers) &&
		bytes.Equal(m.ConfigContractAddress, w.cfgAddr.Bytes()) && !m.Started && !m.ValidatorsUpdated
	for i := 0; ok && i < len(c.Keypers); i++ {
		ok = bytes.Equal(m.Keypers[i], c.Keypers[i].Bytes())
	}
	if !ok {
		w.violate("wrong-config-vote", []string{"K02"}, "%s votes for config %d with a content other than the one on the main chain: %s", n, m.ConfigIndex, m)
	}
}

func splitGammas(b []byte) *shcrypto.Gammas {
	if len(b) == 0 || len(b)%128 != 0 {
		return nil
	}
	var l [][]byte
	for i := 0; i < len(b); i += 128 {
		l = append(l, b[i:i+128])
	}
	return parseGammas(l)
}

func signedBy(hash, sig []byte, a common.Address) bool {
	if len(sig) != 65 {
		return false
	}
	pk, err := crypto.SigToPub(hash, sig)
	return err == nil && crypto.PubkeyToAddress(*pk) == a
}

// onEthTx sees every transaction a keyper hands to its main chain node.
func (o *oracle) onEthTx(n *KNode, tx *types.Transaction) {
	c := "eth:" + string(tx.To().Bytes()) + string(tx.Data())
	n.rec.sent[c]++
	if n.byz {
		return
	}
	w := o.w
	w.stats["eth_txs"]++
	decided := false
	for _, k := range n.rec.kinds {
		if k == c {
			decided = true
			break
		}
	}
	if !decided || o.w.eth.Sender(tx) != n.addr {
		w.violate("undecided-transaction", []string{"K05"}, "%s sends a main chain transaction that no saved decision contains: to %s, %x", n, tx.To().Hex(), head(tx.Data(), 36))
	}
	o.checkEthTx(n, tx)
}

func head(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}

func describeAction(a fx.IAction) string {
	s := fmt.Sprint(a)
	if len(s) > 120 {
		s = s[:120]
	}
	return s
}
