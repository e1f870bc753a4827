package main

import (
	"fmt"

	"github.com/ethereum/go-ethereum/common"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shuttermint/keyper/fx"
	"github.com/shutter-network/shutter/shuttermint/shmsg"

	"verif/sim/ethsim"
)

// Duties: what an honest keyper must have decided, given what it has seen of the chains when it
// makes its decision durable. A duty is judged with two views, the one of an earlier decision, which
// must already call for it, and the present one, which must still not excuse from it.

// snap is what a keyper had seen and derived at one of its decisions.
type snap struct {
	sh    int64  // shuttermint block it decided upon
	mc    uint64 // main chain block
	confs int    // configs it knew from the main chain
	ekg   map[uint64]bool
	key   map[[2]uint64]bool
	exec  map[uint64]bool // cipher half steps that had been executed
	accu  map[uint64]bool // half steps with accusations that had not been appealed
}

// noteDeeds records what a decision is about.
func (r *record) noteDeeds(m *shmsg.Message) {
	did := func(format string, a ...interface{}) { r.did[fmt.Sprintf(format, a...)] = true }
	switch p := m.Payload.(type) {
	case *shmsg.Message_CheckIn:
		did("checkin")
	case *shmsg.Message_BatchConfig:
		did("config %d", p.BatchConfig.ConfigIndex)
	case *shmsg.Message_PolyCommitment:
		did("commitment %d", p.PolyCommitment.Eon)
	case *shmsg.Message_PolyEval:
		for _, a := range p.PolyEval.Receivers {
			did("eval %d %x", p.PolyEval.Eon, a)
		}
	case *shmsg.Message_Accusation:
		for _, a := range p.Accusation.Accused {
			did("accusation %d %x", p.Accusation.Eon, a)
		}
	case *shmsg.Message_Apology:
		for _, a := range p.Apology.Accusers {
			did("apology %d %x", p.Apology.Eon, a)
		}
	case *shmsg.Message_EpochSecretKeyShare:
		did("share %d %d", p.EpochSecretKeyShare.Eon, p.EpochSecretKeyShare.Epoch)
	case *shmsg.Message_DecryptionSignature:
		did("signature %d", p.DecryptionSignature.BatchIndex)
	}
}

func (r *record) has(format string, a ...interface{}) bool { return r.did[fmt.Sprintf(format, a...)] }

// isKeyper: the address is a keyper of a config that shuttermint had adopted by the given height.
func (o *oracle) isKeyper(a common.Address, h int64) bool {
	for _, ci := range o.adopted {
		if o.adoptH[ci] > h || ci <= 0 || ci >= len(o.w.confs) {
			continue
		}
		for _, k := range o.w.confs[ci].Keypers {
			if k == a {
				return true
			}
		}
	}
	return false
}

// lastAdopted is the newest config that shuttermint had adopted by the given height (-1: none).
func (o *oracle) lastAdopted(h int64) int {
	for i := len(o.adopted) - 1; i >= 0; i-- {
		if o.adoptH[o.adopted[i]] <= h {
			return o.adopted[i]
		}
	}
	return -1
}

// newestEon is the newest eon for a batch that had been started by the given height.
func (o *oracle) newestEon(b uint64, h int64) *eonRef {
	for i := len(o.eons) - 1; i >= 0; i-- {
		if o.eons[i].batch <= b && o.eons[i].start <= h {
			return o.eons[i]
		}
	}
	return nil
}

func (o *oracle) duties(n *KNode) {
	w := o.w
	world := n.kpr.CurrentWorld()
	st := n.kpr.State
	h := world.Shutter.CurrentBlock
	if !world.Shutter.IsSynced() || !world.MainChain.IsSynced() || st.SyncHeight != h+1 || !o.isKeyper(n.addr, h) || h > w.tm.Height() {
		return // it may be waiting
	}
	c := &snap{sh: h, mc: world.MainChain.CurrentBlock, confs: len(world.MainChain.BatchConfigs), ekg: map[uint64]bool{}, key: map[[2]uint64]bool{}, exec: map[uint64]bool{}, accu: map[uint64]bool{}}
	for hs := range world.MainChain.CipherExecutionReceipts {
		c.exec[hs] = true
	}
	for hs, a := range world.MainChain.Accusations {
		if !a.Appealed {
			c.accu[hs] = true
		}
	}
	for _, k := range st.EKGs {
		c.ekg[k.Eon] = true
		for ep := range k.EpochKG.SecretKeys {
			c.key[[2]uint64{k.Eon, ep}] = true
		}
	}
	r := &n.rec
	p2, p1 := r.snaps[0], r.snaps[1]
	r.snaps[0], r.snaps[1] = p1, c
	w.stats["decisions_judged"]++

	for _, e := range o.eons {
		k := e.index(n.addr)
		if k < 0 || e.start > h || e.start+3*int64(w.cfg.Phase) <= h {
			continue
		}
		switch o.phase(e, h+1) {
		case 1:
			if !r.has("commitment %d", e.id) {
				w.violate("no-dealing", []string{"K02"}, "%s, having seen the start of eon %d at %d, decides at height %d and does not deal, although it is still time", n, e.id, e.start, h)
			}
			for i, a := range e.keypers {
				if i == k || w.byAddr[a] == nil || o.encKey[a] == nil || o.checkinH[a] > h {
					continue
				}
				if !r.has("eval %d %x", e.id, a.Bytes()) {
					w.violate("no-dealing", []string{"K02"}, "%s, having seen the start of eon %d at %d, decides at height %d and does not send %s its evaluation, although it is still time", n, e.id, e.start, h, w.byAddr[a])
				}
			}
		case 2:
			for d, a := range e.keypers {
				if d == k || r.has("accusation %d %x", e.id, a.Bytes()) {
					continue
				}
				cm, v := e.commits[d], e.evals[[2]int{d, k}]
				if cm == nil || v == nil || !shcrypto.VerifyPolyEval(k, v, cm, e.t) {
					w.violate("accusation-missing", []string{"K01", "K02"}, "%s decides at height %d in the accusing phase of eon %d and does not accuse dealer %d, from which it has no valid evaluation", n, h, e.id, d)
				}
			}
		case 3:
			for i, a := range e.keypers {
				if i != k && e.accus[akey{i, k}] && !r.has("apology %d %x", e.id, a.Bytes()) {
					w.violate("apology-missing", []string{"K01", "K02"}, "%s decides at height %d in the apologising phase of eon %d and does not answer the accusation by keyper %d", n, h, e.id, i)
				}
			}
		}
	}
	if p1 == nil {
		return
	}
	if o.isKeyper(n.addr, p1.sh) && !r.has("checkin") {
		if o.encKey[n.addr] == nil {
			w.violate("no-check-in", []string{"K02"}, "%s is a keyper since before height %d and decides at height %d without having checked in", n, p1.sh, h)
		}
	}
	if ci := o.lastAdopted(h) + 1; ci > 0 && ci == o.lastAdopted(p1.sh)+1 && ci < p1.confs && !r.has("config %d", ci) {
		w.violate("config-vote-missing", []string{"K02"}, "%s knows config %d, which comes next, since main chain block %d and decides at block %d without voting for it", n, ci, p1.mc, c.mc)
	}
	if p2 == nil {
		return
	}
	o.slashingDuties(n, p2, p1, c)
	for b := uint64(0); ; b++ {
		cf := w.confFor(b)
		if cf == nil || w.endBlock(b) > p1.mc {
			break
		}
		end := w.endBlock(b)
		if c.mc+1 >= end+cf.ExecutionTimeout {
			continue // it may be too late
		}
		ci := w.confIndex(cf)
		member := false
		for _, a := range cf.Keypers {
			member = member || a == n.addr
		}
		if !member || o.lastAdopted(p2.sh) < o.activeConf(c.mc) {
			continue
		}
		e := o.newestEon(b, h)
		if e == nil || e != o.newestEon(b, p2.sh) || e.conf != ci {
			continue
		}
		// the batch closed since the decision before the last one, and the eon key was there
		if end > p2.mc && p2.ekg[e.id] && !c.key[[2]uint64{e.id, b}] && !r.has("share %d %d", e.id, b) {
			w.violate("share-missing", []string{"K04", "K08", "K10"}, "%s knows that batch %d is closed since main chain block %d, decides at block %d, has the key of eon %d and does not publish its share of the epoch key", n, b, end, c.mc, e.id)
		}
		// the epoch key has been there since the last decision
		if p1.key[[2]uint64{e.id, b}] && !r.has("signature %d", b) && len(o.content(ethsim.Ancestor(w.eth.Head, end), b).cipher) > 0 {
			sigs := map[common.Address]bool{}
			for _, s := range o.sigs[b] {
				if s.h <= h {
					sigs[s.sender] = true
				}
			}
			if uint64(len(sigs)) < cf.Threshold {
				w.violate("signature-missing", []string{"K08", "K10"}, "%s has the epoch key of the closed batch %d since its decision at height %d, decides at height %d, main chain block %d, and does not sign the decryption", n, b, p1.sh, h, c.mc)
			}
		}
	}
}

// slashingDuties: what is wrong must be accused and what is right defended.
func (o *oracle) slashingDuties(n *KNode, p2, p1, c *snap) {
	w := o.w
	mc := n.kpr.CurrentWorld().MainChain
	r := &n.rec
	known := func(p *snap, b uint64) bool {
		for _, e := range o.eons {
			if p.key[[2]uint64{e.id, b}] {
				return true
			}
		}
		return false
	}
	for hs := range p1.exec {
		b := hs / 2
		if hs%2 != 0 || r.has("judged %d", hs) || !known(p1, b) || !p2.exec[hs] || mc.CipherExecutionReceipts[hs] == nil {
			continue
		}
		cf := w.confFor(b)
		if cf == nil || !honestMember(w, cf, n.String()) {
			continue
		}
		r.did[fmt.Sprintf("judged %d", hs)] = true
		exp := o.expect(b)
		wrong := len(exp) > 0
		for _, x := range exp {
			wrong = wrong && common.Hash(mc.CipherExecutionReceipts[hs].BatchHash) != common.BytesToHash(x.hash)
		}
		if !wrong {
			continue
		}
		w.stats["wrong_executions_judged"]++
		if mc.Accusations[hs] == nil && !r.has("accuse %d", hs) {
			w.violate("accuse-missing", []string{"K09"}, "%s knows the epoch key of batch %d and that %s executed it wrongly, decides at block %d and does not accuse", n, b, o.name(mc.CipherExecutionReceipts[hs].Executor), c.mc)
		}
	}
	for hs := range p2.accu {
		b := hs / 2
		if !p1.accu[hs] || !c.accu[hs] || r.has("appeal %d", hs) || r.has("defended %d", hs) || !known(p2, b) || mc.CipherExecutionReceipts[hs] == nil {
			continue
		}
		cf := w.confFor(b)
		exp := o.expect(b)
		if cf == nil || len(exp) != 1 || !honestMember(w, cf, n.String()) {
			continue
		}
		if x := n.kpr.State.Batches[b]; x == nil || uint64(len(x.VerifiedSignatures)) < cf.Threshold {
			continue // it may never have seen them: what is executed is no longer looked at
		}
		if common.Hash(mc.CipherExecutionReceipts[hs].BatchHash) != common.BytesToHash(exp[0].hash) {
			r.did[fmt.Sprintf("defended %d", hs)] = true
			continue
		}
		w.stats["unfounded_accusations_judged"]++
		r.did[fmt.Sprintf("defended %d", hs)] = true
		w.violate("appeal-missing", []string{"K09"}, "%s knows that batch %d was executed correctly and since main chain block %d of the accusation, decides at block %d and does not appeal", n, b, p2.mc, c.mc)
	}
}

// activeConf is the config that is active at a main chain block.
func (o *oracle) activeConf(block uint64) int {
	for i := len(o.w.confs) - 1; i > 0; i-- {
		if o.w.confs[i].StartBlockNumber <= block {
			return i
		}
	}
	return 0
}

func messageOf(a fx.IAction) *shmsg.Message {
	if x, ok := a.(*fx.SendShuttermintMessage); ok {
		return x.Msg
	}
	return nil
}
