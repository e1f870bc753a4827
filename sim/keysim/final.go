package main

import (
	"bytes"
	"encoding/gob"
	"os"
	"path/filepath"

	"github.com/ethereum/go-ethereum/common"

	"github.com/shutter-network/shutter/shuttermint/keyper/fx"

	"verif/sim/ethsim"
	"verif/sim/simrt"
)

// final checks the state after the faults have been over for a while.
func (o *oracle) final() {
	w := o.w
	o.executions()
	for _, n := range w.nodes {
		if n.byz {
			continue
		}
		o.finalNode(n)
	}
	o.finalEons()
}

func (n *KNode) pending() *fx.PendingActions {
	var b []byte
	simrt.Raw(func() { b, _ = os.ReadFile(filepath.Join(n.disk.Dir, "actions.gob")) })
	p := fx.NewPendingActions("")
	if len(b) > 0 {
		if err := gob.NewDecoder(bytes.NewReader(b)).Decode(p); err != nil {
			return nil
		}
	}
	return p
}

func (o *oracle) finalNode(n *KNode) {
	w := o.w
	if !n.up || n.kpr == nil {
		w.violate("keyper-down", []string{"K10"}, "%s is not running at the end of the quiet period", n)
		return
	}
	world := n.kpr.CurrentWorld()
	h := w.tm.Height()
	if world.Shutter.CurrentBlock < h-5 {
		w.violate("shuttermint-view-stuck", []string{"K10"}, "%s has synced shuttermint up to block %d of %d", n, world.Shutter.CurrentBlock, h)
		return
	}
	if world.MainChain.CurrentBlock+w.cfg.Follow+4 < w.eth.Head.Num {
		w.violate("main-chain-view-stuck", []string{"K10"}, "%s has synced the main chain up to block %d of %d", n, world.MainChain.CurrentBlock, w.eth.Head.Num)
		return
	}
	member := false
	for _, ci := range o.adopted {
		for _, k := range w.confs[ci].Keypers {
			member = member || k == n.addr
		}
	}
	if member && n.kpr.State.SyncHeight < h-6 {
		w.violate("decider-stuck", []string{"K10"}, "%s has decided up to height %d of %d only", n, n.kpr.State.SyncHeight-1, h)
		return
	}
	p := n.pending()
	if p == nil {
		w.violate("pending-unreadable", []string{"K05", "K10"}, "%s: its pending actions cannot be read", n)
		return
	}
	old := 0
	first := ""
	for id, a := range p.ActionMap {
		{
			if at, ok := n.rec.decidedAt[uint64(id)]; ok && w.ms()-at > 45_000 && w.ms()-w.cfg.FaultEnd > 45_000 {
				old++
				if first == "" {
					first = describeAction(a)
				}
			}
		}
	}
	if old > 0 {
		w.violate("actions-not-drained", []string{"K10", "K05"}, "%s still has %d actions pending that it decided long ago, such as %s", n, old, first)
	}
	if n.rec.tmDone < len(n.rec.tmOrder) {
		id := n.rec.tmOrder[n.rec.tmDone]
		if w.ms()-n.rec.decidedAt[id] > 45_000 {
			w.violate("message-never-sent", []string{"K05"}, "%s decided action %d but never sent it", n, id)
		}
	}
	if !n.faulted && n.inc == 1 && n.rec.bcasts > len(n.rec.tmOrder) {
		w.violate("message-repeated", []string{"K05"}, "%s met no fault and sent %d messages for %d decisions", n, n.rec.bcasts, len(n.rec.tmOrder))
	}
	// what it believes about the chains
	mc := world.MainChain
	b := ethsim.Ancestor(w.eth.Head, mc.CurrentBlock)
	if hs := o.halfSteps(b); mc.NumExecutionHalfSteps != hs {
		w.violate("view-half-steps", []string{"K07"}, "%s believes %d half steps were done at block %d, the chain says %d", n, mc.NumExecutionHalfSteps, mc.CurrentBlock, hs)
	}
	if len(mc.BatchConfigs) != len(w.confs) {
		w.violate("view-configs", []string{"K07"}, "%s knows %d configs, the chain has %d", n, len(mc.BatchConfigs), len(w.confs))
	}
	for i := uint64(0); ; i++ {
		cf := w.confFor(i)
		if cf == nil || w.endBlock(i) > mc.CurrentBlock {
			break
		}
		ct := o.content(b, i)
		var c, p [][]byte
		if x := mc.Batches[i]; x != nil {
			c, p = x.EncryptedTransactions, x.PlainTransactions
		}
		if !sameTxs(ct.cipher, c) || !sameTxs(ct.plain, p) {
			w.violate("view-batch", []string{"K07"}, "%s has %d encrypted and %d plain transactions for batch %d, the chain has %d and %d", n, len(c), len(p), i, len(ct.cipher), len(ct.plain))
			break
		}
	}
	sh := world.Shutter
	if len(sh.Eons) != len(o.eons) || len(sh.BatchConfigs) != len(o.adopted)+1 && len(sh.BatchConfigs) != len(o.adopted) {
		w.violate("view-shuttermint", []string{"K06"}, "%s knows %d eons and %d configs, the chain has %d and %d", n, len(sh.Eons), len(sh.BatchConfigs), len(o.eons), len(o.adopted))
	}
	for a := range o.encKey {
		if !sh.IsCheckedIn(a) {
			w.violate("view-checkin", []string{"K06"}, "%s does not know that %s has checked in", n, o.name(a))
		}
	}
}

// finalEons checks that DKGs get restarted and in the end succeed.
func (o *oracle) finalEons() {
	w := o.w
	last := map[uint64]*eonRef{}
	var order []uint64
	for _, e := range o.eons {
		if last[e.batch] == nil {
			order = append(order, e.batch)
		}
		last[e.batch] = e
	}
	for _, b := range order {
		e := last[b]
		fin := e.start + 3*int64(w.cfg.Phase)
		if !e.final {
			continue
		}
		fails := 0
		for k, a := range e.keypers {
			n := w.byAddr[a]
			if n == nil || n.byz {
				continue
			}
			if !e.success[k] {
				fails++
				if e.start > o.quietH+12 && o.checkedInBefore(e) && o.timely(e) {
					w.violate("dkg-fails-without-fault", []string{"K02"}, "the DKG of eon %d ran after all faults were over and failed for %s: %s", e.id, n, e.why[k])
				}
			} else if w.tm.Height() > fin+40 && w.ms() > w.cfg.FaultEnd+40_000 {
				// its vote for the eon key must have reached the contract
				if !w.eth.View(w.eth.Head, w.cc["broadcast"], "hasVoted", a, e.batch)[0].(bool) {
					w.violate("key-vote-missing", []string{"K02"}, "%s has the key of eon %d but has not announced it on the main chain", n, e.id)
				}
			}
		}
		// failed keypers vote for a restart; with a threshold of them it happens
		if uint64(fails) >= w.confs[e.conf].Threshold && w.tm.Height() > fin+40 && w.tm.Height() > o.quietH+40 {
			w.violate("dkg-not-restarted", []string{"K02"}, "the DKG of eon %d failed for %d keypers, the threshold is %d, and it was not restarted", e.id, fails, w.confs[e.conf].Threshold)
		}
	}
	// a config on the main chain is adopted by shuttermint when a threshold of honest members saw it
	for ci := 1; ci < len(w.confs); ci++ {
		if _, ok := o.adoptH[ci]; ok || ci == 1 {
			continue
		}
		prev := w.confs[ci-1]
		honest := 0
		for _, a := range prev.Keypers {
			if n := w.byAddr[a]; n != nil && !n.byz {
				honest++
			}
		}
		if uint64(honest) >= prev.Threshold {
			if _, ok := o.adoptH[ci-1]; ok {
				w.violate("config-not-adopted", []string{"K02", "K10"}, "config %d of the main chain was never adopted by shuttermint", ci)
			}
		}
	}
}

// checkedInBefore: every honest member had checked in when the eon started.
// timely says whether there is time for all messages of an eon. A keyper sends one message after
// the other, about one per block, also those of other eons whose keys are generated meanwhile.
func (o *oracle) timely(e *eonRef) bool {
	phase := int64(o.w.cfg.Phase)
	others := int64(0)
	for _, x := range o.eons {
		if x != e && x.start < e.start+3*phase && e.start < x.start+3*phase {
			others++
		}
	}
	return others == 0 || others == 1 && phase >= 8
}

func (o *oracle) checkedInBefore(e *eonRef) bool {
	for _, a := range e.keypers {
		if n := o.w.byAddr[a]; n != nil && !n.byz && o.encKey[a] == nil {
			return false
		}
	}
	return true
}

var _ = common.Address{}
