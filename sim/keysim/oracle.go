package main

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"
	"strconv"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	"github.com/ethereum/go-ethereum/crypto/ecies"

	"github.com/shutter-network/shutter/shlib/puredkg"
	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shuttermint/shmsg"

	"verif/sim/tmsim"
)

// The oracle reads the two chains directly (transactions of the shuttermint chain, contract state
// and logs of the main chain) and derives what honest keypers must conclude from them.

type akey struct{ accuser, accused int }

type eonRef struct {
	id, batch uint64
	start     int64
	conf      int
	keypers   []common.Address
	t         uint64

	commits map[int]*shcrypto.Gammas
	evals   map[[2]int]*big.Int // [dealer, receiver], honest receivers only
	accus   map[akey]bool
	apol    map[akey]*big.Int

	final    bool
	corrupt  map[int]bool
	success  map[int]bool // by keyper index: what an honest keyper must conclude
	pk       *shcrypto.EonPublicKey
	pkShares []*shcrypto.EonPublicKeyShare
	why      map[int]string

	epochs map[uint64]*epochRef
}

type epochRef struct {
	seen   map[string]bool
	idx    []int
	shares []*shcrypto.EpochSecretKeyShare
	key    *shcrypto.EpochSecretKey
	height int64 // of the block that completed the key
}

func (e *eonRef) index(a common.Address) int {
	for i, k := range e.keypers {
		if k == a {
			return i
		}
	}
	return -1
}

func (e *eonRef) member(a common.Address) bool { return e.index(a) >= 0 }

type sigMsg struct {
	sender common.Address
	sig    []byte
	h      int64
}

type oracle struct {
	w        *World
	encKey   map[common.Address]*ecies.PublicKey
	eons     []*eonRef
	adopted  []int // config indexes in the order shuttermint adopted them
	adoptH   map[int]int64
	checkinH map[common.Address]int64
	sigs     map[uint64][]sigMsg // by batch
	votes    map[uint64]map[common.Address]int64
	quietH   int64
	expCache map[string][]expected

	shareCache map[string]*shcrypto.EpochSecretKeyShare
	keyCache   map[string]bool
}

func newOracle(w *World) *oracle {
	return &oracle{
		w: w, encKey: map[common.Address]*ecies.PublicKey{}, sigs: map[uint64][]sigMsg{}, adoptH: map[int]int64{},
		votes: map[uint64]map[common.Address]int64{}, checkinH: map[common.Address]int64{}, expCache: map[string][]expected{},
		shareCache: map[string]*shcrypto.EpochSecretKeyShare{}, keyCache: map[string]bool{},
	}
}

func (o *oracle) quietAt(h int64) { o.quietH = h }

// phase of a height: 0 before the start, 1 dealing, 2 accusing, 3 apologizing, 4 finalised.
func (o *oracle) phase(e *eonRef, h int64) int {
	l := int64(o.w.cfg.Phase)
	switch {
	case h < e.start:
		return 0
	case h < e.start+l:
		return 1
	case h < e.start+2*l:
		return 2
	case h < e.start+3*l:
		return 3
	}
	return 4
}

func attr(kv map[string]string, k string) uint64 {
	v, err := strconv.ParseUint(kv[k], 10, 64)
	if err != nil {
		panic(fmt.Sprintf("event attribute %s: %v", k, err))
	}
	return v
}

func (o *oracle) onTMBlock(b *tmsim.Block) {
	for i, tx := range b.Txs {
		r := b.Results[i]
		sender, m, ok := parseTM(tx)
		if !ok {
			continue
		}
		for _, ev := range r.Events {
			kv := map[string]string{}
			for _, a := range ev.Attributes {
				kv[string(a.Key)] = string(a.Value)
			}
			switch ev.Type {
			case "shutter.batch-config":
				ci := int(attr(kv, "ConfigIndex"))
				o.adopted = append(o.adopted, ci)
				o.adoptH[ci] = b.H
				o.w.logf("config %d adopted at %d", ci, b.H)
				if ci <= 0 || ci >= len(o.w.confs) {
					o.w.violate("bogus-config-adopted", []string{"A01"}, "shuttermint adopted config %d, which the main chain does not have", ci)
				}
			case "shutter.eon-started":
				e := &eonRef{
					id: attr(kv, "Eon"), batch: attr(kv, "BatchIndex"), start: b.H,
					commits: map[int]*shcrypto.Gammas{}, evals: map[[2]int]*big.Int{}, accus: map[akey]bool{}, apol: map[akey]*big.Int{},
					epochs: map[uint64]*epochRef{},
				}
				for j := len(o.adopted) - 1; j >= 0; j-- {
					ci := o.adopted[j]
					if ci > 0 && ci < len(o.w.confs) && o.w.confs[ci].StartBatchIndex <= e.batch {
						e.conf, e.keypers, e.t = ci, o.w.confs[ci].Keypers, o.w.confs[ci].Threshold
						break
					}
				}
				o.w.stats["eons"]++
				if len(o.eons) > 0 && o.eons[len(o.eons)-1].batch == e.batch {
					o.w.stats["eon_restarts"]++
				}
				o.eons = append(o.eons, e)
				running := 0
				for _, x := range o.eons {
					if x.batch == e.batch && !x.final {
						running++
					}
				}
				if running > 4*len(e.keypers) {
					o.w.violate("dkg-storm", []string{"K02"}, "%d DKGs for the batches from %d on are running at the same time, they are restarted over and over", running, e.batch)
				}
				o.w.logf("eon %d starts at %d for batch %d config %d", e.id, b.H, e.batch, e.conf)
			}
		}
		if r.Code != 0 {
			continue
		}
		o.message(b.H, sender, m.Msg)
	}
	for _, e := range o.eons {
		if !e.final && o.phase(e, b.H+1) == 4 {
			o.finalise(e)
		}
	}
}

func (o *oracle) eon(id uint64) *eonRef {
	for _, e := range o.eons {
		if e.id == id {
			return e
		}
	}
	return nil
}

func (o *oracle) message(h int64, sender common.Address, m *shmsg.Message) {
	switch p := m.Payload.(type) {
	case *shmsg.Message_CheckIn:
		pk, err := crypto.DecompressPubkey(p.CheckIn.EncryptionPublicKey)
		if err == nil {
			o.encKey[sender] = ecies.ImportECDSAPublic(pk)
			o.checkinH[sender] = h
		}
	case *shmsg.Message_PolyCommitment:
		e := o.eon(p.PolyCommitment.Eon)
		if e == nil || o.phase(e, h) != 1 || !e.member(sender) {
			return
		}
		i := e.index(sender)
		if e.commits[i] != nil || uint64(len(p.PolyCommitment.Gammas)) != e.t {
			return
		}
		if g := parseGammas(p.PolyCommitment.Gammas); g != nil {
			e.commits[i] = g
		}
	case *shmsg.Message_PolyEval:
		e := o.eon(p.PolyEval.Eon)
		if e == nil || o.phase(e, h) != 1 || !e.member(sender) {
			return
		}
		i := e.index(sender)
		for j, rc := range p.PolyEval.Receivers {
			a := common.BytesToAddress(rc)
			n := o.w.byAddr[a]
			k := e.index(a)
			if n == nil || k < 0 || k == i || n.byz || e.evals[[2]int{i, k}] != nil {
				continue
			}
			plain, err := n.enc.Decrypt(p.PolyEval.EncryptedEvals[j], []byte(""), []byte(""))
			if err != nil {
				continue
			}
			v := new(big.Int).SetBytes(plain)
			if v.Cmp(bn256.Order) < 0 {
				e.evals[[2]int{i, k}] = v
			}
		}
	case *shmsg.Message_Accusation:
		e := o.eon(p.Accusation.Eon)
		if e == nil || o.phase(e, h) != 2 || !e.member(sender) {
			return
		}
		for _, a := range p.Accusation.Accused {
			if k := e.index(common.BytesToAddress(a)); k >= 0 {
				e.accus[akey{e.index(sender), k}] = true
			}
		}
	case *shmsg.Message_Apology:
		e := o.eon(p.Apology.Eon)
		if e == nil || o.phase(e, h) != 3 || !e.member(sender) {
			return
		}
		for j, a := range p.Apology.Accusers {
			k := e.index(common.BytesToAddress(a))
			v := new(big.Int).SetBytes(p.Apology.PolyEvals[j])
			key := akey{k, e.index(sender)}
			if k >= 0 && e.apol[key] == nil && v.Cmp(bn256.Order) < 0 {
				e.apol[key] = v
			}
		}
	case *shmsg.Message_EpochSecretKeyShare:
		s := p.EpochSecretKeyShare
		e := o.eon(s.Eon)
		if e == nil || !e.final || e.pk == nil || !e.member(sender) {
			return
		}
		o.share(e, s.Epoch, e.index(sender), s.Share, h)
	case *shmsg.Message_DecryptionSignature:
		d := p.DecryptionSignature
		o.sigs[d.BatchIndex] = append(o.sigs[d.BatchIndex], sigMsg{sender, d.Signature, h})
	case *shmsg.Message_EonStartVote:
		b := p.EonStartVote.StartBatchIndex
		if o.votes[b] == nil {
			o.votes[b] = map[common.Address]int64{}
		}
		o.votes[b][sender] = h
	}
}

func parseGammas(bs [][]byte) *shcrypto.Gammas {
	g := shcrypto.Gammas{}
	for _, x := range bs {
		p := new(bn256.G2)
		if _, err := p.Unmarshal(x); err != nil {
			return nil
		}
		g = append(g, p)
	}
	return &g
}

// validShare decodes and verifies an epoch secret key share (nil: invalid).
func (o *oracle) validShare(e *eonRef, epoch uint64, idx int, b []byte) *shcrypto.EpochSecretKeyShare {
	k := fmt.Sprintf("%d/%d/%d/%s", e.id, epoch, idx, b)
	if s, ok := o.shareCache[k]; ok {
		return s
	}
	s := new(shcrypto.EpochSecretKeyShare)
	if err := s.GobDecode(b); err != nil || !shcrypto.VerifyEpochSecretKeyShare(s, e.pkShares[idx], shcrypto.ComputeEpochID(epochBytes(epoch))) {
		s = nil
	}
	o.shareCache[k] = s
	return s
}

func (o *oracle) share(e *eonRef, epoch uint64, idx int, b []byte, h int64) {
	r := e.epochs[epoch]
	if r == nil {
		r = &epochRef{seen: map[string]bool{}}
		e.epochs[epoch] = r
	}
	for _, i := range r.idx {
		if i == idx {
			return
		}
	}
	if r.key != nil {
		return
	}
	s := o.validShare(e, epoch, idx, b)
	if s == nil {
		return
	}
	r.idx = append(r.idx, idx)
	r.shares = append(r.shares, s)
	if uint64(len(r.idx)) == e.t {
		k, err := shcrypto.ComputeEpochSecretKey(r.idx, r.shares, e.t)
		if err != nil {
			panic(err)
		}
		r.key, r.height = k, h
		o.w.stats["epoch_keys"]++
		o.w.logf("epoch %d of eon %d: key complete at %d", epoch, e.id, h)
	}
}

// finalise computes the outcome of the DKG from the chain.
func (o *oracle) finalise(e *eonRef) {
	e.final = true
	e.corrupt, e.success, e.why = map[int]bool{}, map[int]bool{}, map[int]string{}
	n := len(e.keypers)
	good := 0
	for d := 0; d < n; d++ {
		c := e.commits[d]
		bad := c == nil
		if c != nil {
			for k, v := range e.apol {
				if k.accused == d && !shcrypto.VerifyPolyEval(k.accuser, v, c, e.t) {
					bad = true
				}
			}
			for k := range e.accus {
				if k.accused == d && e.apol[k] == nil {
					bad = true
				}
			}
		}
		e.corrupt[d] = bad
		if !bad {
			good++
		}
	}
	var cs []*shcrypto.Gammas
	for d := 0; d < n; d++ {
		if e.corrupt[d] {
			cs = append(cs, shcrypto.ZeroGammas(e.t-1))
		} else {
			cs = append(cs, e.commits[d])
		}
	}
	if uint64(good) >= e.t {
		e.pk = shcrypto.ComputeEonPublicKey(cs)
		for d := 0; d < n; d++ {
			e.pkShares = append(e.pkShares, shcrypto.ComputeEonPublicKeyShare(d, cs))
		}
	}
	var cl []int
	for d := 0; d < n; d++ {
		if e.corrupt[d] {
			cl = append(cl, d)
		}
	}
	for k := 0; k < n; k++ {
		node := o.w.byAddr[e.keypers[k]]
		if node == nil || node.byz {
			continue
		}
		ok := uint64(good) >= e.t
		why := ""
		if !ok {
			why = fmt.Sprintf("only %d participants", good)
		}
		for d := 0; d < n && ok; d++ {
			if e.corrupt[d] {
				continue
			}
			v := e.apol[akey{k, d}]
			if v == nil {
				if d == k {
					continue
				}
				v = e.evals[[2]int{d, k}]
			}
			if v == nil || !shcrypto.VerifyPolyEval(k, v, e.commits[d], e.t) {
				ok = false
				why = fmt.Sprintf("no valid evaluation from dealer %d", d)
			}
		}
		e.success[k], e.why[k] = ok, why
		if ok {
			o.w.stats["eon_success"]++
		} else {
			o.w.stats["eon_failure"]++
		}
	}
	o.w.logf("eon %d final: corrupt %v success %v accusations %d apologies %d", e.id, cl, e.success, len(e.accus), len(e.apol))
	o.w.stats["dkg_accusations"] += len(e.accus)
	o.w.stats["dkg_apologies"] += len(e.apol)
	if len(cl) > 0 {
		o.w.stats["dkg_with_corrupt_dealer"]++
	}
}

// eonForBatch is the eon responsible for a batch as of now.
func (o *oracle) eonForBatch(b uint64) *eonRef {
	for i := len(o.eons) - 1; i >= 0; i-- {
		if o.eons[i].batch <= b {
			return o.eons[i]
		}
	}
	return nil
}

// userKey is the public key a user encrypts with: that of the newest eon for the batch which has one.
func (o *oracle) userKey(b uint64) *shcrypto.EonPublicKey {
	for i := len(o.eons) - 1; i >= 0; i-- {
		e := o.eons[i]
		if e.batch <= b && e.pk != nil {
			return e.pk
		}
	}
	return nil
}

func pkEqual(a, b *shcrypto.EonPublicKey) bool {
	return a != nil && b != nil && bytes.Equal(a.Marshal(), b.Marshal())
}

// onStateSaved runs whenever a keyper has made a decision durable.
func (o *oracle) onStateSaved(n *KNode) {
	o.recordDecisions(n)
	if n.byz {
		return
	}
	st := n.kpr.State
	for i := range st.DKGs {
		d := &st.DKGs[i]
		if d.Pure == nil || d.Pure.Phase != puredkg.Finalized || n.rec.checked[d.Eon] {
			continue
		}
		n.rec.checked[d.Eon] = true
		o.checkDKG(n, d.Eon)
	}
	for _, k := range st.EKGs {
		e := o.eon(k.Eon)
		if e == nil || !e.final || e.pk == nil {
			continue // reported by checkDKG
		}
		var eps []uint64
		for ep := range k.EpochKG.SecretKeys {
			eps = append(eps, ep)
		}
		sort.Slice(eps, func(i, j int) bool { return eps[i] < eps[j] })
		for _, ep := range eps {
			key := k.EpochKG.SecretKeys[ep]
			id := [2]uint64{k.Eon, ep}
			if n.rec.keyOK[id] {
				continue
			}
			n.rec.keyOK[id] = true
			o.w.stats["keys_derived"]++
			if key == nil {
				o.w.violate("nil-epoch-key", []string{"K04"}, "%s holds a nil secret key for epoch %d of eon %d", n, ep, k.Eon)
				continue
			}
			kb, _ := key.GobEncode()
			ck := fmt.Sprintf("%d/%d/%s", k.Eon, ep, kb)
			valid, known := o.keyCache[ck]
			if !known {
				ok, err := shcrypto.VerifyEpochSecretKey(key, e.pk, epochBytes(ep))
				valid = ok && err == nil
				o.keyCache[ck] = valid
			}
			if !valid {
				o.w.violate("wrong-epoch-key", []string{"K04"}, "%s derived a key for epoch %d of eon %d that does not belong to the eon's public key", n, ep, k.Eon)
			}
			if r := e.epochs[ep]; r == nil || r.key == nil {
				o.w.violate("epoch-key-from-nowhere", []string{"K04", "K03"}, "%s holds a key for epoch %d of eon %d although fewer than %d valid shares are on the chain", n, ep, k.Eon, e.t)
			}
		}
		for ep, r := range e.epochs {
			if r.key != nil && r.height < st.SyncHeight && k.EpochKG.SecretKeys[ep] == nil {
				if !n.rec.once("missing", k.Eon<<32|ep) {
					o.w.violate("missing-epoch-key", []string{"K04"}, "%s has processed the chain up to height %d but has no key for epoch %d of eon %d, whose %d-th valid share is at height %d", n, st.SyncHeight-1, ep, k.Eon, e.t, r.height)
				}
			}
		}
	}
	o.duties(n)
}

// checkDKG compares what an honest keyper concluded from a DKG with what the chain implies.
func (o *oracle) checkDKG(n *KNode, id uint64) {
	e := o.eon(id)
	st := n.kpr.State
	if e == nil {
		o.w.violate("unknown-eon", []string{"K01"}, "%s ran a DKG for eon %d, which was never started", n, id)
		return
	}
	if !e.final {
		o.w.violate("early-dkg-result", []string{"K01"}, "%s finalised eon %d before its last phase was over", n, id)
		return
	}
	k := e.index(n.addr)
	if k < 0 {
		o.w.violate("dkg-by-non-member", []string{"K01"}, "%s took part in the DKG of eon %d, of which it is no member", n, id)
		return
	}
	ekg := n.ekg(id)
	o.w.logf("%s finalised eon %d: %v", n, id, ekg != nil)
	if (ekg != nil) != e.success[k] {
		o.w.violate("dkg-outcome", []string{"K01"}, "%s concludes success=%v for eon %d, the messages on the chain imply success=%v %s", n, ekg != nil, id, e.success[k], e.why[k])
		return
	}
	vote, bcast := false, false
	for _, a := range st.Actions {
		c := canonAction(o.w, a)
		if c == canonMsg(shmsg.NewEonStartVote(e.batch)) {
			vote = true
		}
		if e.pk != nil && c == o.canonVote(uint64(k), e.batch, e.pk.Marshal()) {
			bcast = true
		}
	}
	if ekg == nil {
		// once a later DKG for the same batches is running, the vote is not needed any more
		superseded := false
		for _, x := range o.eons {
			superseded = superseded || x.batch == e.batch && x.id > e.id
		}
		if !vote && !superseded {
			o.w.violate("no-restart-vote", []string{"K02"}, "%s concluded that the DKG of eon %d failed (%s) and does not vote for a restart", n, id, e.why[k])
		}
		if bcast {
			o.w.violate("key-without-dkg", []string{"K02"}, "%s announces an eon key for eon %d whose DKG failed", n, id)
		}
		return
	}
	if !bcast {
		o.w.violate("no-key-broadcast", []string{"K02"}, "%s concluded the DKG of eon %d and does not announce the eon key on the main chain", n, id)
	}
	g := ekg.EpochKG
	if g.NumKeypers != uint64(len(e.keypers)) || g.Threshold != e.t || g.Keyper != uint64(k) || g.Eon != id {
		o.w.violate("dkg-parameters", []string{"K01"}, "%s: eon %d has %d keypers, threshold %d, own index %d; the keyper recorded %d, %d, %d", n, id, len(e.keypers), e.t, k, g.NumKeypers, g.Threshold, g.Keyper)
		return
	}
	if !pkEqual(g.PublicKey, e.pk) {
		o.w.violate("eon-key-differs", []string{"K01"}, "%s derived an eon public key for eon %d other than the one the chain implies", n, id)
	}
	for i := range e.pkShares {
		if i >= len(g.PublicKeyShares) || !bytes.Equal(g.PublicKeyShares[i].Marshal(), e.pkShares[i].Marshal()) {
			o.w.violate("eon-key-share-differs", []string{"K01"}, "%s derived a public key share of keyper %d for eon %d other than the one the chain implies", n, i, id)
			return
		}
	}
	sk := new(big.Int).SetBytes(g.SecretKeyShare.Marshal())
	if !bytes.Equal(new(bn256.G2).ScalarBaseMult(sk).Marshal(), e.pkShares[k].Marshal()) {
		o.w.violate("secret-share-mismatch", []string{"K01"}, "%s: its secret key share of eon %d does not match its public key share", n, id)
	}
}

// onLoaded runs after a keyper has read its state.
func (o *oracle) onLoaded(n *KNode) {
	if n.inc == 1 {
		return
	}
	st := n.kpr.State
	if st == nil {
		return
	}
	if len(n.rec.tmOrder)-n.rec.tmDone > 1 {
		o.w.stats["restart_with_unsent_messages"]++
	}
	if n.rec.saved && st.ActionCounter != n.rec.lastCounter {
		o.w.violate("state-lost", []string{"K05"}, "%s restarted with action counter %d; the last saved state had %d", n, st.ActionCounter, n.rec.lastCounter)
	}
}

func (o *oracle) onCrash(n *KNode) {}

func (o *oracle) onExit(n *KNode, why string) {
	if n.byz {
		return
	}
	if o.w.quiet && o.w.tm.Height() > o.quietH+15 {
		o.w.violate("exit-without-fault", []string{"K10"}, "%s stops by itself although nothing is wrong: %s", n, why)
	}
}

func (o *oracle) afterTMBlock(b *tmsim.Block) {
	o.w.byzTM(b.H)
	o.w.phaseBoundary(b.H)
}

var _ = types.NewTx
