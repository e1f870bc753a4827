package main

import (
	"fmt"
	"math/big"
	"sort"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	"github.com/ethereum/go-ethereum/crypto/ecies"
	tmtypes "github.com/tendermint/tendermint/types"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shuttermint/keyper"
	"github.com/shutter-network/shutter/shuttermint/shmsg"

	"verif/sim/ethsim"
	"verif/sim/simrt"
)

// A Byzantine keyper runs the real program; what it sends is altered on the way out, and the
// adversary adds messages of its own.

func (n *KNode) encryptTo(a common.Address, plain []byte) []byte {
	pk := n.w.o.encKey[a]
	if pk == nil {
		return n.rng.Bytes(100)
	}
	c, err := ecies.Encrypt(&rngReader{n.rng}, pk, plain, nil, nil)
	if err != nil {
		panic(err)
	}
	return c
}

type rngReader struct{ r *simrt.Rng }

func (r *rngReader) Read(b []byte) (int, error) {
	copy(b, r.r.Bytes(len(b)))
	return len(b), nil
}

// ekg is the byzantine keyper's own key material for an eon.
func (n *KNode) ekg(eon uint64) *keyper.EKG {
	if n.kpr == nil {
		return nil
	}
	for _, e := range n.kpr.State.EKGs {
		if e.Eon == eon {
			return e
		}
	}
	return nil
}

func (n *KNode) badShare(epoch uint64) []byte {
	sk := new(shcrypto.EonSecretKeyShare)
	_ = sk.Unmarshal(shcrypto.ComputeEonSecretKeyShare([]*big.Int{new(big.Int).SetBytes(n.rng.Bytes(31))}).Marshal())
	s, _ := shcrypto.ComputeEpochSecretKeyShare(sk, shcrypto.ComputeEpochID(epochBytes(epoch))).GobEncode()
	return s
}

func (n *KNode) mangleTM(tx tmtypes.Tx, m *shmsg.MessageWithNonce) []tmtypes.Tx {
	out := func(msgs ...*shmsg.Message) []tmtypes.Tx {
		var r []tmtypes.Tx
		for _, x := range msgs {
			r = append(r, signTM(n.key, x, n.rng.Uint64()))
		}
		return r
	}
	same := []tmtypes.Tx{tx}
	if n.bad["poly_zero"] != nil && n.polyZero(m.Msg) {
		return out(m.Msg)
	}
	if n.holdBack(tx, m.Msg) {
		return nil
	}
	switch p := m.Msg.Payload.(type) {
	case *shmsg.Message_CheckIn:
		if n.bad["checkin_none"] != nil {
			return nil
		}
	case *shmsg.Message_BatchConfig:
		if n.bad["config_bogus"] != nil {
			c := p.BatchConfig
			c.Threshold = 1
			c.Keypers = [][]byte{n.addr.Bytes()}
			return out(m.Msg)
		}
	case *shmsg.Message_PolyEval:
		pe := p.PolyEval
		changed := false
		var rs, es [][]byte
		for i, rc := range pe.Receivers {
			a := common.BytesToAddress(rc)
			node := n.w.byAddr[a]
			hit := func(k string) bool {
				e := n.bad[k]
				return e != nil && node != nil && e.A&(1<<uint(node.ID)) != 0
			}
			enc := pe.EncryptedEvals[i]
			switch {
			case hit("eval_drop"):
				changed = true
				continue
			case hit("eval_corrupt"):
				enc, changed = n.encryptTo(a, n.rng.Bytes(31)), true
			case hit("eval_invalid"):
				enc, changed = n.encryptTo(a, new(big.Int).Add(bn256.Order, big.NewInt(int64(n.rng.Intn(5)))).Bytes()), true
			case hit("eval_garbage"):
				enc, changed = n.rng.Bytes(1+n.rng.Intn(120)), true
			}
			rs, es = append(rs, rc), append(es, enc)
		}
		if changed {
			if len(rs) == 0 {
				return nil
			}
			pe.Receivers, pe.EncryptedEvals = rs, es
			return out(m.Msg)
		}
	case *shmsg.Message_PolyCommitment:
		pc := p.PolyCommitment
		if n.bad["commit_none"] != nil {
			return nil
		}
		if e := n.bad["commit_degree"]; e != nil {
			if e.B == 3 {
				pc.Gammas = nil
			} else if e.B%2 == 0 && len(pc.Gammas) > 1 {
				pc.Gammas = pc.Gammas[:len(pc.Gammas)-1]
			} else {
				pc.Gammas = append(pc.Gammas, pc.Gammas[0])
			}
			return out(m.Msg)
		}
		if n.bad["commit_random"] != nil {
			return out(shmsg.NewPolyCommitment(pc.Eon, randomPoly(n.rng, uint64(len(pc.Gammas)-1)).Gammas()))
		}
	case *shmsg.Message_Accusation:
		if n.bad["accuse_none"] != nil {
			return nil
		}
	case *shmsg.Message_Apology:
		if n.bad["apology_none"] != nil {
			return nil
		}
		if e := n.bad["apology_bad"]; e != nil {
			for i := range p.Apology.PolyEvals {
				p.Apology.PolyEvals[i] = append([]byte{1}, n.rng.Bytes(29)...)
			}
			return out(m.Msg)
		}
	case *shmsg.Message_EpochSecretKeyShare:
		s := p.EpochSecretKeyShare
		if n.bad["share_none"] != nil {
			return nil
		}
		if n.bad["share_bad"] != nil {
			s.Share = n.badShare(s.Epoch)
			return out(m.Msg)
		}
		if n.bad["share_epoch"] != nil {
			if k := n.ekg(s.Eon); k != nil {
				s.Share, _ = k.EpochKG.ComputeEpochSecretKeyShare(s.Epoch + 1 + uint64(n.rng.Intn(2))).GobEncode()
				return out(m.Msg)
			}
		}
	case *shmsg.Message_DecryptionSignature:
		s := p.DecryptionSignature
		if n.bad["sig_none"] != nil || n.bad["sig_copy"] != nil {
			return nil
		}
		if n.bad["sig_bad"] != nil {
			s.Signature = n.rng.Bytes(65)
			return out(m.Msg)
		}
		if n.bad["sig_highs"] != nil && len(s.Signature) == 65 {
			// the other signature that is valid for the same message
			hs := new(big.Int).Sub(crypto.S256().Params().N, new(big.Int).SetBytes(s.Signature[32:64]))
			hs.FillBytes(s.Signature[32:64])
			s.Signature[64] ^= 1
			n.w.stats["byz_high_s_signature"]++
			return out(m.Msg)
		}
		if n.bad["sig_other"] != nil {
			sig, err := crypto.Sign(n.rng.Bytes(32), n.key)
			if err != nil {
				panic(err)
			}
			s.Signature = sig
			return out(m.Msg)
		}
		if n.bad["sig_extra"] != nil {
			sig, err := crypto.Sign(n.rng.Bytes(32), n.key)
			if err != nil {
				panic(err)
			}
			return append(out(shmsg.NewDecryptionSignature(s.BatchIndex, sig)), tx)
		}
	}
	return same
}

// polyZero makes the keyper deal a polynomial that evaluates to zero for one of the others.
func (n *KNode) polyZero(m *shmsg.Message) bool {
	poly := func(eon uint64, deg int) *shcrypto.Polynomial {
		if p := n.polys[eon]; p != nil {
			return p
		}
		if n.polys == nil {
			n.polys = map[uint64]*shcrypto.Polynomial{}
		}
		p := randomPoly(n.rng, uint64(deg))
		x := int(n.bad["poly_zero"].A) % n.w.cfg.N
		v := p.EvalForKeyper(x)
		cs := append([]*big.Int{}, (*p)...)
		cs[0] = new(big.Int).Mod(new(big.Int).Sub(cs[0], v), bn256.Order)
		p, err := shcrypto.NewPolynomial(cs)
		if err != nil {
			panic(err)
		}
		n.polys[eon] = p
		n.w.stats["byz_zero_evaluation"]++
		return p
	}
	e := func(id uint64) *eonRef {
		for _, x := range n.w.o.eons {
			if x.id == id {
				return x
			}
		}
		return nil
	}
	switch p := m.Payload.(type) {
	case *shmsg.Message_PolyCommitment:
		pc := p.PolyCommitment
		pc.Gammas = shmsg.NewPolyCommitment(pc.Eon, poly(pc.Eon, len(pc.Gammas)-1).Gammas()).GetPolyCommitment().Gammas
		return true
	case *shmsg.Message_PolyEval:
		pe := p.PolyEval
		er := e(pe.Eon)
		if er == nil {
			return false
		}
		for i, rc := range pe.Receivers {
			a := common.BytesToAddress(rc)
			v := poly(pe.Eon, int(er.t)-1).EvalForKeyper(er.index(a)).Bytes()
			if len(v) == 0 && n.bad["poly_zero"].B != 0 {
				v = []byte{0} // unlike an empty plaintext, this one can be decrypted
			}
			pe.EncryptedEvals[i] = n.encryptTo(a, v)
		}
		return true
	case *shmsg.Message_Apology:
		ap := p.Apology
		er := e(ap.Eon)
		if er == nil || n.polys[ap.Eon] == nil {
			return false
		}
		for i, rc := range ap.Accusers {
			ap.PolyEvals[i] = n.polys[ap.Eon].EvalForKeyper(er.index(common.BytesToAddress(rc))).Bytes()
		}
		return true
	}
	return false
}

func (n *KNode) mangleEth(tx *types.Transaction) *types.Transaction {
	e := n.bad["exec_wrong"]
	if e == nil || tx.To() == nil || *tx.To() != n.w.executor {
		return tx
	}
	c := n.w.cc["executor"]
	m, err := c.ABI.MethodById(tx.Data())
	if err != nil || m.Name != "executeCipherBatch" {
		return tx
	}
	args, err := m.Inputs.Unpack(tx.Data()[4:])
	if err != nil {
		return tx
	}
	txs := args[2].([][]byte)
	if len(txs) == 0 {
		if args[1].([32]byte) == ([32]byte{}) {
			return tx
		}
		txs = [][]byte{[]byte("not decrypted from anything")}
	} else {
		switch e.B {
		case 0:
			txs = txs[1:]
		case 1:
			txs = append(append([][]byte{}, txs[1:]...), txs[0])
			if len(txs) == 1 {
				txs = nil
			}
		case 2:
			txs = append(txs, []byte("front run"))
		default:
			txs = [][]byte{n.rng.Bytes(20)}
		}
	}
	data, err := c.ABI.Pack("executeCipherBatch", args[0], args[1], txs, args[3])
	if err != nil {
		panic(err)
	}
	x, err := types.SignTx(types.NewTransaction(tx.Nonce(), *tx.To(), tx.Value(), tx.Gas()+200_000, tx.GasPrice(), data), n.w.eth.Signer(), n.key)
	if err != nil {
		panic(err)
	}
	n.w.stats["byz_wrong_execution"]++
	return x
}

// lateTx is a message of a DKG phase that is held back until about the end of that phase.
type lateTx struct {
	tx     tmtypes.Tx
	height int64 // sent after this block
}

// holdBack keeps DKG messages back until they just make it into their phase, or just don't.
func (n *KNode) holdBack(tx tmtypes.Tx, m *shmsg.Message) bool {
	x := n.bad["dkg_late"]
	if x == nil {
		return false
	}
	var eon uint64
	phase, kind := int64(1), 0
	switch p := m.Payload.(type) {
	case *shmsg.Message_PolyCommitment:
		eon = p.PolyCommitment.Eon
	case *shmsg.Message_PolyEval:
		eon, kind = p.PolyEval.Eon, 1
	case *shmsg.Message_Accusation:
		eon, phase, kind = p.Accusation.Eon, 2, 2
	case *shmsg.Message_Apology:
		eon, phase, kind = p.Apology.Eon, 3, 3
	default:
		return false
	}
	if x.A&(1<<uint(kind)) == 0 {
		return false
	}
	for _, e := range n.w.o.eons {
		if e.id == eon {
			// the first block that is too late is e.start+phase*length
			late := int64(simrt.NewRng(x.S).Fork(fmt.Sprint(eon, kind)).Intn(4)) - 1
			n.late = append(n.late, lateTx{tx, e.start + phase*int64(n.w.cfg.Phase) - 1 + late})
			n.w.stats["byz_dkg_message_held_back"]++
			return true
		}
	}
	return false
}

// byzTM lets the byzantine keypers act after a shuttermint block.
func (w *World) byzTM(h int64) {
	for _, n := range w.nodes {
		if !n.byz {
			continue
		}
		var keep []lateTx
		for _, l := range n.late {
			if h >= l.height {
				w.tm.Submit(l.tx)
			} else {
				keep = append(keep, l)
			}
		}
		n.late = keep
		if n.bad["sig_copy"] != nil {
			n.copySignatures(h)
		}
		for _, e := range w.o.eons {
			if !e.member(n.addr) {
				continue
			}
			switch w.o.phase(e, h+1) {
			case 1:
				if x := n.bad["vote_spurious"]; x != nil && !n.rec.once("vote", e.id) {
					w.sendTM(n.key, shmsg.NewEonStartVote(e.batch))
				}
			case 2:
				if x := n.bad["accuse_false"]; x != nil && !n.rec.once("accuse", e.id) {
					var l []common.Address
					for i, a := range w.addrs {
						if x.A&(1<<uint(i)) != 0 && e.member(a) && (a != n.addr || x.B == 0) {
							l = append(l, a)
						}
					}
					if len(l) > 0 {
						w.sendTM(n.key, shmsg.NewAccusation(e.id, l))
					}
				}
			case 3:
				if x := n.bad["apology_unsolicited"]; x != nil && !n.rec.once("apology", e.id) {
					var l []common.Address
					var ev []*big.Int
					for i, a := range w.addrs {
						if x.A&(1<<uint(i)) != 0 && e.member(a) {
							l = append(l, a)
							v := new(big.Int).SetBytes(append([]byte{1}, n.rng.Bytes(29)...))
							if x.B < 2 {
								if t := n.trueEval(e.id, e.index(a)); t != nil {
									v = t
								}
							}
							ev = append(ev, v)
						}
					}
					if len(l) > 0 {
						w.sendTM(n.key, shmsg.NewApology(e.id, l, ev))
					}
				}
			case 4:
				if x := n.bad["share_early"]; x != nil {
					if k := n.ekg(e.id); k != nil {
						if b, ok := w.batchAt(w.eth.Head.Num); ok && !n.rec.once("early", e.id<<32|(b+1)) {
							s := k.EpochKG.ComputeEpochSecretKeyShare(b + 1)
							w.sendTM(n.key, shmsg.NewEpochSecretKeyShare(e.id, b+1, s))
						}
					}
				}
			}
		}
	}
}

func (n *KNode) trueEval(eon uint64, idx int) *big.Int {
	if n.kpr == nil {
		return nil
	}
	for i := range n.kpr.State.DKGs {
		d := &n.kpr.State.DKGs[i]
		if d.Eon == eon && d.Pure != nil && d.Pure.Polynomial != nil {
			return d.Pure.Polynomial.EvalForKeyper(idx)
		}
	}
	return nil
}

// copySignatures sends the signatures of others as the keyper's own.
func (n *KNode) copySignatures(h int64) {
	var bs []uint64
	for b := range n.w.o.sigs {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i] < bs[j] })
	for _, b := range bs {
		for _, s := range n.w.o.sigs[b] {
			if s.sender != n.addr && !n.rec.once("sigcopy", b) {
				n.w.sendTM(n.key, shmsg.NewDecryptionSignature(b, s.sig))
				n.w.stats["byz_copied_signature"]++
			}
		}
	}
}

// byzEth lets the byzantine keypers act after a main chain block.
func (w *World) byzEth(b *ethsim.Block) {
	for _, n := range w.nodes {
		if !n.byz {
			continue
		}
		hs := w.eth.View(b, w.cc["executor"], "numExecutionHalfSteps")[0].(uint64)
		batch := hs / 2
		conf := w.confFor(batch)
		if conf == nil {
			continue
		}
		idx := -1
		for i, a := range conf.Keypers {
			if a == n.addr {
				idx = i
			}
		}
		if idx < 0 {
			continue
		}
		if x := n.bad["exec_now"]; x != nil && hs%2 == 0 && x.A>>(batch%5)&1 == 1 && b.Num+1 >= w.endBlock(batch) && n.rng.P(0.5) && !n.rec.once("exec", batch) {
			h := w.eth.View(b, w.cc["batcher"], "batchHashes", batch, uint8(0))[0].([32]byte)
			if h != ([32]byte{}) {
				c := w.cc["executor"]
				data, err := c.ABI.Pack("executeCipherBatch", batch, h, [][]byte{[]byte("garbage"), n.rng.Bytes(8)}, uint64(idx))
				if err != nil {
					panic(err)
				}
				tx := w.sendEth(n.key, &c.Addr, nil, data, 1_000_000)
				w.logf("%s executes batch %d with garbage %x", n, batch, tx.Hash().Bytes()[:4])
				w.stats["byz_garbage_execution"]++
			}
		}
		if x := n.bad["accuse_eth"]; x != nil && hs >= 2 && n.rng.P(0.3) {
			target := (hs - 1) / 2 * 2
			if tc := w.confFor(target / 2); tc != nil && !n.rec.once("slash", target) {
				for i, a := range tc.Keypers {
					if a == n.addr {
						c := w.cc["slasher"]
						data, err := c.ABI.Pack("accuse", target, uint64(i))
						if err != nil {
							panic(err)
						}
						tx := w.sendEth(n.key, &c.Addr, nil, data, 500_000)
						w.logf("%s accuses the executor of half step %d %x", n, target, tx.Hash().Bytes()[:4])
						w.stats["byz_slasher_accusation"]++
					}
				}
			}
		}
	}
}
