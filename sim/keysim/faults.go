package main

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"time"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"

	"github.com/shutter-network/shutter/shlib/shcrypto"

	"verif/sim/ethsim"
	"verif/sim/simrt"
)

func later(a *time.Time, b time.Time) {
	if b.After(*a) {
		*a = b
	}
}

func (w *World) apply(e *Event) {
	d := time.Duration(e.Dur) * time.Millisecond
	until := w.now().Add(d)
	end := w.t0.Add(time.Duration(w.cfg.FaultEnd) * time.Millisecond)
	if until.After(end) {
		until, d = end, end.Sub(w.now())
	}
	w.logf("event %d %s node %d", e.ID, e.Kind, e.Node)
	if len(e.Kind) > 4 && e.Kind[:4] == "byz_" {
		w.nodes[e.Node].bad[e.Kind[4:]] = e
		w.stats["fault_byzantine_"+e.Kind[4:]]++
		return
	}
	switch e.Kind {
	case "user_cipher", "user_plain", "user_bad":
		w.userTx(e)
		return
	case "user_fill_plain", "user_fill_cipher":
		w.userFill(e)
		return
	case "user_skip":
		c := w.cc["executor"]
		data, err := c.ABI.Pack("skipEmptyOrTimedOutBatches", uint64(e.A))
		if err != nil {
			panic(err)
		}
		tx := w.sendEth(w.users[e.Node], &c.Addr, nil, data, 2_000_000)
		w.stats["user_skip"]++
		w.logf("user skips up to %d empty batches: %x", e.A, tx.Hash().Bytes()[:4])
		return
	case "config_change":
		w.changeConfig(e.A)
		return
	}
	if w.quiet {
		return
	}
	w.stats["fault_"+e.Kind]++
	if e.Node < 0 {
		for _, n := range w.nodes {
			n.faulted = true
		}
		switch e.Kind {
		case "eth_reorg":
			w.reorg(e)
		case "eth_stop":
			later(&w.ethStop, until)
		case "tm_stop":
			later(&w.tmStop, until)
		case "tm_delay":
			later(&w.tmDelayUntil, until)
			w.tmDelayMax = 2 * e.A
		case "eth_delay", "eth_congested":
			later(&w.ethDelayUntil, until)
			w.ethDelayMax = e.A
		case "tm_txlost":
			w.tmLose += e.A
		default:
			panic("unknown event " + e.Kind)
		}
		return
	}
	n := w.nodes[e.Node]
	n.faulted = true
	switch e.Kind {
	case "crash":
		if n.up {
			n.crash(e.A == 1, d)
		}
	case "stop":
		n.terminate(d)
	case "stop_rpc":
		n.rpcCrash, n.rpcAfter, n.rpcSends, n.rpcDown, n.rpcStop = e.A, e.B&1 != 0, e.B&2 != 0, d, true
	case "crash_disk":
		n.diskCrash, n.diskPower, n.diskDown, n.diskStop = e.A, e.B&1 != 0, d, false
		n.diskActs = e.B&2 != 0
	case "stop_disk":
		n.diskCrash, n.diskDown, n.diskStop = e.A, d, true
		n.diskActs = e.B&2 != 0
	case "crash_rpc":
		n.rpcCrash, n.rpcAfter, n.rpcSends, n.rpcDown, n.rpcStop = e.A, e.B&1 != 0, e.B&2 != 0, d, false
	case "eth_fail":
		later(&n.es.failUntil, until)
		n.es.failP = float64(e.A) * 0.25
	case "tm_fail":
		later(&n.ts.failUntil, until)
		n.ts.failP = float64(e.A) * 0.25
	case "eth_reject":
		later(&n.es.rejectUntil, until)
	case "tm_reject":
		later(&n.ts.rejectUntil, until)
	case "eth_down":
		n.downSvc(true, d)
	case "tm_down":
		n.downSvc(false, d)
	case "eth_break":
		n.eth.Lst.Break()
	case "tm_break":
		n.tm.Lst.Break()
	case "eth_stall":
		later(&n.es.stallUntil, until)
	case "tm_stall":
		later(&n.ts.stallUntil, until)
	case "eth_slow":
		later(&n.es.slowUntil, until)
		n.es.slowMs = e.A * 400
	case "tm_slow":
		later(&n.ts.slowUntil, until)
		n.ts.slowMs = e.A * 600
	case "eth_lag":
		later(&n.es.lagUntil, until)
		n.es.lag = e.A
	case "tm_lag":
		later(&n.ts.lagUntil, until)
		n.ts.lag = e.A * 2
	case "eth_freeze":
		later(&n.es.freezeUntil, until)
	case "tm_freeze":
		later(&n.ts.freezeUntil, until)
	case "tm_boundary":
		// the node stands still around the ends of DKG phases
		n.boundary = e
	case "eth_mute":
		if n.eth.Mute() == 0 {
			w.stats["eth_mute_without_subscriber"]++
		}
	case "tm_mute":
		if n.tm.Mute() == 0 {
			w.stats["tm_mute_without_subscriber"]++
		}
	case "eth_lose":
		n.es.lose += e.A
	case "tm_lose":
		n.ts.lose += e.A
	case "eth_syncing":
		n.eth.Syncing = true
		w.at(d, func() { n.eth.Syncing = false })
	case "tm_catchup":
		n.tm.CatchingUp = true
		w.at(d, func() { n.tm.CatchingUp = false })
	case "eth_regress":
		// the RPC endpoint is switched to a node that is some blocks behind
		if h := n.eth.Head; h != nil && h.Num > uint64(e.A) && (uint64(e.A) <= w.cfg.Follow || n.et.idle(w.now())) {
			n.eth.SetHead(ethsim.Ancestor(h, h.Num-uint64(e.A)))
			later(&n.es.lagUntil, until)
			n.es.lag = e.A
		}
	case "tm_regress":
		// the RPC endpoint is switched to a node that is some blocks behind; not in the middle of a
		// request, which the keyper cannot tell from a node that lies
		h := n.tm.H - int64(2*e.A)
		if !n.tt.idle(w.now()) || h < 1 {
			w.stats["tm_regress_dropped"]++
			break
		}
		n.tm.Rewind(h)
		later(&n.ts.lagUntil, until)
		n.ts.lag = 2 * e.A
	case "partition":
		n.downSvc(true, d)
		n.downSvc(false, d)
	default:
		panic("unknown event " + e.Kind)
	}
}

// phaseBoundary freezes nodes shortly before a DKG phase ends.
func (w *World) phaseBoundary(h int64) {
	if w.quiet {
		return
	}
	for _, n := range w.nodes {
		if n.boundary == nil {
			continue
		}
		for _, e := range w.o.eons {
			for k := int64(1); k <= 3; k++ {
				r := simrt.NewRng(n.boundary.S).Fork(fmt.Sprint(e.id, k))
				if r.P(0.7) && h == e.start+k*int64(w.cfg.Phase)-1-int64(r.Intn(3)) {
					later(&n.ts.freezeUntil, w.now().Add(time.Duration(n.boundary.Dur)*time.Millisecond))
					w.stats["fault_tm_boundary_freeze"]++
				}
			}
		}
	}
}

func (n *KNode) downSvc(eth bool, d time.Duration) {
	l := n.tm.Lst
	if eth {
		l = n.eth.Lst
	}
	l.Down = true
	l.Break()
	until := n.w.now().Add(d)
	s := &n.ts
	if eth {
		s = &n.es
	}
	later(&s.downUntil, until)
	n.w.at(d, func() {
		if !n.w.now().Before(s.downUntil) {
			l.Down = false
		}
	})
}

func (w *World) reorg(e *Event) {
	if w.cfg.Follow == 0 {
		return
	}
	depth := 1 + int(e.S%w.cfg.Follow)
	r := simrt.NewRng(e.S)
	w.eth.Reorg(depth, w.ethTime(), func(tx *types.Transaction) (bool, int) {
		if tx.To() != nil && *tx.To() == w.cfgAddr {
			return true, 0 // scheduled configs stay where they are
		}
		if r.P(0.3) && !w.isKeyper(w.eth.Sender(tx)) {
			return false, 0 // a user's transaction may be replaced; a keyper's is only delayed
		}
		return true, r.Intn(3)
	})
	w.logf("reorg of depth %d", depth)
	w.refreshConfs()
	w.newEthHead()
}

func (w *World) isKeyper(a common.Address) bool { return w.byAddr[a] != nil }

// beginQuiet ends all faults.
func (w *World) beginQuiet() {
	w.logf("quiet")
	w.quiet = true
	w.tmDelayUntil, w.ethDelayUntil, w.tmStop, w.ethStop = time.Time{}, time.Time{}, time.Time{}, time.Time{}
	w.tmLose = 0
	for _, n := range w.nodes {
		n.es, n.ts = svc{}, svc{}
		n.eth.Lst.Down, n.tm.Lst.Down = false, false
		n.eth.Syncing, n.tm.CatchingUp = false, false
		n.rpcCrash, n.diskCrash = 0, 0
		n.boundary = nil
	}
	w.o.quietAt(w.tm.Height())
}

func (w *World) changeConfig(i int) {
	c := w.cfg.Changes[i]
	prev := w.sched[len(w.sched)-1]
	for after := c.After; ; after++ {
		sb := prev.block + prev.Span*after
		if sb >= w.eth.Head.Num+maxu(headsUp, prev.Span)+4 {
			w.logf("config %d from batch %d", len(w.sched)+1, prev.batch+after)
			w.scheduleConfig(sb, prev.batch+after, c)
			w.stats["config_changes"]++
			return
		}
	}
}

func maxu(a, b uint64) uint64 {
	if a > b {
		return a
	}
	return b
}

func epochBytes(b uint64) []byte {
	var x [8]byte
	binary.BigEndian.PutUint64(x[:], b)
	return x[:]
}

func (w *World) userTx(e *Event) {
	r := simrt.NewRng(e.S)
	batch, ok := w.batchAt(w.eth.Head.Num + 1)
	if !ok {
		return
	}
	if e.B == 1 && r.P(0.5) {
		batch++ // batches open one span before they become current
	}
	var data []byte
	typ := uint8(0) // cipher
	switch e.Kind {
	case "user_plain":
		typ, data = 1, append([]byte("plain"), r.Bytes(1+r.Intn(40))...)
	case "user_cipher":
		pk := w.o.userKey(batch)
		if pk == nil {
			pk = new(shcrypto.EonPublicKey)
			_ = pk.Unmarshal(shcrypto.ComputeEonPublicKey([]*shcrypto.Gammas{randomPoly(r, 1).Gammas()}).Marshal())
			w.stats["user_cipher_nokey"]++
		} else {
			w.stats["user_cipher_keyed"]++
		}
		var sigma shcrypto.Block
		copy(sigma[:], r.Bytes(32))
		msg := append([]byte("secret"), r.Bytes(1+r.Intn(60))...)
		data = shcrypto.Encrypt(msg, pk, shcrypto.ComputeEpochID(epochBytes(batch)), sigma).Marshal()
	case "user_bad":
		switch e.A {
		case 0:
			data = r.Bytes(1 + r.Intn(200))
		case 1: // truncated ciphertext
			var sigma shcrypto.Block
			copy(sigma[:], r.Bytes(32))
			pk := shcrypto.ComputeEonPublicKey([]*shcrypto.Gammas{randomPoly(r, 1).Gammas()})
			m := shcrypto.Encrypt(r.Bytes(40), pk, shcrypto.ComputeEpochID(epochBytes(batch)), sigma).Marshal()
			data = m[:len(m)-1-r.Intn(40)]
		default: // the key of another epoch
			pk := w.o.userKey(batch)
			if pk == nil {
				data = r.Bytes(97)
				break
			}
			var sigma shcrypto.Block
			copy(sigma[:], r.Bytes(32))
			data = shcrypto.Encrypt(r.Bytes(40), pk, shcrypto.ComputeEpochID(epochBytes(batch+1)), sigma).Marshal()
		}
	}
	w.stats[e.Kind]++
	c := w.cc["batcher"]
	call, err := c.ABI.Pack("addTransaction", batch, typ, data)
	if err != nil {
		panic(err)
	}
	tx := w.sendEth(w.users[e.Node], &c.Addr, nil, call, 2_000_000)
	w.logf("user adds %s transaction to batch %d: %x", e.Kind, batch, tx.Hash().Bytes()[:4])
}

// userFill adds as many transactions of the maximum size as asked for.
func (w *World) userFill(e *Event) {
	r := simrt.NewRng(e.S)
	batch, ok := w.batchAt(w.eth.Head.Num + 1)
	if !ok {
		return
	}
	lim := limits[w.sched[len(w.sched)-1].Limits]
	for i := range w.sched {
		if w.sched[i].batch > batch {
			lim = limits[w.sched[i-1].Limits]
			break
		}
	}
	size := int(lim[1])
	c := w.cc["batcher"]
	pk := w.o.userKey(batch)
	room := int(lim[0])
	if room > 100_000 {
		room = 100_000 // what fits into the blocks
	}
	k := 0
	for ; k < e.A && room >= size; k++ {
		typ, data := uint8(1), r.Bytes(size)
		if e.Kind == "user_fill_cipher" {
			if pk == nil {
				return
			}
			typ = 0
			var sigma shcrypto.Block
			copy(sigma[:], r.Bytes(32))
			data = shcrypto.Encrypt(r.Bytes(size/32*32-260), pk, shcrypto.ComputeEpochID(epochBytes(batch)), sigma).Marshal()
		}
		room -= len(data)
		call, err := c.ABI.Pack("addTransaction", batch, typ, data)
		if err != nil {
			panic(err)
		}
		w.sendEth(w.users[e.Node], &c.Addr, nil, call, 130_000+uint64(len(data))*30)
	}
	w.stats[e.Kind] += k
	w.logf("user fills batch %d with %d transactions of type %s", batch, k, e.Kind)
}

func randomPoly(r *simrt.Rng, degree uint64) *shcrypto.Polynomial {
	var cs []*big.Int
	for i := uint64(0); i <= degree; i++ {
		cs = append(cs, new(big.Int).SetBytes(r.Bytes(31)))
	}
	p, err := shcrypto.NewPolynomial(cs)
	if err != nil {
		panic(err)
	}
	return p
}
