package main

import (
	"context"
	"crypto/ecdsa"
	"crypto/ed25519"
	"encoding/base64"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"time"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto/ecies"
	tmtypes "github.com/tendermint/tendermint/types"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shuttermint/keyper"
	"github.com/shutter-network/shutter/shuttermint/shmsg"

	"verif/sim/ethsim"
	"verif/sim/simnet"
	"verif/sim/simrt"
	"verif/sim/tmsim"
)

// svc is the fault state of one of the two RPC services of a node.
type svc struct {
	failUntil, slowUntil, stallUntil, rejectUntil, downUntil, freezeUntil, flagUntil time.Time
	failP                                                                            float64
	slowMs                                                                           int
	lag                                                                              int
	lagUntil                                                                         time.Time
	lose                                                                             int
}

// traffic is what is going on between a keyper and one of its nodes.
type traffic struct {
	inflight int
	last     time.Time // when the last request was answered
}

func (t *traffic) idle(now time.Time) bool {
	return t.inflight == 0 && now.Sub(t.last) > 400*time.Millisecond
}

// KNode is one keyper with its two chain nodes.
type KNode struct {
	w        *World
	ID       int
	key      *ecdsa.PrivateKey
	addr     common.Address
	enc      *ecies.PrivateKey
	val      ed25519.PrivateKey
	byz      bool
	bad      map[string]*Event // byzantine behaviours
	rng      *simrt.Rng
	eth      *ethsim.Node
	tm       *tmsim.Node
	es       svc
	ts       svc
	et       traffic
	tt       traffic
	polys    map[uint64]*shcrypto.Polynomial // dealt in place of the right ones
	late     []lateTx                        // held back until a phase ends
	boundary *Event                          // frozen around the ends of phases
	inc      int
	up       bool
	proc     *simnet.Proc
	disk     *simrt.NodeDisk
	files    map[string][]byte
	kpr      *keyper.Keyper

	downUntil time.Time
	rpcCrash  int // crash at the n-th RPC from now (0: never)
	rpcAfter  bool
	rpcSends  bool // only those that send something count
	rpcDown   time.Duration
	rpcStop   bool // the counted RPC brings a request to stop, not a crash
	cancel    context.CancelFunc
	stopping  bool
	diskCrash int
	diskPower bool
	diskActs  bool // only operations on the file of the pending actions count
	diskStop  bool // told to stop, not crashed
	diskDown  time.Duration
	regressed bool
	faulted   bool
	maxEth    uint64 // highest main chain head this node has ever been shown
	rec       record
}

func (n *KNode) String() string { return fmt.Sprintf("keyper%d", n.ID) }

func (n *KNode) setup() {
	n.bad = map[string]*Event{}
	n.eth = ethsim.NewNode(n.w.eth, n.ID, fmt.Sprintf("eth.k%d:8546", n.ID))
	n.eth.Gate = func(_ *ethsim.Node, m string) error { return n.gate(&n.es, "eth_"+m) }
	n.eth.After = func(_ *ethsim.Node, m string) error { return n.after(&n.es, "eth_"+m) }
	n.eth.OnSend = n.onSend
	n.tm = tmsim.NewNode(n.w.tm, n.ID, fmt.Sprintf("tm.k%d:26657", n.ID))
	n.tm.Gate = func(_ *tmsim.Node, m string) error { return n.gate(&n.ts, "tm_"+m) }
	n.tm.After = func(_ *tmsim.Node, m string) error { return n.after(&n.ts, "tm_"+m) }
	n.tm.Mangle = n.onBroadcast
	n.rec.init()
}

var errInjected = errors.New("injected fault: service unavailable")

func isSend(m string) bool { return strings.Contains(m, "send") || strings.Contains(m, "broadcast") }

func (n *KNode) gate(s *svc, m string) error {
	now := n.w.now()
	d := time.Duration(n.rng.Range(1, 20)) * time.Millisecond
	if now.Before(s.slowUntil) {
		n.w.stats["fault_slow_rpc"]++
		d += time.Duration(n.rng.Intn(s.slowMs+1)) * time.Millisecond
	}
	if now.Before(s.stallUntil) {
		n.w.stats["fault_stalled_rpc"]++
		d += s.stallUntil.Sub(now)
	}
	t := &n.tt
	if s == &n.es {
		t = &n.et
	}
	t.inflight++
	time.Sleep(d)
	t.inflight--
	t.last = n.w.now()
	if n.rpcCrash > 0 && !n.rpcAfter && n.up && (!n.rpcSends || isSend(m)) {
		n.rpcCrash--
		if n.rpcCrash == 0 {
			if n.rpcStop {
				n.terminate(n.rpcDown)
				return nil
			}
			n.w.stats["fault_crash_before_rpc"]++
			n.crash(false, n.rpcDown)
			return errInjected
		}
	}
	if n.w.now().Before(s.failUntil) && n.rng.P(s.failP) {
		n.w.stats["fault_rpc_error"]++
		return errInjected
	}
	if n.w.now().Before(s.rejectUntil) && isSend(m) {
		n.w.stats["fault_send_rejected"]++
		return errors.New("injected fault: pool is full")
	}
	return nil
}

func (n *KNode) after(s *svc, m string) error {
	if n.rpcCrash > 0 && n.rpcAfter && n.up && (!n.rpcSends || isSend(m)) {
		n.rpcCrash--
		if n.rpcCrash == 0 {
			if n.rpcStop {
				n.terminate(n.rpcDown)
				return nil
			}
			n.w.stats["fault_crash_after_rpc"]++
			n.crash(false, n.rpcDown)
			return errInjected
		}
	}
	if s.lose > 0 && isSend(m) {
		s.lose--
		n.w.stats["fault_lost_response"]++
		return errors.New("injected fault: response lost")
	}
	return nil
}

func (n *KNode) advanceTM() {
	h := n.w.tm.Height()
	now := n.w.now()
	if now.Before(n.ts.freezeUntil) {
		return
	}
	if now.Before(n.ts.lagUntil) {
		h -= int64(n.ts.lag)
	}
	if h > n.tm.H {
		n.tm.SetHeight(h)
		n.w.at(time.Duration(n.rng.Intn(150))*time.Millisecond, func() { n.tm.Idx = n.tm.H })
	}
}

func (n *KNode) advanceEth() {
	b := n.w.eth.Head
	now := n.w.now()
	if now.Before(n.es.freezeUntil) {
		return
	}
	if now.Before(n.es.lagUntil) {
		if uint64(n.es.lag) > b.Num {
			return
		}
		b = ethsim.Ancestor(b, b.Num-uint64(n.es.lag))
	}
	if b.Num > n.maxEth {
		n.maxEth = b.Num
	}
	n.eth.SetHead(b)
}

// --- process -----------------------------------------------------------------------------------

func (n *KNode) start() {
	w := n.w
	if n.up || w.stop {
		return
	}
	if d := n.downUntil.Sub(w.now()); d > 0 {
		w.at(d, n.start)
		return
	}
	n.inc++
	n.up = true
	tag := uintptr((n.ID+1)*1000 + n.inc)
	proc := simnet.NewProc(n.ID, n.inc)
	n.proc = proc
	w.procs[tag] = proc
	dir := filepath.Join(w.dir, fmt.Sprintf("n%d.%d", n.ID, n.inc))
	disk := simrt.NewDisk(dir, n.rng.Fork("disk"))
	disk.Restore(n.files)
	n.disk = disk
	disk.OnCrash = func() {
		if proc == n.proc && n.up {
			n.crash(n.diskPower, n.diskDown)
		}
		simnet.Park()
	}
	disk.Plan = func(c, op int, path string) simrt.DiskAction {
		if n.diskCrash > 0 && (!n.diskActs || strings.Contains(path, "actions")) {
			n.diskCrash--
			if n.diskCrash == 0 {
				if n.diskStop {
					n.terminate(n.diskDown)
					return simrt.DiskOK
				}
				return simrt.DiskCrash
			}
		}
		return simrt.DiskOK
	}
	w.logf("%s starts (incarnation %d)", n, n.inc)
	if n.inc > 1 {
		w.stats["restart"]++
	}
	cfg := w.keyperConfig(n)
	ctx, cancel := context.WithCancel(context.Background())
	n.cancel, n.stopping = cancel, false
	go func() {
		runtime.SimSetTag(tag)
		kpr := keyper.NewKeyper(cfg)
		n.kpr = &kpr
		disk.OnRenamed = func(p string) {
			if strings.HasSuffix(p, "state.gob") && proc == n.proc && n.up {
				w.o.onStateSaved(n)
			}
		}
		if err := kpr.LoadState(); err != nil {
			w.violate("load-state-failed", []string{"K05", "K10"}, "%s cannot load its state after a crash: %v", n, err)
			n.exited(proc, "LoadState: "+err.Error())
			simnet.Park()
		}
		w.o.onLoaded(n)
		err := kpr.Run(ctx)
		n.exited(proc, fmt.Sprint(err))
		simnet.Park()
	}()
}

// exited handles a keyper process that ended by itself; its supervisor restarts it.
func (n *KNode) exited(proc *simnet.Proc, why string) {
	if proc != n.proc || !n.up {
		return
	}
	n.w.logf("%s exits: %s", n, why)
	if n.stopping {
		n.crash(false, n.rpcDown)
		return
	}
	n.w.stats["process_exits"]++
	n.w.o.onExit(n, why)
	n.crash(false, 3*time.Second)
}

// terminate asks the process to stop, as SIGTERM does: cmd/keyper.go cancels the context.
func (n *KNode) terminate(down time.Duration) {
	if !n.up || n.stopping {
		return
	}
	w := n.w
	w.stats["fault_terminated"]++
	w.logf("%s is told to stop", n)
	n.stopping, n.rpcDown = true, down
	n.cancel()
	proc := n.proc
	w.at(60*time.Second, func() {
		if n.up && n.proc == proc {
			w.violate("does-not-stop", []string{"K10"}, "%s was told to stop a minute ago and is still running", n)
			n.crash(false, down)
		}
	})
}

// crash kills the process; only what its disk holds survives.
func (n *KNode) crash(power bool, down time.Duration) {
	if !n.up {
		return
	}
	w := n.w
	n.up = false
	n.rpcCrash, n.diskCrash = 0, 0
	n.disk.Frozen = true
	n.files = n.disk.Snapshot(power)
	for k, v := range n.disk.Stats {
		w.stats["fault_disk_"+k] += v
	}
	n.disk.Stats = map[string]int{}
	w.logf("%s crashes (power loss %v)", n, power)
	w.o.onCrash(n)
	n.proc.Kill()
	old := n.disk.Dir
	simrt.Raw(func() { os.RemoveAll(old) })
	n.downUntil = w.now().Add(down)
	w.at(down, n.start)
}

// panicked is called from the runtime with an unrecovered panic of any goroutine.
func (w *World) panicked(v interface{}) {
	p := w.procs[runtime.SimTag()]
	if p == nil {
		return // the simulator's own panic: let it die
	}
	n := w.nodes[p.Node]
	st := stack()
	if p == n.proc && n.up {
		w.stats["keyper_panics"]++
		if !n.byz {
			w.violate("keyper-panic", []string{"K10"}, "%s panics: %v at %s", n, v, st)
		} else {
			w.logf("%s (byzantine) panics: %v at %s", n, v, st)
		}
		n.crash(false, 3*time.Second)
	}
	simnet.Park()
}

func (w *World) exit(code int) {
	p := w.procs[runtime.SimTag()]
	if p == nil {
		return
	}
	n := w.nodes[p.Node]
	st := stack()
	if p == n.proc && n.up {
		w.stats["keyper_exits"]++
		if !n.byz {
			w.violate("keyper-exit", []string{"K10"}, "%s calls os.Exit(%d) at %s", n, code, st)
		}
		n.crash(false, 3*time.Second)
	}
	simnet.Park()
}

// --- what a keyper sends -----------------------------------------------------------------------

func signTM(k *ecdsa.PrivateKey, msg *shmsg.Message, nonce uint64) tmtypes.Tx {
	b, err := shmsg.SignMessage(&shmsg.MessageWithNonce{Msg: msg, ChainId: []byte(chainID), RandomNonce: nonce}, k)
	if err != nil {
		panic(err)
	}
	return tmtypes.Tx(base64.RawURLEncoding.EncodeToString(b))
}

type parsedTM struct {
	s  common.Address
	m  *shmsg.MessageWithNonce
	ok bool
}

var parsedTMs = map[string]parsedTM{}

func parseTM(tx []byte) (common.Address, *shmsg.MessageWithNonce, bool) {
	p, ok := parsedTMs[string(tx)]
	if !ok {
		p.s, p.m, p.ok = parseTM1(tx)
		parsedTMs[string(tx)] = p
	}
	return p.s, p.m, p.ok
}

func parseTM1(tx []byte) (common.Address, *shmsg.MessageWithNonce, bool) {
	b, err := base64.RawURLEncoding.DecodeString(string(tx))
	if err != nil || len(b) < 65 {
		return common.Address{}, nil, false
	}
	s, err := shmsg.GetSigner(b)
	if err != nil {
		return common.Address{}, nil, false
	}
	m, err := shmsg.GetMessage(b)
	if err != nil || m.Msg == nil {
		return common.Address{}, nil, false
	}
	return s, m, true
}

func (n *KNode) onBroadcast(tx tmtypes.Tx) []tmtypes.Tx {
	if !n.up {
		return nil
	}
	s, m, ok := parseTM(tx)
	if !ok || s != n.addr || string(m.ChainId) != chainID {
		if !n.byz {
			n.w.violate("malformed-message", []string{"K05"}, "%s broadcasts a transaction that is not a message signed by it for this chain", n)
		}
		return []tmtypes.Tx{tx}
	}
	n.w.logf("%s broadcasts %s", n, describe(m.Msg))
	n.w.o.onMessage(n, m)
	if n.byz {
		return n.mangleTM(tx, m)
	}
	return []tmtypes.Tx{tx}
}

func (n *KNode) onSend(tx *types.Transaction) *types.Transaction {
	if !n.up {
		return nil
	}
	n.w.logf("%s sends eth tx %x nonce %d to %x", n, tx.Hash().Bytes()[:4], tx.Nonce(), tx.To().Bytes()[:4])
	n.w.o.onEthTx(n, tx)
	if n.byz {
		return n.mangleEth(tx)
	}
	return tx
}

func describe(m *shmsg.Message) string {
	s := m.String()
	if len(s) > 160 {
		s = s[:160]
	}
	return s
}
