package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"

	"github.com/shutter-network/shutter/shuttermint/shmsg"
)

// The reference model: what the shuttermint chain must do with a sequence of blocks, written from
// the protocol's rules and sharing no code with the application.

type addr = common.Address

type pmsg struct {
	kind              string
	start, index, eon uint64
	threshold         uint64
	members           [][]byte
	contract          []byte
	started, valupd   bool
	data              [][]byte
	val, enc          []byte
}

func fromSpec(m Msg) pmsg {
	p := pmsg{kind: m.Kind, start: m.Start, index: m.Index, eon: m.Eon, threshold: m.Threshold,
		members: addrsBytes(m.Members), contract: addrBytes(m.Contract), started: m.Started, valupd: m.ValUpd,
		val: common.FromHex(m.Val), enc: common.FromHex(m.Enc)}
	switch m.Kind {
	case "commitment":
		p.data = datasBytes(m.Data, "g2")
	case "key_share":
		p.data = datasBytes(m.Data, "g1")
	default:
		p.data = datasBytes(m.Data, "")
	}
	return p
}

func fromProto(m *shmsg.Message) pmsg {
	switch x := m.GetPayload().(type) {
	case *shmsg.Message_BatchConfig:
		c := x.BatchConfig
		return pmsg{kind: "batch_config", start: c.StartBatchIndex, members: c.Keypers, threshold: c.Threshold,
			contract: c.ConfigContractAddress, index: c.ConfigIndex, started: c.Started, valupd: c.ValidatorsUpdated}
	case *shmsg.Message_BatchConfigStarted:
		return pmsg{kind: "config_started", index: x.BatchConfigStarted.BatchConfigIndex}
	case *shmsg.Message_CheckIn:
		return pmsg{kind: "check_in", val: x.CheckIn.ValidatorPublicKey, enc: x.CheckIn.EncryptionPublicKey}
	case *shmsg.Message_EonStartVote:
		return pmsg{kind: "eon_vote", start: x.EonStartVote.StartBatchIndex}
	case *shmsg.Message_DecryptionSignature:
		return pmsg{kind: "signature", index: x.DecryptionSignature.BatchIndex, data: [][]byte{x.DecryptionSignature.Signature}}
	case *shmsg.Message_PolyEval:
		return pmsg{kind: "poly_eval", eon: x.PolyEval.Eon, members: x.PolyEval.Receivers, data: x.PolyEval.EncryptedEvals}
	case *shmsg.Message_PolyCommitment:
		return pmsg{kind: "commitment", eon: x.PolyCommitment.Eon, data: x.PolyCommitment.Gammas}
	case *shmsg.Message_Accusation:
		return pmsg{kind: "accusation", eon: x.Accusation.Eon, members: x.Accusation.Accused}
	case *shmsg.Message_Apology:
		return pmsg{kind: "apology", eon: x.Apology.Eon, members: x.Apology.Accusers, data: x.Apology.PolyEvals}
	case *shmsg.Message_EpochSecretKeyShare:
		return pmsg{kind: "key_share", eon: x.EpochSecretKeyShare.Eon, index: x.EpochSecretKeyShare.Epoch, data: [][]byte{x.EpochSecretKeyShare.Share}}
	}
	return pmsg{kind: "empty"}
}

type mConfig struct {
	keypers         []addr
	start           uint64
	threshold       uint64
	index           uint64
	contract        addr
	started, valupd bool
}

func (c *mConfig) has(a addr) bool {
	for _, k := range c.keypers {
		if k == a {
			return true
		}
	}
	return false
}

func (c *mConfig) key() string {
	return fmt.Sprintf("%x|%d|%d|%d|%x|%v|%v", c.keypers, c.start, c.threshold, c.index, c.contract, c.started, c.valupd)
}

type mEon struct {
	keypers   []addr
	threshold uint64
	seen      map[string]bool
}

func (e *mEon) has(a addr) bool { return (&mConfig{keypers: e.keypers}).has(a) }

type mBatch struct {
	keypers []addr
	signed  map[addr]bool
}

type model struct {
	chain        string
	height       int64
	configs      []*mConfig
	votes        map[addr]string
	startedVotes map[addr]bool
	identities   map[addr]string
	eonCount     uint64
	eons         map[uint64]*mEon
	eonVotes     map[uint64]map[addr]uint64
	batches      map[uint64]*mBatch
	nonces       map[addr]map[uint64]bool
	power        map[string]int64

	// mempool admission, per node
	checkNonces map[addr]map[uint64]bool
	checkCount  map[addr]int

	// rare conditions reached
	probes map[string]int
}

var noValidator = func() string {
	k := [32]byte{'n', 'o', 'v', 'a', 'l', 'i', 'd', 'a', 't', 'o', 'r'}
	return string(k[:])
}()

func newModel(g *Genesis) *model {
	m := &model{
		chain: g.Chain,
		votes: map[addr]string{}, startedVotes: map[addr]bool{}, identities: map[addr]string{},
		eons: map[uint64]*mEon{}, eonVotes: map[uint64]map[addr]uint64{}, batches: map[uint64]*mBatch{},
		nonces: map[addr]map[uint64]bool{}, power: map[string]int64{}, probes: map[string]int{},
	}
	c := &mConfig{threshold: g.Threshold}
	for _, k := range g.Keypers {
		c.keypers = append(c.keypers, accounts[k].addr)
	}
	m.configs = []*mConfig{c}
	for _, v := range g.Validators {
		m.power[string(genesisVal(v))] += g.Power
	}
	m.resetCheck()
	return m
}

func (m *model) resetCheck() {
	m.checkNonces = map[addr]map[uint64]bool{}
	m.checkCount = map[addr]int{}
}

func (m *model) last() *mConfig { return m.configs[len(m.configs)-1] }

func (m *model) configFor(batch uint64) *mConfig {
	for i := len(m.configs) - 1; i > 0; i-- {
		if m.configs[i].start <= batch {
			return m.configs[i]
		}
	}
	return m.configs[0]
}

func (m *model) anyConfigHas(a addr) bool {
	for _, c := range m.configs {
		if c.has(a) {
			return true
		}
	}
	return false
}

// envelope returns the sender and content of a transaction, or ok=false.
func envelope(t Tx, raw []byte) (signer addr, chain string, nonce uint64, p pmsg, ok bool) {
	if t.Mangle == "" || t.Mangle == "malleate" {
		return accounts[t.From].addr, t.Chain, t.Nonce, fromSpec(t.Msg), true
	}
	d := decode(raw)
	if !d.ok {
		return
	}
	return d.signer, string(d.msg.ChainId), d.msg.RandomNonce, fromProto(d.msg.Msg), true
}

type verdict struct {
	ok     bool
	events []string
	cat    string // property the verdict belongs to
	why    string
	loose  bool // events are not decodable by design
}

func no(cat, why string) verdict { return verdict{cat: cat, why: why} }

func canonAddrs(as []addr) string {
	var s []string
	for _, a := range as {
		s = append(s, hex.EncodeToString(a[:]))
	}
	return strings.Join(s, ",")
}

func canonBytes(bs [][]byte) string {
	var s []string
	for _, b := range bs {
		s = append(s, hex.EncodeToString(b))
	}
	return strings.Join(s, ",")
}

func uniqueAddrs(bs [][]byte) ([]addr, bool) {
	var r []addr
	for _, b := range bs {
		if len(b) != 20 {
			return nil, false
		}
		a := common.BytesToAddress(b)
		for _, x := range r {
			if x == a {
				return nil, false
			}
		}
		r = append(r, a)
	}
	return r, true
}

// check is mempool admission at this node.
func (m *model) check(t Tx, raw []byte) (bool, string) {
	s, chain, nonce, _, ok := envelope(t, raw)
	switch {
	case !ok:
		return false, "undecodable"
	case chain != m.chain:
		return false, "wrong chain"
	case m.nonces[s][nonce]:
		return false, "already executed"
	case !m.anyConfigHas(s):
		return false, "not a keyper"
	case m.checkCount[s] >= 10:
		m.probes["mempool_limit"]++
		return false, "too many in this block"
	case m.checkNonces[s][nonce]:
		return false, "already in this mempool"
	}
	m.checkCount[s]++
	if m.checkNonces[s] == nil {
		m.checkNonces[s] = map[uint64]bool{}
	}
	m.checkNonces[s][nonce] = true
	return true, ""
}

// deliver executes a transaction.
func (m *model) deliver(t Tx, raw []byte) verdict {
	s, chain, nonce, p, ok := envelope(t, raw)
	if !ok {
		return no("A03", "undecodable")
	}
	if chain != m.chain {
		return no("A03", "wrong chain")
	}
	if m.nonces[s][nonce] {
		m.probes["replay_blocked"]++
		return no("A03", "nonce used")
	}
	if m.nonces[s] == nil {
		m.nonces[s] = map[uint64]bool{}
	}
	m.nonces[s][nonce] = true
	v := m.message(p, s)
	if _, known := accountOf[s]; !known && t.Mangle != "" {
		v.cat = "A03"
	}
	return v
}

func (m *model) startEon(c *mConfig) {
	m.eonCount++
	m.eons[m.eonCount] = &mEon{keypers: c.keypers, threshold: c.threshold, seen: map[string]bool{}}
}

func (m *model) message(p pmsg, s addr) verdict {
	switch p.kind {
	case "batch_config":
		return m.batchConfig(p, s)
	case "config_started":
		l := m.last()
		if p.index != l.index || len(m.configs) < 2 {
			return no("A04", "not the last config")
		}
		if !m.configs[len(m.configs)-2].has(s) {
			return no("A04", "not a keyper of the previous config")
		}
		if !l.started {
			m.startedVotes[s] = true
		}
		return verdict{ok: true, cat: "A04"}
	case "check_in":
		if _, ok := m.identities[s]; ok {
			m.probes["second_checkin"]++
			return no("A05", "already checked in")
		}
		if !m.anyConfigHas(s) {
			return no("A05", "not a keyper")
		}
		if len(p.val) != 32 {
			return no("A05", "bad validator key")
		}
		pk, err := crypto.DecompressPubkey(p.enc)
		if err != nil {
			return no("A05", "bad encryption key")
		}
		m.identities[s] = string(p.val)
		return verdict{ok: true, cat: "A05", events: []string{fmt.Sprintf("check-in %x %x", s, crypto.CompressPubkey(pk))}}
	case "eon_vote":
		c := m.configFor(p.start)
		if !c.has(s) {
			return no("A06", "not a keyper of the batch's config")
		}
		vs := m.eonVotes[c.index]
		if vs == nil {
			vs = map[addr]uint64{}
			m.eonVotes[c.index] = vs
		}
		vs[s] = p.start
		n := uint64(0)
		for _, x := range vs {
			if x == p.start {
				n++
			}
		}
		if n < c.threshold {
			return verdict{ok: true, cat: "A06"}
		}
		delete(m.eonVotes, c.index)
		m.startEon(c)
		m.probes["eon_restarted_by_vote"]++
		return verdict{ok: true, cat: "A06", events: []string{fmt.Sprintf("eon %d %d", m.eonCount, p.start)}}
	case "signature":
		b := m.batches[p.index]
		if b == nil {
			b = &mBatch{keypers: m.configFor(p.index).keypers, signed: map[addr]bool{}}
		}
		if !(&mConfig{keypers: b.keypers}).has(s) {
			return no("A07", "not a keyper of the batch")
		}
		if b.signed[s] {
			m.probes["second_signature"]++
			return no("A07", "already signed this batch")
		}
		m.batches[p.index] = b
		b.signed[s] = true
		return verdict{ok: true, cat: "A07", events: []string{fmt.Sprintf("signature %d %x %x", p.index, s, p.data[0])}}
	case "key_share":
		g := new(bn256.G1)
		if _, err := g.Unmarshal(p.data[0]); err != nil {
			return no("A07", "bad share")
		}
		return verdict{ok: true, cat: "A07", events: []string{fmt.Sprintf("key-share %x %d %d %x", s, p.eon, p.index, g.Marshal())}}
	case "poly_eval", "commitment", "accusation", "apology":
		return m.dkg(p, s)
	}
	return no("A03", "no message")
}

func (m *model) batchConfig(p pmsg, s addr) verdict {
	ks, ok := uniqueAddrs(p.members)
	if !ok || len(p.contract) != 20 {
		return no("A04", "malformed")
	}
	c := &mConfig{keypers: ks, start: p.start, threshold: p.threshold, index: p.index,
		contract: common.BytesToAddress(p.contract), started: p.started, valupd: p.valupd}
	l := m.last()
	if c.key() == l.key() {
		return verdict{ok: true, cat: "A04", why: "already accepted"}
	}
	switch {
	case len(ks) == 0, c.threshold == 0, c.threshold > uint64(len(ks)):
		return no("A04", "invalid config")
	case c.start < l.start, c.index <= l.index:
		return no("A04", "goes backwards")
	case !l.has(s):
		return no("A04", "not a keyper of the last config")
	}
	if _, ok := m.votes[s]; ok {
		m.probes["second_config_vote"]++
		return no("A04", "already voted")
	}
	m.votes[s] = c.key()
	n := uint64(0)
	for _, x := range m.votes {
		if x == c.key() {
			n++
		}
	}
	if n < l.threshold {
		return verdict{ok: true, cat: "A04"}
	}
	if len(m.votes) > int(n) {
		m.probes["contested_config"]++
	}
	m.votes = map[addr]string{}
	if len(m.startedVotes) > 0 {
		m.probes["start_votes_discarded"]++
	}
	m.startedVotes = map[addr]bool{} // votes to start a config are for that config only
	m.configs = append(m.configs, c)
	m.probes["config_accepted"]++
	v := verdict{ok: true, cat: "A04", events: []string{fmt.Sprintf("config %d %d %d %s", c.index, c.start, c.threshold, canonAddrs(ks))}}
	cur := m.eons[m.eonCount]
	if cur == nil || cur.threshold != c.threshold || canonAddrs(cur.keypers) != canonAddrs(ks) {
		m.startEon(c)
		v.events = append(v.events, fmt.Sprintf("eon %d %d", m.eonCount, c.start))
	} else {
		m.probes["config_same_keypers"]++
	}
	return v
}

func (m *model) dkg(p pmsg, s addr) verdict {
	var members []addr
	if p.kind != "commitment" {
		var ok bool
		members, ok = uniqueAddrs(p.members)
		if !ok {
			return no("A06", "malformed addresses")
		}
		if p.kind != "accusation" && len(p.members) != len(p.data) {
			return no("A06", "lengths differ")
		}
	}
	var gammas [][]byte
	if p.kind == "commitment" {
		for _, b := range p.data {
			g := new(bn256.G2)
			if _, err := g.Unmarshal(b); err != nil {
				return no("A06", "bad gamma")
			}
			gammas = append(gammas, g.Marshal())
		}
	}
	e := m.eons[p.eon]
	if e == nil {
		return no("A06", "no such eon")
	}
	if !e.has(s) {
		return no("A06", "sender not in eon")
	}
	for _, a := range members {
		if !e.has(a) || a == s {
			return no("A06", "bad peer")
		}
	}
	var keys []string
	if p.kind == "poly_eval" {
		for _, a := range members {
			keys = append(keys, fmt.Sprintf("poly_eval %x %x", s, a))
		}
	} else {
		keys = []string{fmt.Sprintf("%s %x", p.kind, s)}
	}
	for _, k := range keys {
		if e.seen[k] {
			m.probes["dkg_duplicate"]++
			return no("A06", "duplicate")
		}
	}
	for _, k := range keys {
		e.seen[k] = true
	}
	m.probes["dkg_accepted"]++
	v := verdict{ok: true, cat: "A06"}
	switch p.kind {
	case "poly_eval":
		v.events = []string{fmt.Sprintf("poly-eval %x %d %s %s", s, p.eon, canonAddrs(members), canonBytes(p.data))}
	case "commitment":
		v.events = []string{fmt.Sprintf("commitment %x %d %s", s, p.eon, canonBytes(gammas))}
		v.loose = len(gammas) == 0
	case "accusation":
		v.events = []string{fmt.Sprintf("accusation %x %d %s", s, p.eon, canonAddrs(members))}
	case "apology":
		var nums [][]byte
		for _, b := range p.data {
			nums = append(nums, new(big.Int).SetBytes(b).Bytes())
		}
		v.events = []string{fmt.Sprintf("apology %x %d %s %s", s, p.eon, canonAddrs(members), canonBytes(nums))}
	}
	return v
}

type valUpdate struct {
	key   string
	power int64
}

// endBlock returns the changes of the validator set.
func (m *model) endBlock(height int64) []valUpdate {
	m.height = height
	l := m.last()
	if len(m.configs) >= 2 && uint64(len(m.startedVotes)) >= m.configs[len(m.configs)-2].threshold {
		l.started = true
		m.startedVotes = map[addr]bool{}
		m.probes["config_started"]++
	}
	n := uint64(0)
	for _, k := range l.keypers {
		if _, ok := m.identities[k]; ok {
			n++
		}
	}
	if l.started && !l.valupd && n >= l.threshold {
		l.valupd = true
	}
	want := m.power
	for i := len(m.configs) - 1; i >= 0; i-- {
		c := m.configs[i]
		if c.started && c.valupd {
			want = map[string]int64{}
			for _, k := range c.keypers {
				if v, ok := m.identities[k]; ok {
					want[v] += 10
				} else {
					want[noValidator] += 10
					m.probes["absent_validator_power"]++
				}
			}
			break
		}
	}
	var up []valUpdate
	for k := range m.power {
		if _, ok := want[k]; !ok {
			up = append(up, valUpdate{k, 0})
		}
	}
	for k, p := range want {
		if m.power[k] != p {
			up = append(up, valUpdate{k, p})
		}
	}
	m.power = want
	sort.Slice(up, func(i, j int) bool { return bytes.Compare([]byte(up[i].key), []byte(up[j].key)) < 0 })
	if len(up) > 0 {
		m.probes["validators_changed"]++
	}
	return up
}
