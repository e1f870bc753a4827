package main

import (
	"bytes"
	"encoding/binary"
	"encoding/gob"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"sort"

	blst "github.com/supranational/blst/bindings/go"
	"golang.org/x/crypto/sha3"

	"github.com/shutter-network/shutter/shlib/shcrypto"
)

// Threshold decryption: users encrypt for epochs, keypers publish key shares, everybody collects
// shares, derives the epoch keys and decrypts. Everything travels as bytes over a network that
// loses, repeats, delays and damages messages.

// ---- reference implementation, using nothing of the code under test ----

func refKeccak(ds ...[]byte) []byte {
	h := sha3.NewLegacyKeccak256()
	for _, d := range ds {
		h.Write(d)
	}
	return h.Sum(nil)
}

func refEpochID(epoch []byte) *blst.P1Affine {
	return blst.HashToG1(append([]byte{1}, epoch...), []byte("SHUTTER_V01_BLS12381G1_XMD:SHA-256_SSWU_RO_")).ToAffine()
}

func refEncrypt(message []byte, msk *big.Int, epoch []byte, sigma []byte) []byte {
	r := new(big.Int).SetBytes(refKeccak([]byte{3}, sigma, message))
	r.Mod(r, order)
	// e(pk, id)^r = e(g2, r*msk*id)
	p := blst.Fp12MillerLoop(blst.P2Generator().ToAffine(), g1mul(refEpochID(epoch), new(big.Int).Mul(r, msk)))
	p.FinalExp()
	k := refKeccak([]byte{2}, p.ToBendian())
	out := append([]byte{3}, g2exp(r).Compress()...)
	for i := range k {
		out = append(out, k[i]^sigma[i])
	}
	pad := 32 - len(message)%32
	padded := append(append([]byte{}, message...), bytes.Repeat([]byte{byte(pad)}, pad)...)
	for i := 0; i*32 < len(padded); i++ {
		n := []byte{0}
		if i > 0 {
			n = new(big.Int).SetInt64(int64(i)).Bytes()
		}
		bk := refKeccak([]byte{4}, sigma, n)
		for j := range bk {
			out = append(out, bk[j]^padded[32*i+j])
		}
	}
	return out
}

func refShuffle(txs [][]byte, key []byte) [][]byte {
	out := append([][]byte{}, txs...)
	r := rand.New(rand.NewSource(int64(binary.LittleEndian.Uint64(refKeccak(key)[:8]))))
	r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

func refG1(b []byte) *blst.P1Affine {
	p := new(blst.P1Affine).Uncompress(b)
	if p == nil || !p.InG1() {
		return nil
	}
	return p
}

func refG2(b []byte) *blst.P2Affine {
	p := new(blst.P2Affine).Uncompress(b)
	if p == nil || !p.InG2() {
		return nil
	}
	return p
}

// ---- world ----

type packet struct {
	id   uint64
	kind string // pk, share, cipher, key
	from int
	to   int
	ep   int
	m    int
	b    []byte
	bad  string // how it was damaged
}

type heldShare struct {
	Sender int
	Share  *shcrypto.EpochSecretKeyShare
}

// nodeState is what a node keeps on disk.
type nodeState struct {
	PK       *shcrypto.EonPublicKey
	PKShares []*shcrypto.EonPublicKeyShare
	SK       *shcrypto.EonSecretKeyShare
	Shares   map[int][]heldShare
	Keys     map[int]*shcrypto.EpochSecretKey
	Ciphers  map[int][]gotCipher
	Sent     map[int]bool
}

type gotCipher struct {
	M   int
	B   []byte
	Bad string
}

type decNode struct {
	id    int
	st    nodeState
	saved []byte
	until int
	down  bool
	byz   bool
}

type plain struct {
	ep    int
	text  []byte
	sigma shcrypto.Block
	wire  []byte
}

type decWorld struct {
	*run
	rng    *Rng
	msk    *big.Int
	coefs  []*big.Int
	shares []*big.Int
	nodes  []*decNode
	epochs [][]byte
	plains []*plain
	net    map[int][]*packet
	seq    uint64
	evs    map[string][]Event
	gammas []*shcrypto.Gammas
}

func genDecryption(seed uint64) Trace {
	r := NewRng(seed)
	c := Cfg{N: r.Range(1, 6), Epochs: r.Range(1, 3), Msgs: r.Range(1, 5), L: 8}
	if c.N < 3 && r.P(0.7) || c.N > 4 && r.P(0.6) {
		c.N = r.Range(3, 4)
	}
	c.T = r.Range(1, c.N)
	for _, i := range r.Perm(c.N)[:r.Intn(c.N-c.T+1)] {
		c.Byz = append(c.Byz, i)
	}
	sort.Ints(c.Byz)
	t := Trace{Prop: "S02", Seed: seed, Cfg: c}
	add := func(e Event) {
		e.ID = len(t.Events) + 1
		e.Seed = r.Uint64()
		t.Events = append(t.Events, e)
	}
	for _, b := range c.Byz {
		for i := r.Range(1, 6); i > 0; i-- {
			add(Event{Kind: "badshare", Node: b, At: r.Range(1, 12), A: r.Intn(c.Epochs), B: r.Intn(c.N), C: r.Intn(12)})
		}
		for i := r.Intn(3); i > 0; i-- {
			add(Event{Kind: "badkey", Node: b, At: r.Range(1, 14), A: r.Intn(c.Epochs), B: r.Intn(c.N), C: r.Intn(10)})
		}
		if r.P(0.4) {
			add(Event{Kind: "silent", Node: b})
		}
	}
	kinds := []string{"pk", "share", "cipher", "key"}
	for i := r.Intn(8); i > 0; i-- {
		add(Event{Kind: []string{"lose", "repeat", "delay"}[r.Intn(3)], A: r.Intn(len(kinds)), Node: r.Intn(c.N), B: r.Range(-1, c.N-1), C: r.Range(1, 10)})
	}
	for i := r.Range(1, 10); i > 0; i-- {
		k := r.Intn(len(kinds))
		if r.P(0.5) {
			k = 2
		}
		// a damaged copy arrives in addition, before or after the original
		add(Event{Kind: "damage", A: k, Node: r.Intn(c.N), B: r.Intn(c.N), C: r.Intn(20), At: r.Range(1, 12)})
	}
	for i := r.Intn(4); i > 0; i-- {
		add(Event{Kind: "crash", Node: r.Intn(c.N), At: r.Range(2, 16), A: r.Intn(2), C: r.Intn(6)})
	}
	if r.P(0.3) {
		add(Event{Kind: "entropy", Node: r.Intn(c.N), A: r.Intn(40), B: r.Intn(3)})
	}
	return t
}

func runDecryption(r *run) {
	c := r.t.Cfg
	w := &decWorld{run: r, rng: NewRng(Mix(r.t.Seed, 7)), net: map[int][]*packet{}, evs: map[string][]Event{}}
	for _, e := range r.t.Events {
		w.evs[e.Kind] = append(w.evs[e.Kind], e)
	}
	w.setup()
	w.encrypt()
	for tick := 1; tick <= 20; tick++ {
		r.ticks++
		w.tick(tick)
	}
	// the network recovers: everything is sent once more and arrives
	w.evs["lose"], w.evs["delay"] = nil, nil
	for _, n := range w.nodes {
		n.until = 0
		w.wake(n)
	}
	r.ticks++
	for _, n := range w.nodes {
		if !n.byz {
			for ep := range w.epochs {
				w.publish(n, ep, r.ticks+1)
			}
		}
		for m := range w.plains {
			w.transmit(&packet{kind: "cipher", from: m % c.N, to: n.id, ep: w.plains[m].ep, m: m, b: w.plains[m].wire}, r.ticks+1)
		}
	}
	for i := 0; i < 12; i++ {
		r.ticks++
		w.tick(r.ticks)
	}
	w.judge()
}

// setup deals a key with real polynomials; some dealers are disqualified.
func (w *decWorld) setup() {
	c := w.t.Cfg
	r := NewRng(Mix(w.t.Seed, 1))
	for i := 0; i < c.T; i++ {
		w.coefs = append(w.coefs, new(big.Int))
	}
	evals := make([][]*big.Int, c.N)
	dealers := c.N
	for d := 0; d < dealers; d++ {
		if c.N > 1 && d != int(w.t.Seed%uint64(c.N)) && r.P(0.25) {
			w.gammas = append(w.gammas, shcrypto.ZeroGammas(shcrypto.DegreeFromThreshold(uint64(c.T))))
			for i := range evals {
				evals[i] = append(evals[i], new(big.Int))
			}
			continue
		}
		var coeffs []*big.Int
		for i := 0; i < c.T; i++ {
			x := randScalar(r)
			coeffs = append(coeffs, x)
			w.coefs[i].Add(w.coefs[i], x)
			w.coefs[i].Mod(w.coefs[i], order)
		}
		p, err := shcrypto.NewPolynomial(coeffs)
		if err != nil {
			w.fail("polynomial", "dealer %d: %v", d, err)
		}
		w.gammas = append(w.gammas, p.Gammas())
		for i := range evals {
			e := p.EvalForKeyper(i)
			if !shcrypto.VerifyPolyEval(i, e, w.gammas[d], uint64(c.T)) {
				w.fail("polynomial", "the evaluation of dealer %d for %d does not verify", d, i)
			}
			evals[i] = append(evals[i], e)
		}
	}
	w.msk = w.coefs[0]
	pk := shcrypto.ComputeEonPublicKey(w.gammas)
	if !pk.Equal((*shcrypto.EonPublicKey)(g2exp(w.msk))) {
		w.fail("wrong-public-key", "the eon public key is not the sum of the dealers' commitments")
	}
	isByz := map[int]bool{}
	for _, b := range c.Byz {
		isByz[b] = true
	}
	for i := 0; i < c.N; i++ {
		n := &decNode{id: i, byz: isByz[i], st: nodeState{Shares: map[int][]heldShare{}, Keys: map[int]*shcrypto.EpochSecretKey{},
			Ciphers: map[int][]gotCipher{}, Sent: map[int]bool{}}}
		sk := shcrypto.ComputeEonSecretKeyShare(evals[i])
		w.shares = append(w.shares, polyAt(w.coefs, int64(i)+1))
		if (*big.Int)(sk).Cmp(w.shares[i]) != 0 {
			w.fail("wrong-secret-share", "the secret share of %d is not the sum of the evaluations for it", i)
		}
		n.st.SK = sk
		n.st.PK = pk
		for j := 0; j < c.N; j++ {
			s := shcrypto.ComputeEonPublicKeyShare(j, w.gammas)
			if i == 0 && !s.Equal((*shcrypto.EonPublicKeyShare)(g2exp(polyAt(w.coefs, int64(j)+1)))) {
				w.fail("wrong-public-key", "wrong public key share of %d", j)
			}
			n.st.PKShares = append(n.st.PKShares, s)
		}
		w.nodes = append(w.nodes, n)
		w.save(n)
	}
	for e := 0; e < c.Epochs; e++ {
		b := make([]byte, 8)
		binary.BigEndian.PutUint64(b, r.Uint64()>>uint(r.Intn(64)))
		if r.P(0.2) {
			b = r.Bytes(r.Intn(50))
		}
		for _, o := range w.epochs {
			if bytes.Equal(o, b) {
				b = append(b, byte(e), 0xff)
			}
		}
		w.epochs = append(w.epochs, b)
	}
}

var lengths = []int{0, 1, 31, 32, 33, 63, 64, 65, 95, 96, 300}

// encrypt lets the users encrypt, each from a buffer that holds other data as well.
func (w *decWorld) encrypt() {
	c := w.t.Cfg
	for m := 0; m < c.Msgs; m++ {
		r := NewRng(Mix(w.t.Seed, 2, uint64(m)))
		p := &plain{ep: r.Intn(c.Epochs)}
		l := lengths[r.Intn(len(lengths))]
		if r.P(0.03) {
			l = 8192 + r.Intn(70)
			w.stats["probe_long_message"]++
		}
		p.text = r.Bytes(l)
		if l > 0 && r.P(0.2) {
			for i := range p.text {
				p.text[i] = byte(r.Range(0, 33)) // looks like padding
			}
		}
		ent := &entropy{r: r.Fork("sigma"), failAfter: -1}
		for _, e := range w.evs["entropy"] {
			if e.Node == m%c.N {
				w.stats["fault_entropy"]++
				if e.B == 0 {
					ent.failAfter = e.A
				} else {
					ent.short = 1 + e.A
				}
			}
		}
		var err error
		p.sigma, err = shcrypto.RandomSigma(ent)
		if err != nil {
			if ent.failAfter < 0 && ent.short == 0 {
				w.fail("no-sigma", "RandomSigma: %v", err)
			}
			p.sigma, err = shcrypto.RandomSigma(&entropy{r: r.Fork("again"), failAfter: -1})
			if err != nil {
				w.fail("no-sigma", "RandomSigma: %v", err)
			}
		}
		if p.sigma == (shcrypto.Block{}) || bytes.HasSuffix(p.sigma[:], make([]byte, 8)) {
			w.fail("no-sigma", "RandomSigma returned %x", p.sigma)
		}
		for _, q := range w.plains {
			if q.sigma == p.sigma {
				w.fail("no-sigma", "two messages are encrypted with the same sigma")
			}
		}
		// the user's key has travelled as bytes
		pk := new(shcrypto.EonPublicKey)
		if r.P(0.5) {
			w.must(pk.Unmarshal(w.nodes[0].st.PK.Marshal()))
		} else {
			b, err := json.Marshal(w.nodes[0].st.PK)
			w.must(err)
			w.must(json.Unmarshal(b, pk))
		}
		buf := append(append(r.Bytes(3), p.text...), r.Bytes(70)...)
		before := append([]byte{}, buf...)
		id := shcrypto.ComputeEpochID(w.epochs[p.ep])
		ct := shcrypto.Encrypt(buf[3:3+l], pk, id, p.sigma)
		if !bytes.Equal(buf, before) {
			w.fail("input-modified", "encrypting %d bytes changed the caller's buffer behind them", l)
		}
		p.wire = ct.Marshal()
		if ref := refEncrypt(p.text, w.msk, w.epochs[p.ep], p.sigma[:]); !bytes.Equal(ref, p.wire) {
			w.fail("wrong-ciphertext", "the ciphertext of a message of %d bytes is not the scheme's", l)
		}
		if !(*blst.P1Affine)(id).Equals(refEpochID(w.epochs[p.ep])) {
			w.fail("wrong-epoch-id", "encrypting changed the epoch id")
		}
		w.plains = append(w.plains, p)
		w.note("message %d for epoch %d, %d bytes", m, p.ep, l)
		w.stats["encrypted"]++
	}
	for m, p := range w.plains {
		for _, n := range w.nodes {
			w.transmit(&packet{kind: "cipher", from: m % c.N, to: n.id, ep: p.ep, m: m, b: p.wire}, 1+w.hash("c", m, n.id)%6)
		}
	}
	for _, n := range w.nodes {
		w.transmit(&packet{kind: "pk", from: (n.id + 1) % c.N, to: n.id, b: n.st.PK.Marshal()}, 1)
	}
}

func (w *decWorld) hash(s string, xs ...int) int {
	h := HashString(s)
	for _, x := range xs {
		h = Mix(h, uint64(x))
	}
	return int(Mix(h, w.t.Seed) >> 33)
}

func (w *decWorld) must(err error) {
	if err != nil {
		w.fail("round-trip", "a valid value does not survive encoding and decoding: %v", err)
	}
}

var packetKinds = []string{"pk", "share", "cipher", "key"}

// transmit puts a packet on the network.
func (w *decWorld) transmit(p *packet, at int) {
	match := func(e Event) bool { return packetKinds[e.A] == p.kind && e.Node == p.to && (e.B < 0 || e.B == p.from) }
	if p.bad == "" {
		for _, e := range w.evs["lose"] {
			if match(e) {
				w.stats["fault_lost"]++
				return
			}
		}
		for _, e := range w.evs["delay"] {
			if match(e) {
				at += e.C
				w.stats["fault_delayed"]++
			}
		}
		for _, e := range w.evs["repeat"] {
			if match(e) {
				w.put(p, at+e.C/2)
				w.stats["fault_repeated"]++
			}
		}
		for _, e := range w.evs["damage"] {
			if match(e) && at <= 20 {
				q := *p
				q.b, q.bad = w.damage(e, p)
				w.put(&q, at+e.C%3)
				w.stats["fault_damaged_"+p.kind]++
			}
		}
	}
	w.put(p, at)
}

func (w *decWorld) put(p *packet, at int) {
	w.seq++
	q := *p
	q.id = w.seq
	w.net[at] = append(w.net[at], &q)
}

// offSubgroup finds a point that is on the curve, but outside the group.
func offSubgroup(r *Rng, size int) []byte {
	for {
		b := r.Bytes(size)
		b[0] = b[0]&0x1f | 0x80
		b[0] &= 0x8f
		if size == 48 {
			if p := new(blst.P1Affine).Uncompress(b); p != nil && !p.InG1() {
				return b
			}
		} else if p := new(blst.P2Affine).Uncompress(b); p != nil && !p.InG2() {
			return b
		}
	}
}

// damagePoint damages a compressed point.
func damagePoint(r *Rng, b []byte, mode int) []byte {
	b = append([]byte{}, b...)
	switch mode % 9 {
	case 0:
		b[r.Intn(len(b))] ^= 1 << r.Intn(8)
	case 1:
		b = b[:r.Intn(len(b))]
	case 2:
		b = append(b, r.Bytes(1+r.Intn(100))...)
	case 3:
		b = r.Bytes(len(b))
	case 4:
		b = append([]byte{0xc0}, make([]byte, len(b)-1)...) // infinity
	case 5:
		b = append([]byte{0xc0}, make([]byte, len(b)-1)...)
		b[r.Range(0, len(b)-1)] ^= 1 << r.Intn(8)
	case 6:
		b = offSubgroup(r, len(b))
	case 7:
		b = bytes.Repeat([]byte{0xff}, len(b))
		b[0] = 0x9f // beyond the field's prime
	case 8:
		b[0] &^= 0x80
	}
	return b
}

func (w *decWorld) damage(e Event, p *packet) ([]byte, string) {
	r := NewRng(Mix(e.Seed, uint64(p.ep), uint64(p.m)))
	if p.kind != "cipher" {
		return damagePoint(r, p.b, e.C), fmt.Sprintf("point damage %d", e.C%9)
	}
	b := append([]byte{}, p.b...)
	blocks := (len(b) - 129) / 32
	other := w.plains[r.Intn(len(w.plains))].wire
	switch e.C % 14 {
	case 0:
		b[r.Intn(len(b))] ^= 1 << r.Intn(8)
	case 1: // in the last block
		b[len(b)-1-r.Intn(32)] ^= byte(1 + r.Intn(255))
	case 2: // the sigma
		b[97+r.Intn(32)] ^= byte(1 + r.Intn(255))
	case 3: // the point
		copy(b[1:97], damagePoint(r, b[1:97], r.Range(3, 8)))
	case 4:
		copy(b[1:97], other[1:97])
	case 5:
		copy(b[97:129], other[97:129])
	case 6: // fewer blocks
		b = b[:129+32*r.Intn(blocks)]
	case 7: // one block more
		b = append(b, r.Bytes(32)...)
	case 8: // odd length
		b = append(b, r.Bytes(r.Range(1, 31))...)
	case 9:
		b = b[:r.Intn(len(b))]
	case 10:
		b[0] = byte(r.Intn(256))
	case 11: // blocks exchanged
		if blocks > 1 {
			i := 129 + 32*r.Intn(blocks-1)
			t := append([]byte{}, b[i:i+32]...)
			copy(b[i:], b[i+32:i+64])
			copy(b[i+32:], t)
		} else {
			b = append(b, b[129:161]...)
		}
	case 12:
		b = append(b[:129], other[129:]...)
	case 13: // the sign of the point
		b[1] ^= 0x20
	}
	return b, fmt.Sprintf("damage %d", e.C%14)
}

func (w *decWorld) save(n *decNode) {
	b := new(bytes.Buffer)
	if err := gob.NewEncoder(b).Encode(&n.st); err != nil {
		w.fail("not-storable", "node %d: %v", n.id, err)
	}
	n.saved = b.Bytes()
}

func (w *decWorld) wake(n *decNode) {
	if !n.down {
		return
	}
	n.down = false
	old := n.st
	n.st = nodeState{}
	if err := gob.NewDecoder(bytes.NewReader(n.saved)).Decode(&n.st); err != nil {
		w.fail("not-storable", "node %d: the stored state cannot be read: %v", n.id, err)
	}
	for _, m := range []*map[int]bool{&n.st.Sent} {
		if *m == nil {
			*m = map[int]bool{}
		}
	}
	if n.st.Shares == nil {
		n.st.Shares = map[int][]heldShare{}
	}
	if n.st.Keys == nil {
		n.st.Keys = map[int]*shcrypto.EpochSecretKey{}
	}
	if n.st.Ciphers == nil {
		n.st.Ciphers = map[int][]gotCipher{}
	}
	if !n.st.PK.Equal(old.PK) || !n.st.SK.Equal(old.SK) {
		w.fail("not-storable", "node %d has other keys after a restart", n.id)
	}
	w.stats["restarts"]++
	w.note("node %d restarts", n.id)
}

func (w *decWorld) tick(now int) {
	for _, e := range w.evs["crash"] {
		if e.At == now {
			n := w.nodes[e.Node]
			n.down = true
			n.until = now + e.C
			w.stats["fault_crash"]++
			w.note("node %d crashes", n.id)
		}
	}
	for _, i := range w.rng.Perm(len(w.nodes)) {
		n := w.nodes[i]
		if now < n.until {
			continue
		}
		w.wake(n)
		for ep := range w.epochs {
			if !n.st.Sent[ep] && now >= 3+ep*2 {
				n.st.Sent[ep] = true
				w.save(n)
				if !n.byz || len(w.silent(n)) == 0 {
					w.publish(n, ep, now+1)
				}
			}
		}
		w.misbehave(n, now)
	}
	ps := w.net[now]
	delete(w.net, now)
	sort.Slice(ps, func(i, j int) bool { return Mix(w.t.Seed, ps[i].id) < Mix(w.t.Seed, ps[j].id) })
	for _, p := range ps {
		n := w.nodes[p.to]
		if now < n.until {
			w.net[n.until] = append(w.net[n.until], p)
			continue
		}
		w.receive(n, p, now)
		if w.hash("save", int(p.id))%3 != 0 {
			w.save(n)
		}
	}
}

func (w *decWorld) silent(n *decNode) []Event {
	var r []Event
	for _, e := range w.evs["silent"] {
		if e.Node == n.id {
			r = append(r, e)
		}
	}
	return r
}

// publish computes and broadcasts a key share.
func (w *decWorld) publish(n *decNode, ep, at int) {
	s := w.share(n, ep)
	for _, o := range w.nodes {
		w.transmit(&packet{kind: "share", from: n.id, to: o.id, ep: ep, b: s.Marshal()}, at+w.hash("s", n.id, o.id, ep)%4)
	}
	w.stats["shares_sent"]++
}

func (w *decWorld) share(n *decNode, ep int) *shcrypto.EpochSecretKeyShare {
	id := new(shcrypto.EpochID)
	w.must(id.Unmarshal(shcrypto.ComputeEpochID(w.epochs[ep]).Marshal()))
	if !(*blst.P1Affine)(id).Equals(refEpochID(w.epochs[ep])) {
		w.fail("wrong-epoch-id", "epoch id of %x", w.epochs[ep])
	}
	s := shcrypto.ComputeEpochSecretKeyShare(n.st.SK, id)
	if !(*blst.P1Affine)(s).Equals(w.refShare(n.id, ep)) {
		w.fail("wrong-share", "node %d, epoch %d: the key share is not the node's secret times the epoch id", n.id, ep)
	}
	return s
}

func (w *decWorld) refShare(i, ep int) *blst.P1Affine {
	return g1mul(refEpochID(w.epochs[ep]), w.shares[i])
}

func (w *decWorld) refKey(ep int) *blst.P1Affine { return g1mul(refEpochID(w.epochs[ep]), w.msk) }

// misbehave sends wrong shares and keys.
func (w *decWorld) misbehave(n *decNode, now int) {
	c := w.t.Cfg
	for _, e := range w.evs["badshare"] {
		if e.Node != n.id || e.At != now {
			continue
		}
		r := NewRng(e.Seed)
		good := w.refShare(n.id, e.A)
		b := good.Compress()
		switch e.C {
		case 0:
			b = w.refShare(e.B, e.A).Compress()
		case 1:
			b = w.refShare(n.id, r.Intn(c.Epochs)).Compress()
		case 2:
			b = g1mul(good, new(big.Int).Sub(order, big.NewInt(1))).Compress()
		case 3:
			b = g1mul(good, randScalar(r)).Compress()
		case 4:
			b = blst.P1Generator().ToAffine().Compress()
		case 5:
			b = w.refKey(e.A).Compress()
		default:
			b = damagePoint(r, b, r.Intn(9))
		}
		w.stats["fault_bad_share"]++
		w.transmit(&packet{kind: "share", from: n.id, to: e.B, ep: e.A, b: b, bad: fmt.Sprintf("share %d", e.C)}, now+1)
	}
	for _, e := range w.evs["badkey"] {
		if e.Node != n.id || e.At != now {
			continue
		}
		r := NewRng(e.Seed)
		good := w.refKey(e.A)
		b := good.Compress()
		switch e.C {
		case 0:
			b = w.refKey(r.Intn(c.Epochs)).Compress()
		case 1:
			b = w.refShare(n.id, e.A).Compress()
		case 2:
			b = g1mul(good, new(big.Int).Sub(order, big.NewInt(1))).Compress()
		case 3:
			b = g1mul(good, randScalar(r)).Compress()
		case 4: // right for another eon's key
			b = g1mul(refEpochID(w.epochs[e.A]), new(big.Int).Add(w.msk, big.NewInt(1))).Compress()
		default:
			b = damagePoint(r, b, r.Intn(9))
		}
		w.stats["fault_bad_key"]++
		w.transmit(&packet{kind: "key", from: n.id, to: e.B, ep: e.A, b: b, bad: fmt.Sprintf("key %d", e.C)}, now+1)
	}
}

func (w *decWorld) receive(n *decNode, p *packet, now int) {
	w.note("%d: %s %d -> %d epoch %d message %d %s %x", now, p.kind, p.from, p.to, p.ep, p.m, p.bad, HashString(string(p.b)))
	wire := append([]byte{}, p.b...)
	defer func() {
		if !bytes.Equal(wire, p.b) {
			w.fail("input-modified", "decoding changed the received bytes")
		}
	}()
	decoded := func(what string, err error, ok bool) bool {
		if (err == nil) != ok {
			w.fail("decoding", "node %d: decoding %d bytes as %s (%s): error %v, the bytes are valid: %v", n.id, len(p.b), what, p.bad, err, ok)
		}
		if err != nil {
			w.stats["undecodable_"+p.kind]++
		}
		return err == nil
	}
	switch p.kind {
	case "pk":
		ref := refG2(p.b)
		pk := new(shcrypto.EonPublicKey)
		if decoded("eon public key", pk.Unmarshal(p.b), ref != nil) && !(*blst.P2Affine)(pk).Equals(ref) {
			w.fail("decoding", "eon public key decoded to another point")
		}
		ps := new(shcrypto.EonPublicKeyShare)
		if decoded("eon public key share", ps.Unmarshal(p.b), ref != nil) && !(*blst.P2Affine)(ps).Equals(ref) {
			w.fail("decoding", "eon public key share decoded to another point")
		}
		g := new(shcrypto.Gammas)
		if decoded("stored commitment", g.GobDecode(p.b), w.refGammas(p.b)) && len(*g) != len(p.b)/96 {
			w.fail("decoding", "%d bytes are a commitment of %d points", len(p.b), len(*g))
		}
	case "share":
		ref := refG1(p.b)
		s := new(shcrypto.EpochSecretKeyShare)
		if !decoded("epoch secret key share", s.Unmarshal(p.b), ref != nil) {
			return
		}
		id := shcrypto.ComputeEpochID(w.epochs[p.ep])
		ok := shcrypto.VerifyEpochSecretKeyShare(s, n.st.PKShares[p.from], id)
		want := ref.Equals(w.refShare(p.from, p.ep))
		if ok != want {
			w.fail("share-verification", "node %d: verifying the share of %d for epoch %d (%s) says %v, it is %v", n.id, p.from, p.ep, p.bad, ok, want)
		}
		if !ok {
			w.stats["shares_rejected"]++
			return
		}
		w.stats["shares_accepted"]++
		if n.st.Keys[p.ep] != nil {
			return
		}
		for _, h := range n.st.Shares[p.ep] {
			if h.Sender == p.from {
				return
			}
		}
		n.st.Shares[p.ep] = append(n.st.Shares[p.ep], heldShare{p.from, s})
		if len(n.st.Shares[p.ep]) == w.t.Cfg.T {
			w.derive(n, p.ep, now)
		}
	case "key":
		ref := refG1(p.b)
		k := new(shcrypto.EpochSecretKey)
		if !decoded("epoch secret key", k.Unmarshal(p.b), ref != nil) {
			return
		}
		if want := ref.Equals(w.refKey(p.ep)); w.verify(n, k, p.ep) != want {
			w.fail("key-verification", "node %d: verifying a key for epoch %d (%s) says %v", n.id, p.ep, p.bad, !want)
		}
	case "cipher":
		m := new(shcrypto.EncryptedMessage)
		valid := len(p.b) >= 129 && (len(p.b)-129)%32 == 0 && p.b[0] == 3 && refG2(p.b[1:97]) != nil
		if decoded("encrypted message", m.Unmarshal(p.b), valid) && !bytes.Equal(m.Marshal(), p.b) {
			w.fail("decoding", "an encrypted message is encoded differently than it was received")
		}
		n.st.Ciphers[p.ep] = append(n.st.Ciphers[p.ep], gotCipher{p.m, append([]byte{}, p.b...), p.bad})
		if n.st.Keys[p.ep] != nil {
			w.decrypt(n, p.ep)
		}
	}
}

func (w *decWorld) refGammas(b []byte) bool {
	if len(b)%96 != 0 {
		return false
	}
	for ; len(b) > 0; b = b[96:] {
		if refG2(b[:96]) == nil {
			return false
		}
	}
	return true
}

// verify checks a key the way light nodes do, sometimes with a failing random source.
func (w *decWorld) verify(n *decNode, k *shcrypto.EpochSecretKey, ep int) bool {
	ent := &entropy{r: NewRng(Mix(w.t.Seed, 3, uint64(n.id), uint64(ep))), failAfter: -1}
	for _, e := range w.evs["entropy"] {
		if e.Node == n.id {
			if e.B == 0 {
				ent.failAfter = e.A
			} else if e.B == 1 {
				ent.failAfter = 32 + e.A
			} else {
				ent.short = 1 + e.A
			}
			w.stats["fault_entropy"]++
		}
	}
	var ok bool
	var err error
	withEntropy(ent, func() { ok, err = shcrypto.VerifyEpochSecretKey(k, n.st.PK, w.epochs[ep]) })
	if err != nil {
		if ok {
			w.fail("key-verification", "a key is declared valid together with the error %v", err)
		}
		if ent.failAfter < 0 && ent.short == 0 {
			w.fail("key-verification", "verifying a key fails: %v", err)
		}
		withEntropy(&entropy{r: NewRng(Mix(w.t.Seed, 4)), failAfter: -1}, func() { ok, err = shcrypto.VerifyEpochSecretKey(k, n.st.PK, w.epochs[ep]) })
		if err != nil {
			w.fail("key-verification", "verifying a key fails: %v", err)
		}
	}
	w.stats["keys_verified"]++
	return ok
}

// derive computes the epoch key from the shares a node holds.
func (w *decWorld) derive(n *decNode, ep, now int) {
	c := w.t.Cfg
	held := n.st.Shares[ep]
	var idx []int
	var ss []*shcrypto.EpochSecretKeyShare
	var before [][]byte
	for _, h := range held {
		idx = append(idx, h.Sender)
		ss = append(ss, h.Share)
		before = append(before, h.Share.Marshal())
	}
	k, err := shcrypto.ComputeEpochSecretKey(idx, ss, uint64(c.T))
	if err != nil {
		w.fail("no-key", "node %d: no key for epoch %d from the valid shares of %v: %v", n.id, ep, idx, err)
	}
	if !(*blst.P1Affine)(k).Equals(w.refKey(ep)) {
		w.fail("wrong-key", "node %d: wrong key for epoch %d from the valid shares of %v", n.id, ep, idx)
	}
	for i, s := range ss {
		if !bytes.Equal(s.Marshal(), before[i]) || idx[i] != held[i].Sender {
			w.fail("input-modified", "deriving the key changed the shares")
		}
	}
	if len(ss) > 1 {
		if _, err := shcrypto.ComputeEpochSecretKey(idx[1:], ss[1:], uint64(c.T)); err == nil {
			w.fail("too-few-shares", "a key from %d shares, the threshold is %d", len(ss)-1, c.T)
		}
	}
	if !w.verify(n, k, ep) {
		w.fail("key-verification", "node %d: the right key for epoch %d does not verify", n.id, ep)
	}
	n.st.Keys[ep] = k
	delete(n.st.Shares, ep)
	w.stats["keys_derived"]++
	w.rich = true
	for _, o := range w.nodes {
		w.transmit(&packet{kind: "key", from: n.id, to: o.id, ep: ep, b: k.Marshal()}, now+1)
	}
	w.decrypt(n, ep)
}

// decrypt opens everything received for the epoch.
func (w *decWorld) decrypt(n *decNode, ep int) {
	for _, g := range n.st.Ciphers[ep] {
		p := w.plains[g.M]
		m := new(shcrypto.EncryptedMessage)
		if m.Unmarshal(g.B) != nil {
			if g.Bad == "" {
				w.fail("round-trip", "node %d: an undamaged message cannot be decoded", n.id)
			}
			continue
		}
		text, err := m.Decrypt(n.st.Keys[ep])
		same := bytes.Equal(g.B, p.wire)
		switch {
		case same && err != nil:
			w.fail("not-decrypted", "node %d: a message of %d bytes for epoch %d cannot be decrypted: %v", n.id, len(p.text), ep, err)
		case same && !bytes.Equal(text, p.text):
			w.fail("wrong-plaintext", "node %d: a message of %d bytes for epoch %d decrypts to %d other bytes", n.id, len(p.text), ep, len(text))
		case !same && err == nil && !w.isCopy(g.B, text) && !(len(g.B) == 129 && len(text) == 0 && len(p.text) == 0):
			// (leaving out the only block, all padding, of an empty message changes nothing)
			w.fail("damage-undetected", "node %d: a damaged message (%s) decrypts to %d bytes without an error", n.id, g.Bad, len(text))
		case err != nil && len(text) != 0:
			w.fail("damage-undetected", "node %d: a damaged message (%s) yields plaintext besides the error", n.id, g.Bad)
		}
		if !bytes.Equal(m.Marshal(), g.B) {
			w.fail("input-modified", "decrypting changed the message")
		}
		if same {
			w.stats["decrypted"]++
		} else {
			w.stats["damage_detected"]++
		}
	}
	n.st.Ciphers[ep] = nil
}

// isCopy says whether a damaged message happens to be another user's message.
func (w *decWorld) isCopy(b, text []byte) bool {
	for _, p := range w.plains {
		if bytes.Equal(p.wire, b) && bytes.Equal(p.text, text) {
			return true
		}
	}
	return false
}

// judge checks, once the network works again, that every node has every key, and what the nodes do
// with them.
func (w *decWorld) judge() {
	c := w.t.Cfg
	for ep := range w.epochs {
		var txs [][]byte
		r := NewRng(Mix(w.t.Seed, 6, uint64(ep)))
		for i := 0; i < r.Range(0, 30); i++ {
			txs = append(txs, append([]byte{byte(i)}, r.Bytes(3)...))
		}
		for _, n := range w.nodes {
			k := n.st.Keys[ep]
			if k == nil {
				w.fail("no-key", "node %d has no key for epoch %d, although all %d correct keypers' shares arrived (threshold %d)", n.id, ep, c.N-len(c.Byz), c.T)
			}
			if !(*blst.P1Affine)(k).Equals(w.refKey(ep)) {
				w.fail("wrong-key", "node %d has a wrong key for epoch %d", n.id, ep)
			}
			orig := append([][]byte{}, txs...)
			got := shcrypto.Shuffle(txs, k)
			want := refShuffle(orig, w.refKey(ep).Compress())
			for i := range orig {
				if &orig[i][0] != &txs[i][0] {
					w.fail("input-modified", "shuffling changed the caller's list")
				}
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				w.fail("wrong-order", "node %d: %d transactions of epoch %d are in another order", n.id, len(txs), ep)
			}
			// the other epochs' messages stay closed
			for m, p := range w.plains {
				if p.ep == ep {
					continue
				}
				em := new(shcrypto.EncryptedMessage)
				w.must(em.Unmarshal(p.wire))
				if text, err := em.Decrypt(k); err == nil {
					w.fail("wrong-epoch", "node %d: message %d for epoch %d decrypts with the key of epoch %d to %d bytes", n.id, m, p.ep, ep, len(text))
				}
			}
			var viaJSON shcrypto.EpochSecretKey
			b, err := json.Marshal(k)
			w.must(err)
			w.must(json.Unmarshal(b, &viaJSON))
			if !viaJSON.Equal(k) {
				w.fail("round-trip", "the key of epoch %d changes when sent as JSON", ep)
			}
		}
	}
	for m, p := range w.plains {
		var em shcrypto.EncryptedMessage
		orig := new(shcrypto.EncryptedMessage)
		w.must(orig.Unmarshal(p.wire))
		b, err := json.Marshal(orig)
		w.must(err)
		w.must(json.Unmarshal(b, &em))
		if !bytes.Equal(em.Marshal(), p.wire) {
			w.fail("round-trip", "message %d changes when sent as JSON", m)
		}
	}
	b, err := json.Marshal(w.gammas)
	w.must(err)
	var gs []*shcrypto.Gammas
	w.must(json.Unmarshal(b, &gs))
	for i := range gs {
		if !gs[i].Equal(*w.gammas[i]) {
			w.fail("round-trip", "commitment %d changes when sent as JSON", i)
		}
	}
}
