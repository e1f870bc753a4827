// Package ethsim is the main chain of the simulation: real EVM execution of the real contract
// bytecode over a block tree the simulator controls, with per-node views of it.
package ethsim

import (
	"errors"
	"fmt"
	"math/big"
	"strings"

	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/consensus"
	"github.com/ethereum/go-ethereum/core"
	"github.com/ethereum/go-ethereum/core/rawdb"
	"github.com/ethereum/go-ethereum/core/state"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/core/vm"
	"github.com/ethereum/go-ethereum/params"
)

// GasLimit is the block gas limit.
const GasLimit = uint64(30_000_000)

// ChainID of the main chain.
var ChainID = big.NewInt(1337)

// GasPrice is what eth_gasPrice answers.
var GasPrice = big.NewInt(1_000_000_000)

// Block is one block of the tree.
type Block struct {
	Header   *types.Header
	Hash     common.Hash
	Num      uint64
	Txs      []*types.Transaction
	Receipts []*types.Receipt
	Parent   *Block
}

type poolTx struct {
	tx    *types.Transaction
	from  common.Address
	delay int // blocks to wait before a miner looks at it
}

// Chain is the tree and the transaction pool.
type Chain struct {
	cfg    *params.ChainConfig
	sdb    state.Database
	signer types.Signer
	Head   *Block
	pool   []*poolTx
	known  map[common.Hash]*types.Transaction
	salt   byte
	// Delay decides how many blocks a new transaction waits.
	Delay func(tx *types.Transaction) int
	Stats map[string]int
}

type noChain struct{}

func (noChain) Engine() consensus.Engine                    { return nil }
func (noChain) GetHeader(common.Hash, uint64) *types.Header { return nil }

// New creates a chain whose genesis funds the given accounts and contains the given code.
func New(funds []common.Address, code map[common.Address][]byte, time uint64) *Chain {
	cfg := &params.ChainConfig{
		ChainID: ChainID, HomesteadBlock: new(big.Int), EIP150Block: new(big.Int), EIP155Block: new(big.Int), EIP158Block: new(big.Int),
		ByzantiumBlock: new(big.Int), ConstantinopleBlock: new(big.Int), PetersburgBlock: new(big.Int), IstanbulBlock: new(big.Int),
		MuirGlacierBlock: new(big.Int), BerlinBlock: new(big.Int),
	}
	c := &Chain{cfg: cfg, sdb: state.NewDatabase(rawdb.NewMemoryDatabase()), signer: types.LatestSigner(cfg), known: map[common.Hash]*types.Transaction{}, Stats: map[string]int{}}
	st, err := state.New(common.Hash{}, c.sdb, nil)
	if err != nil {
		panic(err)
	}
	for _, a := range funds {
		st.AddBalance(a, new(big.Int).Mul(big.NewInt(1_000_000), big.NewInt(params.Ether)))
	}
	for a, b := range code {
		st.SetCode(a, b)
		st.SetNonce(a, 1)
	}
	c.Head = c.seal(nil, st, time, nil, nil, 0)
	return c
}

func (c *Chain) seal(parent *Block, st *state.StateDB, time uint64, txs []*types.Transaction, rcs []*types.Receipt, gasUsed uint64) *Block {
	root, err := st.Commit(true)
	if err != nil {
		panic(err)
	}
	c.sdb.TrieDB().Reference(root, common.Hash{})
	c.salt++
	h := &types.Header{
		Root: root, Time: time, GasLimit: GasLimit, GasUsed: gasUsed, Difficulty: big.NewInt(1), Number: new(big.Int), Extra: []byte{c.salt},
		UncleHash: types.EmptyUncleHash, TxHash: types.EmptyRootHash, ReceiptHash: types.EmptyRootHash,
	}
	if parent != nil {
		h.Number = new(big.Int).SetUint64(parent.Num + 1)
		h.ParentHash = parent.Hash
	}
	b := &Block{Header: h, Hash: h.Hash(), Num: h.Number.Uint64(), Txs: txs, Receipts: rcs, Parent: parent}
	idx := uint(0)
	for i, r := range rcs {
		r.BlockHash, r.BlockNumber, r.TransactionIndex = b.Hash, h.Number, uint(i)
		for _, l := range r.Logs {
			l.BlockHash, l.BlockNumber, l.TxIndex, l.Index, l.TxHash = b.Hash, b.Num, uint(i), idx, txs[i].Hash()
			idx++
		}
	}
	return b
}

// build executes txs on top of parent. Transactions which are not valid there are left out.
func (c *Chain) build(parent *Block, time uint64, txs []*types.Transaction) *Block {
	st := c.StateAt(parent)
	h := &types.Header{Number: new(big.Int).SetUint64(parent.Num + 1), ParentHash: parent.Hash, Time: time, GasLimit: GasLimit, Difficulty: big.NewInt(1)}
	gp := new(core.GasPool).AddGas(GasLimit)
	var used uint64
	var in []*types.Transaction
	var rcs []*types.Receipt
	author := common.Address{0xc0}
	for _, tx := range txs {
		st.Prepare(tx.Hash(), len(in))
		snap := st.Snapshot()
		r, err := core.ApplyTransaction(c.cfg, noChain{}, &author, gp, st, h, tx, &used, vm.Config{})
		if err != nil {
			st.RevertToSnapshot(snap)
			continue
		}
		in = append(in, tx)
		rcs = append(rcs, r)
	}
	return c.seal(parent, st, time, in, rcs, used)
}

// StateAt returns a fresh state object of the state after the block.
func (c *Chain) StateAt(b *Block) *state.StateDB {
	st, err := state.New(b.Header.Root, c.sdb, nil)
	if err != nil {
		panic(err)
	}
	return st
}

// Mine appends a block with what the pool holds.
func (c *Chain) Mine(time uint64) *Block {
	var txs []*types.Transaction
	taken := map[common.Hash]bool{}
	st := c.StateAt(c.Head)
	nonces := map[common.Address]uint64{}
	for progress := true; progress; {
		progress = false
		for _, p := range c.pool {
			if p.delay > 0 || taken[p.tx.Hash()] {
				continue
			}
			n, ok := nonces[p.from]
			if !ok {
				n = st.GetNonce(p.from)
			}
			if p.tx.Nonce() == n {
				nonces[p.from] = n + 1
				taken[p.tx.Hash()] = true
				txs = append(txs, p.tx)
				progress = true
			}
		}
	}
	b := c.build(c.Head, time, txs)
	c.setHead(b)
	for _, p := range c.pool {
		if p.delay > 0 {
			p.delay--
		}
	}
	return b
}

func (c *Chain) setHead(b *Block) {
	c.Head = b
	st := c.StateAt(b)
	var rest []*poolTx
	for _, p := range c.pool {
		if p.tx.Nonce() >= st.GetNonce(p.from) {
			rest = append(rest, p)
		}
	}
	c.pool = rest
}

// Reorg drops the last depth blocks and mines as many plus one others. Dropped transactions go
// back to the pool unless keep says no.
func (c *Chain) Reorg(depth int, time uint64, keep func(tx *types.Transaction) (include bool, delay int)) {
	var back []*types.Transaction
	h := c.Head
	for i := 0; i < depth && h.Parent != nil; i++ {
		back = append(append([]*types.Transaction{}, h.Txs...), back...)
		h = h.Parent
	}
	c.Head = h
	var pool []*poolTx
	for _, tx := range back {
		from, _ := types.Sender(c.signer, tx)
		ok, d := keep(tx)
		if ok {
			pool = append(pool, &poolTx{tx, from, d})
		}
	}
	c.pool = append(pool, c.pool...)
	for i := 0; i <= depth; i++ {
		c.Mine(time)
	}
}

// Drop removes a transaction from the pool as if it had never been gossiped.
func (c *Chain) Drop(h common.Hash) {
	for i, p := range c.pool {
		if p.tx.Hash() == h {
			c.pool = append(c.pool[:i:i], c.pool[i+1:]...)
			delete(c.known, h)
			return
		}
	}
}

// Ancestor returns the ancestor of b with the given number.
func Ancestor(b *Block, num uint64) *Block {
	for b != nil && b.Num > num {
		b = b.Parent
	}
	return b
}

// PoolLen returns the number of waiting transactions.
func (c *Chain) PoolLen() int { return len(c.pool) }

// Sender recovers the sender of a transaction.
func (c *Chain) Sender(tx *types.Transaction) common.Address {
	a, err := types.Sender(c.signer, tx)
	if err != nil {
		panic(err)
	}
	return a
}

// Signer of the chain.
func (c *Chain) Signer() types.Signer { return c.signer }

// PendingNonce is the next free nonce as seen from the head block.
func (c *Chain) PendingNonce(head *Block, a common.Address) uint64 {
	n := c.StateAt(head).GetNonce(a)
	unseen := c.unseen(head)
	for again := true; again; {
		again = false
		for _, p := range c.pool {
			if p.from == a && p.tx.Nonce() == n {
				n++
				again = true
			}
		}
		for _, tx := range unseen {
			if tx.Nonce() == n && c.Sender(tx) == a {
				n++
				again = true
			}
		}
	}
	return n
}

// unseen returns the transactions that are in the chain but not yet for a node with the given
// head: they are still in its pool.
func (c *Chain) unseen(head *Block) []*types.Transaction {
	var r []*types.Transaction
	for b := c.Head; b != nil && b != head; b = b.Parent {
		for head.Num > b.Num {
			head = head.Parent
		}
		if b == head {
			break
		}
		r = append(r, b.Txs...)
	}
	return r
}

// Submit adds a transaction to the pool, with a node's checks as seen from its head block.
func (c *Chain) Submit(head *Block, tx *types.Transaction) error {
	from, err := types.Sender(c.signer, tx)
	if err != nil {
		return errors.New("invalid sender")
	}
	if tx.Gas() > GasLimit {
		return errors.New("exceeds block gas limit")
	}
	st := c.StateAt(head)
	if tx.Nonce() < st.GetNonce(from) {
		return errors.New("nonce too low")
	}
	for _, p := range c.pool {
		if p.tx.Hash() == tx.Hash() {
			return errors.New("already known")
		}
	}
	for _, u := range c.unseen(head) {
		if u.Hash() == tx.Hash() {
			return errors.New("already known")
		}
		if u.Nonce() == tx.Nonce() && c.Sender(u) == from {
			return errors.New("replacement transaction underpriced")
		}
	}
	if st.GetBalance(from).Cmp(tx.Cost()) < 0 {
		return errors.New("insufficient funds for gas * price + value")
	}
	g, err := core.IntrinsicGas(tx.Data(), tx.AccessList(), tx.To() == nil, true, true)
	if err != nil || tx.Gas() < g {
		return errors.New("intrinsic gas too low")
	}
	d := 0
	if c.Delay != nil {
		d = c.Delay(tx)
	}
	for i, p := range c.pool {
		if p.from == from && p.tx.Nonce() == tx.Nonce() {
			min := new(big.Int).Mul(p.tx.GasPrice(), big.NewInt(110))
			min.Div(min, big.NewInt(100))
			if tx.GasPrice().Cmp(min) < 0 {
				return errors.New("replacement transaction underpriced")
			}
			delete(c.known, p.tx.Hash())
			c.pool[i] = &poolTx{tx, from, d}
			c.known[tx.Hash()] = tx
			return nil
		}
	}
	c.pool = append(c.pool, &poolTx{tx, from, d})
	c.known[tx.Hash()] = tx
	return nil
}

// Pending returns the state a node with the given head considers pending: the transactions it
// knows of executed on top of its head.
func (c *Chain) Pending(head *Block) (*state.StateDB, *types.Header) {
	st := c.StateAt(head)
	txs := c.unseen(head)
	for i := len(txs)/2 - 1; i >= 0; i-- {
		txs[i], txs[len(txs)-1-i] = txs[len(txs)-1-i], txs[i]
	}
	for _, p := range c.pool {
		txs = append(txs, p.tx)
	}
	h := &types.Header{Number: new(big.Int).SetUint64(head.Num + 1), ParentHash: head.Hash, Time: head.Header.Time, GasLimit: GasLimit, Difficulty: big.NewInt(1)}
	gp := new(core.GasPool).AddGas(GasLimit)
	author := common.Address{0xc0}
	var used uint64
	done := map[common.Hash]bool{}
	for again := true; again; {
		again = false
		for i, tx := range txs {
			if done[tx.Hash()] || tx.Nonce() != st.GetNonce(c.Sender(tx)) {
				continue
			}
			done[tx.Hash()] = true
			st.Prepare(tx.Hash(), i)
			snap := st.Snapshot()
			if _, err := core.ApplyTransaction(c.cfg, noChain{}, &author, gp, st, h, tx, &used, vm.Config{}); err != nil {
				st.RevertToSnapshot(snap)
				continue
			}
			again = true
		}
	}
	return st, h
}

// Call executes a message on the state after block b.
func (c *Chain) Call(b *Block, from common.Address, to *common.Address, gas uint64, value *big.Int, data []byte) (*core.ExecutionResult, error) {
	return c.CallOn(c.StateAt(b), b.Header, from, to, gas, value, data)
}

// CallOn executes a message on a state, as if in a block with the given header.
func (c *Chain) CallOn(st *state.StateDB, header *types.Header, from common.Address, to *common.Address, gas uint64, value *big.Int, data []byte) (*core.ExecutionResult, error) {
	if value == nil {
		value = new(big.Int)
	}
	if gas == 0 || gas > GasLimit {
		gas = GasLimit
	}
	msg := types.NewMessage(from, to, st.GetNonce(from), value, gas, new(big.Int), new(big.Int), new(big.Int), data, nil, false)
	author := common.Address{0xc0}
	h := types.CopyHeader(header)
	bc := core.NewEVMBlockContext(h, noChain{}, &author)
	evm := vm.NewEVM(bc, core.NewEVMTxContext(msg), st, c.cfg, vm.Config{NoBaseFee: true})
	return core.ApplyMessage(evm, msg, new(core.GasPool).AddGas(gas))
}

// Contract couples an address and an ABI.
type Contract struct {
	Addr common.Address
	ABI  abi.ABI
}

// NewContract parses the ABI.
func NewContract(addr common.Address, def string) *Contract {
	a, err := abi.JSON(strings.NewReader(def))
	if err != nil {
		panic(err)
	}
	return &Contract{addr, a}
}

// View calls a constant method on the state after block b.
func (c *Chain) View(b *Block, ct *Contract, method string, args ...interface{}) []interface{} {
	data, err := ct.ABI.Pack(method, args...)
	if err != nil {
		panic(err)
	}
	res, err := c.Call(b, common.Address{}, &ct.Addr, 0, nil, data)
	if err != nil {
		panic(err)
	}
	if res.Err != nil {
		panic(fmt.Sprintf("%s: %v %x", method, res.Err, res.ReturnData))
	}
	out, err := ct.ABI.Unpack(method, res.ReturnData)
	if err != nil {
		panic(err)
	}
	return out
}

// Logs returns the logs of one block.
func (b *Block) Logs() []*types.Log {
	var out []*types.Log
	for _, r := range b.Receipts {
		out = append(out, r.Logs...)
	}
	return out
}
