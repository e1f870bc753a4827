package ethsim

import (
	"context"
	"errors"
	"math/big"
	"net/http"

	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/core"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/core/vm"
	"github.com/ethereum/go-ethereum/eth/filters"
	"github.com/ethereum/go-ethereum/rpc"

	"verif/sim/simnet"
)

// Node is one ethereum node: a view of the chain plus its RPC server.
type Node struct {
	Chain   *Chain
	ID      int
	Head    *Block
	Syncing bool
	Lst     *simnet.Listener
	// Gate is called before a request is handled; it may sleep, and an error is the answer.
	// After is called once it was handled.
	Gate  func(n *Node, method string) error
	After func(n *Node, method string) error
	// OnSend sees a raw transaction a client sends; nil: drop it silently, otherwise it may be replaced.
	OnSend func(tx *types.Transaction) *types.Transaction
	// Sent sees the transactions that are accepted.
	Sent func(tx *types.Transaction)
	// Pending: calls and estimates on the pending block see the transactions in the pool, as geth
	// does; otherwise they see the head.
	Pending bool

	subs map[rpc.ID]chan *types.Header
}

// NewNode starts the RPC server of a node on the simulated network.
func NewNode(c *Chain, id int, host string) *Node {
	n := &Node{Chain: c, ID: id, Head: c.Head, Lst: simnet.Listen(host), subs: map[rpc.ID]chan *types.Header{}}
	srv := rpc.NewServer()
	if err := srv.RegisterName("eth", &API{n}); err != nil {
		panic(err)
	}
	hs := &http.Server{Handler: srv.WebsocketHandler([]string{"*"})}
	go hs.Serve(n.Lst)
	return n
}

// SetHead moves the node's head and tells the subscribers.
func (n *Node) SetHead(b *Block) {
	if b == n.Head {
		return
	}
	var fresh []*Block
	old := map[*Block]bool{}
	for x, i := n.Head, 0; x != nil && i < 64; x, i = x.Parent, i+1 {
		old[x] = true
	}
	for x, i := b, 0; x != nil && i < 64 && !old[x]; x, i = x.Parent, i+1 {
		fresh = append(fresh, x)
	}
	n.Head = b
	if len(fresh) == 0 {
		fresh = []*Block{b}
	}
	for i := len(fresh) - 1; i >= 0; i-- {
		for _, id := range sortedIDs(n.subs) {
			select {
			case n.subs[id] <- fresh[i].Header:
			default:
			}
		}
	}
}

// Mute makes the node forget its subscribers; their connections stay open.
func (n *Node) Mute() int {
	k := len(n.subs)
	n.subs = map[rpc.ID]chan *types.Header{}
	return k
}

func sortedIDs(m map[rpc.ID]chan *types.Header) []rpc.ID {
	var out []rpc.ID
	for id := range m {
		out = append(out, id)
	}
	for i := 1; i < len(out); i++ {
		for j := i; j > 0 && out[j] < out[j-1]; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

// API is the eth namespace.
type API struct{ n *Node }

func (a *API) in(m string) error {
	if a.n.Gate != nil {
		return a.n.Gate(a.n, m)
	}
	return nil
}

func (a *API) out(m string, err error) error {
	if a.n.After != nil {
		if e := a.n.After(a.n, m); e != nil {
			return e
		}
	}
	return err
}

func (a *API) at(num rpc.BlockNumber) (*Block, error) {
	if num < 0 {
		return a.n.Head, nil
	}
	if uint64(num) > a.n.Head.Num {
		return nil, errors.New("header not found")
	}
	return Ancestor(a.n.Head, uint64(num)), nil
}

// ChainId implements eth_chainId.
func (a *API) ChainId() (*hexutil.Big, error) { //nolint
	if err := a.in("chainId"); err != nil {
		return nil, err
	}
	return (*hexutil.Big)(ChainID), a.out("chainId", nil)
}

// Syncing implements eth_syncing.
func (a *API) Syncing() (interface{}, error) {
	if err := a.in("syncing"); err != nil {
		return nil, err
	}
	if !a.n.Syncing {
		return false, a.out("syncing", nil)
	}
	return map[string]interface{}{
		"startingBlock": hexutil.Uint64(0), "currentBlock": hexutil.Uint64(a.n.Head.Num), "highestBlock": hexutil.Uint64(a.n.Chain.Head.Num),
		"pulledStates": hexutil.Uint64(0), "knownStates": hexutil.Uint64(0),
	}, a.out("syncing", nil)
}

// GetBlockByNumber implements eth_getBlockByNumber.
func (a *API) GetBlockByNumber(num rpc.BlockNumber, full bool) (*types.Header, error) {
	if err := a.in("getBlockByNumber"); err != nil {
		return nil, err
	}
	b, err := a.at(num)
	if err != nil {
		return nil, a.out("getBlockByNumber", nil)
	}
	return b.Header, a.out("getBlockByNumber", nil)
}

// CallArgs are the arguments of eth_call.
type CallArgs struct {
	From     *common.Address `json:"from"`
	To       *common.Address `json:"to"`
	Gas      *hexutil.Uint64 `json:"gas"`
	GasPrice *hexutil.Big    `json:"gasPrice"`
	Value    *hexutil.Big    `json:"value"`
	Data     *hexutil.Bytes  `json:"data"`
	Input    *hexutil.Bytes  `json:"input"`
}

type revertError struct {
	error
	reason string
}

func (e *revertError) ErrorCode() int         { return 3 }
func (e *revertError) ErrorData() interface{} { return e.reason }

func revert(res *core.ExecutionResult) error {
	if res.Err == vm.ErrExecutionReverted {
		err := errors.New("execution reverted")
		if r, e := abi.UnpackRevert(res.Revert()); e == nil {
			err = errors.New("execution reverted: " + r)
		}
		return &revertError{err, hexutil.Encode(res.Revert())}
	}
	return res.Err
}

func (a *API) call(b *Block, pending bool, args CallArgs) (*core.ExecutionResult, error) {
	var from common.Address
	if args.From != nil {
		from = *args.From
	}
	var gas uint64
	if args.Gas != nil {
		gas = uint64(*args.Gas)
	}
	var data []byte
	if args.Data != nil {
		data = *args.Data
	}
	if args.Input != nil {
		data = *args.Input
	}
	if pending && a.n.Pending {
		st, h := a.n.Chain.Pending(a.n.Head)
		return a.n.Chain.CallOn(st, h, from, args.To, gas, (*big.Int)(args.Value), data)
	}
	return a.n.Chain.Call(b, from, args.To, gas, (*big.Int)(args.Value), data)
}

// Call implements eth_call.
func (a *API) Call(args CallArgs, num rpc.BlockNumberOrHash) (hexutil.Bytes, error) {
	if err := a.in("call"); err != nil {
		return nil, err
	}
	bn := rpc.LatestBlockNumber
	if num.BlockNumber != nil {
		bn = *num.BlockNumber
	}
	b, err := a.at(bn)
	if err != nil {
		return nil, a.out("call", err)
	}
	res, err := a.call(b, bn == rpc.PendingBlockNumber, args)
	if err == nil && res.Err != nil {
		err = revert(res)
	}
	if err != nil {
		return nil, a.out("call", err)
	}
	return res.ReturnData, a.out("call", nil)
}

// EstimateGas implements eth_estimateGas.
func (a *API) EstimateGas(args CallArgs) (hexutil.Uint64, error) {
	if err := a.in("estimateGas"); err != nil {
		return 0, err
	}
	res, err := a.call(a.n.Head, true, args)
	if err == nil && res.Err != nil {
		err = revert(res)
	}
	if err != nil {
		return 0, a.out("estimateGas", err)
	}
	if a.n.Pending { // refunds may have halved what was used
		return hexutil.Uint64(2*res.UsedGas + 30_000), a.out("estimateGas", nil)
	}
	return hexutil.Uint64(res.UsedGas + res.UsedGas/2 + 30_000), a.out("estimateGas", nil)
}

// GetCode implements eth_getCode.
func (a *API) GetCode(addr common.Address, num rpc.BlockNumberOrHash) (hexutil.Bytes, error) {
	if err := a.in("getCode"); err != nil {
		return nil, err
	}
	bn := rpc.LatestBlockNumber
	if num.BlockNumber != nil {
		bn = *num.BlockNumber
	}
	b, err := a.at(bn)
	if err != nil {
		return nil, a.out("getCode", err)
	}
	return a.n.Chain.StateAt(b).GetCode(addr), a.out("getCode", nil)
}

// BlockNumber implements eth_blockNumber.
func (a *API) BlockNumber() (hexutil.Uint64, error) {
	if err := a.in("blockNumber"); err != nil {
		return 0, err
	}
	return hexutil.Uint64(a.n.Head.Num), a.out("blockNumber", nil)
}

// GetBalance implements eth_getBalance.
func (a *API) GetBalance(addr common.Address, num rpc.BlockNumberOrHash) (*hexutil.Big, error) {
	if err := a.in("getBalance"); err != nil {
		return nil, err
	}
	bn := rpc.LatestBlockNumber
	if num.BlockNumber != nil {
		bn = *num.BlockNumber
	}
	if bn == rpc.PendingBlockNumber && a.n.Pending {
		st, _ := a.n.Chain.Pending(a.n.Head)
		return (*hexutil.Big)(st.GetBalance(addr)), a.out("getBalance", nil)
	}
	b, err := a.at(bn)
	if err != nil {
		return nil, a.out("getBalance", err)
	}
	return (*hexutil.Big)(a.n.Chain.StateAt(b).GetBalance(addr)), a.out("getBalance", nil)
}

// GasPrice implements eth_gasPrice.
func (a *API) GasPrice() (*hexutil.Big, error) {
	if err := a.in("gasPrice"); err != nil {
		return nil, err
	}
	return (*hexutil.Big)(GasPrice), a.out("gasPrice", nil)
}

// GetTransactionCount implements eth_getTransactionCount.
func (a *API) GetTransactionCount(addr common.Address, num rpc.BlockNumberOrHash) (hexutil.Uint64, error) {
	if err := a.in("getTransactionCount"); err != nil {
		return 0, err
	}
	if num.BlockNumber != nil && *num.BlockNumber == rpc.PendingBlockNumber {
		return hexutil.Uint64(a.n.Chain.PendingNonce(a.n.Head, addr)), a.out("getTransactionCount", nil)
	}
	return hexutil.Uint64(a.n.Chain.StateAt(a.n.Head).GetNonce(addr)), a.out("getTransactionCount", nil)
}

// SendRawTransaction implements eth_sendRawTransaction.
func (a *API) SendRawTransaction(raw hexutil.Bytes) (common.Hash, error) {
	if err := a.in("sendRawTransaction"); err != nil {
		return common.Hash{}, err
	}
	tx := new(types.Transaction)
	if err := tx.UnmarshalBinary(raw); err != nil {
		return common.Hash{}, err
	}
	h := tx.Hash()
	if a.n.OnSend != nil {
		if tx = a.n.OnSend(tx); tx == nil {
			return h, a.out("sendRawTransaction", nil)
		}
	}
	if err := a.n.Chain.Submit(a.n.Head, tx); err != nil {
		return common.Hash{}, a.out("sendRawTransaction", err)
	}
	if a.n.Sent != nil {
		a.n.Sent(tx)
	}
	return h, a.out("sendRawTransaction", nil)
}

func (a *API) find(h common.Hash) (*Block, int) {
	for b := a.n.Head; b != nil; b = b.Parent {
		for i, tx := range b.Txs {
			if tx.Hash() == h {
				return b, i
			}
		}
	}
	return nil, 0
}

// GetTransactionReceipt implements eth_getTransactionReceipt.
func (a *API) GetTransactionReceipt(h common.Hash) (*types.Receipt, error) {
	if err := a.in("getTransactionReceipt"); err != nil {
		return nil, err
	}
	b, i := a.find(h)
	if b == nil {
		return nil, a.out("getTransactionReceipt", nil)
	}
	r := *b.Receipts[i]
	if r.Logs == nil {
		r.Logs = []*types.Log{} // a real node never answers null
	}
	return &r, a.out("getTransactionReceipt", nil)
}

// GetTransactionByHash implements eth_getTransactionByHash.
func (a *API) GetTransactionByHash(h common.Hash) (map[string]interface{}, error) {
	if err := a.in("getTransactionByHash"); err != nil {
		return nil, err
	}
	b, i := a.find(h)
	tx := a.n.Chain.known[h]
	if b != nil {
		tx = b.Txs[i]
	}
	if tx == nil {
		return nil, a.out("getTransactionByHash", nil)
	}
	v, r, s := tx.RawSignatureValues()
	m := map[string]interface{}{
		"type": hexutil.Uint64(tx.Type()), "nonce": hexutil.Uint64(tx.Nonce()), "gasPrice": (*hexutil.Big)(tx.GasPrice()), "gas": hexutil.Uint64(tx.Gas()),
		"value": (*hexutil.Big)(tx.Value()), "input": hexutil.Bytes(tx.Data()), "to": tx.To(), "hash": tx.Hash(),
		"v": (*hexutil.Big)(v), "r": (*hexutil.Big)(r), "s": (*hexutil.Big)(s), "from": a.n.Chain.Sender(tx),
	}
	if b != nil {
		m["blockNumber"] = (*hexutil.Big)(b.Header.Number)
		m["blockHash"] = b.Hash
	}
	return m, a.out("getTransactionByHash", nil)
}

// GetLogs implements eth_getLogs.
func (a *API) GetLogs(crit filters.FilterCriteria) ([]*types.Log, error) {
	if err := a.in("getLogs"); err != nil {
		return nil, err
	}
	out := []*types.Log{}
	from, to := uint64(0), a.n.Head.Num
	if crit.FromBlock != nil && crit.FromBlock.Sign() >= 0 {
		from = crit.FromBlock.Uint64()
	}
	if crit.ToBlock != nil && crit.ToBlock.Sign() >= 0 && crit.ToBlock.Uint64() < to {
		to = crit.ToBlock.Uint64()
	}
	var bs []*Block
	for b := Ancestor(a.n.Head, to); b != nil && b.Num >= from; b = b.Parent {
		bs = append(bs, b)
	}
	for i := len(bs) - 1; i >= 0; i-- {
		for _, l := range bs[i].Logs() {
			if Matches(l, crit.Addresses, crit.Topics) {
				out = append(out, l)
			}
		}
	}
	return out, a.out("getLogs", nil)
}

// Matches tells if a log passes a filter.
func Matches(l *types.Log, addrs []common.Address, topics [][]common.Hash) bool {
	if len(addrs) > 0 {
		ok := false
		for _, a := range addrs {
			ok = ok || a == l.Address
		}
		if !ok {
			return false
		}
	}
	if len(topics) > len(l.Topics) {
		return false
	}
	for i, alt := range topics {
		ok := len(alt) == 0
		for _, t := range alt {
			ok = ok || t == l.Topics[i]
		}
		if !ok {
			return false
		}
	}
	return true
}

// NewHeads implements the newHeads subscription.
func (a *API) NewHeads(ctx context.Context) (*rpc.Subscription, error) {
	if err := a.in("subscribe"); err != nil {
		return nil, err
	}
	notifier, ok := rpc.NotifierFromContext(ctx)
	if !ok {
		return nil, rpc.ErrNotificationsUnsupported
	}
	sub := notifier.CreateSubscription()
	ch := make(chan *types.Header, 256)
	a.n.subs[sub.ID] = ch
	go func() {
		defer func() { delete(a.n.subs, sub.ID) }()
		for {
			select {
			case h := <-ch:
				notifier.Notify(sub.ID, h)
			case <-sub.Err():
				return
			case <-notifier.Closed():
				return
			}
		}
	}()
	return sub, a.out("subscribe", nil)
}
