// Package tmsim is the shuttermint chain of the simulation: the real application behind a block
// producer the simulator drives, and per keyper node views of it served with tendermint's own
// RPC server code over the simulated network.
package tmsim

import (
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"sort"
	"time"

	"github.com/ethereum/go-ethereum/common"
	abci "github.com/tendermint/tendermint/abci/types"
	"github.com/tendermint/tendermint/libs/log"
	"github.com/tendermint/tendermint/libs/pubsub/query"
	tmproto "github.com/tendermint/tendermint/proto/tendermint/types"
	ctypes "github.com/tendermint/tendermint/rpc/core/types"
	"github.com/tendermint/tendermint/rpc/jsonrpc/server"
	rpctypes "github.com/tendermint/tendermint/rpc/jsonrpc/types"
	tmtypes "github.com/tendermint/tendermint/types"

	"github.com/shutter-network/shutter/shuttermint/app"

	"verif/sim/simnet"
)

// Block is a committed block.
type Block struct {
	H       int64
	Time    time.Time
	Txs     []tmtypes.Tx
	Results []abci.ResponseDeliverTx
	blk     *tmtypes.Block
}

type waiting struct {
	tx    tmtypes.Tx
	delay int
}

// Chain is the committed chain and the transaction pool.
type Chain struct {
	ID     string
	App    *app.ShutterApp
	Blocks []*Block
	pool   []*waiting
	cache  map[string]bool
	// Delay decides how many blocks a transaction waits in the pool; negative: it never arrives.
	Delay func(tx tmtypes.Tx) int
	// OnBlock sees every new block.
	OnBlock func(b *Block)
	waiters map[string][]chan waitRes
}

type waitRes struct {
	h   int64
	res abci.ResponseDeliverTx
}

// New starts a chain with the given genesis keypers.
func New(id string, keypers []common.Address, threshold int, val abci.ValidatorUpdate) *Chain {
	c := &Chain{ID: id, App: app.NewShutterApp(), cache: map[string]bool{}, waiters: map[string][]chan waitRes{}}
	gs := app.NewGenesisAppState(keypers, threshold)
	b, err := json.Marshal(struct {
		Keypers   []common.MixedcaseAddress `json:"keypers"`
		Threshold string                    `json:"threshold"`
	}{gs.Keypers, fmt.Sprint(gs.Threshold)})
	if err != nil {
		panic(err)
	}
	c.App.InitChain(abci.RequestInitChain{ChainId: id, Validators: []abci.ValidatorUpdate{val}, AppStateBytes: b})
	return c
}

// NewRaw starts a chain without an application: its blocks are made with Append.
func NewRaw(id string) *Chain {
	return &Chain{ID: id, cache: map[string]bool{}, waiters: map[string][]chan waitRes{}}
}

// Append commits a block with the given transactions and results.
func (c *Chain) Append(now time.Time, txs []tmtypes.Tx, results []abci.ResponseDeliverTx) *Block {
	h := c.Height() + 1
	b := &Block{H: h, Time: now, Txs: txs, Results: results}
	b.blk = &tmtypes.Block{
		Header:     tmtypes.Header{ChainID: c.ID, Height: h, Time: now},
		Data:       tmtypes.Data{Txs: txs},
		LastCommit: &tmtypes.Commit{Height: h - 1},
	}
	c.Blocks = append(c.Blocks, b)
	return b
}

// Height of the last block.
func (c *Chain) Height() int64 { return int64(len(c.Blocks)) }

// At returns the block at height h.
func (c *Chain) At(h int64) *Block { return c.Blocks[h-1] }

// Make commits the next block with what is in the pool.
func (c *Chain) Make(now time.Time) *Block {
	h := c.Height() + 1
	b := &Block{H: h, Time: now}
	var rest []*waiting
	for _, w := range c.pool {
		if w.delay > 0 {
			w.delay--
			rest = append(rest, w)
			continue
		}
		b.Txs = append(b.Txs, w.tx)
	}
	c.pool = rest
	c.App.BeginBlock(abci.RequestBeginBlock{Header: tmproto.Header{ChainID: c.ID, Height: h, Time: now}})
	for _, tx := range b.Txs {
		b.Results = append(b.Results, c.App.DeliverTx(abci.RequestDeliverTx{Tx: tx}))
	}
	c.App.EndBlock(abci.RequestEndBlock{Height: h})
	c.App.Commit()
	for _, w := range c.pool {
		c.App.CheckTx(abci.RequestCheckTx{Tx: w.tx, Type: abci.CheckTxType_Recheck})
	}
	b.blk = &tmtypes.Block{
		Header:     tmtypes.Header{ChainID: c.ID, Height: h, Time: now},
		Data:       tmtypes.Data{Txs: b.Txs},
		LastCommit: &tmtypes.Commit{Height: h - 1},
	}
	c.Blocks = append(c.Blocks, b)
	if c.OnBlock != nil {
		c.OnBlock(b)
	}
	return b
}

var (
	errCache = errors.New("tx already exists in cache")
)

// Submit puts a transaction into the pool.
func (c *Chain) Submit(tx tmtypes.Tx) (abci.ResponseCheckTx, error) {
	k := string(tx.Hash())
	if c.cache[k] {
		return abci.ResponseCheckTx{}, errCache
	}
	res := c.App.CheckTx(abci.RequestCheckTx{Tx: tx, Type: abci.CheckTxType_New})
	if res.Code != abci.CodeTypeOK {
		return res, nil
	}
	c.cache[k] = true
	d := 0
	if c.Delay != nil {
		d = c.Delay(tx)
	}
	if d >= 0 {
		c.pool = append(c.pool, &waiting{tx, d})
	}
	return res, nil
}

// PoolLen is the number of waiting transactions.
func (c *Chain) PoolLen() int { return len(c.pool) }

// Node is one keyper's shuttermint node.
type Node struct {
	Chain      *Chain
	ID         int
	H          int64 // the last block it has
	Idx        int64 // the last block its transaction index has
	CatchingUp bool
	Lst        *simnet.Listener
	Gate       func(n *Node, method string) error
	After      func(n *Node, method string) error
	// Mangle may replace a transaction a client submits (nil: refuse it).
	Mangle func(tx tmtypes.Tx) []tmtypes.Tx
	subs   map[string]map[string]chan int64 // remote -> query
	wait   map[string][]chan waitRes
}

// NewNode starts a node's RPC server on the simulated network.
func NewNode(c *Chain, id int, host string) *Node {
	n := &Node{Chain: c, ID: id, Lst: simnet.Listen(host), subs: map[string]map[string]chan int64{}, wait: map[string][]chan waitRes{}}
	routes := map[string]*server.RPCFunc{
		"subscribe":           server.NewWSRPCFunc(n.subscribe, "query"),
		"unsubscribe":         server.NewWSRPCFunc(n.unsubscribe, "query"),
		"unsubscribe_all":     server.NewWSRPCFunc(n.unsubscribeAll, ""),
		"status":              server.NewRPCFunc(n.status, ""),
		"blockchain":          server.NewRPCFunc(n.blockchain, "minHeight,maxHeight"),
		"block":               server.NewRPCFunc(n.block, "height"),
		"tx_search":           server.NewRPCFunc(n.txSearch, "query,prove,page,per_page,order_by"),
		"broadcast_tx_commit": server.NewRPCFunc(n.broadcast, "tx"),
		"broadcast_tx_sync":   server.NewRPCFunc(n.broadcastSync, "tx"),
		"broadcast_tx_async":  server.NewRPCFunc(n.broadcastSync, "tx"),
	}
	mux := http.NewServeMux()
	wm := server.NewWebsocketManager(routes, server.OnDisconnect(func(remote string) { delete(n.subs, remote) }), server.ReadLimit(1<<20))
	mux.HandleFunc("/websocket", wm.WebsocketHandler)
	server.RegisterRPCFuncs(mux, routes, log.NewNopLogger())
	go (&http.Server{Handler: mux}).Serve(n.Lst)
	return n
}

func sortedKeys(m map[string]map[string]chan int64) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// SetHeight moves the node's view forward and notifies subscribers and waiting clients. The
// transaction index follows separately, but is never behind by more than the newest block.
func (n *Node) SetHeight(h int64) {
	for n.H < h {
		n.H++
		if n.Idx < n.H-1 {
			n.Idx = n.H - 1
		}
		b := n.Chain.At(n.H)
		for i, tx := range b.Txs {
			k := string(tx.Hash())
			for _, ch := range n.wait[k] {
				ch <- waitRes{n.H, b.Results[i]}
			}
			delete(n.wait, k)
		}
		for _, r := range sortedKeys(n.subs) {
			for _, ch := range n.subs[r] {
				select {
				case ch <- n.H:
				default:
				}
			}
		}
	}
}

// Mute makes the node forget its subscribers; their connections stay open.
func (n *Node) Mute() int {
	k := len(n.subs)
	n.subs = map[string]map[string]chan int64{}
	return k
}

// Rewind makes the node forget the blocks above h, as if another node answered in its place.
func (n *Node) Rewind(h int64) {
	n.H = h
	if n.Idx > h {
		n.Idx = h
	}
}

func (n *Node) in(m string) error {
	if n.Gate != nil {
		return n.Gate(n, m)
	}
	return nil
}

func (n *Node) out(m string) error {
	if n.After != nil {
		return n.After(n, m)
	}
	return nil
}

func (n *Node) subscribe(ctx *rpctypes.Context, q string) (*ctypes.ResultSubscribe, error) {
	if err := n.in("subscribe"); err != nil {
		return nil, err
	}
	if _, err := query.New(q); err != nil {
		return nil, fmt.Errorf("failed to parse query: %w", err)
	}
	if q != "tm.event = 'NewBlock'" && q != "tm.event='NewBlock'" {
		return nil, fmt.Errorf("the simulated node knows no query %q", q)
	}
	remote := ctx.RemoteAddr()
	if n.subs[remote] == nil {
		n.subs[remote] = map[string]chan int64{}
	}
	if n.subs[remote][q] != nil {
		return nil, errors.New("already subscribed")
	}
	ch := make(chan int64, 100)
	n.subs[remote][q] = ch
	id := ctx.JSONReq.ID
	quit := ctx.WSConn.Context().Done()
	go func() {
		for {
			select {
			case h := <-ch:
				ev := &ctypes.ResultEvent{Query: q, Data: tmtypes.EventDataNewBlock{Block: n.Chain.At(h).blk}, Events: map[string][]string{"tm.event": {"NewBlock"}}}
				if !ctx.WSConn.TryWriteRPCResponse(rpctypes.NewRPCSuccessResponse(id, ev)) {
					if n.subs[remote][q] != ch {
						return
					}
				}
			case <-quit:
				return
			}
		}
	}()
	return &ctypes.ResultSubscribe{}, nil
}

func (n *Node) unsubscribe(ctx *rpctypes.Context, q string) (*ctypes.ResultUnsubscribe, error) {
	if n.subs[ctx.RemoteAddr()][q] == nil {
		return nil, errors.New("subscription not found")
	}
	delete(n.subs[ctx.RemoteAddr()], q)
	return &ctypes.ResultUnsubscribe{}, nil
}

func (n *Node) unsubscribeAll(ctx *rpctypes.Context) (*ctypes.ResultUnsubscribe, error) {
	delete(n.subs, ctx.RemoteAddr())
	return &ctypes.ResultUnsubscribe{}, nil
}

func (n *Node) status(*rpctypes.Context) (*ctypes.ResultStatus, error) {
	if err := n.in("status"); err != nil {
		return nil, err
	}
	r := &ctypes.ResultStatus{SyncInfo: ctypes.SyncInfo{LatestBlockHeight: n.H, CatchingUp: n.CatchingUp}}
	return r, n.out("status")
}

func (n *Node) meta(h int64) *tmtypes.BlockMeta {
	b := n.Chain.At(h)
	return &tmtypes.BlockMeta{Header: b.blk.Header, NumTxs: len(b.Txs)}
}

func (n *Node) blockchain(_ *rpctypes.Context, minHeight, maxHeight int64) (*ctypes.ResultBlockchainInfo, error) {
	if err := n.in("blockchain"); err != nil {
		return nil, err
	}
	if minHeight < 0 || maxHeight < 0 {
		return nil, errors.New("heights must be non-negative")
	}
	if minHeight == 0 {
		minHeight = 1
	}
	if maxHeight == 0 || maxHeight > n.H {
		maxHeight = n.H
	}
	if minHeight < maxHeight-19 {
		minHeight = maxHeight - 19
	}
	if minHeight > maxHeight {
		return nil, fmt.Errorf("min height %d can't be greater than max height %d", minHeight, maxHeight)
	}
	r := &ctypes.ResultBlockchainInfo{LastHeight: n.H}
	for h := maxHeight; h >= minHeight; h-- {
		r.BlockMetas = append(r.BlockMetas, n.meta(h))
	}
	return r, n.out("blockchain")
}

func (n *Node) block(_ *rpctypes.Context, heightPtr *int64) (*ctypes.ResultBlock, error) {
	if err := n.in("block"); err != nil {
		return nil, err
	}
	h := n.H
	if heightPtr != nil {
		h = *heightPtr
		if h <= 0 || h > n.H {
			return nil, fmt.Errorf("height %d must be less than or equal to the current blockchain height %d", h, n.H)
		}
	}
	if h == 0 {
		return &ctypes.ResultBlock{}, nil
	}
	return &ctypes.ResultBlock{Block: n.Chain.At(h).blk}, n.out("block")
}

func perPage(p *int) int {
	switch {
	case p == nil || *p < 1:
		return 30
	case *p > 100:
		return 100
	}
	return *p
}

func (n *Node) txSearch(_ *rpctypes.Context, q string, _ bool, pagePtr, perPagePtr *int, orderBy string) (*ctypes.ResultTxSearch, error) {
	if err := n.in("tx_search"); err != nil {
		return nil, err
	}
	r, err := n.Search(q, pagePtr, perPagePtr, orderBy)
	if err != nil {
		return nil, err
	}
	return r, n.out("tx_search")
}

// Search implements tx_search on the blocks the node has indexed.
func (n *Node) Search(q string, pagePtr, perPagePtr *int, orderBy string) (*ctypes.ResultTxSearch, error) {
	pq, err := query.New(q)
	if err != nil {
		return nil, err
	}
	conds, err := pq.Conditions()
	if err != nil {
		return nil, err
	}
	lo, hi := int64(0), n.Idx
	for _, c := range conds {
		v, ok := c.Operand.(int64)
		if c.CompositeKey != "tx.height" || !ok {
			return nil, fmt.Errorf("the simulated node knows no condition on %s", c.CompositeKey)
		}
		switch c.Op {
		case query.OpGreaterEqual:
			lo = max64(lo, v)
		case query.OpGreater:
			lo = max64(lo, v+1)
		case query.OpLessEqual:
			hi = min64(hi, v)
		case query.OpLess:
			hi = min64(hi, v-1)
		case query.OpEqual:
			lo, hi = max64(lo, v), min64(hi, v)
		default:
			return nil, errors.New("unknown operator")
		}
	}
	var all []*ctypes.ResultTx
	for h := max64(lo, 1); h <= hi; h++ {
		b := n.Chain.At(h)
		for i, tx := range b.Txs {
			all = append(all, &ctypes.ResultTx{Hash: tx.Hash(), Height: h, Index: uint32(i), TxResult: b.Results[i], Tx: tx})
		}
	}
	switch orderBy {
	case "desc":
		for i, j := 0, len(all)-1; i < j; i, j = i+1, j-1 {
			all[i], all[j] = all[j], all[i]
		}
	case "asc", "":
	default:
		return nil, errors.New("expected order_by to be either `asc` or `desc` or empty")
	}
	total := len(all)
	pp := perPage(perPagePtr)
	page := 1
	if pagePtr != nil {
		pages := (total-1)/pp + 1
		if pages == 0 {
			pages = 1
		}
		page = *pagePtr
		if page <= 0 || page > pages {
			return nil, fmt.Errorf("page should be within [1, %d] range, given %d", pages, page)
		}
	}
	from := (page - 1) * pp
	to := from + pp
	if to > total {
		to = total
	}
	return &ctypes.ResultTxSearch{Txs: all[from:to], TotalCount: total}, nil
}

func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

func (n *Node) broadcastSync(_ *rpctypes.Context, tx tmtypes.Tx) (*ctypes.ResultBroadcastTx, error) {
	if err := n.in("broadcast_tx_sync"); err != nil {
		return nil, err
	}
	r, err := n.Chain.Submit(tx)
	if err != nil {
		return nil, err
	}
	return &ctypes.ResultBroadcastTx{Code: r.Code, Data: r.Data, Log: r.Log, Hash: tx.Hash()}, n.out("broadcast_tx_sync")
}

func (n *Node) broadcast(_ *rpctypes.Context, tx tmtypes.Tx) (*ctypes.ResultBroadcastTxCommit, error) {
	if err := n.in("broadcast_tx_commit"); err != nil {
		return nil, err
	}
	if n.Mangle != nil {
		out := n.Mangle(tx)
		if len(out) == 0 {
			return &ctypes.ResultBroadcastTxCommit{Hash: tx.Hash(), Height: n.H}, nil
		}
		for _, x := range out[1:] {
			n.Chain.Submit(x)
		}
		tx = out[0]
	}
	k := string(tx.Hash())
	ch := make(chan waitRes, 1)
	n.wait[k] = append(n.wait[k], ch)
	r, err := n.Chain.Submit(tx)
	if err != nil || r.Code != abci.CodeTypeOK {
		delete(n.wait, k)
		if err != nil {
			return nil, fmt.Errorf("error on broadcastTxCommit: %v", err)
		}
		return &ctypes.ResultBroadcastTxCommit{CheckTx: r, Hash: tx.Hash()}, n.out("broadcast_tx_commit")
	}
	select {
	case res := <-ch:
		return &ctypes.ResultBroadcastTxCommit{CheckTx: r, DeliverTx: res.res, Hash: tx.Hash(), Height: res.h}, n.out("broadcast_tx_commit")
	case <-time.After(10 * time.Second):
		delete(n.wait, k)
		return nil, errors.New("timed out waiting for tx to be included in a block")
	}
}
