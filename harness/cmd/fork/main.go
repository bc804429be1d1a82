// fork replays behaviours of the Fork specification: one node builds the tree of blocks, a second one, with the real
// pool, is handed them and must come to rest where the specification says.
package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"sync"
	"time"

	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/ledger/consensus/core"
	"github.com/vitelabs/go-vite/v2/ledger/pool"
	"github.com/vitelabs/go-vite/v2/log15"
	"github.com/vitelabs/go-vite/v2/net"
	"github.com/vitelabs/go-vite/v2/zz_verif/run"
	"github.com/vitelabs/go-vite/v2/zz_verif/world"
)

type alt struct {
	H    int   `json:"h"`
	Tips []int `json:"tips"`
}
type obs struct {
	N   int     `json:"n"`
	Bal []int64 `json:"bal"`
	Len []int   `json:"len"`
	Irr int     `json:"irr"`
}
type step struct {
	A     string `json:"a"`
	ID    int    `json:"id"`
	Acct  int    `json:"acct"`
	To    int    `json:"to"`
	Amt   int64  `json:"amt"`
	From  int    `json:"from"`
	Prod  int    `json:"prod"`
	T     int64  `json:"t"`
	Par   int    `json:"par"`
	H     uint64 `json:"h"`
	New   []int  `json:"new"`
	IDs   []int  `json:"ids"`
	K     string `json:"k"`
	W     int    `json:"w"`
	Alts  []alt  `json:"alts"`
	Obs   []obs  `json:"obs"`
	Accts int    `json:"accts"`
	B0    int64  `json:"b0"`
	Cnt   int    `json:"cnt"`
	Per   int64  `json:"per"`
}

// node of the tree
type node struct {
	id, par int
	h       uint64
	sb      *ledger.SnapshotBlock
	new     []int
}

// sbp answers the pool's questions about producers.
type sbp struct {
	*world.SBP
	nodes int
	per   int64
}

func (s *sbp) GetNodeCount() int { return s.nodes }
func (s *sbp) GetPeriodTimeIndex() core.TimeIndex {
	return core.NewTimeIndex(time.Unix(world.GenesisUnix, 0), time.Duration(s.per)*time.Second)
}

// peer stands for the network: it answers requests for revealed blocks.
type peer struct {
	mu     sync.Mutex
	r      *replay
	onA    net.AccountBlockCallback
	onS    net.SnapshotBlockCallback
	chunks []*net.Chunk
	asked  int
	stop   bool
	queue  chan func()
}

func (p *peer) BroadcastSnapshotBlock(b *ledger.SnapshotBlock)    {}
func (p *peer) BroadcastSnapshotBlocks(b []*ledger.SnapshotBlock) {}
func (p *peer) BroadcastAccountBlock(b *ledger.AccountBlock)      {}
func (p *peer) BroadcastAccountBlocks(b []*ledger.AccountBlock)   {}
func (p *peer) SubscribeAccountBlock(fn net.AccountBlockCallback) int {
	p.onA = fn
	return 1
}
func (p *peer) UnsubscribeAccountBlock(int) {}
func (p *peer) SubscribeSnapshotBlock(fn net.SnapshotBlockCallback) int {
	p.onS = fn
	return 1
}
func (p *peer) UnsubscribeSnapshotBlock(int)                     {}
func (p *peer) SubscribeSyncStatus(fn net.SyncStateCallback) int { return 1 }
func (p *peer) UnsubscribeSyncStatus(int)                        {}
func (p *peer) SyncState() net.SyncState                         { return net.SyncDone }
func (p *peer) Peek() *net.Chunk {
	p.mu.Lock()
	defer p.mu.Unlock()
	if len(p.chunks) == 0 {
		return nil
	}
	return p.chunks[0]
}
func (p *peer) Pop(h types.Hash) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if len(p.chunks) > 0 && p.chunks[0].SnapshotRange[1].Hash == h {
		p.chunks = p.chunks[1:]
	}
}

// later runs f outside the pool's own goroutine, as answers from the network come.
func (p *peer) later(f func()) {
	select {
	case p.queue <- f:
	default:
	}
}
func (p *peer) loop() {
	for f := range p.queue {
		f()
	}
}

func (p *peer) FetchSnapshotBlocks(start types.Hash, count uint64) {
	p.later(func() {
		r := p.r
		r.mu.Lock()
		var out []*ledger.SnapshotBlock
		h := start
		for i := uint64(0); i < count; i++ {
			n := r.byHash[h]
			if n == nil || !r.rev[n.id] {
				break
			}
			out = append(out, r.snap(n.id))
			h = n.sb.PrevHash
		}
		p.asked++
		r.mu.Unlock()
		for i := len(out) - 1; i >= 0; i-- {
			p.onS(out[i], types.RemoteFetch)
		}
	})
}
func (p *peer) FetchSnapshotBlocksWithHeight(hash types.Hash, height uint64, count uint64) {
	p.FetchSnapshotBlocks(hash, count)
}
func (p *peer) FetchAccountBlocks(start types.Hash, count uint64, address *types.Address) {
	p.later(func() {
		r := p.r
		r.mu.Lock()
		var out []*ledger.AccountBlock
		h := start
		for i := uint64(0); i < count; i++ {
			id, ok := r.abHash[h]
			if !ok || !r.abRev[id] {
				break
			}
			out = append(out, r.block(id))
			h = r.abs[id].PrevHash
		}
		p.asked++
		r.mu.Unlock()
		for i := len(out) - 1; i >= 0; i-- {
			p.onA(out[i].AccountAddress, out[i], types.RemoteFetch)
		}
	})
}
func (p *peer) FetchAccountBlocksWithHeight(start types.Hash, count uint64, address *types.Address, sHeight uint64) {
	p.FetchAccountBlocks(start, count, address)
}

type replay struct {
	c      *run.Ctx
	mu     sync.Mutex
	b, w   *world.World
	pool   pool.BlockPool
	peer   *peer
	nodes  map[int]*node
	byHash map[types.Hash]*node
	abs    map[int]*ledger.AccountBlock
	abHash map[types.Hash]int
	rev    map[int]bool
	abRev  map[int]bool
	at     int // node at which the node last rested
	b0     int64
	cnt    int
	per    int64
	prods  []world.Account
}

// snap and block return copies as they come over the wire.
func (r *replay) snap(id int) *ledger.SnapshotBlock {
	buf, err := r.nodes[id].sb.Serialize()
	if err != nil {
		run.Infra("serialize: %v", err)
	}
	n := &ledger.SnapshotBlock{}
	if err := n.Deserialize(buf); err != nil {
		run.Infra("deserialize: %v", err)
	}
	return n
}
func (r *replay) block(id int) *ledger.AccountBlock {
	b, err := world.Wire(r.abs[id])
	if err != nil {
		run.Infra("wire: %v", err)
	}
	return b
}

func (r *replay) path(id int) []int {
	var p []int
	for id != 0 {
		p = append([]int{id}, p...)
		id = r.nodes[id].par
	}
	return p
}

func (r *replay) build(s *step) {
	w := r.b
	switch s.A {
	case "send":
		b, err := w.Send(w.Users[s.Acct-1], w.Users[s.To-1].Addr, world.Vite, world.U(s.Amt), nil)
		r.c.Op(err, "send %d", s.ID)
		r.put(s.ID, b)
	case "recv":
		b, _, _, err := w.Recv(w.Users[s.Acct-1], r.abs[s.From])
		r.c.Op(err, "recv %d", s.ID)
		r.put(s.ID, b)
	case "snap":
		w.SBPAcc = r.prods[s.Prod]
		w.Now = world.GenesisUnix + s.T
		sb, bad, err := w.Snapshot(false)
		r.c.Op(err, "snapshot %d", s.ID)
		if len(bad) > 0 || sb == nil || sb.Height != s.H {
			run.Infra("snapshot %d: height or content off", s.ID)
		}
		n := &node{id: s.ID, par: s.Par, h: s.H, sb: sb, new: s.New}
		r.nodes[s.ID], r.byHash[sb.Hash] = n, n
	case "back":
		_, err := w.Chain.DeleteSnapshotBlocksToHeight(s.H + 1)
		r.c.Op(err, "back to %d", s.ID)
		for _, b := range w.Chain.GetAllUnconfirmedBlocks() {
			if ok, _ := w.Chain.IsAccountBlockExisted(b.Hash); ok {
				_, err := w.Chain.DeleteAccountBlocksToHeight(b.AccountAddress, b.Height)
				r.c.Op(err, "back to %d", s.ID)
			}
		}
	}
}
func (r *replay) put(id int, b *ledger.AccountBlock) {
	if old, ok := r.abs[id]; ok {
		if old.Hash != b.Hash {
			run.Infra("block %d made twice differs", id)
		}
		return
	}
	r.abs[id], r.abHash[b.Hash] = b, id
}

func (r *replay) start() {
	p, err := pool.NewPool(r.w.Chain)
	if err != nil {
		run.Infra("pool: %v", err)
	}
	r.peer = &peer{r: r, queue: make(chan func(), 4096)}
	go r.peer.loop()
	n := 1
	if r.cnt > 0 {
		n = 3 * (r.cnt - 1) / 2
		if n/3*2+1 != r.cnt {
			run.Infra("cnt %d has no node count", r.cnt)
		}
	}
	p.Init(r.peer, r.w.Verifier, &sbp{SBP: r.w.SBP, nodes: n, per: r.per})
	p.Start()
	r.pool = p
}

// close stops the node; one that does not stop is left behind.
func (r *replay) close() {
	if r.pool == nil {
		return
	}
	done := make(chan struct{})
	go func() { r.pool.Stop(); close(done) }()
	select {
	case <-done:
		r.w.Close()
	case <-time.After(10 * time.Second):
		r.c.Notes["unstopped"]++
	}
}

func (r *replay) hand(k string, id int) {
	if k == "s" {
		r.peer.onS(r.snap(id), types.RemoteBroadcast)
	} else {
		b := r.block(id)
		r.peer.onA(b.AccountAddress, b, types.RemoteBroadcast)
	}
}

func (r *replay) head() int {
	h := r.w.Chain.GetLatestSnapshotBlock().Hash
	if n, ok := r.byHash[h]; ok {
		return n.id
	}
	if h == r.w.Chain.GetGenesisSnapshotBlock().Hash {
		return 0
	}
	return -1
}

func in(x int, l []int) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

var limit = 75 * time.Second

func (r *replay) settle(s *step, final bool) {
	var tips []int
	for _, a := range s.Alts {
		if a.H == r.at {
			tips = a.Tips
		}
	}
	if tips == nil {
		run.Infra("rested at %d, which the specification does not know", r.at)
	}
	t0 := time.Now()
	tick := 0
	for !in(r.head(), tips) {
		if time.Since(t0) > limit {
			info, _ := json.Marshal(r.pool.Info())
			r.c.Notes["stuck"]++
			r.c.Fail("rest", "the node rests at %d (height %d), allowed from %d: %v; pool %.1500s", r.head(), r.w.Chain.GetLatestSnapshotBlock().Height, r.at, tips, string(info))
			return
		}
		time.Sleep(20 * time.Millisecond)
		if tick++; tick%500 == 0 {
			fmt.Println("WAIT", r.head(), tips)
		}
	}
	r.c.Notes["settled"]++
	if d := time.Since(t0); d > 10*time.Second {
		r.c.Notes["slow"]++
	}
	stay := 1500 * time.Millisecond
	if final {
		stay = 5 * time.Second
	}
	at := r.head()
	time.Sleep(stay)
	if h := r.head(); h != at {
		r.c.Check("rest", in(h, tips) && in(at, tips), "the node moved from %d to %d at rest, allowed %v", at, h, tips)
		r.c.Notes["moved"]++
		at = h
	}
	if at != r.at && !in(r.at, r.path(at)) && r.at != 0 {
		r.c.Notes["switched"]++
	}
	r.at = at
	for i := range s.Obs {
		if s.Obs[i].N == at {
			r.observe(&s.Obs[i])
		}
	}
}

func (r *replay) observe(o *obs) {
	c, ch := r.c, r.w.Chain
	path := r.path(o.N)
	conf := map[int]types.Hash{}
	for _, id := range path {
		n := r.nodes[id]
		sb, err := ch.GetSnapshotBlockByHeight(n.h)
		c.Check("state", err == nil && sb != nil && sb.Hash == n.sb.Hash, "snapshot block at height %d is not that of node %d (%v)", n.h, id, err)
		for _, b := range n.new {
			conf[b] = n.sb.Hash
		}
	}
	var addrs []types.Address
	for i := range o.Bal {
		addrs = append(addrs, r.w.Users[i].Addr)
	}
	last := ch.GetLatestSnapshotBlock()
	m, err := ch.GetConfirmedBalanceList(addrs, world.Vite, last.Hash)
	c.Check("state", err == nil, "confirmed balances: %v", err)
	for i, a := range addrs {
		v := m[a]
		if v == nil {
			v = new(big.Int)
		}
		c.Check("state", v.Cmp(world.U(o.Bal[i])) == 0, "confirmed balance of account %d is %v, expected %d units at node %d", i+1, v, o.Bal[i], o.N)
	}
	for id, b := range r.abs {
		sb, err := ch.GetConfirmSnapshotHeaderByAbHash(b.Hash)
		want, ok := conf[id]
		if ok {
			c.Check("state", err == nil && sb != nil && sb.Hash == want, "block %d is not confirmed by the snapshot block that contains it (%v)", id, err)
			g, err := ch.GetAccountBlockByHeight(b.AccountAddress, b.Height)
			c.Check("state", err == nil && g != nil && g.Hash == b.Hash, "block %d is not at its height (%v)", id, err)
		} else {
			c.Check("state", sb == nil, "block %d, on another branch, is confirmed", id)
		}
	}
	// what lies above the confirmed part is unconfirmed and consistent
	for i, a := range addrs {
		l, err := ch.GetLatestAccountBlock(a)
		c.Check("state", err == nil && l != nil && l.Height >= uint64(o.Len[i]+1), "account %d is shorter than its confirmed part (%v)", i+1, err)
	}
	if r.cnt > 0 {
		ib := r.pool.GetIrreversibleBlock()
		if o.Irr == 0 {
			c.Check("irr", ib == nil, "irreversible block %v, expected none", ib)
		} else {
			c.Check("irr", ib != nil && ib.Hash == r.nodes[o.Irr].sb.Hash, "irreversible block %v, expected node %d", ib, o.Irr)
		}
		if ib != nil {
			c.Notes["irr"]++
		}
	}
}

func one(c *run.Ctx, line []byte) {
	var steps []step
	if err := json.Unmarshal(line, &steps); err != nil {
		run.Infra("%v", err)
	}
	cfg := steps[0]
	r := &replay{c: c, nodes: map[int]*node{}, byHash: map[types.Hash]*node{}, abs: map[int]*ledger.AccountBlock{}, abHash: map[types.Hash]int{},
		rev: map[int]bool{}, abRev: map[int]bool{}, b0: cfg.B0, cnt: cfg.Cnt, per: cfg.Per}
	for i := 0; i < 9; i++ {
		r.prods = append(r.prods, world.NewAccount(500+i))
	}
	o := world.Options{Users: cfg.Accts, Balance: world.U(cfg.B0)}
	r.b = world.New(c.Scratch("builder"), o)
	defer os.RemoveAll(r.b.Dir)
	defer r.b.Close()
	lastSettle := 0
	for i := range steps {
		if steps[i].A == "settle" {
			lastSettle = i
		}
	}
	for i := range steps {
		s := &steps[i]
		c.Step = i + 1
		switch s.A {
		case "send", "recv", "snap", "back":
			r.build(s)
		case "reveal":
			if r.w == nil {
				r.w = world.New(c.Scratch("node"), o)
				defer r.close()
				r.start()
			}
			r.mu.Lock()
			for _, id := range s.IDs {
				r.rev[id] = true
				for _, b := range r.nodes[id].new {
					r.abRev[b] = true
				}
			}
			r.mu.Unlock()
		case "hand":
			r.hand(s.K, s.ID)
			time.Sleep(time.Duration(s.W) * time.Millisecond)
		case "skip":
			c.Notes["skipped"]++
		case "chunk":
			var cs []ledger.SnapshotChunk
			for _, id := range s.IDs {
				k := ledger.SnapshotChunk{SnapshotBlock: r.snap(id)}
				for _, b := range r.nodes[id].new {
					k.AccountBlocks = append(k.AccountBlocks, r.block(b))
				}
				cs = append(cs, k)
			}
			c.Notes["chunks"]++
			r.peer.mu.Lock()
			r.peer.chunks = append(r.peer.chunks, net.NewChunk(cs, types.RemoteSync))
			r.peer.mu.Unlock()
			time.Sleep(time.Duration(s.W) * time.Millisecond)
		case "settle":
			r.settle(s, i == lastSettle)
		case "end":
			return
		}
	}
}

func main() {
	if os.Getenv("VERIF_LOG") != "" {
		log15.Root().SetHandler(log15.StreamHandler(os.Stderr, log15.LogfmtFormat()))
	}
	run.Main(one)
}
