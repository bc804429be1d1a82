package main

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sync"
	"sync/atomic"

	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/zz_verif/world"
)

// Readers ask while the ledger changes: every answer must be that of the ledger
// before or after the change.

type query struct {
	what string
	ask  func() string
	free bool // asked only to find unsynchronised accesses: the answer is not judged
}

type conc struct {
	qs    []query
	stop  int32
	wg    sync.WaitGroup
	mu    sync.Mutex
	seen  []map[string]int
	pre   []string
	count int64
	crash string
}

func abKey(b *ledger.AccountBlock, err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	if b == nil {
		return "none"
	}
	return fmt.Sprintf("%s %s/%d %d %s", b.Hash, b.AccountAddress, b.Height, len(b.SendBlockList), b.PrevHash)
}

func sbKey(b *ledger.SnapshotBlock, err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	if b == nil {
		return "none"
	}
	return fmt.Sprintf("%s/%d", b.Hash, b.Height)
}

func valKey(v interface{}, err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	return fmt.Sprint(v)
}

func (r *rep) concQueries(s *step) (qs []query) {
	ch := r.w.Chain
	// a roll back works in several steps: its intermediate states may be seen
	loose := s.A == "delacct" || s.A == "delsnap" || len(s.Rej) > 0
	add := func(f func() string, what string, a ...interface{}) {
		qs = append(qs, query{fmt.Sprintf(what, a...), f, loose})
	}
	free := func(f func()) { qs = append(qs, query{"", func() string { f(); return "" }, true}) }
	add(func() string { return sbKey(ch.GetLatestSnapshotBlock(), nil) }, "latest snapshot")
	top := uint64(len(r.o.Sids) + 1)
	for d := uint64(0); d < 3 && top+1 > d; d++ {
		h := top + 1 - d
		if h == 0 {
			continue
		}
		add(func() string { return sbKey(ch.GetSnapshotBlockByHeight(h)) }, "snapshot block at %d", h)
		add(func() string { return sbKey(ch.GetSnapshotHeaderByHeight(h)) }, "snapshot header at %d", h)
	}
	if n := len(r.o.Sids); n > 0 {
		h := r.snap[r.o.Sids[n-1]].Hash
		add(func() string { return sbKey(ch.GetSnapshotBlockByHash(h)) }, "snapshot block %s", h)
	}
	for _, n := range r.accts {
		n, a := n, r.addr[n]
		hot := n == s.From || n == s.Acct || n == s.To || s.A == "snap" || s.A == "delsnap" || s.A == "flush"
		if !hot {
			continue
		}
		add(func() string { return abKey(ch.GetLatestAccountBlock(a)) }, "latest block of %s", n)
		add(func() string { return valKey(ch.GetLatestAccountHeight(a)) }, "height of %s", n)
		for t, id := range toks {
			id := id
			add(func() string { return valKey(ch.GetBalance(a, id)) }, "balance of %s in %s", n, t)
		}
		hh := uint64(len(r.o.Ids[n]))
		for d := uint64(0); d < 2 && d < hh+1; d++ {
			h := hh + 1 - d
			add(func() string { return abKey(ch.GetAccountBlockByHeight(a, h)) }, "block %s/%d", n, h)
		}
		if hh > 0 {
			h := r.block(n, int(hh)).b.Hash
			add(func() string { return abKey(ch.GetAccountBlockByHash(h)) }, "block %s/%d by hash", n, hh)
			add(func() string { return sbKey(ch.GetConfirmSnapshotHeaderByAbHash(h)) }, "snapshot confirming %s/%d", n, hh)
			add(func() string { return valKey(ch.GetConfirmedTimes(h)) }, "confirmations of %s/%d", n, hh)
		}
	}
	if s.A == "recv" || s.A == "crecv" {
		h := r.snd[s.Src].b.Hash
		add(func() string { return abKey(ch.GetReceiveAbBySendAb(h)) }, "receive of #%d", s.Src)
		add(func() string { return valKey(ch.IsReceived(h)) }, "received #%d", s.Src)
	}
	sb := ch.GetLatestSnapshotBlock()
	var all []types.Address
	for _, n := range r.accts {
		all = append(all, r.addr[n])
	}
	for i, n := range r.accts {
		if i%4 != len(r.o.Sids)%4 {
			continue
		}
		n, a := n, r.addr[n]
		free(func() { ch.GetBalanceMap(a) })
		free(func() { ch.GetOnRoadBlocksByAddr(a, 0, 100) })
		free(func() { ch.GetAccountOnRoadInfo(a) })
		free(func() { ch.GetUnconfirmedBlocks(a) })
		free(func() { ch.GetQuotaUsedList(a); ch.GetQuotaUnused(a) })
		free(func() { ch.GetStakeBeneficialAmount(a); ch.GetStakeQuota(a) })
		free(func() { ch.GetAccountBlocksByHeight(a, 100, 10) })
		if n[0] == 'c' {
			free(func() { ch.GetContractMeta(a); ch.GetContractCode(a); ch.GetValue(a, []byte{1}) })
			free(func() {
				if it, err := ch.GetStorageIterator(a, nil); err == nil {
					for it.Next() {
						it.Key()
						it.Value()
					}
					it.Release()
				}
			})
			free(func() { r.w.OnRoad.GetAllCallersFrontOnRoad(types.DELEGATE_GID, a) })
			free(func() { ch.GetVMLogListByAddress(a, 1, 100, nil) })
		}
	}
	free(func() { ch.GetAllUnconfirmedBlocks(); ch.GetContentNeedSnapshot(); ch.GetContentNeedSnapshotRange() })
	free(func() { ch.GetConfirmedBalanceList(all, world.Vite, sb.Hash) })
	free(func() { ch.GetSubLedger(1, sb.Height) })
	free(func() { ch.GetSubLedgerAfterHeight(sb.Height - 1) })
	free(func() { ch.GetSnapshotBlocks(sb.Hash, false, 5); ch.GetSnapshotHeadersByHeight(1, true, 100) })
	free(func() { ch.GetContractList(types.DELEGATE_GID); ch.LoadAllOnRoad() })
	free(func() {
		ch.GetRegisterList(sb.Hash, types.SNAPSHOT_GID)
		ch.GetConsensusGroupList(sb.Hash)
		ch.GetVoteList(sb.Hash, types.SNAPSHOT_GID)
	})
	free(func() { ch.GetAllTokenInfo(); ch.GetTokenInfoById(world.Vite); ch.GetGlobalQuota() })
	return
}

func (r *rep) concStart(s *step) *conc {
	c := &conc{qs: r.concQueries(s)}
	c.seen = make([]map[string]int, len(c.qs))
	c.pre = make([]string, len(c.qs))
	for i, q := range c.qs {
		c.pre[i] = q.ask()
		c.seen[i] = map[string]int{}
	}
	for k := 0; k < 2; k++ {
		k := k
		c.wg.Add(1)
		go func() {
			defer c.wg.Done()
			defer func() {
				if e := recover(); e != nil {
					c.mu.Lock()
					c.crash = fmt.Sprintf("%v\n%s", e, debug.Stack())
					c.mu.Unlock()
				}
			}()
			mine := make([]map[string]int, len(c.qs))
			n := int64(0)
			for i := k * len(c.qs) / 2; atomic.LoadInt32(&c.stop) == 0; i = (i + 1) % len(c.qs) {
				if mine[i] == nil {
					mine[i] = map[string]int{}
				}
				mine[i][c.qs[i].ask()]++
				n++
			}
			c.mu.Lock()
			c.count += n
			for i := range mine {
				for v := range mine[i] {
					c.seen[i][v] += mine[i][v]
				}
			}
			c.mu.Unlock()
		}()
	}
	runtime.Gosched()
	return c
}

func (r *rep) concStop(c *conc, s *step) {
	atomic.StoreInt32(&c.stop, 1)
	c.wg.Wait()
	r.Check("conc", c.crash == "", "during %s: a query crashes: %s", s.A, c.crash)
	for i, q := range c.qs {
		if q.free {
			continue
		}
		post := q.ask()
		for v, n := range c.seen[i] {
			r.Check("conc", v == c.pre[i] || v == post, "during %s: %s is (%d times) %q, before %q, after %q", s.A, q.what, n, v, c.pre[i], post)
		}
	}
	r.Notes["queries"] += int(c.count)
}
