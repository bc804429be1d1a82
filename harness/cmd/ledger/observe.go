package main

import (
	"bytes"
	"io"

	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	chain_plugins "github.com/vitelabs/go-vite/v2/ledger/chain/plugins"
	"github.com/vitelabs/go-vite/v2/net"
	"github.com/vitelabs/go-vite/v2/zz_verif/world"
)

// line of snapshot n (0: genesis)
func (r *rep) lineAt(n int) map[string]int {
	if n == 0 {
		m := map[string]int{}
		for _, a := range r.accts {
			if a[0] != 'c' {
				m[a] = 1
			}
		}
		return m
	}
	return r.o.Lines[n-1]
}

// confirming snapshot (index 1.., 0: genesis, -1: none)
func (r *rep) confirmer(a string, h int) int {
	for n := 0; n <= len(r.o.Sids); n++ {
		if r.lineAt(n)[a] >= h {
			return n
		}
	}
	return -1
}

func (r *rep) snapAt(n int) *ledger.SnapshotBlock {
	if n == 0 {
		return r.snap[0]
	}
	return r.snap[r.o.Sids[n-1]]
}

func sameBlock(x, y *ledger.AccountBlock) bool {
	if x == nil || y == nil {
		return x == y
	}
	if x.Hash != y.Hash || x.AccountAddress != y.AccountAddress || x.Height != y.Height || x.PrevHash != y.PrevHash || x.BlockType != y.BlockType || x.FromBlockHash != y.FromBlockHash || x.ToAddress != y.ToAddress || x.TokenId != y.TokenId || !bytes.Equal(x.Data, y.Data) || len(x.SendBlockList) != len(y.SendBlockList) {
		return false
	}
	if (x.Amount != nil && y.Amount != nil && x.Amount.Cmp(y.Amount) != 0) || x.QuotaUsed != y.QuotaUsed {
		return false
	}
	for i := range x.SendBlockList {
		if x.SendBlockList[i].Hash != y.SendBlockList[i].Hash || x.SendBlockList[i].Amount.Cmp(y.SendBlockList[i].Amount) != 0 {
			return false
		}
	}
	return true
}

func sameSnap(x, y *ledger.SnapshotBlock) bool {
	if x == nil || y == nil {
		return x == y
	}
	return x.Hash == y.Hash && x.Height == y.Height && x.PrevHash == y.PrevHash && x.Timestamp.Equal(*y.Timestamp) && x.Seed == y.Seed
}

func (r *rep) obsIndex() {
	ch := r.w.Chain
	g := "index"
	in := map[int]bool{}
	liveHash := map[types.Hash]bool{}
	recvHash := map[types.Hash]bool{}
	recvBy := map[int]int{}
	for _, a := range r.accts {
		ids := r.o.Ids[a]
		n := len(ids)
		last, err := ch.GetLatestAccountBlock(r.addr[a])
		r.Op(err, "latest block of %s", a)
		if n == 0 {
			r.Check(g, last == nil, "account %s has a latest block, expected none", a)
		} else {
			r.Check(g, sameBlock(last, r.block(a, n).b), "latest block of %s differs", a)
		}
		for h := 1; h <= n; h++ {
			x := r.block(a, h)
			if ids[h-1] != 0 {
				in[ids[h-1]] = true
				liveHash[x.b.Hash] = true
				for _, o := range x.outs {
					liveHash[r.snd[o.Sid].b.Hash] = true
				}
				if x.src != 0 {
					recvHash[r.snd[x.src].b.Hash] = true
					recvBy[x.src] = ids[h-1]
				}
			}
			b, err := ch.GetAccountBlockByHeight(r.addr[a], uint64(h))
			r.Op(err, "block by height")
			r.Check(g, sameBlock(b, x.b), "block %s/%d by height differs", a, h)
			hh, err := ch.GetAccountBlockHashByHeight(r.addr[a], uint64(h))
			r.Op(err, "hash by height")
			r.Check(g, hh != nil && *hh == x.b.Hash, "hash of %s/%d by height is %v, expected %s", a, h, hh, x.b.Hash)
			b, err = ch.GetAccountBlockByHash(x.b.Hash)
			r.Op(err, "block by hash")
			r.Check(g, sameBlock(b, x.b), "block %s/%d by hash differs", a, h)
			ex, err := ch.IsAccountBlockExisted(x.b.Hash)
			r.Op(err, "existence")
			r.Check(g, ex, "block %s/%d does not exist by hash", a, h)
			// confirmation
			cf := r.confirmer(a, h)
			sb, err := ch.GetConfirmSnapshotHeaderByAbHash(x.b.Hash)
			r.Op(err, "confirming snapshot")
			ct, err := ch.GetConfirmedTimes(x.b.Hash)
			r.Op(err, "confirmed times")
			if cf < 0 {
				r.Check(g, sb == nil && ct == 0, "block %s/%d is unconfirmed but has %d confirmations", a, h, ct)
			} else {
				r.Check(g, sb != nil && sb.Hash == r.snapAt(cf).Hash, "block %s/%d is confirmed by another snapshot than %d", a, h, cf+1)
				r.Check(g, int(ct) == len(r.o.Sids)-cf+1, "block %s/%d has %d confirmations, expected %d", a, h, ct, len(r.o.Sids)-cf+1)
				for k := uint64(1); k <= 2; k++ {
					seeds := uint64(0)
					for m := cf; m <= len(r.o.Sids); m++ {
						if r.snapAt(m).Seed > 0 {
							seeds++
						}
					}
					ok, err := ch.IsSeedConfirmedNTimes(x.b.Hash, k)
					r.Op(err, "seed confirmed")
					r.Check(g, ok == (seeds >= k), "block %s/%d seed-confirmed %d times: %v, expected %v", a, h, k, ok, seeds >= k)
				}
			}
			for _, o := range x.outs {
				sd := r.snd[o.Sid]
				b, err := ch.GetAccountBlockByHash(sd.b.Hash)
				r.Op(err, "send by hash")
				r.Check(g, b != nil && b.Hash == sd.b.Hash && b.ToAddress == sd.b.ToAddress, "send #%d by hash differs", o.Sid)
				full, err := ch.GetCompleteBlockByHash(sd.b.Hash)
				r.Op(err, "complete block")
				r.Check(g, sameBlock(full, x.b), "complete block of send #%d differs", o.Sid)
			}
			if len(x.log) != 0 {
				lg, err := ch.GetVmLogList(x.b.LogHash)
				r.Op(err, "vm log")
				r.Check(g, len(lg) == len(x.log), "log of %s/%d is %v, expected topics %v", a, h, lg, x.log)
				for i, t := range x.log {
					r.Check(g, len(lg[i].Topics) == 1 && int(lg[i].Topics[0][31]) == t, "log %d of %s/%d is %v, expected topic %d", i, a, h, lg[i], t)
				}
			}
		}
		b, err := ch.GetAccountBlockByHeight(r.addr[a], uint64(n+1))
		r.Op(err, "block above the head")
		r.Check(g, b == nil, "account %s has a block at height %d above its head", a, n+1)
		// ranges
		for _, cnt := range []int{1, 3, n} {
			if n == 0 || cnt == 0 {
				continue
			}
			for _, top := range []int{n, (n + 1) / 2} {
				l, err := ch.GetAccountBlocksByHeight(r.addr[a], uint64(top), uint64(cnt))
				r.Op(err, "range")
				r.checkRange(a, l, top, cnt, "by height")
				l, err = ch.GetAccountBlocks(r.block(a, top).b.Hash, uint64(cnt))
				r.Op(err, "range")
				r.checkRange(a, l, top, cnt, "by hash")
				lo := top - cnt + 1
				if lo < 1 {
					lo = 1
				}
				l, err = ch.GetAccountBlocksByRange(r.addr[a], uint64(lo), uint64(top))
				r.Op(err, "range")
				r.checkRange(a, l, top, cnt, "by range")
			}
		}
		if a[0] == 'c' && n > 0 {
			lg, err := ch.GetVMLogListByAddress(r.addr[a], 1, uint64(n), nil)
			r.Op(err, "logs of account")
			var want []int
			for h := n; h >= 1; h-- {
				want = append(want, r.block(a, h).log...)
			}
			r.Check(g, len(lg) == len(want), "account %s has %d logs, expected %d", a, len(lg), len(want))
		}
		// unconfirmed blocks of the account
		var wu []types.Hash
		for _, id := range r.o.Order {
			if r.blk[id].acct == a {
				wu = append(wu, r.blk[id].b.Hash)
			}
		}
		r.checkHashes(g, hashesOf(ch.GetUnconfirmedBlocks(r.addr[a])), wu, "unconfirmed blocks of "+a)
		r.obsFilterToken(a)
	}
	var wo []types.Hash
	need := map[types.Address]*ledger.HashHeight{}
	for _, id := range r.o.Order {
		b := r.blk[id].b
		wo = append(wo, b.Hash)
		need[b.AccountAddress] = &ledger.HashHeight{Height: b.Height, Hash: b.Hash}
	}
	r.checkHashes(g, hashesOf(ch.GetAllUnconfirmedBlocks()), wo, "unconfirmed blocks")
	content := ch.GetContentNeedSnapshot()
	r.Check(g, len(content) == len(need), "content to snapshot has %d accounts, expected %d", len(content), len(need))
	for a, hh := range need {
		r.Check(g, content[a] != nil && content[a].Hash == hh.Hash && content[a].Height == hh.Height, "content to snapshot of %s differs", r.name[a])
	}
	// blocks that left the ledger
	for id, x := range r.blk {
		if in[id] || liveHash[x.b.Hash] {
			continue
		}
		ex, err := ch.IsAccountBlockExisted(x.b.Hash)
		r.Op(err, "existence")
		r.Check(g, !ex, "block #%d of %s left the ledger but exists by hash", id, x.acct)
		b, err := ch.GetAccountBlockByHash(x.b.Hash)
		r.Op(err, "by hash")
		r.Check(g, b == nil, "block #%d of %s left the ledger but is found by hash", id, x.acct)
	}
	// send/receive pairing
	for sid, sd := range r.snd {
		if !in[sd.owner] {
			if recvHash[sd.b.Hash] {
				continue
			}
			ok, err := ch.IsReceived(sd.b.Hash)
			r.Op(err, "IsReceived")
			r.Check(g, !ok, "send #%d left the ledger but counts as received", sid)
			continue
		}
		ok, err := ch.IsReceived(sd.b.Hash)
		r.Op(err, "IsReceived")
		id, want := recvBy[sid]
		r.Check(g, ok == want, "send #%d received=%v, expected %v", sid, ok, want)
		rb, err := ch.GetReceiveAbBySendAb(sd.b.Hash)
		r.Op(err, "receive of send")
		if want {
			r.Check(g, rb != nil && rb.Hash == r.blk[id].b.Hash, "receive of send #%d is not #%d", sid, id)
		} else {
			r.Check(g, rb == nil, "receive of send #%d exists, expected none", sid)
		}
	}
	// snapshots
	n := len(r.o.Sids)
	tip := r.snapAt(n)
	r.Check(g, ch.GetLatestSnapshotBlock().Hash == tip.Hash, "latest snapshot differs")
	for i := 0; i <= n; i++ {
		want := r.snapAt(i)
		h := uint64(i + 1)
		sb, err := ch.GetSnapshotBlockByHeight(h)
		r.Op(err, "snapshot by height")
		r.Check(g, sameSnap(sb, want) && sameContent(sb, want), "snapshot %d by height differs", h)
		sb, err = ch.GetSnapshotBlockByHash(want.Hash)
		r.Op(err, "snapshot by hash")
		r.Check(g, sameSnap(sb, want) && sameContent(sb, want), "snapshot %d by hash differs", h)
		sb, err = ch.GetSnapshotHeaderByHeight(h)
		r.Op(err, "snapshot header")
		r.Check(g, sameSnap(sb, want), "snapshot header %d differs", h)
		sb, err = ch.GetSnapshotHeaderByHash(want.Hash)
		r.Op(err, "snapshot header")
		r.Check(g, sameSnap(sb, want), "snapshot header %d by hash differs", h)
		hh, err := ch.GetSnapshotHeightByHash(want.Hash)
		r.Op(err, "snapshot height")
		r.Check(g, hh == h, "height of snapshot %d is %d", h, hh)
		hs, err := ch.GetSnapshotHashByHeight(h)
		r.Op(err, "snapshot hash")
		r.Check(g, hs != nil && *hs == want.Hash, "hash of snapshot %d differs", h)
		ex, err := ch.IsSnapshotBlockExisted(want.Hash)
		r.Op(err, "snapshot existence")
		r.Check(g, ex, "snapshot %d does not exist", h)
		// time queries
		for _, d := range []int64{0, 1} {
			t := want.Timestamp.Unix() + d
			wantI := -1
			for j := 0; j <= n; j++ {
				if r.snapAt(j).Timestamp.Unix() < t {
					wantI = j
				}
			}
			tt := world.Time(t)
			sb, err := ch.GetSnapshotHeaderBeforeTime(&tt)
			r.Op(err, "snapshot before time")
			if wantI < 0 {
				r.Check(g, sb == nil, "a snapshot before %d exists", t)
			} else {
				r.Check(g, sb != nil && sb.Hash == r.snapAt(wantI).Hash, "snapshot before %d is not %d", t, wantI+1)
			}
			if d == 0 {
				l, err := ch.GetSnapshotHeadersAfterOrEqualTime(&ledger.HashHeight{Hash: tip.Hash, Height: tip.Height}, &tt, nil)
				r.Op(err, "snapshots after time")
				k := 0
				for j := n; j >= 1; j-- {
					if r.snapAt(j).Timestamp.Unix() >= t {
						r.Check(g, k < len(l) && l[k].Hash == r.snapAt(j).Hash, "snapshots at or after %d lack %d", t, j+1)
						k++
					}
				}
				r.Check(g, k == len(l), "snapshots at or after %d: %d, expected %d", t, len(l), k)
			}
		}
	}
	if sb, err := ch.GetSnapshotBlockByHeight(uint64(n + 2)); true {
		r.Op(err, "snapshot above the head")
		r.Check(g, sb == nil, "a snapshot above the head exists")
	}
	live := map[types.Hash]bool{r.snap[0].Hash: true}
	for _, s := range r.o.Sids {
		live[r.snap[s].Hash] = true
	}
	for _, sb := range r.snap {
		if !live[sb.Hash] {
			ex, err := ch.IsSnapshotBlockExisted(sb.Hash)
			r.Op(err, "existence")
			r.Check(g, !ex, "a deleted snapshot exists by hash")
		}
	}
	for _, higher := range []bool{true, false} {
		mid := (n + 1) / 2
		for _, cnt := range []int{1, 2, n + 1} {
			l, err := ch.GetSnapshotBlocks(r.snapAt(mid).Hash, higher, uint64(cnt))
			r.Op(err, "snapshot range")
			r.checkSnaps(l, mid, higher, cnt, "by hash")
			l, err = ch.GetSnapshotHeaders(r.snapAt(mid).Hash, higher, uint64(cnt))
			r.Op(err, "snapshot range")
			r.checkSnaps(l, mid, higher, cnt, "headers by hash")
			l, err = ch.GetSnapshotBlocksByHeight(uint64(mid+1), higher, uint64(cnt))
			r.Op(err, "snapshot range")
			r.checkSnaps(l, mid, higher, cnt, "by height")
			l, err = ch.GetSnapshotHeadersByHeight(uint64(mid+1), higher, uint64(cnt))
			r.Op(err, "snapshot range")
			r.checkSnaps(l, mid, higher, cnt, "headers by height")
		}
		l, err := ch.GetRangeSnapshotBlocks(r.snapAt(mid).Hash, r.snapAt(n).Hash)
		r.Op(err, "snapshot range")
		r.checkSnaps(l, mid, true, n-mid+1, "range")
	}
	// accounts
	seen := map[types.Address]int{}
	ids := map[uint64]bool{}
	ch.IterateAccounts(func(a types.Address, id uint64, err error) bool {
		r.Op(err, "iterate accounts")
		seen[a]++
		r.Check(g, !ids[id], "two accounts have id %d", id)
		ids[id] = true
		return true
	})
	for _, a := range r.accts {
		if len(r.o.Ids[a]) > 0 {
			r.Check(g, seen[r.addr[a]] == 1, "account %s is listed %d times", a, seen[r.addr[a]])
		}
	}
	// sub ledgers
	if n >= 1 {
		ck, err := ch.GetSubLedger(1, uint64(n+1))
		r.Op(err, "sub ledger")
		r.checkChunks(ck, n)
	}
}

func (r *rep) checkChunks(ck []*ledger.SnapshotChunk, n int) {
	g := "index"
	// the first chunk is the start block, the rest are complete
	r.Check(g, len(ck) == n+1, "sub ledger has %d chunks, expected %d", len(ck), n+1)
	for i := 1; i <= n && i < len(ck); i++ {
		r.Check(g, sameSnap(ck[i].SnapshotBlock, r.snapAt(i)), "sub ledger chunk %d has another snapshot", i+1)
		want := map[types.Hash]bool{}
		for _, a := range r.accts {
			for h := r.lineAt(i - 1)[a] + 1; h <= r.lineAt(i)[a]; h++ {
				want[r.block(a, h).b.Hash] = true
			}
		}
		pos := map[types.Hash]int{}
		r.Check(g, len(ck[i].AccountBlocks) == len(want), "sub ledger chunk %d has %d account blocks, expected %d", i+1, len(ck[i].AccountBlocks), len(want))
		for j, b := range ck[i].AccountBlocks {
			r.Check(g, want[b.Hash], "sub ledger chunk %d has a block that snapshot does not confirm", i+1)
			pos[b.Hash] = j
			for _, s := range b.SendBlockList {
				pos[s.Hash] = j
			}
		}
		for j, b := range ck[i].AccountBlocks {
			if p, ok := pos[b.PrevHash]; ok {
				r.Check(g, p < j, "sub ledger chunk %d lists a block before its predecessor", i+1)
			}
			if p, ok := pos[b.FromBlockHash]; ok && b.IsReceiveBlock() {
				r.Check(g, p < j, "sub ledger chunk %d lists a receive before its send", i+1)
			}
		}
	}
}

func sameContent(x, y *ledger.SnapshotBlock) bool {
	if x == nil || len(x.SnapshotContent) != len(y.SnapshotContent) {
		return false
	}
	for a, hh := range y.SnapshotContent {
		z := x.SnapshotContent[a]
		if z == nil || z.Hash != hh.Hash || z.Height != hh.Height {
			return false
		}
	}
	return true
}

func (r *rep) checkSnaps(l []*ledger.SnapshotBlock, mid int, higher bool, cnt int, what string) {
	n := len(r.o.Sids)
	var want []int
	for i := 0; i < cnt; i++ {
		j := mid - i
		if higher {
			j = mid + i
		}
		if j < 0 || j > n {
			break
		}
		want = append(want, j)
	}
	r.Check("index", len(l) == len(want), "snapshots %s from %d higher=%v count %d: %d returned, expected %d", what, mid+1, higher, cnt, len(l), len(want))
	for i := range want {
		r.Check("index", sameSnap(l[i], r.snapAt(want[i])), "snapshots %s from %d higher=%v: entry %d is not %d", what, mid+1, higher, i, want[i]+1)
	}
}

func (r *rep) checkRange(a string, l []*ledger.AccountBlock, top, cnt int, what string) {
	want := cnt
	if top < want {
		want = top
	}
	r.Check("index", len(l) == want, "blocks of %s %s from %d count %d: %d returned, expected %d", a, what, top, cnt, len(l), want)
	for i, b := range l {
		r.Check("index", sameBlock(b, r.block(a, top-i).b), "blocks of %s %s from %d: entry %d differs", a, what, top, i)
	}
}

func hashesOf(l []*ledger.AccountBlock) (r []types.Hash) {
	for _, b := range l {
		r = append(r, b.Hash)
	}
	return
}

func (r *rep) checkHashes(g string, got, want []types.Hash, what string) {
	r.Check(g, len(got) == len(want), "%s: %d, expected %d", what, len(got), len(want))
	for i := range want {
		r.Check(g, got[i] == want[i], "%s: entry %d differs", what, i)
	}
}

func (r *rep) obsFilterToken(a string) {
	p := r.w.Chain.Plugins()
	if p == nil {
		return
	}
	ft, ok := p.GetPlugin("filterToken").(*chain_plugins.FilterToken)
	if !ok {
		r.Fail("index", "no token filter plugin")
		return
	}
	for t, id := range toks {
		var want []int
		for h := len(r.o.Ids[a]); h >= 2 || (h >= 1 && a[0] == 'c'); h-- {
			x := r.block(a, h)
			hit := false
			for _, o := range x.outs {
				if o.Tok == t {
					hit = true
				}
			}
			if x.src != 0 && r.snd[x.src].s.Tok == t {
				hit = true
			}
			if hit {
				want = append(want, h)
			}
		}
		l, err := ft.GetBlocks(r.addr[a], id, nil, 1000)
		r.Op(err, "token filter")
		if a[0] != 'c' && len(l) > 0 && l[len(l)-1].Height == 1 {
			l = l[:len(l)-1]
		}
		r.Check("index", len(l) == len(want), "token filter of %s/%s lists %d blocks, expected %d", a, t, len(l), len(want))
		for i, h := range want {
			r.Check("index", l[i].Hash == r.block(a, h).b.Hash, "token filter of %s/%s: entry %d is not height %d", a, t, i, h)
		}
	}
}

// state as of every snapshot that is still there
func (r *rep) obsHistory() {
	ch := r.w.Chain
	_, _, sdb := ch.DBs()
	g := "history"
	var all []types.Address
	for _, a := range r.accts {
		all = append(all, r.addr[a])
	}
	for n := 0; n <= len(r.o.Sids); n++ {
		line := r.lineAt(n)
		sb := r.snapAt(n)
		for t, id := range toks {
			m, err := ch.GetConfirmedBalanceList(all, id, sb.Hash)
			r.Op(err, "balances at snapshot %d", n+1)
			for _, a := range r.accts {
				want := int64(0)
				if line[a] > 0 {
					want = r.block(a, line[a]).bal[t]
				}
				v := m[r.addr[a]]
				r.Check(g, (v == nil && want == 0) || (v != nil && v.Cmp(world.U(want)) == 0), "balance of %s in %s at snapshot %d is %v, expected %d", a, t, n+1, v, want)
			}
		}
		for _, c := range r.accts {
			if c[0] != 'c' {
				continue
			}
			want := map[int]int64{}
			if line[c] > 0 {
				want = r.block(c, line[c]).sto
			}
			nz := map[string][]byte{}
			for _, k := range []int{1, 2, 9} {
				v, err := sdb.GetSnapshotValue(sb.Height, r.addr[c], world.StorageKey(int64(k)))
				r.Op(err, "storage at snapshot")
				r.Check(g, bytes.Equal(v, trimmed(want[k])), "storage %d of %s at snapshot %d is %x, expected %x", k, c, n+1, v, trimmed(want[k]))
				if want[k] != 0 {
					nz[string(world.StorageKey(int64(k)))] = trimmed(want[k])
				}
			}
			sd, err := sdb.NewStorageDatabase(sb.Hash, r.addr[c])
			r.Op(err, "storage database at snapshot")
			for k, v := range nz {
				x, err := sd.GetValue([]byte(k))
				r.Op(err, "storage database value")
				r.Check(g, bytes.Equal(x, v), "storage database of %s at snapshot %d: %x, expected %x", c, n+1, x, v)
			}
			it, err := sd.NewStorageIterator(nil)
			r.Op(err, "storage iterator at snapshot")
			cnt := 0
			for it.Next() {
				if len(it.Value()) == 0 {
					continue // the history keeps a cleared slot as an empty value
				}
				cnt++
				r.Check(g, bytes.Equal(nz[string(it.Key())], it.Value()), "storage iteration of %s at snapshot %d yields %x=%x", c, n+1, it.Key(), it.Value())
			}
			it.Release()
			r.Check(g, cnt == len(nz), "storage iteration of %s at snapshot %d yields %d entries, expected %d", c, n+1, cnt, len(nz))
			meta, err := ch.GetContractMetaInSnapshot(r.addr[c], sb.Height)
			r.Op(err, "contract meta at snapshot")
			ex := r.created(c) != nil && line["d"+c[1:]] >= 2
			r.Check(g, (meta != nil) == ex, "contract %s at snapshot %d present=%v, expected %v", c, n+1, meta != nil, ex)
		}
	}
}

// calls on the road
func (r *rep) obsOnroad() {
	ch := r.w.Chain
	g := "onroad"
	all, err := ch.LoadAllOnRoad()
	r.Op(err, "LoadAllOnRoad")
	for _, a := range r.accts {
		want := map[types.Hash]int{}
		num := map[string]int64{}
		amt := map[string]int64{}
		for _, sid := range r.o.Pend[a] {
			want[r.snd[sid].b.Hash] = sid
			num[r.snd[sid].s.Tok]++
			amt[r.snd[sid].s.Tok] += r.snd[sid].s.Amt
		}
		r.Check(g, len(all[r.addr[a]]) == len(want), "%s has %d sends on the road, expected %d", a, len(all[r.addr[a]]), len(want))
		for _, h := range all[r.addr[a]] {
			_, ok := want[h]
			r.Check(g, ok, "%s: send on the road %s is not pending", a, h)
		}
		l, err := ch.GetOnRoadBlocksByAddr(r.addr[a], 0, 1000)
		r.Op(err, "on-road blocks")
		r.Check(g, len(l) == len(want), "%s lists %d on-road blocks, expected %d", a, len(l), len(want))
		var pages []types.Hash
		for p := 0; p*2 < len(want); p++ {
			q, err := ch.GetOnRoadBlocksByAddr(r.addr[a], p, 2)
			r.Op(err, "on-road page")
			pages = append(pages, hashesOf(q)...)
		}
		r.checkHashes(g, pages, hashesOf(l), "on-road pages of "+a)
		info, err := ch.GetAccountOnRoadInfo(r.addr[a])
		r.Op(err, "on-road info")
		total := uint64(0)
		if info != nil {
			total = info.TotalNumber
		}
		r.Check(g, int(total) == len(want), "on-road info of %s counts %d, expected %d", a, total, len(want))
		if info != nil {
			for t, id := range toks {
				bi := info.TokenBalanceInfoMap[id]
				if bi == nil {
					r.Check(g, num[t] == 0, "on-road info of %s lacks %s", a, t)
				} else {
					r.Check(g, int64(bi.Number) == num[t] && bi.TotalAmount.Cmp(world.U(amt[t])) == 0, "on-road info of %s in %s: %d sends, %s; expected %d, %d", a, t, bi.Number, bi.TotalAmount.String(), num[t], amt[t])
				}
			}
		}
		if a[0] != 'c' {
			continue
		}
		// front call of every caller
		front := map[string]int{}
		for _, sid := range r.o.Pend[a] {
			f := r.snd[sid].from
			if cur, ok := front[f]; !ok || sid < cur {
				front[f] = sid
			}
		}
		fl, err := r.w.OnRoad.GetAllCallersFrontOnRoad(types.DELEGATE_GID, r.addr[a])
		r.Op(err, "front calls")
		got := map[types.Hash]bool{}
		for _, b := range fl {
			got[b.Hash] = true
		}
		r.Check(g, len(fl) == len(got) && len(got) == len(front), "contract %s has %d front calls, expected %d", a, len(fl), len(front))
		for f, sid := range front {
			r.Check(g, got[r.snd[sid].b.Hash], "front call of %s to %s is not #%d", f, a, sid)
		}
		for _, sid := range r.o.Pend[a] {
			sd := r.snd[sid]
			ok, _ := r.w.OnRoad.IsFrontOnRoadOfCaller(types.DELEGATE_GID, r.addr[a], r.addr[sd.from], sd.b.Hash)
			r.Check(g, ok == (front[sd.from] == sid), "call #%d of %s to %s is front=%v, expected %v", sid, sd.from, a, ok, front[sd.from] == sid)
		}
	}
}

// the ledger a peer is served: for some ranges of heights, the segment's bytes hold exactly its blocks, also after
// going through the cache of a node that downloads it
func (r *rep) obsSync() {
	const g = "sync"
	ch, top := r.w.Chain, len(r.o.Sids)+1
	if top < 2 {
		return
	}
	ranges := [][2]int{{2, top}, {top, top}}
	a := 2 + (r.Step*7)%(top-1)
	ranges = append(ranges, [2]int{a, a + (r.Step*5)%(top-a+1)})
	for k, x := range ranges {
		from, to := x[0], x[1]
		rd, err := ch.GetLedgerReaderByHeight(uint64(from), uint64(to))
		r.Op(err, "ledger reader %d-%d", from, to)
		seg := rd.Seg()
		r.Check(g, seg.From == uint64(from) && seg.To == uint64(to) && seg.PrevHash == r.snapAt(from-2).Hash && seg.Hash == r.snapAt(to-1).Hash, "segment %v of heights %d-%d", seg, from, to)
		buf := make([]byte, []int{1 << 16, 37, 512}[k])
		var raw []byte
		for n := 0; ; {
			m, err := rd.Read(buf)
			raw = append(raw, buf[:m]...)
			if err == io.EOF {
				break
			}
			r.Op(err, "reading segment %d-%d", from, to)
			if m == 0 {
				if n++; n > 3 {
					r.Fail(g, "segment %d-%d gives no more bytes and no end", from, to)
					return
				}
			}
		}
		r.Check(g, len(raw) == rd.Size(), "segment %d-%d has %d bytes, announces %d", from, to, len(raw), rd.Size())
		r.Op(rd.Close(), "close")
		cache := ch.GetSyncCache()
		w, err := cache.NewWriter(seg, int64(len(raw)))
		r.Op(err, "cache writer %d-%d", from, to)
		for o := 0; o < len(raw); o += 100 {
			e := o + 100
			if e > len(raw) {
				e = len(raw)
			}
			_, err = w.Write(raw[o:e])
			r.Op(err, "cache write")
		}
		r.Op(w.Close(), "cache close")
		cs := cache.Chunks()
		r.Check(g, len(cs) == 1 && cs[0].Equal(seg), "the cache holds %d segments after one was written", len(cs))
		cr, err := cache.NewReader(seg)
		r.Op(err, "cache reader")
		r.Check(g, cr.Size() == int64(len(raw)), "cached segment has size %d, expected %d", cr.Size(), len(raw))
		var got []ledger.SnapshotChunk
		var cur ledger.SnapshotChunk
		for {
			ab, sb, err := cr.Read()
			if err == io.EOF {
				break
			}
			r.Op(err, "reading cached segment %d-%d", from, to)
			if ab != nil {
				cur.AccountBlocks = append(cur.AccountBlocks, ab)
			} else {
				cur.SnapshotBlock = sb
				got = append(got, cur)
				cur = ledger.SnapshotChunk{}
			}
		}
		r.Check(g, len(cur.AccountBlocks) == 0, "segment %d-%d ends with account blocks", from, to)
		r.Op(cr.Close(), "close")
		r.Op(cache.Delete(seg), "delete segment")
		r.Check(g, len(cache.Chunks()) == 0, "the cache holds a deleted segment")
		r.segment(g, got, from, to)
		sub, err := ch.GetSubLedger(uint64(from-1), uint64(to))
		r.Op(err, "GetSubLedger")
		r.Check(g, len(sub) > 0 && sub[0].SnapshotBlock != nil && sameSnap(sub[0].SnapshotBlock, r.snapAt(from-2)), "GetSubLedger %d-%d does not begin with its first snapshot block", from-1, to)
		if len(sub) > 0 {
			got = nil
			for _, c := range sub[1:] {
				got = append(got, *c)
			}
			r.segment(g, got, from, to)
		}
		if to == top {
			sub, err = ch.GetSubLedgerAfterHeight(uint64(from - 1))
			r.Op(err, "GetSubLedgerAfterHeight")
			got = nil
			for i, c := range sub {
				if i > 0 {
					got = append(got, *c)
				}
			}
			r.segment(g, got, from, to)
		}
	}
	for _, x := range [][2]int{{1, top}, {2, top + 1}, {top, top - 1}} {
		_, err := ch.GetLedgerReaderByHeight(uint64(x[0]), uint64(x[1]))
		r.Check(g, err != nil, "a segment %d-%d is served, the ledger ends at %d", x[0], x[1], top)
	}
}

// segment compares chunks with the ledger from one snapshot height to another.
func (r *rep) segment(g string, got []ledger.SnapshotChunk, from, to int) {
	r.Check(g, len(got) == to-from+1, "segment %d-%d has %d snapshot blocks", from, to, len(got))
	for i := range got {
		if i > to-from {
			return
		}
		n := from - 1 + i // number of the snapshot
		r.Check(g, sameSnap(got[i].SnapshotBlock, r.snapAt(n)), "segment %d-%d: snapshot block %d differs", from, to, from+i)
		lo, hi := r.lineAt(n-1), r.lineAt(n)
		next, total := map[string]int{}, 0
		for _, a := range r.accts {
			next[a] = lo[a] + 1
			total += hi[a] - lo[a]
		}
		r.Check(g, len(got[i].AccountBlocks) == total, "segment %d-%d: snapshot block %d comes with %d account blocks, expected %d", from, to, from+i, len(got[i].AccountBlocks), total)
		for _, b := range got[i].AccountBlocks {
			a := r.name[b.AccountAddress]
			h := next[a]
			ok := a != "" && h <= hi[a] && sameBlock(b, r.block(a, h).b)
			r.Check(g, ok, "segment %d-%d: block %v at height %d of %s does not belong to snapshot %d here", from, to, b.Hash, b.Height, a, from+i)
			next[a]++
		}
		if c := got[i]; c.SnapshotBlock != nil && len(c.AccountBlocks) > 0 {
			k := net.NewChunk([]ledger.SnapshotChunk{c}, types.RemoteSync)
			ok := k.SnapshotRange[0].Hash == c.SnapshotBlock.PrevHash && k.SnapshotRange[0].Height+1 == c.SnapshotBlock.Height && k.SnapshotRange[1].Hash == c.SnapshotBlock.Hash && len(k.HashMap) == total+1
			for _, a := range r.accts {
				x, is := k.AccountRange[r.addr[a]]
				ok = ok && is == (hi[a] > lo[a])
				if is && ok {
					ok = x[0].Height == uint64(lo[a]) && x[1].Height == uint64(hi[a]) && x[1].Hash == r.block(a, hi[a]).b.Hash && x[0].Hash == r.block(a, lo[a]+1).b.PrevHash
				}
			}
			r.Check(g, ok, "the chunk made of snapshot %d has wrong ranges", from+i)
		}
	}
}
