package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"

	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/rpcapi/api"
	"github.com/vitelabs/go-vite/v2/zz_verif/world"
)

type place struct {
	a string
	h int
}

// the answers of the ledger's RPC interface describe the specification's ledger
func (r *rep) obsApi() {
	l := api.NewLedgerApi(r.w.Node)
	g := "api"
	recv := map[int]place{}
	for _, a := range r.accts {
		for h := 1; h <= len(r.o.Ids[a]); h++ {
			if s := r.block(a, h).src; s != 0 {
				recv[s] = place{a, h}
			}
		}
	}
	str := func(s *string) string {
		if s == nil {
			return "nil"
		}
		return *s
	}
	var check func(got *api.AccountBlock, b *ledger.AccountBlock, p place, sid, src int, outs []out, what string)
	check = func(got *api.AccountBlock, b *ledger.AccountBlock, p place, sid, src int, outs []out, what string) {
		if got == nil {
			r.Fail(g, "%s: no block", what)
		}
		r.Check(g, got.Hash == b.Hash, "%s: another block, %s/%s", what, r.name[got.AccountAddress], got.Height)
		r.Check(g, got.Height == fmt.Sprint(b.Height) && got.BlockType == b.BlockType && got.AccountAddress == b.AccountAddress && got.Address == b.AccountAddress &&
			got.PrevHash == b.PrevHash && got.PreviousHash == b.PrevHash && bytes.Equal(got.Data, b.Data) && bytes.Equal(got.PublicKey, b.PublicKey) && bytes.Equal(got.Signature, b.Signature),
			"%s: a field differs: %v", what, got)
		r.Check(g, str(got.QuotaUsed) == fmt.Sprint(b.QuotaUsed) && str(got.TotalQuota) == fmt.Sprint(b.QuotaUsed) && str(got.Quota) == fmt.Sprint(b.Quota) && str(got.QuotaByStake) == fmt.Sprint(b.Quota),
			"%s: quota %s/%s, expected %d/%d", what, str(got.Quota), str(got.QuotaUsed), b.Quota, b.QuotaUsed)
		s := sid
		if src != 0 {
			s = src
		}
		if s != 0 {
			sd := r.snd[s]
			amount := sd.b.Amount
			if amount == nil {
				amount = new(big.Int)
			}
			fee := sd.b.Fee
			if fee == nil {
				fee = new(big.Int)
			}
			r.Check(g, got.FromAddress == r.addr[sd.from] && got.ToAddress == r.addr[sd.s.To], "%s: from %s to %s, expected %s to %s", what, got.FromAddress, got.ToAddress, sd.from, sd.s.To)
			r.Check(g, str(got.Amount) == world.U(sd.s.Amt).String() && got.TokenId == toks[sd.s.Tok], "%s: amount %s %s, expected %d %s", what, str(got.Amount), got.TokenId, sd.s.Amt, sd.s.Tok)
			r.Check(g, str(got.Fee) == fee.String(), "%s: fee %s, expected %s", what, str(got.Fee), fee)
			if sd.s.Tok != "" {
				r.Check(g, got.TokenInfo != nil && got.TokenInfo.TokenId == toks[sd.s.Tok], "%s: token %v", what, got.TokenInfo)
			}
			if src != 0 {
				r.Check(g, got.FromBlockHash == sd.b.Hash && got.SendBlockHash == sd.b.Hash, "%s: receives %s, expected %s", what, got.FromBlockHash, sd.b.Hash)
			}
		}
		if q, ok := recv[sid]; sid != 0 && ok {
			r.Check(g, got.ReceiveBlockHash != nil && *got.ReceiveBlockHash == r.block(q.a, q.h).b.Hash && str(got.ReceiveBlockHeight) == fmt.Sprint(q.h),
				"%s: received by %v/%s, expected %s/%d", what, got.ReceiveBlockHash, str(got.ReceiveBlockHeight), q.a, q.h)
		} else {
			r.Check(g, got.ReceiveBlockHash == nil && got.ReceiveBlockHeight == nil, "%s: received by %v, expected nobody", what, got.ReceiveBlockHash)
		}
		if n := r.confirmer(p.a, p.h); n < 0 {
			r.Check(g, got.Confirmations == nil && got.ConfirmedTimes == nil && got.FirstSnapshotHash == nil && got.ConfirmedHash == nil && got.FirstSnapshotHeight == nil && got.Timestamp == 0, "%s: confirmed %s times, expected never", what, str(got.Confirmations))
		} else {
			sb := r.snapAt(n)
			times := fmt.Sprint(len(r.o.Sids) - n + 1)
			r.Check(g, str(got.Confirmations) == times && str(got.ConfirmedTimes) == times, "%s: confirmed %s times, expected %s", what, str(got.Confirmations), times)
			r.Check(g, got.FirstSnapshotHash != nil && *got.FirstSnapshotHash == sb.Hash && got.ConfirmedHash != nil && *got.ConfirmedHash == sb.Hash &&
				str(got.FirstSnapshotHeight) == fmt.Sprint(sb.Height) && got.Timestamp == sb.Timestamp.Unix(),
				"%s: first confirmed by %v/%s, expected %d", what, got.FirstSnapshotHash, str(got.FirstSnapshotHeight), sb.Height)
		}
		r.Check(g, len(got.SendBlockList) == len(b.SendBlockList) && len(got.TriggeredSendBlockList) == len(b.SendBlockList), "%s: %d sends, expected %d", what, len(got.SendBlockList), len(b.SendBlockList))
		for i := range b.SendBlockList {
			sub := *r.snd[outs[i].Sid].b
			check(got.SendBlockList[i], &sub, p, outs[i].Sid, 0, nil, what+fmt.Sprintf(" send %d", i))
			r.Check(g, got.TriggeredSendBlockList[i].Hash == sub.Hash, "%s: send %d differs", what, i)
		}
		if src != 0 || sid != 0 {
			// what a client reads back is the block: its hash can be recomputed
			if len(b.SendBlockList) == 0 || p.a[0] == 'c' {
				lb, err := got.RpcToLedgerBlock()
				r.Op(err, "block from RPC")
				if p.a[0] != 'c' {
					hash := lb.ComputeHash()
					r.Check(g, hash == b.Hash, "%s: its hash is %s when recomputed", what, hash)
				}
			}
		}
	}
	at := func(got *api.AccountBlock, a string, h int, what string) {
		x := r.block(a, h)
		sid := 0
		if ledger.IsSendBlock(x.b.BlockType) && len(x.outs) == 1 {
			sid = x.outs[0].Sid
		}
		var outs []out
		if ledger.IsReceiveBlock(x.b.BlockType) {
			outs = x.outs
		}
		check(got, x.b, place{a, h}, sid, x.src, outs, fmt.Sprintf("%s %s/%d", what, a, h))
	}
	// down to height max(1, top-cnt+1)
	down := func(got []*api.AccountBlock, err error, a string, top, low int, what string) {
		r.Op(err, what)
		if low < 1 {
			low = 1
		}
		if top > len(r.o.Ids[a]) {
			top = len(r.o.Ids[a])
		}
		n := top - low + 1
		if n < 0 {
			n = 0
		}
		r.Check(g, len(got) == n, "%s of %s: %d blocks, expected %d", what, a, len(got), n)
		for i, b := range got {
			if i == 0 || i == len(got)-1 {
				at(b, a, top-i, what)
			} else {
				r.Check(g, b.Hash == r.block(a, top-i).b.Hash, "%s of %s: block %d is %s", what, a, i, b.Hash)
			}
		}
	}
	for _, a := range r.accts {
		ad := r.addr[a]
		n := len(r.o.Ids[a])
		lb, err := l.GetLatestAccountBlock(ad)
		r.Op(err, "latest block")
		if n == 0 {
			r.Check(g, lb == nil, "%s has a latest block", a)
		} else {
			at(lb, a, n, "latest block")
		}
		for h := 1; h <= n; h++ {
			b, err := l.GetAccountBlockByHeight(ad, fmt.Sprint(h))
			r.Op(err, "block by height")
			at(b, a, h, "block by height")
			b, err = l.GetAccountBlockByHash(r.block(a, h).b.Hash)
			r.Op(err, "block by hash")
			at(b, a, h, "block by hash")
			if lg := r.block(a, h).log; len(lg) > 0 {
				logs, err := l.GetVmLogs(r.block(a, h).b.Hash)
				r.Op(err, "logs")
				r.Check(g, len(logs) == len(lg), "%s/%d has %d logs, expected %d", a, h, len(logs), len(lg))
				for i, t := range lg {
					r.Check(g, logs[i].Topics[0] == topicHash(t), "log %d of %s/%d differs", i, a, h)
				}
			}
		}
		b, err := l.GetAccountBlockByHeight(ad, fmt.Sprint(n+1))
		r.Check(g, err == nil && b == nil, "%s has a block at height %d: %v %v", a, n+1, b, err)
		for idx := 0; idx*3 <= n; idx++ {
			bs, err := l.GetAccountBlocksByAddress(ad, idx, 3)
			down(bs, err, a, n-3*idx, n-3*idx-2, fmt.Sprintf("page %d", idx))
		}
		bs, err := l.GetAccountBlocks(ad, nil, nil, 2)
		down(bs, err, a, n, n-1, "latest blocks")
		if n > 0 {
			m := n/2 + 1
			h := r.block(a, m).b.Hash
			bs, err := l.GetAccountBlocks(ad, &h, nil, 3)
			down(bs, err, a, m, m-2, "blocks from a hash")
			bs, err = l.GetAccountBlocksByHeightRange(ad, uint64(m-1), uint64(n))
			if m > 1 {
				down(bs, err, a, n, m-1, "range of blocks")
			}
		}
		info, err := l.GetAccountInfoByAddress(ad)
		r.Op(err, "account info")
		r.Check(g, info != nil && info.BlockCount == fmt.Sprint(n), "account info of %s: %v", a, info)
		bal := map[string]int64{}
		if n > 0 {
			bal = r.block(a, n).bal
		}
		for t, id := range toks {
			got := "0"
			if bi := info.BalanceInfoMap[id]; bi != nil {
				got = bi.Balance
			}
			r.Check(g, got == world.U(bal[t]).String(), "account info of %s: balance of %s is %s, expected %d", a, t, got, bal[t])
		}
		// unreceived
		pend := map[types.Hash]int{}
		amt := map[string]int64{}
		cnt := map[string]int64{}
		for _, sid := range r.o.Pend[a] {
			pend[r.snd[sid].b.Hash] = sid
			amt[r.snd[sid].s.Tok] += r.snd[sid].s.Amt
			cnt[r.snd[sid].s.Tok]++
		}
		seen := map[types.Hash]bool{}
		for p := 0; p*2 <= len(pend); p++ {
			us, err := l.GetUnreceivedBlocksByAddress(ad, uint64(p), 2)
			r.Op(err, "unreceived blocks")
			for _, u := range us {
				sid, ok := pend[u.Hash]
				r.Check(g, ok && !seen[u.Hash], "unreceived page %d of %s lists %s", p, a, u.Hash)
				seen[u.Hash] = true
				ow := r.blk[r.snd[sid].owner]
				check(u, r.snd[sid].b, place{ow.acct, int(ow.b.Height)}, sid, 0, nil, fmt.Sprintf("unreceived #%d of %s", sid, a))
			}
		}
		r.Check(g, len(seen) == len(pend), "pages of unreceived blocks of %s hold %d, expected %d", a, len(seen), len(pend))
		sum, err := l.GetUnreceivedTransactionSummaryByAddress(ad)
		r.Op(err, "unreceived summary")
		if sum == nil {
			r.Check(g, len(pend) == 0, "%s has no unreceived summary, expected %d blocks", a, len(pend))
		} else {
			r.Check(g, sum.BlockCount == fmt.Sprint(len(pend)), "unreceived summary of %s: %s blocks, expected %d", a, sum.BlockCount, len(pend))
			for t, id := range toks {
				got, k := "0", "0"
				if bi := sum.BalanceInfoMap[id]; bi != nil {
					got = bi.Balance
					if bi.TransactionCount != nil {
						k = *bi.TransactionCount
					}
				}
				r.Check(g, got == world.U(amt[t]).String() && k == fmt.Sprint(cnt[t]), "unreceived summary of %s in %s: %s in %s blocks, expected %d in %d", a, t, got, k, amt[t], cnt[t])
			}
		}
	}
	r.apiSnaps(l)
	r.apiLogs(l)
}

func (r *rep) apiSnaps(l *api.LedgerApi) {
	g := "api"
	top := len(r.o.Sids)
	same := func(got *api.SnapshotBlock, n int, what string) {
		sb := r.snapAt(n)
		r.Check(g, got != nil && got.SnapshotBlock != nil && got.Hash == sb.Hash && got.Height == sb.Height && got.PreviousHash == sb.PrevHash && got.Timestamp == sb.Timestamp.Unix(), "%s: another snapshot block than %d", what, n+1)
		if n > 0 {
			r.Check(g, got.Producer == sb.Producer(), "%s: producer %s of snapshot block %d", what, got.Producer, n+1)
			r.Check(g, len(got.SnapshotData) == len(sb.SnapshotContent), "%s: snapshot block %d confirms %d accounts, expected %d", what, n+1, len(got.SnapshotData), len(sb.SnapshotContent))
			for a, hh := range sb.SnapshotContent {
				x := got.SnapshotData[a]
				r.Check(g, x != nil && x.Hash == hh.Hash && x.Height == hh.Height, "%s: snapshot block %d confirms another block of %s", what, n+1, r.name[a])
			}
		}
	}
	r.Check(g, l.GetSnapshotChainHeight() == fmt.Sprint(top+1), "snapshot height is %s, expected %d", l.GetSnapshotChainHeight(), top+1)
	r.Check(g, *l.GetLatestSnapshotHash() == r.snapAt(top).Hash, "latest snapshot hash differs")
	lb, err := l.GetLatestSnapshotBlock()
	r.Op(err, "latest snapshot block")
	same(lb, top, "latest snapshot block")
	for n := 0; n <= top; n++ {
		sb := r.snapAt(n)
		b, err := l.GetSnapshotBlockByHeight(fmt.Sprint(n + 1))
		r.Op(err, "snapshot block by height")
		same(b, n, "snapshot block by height")
		b, err = l.GetSnapshotBlockByHash(sb.Hash)
		r.Op(err, "snapshot block by hash")
		same(b, n, "snapshot block by hash")
		b, err = l.GetSnapshotBlockBeforeTime(sb.Timestamp.Unix() + 1)
		r.Op(err, "snapshot block before a time")
		same(b, n, "snapshot block before a time")
	}
	bs, err := l.GetSnapshotBlocks(fmt.Sprint(top+1), 3)
	r.Op(err, "snapshot blocks")
	k := 3
	if top+1 < k {
		k = top + 1
	}
	r.Check(g, len(bs) == k, "%d latest snapshot blocks, expected %d", len(bs), k)
	for i, b := range bs {
		same(b, top-i, "snapshot blocks")
	}
	b, err := l.GetSnapshotBlockByHeight(fmt.Sprint(top + 2))
	r.Check(g, err == nil && b == nil, "a snapshot block above the latest: %v %v", b, err)
	if top == 0 {
		return
	}
	from := 1
	if top > 3 {
		from = top - 2
	}
	cks, err := l.GetChunksV2(fmt.Sprint(from+1), fmt.Sprint(top+1))
	r.Op(err, "chunks")
	r.Check(g, len(cks) == top-from+1, "%d chunks from %d to %d", len(cks), from+1, top+1)
	for i, ck := range cks {
		n := from + i
		same(ck.SnapshotBlock, n, "chunk")
		next := map[string]int{}
		want := 0
		for _, a := range r.accts {
			next[a] = r.lineAt(n - 1)[a] + 1
			want += r.lineAt(n)[a] - r.lineAt(n - 1)[a]
		}
		r.Check(g, len(ck.AccountBlocks) == want, "chunk %d holds %d account blocks, expected %d", n+1, len(ck.AccountBlocks), want)
		for _, b := range ck.AccountBlocks {
			a := r.name[b.Address]
			r.Check(g, next[a] <= r.lineAt(n)[a] && b.Hash == r.block(a, next[a]).b.Hash, "chunk %d: block %s/%s", n+1, a, b.Height)
			next[a]++
		}
	}
	// balances as of a snapshot
	for _, n := range []int{from - 1, top} {
		var ads []types.Address
		for _, a := range r.accts {
			ads = append(ads, r.addr[a])
		}
		res, err := l.GetConfirmedBalances(r.snapAt(n).Hash, ads, []types.TokenTypeId{toks["VITE"], toks["TOKA"]})
		r.Op(err, "confirmed balances")
		for _, a := range r.accts {
			bal := map[string]int64{}
			if h := r.lineAt(n)[a]; h > 0 {
				bal = r.block(a, h).bal
			}
			for t, id := range toks {
				got := res[r.addr[a]][id]
				if got == nil {
					got = new(big.Int)
				}
				r.Check(g, got.Cmp(world.U(bal[t])) == 0, "balance of %s in %s at snapshot %d is %s, expected %d", a, t, n+1, got, bal[t])
			}
		}
	}
	for _, a := range r.accts {
		un := l.GetUnconfirmedBlocks(r.addr[a])
		low := r.lineAt(top)[a]
		r.Check(g, len(un) == len(r.o.Ids[a])-low, "%s has %d unconfirmed blocks, expected %d", a, len(un), len(r.o.Ids[a])-low)
		for i, b := range un {
			r.Check(g, b.Hash == r.block(a, low+1+i).b.Hash, "unconfirmed block %d of %s differs", i, a)
		}
	}
}

// the log query: every log of the accounts and heights asked for, once over all pages, with its block and account
func (r *rep) apiLogs(l *api.LedgerApi) {
	g := "api"
	cs := map[string][2]int{}
	for _, a := range r.accts {
		if a[0] == 'c' && len(r.o.Ids[a]) > 0 {
			cs[a] = [2]int{1, 0}
		}
	}
	var fs []*logFilter
	if len(cs) > 0 {
		fs = append(fs, &logFilter{acct: cs}, &logFilter{acct: cs, topic: map[int]bool{1: true, 2: true}})
	}
	for a := range cs {
		n := len(r.o.Ids[a])
		fs = append(fs, &logFilter{acct: map[string][2]int{a: {1, (n + 1) / 2}}}, &logFilter{acct: map[string][2]int{a: {(n + 1) / 2, n}}})
	}
	for i, f := range fs {
		want := r.wantLogs(f)
		total := 0
		for _, n := range want {
			total += n
		}
		for _, size := range []uint64{0, 2, 3} {
			got := map[string]int{}
			last := map[string]int{}
			for p := uint64(0); ; p++ {
				q := r.logParam(f.acct, f.topic)
				q.PageIndex, q.PageSize = p, size
				logs, err := l.GetVmLogsByFilter(q)
				r.Op(err, "logs by filter")
				r.Check(g, size == 0 || uint64(len(logs)) <= size, "query %d: a page of %d holds %d logs", i, size, len(logs))
				r.Check(g, size == 0 || uint64(len(logs)) == size || int(p*size)+len(logs) == total || (len(logs) == 0 && int(p*size) >= total), "query %d: page %d of %d logs holds %d of %d", i, p, size, len(logs), total)
				for _, x := range logs {
					if x.Addr == nil || len(x.Log.Topics) != 1 {
						r.Fail(g, "query %d: a log without account or topic", i)
					}
					a := r.name[*x.Addr]
					k := logKey(x.AccountBlockHash, x.AccountHeight, a, int(x.Log.Topics[0][31]))
					got[k]++
					r.Check(g, got[k] <= want[k], "query %d with pages of %d: log %s is listed %d times, expected %d", i, size, k, got[k], want[k])
					var h int
					fmt.Sscan(x.AccountHeight, &h)
					r.Check(g, h >= last[a], "query %d: log of %s/%d after one at height %d", i, a, h, last[a])
					last[a] = h
				}
				if len(logs) == 0 || size == 0 {
					break
				}
			}
			for k, n := range want {
				r.Check(g, got[k] == n, "query %d with pages of %d: log %s is listed %d times, expected %d", i, size, k, got[k], n)
			}
		}
	}
}

// the contract queries: meta, code and storage of every contract, and off-chain calls that read them and change nothing
func (r *rep) apiContracts(a *api.ContractApi) {
	g := "capi"
	for _, c := range r.accts {
		if c[0] != 'c' {
			continue
		}
		i, err := a.GetContractInfo(r.addr[c])
		r.Op(err, "contract info")
		cr := r.created(c)
		if cr == nil {
			r.Check(g, i == nil, "contract %s is %+v before its creation", c, i)
			continue
		}
		r.Check(g, i != nil && (len(i.Code) > 0) == r.o.Code[c] && i.Gid == types.DELEGATE_GID && int(i.ResponseLatency) == int(c[1]-'1') && i.ConfirmTime == i.ResponseLatency &&
			i.QuotaMultiplier == i.QuotaRatio && i.RandomDegree == i.SeedCount, "contract %s is %+v", c, i)
		ad, err := a.CreateContractAddress(cr.b.AccountAddress, fmt.Sprint(cr.b.Height), cr.b.PrevHash)
		r.Op(err, "contract address")
		r.Check(g, *ad == r.addr[c], "contract %s has the address %s, expected %s", c, ad, r.addr[c])
		m, err := a.GetContractStorage(r.addr[c], "")
		r.Op(err, "contract storage")
		n := 0
		var code, want []byte
		for k, v := range r.o.sto[c] {
			w := trimmed(v)
			if v != 0 {
				n++
				key := hex.EncodeToString(world.StorageKey(int64(k)))
				r.Check(g, m[key] == hex.EncodeToString(w), "storage %d of %s is %s, expected %x", k, c, m[key], w)
				m1, err := a.GetContractStorage(r.addr[c], key)
				r.Op(err, "contract storage")
				r.Check(g, len(m1) == 1 && m1[key] == m[key], "storage of %s under the prefix %s is %v", c, key, m1)
			}
			code = append(code, 0x60, byte(k), 0x54, 0x60, byte(len(want)), 0x52) // mem[..] = sload(k)
			want = append(want, append(make([]byte, 32-len(w)), w...)...)
		}
		r.Check(g, len(m) == n, "%s has %d storage entries, expected %d", c, len(m), n)
		if !r.o.Code[c] || len(want) > 200 {
			continue
		}
		code = append(code, 0x60, 9, 0x60, 1, 0x55)               // sstore(1, 9)
		code = append(code, 0x60, byte(len(want)), 0x60, 0, 0xf3) // return
		got, err := a.CallOffChainMethod(api.CallOffChainMethodParam{Addr: ad, Code: code})
		r.Op(err, "off-chain call")
		r.Check(g, bytes.Equal(got, want), "an off-chain call reads %x of %s, expected %x", got, c, want)
		to := r.addr[c]
		_, err = a.Query(api.QueryParam{Addr: &to, Data: world.CallData(0, world.Round{Key: 1, Add: 1})})
		r.Op(err, "query")
		m2, err := a.GetContractStorage(r.addr[c], "")
		r.Op(err, "contract storage")
		r.Check(g, fmt.Sprint(m) == fmt.Sprint(m2), "the storage of %s changes from %v to %v with an off-chain call", c, m, m2)
	}
}
