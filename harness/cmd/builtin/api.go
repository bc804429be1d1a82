package main

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"sort"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/rpcapi/api"

	"github.com/vitelabs/go-vite/v2/zz_verif/world"
)

// The contract_* queries of the node's RPC interface answer for the state after the latest block of each
// built-in contract; times are projected from the latest snapshot.
func (r *rep) contractApi() {
	if !r.On("api") {
		return
	}
	a := api.NewContractApi(r.w.Node)
	sb := r.w.Chain.GetLatestSnapshotBlock()
	when := func(exp uint64) int64 { return sb.Timestamp.Unix() + int64(exp-sb.Height) }
	o := r.o
	num := func(n *big.Int) string { return n.String() }
	users := []string{"u1", "u2", "u3"}

	// stakes
	same := func(g *api.StakeInfo, x stake) bool {
		dg := types.Address{}
		if x.Dg != "" {
			dg = r.addr[x.Dg]
		}
		return g.Amount == num(world.U(x.Amt)) && g.Beneficiary == r.addr[x.Ben] && g.ExpirationHeight == fmt.Sprint(x.Exp) && g.ExpirationTime == when(x.Exp) &&
			g.IsDelegated == (x.Dg != "") && g.DelegateAddress == dg && g.StakeAddress == r.addr[x.Owner] && g.Bid == x.Bid &&
			(x.Id == 0 && g.Id == nil || x.Id != 0 && g.Id != nil && *g.Id == r.hash(x.Id))
	}
	bag := func(how string, got []*api.StakeInfo, want []stake) {
		r.Check("api", len(got) == len(want), "%s: %d stakes, expected %d", how, len(got), len(want))
		left := append([]stake{}, want...)
		for _, g := range got {
			ok := false
			for i, x := range left {
				if same(g, x) {
					left = append(left[:i:i], left[i+1:]...)
					ok = true
					break
				}
			}
			r.Check("api", ok, "%s: unexpected stake %+v", how, *g)
		}
	}
	for _, u := range users {
		var want []stake
		var sum int64
		for _, x := range o.Stakes {
			if x.Owner == u && x.Dg == "" {
				want = append(want, x)
				sum += x.Amt
			}
		}
		for _, size := range []int{1, 2, 5} {
			var all []*api.StakeInfo
			for p := 0; p <= len(want)/size+1; p++ {
				l, err := a.GetStakeList(r.addr[u], p, size)
				r.Op(err, "stakes")
				r.Check("api", l.StakeAmount == num(world.U(sum)) && l.Count == len(want), "stakes of %s: total %s, %d entries, expected %d, %d", u, l.StakeAmount, l.Count, sum, len(want))
				n := len(want) - p*size
				if n < 0 {
					n = 0
				}
				if n > size {
					n = size
				}
				r.Check("api", len(l.StakeList) == n, "page %d (of %d) of the stakes of %s has %d entries, expected %d", p, size, u, len(l.StakeList), n)
				all = append(all, l.StakeList...)
			}
			bag("stakes of "+u, all, want)
			for i := 1; i < len(all); i++ {
				var x, y uint64
				fmt.Sscan(all[i-1].ExpirationHeight, &x)
				fmt.Sscan(all[i].ExpirationHeight, &y)
				r.Check("api", x <= y, "stakes of %s are not in the order of their expiration", u)
			}
		}
		for _, v := range append([]string{}, users...) {
			for _, d := range []string{"", "u1", "u2", "u3"} {
				for _, bid := range []uint8{0, 1, 2} {
					var e *stake
					dg := types.Address{}
					if d != "" {
						dg = r.addr[d]
					}
					for i, x := range o.Stakes {
						if x.Owner == u && x.Ben == v && x.Dg == d && x.Dg != "" && x.Bid == bid && x.Id == 0 {
							e = &o.Stakes[i]
						}
					}
					g, err := a.GetDelegatedStakeInfo(api.StakeQueryParams{StakeAddress: r.addr[u], DelegateAddress: dg, Beneficiary: r.addr[v], Bid: bid})
					r.Op(err, "stake")
					if e == nil {
						r.Check("api", g == nil, "delegated stake of %s for %s (%s, %d) is %+v, expected none", u, v, d, bid, g)
					} else {
						r.Check("api", g != nil && same(g, *e), "delegated stake of %s for %s (%s, %d) is %+v, expected %+v", u, v, d, bid, g, *e)
					}
				}
			}
		}
		q, err := a.GetQuotaByAccount(r.addr[u])
		r.Op(err, "quota")
		so := r.o0
		if len(r.snaps) > 0 {
			so = r.snaps[len(r.snaps)-1].o
		}
		want1 := num(new(big.Int).Add(world.BigStake(), world.U(benOf(so, u))))
		r.Check("api", q.StakeAmount != nil && *q.StakeAmount == want1, "quota of %s is backed by %v, expected %s", u, q.StakeAmount, want1)
	}
	for i, n := len(r.snaps)-1, 0; i >= 0 && n < 3; i, n = i-1, n+1 {
		x := r.snaps[i]
		for _, size := range []uint64{1, 3} {
			var all []*api.StakeInfo
			key := ""
			for p := 0; p < 100; p++ {
				l, err := a.GetStakeListBySearchKey(x.sb.Hash, key, size)
				r.Op(err, "stakes by key")
				all, key = append(all, l.StakingInfoList...), l.LastKey
				if uint64(len(l.StakingInfoList)) < size {
					break
				}
			}
			bag(fmt.Sprintf("by key at %d", x.sb.Height), all, x.o.Stakes)
		}
	}

	// registrations and votes
	byName := map[string]reg{}
	eq := func(g *api.SBPInfo, x reg) bool {
		rv := int64(0)
		if x.Revoke != 0 {
			rv = r.tm(x.Revoke)
		}
		return g.Name == realName[x.Name] && g.BlockProducingAddress == r.addr[x.Prod] && g.RewardWithdrawAddress == r.addr[x.Wd] && g.StakeAddr == r.addr[x.Owner] &&
			g.StakeAmount == num(world.U(x.Amt)) && g.ExpirationHeight == fmt.Sprint(x.Exp) && g.ExpirationTime == when(x.Exp) && g.RevokeTime == rv
	}
	for _, x := range o.Regs {
		byName[x.Name] = x
	}
	for _, n := range []string{"s1", "s2", "s3"} {
		g, err := a.GetSBP(realName[n])
		x, ok := byName[n]
		if ok {
			r.Check("api", err == nil && eq(g, x), "block producer %s is %+v (%v), expected %+v", n, g, err, x)
		} else {
			r.Check("api", err != nil, "block producer %s is %+v, which was never registered", n, g)
		}
	}
	for _, u := range []string{"u1", "u2", "u3", "w1", "w2"} {
		l, err := a.GetSBPList(r.addr[u])
		r.Op(err, "block producers")
		var got []*api.SBPInfo
		for _, g := range l {
			if g.Name != "genesis" {
				got = append(got, g)
			}
		}
		want := sel(o.Regs, func(x reg) bool { return x.Owner == u || x.Wd == u })
		r.Check("api", len(got) == len(want), "%s stakes for or is rewarded by %d block producers, expected %d", u, len(got), len(want))
		sort.Slice(got, func(i, j int) bool { return got[i].Name > got[j].Name })
		sort.Slice(want, func(i, j int) bool { return realName[want[i].Name] > realName[want[j].Name] })
		for i := range want {
			r.Check("api", eq(got[i], want[i]), "block producer of %s is %+v, expected %+v", u, *got[i], want[i])
		}
	}
	votes := map[string]string{}
	for _, x := range o.Votes {
		votes[x[0]] = x[1]
	}
	for _, u := range users {
		g, err := a.GetVotedSBP(r.addr[u])
		r.Op(err, "vote")
		n, ok := votes[u]
		if !ok {
			r.Check("api", g == nil, "%s is said to vote for %+v", u, g)
			continue
		}
		st := api.NodeStatusInActive
		if byName[n].Name != "" && byName[n].Revoke == 0 {
			st = api.NodeStatusActive
		}
		r.Check("api", g != nil && g.Name == realName[n] && g.NodeStatus == st && g.Balance == num(r.vite(u)), "vote of %s is %+v, expected %s status %d votes %s", u, g, realName[n], st, r.vite(u))
	}

	// tokens
	byId := map[types.TokenTypeId]tok{}
	tk := func(g *api.RpcTokenInfo, t tok, how string) {
		r.Check("api", g != nil && g.TokenId == r.token(t.Id) && g.TokenName == "Token "+t.Sym && g.TokenSymbol == t.Sym && g.TotalSupply != nil && *g.TotalSupply == num(amount(t.Id, t.Supply)) && g.Decimals == decimals(t.Id) &&
			g.Owner == r.addr[t.Owner] && g.MaxSupply != nil && *g.MaxSupply == num(amount(t.Id, t.Max)) && g.OwnerBurnOnly == t.Bo && g.IsOwnerBurnOnly == t.Bo && g.IsReIssuable == t.Re && int(g.Index) == t.Idx,
			"token #%d (%s) is %+v, expected %+v", t.Id, how, g, t)
	}
	for _, t := range o.Toks {
		byId[r.token(t.Id)] = t
		g, err := a.GetTokenInfoById(r.token(t.Id))
		r.Op(err, "token")
		tk(g, t, "by id")
	}
	g, err := a.GetTokenInfoById(r.token(77777))
	r.Op(err, "token")
	r.Check("api", g == nil, "a token that was never issued is %+v", g)
	for _, size := range []int{1, 2, 100} {
		var all []*api.RpcTokenInfo
		for p := 0; p <= (len(o.Toks)+1)/size+1; p++ {
			l, err := a.GetTokenInfoList(p, size)
			r.Op(err, "tokens")
			r.Check("api", l.Count == len(o.Toks)+1 && len(l.List) <= size, "%d tokens, page of %d; expected %d, at most %d", l.Count, len(l.List), len(o.Toks)+1, size)
			all = append(all, l.List...)
		}
		r.Check("api", len(all) == len(o.Toks)+1, "%d tokens in pages of %d, expected %d", len(all), size, len(o.Toks)+1)
		seen := map[types.TokenTypeId]bool{}
		for i, g := range all {
			r.Check("api", !seen[g.TokenId] && (i == 0 || all[i-1].TokenName <= g.TokenName), "token list of %d is not by name or holds %s twice", size, g.TokenName)
			seen[g.TokenId] = true
			if g.TokenId == world.Vite {
				continue
			}
			t, ok := byId[g.TokenId]
			r.Check("api", ok, "token list holds %+v", *g)
			tk(g, t, "list")
		}
	}
	for _, u := range users {
		got, err := a.GetTokenInfoListByOwner(r.addr[u])
		r.Op(err, "tokens of %s", u)
		n := 0
		for _, t := range o.Toks {
			if t.Owner == u {
				n++
			}
		}
		r.Check("api", len(got) == n, "%s owns %d tokens, expected %d", u, len(got), n)
		seen := map[types.TokenTypeId]bool{}
		for _, g := range got {
			t := byId[g.TokenId]
			r.Check("api", t.Owner == u && !seen[g.TokenId], "token %s is listed for %s", g.TokenName, u)
			seen[g.TokenId] = true
			tk(g, t, "by owner")
		}
	}
	// the storage a contract's owner can read is the storage the state holds
	for _, c := range []string{"Q", "A", "G"} {
		m, err := a.GetContractStorage(r.addr[c], "")
		r.Op(err, "storage")
		for k, v := range m {
			kb, e1 := hex.DecodeString(k)
			r.Op(e1, "key")
			x, e2 := r.w.Chain.GetValue(r.addr[c], kb)
			r.Op(e2, "value")
			r.Check("api", hex.EncodeToString(x) == v, "storage of %s: %s is %s, expected %x", c, k, v, x)
		}
	}
}
