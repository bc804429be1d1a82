package main

import (
	"fmt"
	"math/big"
	"sort"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/zz_verif/world"
)

// rounds asks, with the node's cache of the last rounds on and off, for what an election needs as of every snapshot: the votes,
// the voters' VITE, and the registrations.
func (r *rep) rounds() {
	if !r.On("round") {
		return
	}
	ch := r.w.Chain
	who := []types.Address{r.addr["u1"], r.addr["u2"], r.addr["u3"], r.addr["w1"]}
	all := append([]snapRec{{sb: ch.GetGenesisSnapshotBlock(), o: r.o0}}, r.snaps...)
	for _, level := range []uint32{1 - r.level, r.level} {
		ch.SetCacheLevelForConsensus(level)
		for i := len(all) - 1; i >= 0 && i >= len(all)-14; i-- {
			x := all[i]
			at := fmt.Sprintf("as of snapshot %d (cache %d)", x.sb.Height, level)
			for _, gid := range []types.Gid{types.SNAPSHOT_GID, types.DELEGATE_GID} {
				v, err := ch.GetVoteList(x.sb.Hash, gid)
				r.Op(err, "votes")
				var got, want []string
				for _, e := range v {
					got = append(got, r.name[e.VoteAddr]+":"+e.SbpName)
				}
				for _, e := range x.o.Votes {
					want = append(want, e[0]+":"+realName[e[1]])
				}
				sort.Strings(got)
				sort.Strings(want)
				r.Check("round", fmt.Sprint(got) == fmt.Sprint(want), "%s the votes are %v, expected %v", at, got, want)
			}
			m, err := ch.GetConfirmedBalanceList(who, world.Vite, x.sb.Hash)
			r.Op(err, "balances")
			for _, a := range who {
				want := new(big.Int)
				for _, b := range x.o.Bal {
					if b.U == r.name[a] && b.T == "0" {
						want = world.U(b.N)
					}
				}
				got := m[a]
				if got == nil {
					got = new(big.Int)
				}
				r.Check("round", got.Cmp(want) == 0, "%s the balance of %s is %v, expected %v", at, r.name[a], got, want)
			}
			l, err := ch.GetRegisterList(x.sb.Hash, types.SNAPSHOT_GID)
			r.Op(err, "registrations")
			r.regs("round", l, sel(x.o.Regs, func(x reg) bool { return x.Revoke == 0 }), at, "active")
			l, err = ch.GetAllRegisterList(x.sb.Hash, types.SNAPSHOT_GID)
			r.Op(err, "registrations")
			r.regs("round", l, sel(x.o.Regs, func(x reg) bool { return true }), at, "all")
			g, err := ch.GetConsensusGroupList(x.sb.Hash)
			r.Op(err, "groups")
			r.Check("round", len(g) == r.groups || r.groups == 0, "%s there are %d groups, expected %d", at, len(g), r.groups)
			r.groups = len(g)
		}
	}
}
