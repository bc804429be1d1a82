// Command quota replays behaviours of specs/Quota on a complete node core.
package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"os"

	"github.com/vitelabs/go-vite/v2/common/config"
	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/vm/quota"
	"github.com/vitelabs/go-vite/v2/vm_db"
	"github.com/vitelabs/go-vite/v2/zz_verif/run"
	"github.com/vitelabs/go-vite/v2/zz_verif/world"
)

type used struct {
	U   string
	Pos int
	I   [3]uint64
}

func (d *used) UnmarshalJSON(b []byte) error {
	x := []interface{}{&d.U, &d.Pos, &d.I}
	return json.Unmarshal(b, &x)
}

type acc struct {
	U                    string
	QS, Avail, Snap, Avg uint64
	Overdrawn, HasPow    bool
}

func (d *acc) UnmarshalJSON(b []byte) error {
	x := []interface{}{&d.U, &d.QS, &d.Avail, &d.Snap, &d.Avg, &d.Overdrawn, &d.HasPow}
	return json.Unmarshal(b, &x)
}

type last struct {
	U     string
	Id    int
	Delta int64
}

func (d *last) UnmarshalJSON(b []byte) error {
	x := []interface{}{&d.U, &d.Id, &d.Delta}
	return json.Unmarshal(b, &x)
}

type obs struct {
	Tip  uint64    `json:"tip"`
	Len  int       `json:"len"`
	Used []used    `json:"used"`
	Glob [3]uint64 `json:"glob"`
	Acc  []acc     `json:"acc"`
	Unc  []int     `json:"unc"`
	Live []int     `json:"live"`
	Open []int     `json:"open"`
	Last []last    `json:"last"`
	At   [][2]int  `json:"at"`
}

type step struct {
	A   string `json:"a"`
	Id  int    `json:"id"`
	U   string `json:"u"`
	V   string `json:"v"`
	N   int    `json:"n"`
	Pow uint64 `json:"pow"`
	Q   uint64 `json:"q"`
	Qu  uint64 `json:"qu"`
	Src int    `json:"src"`
	Cut int    `json:"cut"`
	H   uint64 `json:"h"`
	O   obs    `json:"o"`
}

// stake of u1..u4, for 280000, 20720, 1960 and 0 quota per snapshot
var stakes = []int64{275, 21, 3, 0} // half units

// difficulty that is worth some quota
var work = map[uint64]int64{21000: 65534, 42000: 131126}

type rep struct {
	*run.Ctx
	w    *world.World
	blk  map[int]*ledger.AccountBlock
	dirN int
	unc  []int
}

func main() { run.Main(replay) }

func replay(c *run.Ctx, line []byte) {
	var steps []step
	if err := json.Unmarshal(line, &steps); err != nil {
		run.Infra("%v", err)
	}
	r := &rep{Ctx: c, blk: map[int]*ledger.AccountBlock{}}
	r.w = world.New(c.Scratch("n0"), world.Options{Users: 4, Balance: world.U(1000), Tune: func(g *config.Genesis, w *world.World) {
		for i, u := range w.Users {
			delete(g.QuotaInfo.StakeBeneficialMap, u.Addr.Hex())
			if stakes[i] > 0 {
				g.QuotaInfo.StakeBeneficialMap[u.Addr.Hex()] = new(big.Int).Div(world.U(stakes[i]), big.NewInt(2))
			}
		}
	}})
	defer func() { r.w.Close() }()
	for i := range steps {
		s := &steps[i]
		c.Step = i + 1
		r.apply(s)
		r.unc = s.O.Unc
		r.observe(&s.O)
		c.Notes[s.A]++
	}
}

func (r *rep) user(n string) world.Account { return r.w.Users[int(n[1]-'1')] }

func (r *rep) diff(p uint64) *big.Int {
	if p == 0 {
		return nil
	}
	return big.NewInt(work[p])
}

func (r *rep) apply(s *step) {
	w := r.w
	switch s.A {
	case "send", "nosend":
		to := r.user(s.V).Addr
		data := make([]byte, s.N)
		for i := range data {
			data[i] = byte(i)
		}
		what := fmt.Sprintf("send of %s with %d bytes of data and work worth %d", s.U, s.N, s.Pow)
		vb, err := w.GenSend(r.user(s.U), ledger.BlockTypeSendCall, &to, world.Vite, big.NewInt(1), data, r.diff(s.Pow))
		if s.A == "nosend" {
			r.Check("quota", err != nil && vb == nil, "%s is accepted, although the quota does not suffice", what)
			return
		}
		r.Op(err, "%s", what)
		r.insert(s, what, vb.AccountBlock)
	case "recv", "norecv":
		what := fmt.Sprintf("receive by %s of #%d with work worth %d", s.U, s.Src, s.Pow)
		vb, _, err := w.GenRecv(r.user(s.U), r.blk[s.Src], r.diff(s.Pow))
		if s.A == "norecv" {
			r.Check("quota", err != nil && vb == nil, "%s is accepted, although the quota does not suffice", what)
			return
		}
		r.Op(err, "%s", what)
		r.insert(s, what, vb.AccountBlock)
	case "snap":
		content := ledger.SnapshotContent{}
		for _, id := range r.unc[:s.Cut] {
			b := r.blk[id]
			content[b.AccountAddress] = &ledger.HashHeight{Hash: b.Hash, Height: b.Height}
		}
		for i := 0; i < s.N; i++ {
			_, bad, err := w.SnapshotOf(content, false)
			r.Op(err, "snapshot")
			r.Check("op", len(bad) == 0, "snapshot drops %d blocks", len(bad))
			content = ledger.SnapshotContent{}
		}
	case "delacct":
		b := r.blk[s.Id]
		_, err := w.Chain.DeleteAccountBlocks(b.AccountAddress, b.Hash)
		r.Op(err, "delete account block #%d", s.Id)
	case "delsnap":
		_, err := w.Chain.DeleteSnapshotBlocksToHeight(s.H)
		r.Op(err, "delete snapshot blocks from %d", s.H)
	case "flush":
		w.Flush()
	case "restart":
		r.dirN++
		nd := r.Scratch(fmt.Sprintf("n%d", r.dirN))
		if err := world.CopyDir(w.Dir, nd); err != nil {
			run.Infra("copy: %v", err)
		}
		old := w.Dir
		w.Reopen(nd)
		os.RemoveAll(old)
	default:
		run.Infra("action %s", s.A)
	}
}

func (r *rep) insert(s *step, what string, b *ledger.AccountBlock) {
	r.Check("quota", b.Quota == s.Q && b.QuotaUsed == s.Qu, "%s: quota %d, used %d; expected %d and %d", what, b.Quota, b.QuotaUsed, s.Q, s.Qu)
	// a block that claims another quota is refused or corrected
	if r.On("quota") {
		f := *b
		f.Quota++
		f.Hash = f.ComputeHash()
		sig, pub, _ := r.user(s.U).Sign(f.Hash.Bytes())
		f.Signature, f.PublicKey = sig, pub
		v, err := r.w.Verify(&f)
		r.Check("quota", err != nil || v.AccountBlock.Quota == s.Q, "%s: a block that claims quota %d is accepted", what, f.Quota)
	}
	v, err := r.w.Verify(b)
	r.Op(err, "%s: verification", what)
	r.Op(r.w.Chain.InsertAccountBlock(v), "%s: insertion", what)
	r.blk[s.Id] = v.AccountBlock
}

func (r *rep) observe(o *obs) {
	ch := r.w.Chain
	sb := ch.GetLatestSnapshotBlock()
	r.Check("op", sb.Height == o.Tip, "height %d, expected %d", sb.Height, o.Tip)
	var unc []types.Hash
	for _, b := range ch.GetAllUnconfirmedBlocks() {
		unc = append(unc, b.Hash)
	}
	ok := len(unc) == len(o.Unc)
	for i := 0; ok && i < len(unc); i++ {
		ok = unc[i] == r.blk[o.Unc[i]].Hash
	}
	r.Check("rollback", ok, "%d unconfirmed blocks, expected %v", len(unc), o.Unc)
	r.ledger(o)
	g := ch.GetGlobalQuota()
	r.Check("quota", g.BlockCount == o.Glob[0] && g.QuotaTotal == o.Glob[1] && g.QuotaUsedTotal == o.Glob[2], "global quota %+v, expected %v", g, o.Glob)
	want := map[string][]types.QuotaInfo{}
	for _, a := range o.Acc {
		want[a.U] = make([]types.QuotaInfo, o.Len)
	}
	for _, u := range o.Used {
		want[u.U][o.Len-1-u.Pos] = types.QuotaInfo{BlockCount: u.I[0], QuotaTotal: u.I[1], QuotaUsedTotal: u.I[2]}
	}
	for _, a := range o.Acc {
		addr := r.user(a.U).Addr
		l := ch.GetQuotaUsedList(addr)
		ok := len(l) == o.Len
		for i := 0; ok && i < len(l); i++ {
			ok = l[i] == want[a.U][i]
		}
		r.Check("quota", ok, "quota window of %s at height %d:\n%v (%d)\nexpected\n%v (%d)", a.U, o.Tip, l, len(l), want[a.U], o.Len)
		_, q, err := ch.GetStakeQuota(addr)
		r.Check("quota", (err != nil) == a.Overdrawn, "GetStakeQuota(%s): %v, expected overdrawn=%v", a.U, err, a.Overdrawn)
		unused, err2 := ch.GetQuotaUnused(addr)
		if err == nil {
			r.Check("quota", q.Current() == a.Avail && q.StakeQuotaPerSnapshotBlock() == a.QS && q.SnapshotCurrent() == a.Snap && q.Avg() == a.Avg && !q.Blocked(),
				"quota of %s: %+v, expected %+v", a.U, *q, a)
			r.Check("quota", err2 == nil && unused == a.Avail, "unused quota of %s: %d %v, expected %d", a.U, unused, err2, a.Avail)
		}
		db := vm_db.NewVmDbByAddr(ch, &addr)
		r.Check("quota", quota.CanPoW(db, addr) == !a.HasPow, "CanPoW(%s) is %v", a.U, a.HasPow)
	}
}

// ledger compares what a rollback has to restore.
func (r *rep) ledger(o *obs) {
	if !r.On("rollback") {
		return
	}
	ch := r.w.Chain
	live := map[int]bool{}
	for _, id := range o.Live {
		live[id] = true
	}
	at := map[int]uint64{}
	for _, x := range o.At {
		at[x[0]] = uint64(x[1])
	}
	open := map[int]bool{}
	for _, id := range o.Open {
		open[id] = true
	}
	byHash := map[types.Hash]bool{}
	for id := range live {
		byHash[r.blk[id].Hash] = true
	}
	for id, b := range r.blk {
		x, err := ch.GetAccountBlockByHash(b.Hash)
		r.Op(err, "block #%d", id)
		if !live[id] {
			r.Check("rollback", x == nil || byHash[b.Hash], "block #%d is still there", id)
			continue
		}
		r.Check("rollback", x != nil && x.Height == b.Height && x.AccountAddress == b.AccountAddress, "block #%d is missing", id)
		sb, err := ch.GetConfirmSnapshotHeaderByAbHash(b.Hash)
		r.Op(err, "confirmation of #%d", id)
		h := uint64(0)
		if sb != nil {
			h = sb.Height
		}
		r.Check("rollback", h == at[id], "block #%d is confirmed at %d, expected %d", id, h, at[id])
		if b.IsSendBlock() {
			rc, err := ch.IsReceived(b.Hash)
			r.Op(err, "receive of #%d", id)
			r.Check("rollback", rc != open[id], "send #%d received: %v", id, rc)
		}
	}
	for _, l := range o.Last {
		a := r.user(l.U).Addr
		b, err := ch.GetLatestAccountBlock(a)
		r.Op(err, "latest block of %s", l.U)
		r.Check("rollback", b != nil && (l.Id == 0 && b.Height == 1 || l.Id != 0 && b.Hash == r.blk[l.Id].Hash), "latest block of %s is %+v, expected #%d", l.U, b, l.Id)
		bal, err := ch.GetBalance(a, world.Vite)
		r.Op(err, "balance")
		want := new(big.Int).Add(world.U(1000), big.NewInt(l.Delta))
		r.Check("rollback", bal.Cmp(want) == 0, "balance of %s is %s, expected %s", l.U, bal, want)
	}
}
