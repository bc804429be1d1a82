// Command builtin replays behaviours of specs/Builtin on a complete node core.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"sort"

	"github.com/vitelabs/go-vite/v2/common/config"
	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/ledger/consensus/core"
	"github.com/vitelabs/go-vite/v2/vm/contracts/abi"
	"github.com/vitelabs/go-vite/v2/vm_db"
	"github.com/vitelabs/go-vite/v2/zz_verif/run"
	"github.com/vitelabs/go-vite/v2/zz_verif/world"
)

type arg struct {
	Op string `json:"op"`
	A  string `json:"a"`
	B  string `json:"b"`
	C  string `json:"c"`
	N  int64  `json:"n"`
	M  int64  `json:"m"`
	F  bool   `json:"f"`
	G  bool   `json:"g"`
}

type day struct {
	Name string
	Day  uint64
}

func (d *day) UnmarshalJSON(b []byte) error {
	var x [2]json.RawMessage
	if err := json.Unmarshal(b, &x); err != nil {
		return err
	}
	if err := json.Unmarshal(x[0], &d.Name); err != nil {
		return err
	}
	return json.Unmarshal(x[1], &d.Day)
}

type bal struct {
	U, T string
	N    int64
}

func (d *bal) UnmarshalJSON(b []byte) error {
	var x [3]json.RawMessage
	if err := json.Unmarshal(b, &x); err != nil {
		return err
	}
	if err := json.Unmarshal(x[0], &d.U); err != nil {
		return err
	}
	if err := json.Unmarshal(x[1], &d.T); err != nil {
		return err
	}
	return json.Unmarshal(x[2], &d.N)
}

type out struct {
	To   string `json:"to"`
	Tok  int    `json:"tok"`
	Amt  int64  `json:"amt"`
	Kind string `json:"kind"`
	Arg  arg    `json:"arg"`
	Rw   []day  `json:"rw"`
}

type stake struct {
	Owner string `json:"owner"`
	Id    int    `json:"id"`
	Ben   string `json:"ben"`
	Amt   int64  `json:"amt"`
	Exp   uint64 `json:"exp"`
	Dg    string `json:"dg"`
	Bid   uint8  `json:"bid"`
	Key   int    `json:"key"`
}

type tok struct {
	Id     int    `json:"id"`
	Owner  string `json:"owner"`
	Supply int64  `json:"supply"`
	Max    int64  `json:"max"`
	Re     bool   `json:"re"`
	Bo     bool   `json:"bo"`
	Sym    string `json:"sym"`
	Idx    int    `json:"idx"`
}

type reg struct {
	Name   string   `json:"name"`
	Owner  string   `json:"owner"`
	Prod   string   `json:"prod"`
	Wd     string   `json:"wd"`
	Amt    int64    `json:"amt"`
	Exp    uint64   `json:"exp"`
	Reward int64    `json:"reward"`
	Revoke int64    `json:"revoke"`
	Hist   []string `json:"hist"`
}

type obs struct {
	Bal    []bal            `json:"bal"`
	Rw     map[string][]day `json:"rw"`
	Minted []day            `json:"minted"`
	Burnt  int64            `json:"burnt"`
	Stakes []stake          `json:"stakes"`
	Ids    [][2]int         `json:"ids"`
	Toks   []tok            `json:"toks"`
	Olist  map[string][]int `json:"olist"`
	Regs   []reg            `json:"regs"`
	His    [][2]string      `json:"his"`
	Votes  [][2]string      `json:"votes"`
	Pend   []struct {
		Sid int    `json:"sid"`
		To  string `json:"to"`
	} `json:"pend"`
}

type step struct {
	A    string `json:"a"`
	Id   int    `json:"id"`
	From string `json:"from"`
	To   string `json:"to"`
	Tok  int    `json:"tok"`
	Amt  int64  `json:"amt"`
	Fee  int64  `json:"fee"`
	Arg  arg    `json:"arg"`
	C    string `json:"c"`
	U    string `json:"u"`
	Src  int    `json:"src"`
	Ok   bool   `json:"ok"`
	Outs []out  `json:"outs"`
	Op   string `json:"op"`
	N    int    `json:"n"`
	Dt   int64  `json:"dt"`
	H    uint64 `json:"h"`
	K    int    `json:"k"`
	O    obs    `json:"o"`
}

type snapRec struct {
	sb *ledger.SnapshotBlock
	o  *obs
}

type rep struct {
	*run.Ctx
	level  uint32 // of the cache between the steps
	groups int
	w     *world.World
	addr  map[string]types.Address
	name  map[types.Address]string
	snd   map[int]*ledger.AccountBlock
	call  map[int]*step // the call a send carries
	tti   map[int]types.TokenTypeId
	snaps []snapRec
	dirN  int
	o0    *obs
	o     *obs
}

var contractOf = map[string]string{"Q": "stake", "A": "asset", "G": "gov"}

// names of the specification and of the node
var realName = map[string]string{"s1": "sbp.one", "s2": "Node 2", "s3": "sbp.one2"}

func main() { run.Main(replay) }

func pays(name string, d uint64) bool {
	if name == "s1" {
		return d%3 != 0
	}
	return (d+1)%3 != 0
}

func (r *rep) stats(d uint64) *core.DayStats {
	x := &core.DayStats{Index: d, Stats: map[string]*core.SbpStats{}, VoteSum: &core.BigInt{Int: world.U(0)}, BlockTotal: 100 + 7*d}
	for i, n := range []string{"s1", "s2", "s3"} {
		if !pays(n, d) {
			continue
		}
		v := world.U(int64(1000*(i+1)) + int64(d))
		x.Stats[realName[n]] = &core.SbpStats{Index: d, BlockNum: 10 + d + uint64(3*i), ExceptedBlockNum: 20 + d + uint64(5*i), VoteCnt: &core.BigInt{Int: v}, Name: realName[n]}
		x.VoteSum.Add(x.VoteSum.Int, v)
	}
	// someone else, so that a day is never empty
	x.Stats["other"] = &core.SbpStats{Index: d, BlockNum: 5, ExceptedBlockNum: 9, VoteCnt: &core.BigInt{Int: world.U(77)}, Name: "other"}
	x.VoteSum.Add(x.VoteSum.Int, world.U(77))
	return x
}

// reward of a name on a day, by the published formula
func (r *rep) reward(d day) *big.Int {
	s := r.stats(d.Day)
	me := s.Stats[realName[d.Name]]
	if me == nil {
		return new(big.Int)
	}
	rpb, _ := new(big.Int).SetString("951293759512937595", 10)
	stake := world.U(1000000)
	if d.Day == 0 {
		stake = world.U(500000)
	}
	num := new(big.Int).Add(me.VoteCnt.Int, stake)
	for _, k := range []uint64{s.BlockTotal, 50, me.BlockNum} {
		num.Mul(num, new(big.Int).SetUint64(k))
	}
	num.Mul(num, rpb)
	den := new(big.Int).Mul(stake, big.NewInt(int64(len(s.Stats))))
	den.Add(den, s.VoteSum.Int)
	num.Quo(num, den)
	num.Quo(num, new(big.Int).SetUint64(me.ExceptedBlockNum))
	num.Quo(num, big.NewInt(100))
	b := new(big.Int).Mul(rpb, new(big.Int).SetUint64(me.BlockNum*50))
	b.Quo(b, big.NewInt(100))
	return num.Add(num, b)
}

func (r *rep) rewards(l []day) *big.Int {
	t := new(big.Int)
	for _, d := range l {
		t.Add(t, r.reward(d))
	}
	return t
}

func replay(c *run.Ctx, line []byte) {
	var steps []step
	if err := json.Unmarshal(line, &steps); err != nil {
		run.Infra("trace: %v", err)
	}
	r := &rep{Ctx: c, addr: map[string]types.Address{}, name: map[types.Address]string{}, snd: map[int]*ledger.AccountBlock{},
		call: map[int]*step{}, tti: map[int]types.TokenTypeId{0: world.Vite, genTok: world.TokenA}}
	r.w = world.New(c.Scratch("n0"), world.Options{Users: 3, OnRoad: true, Node: c.On("api"), Balance: world.U(5000000), Tune: func(g *config.Genesis, w *world.World) {
		v := g.AssetInfo.TokenInfoMap[world.Vite.Hex()]
		v.Owner = types.AddressGovernance
		v.IsReIssuable = true
		v.MaxSupply = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))
		a := g.AssetInfo.TokenInfoMap[world.TokenA.Hex()]
		a.TokenName = "Token TOKA"
		a.MaxSupply = new(big.Int).Add(a.TotalSupply, world.U(7))
		for _, m := range g.GovernanceInfo.RegistrationInfoMap {
			if x, ok := m["s1"]; ok {
				delete(m, "s1")
				m["genesis"] = x
			}
		}
		for _, x := range g.GovernanceInfo.ConsensusGroupInfoMap {
			x.RegisterConditionParam.StakeHeight = 3
		}
	}})
	defer func() { r.w.Close() }()
	for i, u := range r.w.Users {
		r.bind(fmt.Sprintf("u%d", i+1), u.Addr)
	}
	for i := 1; i <= 5; i++ {
		r.bind(fmt.Sprintf("p%d", i), world.NewAccount(300+i).Addr)
	}
	for i := 1; i <= 2; i++ {
		r.bind(fmt.Sprintf("w%d", i), world.NewAccount(320+i).Addr)
	}
	r.bind("Q", types.AddressQuota)
	r.bind("A", types.AddressAsset)
	r.bind("G", types.AddressGovernance)
	for d := uint64(0); d < 200; d++ {
		r.w.SBP.Days[d] = r.stats(d)
	}
	r.o0 = &obs{Rw: map[string][]day{}, Toks: []tok{{Id: genTok, Owner: "u1", Supply: 15000000, Max: 15000007, Re: true, Sym: "TOKA"}}}
	for _, u := range []string{"u1", "u2", "u3"} {
		r.o0.Bal = append(r.o0.Bal, bal{u, "0", 5000000}, bal{u, fmt.Sprint(genTok), 5000000})
	}
	r.o = r.o0
	r.level = uint32(len(line)) % 2
	for i := range steps {
		s := &steps[i]
		c.Step = i + 1
		if c.On("round") {
			r.w.Chain.SetCacheLevelForConsensus(r.level)
		}
		r.apply(s)
		r.o = &s.O
		if s.A == "snap" {
			r.snaps[len(r.snaps)-1].o = r.o
		}
		r.observe()
		r.contractApi()
		if s.A == "snap" || s.A == "delsnap" || s.A == "restart" || i == len(steps)-1 {
			r.history()
			r.rounds()
		}
		key := s.A
		if s.A == "crecv" {
			key = fmt.Sprintf("%s.%s.%v", s.C, s.Op, s.Ok)
		}
		c.Notes[key]++
	}
}

func (r *rep) bind(n string, a types.Address) {
	r.addr[n] = a
	r.name[a] = n
}

func (r *rep) user(n string) world.Account { return r.w.Users[int(n[1]-'1')] }

func (r *rep) token(k int) types.TokenTypeId {
	if t, ok := r.tti[k]; ok {
		return t
	}
	return types.TokenTypeId{1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
}

const genTok = 500000 // the specification's token of genesis

func decimals(tok int) uint8 {
	if tok == genTok {
		return 18
	}
	return 2
}

func amount(tok int, n int64) *big.Int {
	if tok == 0 || tok == genTok {
		return world.U(n)
	}
	return big.NewInt(n)
}

func must(b []byte, err error) []byte {
	if err != nil {
		run.Infra("pack: %v", err)
	}
	return b
}

func (r *rep) data(g arg) []byte {
	q, a, v := abi.ABIQuota, abi.ABIAsset, abi.ABIGovernance
	A, B, C := r.addr[g.A], r.addr[g.B], r.addr[g.C]
	nm := realName[g.A]
	switch g.Op {
	case "":
		return nil
	case "stake":
		return must(q.PackMethod("StakeForQuota", A))
	case "stakecb":
		return must(q.PackMethod("StakeForQuotaWithCallback", A, uint64(g.N)))
	case "cancel":
		return must(q.PackMethod("CancelQuotaStaking", r.hash(int(g.N))))
	case "cancelcb":
		return must(q.PackMethod("CancelQuotaStakingWithCallback", r.hash(int(g.N))))
	case "stakeold":
		return must(q.PackMethod("Stake", A))
	case "cancelold":
		return must(q.PackMethod("CancelStake", A, world.U(g.N)))
	case "delegate":
		return must(q.PackMethod("DelegateStake", B, A, uint8(g.M), uint64(g.N)))
	case "canceldel":
		return must(q.PackMethod("CancelDelegateStake", B, A, world.U(g.N), uint8(g.M)))
	case "issue":
		return must(a.PackMethod("IssueToken", g.F, "Token "+g.A, g.A, big.NewInt(g.N), uint8(2), big.NewInt(g.M), g.G))
	case "reissue":
		return must(a.PackMethod("ReIssue", r.token(int(g.N)), amount(int(g.N), g.M), A))
	case "burn":
		return must(a.PackMethod("Burn"))
	case "transfer":
		return must(a.PackMethod("TransferOwnership", r.token(int(g.N)), A))
	case "disable":
		return must(a.PackMethod("DisableReIssue", r.token(int(g.N))))
	case "info":
		return must(a.PackMethod("GetTokenInformation", r.token(int(g.N))))
	case "register":
		return must(v.PackMethod("RegisterSBP", nm, B, C))
	case "revoke":
		return must(v.PackMethod("RevokeSBP", nm))
	case "prod":
		return must(v.PackMethod("UpdateSBPBlockProducingAddress", nm, B))
	case "wd":
		return must(v.PackMethod("UpdateSBPRewardWithdrawAddress", nm, B))
	case "reward":
		return must(v.PackMethod("WithdrawSBPReward", nm, B))
	case "vote":
		return must(v.PackMethod("VoteForSBP", nm))
	case "unvote":
		return must(v.PackMethod("CancelSBPVoting"))
	}
	run.Infra("operation %s", g.Op)
	return nil
}

func (r *rep) hash(sid int) types.Hash {
	if b := r.snd[sid]; b != nil {
		return b.Hash
	}
	return types.Hash{1, 2, 3}
}

// what a contract tells its caller
func (r *rep) callback(o out, src int, p *step) []byte {
	switch o.Arg.Op {
	case "":
		return nil
	case "stakecb":
		return must(abi.ABIQuota.PackCallback("StakeForQuotaWithCallback", r.hash(src), o.Arg.F))
	case "cancelcb":
		return must(abi.ABIQuota.PackCallback("CancelQuotaStakingWithCallback", r.hash(int(p.Arg.N)), o.Arg.F))
	case "delegate":
		return must(abi.ABIQuota.PackCallback("DelegateStake", r.addr[p.Arg.B], r.addr[p.Arg.A], world.U(p.Amt), uint8(p.Arg.M), o.Arg.F))
	case "canceldel":
		return must(abi.ABIQuota.PackCallback("CancelDelegateStake", r.addr[p.Arg.B], r.addr[p.Arg.A], world.U(p.Arg.N), uint8(p.Arg.M), o.Arg.F))
	case "info":
		t := tok{}
		for _, x := range r.o.Toks {
			if x.Id == int(p.Arg.N) {
				t = x
			}
		}
		if t.Id == 0 {
			return must(abi.ABIAsset.PackCallback("GetTokenInformation", r.hash(src), r.token(int(p.Arg.N)), false, false, "", "", big.NewInt(0), uint8(0), big.NewInt(0), false, uint16(0), types.Address{}))
		}
		return must(abi.ABIAsset.PackCallback("GetTokenInformation", r.hash(src), r.token(t.Id), true, t.Re, "Token "+t.Sym, t.Sym, amount(t.Id, t.Supply), decimals(t.Id), amount(t.Id, t.Max), t.Bo, uint16(t.Idx), r.addr[t.Owner]))
	case "reissue":
		return must(abi.ABIAsset.PackMethod("ReIssue", world.Vite, r.rewards(o.Rw), r.addr[o.Arg.A]))
	}
	run.Infra("callback %s", o.Arg.Op)
	return nil
}

var blockType = map[string]byte{"call": ledger.BlockTypeSendCall, "reward": ledger.BlockTypeSendReward}

var eventOf = map[string]string{"issue": "issueToken", "reissue": "reIssue", "burn": "burn", "transfer": "transferOwnership", "disable": "disableReIssue"}

func (r *rep) apply(s *step) {
	w := r.w
	switch s.A {
	case "call":
		grp := contractOf[s.To]
		if grp == "" {
			grp = "money"
		}
		b, err := w.Send(r.user(s.From), r.addr[s.To], r.token(s.Tok), amount(s.Tok, s.Amt), r.data(s.Arg))
		if err != nil {
			r.Fail(grp, "call %s of %s by %s is refused: %v", s.Arg.Op, s.To, s.From, err)
			r.Op(err, "call %s of %s by %s", s.Arg.Op, s.To, s.From)
		}
		fee := b.Fee
		if fee == nil {
			fee = new(big.Int)
		}
		r.Check(grp, fee.Cmp(world.U(s.Fee)) == 0, "call %s of %s: fee %s, expected %d", s.Arg.Op, s.To, fee, s.Fee)
		r.snd[s.Id], r.call[s.Id] = b, s
	case "crecv":
		grp := contractOf[s.C]
		b, retry, execErr, err := w.Recv(world.Account{}, r.snd[s.Src])
		r.Op(err, "receive #%d (%s) by %s (retry=%v)", s.Src, s.Op, s.C, retry)
		what := fmt.Sprintf("%s #%d received by %s", s.Op, s.Src, s.C)
		r.Check(grp, (execErr == nil) == s.Ok, "%s: result is %v, expected ok=%v", what, execErr, s.Ok)
		r.Check(grp, len(b.SendBlockList) == len(s.Outs), "%s: %d sends, expected %d", what, len(b.SendBlockList), len(s.Outs))
		r.Check(grp, len(b.Data) == types.HashSize+1 && (b.Data[types.HashSize] == 0) == s.Ok, "%s: result data %x, expected ok=%v", what, b.Data, s.Ok)
		if len(b.SendBlockList) != len(s.Outs) {
			r.Fail("op", "%s: %d sends, expected %d", what, len(b.SendBlockList), len(s.Outs))
		}
		if s.Op == "issue" && s.Ok {
			id := b.SendBlockList[0].TokenId
			for k, v := range r.tti {
				for _, t := range s.O.Toks {
					r.Check(grp, v != id || k == s.Id || t.Id != k, "%s: token id %s is that of token #%d", what, id, k)
				}
			}
			r.tti[s.Id] = id
		}
		for i, o := range s.Outs {
			x := b.SendBlockList[i]
			r.Check(grp, x.ToAddress == r.addr[o.To] && x.TokenId == r.token(o.Tok) && x.AccountAddress == r.addr[s.C] && x.BlockType == blockType[o.Kind],
				"%s: send %d is type %d to %s of %s, expected %s to %s of token #%d", what, i, x.BlockType, r.name[x.ToAddress], x.TokenId, o.Kind, o.To, o.Tok)
			want := amount(o.Tok, o.Amt)
			if o.Kind == "reward" && len(o.Rw) > 0 {
				want = r.rewards(o.Rw)
			}
			r.Check(grp, x.Amount.Cmp(want) == 0, "%s: send %d carries %s, expected %s", what, i, x.Amount, want)
			if s.C == "A" && o.Kind == "reward" {
				for _, d := range o.Rw {
					for _, e := range r.o.Minted {
						if e != d {
							continue
						}
						r.Fail("gov", "the reward %v is paid twice: an older withdrawal was received after a newer one", d)
					}
				}
			}
			if p := r.call[s.Src]; p != nil {
				r.Check(grp, bytes.Equal(x.Data, r.callback(o, s.Src, p)), "%s: send %d tells %x, expected %x", what, i, x.Data, r.callback(o, s.Src, p))
			}
			r.snd[s.Id+i+1] = x
		}
		// the event an asset operation leaves
		ev := eventOf[s.Op]
		if s.C == "A" && ev != "" && s.Ok {
			r.Check(grp, b.LogHash != nil, "%s leaves no event", what)
			if b.LogHash != nil {
				l, err := w.Chain.GetVmLogList(b.LogHash)
				r.Op(err, "logs")
				id := r.token(s.Id)
				if s.Op != "issue" {
					id = world.Vite
					if p := r.call[s.Src]; p != nil {
						id = r.token(int(p.Arg.N))
						if s.Op == "burn" {
							id = r.token(p.Tok)
						}
					}
				}
				topic := make([]byte, types.HashSize)
				copy(topic[types.HashSize-types.TokenTypeIdSize:], id.Bytes())
				r.Check(grp, len(l) == 1 && len(l[0].Topics) == 2 && l[0].Topics[0] == abi.ABIAsset.Events[ev].Id() && bytes.Equal(l[0].Topics[1].Bytes(), topic), "%s: events %+v", what, l)
			}
		} else {
			r.Check(grp, b.LogHash == nil, "%s leaves an event", what)
		}
	case "urecv":
		b, _, execErr, err := w.Recv(r.user(s.U), r.snd[s.Src])
		r.Op(err, "receive #%d by %s", s.Src, s.U)
		r.Check("money", execErr == nil && len(b.SendBlockList) == 0, "receive #%d by %s: %v", s.Src, s.U, execErr)
	case "early":
		vb, _, _ := w.GenRecv(world.Account{}, r.snd[s.Src], nil)
		r.Checks++
		if vb != nil {
			_, err := w.Verify(vb.AccountBlock)
			r.Check(contractOf[s.C], err != nil, "receive of #%d by %s before its turn is accepted", s.Src, s.C)
		}
	case "bad":
		r.bad(s)
	case "snap":
		w.Now = w.Chain.GetLatestSnapshotBlock().Timestamp.Unix() + s.Dt
		var sb *ledger.SnapshotBlock
		for i := 0; i < s.N; i++ {
			var bad []*ledger.AccountBlock
			var err error
			sb, bad, err = w.Snapshot(false)
			r.Op(err, "snapshot")
			if len(bad) > 0 {
				r.Fail("op", "snapshot drops %d blocks", len(bad))
			}
		}
		r.snaps = append(r.snaps, snapRec{sb: sb})
	case "delsnap":
		_, err := w.Chain.DeleteSnapshotBlocksToHeight(s.H)
		r.Op(err, "delete snapshot blocks from %d", s.H)
		r.snaps = r.snaps[:s.N-1]
	case "flush":
		w.Flush()
	case "restart":
		r.dirN++
		nd := r.Scratch(fmt.Sprintf("n%d", r.dirN))
		if err := world.CopyDir(w.Dir, nd); err != nil {
			run.Infra("copy: %v", err)
		}
		old := w.Dir
		w.Reopen(nd)
		os.RemoveAll(old)
		r.snaps = r.snaps[:s.N]
	default:
		run.Infra("action %s", s.A)
	}
}

type refused struct {
	grp, what string
	to        string
	tok       types.TokenTypeId
	amt       *big.Int
	data      []byte
}

func (r *rep) bad(s *step) {
	q, a, v := abi.ABIQuota, abi.ABIAsset, abi.ABIGovernance
	me, any := r.addr[s.U], r.addr["u1"]
	z, one := new(big.Int), big.NewInt(1)
	issue := func(what string, re bool, name, sym string, sup, max int64, bo bool) refused {
		return refused{"asset", "issue: " + what, "A", world.Vite, z, must(a.PackMethod("IssueToken", re, name, sym, big.NewInt(sup), uint8(2), big.NewInt(max), bo))}
	}
	long := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = 'X'
		}
		return string(b)
	}
	low := new(big.Int).Sub(world.U(134), one)
	l := []refused{
		{"stake", "stake below the minimum", "Q", world.Vite, low, must(q.PackMethod("StakeForQuota", any))},
		{"stake", "stake of another token", "Q", world.TokenA, world.U(200), must(q.PackMethod("StakeForQuota", any))},
		{"stake", "stake for less than the locking height", "Q", world.Vite, world.U(200), must(q.PackMethod("StakeForQuotaWithCallback", any, uint64(599)))},
		{"stake", "stake for more than the maximum height", "Q", world.Vite, world.U(200), must(q.PackMethod("StakeForQuotaWithCallback", any, uint64(3600*24*365+1)))},
		{"stake", "cancel with an amount", "Q", world.Vite, one, must(q.PackMethod("CancelQuotaStaking", types.Hash{1}))},
		{"stake", "cancel below the minimum", "Q", world.Vite, z, must(q.PackMethod("CancelStake", any, low))},
		{"stake", "cancel of a delegation below the minimum", "Q", world.Vite, z, must(q.PackMethod("CancelDelegateStake", any, any, low, uint8(1)))},
		{"stake", "delegation for less than the locking height", "Q", world.Vite, world.U(200), must(q.PackMethod("DelegateStake", any, any, uint8(1), uint64(599)))},
		{"stake", "delegation below the minimum", "Q", world.Vite, low, must(q.PackMethod("DelegateStake", any, any, uint8(1), uint64(600)))},
		{"stake", "stake (old) of another token", "Q", world.TokenA, world.U(200), must(q.PackMethod("Stake", any))},
		{"stake", "a method that does not exist", "Q", world.Vite, z, []byte{1, 2, 3, 4}},
		issue("symbol in lower case", true, "Token", "aaa", 10, 20, false),
		issue("reserved symbol", true, "Token", "VITE", 10, 20, false),
		issue("reserved symbol", true, "Token", "VCP", 10, 20, false),
		issue("reserved symbol", true, "Token", "VX", 10, 20, false),
		issue("symbol too long", true, "Token", long(11), 10, 20, false),
		issue("empty symbol", true, "Token", "", 10, 20, false),
		issue("name with a digit", true, "Token1", "TOK", 10, 20, false),
		issue("name too long", true, long(41), "TOK", 10, 20, false),
		issue("name with two blanks", true, "To  ken", "TOK", 10, 20, false),
		issue("empty name", true, "", "TOK", 10, 20, false),
		issue("nothing issued, never", false, "Token", "TOK", 0, 0, false),
		issue("maximum below supply", true, "Token", "TOK", 10, 9, false),
		issue("fixed with maximum", false, "Token", "TOK", 10, 20, false),
		issue("fixed with owner burn only", false, "Token", "TOK", 10, 0, true),
		{"asset", "issue with an amount", "A", world.Vite, one, must(a.PackMethod("IssueToken", true, "Token", "TOK", big.NewInt(10), uint8(2), big.NewInt(20), false))},
		{"asset", "re-issue of nothing", "A", world.Vite, z, must(a.PackMethod("ReIssue", world.TokenA, z, any))},
		{"asset", "re-issue with an amount", "A", world.Vite, one, must(a.PackMethod("ReIssue", world.TokenA, one, any))},
		{"asset", "burn of nothing", "A", world.Vite, z, must(a.PackMethod("Burn"))},
		{"asset", "transfer of ownership to oneself", "A", world.Vite, z, must(a.PackMethod("TransferOwnership", world.TokenA, me))},
		{"asset", "transfer of ownership with an amount", "A", world.Vite, one, must(a.PackMethod("TransferOwnership", world.TokenA, r.addr["w1"]))},
		{"asset", "disable with an amount", "A", world.Vite, one, must(a.PackMethod("DisableReIssue", world.TokenA))},
		{"gov", "register without a name", "G", world.Vite, world.U(1000000), must(v.PackMethod("RegisterSBP", "", any, any))},
		{"gov", "register a name that is too long", "G", world.Vite, world.U(1000000), must(v.PackMethod("RegisterSBP", long(41), any, any))},
		{"gov", "register a name with a comma", "G", world.Vite, world.U(1000000), must(v.PackMethod("RegisterSBP", "a,b", any, any))},
		{"gov", "register a name with two blanks", "G", world.Vite, world.U(1000000), must(v.PackMethod("RegisterSBP", "a  b", any, any))},
		{"gov", "register a name that ends with a blank", "G", world.Vite, world.U(1000000), must(v.PackMethod("RegisterSBP", "ab ", any, any))},
		{"gov", "register for the delegate group", "G", world.Vite, world.U(1000000), must(v.PackMethod("Register", types.DELEGATE_GID, "ab", any))},
		{"gov", "revoke with an amount", "G", world.Vite, one, must(v.PackMethod("RevokeSBP", "ab"))},
		{"gov", "new producer with an amount", "G", world.Vite, one, must(v.PackMethod("UpdateSBPBlockProducingAddress", "ab", any))},
		{"gov", "new withdraw address with an amount", "G", world.Vite, one, must(v.PackMethod("UpdateSBPRewardWithdrawAddress", "ab", any))},
		{"gov", "withdraw with an amount", "G", world.Vite, one, must(v.PackMethod("WithdrawSBPReward", "ab", any))},
		{"gov", "vote with an amount", "G", world.Vite, one, must(v.PackMethod("VoteForSBP", "ab"))},
		{"gov", "vote for a bad name", "G", world.Vite, z, must(v.PackMethod("VoteForSBP", "a,b"))},
		{"gov", "cancel a vote with an amount", "G", world.Vite, one, must(v.PackMethod("CancelSBPVoting"))},
		{"gov", "a method that does not exist", "G", world.Vite, z, []byte{1, 2, 3, 4}},
	}
	for i := 0; i < 4; i++ {
		x := l[(s.K+i*24+r.Step)%len(l)]
		if x.tok == world.Vite && x.amt.Cmp(r.vite(s.U)) > 0 {
			continue
		}
		to := r.addr[x.to]
		vb, err := r.w.GenSend(r.user(s.U), ledger.BlockTypeSendCall, &to, x.tok, x.amt, x.data, nil)
		r.Check(x.grp, err != nil || vb == nil, "%s: the call is accepted", x.what)
	}
}

func (r *rep) vite(u string) *big.Int {
	b, err := r.w.Chain.GetBalance(r.addr[u], world.Vite)
	r.Op(err, "balance")
	return b
}

func (r *rep) observe() {
	ch := r.w.Chain
	o := r.o
	// balances
	hasBal := map[string]int64{}
	for _, x := range o.Bal {
		hasBal[x.U+"/"+x.T] = x.N
	}
	for _, u := range []string{"u1", "u2", "u3"} {
		m, err := ch.GetBalanceMap(r.addr[u])
		r.Op(err, "balances of %s", u)
		cur := map[types.TokenTypeId]bool{}
		ks := []int{0}
		for _, t := range o.Toks {
			ks = append(ks, t.Id)
		}
		for _, k := range ks {
			id := r.token(k)
			cur[id] = true
			want := amount(k, hasBal[fmt.Sprintf("%s/%d", u, k)])
			if k == 0 {
				want.Add(want, r.rewards(o.Rw[u]))
			}
			got := m[id]
			if got == nil {
				got = new(big.Int)
			}
			r.Check("money", got.Cmp(want) == 0, "%s has %s of token #%d, expected %s", u, got, k, want)
		}
		for id, n := range m {
			r.Check("money", cur[id] || n.Sign() == 0, "%s has %s of token %s, which does not exist", u, n, id)
		}
	}
	// contract balances back what they owe
	var st, rg int64
	for _, x := range o.Stakes {
		st += x.Amt
	}
	for _, x := range o.Regs {
		rg += x.Amt
	}
	for c, n := range map[string]int64{"Q": st, "A": 0, "G": rg} {
		b, err := ch.GetBalance(r.addr[c], world.Vite)
		r.Op(err, "balance of %s", c)
		r.Check(contractOf[c], b.Cmp(world.U(n)) == 0, "%s holds %s VITE, owes %d", c, b, n)
	}
	r.tokens()
	q := vm_db.NewVmDbByAddr(ch, &types.AddressQuota)
	r.stakes(q, o, "now")
	g := vm_db.NewVmDbByAddr(ch, &types.AddressGovernance)
	r.gov(g, o, "now")
	// quota comes from the stakes of the latest snapshot
	if r.On("stake") {
		so := r.o0
		if len(r.snaps) > 0 {
			so = r.snaps[len(r.snaps)-1].o
		}
		for _, u := range []string{"u1", "u2", "u3"} {
			b, err := ch.GetStakeBeneficialAmount(r.addr[u])
			r.Op(err, "beneficial amount")
			want := new(big.Int).Add(world.BigStake(), world.U(benOf(so, u)))
			r.Check("stake", b.Cmp(want) == 0, "stakes for %s amount to %s, expected %s", u, b, want)
		}
	}
}

func benOf(o *obs, u string) (n int64) {
	for _, x := range o.Stakes {
		if x.Ben == u {
			n += x.Amt
		}
	}
	return
}

func (r *rep) tokens() {
	if !r.On("asset") {
		return
	}
	ch := r.w.Chain
	o := r.o0 // the node answers from the latest snapshot
	if len(r.snaps) > 0 {
		o = r.snaps[len(r.snaps)-1].o
	}
	all, err := ch.GetAllTokenInfo()
	r.Op(err, "tokens")
	r.Check("asset", len(all) == len(o.Toks)+1, "%d tokens, expected %d", len(all), len(o.Toks)+1)
	check := func(t tok, i *types.TokenInfo, how string) {
		if i == nil {
			r.Check("asset", false, "token #%d is missing (%s)", t.Id, how)
			return
		}
		r.Check("asset", i.TokenName == "Token "+t.Sym && i.TokenSymbol == t.Sym && i.TotalSupply.Cmp(amount(t.Id, t.Supply)) == 0 && i.Decimals == decimals(t.Id) && i.Owner == r.addr[t.Owner] &&
			i.MaxSupply.Cmp(amount(t.Id, t.Max)) == 0 && i.OwnerBurnOnly == t.Bo && i.IsReIssuable == t.Re && int(i.Index) == t.Idx, "token #%d (%s) is %+v, expected %+v", t.Id, how, i, t)
	}
	for _, t := range o.Toks {
		check(t, all[r.token(t.Id)], "all")
		i, err := ch.GetTokenInfoById(r.token(t.Id))
		r.Op(err, "token")
		check(t, i, "by id")
	}
	if i, err := ch.GetTokenInfoById(r.token(77777)); true {
		r.Op(err, "token")
		r.Check("asset", i == nil, "a token that was never issued is %+v", i)
	}
	// VITE: what was there, less what was burnt, more what was minted
	i, err := ch.GetTokenInfoById(world.Vite)
	r.Op(err, "token")
	if i == nil {
		r.Fail("asset", "VITE is missing")
	}
	want := new(big.Int).Add(world.U(15000000-o.Burnt), r.rewards(o.Minted))
	r.Check("asset", i.TotalSupply.Cmp(want) == 0, "total supply of VITE is %s, expected %s", i.TotalSupply, want)
	// the state after the latest block
	o = r.o
	db := vm_db.NewVmDbByAddr(ch, &types.AddressAsset)
	byId := map[int]tok{}
	for _, t := range o.Toks {
		byId[t.Id] = t
		i, err := abi.GetTokenByID(db, r.token(t.Id))
		r.Op(err, "token")
		check(t, i, "now")
	}
	for _, u := range []string{"u1", "u2", "u3"} {
		m, err := abi.GetTokenMapByOwner(db, r.addr[u])
		r.Op(err, "tokens of %s", u)
		r.Check("asset", len(m) == len(o.Olist[u]), "%s owns %d tokens, expected %d", u, len(m), len(o.Olist[u]))
		for _, k := range o.Olist[u] {
			check(byId[k], m[r.token(k)], "by owner")
		}
	}
}

func (r *rep) stakes(db abi.StorageDatabase, o *obs, at string) {
	if !r.On("stake") {
		return
	}
	match := func(got *types.StakeInfo, x stake) bool {
		dg := types.Address{}
		if x.Dg != "" {
			dg = r.addr[x.Dg]
		}
		id := x.Id == 0 && got.Id == nil || x.Id != 0 && got.Id != nil && *got.Id == r.hash(x.Id)
		return got.Amount.Cmp(world.U(x.Amt)) == 0 && got.ExpirationHeight == x.Exp && got.Beneficiary == r.addr[x.Ben] && got.IsDelegated == (x.Dg != "") && got.DelegateAddress == dg && got.Bid == x.Bid && id
	}
	for _, u := range []string{"u1", "u2", "u3"} {
		l, total, err := abi.GetStakeInfoList(db, r.addr[u])
		r.Op(err, "stakes of %s", u)
		var want []stake
		var sum int64
		for _, x := range o.Stakes {
			if x.Owner == u && x.Dg == "" {
				want = append(want, x)
				sum += x.Amt
			}
		}
		r.Check("stake", len(l) == len(want), "%s: %s has %d stakes, expected %d", at, u, len(l), len(want))
		r.Check("stake", total.Cmp(world.U(sum)) == 0, "%s: stakes of %s amount to %s, expected %d", at, u, total, sum)
		for i := range want {
			r.Check("stake", match(l[i], want[i]), "%s: stake %d of %s is %+v, expected %+v", at, i, u, *l[i], want[i])
		}
	}
	for _, x := range o.Ids {
		i, err := abi.GetStakeInfoById(db, r.hash(x[0]).Bytes())
		var e *stake
		for j := range o.Stakes {
			if o.Stakes[j].Key == x[1] {
				e = &o.Stakes[j]
			}
		}
		if e == nil {
			r.Check("stake", err != nil || i == nil, "%s: stake #%d is found after its end", at, x[0])
		} else {
			r.Check("stake", err == nil && i != nil && match(i, *e), "%s: stake #%d by id is %+v (%v), expected %+v", at, x[0], i, err, *e)
		}
	}
}

func (r *rep) page(h types.Hash, o *obs, at string) {
	if !r.On("stake") {
		return
	}
	// all entries, two at a time
	var all []*types.StakeInfo
	var last []byte
	for n := 0; n < 100; n++ {
		l, k, err := r.w.Chain.GetStakeListByPage(h, last, 2)
		r.Op(err, "stakes by page")
		all, last = append(all, l...), k
		if len(l) < 2 {
			break
		}
	}
	r.Check("stake", len(all) == len(o.Stakes), "%s: %d stakes by page, expected %d", at, len(all), len(o.Stakes))
	left := append([]stake{}, o.Stakes...)
	for _, g := range all {
		ok := false
		for i, x := range left {
			if g.StakeAddress == r.addr[x.Owner] && g.Amount.Cmp(world.U(x.Amt)) == 0 && g.Beneficiary == r.addr[x.Ben] && g.ExpirationHeight == x.Exp {
				left = append(left[:i:i], left[i+1:]...)
				ok = true
				break
			}
		}
		r.Check("stake", ok, "%s: by page there is a stake %+v", at, *g)
	}
}

func (r *rep) tm(t int64) int64 {
	if t == -1 {
		return -1
	}
	return t + world.GenesisUnix
}

func (r *rep) match(g *types.Registration, x reg) bool {
	rv := int64(0)
	if x.Revoke != 0 {
		rv = r.tm(x.Revoke)
	}
	ok := g.Name == realName[x.Name] && g.BlockProducingAddress == r.addr[x.Prod] && g.RewardWithdrawAddress == r.addr[x.Wd] && g.StakeAddress == r.addr[x.Owner] &&
		g.Amount.Cmp(world.U(x.Amt)) == 0 && g.ExpirationHeight == x.Exp && g.RewardTime == r.tm(x.Reward) && g.RevokeTime == rv && len(g.HisAddrList) == len(x.Hist)
	if !ok {
		return false
	}
	for i, a := range x.Hist {
		if g.HisAddrList[i] != r.addr[a] {
			return false
		}
	}
	return true
}

func (r *rep) regList(l []*types.Registration, want []reg, at, how string) { r.regs("gov", l, want, at, how) }

func (r *rep) regs(grp string, l []*types.Registration, want []reg, at, how string) {
	var got []*types.Registration
	for _, g := range l {
		if g.Name != "genesis" {
			got = append(got, g)
		}
	}
	r.Check(grp, len(got) == len(want), "%s: %d registrations (%s), expected %d", at, len(got), how, len(want))
	sort.Slice(got, func(i, j int) bool { return got[i].Name > got[j].Name })
	sort.Slice(want, func(i, j int) bool { return realName[want[i].Name] > realName[want[j].Name] })
	for i := range want {
		r.Check(grp, r.match(got[i], want[i]), "%s: registration (%s) is %+v, expected %+v", at, how, *got[i], want[i])
	}
}

func sel(l []reg, f func(reg) bool) (res []reg) {
	for _, x := range l {
		if f(x) {
			res = append(res, x)
		}
	}
	return
}

func (r *rep) gov(db abi.StorageDatabase, o *obs, at string) {
	if !r.On("gov") {
		return
	}
	gid := types.SNAPSHOT_GID
	l, err := abi.GetAllRegistrationList(db, gid)
	r.Op(err, "registrations")
	r.regList(l, sel(o.Regs, func(reg) bool { return true }), at, "all")
	l, err = abi.GetCandidateList(db, gid)
	r.Op(err, "candidates")
	r.regList(l, sel(o.Regs, func(x reg) bool { return x.Revoke == 0 }), at, "candidates")
	for _, u := range []string{"u1", "u2", "u3", "w1", "w2"} {
		l, err = abi.GetRegistrationList(db, gid, r.addr[u])
		r.Op(err, "registrations")
		r.regList(l, sel(o.Regs, func(x reg) bool { return x.Owner == u }), at, "of "+u)
		l, err = abi.GetRegistrationListByRewardWithdrawAddr(db, gid, r.addr[u])
		r.Op(err, "registrations")
		r.regList(l, sel(o.Regs, func(x reg) bool { return x.Wd == u && x.Owner != u }), at, "withdrawn by "+u)
	}
	his := map[string]string{}
	for _, x := range o.His {
		his[x[0]] = x[1]
	}
	for _, p := range []string{"p1", "p2", "p3", "p4", "p5"} {
		v, err := db.GetValue(abi.GetHisNameKey(r.addr[p], gid))
		r.Op(err, "name of %s", p)
		n := ""
		if len(v) > 0 {
			x := new(string)
			r.Op(abi.ABIGovernance.UnpackVariable(x, abi.VariableNameRegisteredHisName, v), "name of %s", p)
			n = *x
		}
		r.Check("gov", n == realName[his[p]], "%s: %s belongs to %q, expected %q", at, p, n, realName[his[p]])
	}
	votes := map[string]string{}
	for _, x := range o.Votes {
		votes[x[0]] = realName[x[1]]
	}
	vl, err := abi.GetVoteList(db, gid)
	r.Op(err, "votes")
	r.Check("gov", len(vl) == len(votes), "%s: %d votes, expected %d", at, len(vl), len(votes))
	for _, v := range vl {
		r.Check("gov", votes[r.name[v.VoteAddr]] == v.SbpName, "%s: %s votes for %q, expected %q", at, r.name[v.VoteAddr], v.SbpName, votes[r.name[v.VoteAddr]])
	}
}

// what the node answers about every snapshot it keeps
func (r *rep) history() {
	_, _, sdb := r.w.Chain.DBs()
	n := 0
	for i := len(r.snaps) - 1; i >= 0 && n < 8; i-- {
		n++
		x := r.snaps[i]
		at := fmt.Sprintf("snapshot %d", x.sb.Height)
		q, err := sdb.NewStorageDatabase(x.sb.Hash, types.AddressQuota)
		r.Op(err, "storage")
		r.stakes(q, x.o, at)
		r.page(x.sb.Hash, x.o, at)
		g, err := sdb.NewStorageDatabase(x.sb.Hash, types.AddressGovernance)
		r.Op(err, "storage")
		r.gov(g, x.o, at)
		if r.On("gov") {
			l, err := r.w.Chain.GetRegisterList(x.sb.Hash, types.SNAPSHOT_GID)
			r.Op(err, "registrations")
			r.regList(l, sel(x.o.Regs, func(x reg) bool { return x.Revoke == 0 }), at, "node")
			l, err = r.w.Chain.GetAllRegisterList(x.sb.Hash, types.SNAPSHOT_GID)
			r.Op(err, "registrations")
			r.regList(l, sel(x.o.Regs, func(x reg) bool { return true }), at, "node, all")
			v, err := r.w.Chain.GetVoteList(x.sb.Hash, types.SNAPSHOT_GID)
			r.Op(err, "votes")
			r.Check("gov", len(v) == len(x.o.Votes), "%s: %d votes, expected %d", at, len(v), len(x.o.Votes))
		}
	}
}

var _ interfaces.VmDb
