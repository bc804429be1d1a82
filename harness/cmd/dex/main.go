// Command dex replays behaviours of specs/Dex on a complete node core.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/golang/protobuf/proto"

	"github.com/vitelabs/go-vite/v2/common/config"
	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/vm/contracts/abi"
	"github.com/vitelabs/go-vite/v2/vm/contracts/dex"
	dexproto "github.com/vitelabs/go-vite/v2/vm/contracts/dex/proto"
	"github.com/vitelabs/go-vite/v2/vm/util"
	"github.com/vitelabs/go-vite/v2/vm_db"
	"github.com/vitelabs/go-vite/v2/zz_verif/run"
	"github.com/vitelabs/go-vite/v2/zz_verif/world"
)

var tokQ = types.TokenTypeId{'D', 'E', 'X', '-', 'Q', 'U', 'O', 'T', 'E', 1}
var tokT = types.TokenTypeId{'D', 'E', 'X', '-', 'T', 'R', 'A', 'D', 'E', 2}

type order struct {
	N    int    `json:"n"`
	Sid  int    `json:"sid"`
	U    string `json:"u"`
	Ag   string `json:"ag"`
	Side bool   `json:"side"`
	Ty   int32  `json:"ty"`
	P    int64  `json:"p"`
	Q    int64  `json:"q"`
	A    int64  `json:"a"`
	Lf   int64  `json:"lf"`
	Tr   int32  `json:"tr"`
	To   int32  `json:"to"`
	Mr   int32  `json:"mr"`
	Mo   int32  `json:"mo"`
	St   int32  `json:"st"`
	Xq   int64  `json:"xq"`
	Xa   int64  `json:"xa"`
	Xb   int64  `json:"xb"`
	Xo   int64  `json:"xo"`
	Why  int32  `json:"why"`
	Ref  int64  `json:"ref"`
}

type move struct {
	U   string `json:"u"`
	T   string `json:"t"`
	Red int64  `json:"red"`
	Rel int64  `json:"rel"`
	Inc int64  `json:"inc"`
}

type out struct {
	To    string `json:"to"`
	Tok   string `json:"tok"`
	Amt   int64  `json:"amt"`
	Op    string `json:"op"`
	Ord   order  `json:"ord"`
	Set   []move `json:"set"`
	Base  int64  `json:"base"`
	Opfee int64  `json:"opfee"`
}

type fill struct {
	M  int      `json:"m"`
	Mu string   `json:"mu"`
	P  int64    `json:"p"`
	Q  int64    `json:"q"`
	A  int64    `json:"a"`
	Tf [2]int64 `json:"tf"`
	Mf [2]int64 `json:"mf"`
}

type arg struct {
	Op   string `json:"op"`
	U    string `json:"u"`
	Tok  string `json:"tok"`
	Amt  int64  `json:"amt"`
	Side bool   `json:"side"`
	Ty   uint8  `json:"ty"`
	P    int64  `json:"p"`
	Q    int64  `json:"q"`
	Ref  int    `json:"ref"`
	F    bool   `json:"f"`
}

type obs struct {
	Fund  [][4]interface{}  `json:"fund"`
	Bal   [][3]interface{}  `json:"bal"`
	Fbal  [][2]interface{}  `json:"fbal"`
	Sells [][12]interface{} `json:"sells"`
	Buys  [][12]interface{} `json:"buys"`
	Pool  int64             `json:"pool"`
	Opf   int64             `json:"opf"`
	Mk    struct {
		Tr     int32 `json:"tr"`
		Mr     int32 `json:"mr"`
		Stop   bool  `json:"stop"`
		Stable bool  `json:"stable"`
	} `json:"mk"`
	Off    bool        `json:"off"`
	Grants [][2]string `json:"grants"`
}

type step struct {
	A      string  `json:"a"`
	Id     int     `json:"id"`
	From   string  `json:"from"`
	To     string  `json:"to"`
	Tok    string  `json:"tok"`
	Amt    int64   `json:"amt"`
	Arg    arg     `json:"arg"`
	Src    int     `json:"src"`
	C      string  `json:"c"`
	U      string  `json:"u"`
	Op     string  `json:"op"`
	Ok     bool    `json:"ok"`
	Outs   []out   `json:"outs"`
	Tx     []fill  `json:"tx"`
	Tk     order   `json:"tk"`
	Mkr    []order `json:"mkr"`
	Decdiv int64   `json:"decdiv"`
	Min    int64   `json:"min"`
	Mmax   int64   `json:"mmax"`
	Bal    int64   `json:"bal"`
	O      obs     `json:"o"`
}

type rep struct {
	*run.Ctx
	w    *world.World
	acc  map[string]world.Account
	name map[types.Address]string
	snd  map[int]*ledger.AccountBlock
	oid  map[int][]byte // order number -> id
	num  map[string]int // id -> order number
	mid  int32
	last int64 // last notified time
	path [][]byte
}

func main() { run.Main(replay) }

func addrOf(c string) types.Address {
	if c == "F" {
		return types.AddressDexFund
	}
	return types.AddressDexTrade
}

func tti(t string) types.TokenTypeId {
	switch t {
	case "Q":
		return tokQ
	case "T":
		return tokT
	}
	return world.Vite
}

func price(p int64) string {
	s := fmt.Sprintf("%d.%02d", p/4, 25*(p%4))
	s = strings.TrimRight(s, "0")
	return strings.TrimRight(s, ".")
}

func (r *rep) pack(name string, a ...interface{}) []byte {
	d, err := abi.ABIDexFund.PackMethod(name, a...)
	if err != nil {
		run.Infra("pack %s: %v", name, err)
	}
	return d
}

func (r *rep) packT(name string, a ...interface{}) []byte {
	d, err := abi.ABIDexTrade.PackMethod(name, a...)
	if err != nil {
		run.Infra("pack %s: %v", name, err)
	}
	return d
}

func (r *rep) db(a types.Address) interfaces.VmDb {
	return vm_db.NewVmDbByAddr(r.w.Chain, &a)
}

// --- setting up the exchange ---

func (r *rep) setup(c *step) {
	dec := uint8(6)
	for d := c.Decdiv; d > 1; d /= 10 {
		dec++
	}
	op := world.NewAccount(4)
	r.w = world.New(r.Scratch("node"), world.Options{Users: 4, OnRoad: true, Balance: world.U(200000), Tune: func(g *config.Genesis, w *world.World) {
		g.DexFundInfo = &config.DexFundContractInfo{Owner: &op.Addr}
		for _, c := range []types.Address{types.AddressDexFund, types.AddressDexTrade} {
			g.QuotaInfo.StakeBeneficialMap[c.Hex()] = world.BigStake()
		}
		for _, t := range []struct {
			id  types.TokenTypeId
			sym string
			dec uint8
		}{{tokQ, "QUOTE", 6}, {tokT, "TRADE", dec}} {
			for _, u := range w.Users[:3] {
				g.AccountBalanceMap[u.Addr.Hex()][t.id.Hex()] = big.NewInt(c.Bal)
			}
			g.AssetInfo.TokenInfoMap[t.id.Hex()] = &config.TokenInfo{TokenName: t.sym, TokenSymbol: t.sym, TotalSupply: big.NewInt(3 * c.Bal), Decimals: t.dec,
				Owner: op.Addr, MaxSupply: big.NewInt(1000 * c.Bal), IsReIssuable: true}
		}
	}})
	w := r.w
	r.acc = map[string]world.Account{"u1": w.Users[0], "u2": w.Users[1], "u3": w.Users[2], "op": w.Users[3]}
	r.name = map[types.Address]string{types.AddressDexFund: "F", types.AddressDexTrade: "D"}
	for n, a := range r.acc {
		r.name[a.Addr] = n
	}
	zero := types.ZERO_ADDRESS
	none := types.TokenTypeId{}
	z := new(big.Int)
	r.do("op", "DexAdminConfig", z, world.Vite, uint8(2), zero, op.Addr, zero, false, zero, zero)
	r.last = world.GenesisUnix + 10
	r.do("op", "NotifyTime", z, world.Vite, r.last)
	r.do("op", "TradeAdminConfig", z, world.Vite, uint8(2), none, none, false, tokQ, uint8(dex.UsdTokenType), uint8(0), z, uint8(0), z)
	r.do("op", "TradeAdminConfig", z, world.Vite, uint8(4), none, none, false, none, uint8(0), uint8(dex.UsdTokenType), big.NewInt(c.Min), uint8(0), z)
	r.do("op", "CommonAdminConfig", z, world.Vite, uint8(2), none, tokQ, false, int32(dex.UsdTokenType), big.NewInt(c.Mmax), zero)
	r.do("op", "Deposit", world.U(20000), world.Vite)
	r.do("op", "OpenNewMarket", z, world.Vite, tokT, tokQ)
	r.do("op", "CreateNewInviter", z, world.Vite)
	code := dex.GetCodeByInviter(r.db(types.AddressDexFund), op.Addr)
	r.do("u3", "BindInviteCode", z, world.Vite, code)
	r.do("u2", "Deposit", world.U(10000), world.Vite)
	r.do("u2", "StakeForVIP", z, world.Vite, uint8(1))
	mi, ok := dex.GetMarketInfo(r.db(types.AddressDexFund), tokT, tokQ)
	if !ok || !mi.Valid {
		r.Fail("op", "the market could not be opened")
	}
	r.mid = mi.MarketId
	if _, ok := dex.GetVIPStaking(r.db(types.AddressDexFund), r.acc["u2"].Addr); !ok {
		r.Fail("op", "staking for VIP has no effect")
	}
}

// do calls the exchange and lets everything that follows happen.
func (r *rep) do(who, method string, amt *big.Int, tok types.TokenTypeId, a ...interface{}) {
	b, err := r.w.Send(r.acc[who], types.AddressDexFund, tok, amt, r.pack(method, a...))
	r.Op(err, "set up: %s calls %s", who, method)
	open := []*ledger.AccountBlock{b}
	for len(open) > 0 {
		_, bad, err := r.w.Snapshot(false)
		r.Op(err, "set up: snapshot")
		if len(bad) > 0 {
			r.Fail("op", "set up: a snapshot invalidates blocks")
		}
		var more []*ledger.AccountBlock
		for _, s := range open {
			if !types.IsContractAddr(s.ToAddress) {
				continue
			}
			rb, _, exec, err := r.w.Recv(world.Account{}, s)
			r.Op(err, "set up: %s after %s", r.name[s.ToAddress], method)
			if exec != nil {
				r.Fail("op", "set up: %s fails in %s: %v", method, s.ToAddress, exec)
			}
			more = append(more, rb.SendBlockList...)
		}
		open = more
	}
}

// --- replay ---

func replay(c *run.Ctx, line []byte) {
	var steps []step
	if err := json.Unmarshal(line, &steps); err != nil {
		run.Infra("bad behaviour: %v", err)
	}
	r := &rep{Ctx: c, snd: map[int]*ledger.AccountBlock{}, oid: map[int][]byte{}, num: map[string]int{}}
	r.setup(&steps[0])
	defer r.w.Close()
	for i := range steps[1:] {
		c.Step = i + 2
		s := &steps[i+1]
		r.apply(s)
		c.Notes[s.A]++
		r.observe(&s.O)
	}
}

func (r *rep) apply(s *step) {
	switch s.A {
	case "snap":
		_, bad, err := r.w.Snapshot(false)
		r.Op(err, "snapshot")
		if len(bad) > 0 {
			r.Fail("op", "snapshot invalidates %d blocks", len(bad))
		}
	case "call":
		amt := big.NewInt(s.Amt)
		b, err := r.w.Send(r.acc[s.From], addrOf(s.To), tti(s.Tok), amt, r.data(s))
		r.Op(err, "%s calls %s of %s", s.From, s.Arg.Op, s.To)
		r.snd[s.Id] = b
		r.Notes["call "+s.Arg.Op]++
	case "forge":
		to, grp, data := r.forged(s)
		_, err := r.w.Send(r.acc[s.From], to, world.Vite, new(big.Int), data)
		if err == nil {
			r.Check(grp, false, "%s sends the contracts' own message %s to %s, and it is accepted", s.From, s.Arg.Op, r.name[to])
			r.Fail("op", "a forged %s is accepted", s.Arg.Op)
		}
		r.Notes["forge "+s.Arg.Op]++
	case "urecv":
		_, _, _, err := r.w.Recv(r.acc[s.U], r.snd[s.Src])
		r.Op(err, "%s receives %d", s.U, s.Src)
	case "recv":
		r.recv(s)
	default:
		run.Infra("unknown action %s", s.A)
	}
}

func (r *rep) data(s *step) []byte {
	g := &s.Arg
	zero, none, z := types.ZERO_ADDRESS, types.TokenTypeId{}, new(big.Int)
	u := r.acc[g.U].Addr
	amt, q := big.NewInt(g.Amt), big.NewInt(g.Q)
	switch g.Op {
	case "deposit":
		return r.pack("Deposit")
	case "depositfor":
		return r.pack("AgentDeposit", u)
	case "withdraw":
		return r.pack("Withdraw", tti(g.Tok), amt)
	case "withdrawto":
		return r.pack("AssignedWithdraw", u, tti(g.Tok), amt, []byte("x"))
	case "transfer":
		return r.pack("Transfer", u, tti(g.Tok), amt)
	case "place":
		return r.pack("PlaceOrder", tokT, tokQ, g.Side, g.Ty, price(g.P), q)
	case "placefor":
		return r.pack("PlaceAgentOrder", u, tokT, tokQ, g.Side, g.Ty, price(g.P), q)
	case "grant":
		act := uint8(dex.GrantAgent)
		if !g.F {
			act = uint8(dex.RevokeAgent)
		}
		return r.pack("ConfigMarketAgents", act, u, []types.TokenTypeId{tokT}, []types.TokenTypeId{tokQ})
	case "fcancel":
		p := zero
		if g.U != "" {
			p = u
		}
		return r.pack("CancelOrderBySendHash", r.snd[g.Ref].Hash, p, tokT, tokQ)
	case "rates":
		return r.pack("MarketAdminConfig", uint8(6), tokT, tokQ, zero, int32(g.P), int32(g.Q), false)
	case "stop":
		return r.pack("MarketAdminConfig", uint8(8), tokT, tokQ, zero, int32(0), int32(0), g.F)
	case "stable":
		return r.pack("CommonAdminConfig", uint8(1), tokT, tokQ, g.F, int32(0), z, zero)
	case "off":
		return r.pack("DexAdminConfig", uint8(8), zero, zero, zero, g.F, zero, zero)
	case "time":
		r.last++
		return r.pack("NotifyTime", r.last)
	case "cancel":
		id := r.oid[g.Ref]
		if id == nil {
			run.Infra("order %d has no id", g.Ref)
		}
		return r.packT("CancelOrder", id)
	case "hcancel":
		return r.packT("CancelOrderByTransactionHash", r.snd[g.Ref].Hash)
	}
	_ = none
	run.Infra("unknown call %s", g.Op)
	return nil
}

// forged is a message only the exchange's contracts may send: funds for nothing, an order nothing is locked for, a cancellation.
func (r *rep) forged(s *step) (types.Address, string, []byte) {
	u := r.acc[s.Arg.U].Addr
	switch s.Arg.Op {
	case "settle":
		st := &dexproto.SettleActions{TradeToken: tokT.Bytes(), QuoteToken: tokQ.Bytes(), FundActions: []*dexproto.FundSettle{{Address: r.acc[s.From].Addr.Bytes(),
			AccountSettles: []*dexproto.AccountSettle{{IsTradeToken: s.Arg.Tok == "T", IncAvailable: big.NewInt(1000).Bytes()}}}}}
		d, err := proto.Marshal(st)
		if err != nil {
			run.Infra("forge: %v", err)
		}
		return types.AddressDexFund, "funds", r.pack(abi.MethodNameDexFundSettleOrdersV2, d)
	case "order":
		o := &dex.Order{}
		o.Id = dex.ComposeOrderId(r.db(types.AddressDexFund), r.mid, s.Arg.Tok == "T", "2")
		o.Address, o.MarketId, o.Side, o.Type = u.Bytes(), r.mid, s.Arg.Tok == "T", dex.Limited
		o.Price, o.Quantity, o.Amount = dex.PriceToBytes("2"), big.NewInt(100000).Bytes(), big.NewInt(200000).Bytes()
		d, err := o.Serialize()
		if err != nil {
			run.Infra("forge: %v", err)
		}
		return types.AddressDexTrade, "match", r.packT(abi.MethodNameDexTradePlaceOrder, d)
	}
	return types.AddressDexTrade, "match", r.packT(abi.MethodNameDexTradeInnerCancelOrderBySendHash, r.snd[s.Arg.Ref].Hash, u)
}

func group(c string) string {
	if c == "D" {
		return "match"
	}
	return "funds"
}

func (r *rep) recv(s *step) {
	src := r.snd[s.Src]
	b, retry, exec, err := r.w.Recv(world.Account{}, src)
	r.Op(err, "%s receives %s of %s", s.C, s.Op, s.From)
	if retry {
		r.Fail("op", "%s: the receive of %s asks for a retry", s.C, s.Op)
	}
	grp := group(s.C)
	ok := exec == nil && len(b.Data) > 32 && b.Data[32] == 0
	r.Check(grp, ok == s.Ok, "%s(%s) by %s: succeeds %v, should be %v (%v)", s.C, s.Op, s.From, ok, s.Ok, exec)
	r.Notes[fmt.Sprintf("%s %v", s.Op, s.Ok)]++
	r.Check(grp, len(b.SendBlockList) == len(s.Outs), "%s(%s) by %s: %d sends, should be %d", s.C, s.Op, s.From, len(b.SendBlockList), len(s.Outs))
	if len(b.SendBlockList) != len(s.Outs) {
		r.Fail("op", "%s(%s): %d sends, should be %d", s.C, s.Op, len(b.SendBlockList), len(s.Outs))
	}
	for i := range s.Outs {
		o, x := &s.Outs[i], b.SendBlockList[i]
		r.snd[s.Id+1+i] = x
		r.Check(grp, r.name[x.ToAddress] == o.To && x.Amount.Cmp(big.NewInt(o.Amt)) == 0 && x.TokenId == tti(o.Tok),
			"%s(%s) by %s: sends %v %v to %s, should be %d %s to %s", s.C, s.Op, s.From, x.Amount, x.TokenId, r.name[x.ToAddress], o.Amt, o.Tok, o.To)
		switch o.Op {
		case "order":
			r.orderSent(o, x)
		case "settle":
			r.settleSent(s, o, x)
		}
	}
	if s.C == "D" {
		if s.Tk.N > 0 {
			k := len(s.Tx)
			if k > 3 {
				k = 3
			}
			r.Notes[fmt.Sprintf("taker ty%d st%d why%d fills%d", s.Tk.Ty, s.Tk.St, s.Tk.Why, k)]++
			for _, f := range s.Tx {
				if f.Mu == s.Tk.U {
					r.Notes["self trade"]++
				}
			}
			for _, m := range s.Mkr {
				if m.St == 2 && m.Xq < m.Q {
					r.Notes["dust maker"]++
				}
			}
		}
		r.events(s, b)
	}
}

func num(b []byte) int64 { return new(big.Int).SetBytes(b).Int64() }

func (r *rep) orderSent(o *out, x *ledger.AccountBlock) {
	var p dex.ParamSerializedData
	if err := abi.ABIDexTrade.UnpackMethod(&p, "PlaceOrder", x.Data); err != nil {
		r.Fail("match", "order sent to D cannot be read: %v", err)
		return
	}
	d := &dex.Order{}
	if err := d.DeSerialize(p.Data); err != nil {
		r.Fail("match", "order sent to D cannot be read: %v", err)
		return
	}
	r.oid[o.Ord.N] = d.Id
	r.num[string(d.Id)] = o.Ord.N
	r.same("match", "placed", &o.Ord, &d.Order)
	r.Check("match", d.TakerFeeRate == o.Ord.Tr && d.TakerOperatorFeeRate == o.Ord.To && d.MakerFeeRate == o.Ord.Mr && d.MakerOperatorFeeRate == o.Ord.Mo,
		"order %d: fee rates %d+%d %d+%d, should be %d+%d %d+%d", o.Ord.N, d.TakerFeeRate, d.TakerOperatorFeeRate, d.MakerFeeRate, d.MakerOperatorFeeRate, o.Ord.Tr, o.Ord.To, o.Ord.Mr, o.Ord.Mo)
}

// same compares an order with the specification's.
func (r *rep) same(grp, what string, o *order, d *dexproto.Order) {
	var addr types.Address
	copy(addr[:], d.Address)
	okPrice := o.Ty == 1 || dex.BytesToPrice(d.Price) == price(o.P)
	got := fmt.Sprintf("%s side %v type %d qty %d amt %d lockfee %d status %d xq %d xa %d fee %d+%d", r.name[addr], d.Side, d.Type, num(d.Quantity), num(d.Amount), num(d.LockedBuyFee), d.Status,
		num(d.ExecutedQuantity), num(d.ExecutedAmount), num(d.ExecutedBaseFee), num(d.ExecutedOperatorFee))
	want := fmt.Sprintf("%s side %v type %d qty %d amt %d lockfee %d status %d xq %d xa %d fee %d+%d", o.U, o.Side, o.Ty, o.Q, o.A, o.Lf, o.St, o.Xq, o.Xa, o.Xb, o.Xo)
	r.Check(grp, okPrice && got == want, "order %d %s: %s at %s, should be %s at %s", o.N, what, got, dex.BytesToPrice(d.Price), want, price(o.P))
}

type mk struct{ u, t string }

func (r *rep) settleSent(s *step, o *out, x *ledger.AccountBlock) {
	var p dex.ParamSerializedData
	a := &dexproto.SettleActions{}
	if err := abi.ABIDexFund.UnpackMethod(&p, "SettleOrders", x.Data); err != nil {
		r.Fail("funds", "settlement cannot be read: %v", err)
		return
	}
	if err := proto.Unmarshal(p.Data, a); err != nil {
		r.Fail("funds", "settlement cannot be read: %v", err)
		return
	}
	want := map[mk][3]int64{}
	for _, m := range o.Set {
		v := want[mk{m.U, m.T}]
		want[mk{m.U, m.T}] = [3]int64{v[0] + m.Red, v[1] + m.Rel, v[2] + m.Inc}
	}
	got := map[mk][3]int64{}
	for _, f := range a.FundActions {
		var addr types.Address
		copy(addr[:], f.Address)
		for _, e := range f.AccountSettles {
			t := "Q"
			if e.IsTradeToken {
				t = "T"
			}
			k := mk{r.name[addr], t}
			v := got[k]
			got[k] = [3]int64{v[0] + num(e.ReduceLocked), v[1] + num(e.ReleaseLocked), v[2] + num(e.IncAvailable)}
		}
	}
	for k, v := range want {
		r.Check("funds", got[k] == v, "%s(%s): settlement of %s/%s is (unlocked, released, received) %v, should be %v", s.C, s.Op, k.u, k.t, got[k], v)
		delete(got, k)
	}
	for k, v := range got {
		r.Check("funds", v == [3]int64{}, "%s(%s): settlement of %s/%s is %v, should not be there", s.C, s.Op, k.u, k.t, v)
	}
	var base, opf int64
	for _, f := range a.FeeActions {
		base += num(f.BaseFee)
		opf += num(f.OperatorFee)
	}
	r.Check("funds", base == o.Base && opf == o.Opfee, "%s(%s): fees %d+%d, should be %d+%d", s.C, s.Op, base, opf, o.Base, o.Opfee)
}

func (r *rep) events(s *step, b *ledger.AccountBlock) {
	if !r.On("match") {
		return
	}
	var logs ledger.VmLogList
	if b.LogHash != nil {
		l, err := r.w.Chain.GetVmLogList(b.LogHash)
		r.Op(err, "logs")
		logs = l
	}
	var txs []*dexproto.Transaction
	ups := map[int]*dexproto.OrderUpdateInfo{}
	var taker *dexproto.Order
	for _, l := range logs {
		switch l.Topics[0] {
		case (&dex.TransactionEvent{}).GetTopicId():
			e := &dex.TransactionEvent{}
			r.Op(e.FromBytes(l.Data), "transaction event")
			txs = append(txs, &e.Transaction)
		case (&dex.OrderUpdateEvent{}).GetTopicId():
			e := &dex.OrderUpdateEvent{}
			r.Op(e.FromBytes(l.Data), "update event")
			ups[r.num[string(e.Id)]] = &e.OrderUpdateInfo
		case (&dex.NewOrderEvent{}).GetTopicId():
			e := &dex.NewOrderEvent{}
			r.Op(e.FromBytes(l.Data), "order event")
			taker = e.Order
		}
	}
	if s.Tk.N > 0 && s.Tk.Ty == dex.FillOrKill && len(s.Tx) == 0 && len(txs) == 100 {
		r.Check("match", false, "a fill-or-kill order is executed in part: the limit of 100 fills ended it")
	}
	r.Check("match", len(txs) == len(s.Tx), "%s: %d fills, should be %d", s.Op, len(txs), len(s.Tx))
	for i, f := range s.Tx {
		e := txs[i]
		got := fmt.Sprintf("order %d by maker %d: %d for %d at %s, fees %d+%d %d+%d", r.num[string(e.TakerId)], r.num[string(e.MakerId)], num(e.Quantity), num(e.Amount), dex.BytesToPrice(e.Price),
			num(e.TakerFee), num(e.TakerOperatorFee), num(e.MakerFee), num(e.MakerOperatorFee))
		want := fmt.Sprintf("order %d by maker %d: %d for %d at %s, fees %d+%d %d+%d", s.Tk.N, f.M, f.Q, f.A, price(f.P), f.Tf[0], f.Tf[1], f.Mf[0], f.Mf[1])
		r.Check("match", got == want, "fill %d of %s, should be %s", i+1, got, want)
	}
	if s.Tk.N > 0 {
		r.Check("match", taker != nil && r.num[string(taker.Id)] == s.Tk.N, "order %d is not announced", s.Tk.N)
		if taker != nil {
			r.same("match", "announced", &s.Tk, taker)
			r.Check("match", taker.CancelReason == s.Tk.Why, "order %d: reason of cancellation %d, should be %d", s.Tk.N, taker.CancelReason, s.Tk.Why)
			r.refund(s.Tk, taker.RefundToken, taker.RefundQuantity)
		}
	} else {
		r.Check("match", taker == nil, "%s announces an order", s.Op)
	}
	r.Check("match", len(ups) == len(s.Mkr), "%s updates %d orders, should update %d", s.Op, len(ups), len(s.Mkr))
	for _, o := range s.Mkr {
		e := ups[o.N]
		if e == nil {
			r.Fail("match", "%s does not update order %d", s.Op, o.N)
			return
		}
		got := fmt.Sprint(e.Status, e.CancelReason, num(e.ExecutedQuantity), num(e.ExecutedAmount), num(e.ExecutedBaseFee), num(e.ExecutedOperatorFee))
		want := fmt.Sprint(o.St, o.Why, o.Xq, o.Xa, o.Xb, o.Xo)
		r.Check("match", got == want, "order %d becomes (status, reason, executed) %s, should be %s", o.N, got, want)
		r.refund(o, e.RefundToken, e.RefundQuantity)
	}
}

func (r *rep) refund(o order, tok, amt []byte) {
	r.Check("match", num(amt) == o.Ref, "order %d: refund %d, should be %d", o.N, num(amt), o.Ref)
	if o.Ref > 0 {
		t := tokQ
		if o.Side {
			t = tokT
		}
		r.Check("match", bytes.Equal(tok, t.Bytes()), "order %d: refund in the wrong token", o.N)
	}
}

func n(x interface{}) int64 { return int64(x.(float64)) }

func (r *rep) observe(o *obs) {
	f := r.db(types.AddressDexFund)
	if r.On("funds") {
		for _, e := range o.Fund {
			var a, l int64
			if fd, ok := dex.GetFund(f, r.acc[e[0].(string)].Addr); ok {
				if ac, ok := dex.GetAccountByToken(fd, tti(e[1].(string))); ok {
					a, l = num(ac.Available), num(ac.Locked)
				}
			}
			r.Check("funds", a == n(e[2]) && l == n(e[3]), "funds of %s in %s: available %d, locked %d; should be %d, %d", e[0], e[1], a, l, n(e[2]), n(e[3]))
		}
		for _, e := range o.Bal {
			b, err := r.w.Chain.GetBalance(r.acc[e[0].(string)].Addr, tti(e[1].(string)))
			r.Op(err, "balance")
			r.Check("funds", b.Cmp(big.NewInt(n(e[2]))) == 0, "balance of %s in %s: %v, should be %d", e[0], e[1], b, n(e[2]))
		}
		for _, e := range o.Fbal {
			b, err := r.w.Chain.GetBalance(types.AddressDexFund, tti(e[0].(string)))
			r.Op(err, "balance")
			r.Check("funds", b.Cmp(big.NewInt(n(e[1]))) == 0, "the exchange holds %v of %s, should be %d", b, e[0], n(e[1]))
		}
		period := dex.GetPeriodIdByTimestamp(util.NewVMConsensusReader(r.w.SBP), world.GenesisUnix+10)
		var pool, opf int64
		if x, ok := dex.GetDexFeesByPeriodId(f, period); ok {
			for _, e := range x.FeesForDividend {
				if bytes.Equal(e.Token, tokQ.Bytes()) {
					pool += num(e.DividendPoolAmount)
				}
			}
		}
		if x, ok := dex.GetOperatorFeesByPeriodId(f, r.acc["op"].Addr.Bytes(), period); ok {
			for _, e := range x.OperatorFees {
				if bytes.Equal(e.Token, tokQ.Bytes()) {
					for _, m := range e.MarketFees {
						opf += num(m.Amount)
					}
				}
			}
		}
		r.Check("funds", pool == o.Pool, "fees for dividends: %d, should be %d", pool, o.Pool)
		r.Check("funds", opf == o.Opf, "fees of the market's operator: %d, should be %d", opf, o.Opf)
	}
	if r.On("match") {
		mi, ok := dex.GetMarketInfo(f, tokT, tokQ)
		r.Check("match", ok && mi.Stopped == o.Mk.Stop && mi.StableMarket == o.Mk.Stable && mi.TakerOperatorFeeRate == o.Mk.Tr && mi.MakerOperatorFeeRate == o.Mk.Mr,
			"market is %v, should be %+v", mi, o.Mk)
		r.Check("match", dex.IsDexStopped(f) == o.Off, "exchange stopped: %v, should be %v", dex.IsDexStopped(f), o.Off)
		want := map[string]bool{}
		for _, g := range o.Grants {
			want[g[0]+" "+g[1]] = true
		}
		for a, x := range r.acc {
			for b, y := range r.acc {
				r.Check("match", dex.IsMarketGrantedToAgent(f, x.Addr, y.Addr, r.mid) == want[a+" "+b], "agency of %s for %s: should be %v", b, a, want[a+" "+b])
			}
		}
		d := r.db(types.AddressDexTrade)
		r.book(d, true, o.Sells)
		r.book(d, false, o.Buys)
	}
}

func (r *rep) book(db interfaces.VmDb, side bool, want [][12]interface{}) {
	m, err := dex.NewMatcher(db, r.mid)
	r.Op(err, "matcher")
	l, _, err := m.GetOrdersFromMarket(side, 0, 10000)
	r.Op(err, "book")
	var got, exp []string
	for _, d := range l {
		var addr types.Address
		copy(addr[:], d.Address)
		got = append(got, fmt.Sprint(r.num[string(d.Id)], r.name[addr], dex.BytesToPrice(d.Price), num(d.Quantity), num(d.Amount), num(d.LockedBuyFee), num(d.ExecutedQuantity), num(d.ExecutedAmount),
			num(d.ExecutedBaseFee), num(d.ExecutedOperatorFee), d.Status, d.Type))
	}
	for _, e := range want {
		exp = append(exp, fmt.Sprint(n(e[0]), e[1], price(n(e[2])), n(e[3]), n(e[4]), n(e[5]), n(e[6]), n(e[7]), n(e[8]), n(e[9]), n(e[10]), n(e[11])))
	}
	r.Check("match", strings.Join(got, "|") == strings.Join(exp, "|"), "book (sells %v) is [%s], should be [%s]", side, strings.Join(got, " | "), strings.Join(exp, " | "))
}

var _ = sort.Strings
