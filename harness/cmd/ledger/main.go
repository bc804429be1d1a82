// Command ledger replays behaviours of specs/Ledger on a complete node core.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"

	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/ledger/chain"
	"github.com/vitelabs/go-vite/v2/rpcapi/api"
	"github.com/vitelabs/go-vite/v2/zz_verif/run"
	"github.com/vitelabs/go-vite/v2/zz_verif/world"
)

type round struct {
	K   int    `json:"k"`
	V   int64  `json:"v"`
	To  string `json:"to"`
	Tok string `json:"tok"`
	Amt int64  `json:"amt"`
	Log int    `json:"log"`
}

type prog struct {
	Mode int     `json:"mode"`
	Rs   []round `json:"rs"`
	Fwd  int     `json:"fwd"`
	Sub  []prog  `json:"sub"`
}

type out struct {
	Sid  int    `json:"sid"`
	To   string `json:"to"`
	Tok  string `json:"tok"`
	Amt  int64  `json:"amt"`
	Kind string `json:"kind"`
}

type obs struct {
	Ids   map[string][]int            `json:"ids"`
	Bal   map[string]map[string]int64 `json:"bal"`
	Sto   map[string]json.RawMessage  `json:"sto"`
	Code  map[string]bool             `json:"code"`
	Pend  map[string][]int            `json:"pend"`
	Order []int                       `json:"order"`
	Lines []map[string]int            `json:"lines"`
	Sids  []int                       `json:"sids"`
	sto   map[string]map[int]int64
}

type step struct {
	A    string         `json:"a"`
	Id   int            `json:"id"`
	Sid  int            `json:"sid"`
	From string         `json:"from"`
	To   string         `json:"to"`
	Acct string         `json:"acct"`
	Tok  string         `json:"tok"`
	Amt  int64          `json:"amt"`
	Prog prog           `json:"prog"`
	Bad  bool           `json:"bad"`
	Conf int            `json:"conf"`
	Src  int            `json:"src"`
	Res  string         `json:"res"`
	Log  []int          `json:"log"`
	Outs []out          `json:"outs"`
	Why  string         `json:"why"`
	Line map[string]int `json:"line"`
	Prev map[string]int `json:"prev"`
	Rej  []string       `json:"rej"`
	Seed bool           `json:"seed"`
	H    int            `json:"h"`
	N    int            `json:"n"`
	New  bool           `json:"new"`
	K    int            `json:"k"`
	O    obs            `json:"o"`
}

type blk struct {
	b     *ledger.AccountBlock
	acct  string
	bal   map[string]int64
	sto   map[int]int64
	code  bool
	src   int // sid
	log   []int
	outs  []out
	depth uint16
}

type snd struct {
	b     *ledger.AccountBlock // the send block
	owner int                  // id of the block that contains it
	from  string
	s     out
}

type rep struct {
	*run.Ctx
	w     *world.World
	accts []string
	addr  map[string]types.Address
	name  map[types.Address]string
	blk   map[int]*blk
	snd   map[int]*snd
	snap  map[int]*ledger.SnapshotBlock
	gen   map[string]*blk
	dirN  int
	o     *obs
	prevO *obs
	dirty bool
	ev    *events

	flushing chan struct{}
}

var toks = map[string]types.TokenTypeId{"VITE": world.Vite, "TOKA": world.TokenA}

func (r *rep) acct(n string) world.Account {
	switch n[0] {
	case 'u':
		return r.w.Users[int(n[1]-'1')]
	case 'd':
		return r.w.Deployers[int(n[1]-'1')]
	}
	return r.w.SBPAcc
}

func parseSto(raw json.RawMessage) map[int]int64 {
	m := map[string]int64{}
	res := map[int]int64{}
	if err := json.Unmarshal(raw, &m); err != nil {
		// TLC prints functions with domain 1..n as arrays
		var a []int64
		if err := json.Unmarshal(raw, &a); err != nil {
			run.Infra("sto %s", raw)
		}
		for i, v := range a {
			res[i+1] = v
		}
		return res
	}
	for k, v := range m {
		var n int
		fmt.Sscanf(k, "%d", &n)
		res[n] = v
	}
	return res
}

func main() { run.Main(replay) }

func replay(c *run.Ctx, line []byte) {
	var steps []step
	if err := json.Unmarshal(line, &steps); err != nil {
		run.Infra("trace: %v", err)
	}
	r := &rep{Ctx: c, addr: map[string]types.Address{}, name: map[types.Address]string{}, blk: map[int]*blk{},
		snd: map[int]*snd{}, snap: map[int]*ledger.SnapshotBlock{}, gen: map[string]*blk{}}
	r.w = world.New(c.Scratch("n0"), world.Options{Users: 3, Deployers: 3, OnRoad: true, Plugins: true, Stake: nil,
		Node: c.On("api") || c.On("events") || c.On("capi")})
	defer func() { r.flushed(); r.w.Close() }()
	for i, u := range r.w.Users {
		r.bind(fmt.Sprintf("u%d", i+1), u.Addr)
	}
	for i, u := range r.w.Deployers {
		r.bind(fmt.Sprintf("d%d", i+1), u.Addr)
	}
	for i, a := range r.w.Contracts {
		r.bind(fmt.Sprintf("c%d", i+1), a)
	}
	for _, a := range r.accts {
		if a[0] == 'c' {
			continue
		}
		b, err := r.w.Chain.GetLatestAccountBlock(r.addr[a])
		c.Op(err, "genesis block of %s", a)
		if b == nil {
			c.Fail("op", "no genesis block of %s", a)
		}
		r.gen[a] = &blk{b: b, acct: a, bal: map[string]int64{"VITE": 1000, "TOKA": 1000}, sto: map[int]int64{}}
	}
	r.snap[0] = r.w.Chain.GetGenesisSnapshotBlock()
	every := 1
	if c.Params["every"] != "" {
		fmt.Sscanf(c.Params["every"], "%d", &every)
	}
	for i := range steps {
		s := &steps[i]
		c.Step = i + 1
		s.O.sto = map[string]map[int]int64{}
		for k, v := range s.O.Sto {
			s.O.sto[k] = parseSto(v)
		}
		r.prevO = r.o
		if r.o == nil {
			r.o = &obs{Ids: map[string][]int{}}
			for a := range r.gen {
				r.o.Ids[a] = []int{0}
			}
		}
		restart := s.A == "restart" || s.A == "crash" || s.A == "crashdel"
		if restart {
			r.flushed()
		}
		if r.On("events") {
			r.evBefore(i, restart)
		}
		var cc *conc
		if r.On("conc") && !restart {
			cc = r.concStart(s)
		}
		r.apply(s)
		r.o = &s.O
		if cc != nil {
			r.concStop(cc, s)
		}
		if r.On("events") {
			r.evAfter(i, restart, i == len(steps)-1)
		}
		if i%every == 0 || i == len(steps)-1 || s.A == "restart" || s.A == "crash" || s.A == "crashdel" || s.A == "delsnap" {
			r.observe()
		}
		c.Notes[s.A]++
	}
}

func (r *rep) bind(n string, a types.Address) {
	r.accts = append(r.accts, n)
	r.addr[n] = a
	r.name[a] = n
}

func (r *rep) record(id int, acct string, b *ledger.AccountBlock, o *obs, src int, log []int, outs []out) *blk {
	x := &blk{b: b, acct: acct, bal: o.Bal[acct], sto: o.sto[acct], code: o.Code[acct], src: src, log: log, outs: outs}
	if src != 0 {
		x.depth = r.sendDepth(src) + 1
	}
	r.blk[id] = x
	return x
}

// call depth of a send: 0 for a user's, one more than that of the call a contract answers
func (r *rep) sendDepth(sid int) uint16 {
	sd := r.snd[sid]
	if sd == nil || sd.from[0] != 'c' {
		return 0
	}
	return r.blk[sd.owner].depth
}

func (r *rep) obsVM() {
	_, _, sdb := r.w.Chain.DBs()
	for _, a := range r.accts {
		for h := 1; h <= len(r.o.Ids[a]); h++ {
			for _, o := range r.block(a, h).outs {
				d, err := sdb.GetCallDepth(&r.snd[o.Sid].b.Hash)
				r.Op(err, "call depth")
				r.Check("vm", d == r.sendDepth(o.Sid), "call depth of send #%d of %s is %d, expected %d", o.Sid, a, d, r.sendDepth(o.Sid))
			}
		}
	}
}

func (r *rep) apply(s *step) {
	w := r.w
	switch s.A {
	case "send":
		var data []byte
		if s.To[0] == 'c' {
			data = callData(r, s.Prog)
		}
		b, err := w.Send(r.acct(s.From), r.addr[s.To], toks[s.Tok], world.U(s.Amt), data)
		r.Op(err, "send %s -> %s %d %s", s.From, s.To, s.Amt, s.Tok)
		r.record(s.Id, s.From, b, &s.O, 0, nil, []out{{Sid: s.Id, To: s.To, Tok: s.Tok, Amt: s.Amt, Kind: "call"}})
		r.snd[s.Id] = &snd{b, s.Id, s.From, out{s.Id, s.To, s.Tok, s.Amt, "call"}}
	case "deploy":
		fail := 0
		if s.Bad {
			fail = 1
		}
		b, err := w.Create(r.acct(s.From), world.U(s.Amt), toks[s.Tok], world.InitCode(fail), uint8(s.Conf), 0, 10)
		r.Op(err, "deploy %s", s.To)
		if b.ToAddress != r.addr[s.To] {
			r.Fail("op", "deploy %s: contract address %s is not the address derived from creator, height and previous hash (%s)", s.To, b.ToAddress, r.addr[s.To])
		}
		r.record(s.Id, s.From, b, &s.O, 0, nil, []out{{Sid: s.Id, To: s.To, Tok: s.Tok, Amt: s.Amt, Kind: "create"}})
		r.snd[s.Id] = &snd{b, s.Id, s.From, out{s.Id, s.To, s.Tok, s.Amt, "create"}}
	case "recv", "crecv":
		sd := r.snd[s.Src]
		b, retry, execErr, err := w.Recv(r.acct(s.Acct), sd.b)
		r.Op(err, "receive #%d by %s (retry=%v)", s.Src, s.Acct, retry)
		log, outs := []int(nil), []out(nil)
		if s.A == "crecv" {
			log, outs = s.Log, s.Outs
			r.Check("vm", (execErr == nil) == (s.Res == "ok"), "receive #%d by %s: execution result is %v, expected %s", s.Src, s.Acct, execErr, s.Res)
			r.Check("vm", b.BlockType == ledger.BlockTypeReceive && (sd.s.Kind == "refund" && len(b.Data) == 0 || len(b.Data) == types.HashSize+1 && (b.Data[types.HashSize] == 0) == (s.Res == "ok")), "receive #%d by %s: block type %d, data %x, expected result %s", s.Src, s.Acct, b.BlockType, b.Data, s.Res)
			r.Check("vm", !retry, "receive #%d by %s asks for a retry", s.Src, s.Acct)
			r.Check("vm", len(b.SendBlockList) == len(outs), "receive #%d by %s: %d sends, expected %d", s.Src, s.Acct, len(b.SendBlockList), len(outs))
			for i, o := range outs {
				x := b.SendBlockList[i]
				r.Check("vm", x.ToAddress == r.addr[o.To] && x.TokenId == toks[o.Tok] && x.Amount.Cmp(world.U(o.Amt)) == 0 && x.AccountAddress == r.addr[s.Acct],
					"receive #%d by %s: send %d is %s -> %s %s %s, expected %s -> %s %d %s", s.Src, s.Acct, i, r.name[x.AccountAddress], r.name[x.ToAddress], x.Amount, x.TokenId, s.Acct, o.To, o.Amt, o.Tok)
				want := ledger.BlockTypeSendCall
				if o.Kind == "refund" {
					want = ledger.BlockTypeSendRefund
				}
				r.Check("vm", x.BlockType == want, "receive #%d by %s: send %d has type %d, expected %s", s.Src, s.Acct, i, x.BlockType, o.Kind)
			}
			r.Check("vm", (b.LogHash != nil) == (len(log) != 0), "receive #%d by %s: log hash %v, expected log %v", s.Src, s.Acct, b.LogHash, log)
		} else {
			r.Check("vm", execErr == nil && len(b.SendBlockList) == 0, "receive #%d by user %s: %v", s.Src, s.Acct, execErr)
		}
		r.record(s.Id, s.Acct, b, &s.O, s.Src, log, outs)
		for i, o := range outs {
			if i >= len(b.SendBlockList) {
				r.Fail("op", "receive #%d by %s lacks send %d", s.Src, s.Acct, i)
				break
			}
			r.snd[o.Sid] = &snd{b.SendBlockList[i], s.Id, s.Acct, o}
		}
	case "early", "double":
		sd := r.snd[s.Src]
		if s.A == "early" && s.Why == "confirm" && r.Params["noconfirm"] != "" {
			break
		}
		vb, _, gerr := w.GenRecv(r.acct(s.Acct), sd.b, nil)
		if vb == nil {
			r.Checks++
			break // the generator refuses: nothing to insert
		}
		_ = gerr
		_, err := w.Verify(vb.AccountBlock)
		r.Check("verify", err != nil, "%s: a receive of #%d by %s is accepted (%s)", s.A, s.Src, s.Acct, s.Why)
	case "forgesend":
		if !r.On("verify") {
			break
		}
		var data []byte
		if s.To[0] == 'c' {
			data = callData(r, s.Prog)
		}
		vb, err := w.GenSend(r.acct(s.From), ledger.BlockTypeSendCall, r.addrp(s.To), toks[s.Tok], world.U(s.Amt), data, nil)
		r.Op(err, "generate send %s -> %s", s.From, s.To)
		_, err = w.Verify(vb.AccountBlock)
		r.Check("verify", err == nil, "a generated send %s -> %s is refused: %v", s.From, s.To, err)
		r.forge(vb.AccountBlock, r.acct(s.From))
	case "forgerecv":
		if !r.On("verify") {
			break
		}
		vb, _, err := w.GenRecv(r.acct(s.Acct), r.snd[s.Src].b, nil)
		if vb == nil {
			r.Op(err, "generate receive of #%d by %s", s.Src, s.Acct)
			r.Fail("op", "no receive of #%d by %s", s.Src, s.Acct)
		}
		_, err = w.Verify(vb.AccountBlock)
		r.Check("verify", err == nil, "a generated receive of #%d by %s is refused: %v", s.Src, s.Acct, err)
		r.forge(vb.AccountBlock, r.acct(s.Acct))
	case "poor":
		vb, err := w.GenSend(r.acct(s.From), ledger.BlockTypeSendCall, r.addrp(s.To), toks[s.Tok], world.U(s.Amt), nil, nil)
		r.Checks++
		if err == nil && vb != nil {
			_, err = w.Verify(vb.AccountBlock)
			r.Check("verify", err != nil, "send of %d %s by %s that owns less is accepted", s.Amt, s.Tok, s.From)
		}
	case "snap":
		content := ledger.SnapshotContent{}
		for a, h := range s.Line {
			if h > s.Prev[a] {
				b, err := w.Chain.GetAccountBlockByHeight(r.addr[a], uint64(h))
				r.Op(err, "block %s/%d", a, h)
				if b == nil {
					r.Fail("op", "block %s/%d is missing", a, h)
				}
				content[r.addr[a]] = &ledger.HashHeight{Hash: b.Hash, Height: b.Height}
			}
		}
		rej := map[types.Address]bool{}
		for _, c := range s.Rej {
			rej[r.addr[c]] = true
		}
		w.CSS.RejectAB = func(b *ledger.AccountBlock) bool { return rej[b.AccountAddress] }
		sb, bad, err := w.SnapshotOf(content, s.Seed)
		w.CSS.RejectAB = nil
		r.Op(err, "snapshot")
		r.snap[s.Sid] = sb
		// the dropped blocks are exactly those the specification drops
		if r.prevO != nil {
			want := map[types.Hash]bool{}
			for a, ids := range r.prevO.Ids {
				for h := len(s.O.Ids[a]); h < len(ids); h++ {
					want[r.blk[ids[h]].b.Hash] = true
				}
			}
			r.Check("index", len(bad) == len(want), "snapshot drops %d unconfirmed blocks, expected %d", len(bad), len(want))
			for _, b := range bad {
				r.Check("index", want[b.Hash], "snapshot drops block %s/%d, which stays", r.name[b.AccountAddress], b.Height)
			}
		}
	case "delacct":
		del, err := w.Chain.DeleteAccountBlocksToHeight(r.addr[s.Acct], uint64(s.H))
		r.Op(err, "delete account blocks of %s from %d", s.Acct, s.H)
		r.checkDeleted("index", del, s)
	case "delsnap":
		chunks, err := w.Chain.DeleteSnapshotBlocksToHeight(uint64(s.N + 1))
		r.Op(err, "delete snapshot blocks from %d", s.N+1)
		var del []*ledger.AccountBlock
		n := 0
		for _, ck := range chunks {
			if ck.SnapshotBlock != nil {
				n++
			}
			del = append(del, ck.AccountBlocks...)
		}
		r.Check("rollback", n == len(r.o.Sids)-(s.N-1), "delete snapshots from %d: %d removed, expected %d", s.N, n, len(r.o.Sids)-(s.N-1))
		r.checkDeleted("rollback", del, s)
		w.Now = w.Chain.GetLatestSnapshotBlock().Timestamp.Unix() + 1
	case "flush":
		r.flushed()
		if r.On("conc") { // beside the following operations, as the node does
			done := make(chan struct{})
			go func() {
				w.Flush()
				close(done)
			}()
			r.flushing = done
			break
		}
		w.Flush()
	case "restart":
		r.dirN++
		nd := r.Scratch(fmt.Sprintf("n%d", r.dirN))
		if err := world.CopyDir(w.Dir, nd); err != nil {
			run.Infra("copy: %v", err)
		}
		old := w.Dir
		w.Reopen(nd)
		os.RemoveAll(old)
	case "crash":
		r.crash(s, func() { w.Chain.Flusher().Flush() })
	case "crashdel":
		r.crash(s, func() {
			_, err := w.Chain.DeleteSnapshotBlocksToHeight(uint64(s.N + 1))
			r.Op(err, "delete snapshot blocks from %d", s.N+1)
		})
	default:
		run.Infra("action %s", s.A)
	}
}

// flushed waits for a flush under way.
func (r *rep) flushed() {
	if r.flushing != nil {
		<-r.flushing
		r.flushing = nil
	}
}

func (r *rep) addrp(n string) *types.Address { a := r.addr[n]; return &a }

func callData(r *rep, g prog) []byte {
	var rds []world.Round
	for i, x := range g.Rs {
		rd := world.Round{Token: toks["VITE"]}
		if x.K != 0 {
			rd.Key, rd.Add = int64(x.K), x.V
		}
		if x.To != "" {
			rd.To, rd.Token, rd.Amount = r.addrp(x.To), toks[x.Tok], world.U(x.Amt)
			if g.Fwd == i+1 {
				rd.Forward = callData(r, g.Sub[0])
			}
		}
		rd.Topic = int64(x.Log)
		rds = append(rds, rd)
	}
	return world.CallData(g.Mode, rds...)
}

// the returned blocks are those that left the ledger (or became unconfirmed again)
func (r *rep) checkDeleted(group string, del []*ledger.AccountBlock, s *step) {
	if !r.On(group) || r.o == nil {
		return
	}
	got := map[types.Hash]bool{}
	for _, b := range del {
		got[b.Hash] = true
	}
	want := map[types.Hash]int{}
	for a, ids := range r.o.Ids {
		for h := len(s.O.Ids[a]); h < len(ids); h++ {
			want[r.blk[ids[h]].b.Hash] = ids[h]
		}
	}
	for h, id := range want {
		r.Check(group, got[h], "%s: block #%d is gone but not reported as deleted", s.A, id)
	}
	keep := map[types.Hash]int{}
	for _, id := range s.O.Order {
		keep[r.blk[id].b.Hash] = id
	}
	for h := range got {
		_, a := want[h]
		if s.A == "delsnap" {
			// blocks that become unconfirmed again are not part of the deleted chunks
			_ = keep
		}
		r.Check(group, a, "%s: reports block %s as deleted, which stays", s.A, h)
	}
}

// crash in the middle of a flush: copy the directory at a chosen point of the two-phase commit
func (r *rep) crash(s *step, op func()) {
	w := r.w
	f := w.Chain.Flusher()
	r.dirN++
	nd := r.Scratch(fmt.Sprintf("n%d", r.dirN))
	cp := newCrashPoint(s.New, s.K, w.Dir, nd)
	cp.install(f, w.Chain)
	op()
	if !cp.taken {
		// the point was not reached (nothing to write): the state after the flush
		if err := world.CopyDir(w.Dir, nd); err != nil {
			run.Infra("copy: %v", err)
		}
		r.Notes["crash-missed"]++
	}
	cp.uninstall(f)
	old := w.Dir
	w.Reopen(nd)
	os.RemoveAll(old)
	w.Now = w.Chain.GetLatestSnapshotBlock().Timestamp.Unix() + 1
}

// --- observation ---

func (r *rep) observe() {
	o := r.o
	// durable order of ids
	if r.On("op") {
		for _, a := range r.accts {
			h, err := r.w.Chain.GetLatestAccountHeight(r.addr[a])
			r.Op(err, "latest height of %s", a)
			if int(h) != len(o.Ids[a]) {
				r.Fail(r.stateGroup(), "account %s has %d blocks, expected %d", a, h, len(o.Ids[a]))
			}
		}
		if h := r.w.Chain.GetLatestSnapshotBlock().Height; int(h) != len(o.Sids)+1 {
			r.Fail(r.stateGroup(), "snapshot height is %d, expected %d", h, len(o.Sids)+1)
		}
	}
	if r.On("bal") {
		r.obsBal()
	}
	if r.On("sto") {
		r.obsSto()
	}
	if r.On("vm") {
		r.obsVM()
	}
	if r.On("index") {
		r.obsIndex()
	}
	if r.On("history") {
		r.obsHistory()
	}
	if r.On("onroad") {
		r.obsOnroad()
	}
	if r.On("sync") {
		r.obsSync()
	}
	if r.On("capi") {
		r.apiContracts(api.NewContractApi(r.w.Node))
	}
	if r.On("api") {
		r.obsApi()
	}
}

func (r *rep) stateGroup() string { return "op" }

func (r *rep) block(a string, h int) *blk {
	id := r.o.Ids[a][h-1]
	if id == 0 {
		return r.gen[a]
	}
	return r.blk[id]
}

func (r *rep) obsBal() {
	ch := r.w.Chain
	total := map[string]int64{}
	for _, a := range r.accts {
		m, err := ch.GetBalanceMap(r.addr[a])
		r.Op(err, "balance map of %s", a)
		for t, id := range toks {
			want := world.U(r.o.Bal[a][t])
			got, err := ch.GetBalance(r.addr[a], id)
			r.Op(err, "balance of %s", a)
			r.Check("bal", got.Cmp(want) == 0, "balance of %s in %s is %s, expected %s", a, t, got, want)
			mv := m[id]
			r.Check("bal", (mv == nil && want.Sign() == 0) || (mv != nil && mv.Cmp(want) == 0), "balance map of %s has %s for %s, expected %s", a, mv, t, want)
			total[t] += r.o.Bal[a][t]
		}
		for id, v := range m {
			r.Check("bal", id == world.Vite || id == world.TokenA || v.Sign() == 0, "account %s owns %s of an unknown token", a, v)
		}
	}
	// money on the road, taken from the node itself
	all, err := ch.LoadAllOnRoad()
	r.Op(err, "LoadAllOnRoad")
	sum := map[types.TokenTypeId]int64{}
	fees := int64(0)
	for _, l := range all {
		for _, h := range l {
			b, err := ch.GetAccountBlockByHash(h)
			r.Op(err, "onroad block")
			r.Check("bal", b != nil, "on-road send %s does not exist", h)
			q, m := div(b)
			r.Check("bal", m == 0, "on-road amount %s", b.Amount)
			sum[b.TokenId] += q
		}
	}
	for _, a := range r.accts {
		for h := 1; h <= len(r.o.Ids[a]); h++ {
			b := r.block(a, h).b
			if b.Fee != nil {
				fees += b.Fee.Int64() / 1 / 1
				_ = fees
			}
		}
	}
	fee := int64(0)
	for _, a := range r.accts {
		if a[0] == 'd' && len(r.o.Ids[a]) > 1 && len(r.block(a, 2).outs) > 0 && r.block(a, 2).outs[0].Kind == "create" {
			fee += 10
		}
	}
	for t, id := range toks {
		all := total[t] + sum[id]
		if t == "VITE" {
			all += fee
		}
		r.Check("bal", all == 6000, "supply of %s: balances + in flight + fees = %d, expected 6000", t, all)
	}
}

func div(b *ledger.AccountBlock) (int64, int64) {
	if b.Amount == nil {
		return 0, 0
	}
	q, m := world.DivU(b.Amount)
	return q, m
}

// a storage word as the node stores it: 256-bit two's complement without leading zeros
func trimmed(v int64) []byte {
	x := big.NewInt(v)
	if v < 0 {
		x.Add(x, new(big.Int).Lsh(big.NewInt(1), 256))
	}
	return x.Bytes()
}

func (r *rep) obsSto() {
	ch := r.w.Chain
	for _, c := range r.accts {
		if c[0] != 'c' {
			continue
		}
		want := map[string][]byte{}
		for k, v := range r.o.sto[c] {
			got, err := ch.GetValue(r.addr[c], world.StorageKey(int64(k)))
			r.Op(err, "storage of %s", c)
			r.Check("sto", bytes.Equal(got, trimmed(v)), "storage %d of %s is %x, expected %x", k, c, got, trimmed(v))
			if v != 0 {
				want[string(world.StorageKey(int64(k)))] = trimmed(v)
			}
		}
		it, err := ch.GetStorageIterator(r.addr[c], nil)
		r.Op(err, "iterator")
		n := 0
		var last []byte
		for it.Next() {
			n++
			r.Check("sto", bytes.Equal(want[string(it.Key())], it.Value()), "storage iteration of %s yields %x=%x", c, it.Key(), it.Value())
			r.Check("sto", last == nil || bytes.Compare(last, it.Key()) < 0, "storage iteration of %s is out of order", c)
			last = append([]byte{}, it.Key()...)
		}
		it.Release()
		r.Check("sto", n == len(want), "storage iteration of %s yields %d entries, expected %d", c, n, len(want))
		code, err := ch.GetContractCode(r.addr[c])
		r.Op(err, "code")
		r.Check("sto", (len(code) > 0) == r.o.Code[c], "code of %s present=%v, expected %v", c, len(code) > 0, r.o.Code[c])
		meta, err := ch.GetContractMeta(r.addr[c])
		r.Op(err, "meta")
		exists := r.created(c) != nil
		r.Check("sto", (meta != nil) == exists, "contract meta of %s present=%v, expected %v", c, meta != nil, exists)
		if meta != nil {
			r.Check("sto", int(meta.SendConfirmedTimes) == int(c[1]-'1') && meta.CreateBlockHash == r.created(c).b.Hash && meta.Gid == types.DELEGATE_GID, "contract meta of %s is %+v", c, meta)
		}
	}
	if r.On("clist") {
		l, err := ch.GetContractList(types.DELEGATE_GID)
		r.Op(err, "contract list")
		got := map[types.Address]int{}
		for _, a := range l {
			got[a]++
		}
		for _, c := range r.accts {
			if c[0] == 'c' {
				n := 0
				if r.created(c) != nil {
					n = 1
				}
				r.Check("sto", got[r.addr[c]] == n, "contract list has %s %d times, expected %d", c, got[r.addr[c]], n)
			}
		}
	}
}

func (r *rep) created(c string) *blk {
	d := "d" + c[1:]
	if len(r.o.Ids[d]) < 2 {
		return nil
	}
	b := r.block(d, 2)
	if len(b.outs) > 0 && b.outs[0].Kind == "create" {
		return b
	}
	return nil
}

var _ = sort.Ints
var _ = filepath.Join
var _ chain.Chain
