// Command consensus replays behaviours of specs/Consensus: a chain of snapshot blocks with registrations and votes stands
// in for the ledger; elections, producer checks and statistics are those of the real consensus module.
package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	"github.com/syndtr/goleveldb/leveldb"
	"github.com/syndtr/goleveldb/leveldb/storage"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/ledger/consensus"
	"github.com/vitelabs/go-vite/v2/ledger/consensus/core"
	"github.com/vitelabs/go-vite/v2/ledger/pool/lock"
	"github.com/vitelabs/go-vite/v2/log15"
	"github.com/vitelabs/go-vite/v2/zz_verif/run"
)

const genesis = 1558411200

type world struct {
	Reg  [][]int `json:"reg"`
	Act  []int   `json:"act"`
	Vote []int   `json:"vote"`
	Bal  []int   `json:"bal"`
}

type blk struct {
	T, Who, W, Seed int
	b               *ledger.SnapshotBlock
}

var addrs = map[int]types.Address{}
var ids = map[types.Address]int{}

func pk(id int) []byte { return []byte(fmt.Sprintf("a public key of thirty-two bytes, %3d", id)) }
func addr(id int) types.Address {
	a, ok := addrs[id]
	if !ok {
		if id == 0 {
			a = (&ledger.SnapshotBlock{}).Producer()
		} else {
			a = types.PubkeyToAddress(pk(id))
		}
		addrs[id] = a
		ids[a] = id
	}
	return a
}
func voter(i int) types.Address { return addr(1000 + i) }
func name(n int) string         { return fmt.Sprintf("sbp%d", n) }
func at(t int) time.Time        { return time.Unix(genesis+int64(t), 0) }

// ledgerStandin is the ledger as the consensus module sees it.
type ledgerStandin struct {
	bs     []*blk
	worlds []*world
	groups []*types.ConsensusGroupInfo
	db     *leveldb.DB
	token  types.TokenTypeId
}

func (l *ledgerStandin) world(h types.Hash) (*world, error) {
	for _, b := range l.bs {
		if b.b.Hash == h {
			return l.worlds[b.W-1], nil
		}
	}
	return nil, fmt.Errorf("no snapshot block %s", h)
}
func (l *ledgerStandin) GetGenesisSnapshotBlock() *ledger.SnapshotBlock { return l.bs[0].b }
func (l *ledgerStandin) GetLatestSnapshotBlock() *ledger.SnapshotBlock  { return l.bs[len(l.bs)-1].b }
func (l *ledgerStandin) Register(interfaces.EventListener)              {}
func (l *ledgerStandin) UnRegister(interfaces.EventListener)            {}
func (l *ledgerStandin) GetConsensusGroupList(h types.Hash) ([]*types.ConsensusGroupInfo, error) {
	return l.groups, nil
}
func (l *ledgerStandin) regs(h types.Hash, all bool) ([]*types.Registration, error) {
	w, err := l.world(h)
	if err != nil {
		return nil, err
	}
	act := map[int]bool{}
	for _, n := range w.Act {
		act[n] = true
	}
	var out []*types.Registration
	for i := len(w.Reg); i >= 1; i-- {
		if !act[i] && !all {
			continue
		}
		r := &types.Registration{Name: name(i), StakeAddress: addr(i), Amount: big.NewInt(1), ExpirationHeight: 1}
		for _, a := range w.Reg[i-1] {
			r.HisAddrList = append(r.HisAddrList, addr(a))
			r.BlockProducingAddress = addr(a)
		}
		if !act[i] {
			r.RevokeTime = 1
		}
		out = append(out, r)
	}
	return out, nil
}
func (l *ledgerStandin) GetRegisterList(h types.Hash, gid types.Gid) ([]*types.Registration, error) {
	return l.regs(h, false)
}
func (l *ledgerStandin) GetAllRegisterList(h types.Hash, gid types.Gid) ([]*types.Registration, error) {
	return l.regs(h, true)
}
func (l *ledgerStandin) GetVoteList(h types.Hash, gid types.Gid) ([]*types.VoteInfo, error) {
	w, err := l.world(h)
	if err != nil {
		return nil, err
	}
	var out []*types.VoteInfo
	for i, n := range w.Vote {
		out = append(out, &types.VoteInfo{VoteAddr: voter(i + 1), SbpName: name(n)})
	}
	return out, nil
}
func (l *ledgerStandin) GetConfirmedBalanceList(as []types.Address, tok types.TokenTypeId, h types.Hash) (map[types.Address]*big.Int, error) {
	w, err := l.world(h)
	if err != nil {
		return nil, err
	}
	if tok != l.token {
		return nil, fmt.Errorf("token %s does not count", tok)
	}
	out := map[types.Address]*big.Int{}
	for _, a := range as {
		out[a] = big.NewInt(int64(w.Bal[ids[a]-1001]))
	}
	return out, nil
}
func (l *ledgerStandin) GetSnapshotHeaderBeforeTime(t *time.Time) (*ledger.SnapshotBlock, error) {
	for i := len(l.bs) - 1; i >= 0; i-- {
		if l.bs[i].b.Timestamp.Before(*t) {
			return l.bs[i].b, nil
		}
	}
	return nil, nil
}
func (l *ledgerStandin) GetContractMeta(a types.Address) (*ledger.ContractMeta, error) {
	return &ledger.ContractMeta{Gid: types.DELEGATE_GID}, nil
}
func (l *ledgerStandin) GetSnapshotBlockByHeight(h uint64) (*ledger.SnapshotBlock, error) {
	if h < 1 || h > uint64(len(l.bs)) {
		return nil, nil
	}
	return l.bs[h-1].b, nil
}
func (l *ledgerStandin) GetSnapshotBlockByHash(h types.Hash) (*ledger.SnapshotBlock, error) {
	for _, b := range l.bs {
		if b.b.Hash == h {
			return b.b, nil
		}
	}
	return nil, nil
}
func (l *ledgerStandin) GetSnapshotHeadersAfterOrEqualTime(end *ledger.HashHeight, start *time.Time, p *types.Address) ([]*ledger.SnapshotBlock, error) {
	e, _ := l.GetSnapshotBlockByHash(end.Hash)
	if e == nil || e.Height != end.Height {
		return nil, fmt.Errorf("no block %s", end.Hash)
	}
	var out []*ledger.SnapshotBlock
	for i := int(end.Height) - 1; i >= 0 && !l.bs[i].b.Timestamp.Before(*start); i-- {
		if p == nil || l.bs[i].b.Producer() == *p {
			out = append(out, l.bs[i].b)
		}
	}
	return out, nil
}
func (l *ledgerStandin) IsGenesisSnapshotBlock(h types.Hash) bool { return l.bs[0].b.Hash == h }
func (l *ledgerStandin) GetRandomSeed(h types.Hash, n int) uint64 {
	for _, b := range l.bs {
		if b.b.Hash == h {
			return uint64(b.Seed)
		}
	}
	return 0
}
func (l *ledgerStandin) GetLastUnpublishedSeedSnapshotHeader(p types.Address, t time.Time) (*ledger.SnapshotBlock, error) {
	return nil, nil
}
func (l *ledgerStandin) NewDb(string) (*leveldb.DB, error) { return l.db, nil }

func (l *ledgerStandin) add(b *blk) {
	ts := at(b.T)
	s := &ledger.SnapshotBlock{Height: uint64(len(l.bs) + 1), Timestamp: &ts}
	var x [40]byte
	if len(l.bs) > 0 {
		s.PrevHash = l.bs[len(l.bs)-1].b.Hash
		copy(x[:32], s.PrevHash[:])
	}
	if b.Who != 0 {
		s.PublicKey = pk(b.Who)
	}
	var y [16]byte
	binary.BigEndian.PutUint32(y[0:], uint32(b.T))
	binary.BigEndian.PutUint32(y[4:], uint32(b.Who))
	binary.BigEndian.PutUint32(y[8:], uint32(b.W))
	binary.BigEndian.PutUint32(y[12:], uint32(b.Seed))
	s.Hash = types.DataHash(append(x[:], y[:]...))
	addr(b.Who)
	b.b = s
	l.bs = append(l.bs, b)
}

type step struct {
	A   string          `json:"a"`
	Bs  []*blk          `json:"bs"`
	N   int             `json:"n"`
	W   *world          `json:"w"`
	G   int             `json:"g"`
	P   int             `json:"p"`
	Pl  [][2]int        `json:"pl"`
	Who int             `json:"who"`
	T   int             `json:"t"`
	I   int             `json:"i"`
	Ok  bool            `json:"ok"`
	Lo  uint64          `json:"lo"`
	Hi  uint64          `json:"hi"`
	St  json.RawMessage `json:"st"`
}

type stat struct {
	I  int
	St [][3]int
}

func (s *stat) UnmarshalJSON(b []byte) error {
	x := []interface{}{&s.I, &s.St}
	return json.Unmarshal(b, &x)
}

func main() {
	log15.Root().SetHandler(log15.DiscardHandler())
	run.Main(replay)
}

func str(l []string) string { sort.Strings(l); return strings.Join(l, " ") }

func replay(c *run.Ctx, line []byte) {
	var tr struct {
		G  []int  `json:"g"`
		NN int    `json:"nn"`
		H  []step `json:"h"`
	}
	if err := json.Unmarshal(line, &tr); err != nil {
		run.Infra("%v", err)
	}
	for i := 1; i <= 8; i++ {
		voter(i)
	}
	l := &ledgerStandin{}
	copy(l.token[:], "counting!!")
	g := tr.G
	l.groups = []*types.ConsensusGroupInfo{
		{Gid: types.DELEGATE_GID, NodeCount: uint8(g[6]), Interval: int64(g[8]), PerCount: int64(g[7]), RandCount: 1, RandRank: uint8(g[6] + 2), Repeat: 1, CheckLevel: 1, CountingTokenId: l.token, ExpirationHeight: 1},
		{Gid: types.SNAPSHOT_GID, NodeCount: uint8(g[0]), Interval: int64(g[3]), PerCount: int64(g[1]), RandCount: uint8(g[4]), RandRank: uint8(g[5]), Repeat: uint16(g[2]), CheckLevel: 0, CountingTokenId: l.token, ExpirationHeight: 1},
	}
	w0 := &world{}
	for n := 1; n <= tr.NN; n++ {
		w0.Reg = append(w0.Reg, []int{n*10 + 1})
		w0.Act = append(w0.Act, n)
	}
	for v := 1; v <= 8; v++ {
		w0.Vote = append(w0.Vote, (v-1)%tr.NN+1)
		w0.Bal = append(w0.Bal, v*5%7)
	}
	l.worlds = []*world{w0}
	l.add(&blk{W: 1})
	db, err := leveldb.Open(storage.NewMemStorage(), nil)
	if err != nil {
		run.Infra("%v", err)
	}
	l.db = db
	defer db.Close()
	start := func() consensus.Consensus {
		cs := consensus.NewConsensus(l, &lock.EasyImpl{})
		if err := cs.Init(consensus.DefaultCfg()); err != nil {
			c.Op(err, "starting consensus")
		}
		return cs
	}
	cs := start()
	gid := []types.Gid{types.SNAPSHOT_GID, types.DELEGATE_GID}
	iv := []int{g[3], g[8]}
	pi := []int{g[0] * g[1] * g[2] * g[3], g[6] * g[7] * g[8]}
	base := func(kind string, s *step, get func() ([]*core.BaseStats, error), ti core.TimeIndex, secs int) {
		var want []stat
		if err := json.Unmarshal(s.St, &want); err != nil {
			run.Infra("%v", err)
		}
		got, err := get()
		c.Check("stats", err == nil, "%s statistics %d to %d: %v", kind, s.Lo, s.Hi, err)
		f := func(i uint64, m map[types.Address]*core.SbpStats) string {
			var o []string
			for a, x := range m {
				c.Check("stats", x.Index == i, "%s %d is labelled %d", kind, i, x.Index)
				o = append(o, fmt.Sprintf("%d:%d/%d", ids[a], x.BlockNum, x.ExceptedBlockNum))
			}
			return str(o)
		}
		var gs, wst []string
		last := -1
		for _, x := range got {
			c.Check("stats", int(x.Index) > last, "%s statistics are not in order", kind)
			last = int(x.Index)
			gs = append(gs, fmt.Sprintf("%d[%s]", x.Index, f(x.Index, x.Stats)))
		}
		for _, x := range want {
			var o []string
			for _, y := range x.St {
				o = append(o, fmt.Sprintf("%d:%d/%d", y[0], y[2], y[1]))
			}
			wst = append(wst, fmt.Sprintf("%d[%s]", x.I, str(o)))
		}
		c.Check("stats", str(gs) == str(wst), "%s statistics %d to %d are %s, not %s", kind, s.Lo, s.Hi, str(gs), str(wst))
		a, b := ti.Index2Time(s.Hi)
		c.Check("stats", a.Unix() == genesis+int64(s.Hi)*int64(secs) && b.Unix() == a.Unix()+int64(secs), "%s %d is from %d to %d", kind, s.Hi, a.Unix(), b.Unix())
		c.Check("stats", ti.Time2Index(a) == s.Hi && ti.Time2Index(b) == s.Hi+1 && ti.Time2Index(b.Add(-time.Nanosecond)) == s.Hi, "%s of a time", kind)
	}
	for i := range tr.H {
		s := &tr.H[i]
		c.Step = i + 1
		c.Notes[s.A]++
		switch s.A {
		case "blocks":
			for _, b := range s.Bs {
				l.add(b)
			}
		case "roll":
			l.bs = l.bs[:s.N]
		case "restart":
			cs = start()
		case "world":
			l.worlds = append(l.worlds, s.W)
		case "elect":
			ev, idx, err := cs.ReadByIndex(gid[s.G-1], uint64(s.P))
			c.Check("elect", err == nil, "election of period %d: %v", s.P, err)
			c.Check("elect", idx == uint64(s.P), "election of period %d gives period %d", s.P, idx)
			var gs, ws []string
			for _, e := range ev {
				gs = append(gs, fmt.Sprintf("%d@%d-%d", ids[e.Address], e.Stime.Unix()-genesis, e.Etime.Unix()-genesis))
				c.Check("elect", e.Gid == gid[s.G-1] && e.Timestamp.Equal(e.Stime) && e.PeriodStime.Unix() == genesis+int64(s.P*pi[s.G-1]) && e.PeriodEtime.Unix() == genesis+int64((s.P+1)*pi[s.G-1]), "event of period %d", s.P)
			}
			for _, p := range s.Pl {
				ws = append(ws, fmt.Sprintf("%d@%d-%d", p[0], p[1], p[1]+iv[s.G-1]))
			}
			c.Check("elect", strings.Join(gs, " ") == strings.Join(ws, " "), "the turns of period %d (group %d) are %v, not %v", s.P, s.G, gs, ws)
			if s.G == 1 {
				ev2, _, err := cs.API().ReadByIndex(gid[0], uint64(s.P))
				c.Check("elect", err == nil && len(ev2) == len(ev), "the API's election of period %d differs: %v", s.P, err)
				for k := range ev2 {
					c.Check("elect", ev2[k].Address == ev[k].Address && ev2[k].Stime.Equal(ev[k].Stime), "the API's election of period %d differs", s.P)
				}
			}
			a, b, err := cs.VoteIndexToTime(gid[s.G-1], uint64(s.P))
			c.Check("elect", err == nil && a.Unix() == genesis+int64(s.P*pi[s.G-1]) && b.Unix() == genesis+int64((s.P+1)*pi[s.G-1]), "time of period %d", s.P)
			k, err := cs.VoteTimeToIndex(gid[s.G-1], b.Add(-time.Second))
			c.Check("elect", err == nil && k == uint64(s.P), "period of a time in period %d is %d", s.P, k)
		case "verify":
			ts := at(s.T)
			h := &ledger.SnapshotBlock{Height: uint64(len(l.bs) + 1), Timestamp: &ts, PublicKey: pk(s.Who)}
			ok, err := cs.VerifySnapshotProducer(h)
			c.Check("elect", err == nil, "verifying a producer: %v", err)
			c.Check("elect", ok == s.Ok, "producer %d at %d is accepted: %v, not %v", s.Who, s.T, ok, s.Ok)
		case "mayc":
			b := &ledger.AccountBlock{BlockType: ledger.BlockTypeReceive, AccountAddress: types.Address{20: 1}, PublicKey: pk(s.Who)}
			ok, err := cs.VerifyAccountProducer(b)
			c.Check("elect", err == nil && ok == s.Ok, "producer %d of a contract block is accepted: %v, not %v (%v)", s.Who, ok, s.Ok, err)
			inv, err := cs.VerifyABsProducer(map[types.Gid][]*ledger.AccountBlock{types.DELEGATE_GID: {b}})
			c.Check("elect", err == nil && (len(inv) == 0) == s.Ok, "producer %d of contract blocks is accepted: %v, not %v (%v)", s.Who, len(inv) == 0, s.Ok, err)
		case "period":
			base("period", s, func() (o []*core.BaseStats, err error) {
				x, err := cs.SBPReader().PeriodStats(s.Lo, s.Hi)
				for _, y := range x {
					o = append(o, y.BaseStats)
				}
				return
			}, cs.SBPReader().GetPeriodTimeIndex(), pi[0])
		case "hour":
			base("hour", s, func() (o []*core.BaseStats, err error) {
				x, err := cs.SBPReader().HourStats(s.Lo, s.Hi)
				for _, y := range x {
					o = append(o, y.BaseStats)
				}
				return
			}, cs.SBPReader().GetHourTimeIndex(), 3600)
		case "day":
			var want []struct {
				I, Sum, Total int
				St            [][4]int
			}
			if err := json.Unmarshal(s.St, &want); err != nil {
				run.Infra("%v", err)
			}
			got, err := cs.SBPReader().DayStats(s.Lo, s.Hi)
			c.Check("stats", err == nil, "day statistics %d to %d: %v", s.Lo, s.Hi, err)
			var gs, ws []string
			for _, x := range got {
				var o []string
				for n, y := range x.Stats {
					c.Check("stats", y.Name == n && y.Index == x.Index, "day %d: name of %s", x.Index, n)
					o = append(o, fmt.Sprintf("%s:%s:%d/%d", n, y.VoteCnt.Int, y.BlockNum, y.ExceptedBlockNum))
				}
				gs = append(gs, fmt.Sprintf("%d(%s %d)[%s]", x.Index, x.VoteSum.Int, x.BlockTotal, str(o)))
			}
			for _, x := range want {
				var o []string
				for _, y := range x.St {
					o = append(o, fmt.Sprintf("%s:%d:%d/%d", name(y[0]), y[1], y[3], y[2]))
				}
				ws = append(ws, fmt.Sprintf("%d(%d %d)[%s]", x.I, x.Sum, x.Total, str(o)))
			}
			c.Check("stats", str(gs) == str(ws), "day statistics %d to %d are %s, not %s", s.Lo, s.Hi, str(gs), str(ws))
		case "rate":
			var want [][2]int
			if err := json.Unmarshal(s.St, &want); err != nil {
				run.Infra("%v", err)
			}
			got, err := cs.SBPReader().GetSuccessRateByHour(uint64(s.P))
			c.Check("stats", err == nil, "success rate at %d: %v", s.P, err)
			var gs, ws []string
			for a, x := range got {
				gs = append(gs, fmt.Sprintf("%d:%d", ids[a], x))
			}
			for _, x := range want {
				ws = append(ws, fmt.Sprintf("%d:%d", x[0], x[1]))
			}
			c.Check("stats", str(gs) == str(ws), "success rates at period %d are %s, not %s", s.P, str(gs), str(ws))
		case "votes":
			var want [][3]int
			if err := json.Unmarshal(s.St, &want); err != nil {
				run.Infra("%v", err)
			}
			got, hh, err := cs.API().ReadVoteMap(at(s.T))
			c.Check("elect", err == nil && hh.Height == uint64(s.I) && hh.Hash == l.bs[s.I-1].b.Hash, "votes before %d: %v", s.T, err)
			var gs, ws []string
			for _, x := range got {
				gs = append(gs, fmt.Sprintf("%s:%d:%s", x.Name, ids[x.CurrentAddr], x.Balance))
			}
			for _, x := range want {
				ws = append(ws, fmt.Sprintf("%s:%d:%d", name(x[0]), x[1], x[2]))
			}
			c.Check("elect", strings.Join(gs, " ") == strings.Join(ws, " "), "votes before %d are %v, not %v", s.T, gs, ws)
		}
	}
}
