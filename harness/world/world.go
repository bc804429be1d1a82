// Package world drives one complete go-vite node core (chain, vm, generator,
// verifier, onroad manager) through its exported API.
package world

import (
	"errors"
	"fmt"
	"io"
	"math/big"
	"os"
	"path/filepath"
	"time"

	vite "github.com/vitelabs/go-vite/v2"
	"github.com/vitelabs/go-vite/v2/common/config"
	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/common/upgrade"
	"github.com/vitelabs/go-vite/v2/crypto"
	"github.com/vitelabs/go-vite/v2/crypto/ed25519"
	"github.com/vitelabs/go-vite/v2/interfaces"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/ledger/chain"
	chain_genesis "github.com/vitelabs/go-vite/v2/ledger/chain/genesis"
	"github.com/vitelabs/go-vite/v2/ledger/consensus/core"
	"github.com/vitelabs/go-vite/v2/ledger/generator"
	"github.com/vitelabs/go-vite/v2/ledger/onroad"
	"github.com/vitelabs/go-vite/v2/ledger/verifier"
	"github.com/vitelabs/go-vite/v2/log15"
	"github.com/vitelabs/go-vite/v2/net"
	"github.com/vitelabs/go-vite/v2/vm"
	"github.com/vitelabs/go-vite/v2/vm/util"
)

const GenesisUnix = 1558411200

var Vite = ledger.ViteTokenId
var TokenA = types.TokenTypeId{'T', 'O', 'K', 'E', 'N', '-', 'A', 0, 0, 1}
var Unit = new(big.Int).Set(util.AttovPerVite)

func U(n int64) *big.Int { return new(big.Int).Mul(big.NewInt(n), Unit) }

type Account struct {
	Addr types.Address
	Key  ed25519.PrivateKey
}

func (a Account) Sign(msg []byte) ([]byte, ed25519.PublicKey, error) {
	return ed25519.Sign(a.Key, msg), a.Key.PubByte(), nil
}

func NewAccount(i int) Account {
	var d [32]byte
	d[0], d[1] = byte(i), byte(i>>8)
	d[31] = 0x5a
	addr, key, err := types.CreateAddressWithDeterministic(d)
	if err != nil {
		panic(err)
	}
	return Account{addr, key}
}

// SBP is a scripted statistics reader.
type SBP struct {
	Days map[uint64]*core.DayStats
	Day  core.TimeIndex
}

func NewSBP() *SBP {
	return &SBP{Days: map[uint64]*core.DayStats{}, Day: core.NewTimeIndex(time.Unix(GenesisUnix, 0), 24*time.Hour)}
}
func (s *SBP) DayStats(a, b uint64) ([]*core.DayStats, error) {
	var r []*core.DayStats
	for i := a; i <= b; i++ {
		if d, ok := s.Days[i]; ok {
			r = append(r, d)
		}
	}
	return r, nil
}
func (s *SBP) GetDayTimeIndex() core.TimeIndex { return s.Day }
func (s *SBP) HourStats(a, b uint64) ([]*core.HourStats, error) {
	return nil, nil
}
func (s *SBP) GetHourTimeIndex() core.TimeIndex {
	return core.NewTimeIndex(time.Unix(GenesisUnix, 0), time.Hour)
}
func (s *SBP) PeriodStats(a, b uint64) ([]*core.PeriodStats, error) { return nil, nil }
func (s *SBP) GetPeriodTimeIndex() core.TimeIndex {
	return core.NewTimeIndex(time.Unix(GenesisUnix, 0), 75*time.Second)
}
func (s *SBP) GetSuccessRateByHour(i uint64) (map[types.Address]int32, error) { return nil, nil }
func (s *SBP) GetNodeCount() int                                              { return 25 }

// CSS accepts every producer (consensus is checked by its own specification).
type CSS struct {
	RejectAB func(b *ledger.AccountBlock) bool
}

// VerifyABsProducer returns the blocks whose producer is not legal.
func (c *CSS) VerifyABsProducer(abs map[types.Gid][]*ledger.AccountBlock) ([]*ledger.AccountBlock, error) {
	var r []*ledger.AccountBlock
	for _, l := range abs {
		for _, b := range l {
			if c.RejectAB != nil && c.RejectAB(b) {
				r = append(r, b)
			}
		}
	}
	return r, nil
}
func (c *CSS) VerifySnapshotProducer(b *ledger.SnapshotBlock) (bool, error) { return true, nil }
func (c *CSS) VerifyAccountProducer(b *ledger.AccountBlock) (bool, error)   { return true, nil }

type netStub struct{}

func (netStub) SubscribeSyncStatus(fn func(net.SyncState)) int { return 1 }
func (netStub) UnsubscribeSyncStatus(int)                      {}
func (netStub) SyncState() net.SyncState                       { return net.SyncDone }

// Options of a world.
type Options struct {
	Users     int
	Deployers int
	Stake     *big.Int // quota stake of every user (nil: large)
	CStake    *big.Int // quota stake of every future contract (nil: large)
	Balance   *big.Int // genesis balance per user and token (nil: 1000 units)
	ZeroUsers map[int]bool
	Upgrade   upgrade.UpgradeBox
	Plugins   bool
	OnRoad    bool
	Node      bool // assemble the parts with vite.New
	Tune      func(g *config.Genesis, w *World)
}

// World is one node.
type World struct {
	Opt       Options
	Dir       string
	Genesis   *config.Genesis
	Users     []Account
	Deployers []Account
	SBPAcc    Account
	Contracts []types.Address // address of the contract created by block 2 of deployer i

	Node     *vite.Vite // with Options.Node
	Chain    chain.Chain
	Verifier verifier.Verifier
	OnRoad   *onroad.Manager
	SBP      *SBP
	CSS      *CSS
	Now      int64 // unix time of the next snapshot block
	seed     uint64
	OnOpen   func(ch chain.Chain)
}

func init() {
	log15.Root().SetHandler(log15.DiscardHandler())
}

func BigStake() *big.Int { return new(big.Int).Mul(big.NewInt(1e9), Unit) }

func (w *World) genesis() *config.Genesis {
	o := w.Opt
	g := config.MockGenesis()
	ga := w.SBPAcc.Addr
	g.GenesisAccountAddress = &ga
	bal := o.Balance
	if bal == nil {
		bal = U(1000)
	}
	g.QuotaInfo.StakeInfoMap = map[string][]*config.StakeInfo{}
	g.QuotaInfo.StakeBeneficialMap = map[string]*big.Int{}
	g.AccountBalanceMap = map[string]map[string]*big.Int{}
	total := new(big.Int)
	stake := o.Stake
	if stake == nil {
		stake = BigStake()
	}
	for i, u := range w.Users {
		g.QuotaInfo.StakeBeneficialMap[u.Addr.Hex()] = stake
		b := bal
		if o.ZeroUsers[i] {
			continue
		}
		g.AccountBalanceMap[u.Addr.Hex()] = map[string]*big.Int{
			Vite.Hex(): new(big.Int).Set(b), TokenA.Hex(): new(big.Int).Set(b)}
		total.Add(total, b)
	}
	for _, u := range w.Deployers {
		g.QuotaInfo.StakeBeneficialMap[u.Addr.Hex()] = BigStake()
		g.AccountBalanceMap[u.Addr.Hex()] = map[string]*big.Int{
			Vite.Hex(): new(big.Int).Set(bal), TokenA.Hex(): new(big.Int).Set(bal)}
		total.Add(total, bal)
	}
	g.AssetInfo.TokenInfoMap[TokenA.Hex()] = &config.TokenInfo{
		TokenName: "Token A", TokenSymbol: "TOKA", TotalSupply: total, Decimals: 18,
		Owner: w.Users[0].Addr, MaxSupply: new(big.Int).Mul(total, big.NewInt(1000)),
		IsReIssuable: true}
	g.AssetInfo.TokenInfoMap[Vite.Hex()].TotalSupply = total
	g.AssetInfo.TokenInfoMap[Vite.Hex()].Owner = ga
	for _, reg := range g.GovernanceInfo.RegistrationInfoMap {
		for _, r := range reg {
			a := w.SBPAcc.Addr
			r.BlockProducingAddress, r.StakeAddress = &a, &a
			r.HistoryAddressList = []types.Address{a}
		}
	}
	if g.DexFundInfo == nil {
		g.DexFundInfo = &config.DexFundContractInfo{Owner: &ga}
	}
	if o.Tune != nil {
		o.Tune(g, w)
	}
	return g
}

// New builds a fresh node in dir.
func New(dir string, o Options) *World {
	if o.Users == 0 {
		o.Users = 3
	}
	w := &World{Opt: o, Dir: dir, SBP: NewSBP(), CSS: &CSS{}}
	for i := 0; i < o.Users; i++ {
		w.Users = append(w.Users, NewAccount(i+1))
	}
	for i := 0; i < o.Deployers; i++ {
		w.Deployers = append(w.Deployers, NewAccount(100+i))
	}
	w.SBPAcc = NewAccount(999)
	box := o.Upgrade
	if box == nil {
		box = upgrade.NewLatestUpgradeBox()
	}
	upgrade.CleanupUpgradeBox()
	upgrade.InitUpgradeBox(box)
	vm.InitVMConfig(false, true, true, false, "")
	w.Genesis = w.genesis()
	if o.Deployers > 0 {
		cstake := o.CStake
		if cstake == nil {
			cstake = BigStake()
		}
		hash := map[types.Address]types.Hash{}
		for _, b := range chain_genesis.NewGenesisAccountBlocks(w.Genesis) {
			hash[b.AccountBlock.AccountAddress] = b.AccountBlock.Hash
		}
		for _, d := range w.Deployers {
			c := util.NewContractAddress(d.Addr, 2, hash[d.Addr])
			w.Contracts = append(w.Contracts, c)
			if cstake.Sign() > 0 {
				w.Genesis.QuotaInfo.StakeBeneficialMap[c.Hex()] = cstake
			}
		}
	}
	w.Open()
	w.Now = GenesisUnix + 1
	return w
}

// Open opens the chain on w.Dir.
func (w *World) Open() {
	var ch chain.Chain
	cc := &config.Chain{OpenPlugins: w.Opt.Plugins, VmLogAll: true}
	if w.Opt.Node {
		// the node's own assembly of its parts (without a network)
		upgrade.CleanupUpgradeBox()
		w.Genesis.UpgradeCfg = &config.Upgrade{Level: "latest"}
		v, err := vite.New(&config.Config{Producer: &config.Producer{}, Chain: cc, Vm: &config.Vm{}, Net: &config.Net{Single: true},
			Genesis: w.Genesis, DataDir: w.Dir}, nil)
		if err != nil {
			panic(fmt.Errorf("node: %v", err))
		}
		w.Node, ch = v, v.Chain()
	} else {
		ch = chain.NewChain(w.Dir, cc, w.Genesis)
		if err := ch.Init(); err != nil {
			panic(fmt.Errorf("chain init: %v", err))
		}
	}
	w.Chain = ch
	gt := time.Unix(GenesisUnix, 0)
	ch.SetConsensus(w.CSS, core.NewTimeIndex(gt, 75*time.Second))
	if w.OnOpen != nil {
		w.OnOpen(ch)
	}
	w.OnRoad = onroad.NewManager(netStub{}, nil, nil, w.SBP, nil)
	if w.Opt.OnRoad {
		w.OnRoad.Init(ch)
		w.OnRoad.Start()
	}
	w.Verifier = verifier.NewVerifier(ch).Init(w.CSS, w.SBP, w.OnRoad)
}

// Reopen abandons the in-memory node and opens a node on dir (a copy of the data directory).
func (w *World) Reopen(dir string) {
	w.Abandon()
	w.Dir = dir
	w.Open()
}

// Abandon closes what can be closed without flushing.
func (w *World) Abandon() {
	if w.Opt.OnRoad {
		w.OnRoad.Stop()
		w.OnRoad.Close()
	}
	w.Chain.Destroy()
}

func (w *World) Close() {
	w.Abandon()
	os.RemoveAll(w.Dir)
}

func (w *World) Flush() { w.Chain.Flusher().Flush() }

// CopyDir copies the data directory.
func CopyDir(from, to string) error {
	return filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			if os.IsNotExist(err) {
				return nil
			}
			return err
		}
		rel, _ := filepath.Rel(from, p)
		dst := filepath.Join(to, rel)
		if fi.IsDir() {
			return os.MkdirAll(dst, 0755)
		}
		if fi.Name() == "LOCK" {
			return nil
		}
		in, err := os.Open(p)
		if err != nil {
			if os.IsNotExist(err) {
				return nil
			}
			return err
		}
		defer in.Close()
		out, err := os.Create(dst)
		if err != nil {
			return err
		}
		defer out.Close()
		_, err = io.Copy(out, in)
		return err
	})
}

// --- block production ---

func (w *World) prevHash(a types.Address) *types.Hash {
	b, err := w.Chain.GetLatestAccountBlock(a)
	if err != nil {
		panic(err)
	}
	if b == nil {
		return &types.Hash{}
	}
	return &b.Hash
}

func (w *World) gen(a types.Address) (interfaces.Generator, error) {
	sb := w.Chain.GetLatestSnapshotBlock()
	return generator.NewGenerator(w.Chain, w.SBP, a, &sb.Hash, w.prevHash(a))
}

var ErrNoBlock = errors.New("no block generated")

// GenSend generates (does not insert) a send block.
func (w *World) GenSend(a Account, bt byte, to *types.Address, tok types.TokenTypeId, amount *big.Int, data []byte, diff *big.Int) (*interfaces.VmAccountBlock, error) {
	g, err := w.gen(a.Addr)
	if err != nil {
		return nil, err
	}
	msg := &interfaces.IncomingMessage{BlockType: bt, AccountAddress: a.Addr, ToAddress: to,
		TokenId: &tok, Amount: new(big.Int).Set(amount), Data: data, Difficulty: diff}
	r, err := g.GenerateWithMessage(msg, &a.Addr, a.Sign)
	if err != nil {
		return nil, err
	}
	if r.VMBlock == nil {
		if r.Err == nil {
			return nil, ErrNoBlock
		}
		return nil, r.Err
	}
	return r.VMBlock, r.Err
}

// GenRecv generates (does not insert) a receive block; the block may come with an execution error.
func (w *World) GenRecv(a Account, send *ledger.AccountBlock, diff *big.Int) (*interfaces.VmAccountBlock, bool, error) {
	g, err := w.gen(send.ToAddress)
	if err != nil {
		return nil, false, err
	}
	signer := a
	if types.IsContractAddr(send.ToAddress) {
		signer = w.SBPAcc
	}
	r, err := g.GenerateWithOnRoad(send, &signer.Addr, signer.Sign, diff)
	if err != nil {
		return nil, false, err
	}
	if r.VMBlock == nil && r.Err == nil {
		return nil, r.IsRetry, ErrNoBlock
	}
	return r.VMBlock, r.IsRetry, r.Err
}

// VerifyError marks a generated block that the verifier refused.
type VerifyError struct{ Msg string }

func (e *VerifyError) Error() string { return "verifier refused: " + e.Msg }

// Wire encodes and decodes a block the way the network does.
func Wire(b *ledger.AccountBlock) (*ledger.AccountBlock, error) {
	buf, err := b.Serialize()
	if err != nil {
		return nil, err
	}
	n := &ledger.AccountBlock{}
	if err := n.Deserialize(buf); err != nil {
		return nil, err
	}
	return n, nil
}

// Verify passes a block through the wire encoding and the pool verifier and
// returns the re-executed block.
func (w *World) Verify(b *ledger.AccountBlock) (*interfaces.VmAccountBlock, error) {
	n, err := Wire(b)
	if err != nil {
		return nil, &VerifyError{"wire: " + err.Error()}
	}
	if err := w.Verifier.VerifyNetAccountBlock(n); err != nil {
		return nil, &VerifyError{"net: " + err.Error()}
	}
	task, vb, err := w.Verifier.VerifyPoolAccountBlock(n, w.Chain.GetLatestSnapshotBlock())
	if err != nil {
		return nil, &VerifyError{err.Error()}
	}
	if task != nil {
		return nil, &VerifyError{"pending"}
	}
	return vb, nil
}

// Insert verifies and inserts a generated block and returns the inserted block.
func (w *World) Insert(vb *interfaces.VmAccountBlock) (*ledger.AccountBlock, error) {
	v, err := w.Verify(vb.AccountBlock)
	if err != nil {
		return nil, err
	}
	if err := w.Chain.InsertAccountBlock(v); err != nil {
		return nil, fmt.Errorf("insert: %v", err)
	}
	return v.AccountBlock, nil
}

func (w *World) Send(a Account, to types.Address, tok types.TokenTypeId, amount *big.Int, data []byte) (*ledger.AccountBlock, error) {
	vb, err := w.GenSend(a, ledger.BlockTypeSendCall, &to, tok, amount, data, nil)
	if err != nil {
		return nil, err
	}
	return w.Insert(vb)
}

func (w *World) Create(a Account, amount *big.Int, tok types.TokenTypeId, code []byte, conf, seedConf, mult uint8) (*ledger.AccountBlock, error) {
	data := util.GetCreateContractData(code, util.SolidityPPContractType, conf, seedConf, mult, types.DELEGATE_GID)
	vb, err := w.GenSend(a, ledger.BlockTypeSendCreate, nil, tok, amount, data, nil)
	if err != nil {
		return nil, err
	}
	return w.Insert(vb)
}

// Recv receives a send block; execErr is the execution result of a contract.
func (w *World) Recv(a Account, send *ledger.AccountBlock) (b *ledger.AccountBlock, retry bool, execErr error, err error) {
	vb, retry, e := w.GenRecv(a, send, nil)
	if vb == nil {
		return nil, retry, e, e
	}
	b, err = w.Insert(vb)
	return b, retry, e, err
}

// MakeSnapshot builds the next snapshot block over content.
func (w *World) MakeSnapshot(content ledger.SnapshotContent, withSeed bool) *ledger.SnapshotBlock {
	prev := w.Chain.GetLatestSnapshotBlock()
	if w.Now <= prev.Timestamp.Unix() {
		w.Now = prev.Timestamp.Unix() + 1
	}
	ts := time.Unix(w.Now, 0)
	sb := &ledger.SnapshotBlock{PrevHash: prev.Hash, Height: prev.Height + 1, Timestamp: &ts, SnapshotContent: content}
	pt := upgrade.GetLatestPoint()
	if pt != nil {
		if cur := upgrade.GetCurPoint(sb.Height); cur != nil {
			sb.Version = cur.Version
		}
	}
	if withSeed {
		last, err := w.Chain.GetLastUnpublishedSeedSnapshotHeader(w.SBPAcc.Addr, ts)
		if err != nil {
			panic(err)
		}
		if last != nil && last.SeedHash != nil {
			// reveal the seed that belongs to the committed hash
			for s := uint64(1); s <= w.seed; s++ {
				h := ledger.ComputeSeedHash(s, last.PrevHash, last.Timestamp)
				if h == *last.SeedHash {
					sb.Seed = s
				}
			}
		}
		w.seed++
		h := ledger.ComputeSeedHash(w.seed, sb.PrevHash, sb.Timestamp)
		sb.SeedHash = &h
	}
	sb.Hash = sb.ComputeHash()
	sig, pub, _ := w.SBPAcc.Sign(sb.Hash.Bytes())
	sb.Signature, sb.PublicKey = sig, pub
	return sb
}

// Snapshot snapshots everything that is unconfirmed.
func (w *World) Snapshot(withSeed bool) (*ledger.SnapshotBlock, []*ledger.AccountBlock, error) {
	return w.SnapshotOf(w.Chain.GetContentNeedSnapshot(), withSeed)
}

func (w *World) SnapshotOf(content ledger.SnapshotContent, withSeed bool) (*ledger.SnapshotBlock, []*ledger.AccountBlock, error) {
	sb := w.MakeSnapshot(content, withSeed)
	buf, err := sb.Serialize()
	if err != nil {
		return nil, nil, err
	}
	n := &ledger.SnapshotBlock{}
	if err := n.Deserialize(buf); err != nil {
		return nil, nil, err
	}
	if err := w.Verifier.VerifyNetSnapshotBlock(n); err != nil {
		return nil, nil, fmt.Errorf("snapshot refused: %v", err)
	}
	st := w.Verifier.VerifyReferred(n)
	if st.VerifyResult() != verifier.SUCCESS {
		return nil, nil, fmt.Errorf("snapshot refused: %v %v", st.VerifyResult(), st.ErrMsg())
	}
	bad, err := w.Chain.InsertSnapshotBlock(n)
	if err != nil {
		return nil, nil, err
	}
	w.Now = n.Timestamp.Unix() + 1
	return n, bad, nil
}

var _ = crypto.Hash256

// DivU splits an amount into whole units and the rest.
func DivU(x *big.Int) (int64, int64) {
	q, m := new(big.Int).QuoRem(x, Unit, new(big.Int))
	return q.Int64(), m.Int64()
}

func Time(sec int64) time.Time { return time.Unix(sec, 0) }
