// Command vm replays behaviours of specs/VM: contracts with generated code and
// the calls they execute, on a complete node core.
package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/crypto/blake2b"
	"golang.org/x/crypto/sha3"

	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/vm"
	"github.com/vitelabs/go-vite/v2/vm_db"
	"github.com/vitelabs/go-vite/v2/zz_verif/run"
	"github.com/vitelabs/go-vite/v2/zz_verif/world"
)

type bs []int

type lg struct {
	Topics []bs `json:"topics"`
	Data   bs   `json:"data"`
}

type snd struct {
	To   bs `json:"to"`
	Tok  bs `json:"tok"`
	Amt  bs `json:"amt"`
	Data bs `json:"data"`
}

type sym struct {
	K string `json:"k"`
	D bs     `json:"d"`
}

type step struct {
	A     string  `json:"a"`
	What  string  `json:"what"`
	Code  bs      `json:"code"`
	Mode  string  `json:"mode"`
	Data  bs      `json:"data"`
	Amt   int64   `json:"amt"`
	Good  bool    `json:"good"`
	Out   string  `json:"out"`
	Used  uint64  `json:"used"`
	Logs  []lg    `json:"logs"`
	Sends []snd   `json:"sends"`
	Syms  []sym   `json:"syms"`
	Ret   bs      `json:"ret"`
	Held  int64   `json:"held"`
	Bal   int64   `json:"bal"`
	Sto   [][2]bs `json:"sto"`
}

type env struct {
	w      *world.World
	self   types.Address
	caller types.Address
	value  *big.Int
	time   int64
	height uint64
	token  types.TokenTypeId
	prev   *ledger.AccountBlock
	from   types.Hash
	held   int64
	sends  []*ledger.AccountBlock
}

func left(b []byte) []byte { return append(make([]byte, 32-len(b)), b...) }

// value of the k-th unknown of a call
func (e *env) sym(s sym, syms []sym) []byte {
	u := func(x uint64) []byte { return left(new(big.Int).SetUint64(x).Bytes()) }
	switch s.K {
	case "keccak":
		h := sha3.NewLegacyKeccak256()
		h.Write(e.bytes(s.D, syms))
		return h.Sum(nil)
	case "blake2b":
		h := blake2b.Sum256(e.bytes(s.D, syms))
		return h[:]
	case "address":
		return left(e.self.Bytes())
	case "caller":
		return left(e.caller.Bytes())
	case "value":
		return left(e.value.Bytes())
	case "timestamp":
		return u(uint64(e.time))
	case "height":
		return u(e.height)
	case "token":
		return left(e.token.Bytes())
	case "accheight":
		return u(e.prev.Height)
	case "prevhash":
		return e.prev.Hash.Bytes()
	case "fromhash":
		return e.from.Bytes()
	case "balance":
		if bytes.Equal(e.bytes(s.D, syms), left(world.Vite.Bytes())) {
			return u(uint64(e.held))
		}
		return u(0)
	case "send":
		if i := s.D[0] - 1; i < len(e.sends) {
			return e.sends[i].Hash.Bytes()
		}
		return make([]byte, 32)
	}
	run.Infra("unknown symbol " + s.K)
	return nil
}

func (e *env) bytes(b bs, syms []sym) []byte {
	r := make([]byte, len(b))
	for i, x := range b {
		if x < 256 {
			r[i] = byte(x)
		} else {
			r[i] = e.sym(syms[(x-256)/32], syms)[(x-256)%32]
		}
	}
	return r
}

func plain(b bs) []byte {
	r := make([]byte, len(b))
	for i, x := range b {
		r[i] = byte(x)
	}
	return r
}

func initCode(rt []byte) []byte {
	n, off := len(rt), 15
	return append([]byte{0x61, byte(n >> 8), byte(n), 0x61, 0, byte(off), 0x60, 0, 0x39, 0x61, byte(n >> 8), byte(n), 0x60, 0, 0xf3}, rt...)
}

func main() {
	run.Main(func(c *run.Ctx, line []byte) {
		var steps []*step
		if err := json.Unmarshal(line, &steps); err != nil {
			run.Infra(err.Error())
		}
		dir := c.Scratch("w")
		defer os.RemoveAll(dir)
		w := world.New(dir, world.Options{Users: 1, Deployers: 1, OnRoad: true})
		defer w.Close()
		u, d := w.Users[0], w.Deployers[0]
		snap := func() *ledger.SnapshotBlock {
			sb, _, err := w.Snapshot(false)
			c.Op(err, "snapshot")
			return sb
		}
		var self world.Account
		blocked := false
		for i, s := range steps {
			c.Step = i + 1
			c.Notes[s.A+" "+s.Mode+" "+s.Out]++
			if s.A == "deploy" {
				b, err := w.Create(d, big.NewInt(0), world.Vite, initCode(plain(s.Code)), 1, 0, 10)
				c.Op(err, "create")
				snap()
				self = world.Account{Addr: b.ToAddress}
				r, _, xerr, err := w.Recv(self, b)
				c.Op(err, "receive create")
				c.Check("result", xerr == nil && r.BlockType == ledger.BlockTypeReceive, "creation of the contract fails: %v", xerr)
				snap()
				got, err := w.Chain.GetContractCode(self.Addr)
				c.Op(err, "code")
				c.Check("effects", len(got) == len(s.Code)+1 && bytes.Equal(got[1:], plain(s.Code)), "code of the contract is %x", got)
				continue
			}
			prev, err := w.Chain.GetLatestAccountBlock(self.Addr)
			c.Op(err, "latest")
			e := &env{w: w, self: self.Addr, caller: u.Addr, value: big.NewInt(s.Amt), token: world.Vite, held: s.Held, prev: prev}
			if s.Mode == "off" {
				sb := w.Chain.GetLatestSnapshotBlock()
				db, err := vm_db.NewVmDb(w.Chain, &self.Addr, &sb.Hash, &prev.Hash)
				c.Op(err, "vmdb")
				code, err := w.Chain.GetContractCode(self.Addr)
				c.Op(err, "code")
				ret, err := vm.NewVM(nil).OffChainReader(db, code[1:], plain(s.Data))
				ok := s.Out == "stop" || s.Out == "return" || s.Out == "revert"
				c.Check("read", (err == nil) == ok, "a reading that should end with %q gives error %v", s.Out, err)
				if ok {
					want := e.bytes(s.Ret, s.Syms)
					c.Check("read", bytes.Equal(ret, want), "a reading returns\n%s instead of\n%s", hex.EncodeToString(ret), hex.EncodeToString(want))
				}
				c.Check("read", len(db.GetUnsavedStorage()) == 0 && len(db.GetLogList()) == 0, "a reading writes")
				continue
			}
			b, err := w.Send(u, self.Addr, world.Vite, big.NewInt(s.Amt), plain(s.Data))
			c.Op(err, "send")
			sb := snap()
			e.time, e.height, e.from = sb.Timestamp.Unix(), sb.Height, b.Hash
			if blocked {
				// out of quota: nothing is executed until that is confirmed 75 times
				for n := 2; n < 75; n++ {
					if n == 2 || n == 74 {
						r, retry, xerr, _ := w.Recv(self, b)
						c.Check("result", r == nil && retry, "a call is executed %d snapshots after one that ran out of quota: %v", n, xerr)
						c.Notes["waits"]++
					}
					snap()
				}
			}
			blocked = s.Out == "quota"
			r, retry, xerr, err := w.Recv(self, b)
			if r == nil {
				c.Fail("result", "the call is not executed: %v (retry %v); the machine should end with %q", xerr, retry, s.Out)
			}
			c.Op(err, "receive")
			e.sends = r.SendBlockList
			switch {
			case s.Out == "quota":
				c.Check("result", r.BlockType == ledger.BlockTypeReceiveError, "the call should run out of quota: type %d, %v, quota %d", r.BlockType, xerr, r.QuotaUsed)
			case s.Good:
				c.Check("result", r.BlockType == ledger.BlockTypeReceive && len(r.Data) == 33 && r.Data[32] == 0, "the call should succeed: type %d, data %x, %v", r.BlockType, r.Data, xerr)
			default:
				c.Check("result", r.BlockType == ledger.BlockTypeReceive && len(r.Data) == 33 && r.Data[32] == 1, "the call should fail (%s): type %d, data %x, %v", s.Out, r.BlockType, r.Data, xerr)
			}
			c.Check("quota", r.QuotaUsed == s.Used, "the call uses %d quota, not %d (%s)", r.QuotaUsed, s.Used, s.Out)
			// logs
			var logs ledger.VmLogList
			if r.LogHash != nil {
				logs, err = w.Chain.GetVmLogList(r.LogHash)
				c.Op(err, "logs")
			}
			var sends []snd
			var wl []lg
			if s.Good {
				wl, sends = s.Logs, s.Sends
			}
			c.Check("effects", len(logs) == len(wl), "%d logs, not %d", len(logs), len(wl))
			for i, l := range logs {
				c.Check("effects", len(l.Topics) == len(wl[i].Topics), "log %d has %d topics", i, len(l.Topics))
				for j, t := range l.Topics {
					want := e.bytes(wl[i].Topics[j], s.Syms)
					c.Check("effects", bytes.Equal(t.Bytes(), want), "topic %d of log %d is %s, not %x", j, i, t, want)
				}
				want := e.bytes(wl[i].Data, s.Syms)
				if steps[0].What == "sar" {
					c.Check("result", !bytes.Equal(l.Data, bytes.Repeat([]byte{255}, 32)), "the arithmetic right shift (SAR) of 0 by 256 gives -1")
				}
				c.Check("effects", bytes.Equal(l.Data, want), "log %d holds\n%s instead of\n%s", i, hex.EncodeToString(l.Data), hex.EncodeToString(want))
			}
			// sends; a failed call gives the attached value back
			if !s.Good && s.Amt > 0 {
				c.Check("effects", len(r.SendBlockList) == 1 && r.SendBlockList[0].ToAddress == u.Addr && r.SendBlockList[0].Amount.Cmp(big.NewInt(s.Amt)) == 0, "the value is not given back: %d sends", len(r.SendBlockList))
			} else {
				c.Check("effects", len(r.SendBlockList) == len(sends), "%d sends, not %d", len(r.SendBlockList), len(sends))
				for i, b := range r.SendBlockList {
					x := sends[i]
					c.Check("effects", bytes.Equal(left(b.ToAddress.Bytes()), plain(x.To)) && bytes.Equal(left(b.TokenId.Bytes()), plain(x.Tok)) && bytes.Equal(left(b.Amount.Bytes()), plain(x.Amt)),
						"send %d is %s %s of %s", i, b.ToAddress, b.Amount, b.TokenId)
					c.Check("effects", bytes.Equal(b.Data, e.bytes(x.Data, s.Syms)), "send %d carries %x, not %x", i, b.Data, e.bytes(x.Data, s.Syms))
				}
			}
			// storage and balance
			var want, have []string
			for _, kv := range s.Sto {
				want = append(want, fmt.Sprintf("%x=%x", plain(kv[0]), bytes.TrimLeft(plain(kv[1]), "\x00")))
			}
			it, err := w.Chain.GetStorageIterator(self.Addr, nil)
			c.Op(err, "storage")
			for it.Next() {
				have = append(have, fmt.Sprintf("%x=%x", it.Key(), it.Value()))
			}
			it.Release()
			sort.Strings(want)
			sort.Strings(have)
			c.Check("effects", strings.Join(want, " ") == strings.Join(have, " "), "storage is %v, not %v", have, want)
			bal, err := w.Chain.GetBalance(self.Addr, world.Vite)
			c.Op(err, "balance")
			c.Check("effects", bal.Cmp(big.NewInt(s.Bal)) == 0, "balance is %s, not %d", bal, s.Bal)
			snap()
		}
	})
}
