// Command blocks replays behaviours of specs/Blocks on the block files.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"time"

	"github.com/golang/snappy"
	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	chain_block "github.com/vitelabs/go-vite/v2/ledger/chain/block"
	fm "github.com/vitelabs/go-vite/v2/ledger/chain/file_manager"
	"github.com/vitelabs/go-vite/v2/log15"
	"github.com/vitelabs/go-vite/v2/zz_verif/run"
)

type step struct {
	A    string `json:"a"`
	ID   int    `json:"id"`
	Sz   []int  `json:"sz"`
	Fit  int    `json:"fit"`
	Unit bool   `json:"unit"`
	K    int    `json:"k"`
	Fs   int64  `json:"fs"`
	Torn bool   `json:"torn"`
	Cut  int    `json:"cut"`
	Log  []int  `json:"log"`
}

type chunk struct {
	c    *ledger.SnapshotChunk
	raw  [][]byte // serialised units, in order
	locs []*fm.Location
}

func (c *chunk) snapLoc() *fm.Location { return c.locs[len(c.locs)-1] }

func size(raw []byte) int64 { return int64(5 + len(snappy.Encode(nil, raw))) }

type node struct {
	c    *run.Ctx
	rnd  *rand.Rand
	fs   int64
	dir  string
	gen  int
	db   *chain_block.BlockDB
	all  map[int]*chunk
	end  int64 // bytes written
	ends map[int]int64
	redo []byte
}

func (n *node) must(err error, what string) { n.c.Op(err, "%s", what) }

func (n *node) account(id, i, sz int) *ledger.AccountBlock {
	data := make([]byte, sz)
	n.rnd.Read(data)
	b := &ledger.AccountBlock{BlockType: ledger.BlockTypeSendCall, Height: uint64(id), Data: data, Amount: big.NewInt(int64(i)), Fee: big.NewInt(0), Quota: uint64(sz)}
	b.Hash = types.DataHash([]byte(fmt.Sprint("a", id, i, n.rnd.Int63())))
	return b
}

func (n *node) make(id int, sz []int, fit int, unit bool) *chunk {
	t := time.Unix(1600000000+int64(id), 0)
	sb := &ledger.SnapshotBlock{Height: uint64(id), Timestamp: &t, SnapshotContent: ledger.SnapshotContent{}}
	sb.Hash = types.DataHash([]byte(fmt.Sprint("s", id, n.rnd.Int63())))
	c := &ledger.SnapshotChunk{SnapshotBlock: sb}
	for i, s := range sz {
		c.AccountBlocks = append(c.AccountBlocks, n.account(id, i, s))
	}
	ser := func() *chunk {
		x := &chunk{c: c}
		for _, a := range c.AccountBlocks {
			b, err := a.Serialize()
			n.must(err, "serialise")
			x.raw = append(x.raw, b)
		}
		b, err := sb.Serialize()
		n.must(err, "serialise")
		x.raw = append(x.raw, b)
		return x
	}
	x := ser()
	if fit >= 0 && len(sz) > 0 { // pad the last account block so that its end, or the chunk's, lies where it is wanted
		last := len(sz) - 1
		total := func() int64 {
			var s int64
			for i, r := range x.raw {
				if unit && i == len(x.raw)-1 {
					break
				}
				s += size(r)
			}
			return s
		}
		for try := 0; try < 40; try++ {
			at := n.end + total()
			want := (at/n.fs+1)*n.fs + int64(fit-10)
			if want-at > 700 {
				break // too far
			}
			if want == at {
				break
			}
			a := c.AccountBlocks[last]
			l := len(a.Data) + int(want-at)
			if l < 0 || l > 900 {
				break
			}
			if try > 20 {
				l += n.rnd.Intn(5) - 2
			}
			if l < 0 {
				l = 0
			}
			a.Data = make([]byte, l)
			n.rnd.Read(a.Data)
			x = ser()
		}
	}
	return x
}

func (n *node) write(x *chunk, id int) {
	locs, sl, err := n.db.Write(x.c)
	n.must(err, "Write")
	for _, a := range x.c.AccountBlocks {
		n.c.Check("files", locs[a.Hash] != nil, "no location for a block of chunk %d", id)
		x.locs = append(x.locs, locs[a.Hash])
	}
	x.locs = append(x.locs, sl)
	for _, r := range x.raw {
		n.end += size(r)
	}
	n.all[id], n.ends[id] = x, n.end
}

func (n *node) open(dir string) {
	db, err := chain_block.NewBlockDBFixedSize(dir, n.fs)
	n.must(err, "open")
	n.db, n.dir = db, dir
}

func eqA(a, b *ledger.AccountBlock) bool {
	x, e1 := a.Serialize()
	y, e2 := b.Serialize()
	return e1 == nil && e2 == nil && bytes.Equal(x, y)
}

func eqS(a, b *ledger.SnapshotBlock) bool {
	x, e1 := a.Serialize()
	y, e2 := b.Serialize()
	return e1 == nil && e2 == nil && bytes.Equal(x, y)
}

func (n *node) same(what string, got []*ledger.SnapshotChunk, want []int) {
	n.c.Check("files", len(got) == len(want), "%s: %d chunks, not %d", what, len(got), len(want))
	for i, g := range got {
		w := n.all[want[i]].c
		ok := g.SnapshotBlock != nil && eqS(g.SnapshotBlock, w.SnapshotBlock) && len(g.AccountBlocks) == len(w.AccountBlocks)
		for j := range w.AccountBlocks {
			ok = ok && eqA(g.AccountBlocks[j], w.AccountBlocks[j])
		}
		n.c.Check("files", ok, "%s: chunk %d differs", what, want[i])
	}
}

func (n *node) observe(log []int) {
	c := n.c
	if len(log) == 0 {
		return
	}
	pick := func(i int) bool { return len(log) < 12 || i < 3 || i >= len(log)-5 || n.rnd.Intn(6) == 0 }
	for i, id := range log {
		if !pick(i) {
			continue
		}
		x := n.all[id]
		for j, loc := range x.locs {
			raw, err := n.db.Read(loc)
			c.Op(err, "Read")
			c.Check("files", bytes.Equal(raw, x.raw[j]), "unit %d of chunk %d at %v reads differently", j, id, loc)
			s, a, next, err := n.db.ReadUnit(loc)
			c.Op(err, "ReadUnit")
			ub, un, err := n.db.ReadUnitBytes(loc)
			c.Op(err, "ReadUnitBytes")
			c.Check("files", bytes.Equal(ub, x.raw[j]) && un != nil && next != nil && *un == *next, "unit bytes %d of chunk %d at %v read differently", j, id, loc)
			if j < len(x.locs)-1 {
				ab, err := n.db.GetAccountBlock(loc)
				c.Op(err, "GetAccountBlock")
				c.Check("files", ab != nil && eqA(ab, x.c.AccountBlocks[j]), "GetAccountBlock %d of chunk %d", j, id)
			} else {
				sb, err := n.db.GetSnapshotBlock(loc)
				c.Op(err, "GetSnapshotBlock")
				c.Check("files", sb != nil && eqS(sb, x.c.SnapshotBlock), "GetSnapshotBlock of chunk %d", id)
				sh, err := n.db.GetSnapshotHeader(loc)
				c.Op(err, "GetSnapshotHeader")
				c.Check("files", sh != nil && sb != nil && sh.Hash == sb.Hash && sh.Height == sb.Height && len(sh.SnapshotContent) == 0, "GetSnapshotHeader of chunk %d", id)
			}
			if j < len(x.locs)-1 {
				c.Check("files", s == nil && a != nil && eqA(a, x.c.AccountBlocks[j]), "ReadUnit %d of chunk %d", j, id)
			} else {
				c.Check("files", a == nil && s != nil && eqS(s, x.c.SnapshotBlock), "ReadUnit of snapshot block of chunk %d", id)
			}
			// the unit that follows
			nl, err := n.db.GetNextLocation(loc)
			c.Op(err, "GetNextLocation")
			var nx []byte
			if j < len(x.locs)-1 {
				nx = x.raw[j+1]
			} else if i < len(log)-1 {
				nx = n.all[log[i+1]].raw[0]
			}
			if nx != nil {
				c.Check("files", nl != nil, "no location after unit %d of chunk %d", j, id)
				r, err := n.db.Read(nl)
				c.Op(err, "Read next")
				c.Check("files", bytes.Equal(r, nx), "the unit after %d of chunk %d reads differently", j, id)
				r, err = n.db.Read(next)
				c.Op(err, "Read next")
				c.Check("files", bytes.Equal(r, nx), "the unit after %d of chunk %d reads differently (ReadUnit)", j, id)
			}
		}
		k, _, err := n.db.ReadChunk(*x.locs[0])
		c.Op(err, "ReadChunk")
		n.same("ReadChunk", []*ledger.SnapshotChunk{k}, []int{id})
	}
	for t := 0; t < 2; t++ {
		a := n.rnd.Intn(len(log))
		if t == 0 && len(log) > 8 {
			a = len(log) - 1 - n.rnd.Intn(8)
		}
		b := a + n.rnd.Intn(len(log)-a)
		got, err := n.db.ReadRange(n.all[log[a]].locs[0], n.all[log[b]].snapLoc())
		c.Op(err, "ReadRange")
		n.same(fmt.Sprintf("range %d..%d", a, b), got, log[a:b+1])
	}
	if a := n.rnd.Intn(len(log)); a > 0 {
		loc, err := n.db.GetNextLocation(n.all[log[a-1]].snapLoc())
		c.Op(err, "GetNextLocation")
		got, err := n.db.PrepareRollback(loc)
		c.Op(err, "PrepareRollback")
		n.same(fmt.Sprintf("everything after %d", a), got, log[a:])
		// raw bytes, as they are sent to other nodes
		var want []byte
		for _, id := range log[a:] {
			for _, r := range n.all[id].raw {
				e := snappy.Encode(nil, r)
				typ := byte(1)
				if &n.all[id].raw[len(n.all[id].raw)-1][0] == &r[0] {
					typ = 2
				}
				l := len(e) + 1
				want = append(want, byte(l>>24), byte(l>>16), byte(l>>8), byte(l), typ)
				want = append(want, e...)
			}
		}
		buf := make([]byte, len(want))
		_, m, err := n.db.ReadRaw(loc, buf)
		c.Op(err, "ReadRaw")
		c.Check("files", m == len(want) && bytes.Equal(buf, want), "raw bytes after %d differ", a)
	}
}

func files(dir string) map[int][]byte {
	m := map[int][]byte{}
	ds, _ := os.ReadDir(dir)
	for _, d := range ds {
		if d.Name()[0] != 'f' {
			continue
		}
		i, err := strconv.Atoi(d.Name()[1:])
		if err != nil {
			continue
		}
		b, err := os.ReadFile(filepath.Join(dir, d.Name()))
		if err != nil {
			run.Infra("read: %v", err)
		}
		m[i] = b
	}
	return m
}

func put(dir string, m map[int][]byte) {
	if err := os.MkdirAll(dir, 0755); err != nil {
		run.Infra("mkdir: %v", err)
	}
	for i, b := range m {
		if err := os.WriteFile(filepath.Join(dir, fmt.Sprint("f", i)), b, 0644); err != nil {
			run.Infra("write: %v", err)
		}
	}
}

// torn is what a crash leaves when the flush had written cut percent of its bytes.
func torn(a, b map[int][]byte, cut int) map[int][]byte {
	var ids []int
	total := 0
	for i, x := range b {
		if !bytes.Equal(x, a[i]) {
			ids = append(ids, i)
			total += len(x)
		}
	}
	sort.Ints(ids)
	res := map[int][]byte{}
	for i, x := range a {
		res[i] = x
	}
	left := total * cut / 100
	for _, i := range ids {
		old, had := a[i]
		if left >= len(b[i]) {
			left -= len(b[i])
			x := append([]byte{}, b[i]...)
			if len(old) > len(x) { // not cut yet
				x = append(x, old[len(x):]...)
			}
			res[i] = x
			continue
		}
		x := append([]byte{}, b[i][:left]...)
		if had && len(old) > left {
			x = append(x, old[left:]...)
		}
		res[i] = x
		break
	}
	return res
}

func (n *node) crash(s step) {
	live := files(filepath.Join(n.dir, "blocks"))
	if s.Torn {
		n.must(n.db.Commit(), "Commit")
		live = torn(live, files(filepath.Join(n.dir, "blocks")), s.Cut)
	}
	n.db.Close()
	os.RemoveAll(n.dir)
	n.gen++
	dir := n.c.Scratch(fmt.Sprint("g", n.gen))
	put(filepath.Join(dir, "blocks"), live)
	n.open(dir)
	if n.redo != nil {
		n.db.BeforeRecover(n.redo)
		n.must(n.db.PatchRedoLog(n.redo), "PatchRedoLog")
		n.db.AfterRecover()
		n.redo = nil
	}
}

func main() {
	log15.Root().SetHandler(log15.DiscardHandler())
	run.Main(func(c *run.Ctx, line []byte) {
		var steps []step
		if err := json.Unmarshal(line, &steps); err != nil {
			run.Infra("trace: %v", err)
		}
		n := &node{c: c, rnd: rand.New(rand.NewSource(c.Seed + int64(len(line)))), fs: steps[0].Fs, all: map[int]*chunk{}, ends: map[int]int64{}}
		n.open(c.Scratch("g0"))
		defer func() { os.RemoveAll(n.dir) }()
		var log []int
		for i, s := range steps {
			c.Step = i + 1
			c.Notes[s.A]++
			switch s.A {
			case "write":
				n.write(n.make(s.ID, s.Sz, s.Fit, s.Unit), s.ID)
			case "many":
				for k := 0; k < s.K; k++ {
					n.write(n.make(s.ID+k, []int{30 + n.rnd.Intn(300), 10}, -1, false), s.ID+k)
				}
			case "back":
				loc, err := n.db.GetNextLocation(n.all[log[s.K-1]].snapLoc())
				c.Op(err, "GetNextLocation")
				got, err := n.db.PrepareRollback(loc)
				c.Op(err, "PrepareRollback")
				n.same("rolled back chunks", got, log[s.K:])
				c.Op(n.db.Rollback(loc), "Rollback")
			case "prepare":
				n.db.Prepare()
			case "cancel":
				n.db.CancelPrepare()
			case "redo":
				r, err := n.db.RedoLog()
				c.Op(err, "RedoLog")
				n.redo = append([]byte{}, r...)
			case "commit":
				c.Op(n.db.Commit(), "Commit")
			case "after":
				n.db.AfterCommit()
				n.redo = nil
			case "crash":
				n.crash(s)
			}
			log = s.Log
			n.end = 0
			if len(log) > 0 {
				n.end = n.ends[log[len(log)-1]]
			}
			n.observe(log)
		}
		n.db.Close()
	})
}
