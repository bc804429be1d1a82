// Command store replays behaviours of specs/Store on the chain's key-value store.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"

	leveldb "github.com/vitelabs/go-vite/v2/common/db/xleveldb"
	"github.com/vitelabs/go-vite/v2/common/db/xleveldb/opt"
	"github.com/vitelabs/go-vite/v2/common/db/xleveldb/util"
	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	chain_db "github.com/vitelabs/go-vite/v2/ledger/chain/db"
	"github.com/vitelabs/go-vite/v2/vm_db"
	"github.com/vitelabs/go-vite/v2/zz_verif/run"
)

type step struct {
	A    string   `json:"a"`
	ID   int      `json:"id"`
	IDs  []int    `json:"ids"`
	B    [][2]int `json:"b"`
	View []int    `json:"view"`
	Over []int    `json:"over"`
}

// keys in byte order, 1..8
var keys = []string{"", "\x00", "a", "a\x00", "ab", "a\xff", "b", "b\xff\xff", "\xff"}

func value(v int) []byte {
	if v == 0 {
		return nil
	}
	return bytes.Repeat([]byte(fmt.Sprintf("v%d.", v)), 1+(v*7)%40)
}

func hash(id int) types.Hash { return types.DataHash([]byte(fmt.Sprint("block ", id))) }

func batch(b [][2]int) *leveldb.Batch {
	x := new(leveldb.Batch)
	for _, w := range b {
		if w[1] == 0 {
			x.Delete([]byte(keys[w[0]]))
		} else {
			x.Put([]byte(keys[w[0]]), value(w[1]))
		}
	}
	return x
}

type kv struct{ k, v []byte }

func entries(view []int, from, to int) []kv { // keys from..to-1
	var r []kv
	for k := from; k < to; k++ {
		if view[k-1] != 0 {
			r = append(r, kv{[]byte(keys[k]), value(view[k-1])})
		}
	}
	return r
}

type stub struct {
	vm_db.Chain
	s *chain_db.Store
}

func (s *stub) GetValue(_ types.Address, key []byte) ([]byte, error) { return s.s.Get(key) }
func (s *stub) GetStorageIterator(_ types.Address, prefix []byte) (interfaces.StorageIterator, error) {
	return s.s.NewIterator(util.BytesPrefix(prefix)), nil
}

type node struct {
	c    *run.Ctx
	rnd  *rand.Rand
	s    *chain_db.Store
	dir  string
	gen  int
	redo []byte
}

func (n *node) open(dir string) {
	db, err := leveldb.OpenFile(dir, &opt.Options{WriteBuffer: 2000, CompactionTableSize: 1500, CompactionTotalSize: 6000, BlockSize: 300})
	n.c.Op(err, "open")
	s, err := chain_db.NewStoreWithDb(dir, "verif", db)
	n.c.Op(err, "store")
	n.s, n.dir = s, dir
}

func (n *node) iter(what string, it interfaces.StorageIterator, want []kv, seek int) {
	c := n.c
	var got []kv
	add := func() {
		got = append(got, kv{append([]byte{}, it.Key()...), append([]byte{}, it.Value()...)})
	}
	switch seek {
	case -1: // forward
		for it.Next() {
			add()
		}
	case -2: // backward
		for ok := it.Last(); ok; ok = it.Prev() {
			add()
		}
		for i, j := 0, len(got)-1; i < j; i, j = i+1, j-1 {
			got[i], got[j] = got[j], got[i]
		}
	default:
		k := []byte(keys[seek])
		for ok := it.Seek(k); ok; ok = it.Next() {
			add()
		}
		var w []kv
		for _, e := range want {
			if bytes.Compare(e.k, k) >= 0 {
				w = append(w, e)
			}
		}
		want = w
	}
	c.Op(it.Error(), "iterator")
	it.Release()
	ok := len(got) == len(want)
	for i := range want {
		ok = ok && bytes.Equal(got[i].k, want[i].k) && bytes.Equal(got[i].v, want[i].v)
	}
	c.Check("store", ok, "%s (direction or seek %d) gives %d entries %q, not %q", what, seek, len(got), got, want)
}

func (n *node) dir3() int {
	switch n.rnd.Intn(3) {
	case 0:
		return -1
	case 1:
		return -2
	}
	return 1 + n.rnd.Intn(8)
}

func (n *node) observe(view []int) {
	c := n.c
	for k := 1; k <= 8; k++ {
		v, err := n.s.Get([]byte(keys[k]))
		c.Op(err, "Get")
		c.Check("store", bytes.Equal(v, value(view[k-1])), "key %d holds %q, not %q", k, v, value(view[k-1]))
		h, err := n.s.Has([]byte(keys[k]))
		c.Op(err, "Has")
		c.Check("store", h == (view[k-1] != 0), "Has of key %d is %v", k, h)
	}
	n.iter("all keys", n.s.NewIterator(&util.Range{}), entries(view, 1, 9), n.dir3())
	a, b := 1+n.rnd.Intn(8), 1+n.rnd.Intn(8)
	if a > b {
		a, b = b, a
	}
	n.iter("range", n.s.NewIterator(&util.Range{Start: []byte(keys[a]), Limit: []byte(keys[b])}), entries(view, a, b), []int{-1, -2}[n.rnd.Intn(2)])
	n.iter("prefix", n.s.NewIterator(util.BytesPrefix([]byte("a"))), entries(view, 2, 6), []int{-1, -2}[n.rnd.Intn(2)])
}

func (n *node) vm(s step) {
	c := n.c
	addr := types.Address{1}
	vdb := vm_db.NewVmDbByAddr(&stub{s: n.s}, &addr)
	for _, w := range s.B {
		c.Op(vdb.SetValue([]byte(keys[w[0]]), value(w[1])), "SetValue")
	}
	for k := 1; k <= 8; k++ {
		v, err := vdb.GetValue([]byte(keys[k]))
		c.Op(err, "GetValue")
		c.Check("store", bytes.Equal(v, value(s.Over[k-1])), "over the store key %d holds %q, not %q", k, v, value(s.Over[k-1]))
		v, err = vdb.GetOriginalValue([]byte(keys[k]))
		c.Op(err, "GetOriginalValue")
		c.Check("store", bytes.Equal(v, value(s.View[k-1])), "the original value of key %d is %q, not %q", k, v, value(s.View[k-1]))
	}
	for _, p := range []struct {
		p    string
		a, b int
	}{{"", 1, 9}, {"a", 2, 6}, {"b", 6, 8}} {
		it, err := vdb.NewStorageIterator([]byte(p.p))
		c.Op(err, "iterator")
		n.iter("contract storage "+p.p, it, entries(s.Over, p.a, p.b), []int{-1, -2, 1 + n.rnd.Intn(8)}[n.rnd.Intn(3)])
	}
	last := map[string][]byte{}
	for _, w := range s.B {
		last[keys[w[0]]] = value(w[1])
	}
	un := vdb.GetUnsavedStorage()
	c.Check("store", len(un) == len(last), "%d unsaved writes, not %d", len(un), len(last))
	for _, e := range un {
		v, ok := last[string(e[0])]
		c.Check("store", ok && bytes.Equal(v, e[1]), "unsaved write of %q is %q", e[0], e[1])
	}
	vdb.Reset()
	c.Check("store", len(vdb.GetUnsavedStorage()) == 0, "unsaved writes after a reset")
	v, err := vdb.GetValue([]byte(keys[s.B[0][0]]))
	c.Op(err, "GetValue")
	c.Check("store", bytes.Equal(v, value(s.View[s.B[0][0]-1])), "after a reset key %d holds %q", s.B[0][0], v)
}

func copyDir(from, to string) {
	if err := os.MkdirAll(to, 0755); err != nil {
		run.Infra("mkdir: %v", err)
	}
	ds, err := os.ReadDir(from)
	if err != nil {
		run.Infra("readdir: %v", err)
	}
	for _, d := range ds {
		if d.Name() == "LOCK" {
			continue
		}
		b, err := os.ReadFile(filepath.Join(from, d.Name()))
		if err != nil {
			if os.IsNotExist(err) {
				continue
			}
			run.Infra("read: %v", err)
		}
		if err := os.WriteFile(filepath.Join(to, d.Name()), b, 0644); err != nil {
			run.Infra("write: %v", err)
		}
	}
}

func main() {
	run.Main(func(c *run.Ctx, line []byte) {
		var steps []step
		if err := json.Unmarshal(line, &steps); err != nil {
			run.Infra("trace: %v", err)
		}
		n := &node{c: c, rnd: rand.New(rand.NewSource(c.Seed + int64(len(line))))}
		n.open(c.Scratch("s0"))
		for i, s := range steps {
			c.Step = i + 1
			c.Notes[s.A]++
			switch s.A {
			case "block":
				n.s.WriteAccountBlock(batch(s.B), &ledger.AccountBlock{Hash: hash(s.ID)})
			case "snap":
				var bs []*ledger.AccountBlock
				for _, id := range s.IDs {
					bs = append(bs, &ledger.AccountBlock{Hash: hash(id)})
				}
				n.s.WriteSnapshot(batch(s.B), bs)
			case "rollacct":
				n.s.RollbackAccountBlocks(batch(s.B), []*ledger.AccountBlock{{Hash: hash(s.ID)}})
			case "rollsnap":
				n.s.RollbackSnapshot(batch(s.B))
			case "direct":
				n.s.WriteDirectly(batch(s.B))
			case "prepare":
				n.s.Prepare()
			case "cancel":
				n.s.CancelPrepare()
			case "redo":
				r, err := n.s.RedoLog()
				c.Op(err, "RedoLog")
				n.redo = append([]byte{}, r...)
			case "commit":
				c.Op(n.s.Commit(), "Commit")
			case "after":
				n.s.AfterCommit()
				n.redo = nil
			case "compact":
				c.Op(n.s.CompactRange(util.Range{}), "CompactRange")
			case "vm":
				n.vm(s)
			case "crash":
				n.gen++
				to := c.Scratch(fmt.Sprint("s", n.gen))
				c.Op(n.s.CompactRange(util.Range{}), "CompactRange") // nothing is being compacted while the files are copied
				copyDir(n.dir, to)
				n.s.Close()
				os.RemoveAll(n.dir)
				n.open(to)
				if n.redo != nil {
					n.s.BeforeRecover(n.redo)
					c.Op(n.s.PatchRedoLog(n.redo), "PatchRedoLog")
					n.s.AfterRecover()
					n.redo = nil
				}
			}
			n.observe(s.View)
		}
		n.s.Close()
		os.RemoveAll(n.dir)
	})
}
