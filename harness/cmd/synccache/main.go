// Command synccache replays behaviours of specs/Sync on the cache of downloaded ledger segments.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"time"

	"github.com/golang/snappy"
	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	chain_block "github.com/vitelabs/go-vite/v2/ledger/chain/block"
	sync_cache "github.com/vitelabs/go-vite/v2/ledger/chain/sync_cache"
	"github.com/vitelabs/go-vite/v2/log15"
	"github.com/vitelabs/go-vite/v2/zz_verif/run"
)

type seg [3]int
type obs struct {
	S   seg
	St  string
	Ver bool
}

func (o *obs) UnmarshalJSON(b []byte) error {
	var x []json.RawMessage
	if err := json.Unmarshal(b, &x); err != nil {
		return err
	}
	for i, p := range []interface{}{&o.S, &o.St, &o.Ver} {
		if err := json.Unmarshal(x[i], p); err != nil {
			return err
		}
	}
	return nil
}

type step struct {
	A  string `json:"a"`
	S  seg    `json:"s"`
	Ok bool   `json:"ok"`
	O  struct {
		Done []obs `json:"done"`
	} `json:"o"`
}

type content struct {
	raw  []byte
	abs  []*ledger.AccountBlock
	sbs  []*ledger.SnapshotBlock
	kind []byte
}
type node struct {
	c     *run.Ctx
	rnd   *rand.Rand
	dir   string
	cache interfaces.SyncCache
	open  map[seg]io.WriteCloser
	at    map[seg]int
	data  map[seg]*content
	files map[seg]string
}

func hash(x ...interface{}) types.Hash { return types.DataHash([]byte(fmt.Sprint(x...))) }

// real gives the segment: tag and height determine the hashes.
func real(s seg) interfaces.Segment {
	return interfaces.Segment{From: uint64(s[0]), To: uint64(s[1]), PrevHash: hash(s[0]-1, s[2]), Hash: hash(s[1], s[2])}
}

func (n *node) unit(d *content, typ byte, payload []byte) {
	z := snappy.Encode(nil, payload)
	b := make([]byte, 5, 5+len(z))
	binary.BigEndian.PutUint32(b, uint32(1+len(z)))
	b[4] = typ
	d.raw = append(d.raw, append(b, z...)...)
	d.kind = append(d.kind, typ)
}

func (n *node) make(s seg) *content {
	d := &content{}
	for h := s[0]; h <= s[1]; h++ {
		for k := n.rnd.Intn(3); k > 0; k-- {
			data := make([]byte, n.rnd.Intn([]int{40, 300, 20000}[n.rnd.Intn(3)]+1))
			n.rnd.Read(data)
			a := &ledger.AccountBlock{BlockType: ledger.BlockTypeSendCall, Hash: hash("a", h, s[2], k, n.rnd.Int()), Height: uint64(k), Amount: big.NewInt(int64(h)), Fee: big.NewInt(0), Data: data}
			b, err := a.Serialize()
			if err != nil {
				run.Infra("%v", err)
			}
			d.abs = append(d.abs, a)
			n.unit(d, chain_block.BlockTypeAccountBlock, b)
		}
		t := time.Unix(int64(1600000000+h), 0)
		sb := &ledger.SnapshotBlock{Hash: hash(h, s[2]), PrevHash: hash(h-1, s[2]), Height: uint64(h), Timestamp: &t}
		b, err := sb.Serialize()
		if err != nil {
			run.Infra("%v", err)
		}
		d.sbs = append(d.sbs, sb)
		n.unit(d, chain_block.BlockTypeSnapshotBlock, b)
	}
	return d
}

func (n *node) start() {
	c, err := sync_cache.NewSyncCache(n.dir)
	n.c.Op(err, "NewSyncCache")
	n.cache, n.open, n.at = c, map[seg]io.WriteCloser{}, map[seg]int{}
}

func (n *node) list() map[string]bool {
	m := map[string]bool{}
	fs, _ := os.ReadDir(n.dir)
	for _, f := range fs {
		if !f.IsDir() {
			m[f.Name()] = true
		}
	}
	return m
}

func (n *node) put(s seg, all bool) {
	d := n.data[s].raw
	for {
		o := n.at[s]
		k := len(d) - o
		if k == 0 {
			return
		}
		if !all || k > 3000 {
			k = n.rnd.Intn(k) + 1
		}
		m, err := n.open[s].Write(d[o : o+k])
		n.c.Op(err, "write")
		n.c.Check("cache", m == k, "%d of %d bytes written", m, k)
		n.at[s] += k
		if !all {
			return
		}
	}
}

func (n *node) read(s seg, want bool, verified bool, verify bool) {
	c := n.c
	r, err := n.cache.NewReader(real(s))
	if !want {
		c.Check("cache", err != nil, "a reader of segment %v is given, it is not there", s)
		if err == nil {
			r.Close()
		}
		return
	}
	c.Check("cache", err == nil, "reader of segment %v: %v", s, err)
	if err != nil {
		return
	}
	d := n.data[s]
	c.Check("cache", r.Size() == int64(len(d.raw)), "segment %v has size %d, expected %d", s, r.Size(), len(d.raw))
	c.Check("cache", r.Verified() == verified, "segment %v verified is %v", s, r.Verified())
	ai, si := 0, 0
	for i := 0; ; i++ {
		ab, sb, err := r.Read()
		if err == io.EOF {
			c.Check("cache", i == len(d.kind), "segment %v ends after %d of %d blocks", s, i, len(d.kind))
			break
		}
		if err != nil || i >= len(d.kind) {
			c.Fail("cache", "segment %v, block %d of %d: %v", s, i, len(d.kind), err)
			break
		}
		if d.kind[i] == chain_block.BlockTypeAccountBlock {
			x := d.abs[ai]
			ai++
			c.Check("cache", sb == nil && ab != nil && ab.Hash == x.Hash && ab.Height == x.Height && bytes.Equal(ab.Data, x.Data) && ab.Amount.Cmp(x.Amount) == 0, "segment %v: account block %d differs", s, ai)
		} else {
			x := d.sbs[si]
			si++
			c.Check("cache", ab == nil && sb != nil && sb.Hash == x.Hash && sb.PrevHash == x.PrevHash && sb.Height == x.Height && sb.Timestamp.Equal(*x.Timestamp), "segment %v: snapshot block %d differs", s, si)
		}
	}
	if verify {
		r.Verify()
		c.Check("cache", r.Verified(), "segment %v is not verified", s)
	}
	c.Op(r.Close(), "close reader")
}

func (n *node) do(s *step) {
	c := n.c
	switch s.A {
	case "begin":
		if s.Ok {
			n.data[s.S] = n.make(s.S)
		}
		d := n.data[s.S]
		sz := int64(1)
		if d != nil {
			sz = int64(len(d.raw))
		}
		before := n.list()
		w, err := n.cache.NewWriter(real(s.S), sz)
		c.Check("cache", (err == nil) == s.Ok, "a writer of segment %v: %v, expected %v", s.S, err, s.Ok)
		if err == nil && s.Ok {
			n.open[s.S], n.at[s.S] = w, 0
			for f := range n.list() {
				if !before[f] {
					n.files[s.S] = f
				}
			}
		}
	case "put":
		n.put(s.S, false)
	case "finish":
		n.put(s.S, true)
		c.Op(n.open[s.S].Close(), "close writer")
		delete(n.open, s.S)
	case "verify":
		r, err := n.cache.NewReader(real(s.S))
		c.Op(err, "NewReader")
		v := r.Verified()
		r.Close()
		n.read(s.S, true, v, true)
	case "delete":
		err := n.cache.Delete(real(s.S))
		c.Check("cache", (err == nil) == s.Ok, "deleting segment %v: %v, expected %v", s.S, err, s.Ok)
	case "lose":
		if f := n.files[s.S]; f != "" {
			if err := os.Remove(filepath.Join(n.dir, f)); err != nil {
				run.Infra("%v", err)
			}
		}
	case "restart":
		c.Op(n.cache.Close(), "close cache")
		n.start()
	}
	// what is there
	var want []seg
	for _, o := range s.O.Done {
		want = append(want, o.S)
	}
	sort.Slice(want, func(i, j int) bool { return want[i][0] < want[j][0] })
	cs := n.cache.Chunks()
	c.Check("cache", len(cs) == len(want), "the cache lists %d segments, expected %v", len(cs), want)
	for i := range want {
		if i < len(cs) {
			c.Check("cache", cs[i].Equal(real(want[i])), "segment %d of the cache is %v, expected %v", i, cs[i], want[i])
		}
	}
	for _, o := range s.O.Done {
		n.read(o.S, o.St == "done", o.Ver, false)
		x := o.S
		x[2] = 3 - x[2]
		n.read(x, false, false, false)
	}
	if s.A == "read" {
		if !s.Ok {
			n.read(s.S, false, false, false)
		}
	}
	for x := range n.open {
		n.read(x, false, false, false)
	}
}

func one(c *run.Ctx, line []byte) {
	var steps []step
	if err := json.Unmarshal(line, &steps); err != nil {
		run.Infra("%v", err)
	}
	dir := c.Scratch("sync")
	defer os.RemoveAll(dir)
	n := &node{c: c, rnd: rand.New(rand.NewSource(int64(len(line)))), dir: dir + "/cache", data: map[seg]*content{}, files: map[seg]string{}}
	n.start()
	for i := range steps {
		if steps[i].A == "init" {
			continue
		}
		c.Step = i + 1
		c.Notes[steps[i].A]++
		n.do(&steps[i])
	}
	n.cache.Close()
}

func main() {
	log15.Root().SetHandler(log15.DiscardHandler())
	run.Main(one)
}
