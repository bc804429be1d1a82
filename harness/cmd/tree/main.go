// Command tree replays behaviours of specs/Tree on the pool's tree.
package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"time"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/ledger/pool/tree"
	"github.com/vitelabs/go-vite/v2/log15"
	"github.com/vitelabs/go-vite/v2/zz_verif/run"
)

type knot struct {
	id        int
	h         uint64
	hash, prv types.Hash
}

func (k *knot) Height() uint64       { return k.h }
func (k *knot) Hash() types.Hash     { return k.hash }
func (k *knot) PrevHash() types.Hash { return k.prv }

func hashOf(id int) types.Hash {
	if id == 0 {
		return types.Hash{}
	}
	return types.DataHash([]byte(fmt.Sprintf("block %d", id)))
}

// disk stands for the chain on disk, as the pool's branchChain does.
type disk struct{ c []*knot }

func (d *disk) head() *knot {
	if len(d.c) == 0 {
		return &knot{}
	}
	return d.c[len(d.c)-1]
}
func (d *disk) MatchHead(h types.Hash) bool { return d.head().hash == h }
func (d *disk) SprintTail() string          { return "disk" }
func (d *disk) SprintHead() string          { return fmt.Sprint(d.head().id) }
func (d *disk) UTime() time.Time            { return time.Now() }
func (d *disk) GetKnot(h uint64, _ bool) tree.Knot {
	if h == 0 {
		return &knot{}
	}
	if h > uint64(len(d.c)) {
		return nil
	}
	return d.c[h-1]
}
func (d *disk) GetHash(h uint64, f bool) *types.Hash {
	k := d.GetKnot(h, f)
	if k == nil {
		return nil
	}
	x := k.Hash()
	return &x
}
func (d *disk) GetKnotAndBranch(h uint64) (tree.Knot, tree.Branch)    { return d.GetKnot(h, true), d }
func (d *disk) GetHashAndBranch(h uint64) (*types.Hash, tree.Branch)  { return d.GetHash(h, true), d }
func (d *disk) ContainsKnot(h uint64, hash types.Hash, f bool) bool   { panic("disk.ContainsKnot") }
func (d *disk) HeadHH() (uint64, types.Hash)                          { return d.head().h, d.head().hash }
func (d *disk) TailHH() (uint64, types.Hash)                          { panic("disk.TailHH") }
func (d *disk) Linked(tree.Branch) bool                               { panic("disk.Linked") }
func (d *disk) Size() uint64                                          { return d.head().h }
func (d *disk) Root() tree.Branch                                     { panic("disk.Root") }
func (d *disk) ID() string                                            { return "disk" }
func (d *disk) Type() tree.BranchType                                 { return tree.Disk }

type leaf struct {
	Id     int
	Path   []int
	Common int
}

func (d *leaf) UnmarshalJSON(b []byte) error {
	x := []interface{}{&d.Id, &d.Path, &d.Common}
	return json.Unmarshal(b, &x)
}

type step struct {
	A  string `json:"a"`
	Id int    `json:"id"`
	P  int    `json:"p"`
	N  int    `json:"n"`
	O  struct {
		Disk   []int  `json:"disk"`
		Head   int    `json:"head"`
		Wait   []int  `json:"wait"`
		Leaves []leaf `json:"leaves"`
		Main   []int  `json:"main"`
	} `json:"o"`
}

func main() {
	log15.Root().SetHandler(log15.DiscardHandler())
	run.Main(replay)
}

func branches(t tree.Tree) []tree.Branch {
	var r []tree.Branch
	for _, b := range t.Branches() {
		r = append(r, b)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].ID() < r[j].ID() })
	return r
}

func replay(c *run.Ctx, line []byte) {
	var st []step
	if err := json.Unmarshal(line, &st); err != nil {
		run.Infra("%v", err)
	}
	d := &disk{}
	ks := map[int]*knot{0: {}}
	mk := func(id, p int) *knot {
		k := &knot{id, ks[p].h + 1, hashOf(id), hashOf(p)}
		ks[id] = k
		return k
	}
	for i := 1; i <= 3; i++ {
		d.c = append(d.c, mk(i, i-1))
	}
	var t tree.Tree = tree.NewTree()
	c.Op(t.Init("t", d), "init")
	byHead := func(k *knot) tree.Branch {
		for _, b := range branches(t) {
			if h, hash := b.HeadHH(); h == k.h && hash == k.hash {
				return b
			}
		}
		return nil
	}
	path := func(b tree.Branch) []int {
		var r []int
		h, _ := b.HeadHH()
		for i := uint64(1); i <= h; i++ {
			k := b.GetKnot(i, true)
			if k == nil {
				r = append(r, -1)
				continue
			}
			r = append(r, k.(*knot).id)
			x := b.GetHash(i, true)
			c.Check("tree", x != nil && *x == k.Hash(), "GetHash and GetKnot of branch %s differ at %d", b.ID(), i)
			k2, _ := b.GetKnotAndBranch(i)
			c.Check("tree", k2 != nil && k2.Hash() == k.Hash(), "GetKnotAndBranch and GetKnot of branch %s differ at %d", b.ID(), i)
		}
		return r
	}
	for i := range st {
		s := &st[i]
		c.Step = i + 1
		switch s.A {
		case "add": // what the pool does with a snippet of one block
			p := ks[s.P]
			k := mk(s.Id, s.P)
			b := tree.Branch(nil)
			if _, h := t.Main().HeadHH(); h == p.hash {
				b = t.Main()
			} else {
				b = byHead(p)
			}
			if b == nil {
				f := t.FindBranch(p.h, p.hash)
				if p.h <= uint64(len(d.c)) && d.c[p.h-1] == p {
					f = t.Main()
				}
				if f == nil {
					c.Fail("tree", "block %d is in no branch", s.P)
				}
				b = t.ForkBranch(f, p.h, p.hash)
			}
			c.Op(t.AddHead(b, k), "add %d", s.Id)
		case "insert", "insnew":
			k := ks[s.Id]
			if s.A == "insnew" {
				k = mk(s.Id, s.P)
			}
			d.c = append(d.c, k)
			c.Op(t.RootHeadAdd(k), "insert %d", s.Id)
		case "switch":
			b := byHead(ks[s.Id])
			if b == nil {
				c.Fail("tree", "no branch ends at block %d", s.Id)
			}
			c.Op(t.SwitchMainTo(b), "switch to %d", s.Id)
		case "empty":
			c.Op(t.SwitchMainToEmpty(), "empty")
		case "roll":
			cut := d.c[len(d.c)-s.N:]
			d.c = d.c[:len(d.c)-s.N]
			for j := len(cut) - 1; j >= 0; j-- {
				c.Op(t.AddTail(t.Main(), cut[j]), "roll back %d", cut[j].id)
			}
		case "prune":
			t.PruneTree()
		}
		// main
		m := t.Main()
		c.Check("tree", m.Linked(d), "main does not continue the chain on disk")
		got := path(m)
		c.Check("tree", fmt.Sprint(got) == fmt.Sprint(s.O.Main), "main leads through %v, not %v", got, s.O.Main)
		// every leaf is reached by a branch through its ancestors
		for _, l := range s.O.Leaves {
			b := byHead(ks[l.Id])
			c.Check("tree", b != nil, "no branch ends at block %d", l.Id)
			if b == nil {
				break
			}
			got := path(b)
			c.Check("tree", fmt.Sprint(got) == fmt.Sprint(l.Path), "the branch to block %d leads through %v, not %v", l.Id, got, l.Path)
			_, f, err := t.FindForkPointFromMain(b)
			c.Check("tree", err == nil && f != nil && f.(*knot).id == l.Common, "main and the branch to %d part at %v (%v), not %d", l.Id, f, err, l.Common)
		}
		// and every branch leads through a chain of blocks
		for _, b := range branches(t) {
			p := path(b)
			for j := range p {
				c.Check("tree", p[j] > 0 && ks[p[j]].h == uint64(j+1) && (j == 0 || ks[p[j]].prv == hashOf(p[j-1])), "branch %s leads through %v", b.ID(), p)
			}
		}
		wait := map[int]bool{}
		for _, id := range s.O.Wait {
			wait[id] = true
			c.Check("tree", t.Exists(hashOf(id)), "block %d waits and is not known", id)
			c.Check("tree", t.FindBranch(ks[id].h, hashOf(id)) != nil, "block %d waits and is in no branch", id)
		}
		c.Check("tree", !t.Exists(hashOf(len(ks)+1)), "a block that never came is known")
		for _, id := range s.O.Disk {
			if t.Exists(hashOf(id)) {
				c.Notes["unpruned"]++
			}
		}
		if err := tree.CheckTree(t); err != nil {
			c.Notes["checktree"]++
		}
		if s.A == "prune" {
			c.Check("tree", tree.CheckTree(t) == nil, "after pruning: %v", tree.CheckTree(t))
			for _, id := range s.O.Disk {
				if t.Exists(hashOf(id)) {
					c.Notes["unpruned-after"]++
				}
			}
		}
	}
}
