// Command batch replays behaviours of specs/Batch on the pool's batches.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"sync"
	"time"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/ledger/pool/batch"
	"github.com/vitelabs/go-vite/v2/log15"
	"github.com/vitelabs/go-vite/v2/zz_verif/run"
)

type item struct {
	id, prev int
	h        uint64
	o        *types.Address
	refs     []int
	snap     bool
}

func hashOf(id int) types.Hash { return types.DataHash([]byte(fmt.Sprintf("item %d", id))) }

// a contract's receive also stands for the block it sends
func sendOf(id int) types.Hash { return types.DataHash([]byte(fmt.Sprintf("send %d", id))) }

func (i *item) Owner() *types.Address { return i.o }
func (i *item) Hash() types.Hash      { return hashOf(i.id) }
func (i *item) Height() uint64        { return i.h }
func (i *item) PrevHash() types.Hash {
	if i.prev == 0 {
		return types.Hash{}
	}
	return hashOf(i.prev)
}
func (i *item) ReferHashes() ([]types.Hash, []types.Hash, *types.Hash) {
	keys := []types.Hash{i.Hash(), sendOf(i.id)}
	var acc []types.Hash
	for _, r := range i.refs {
		if i.snap || r%2 == 0 {
			acc = append(acc, hashOf(r))
		} else {
			acc = append(acc, sendOf(r))
		}
	}
	if i.snap {
		p := i.PrevHash()
		return keys, acc, &p
	}
	if i.prev != 0 {
		if i.id%3 == 0 {
			acc = append([]types.Hash{i.PrevHash()}, acc...)
		} else {
			acc = append(acc, i.PrevHash())
		}
	}
	return keys, acc, nil
}

type must struct {
	Id int
	M  []int
}

func (d *must) UnmarshalJSON(b []byte) error {
	x := []interface{}{&d.Id, &d.M}
	return json.Unmarshal(b, &x)
}

type step struct {
	A    string `json:"a"`
	Id   int    `json:"id"`
	O    string `json:"o"`
	Prev int    `json:"prev"`
	Refs []int  `json:"refs"`
	M    []must `json:"m"`
	Fail int    `json:"fail"`
}

func main() {
	log15.Root().SetHandler(log15.DiscardHandler())
	run.Main(replay)
}

var errFail = errors.New("this one fails")

func replay(c *run.Ctx, line []byte) {
	var st []step
	if err := json.Unmarshal(line, &st); err != nil {
		run.Infra("%v", err)
	}
	rnd := rand.New(rand.NewSource(c.Seed))
	its := map[int]*item{1: {id: 1, h: 1, snap: true}}
	var mu sync.Mutex
	chain := map[int]bool{1: true}
	byHash := map[types.Hash]int{hashOf(1): 1, sendOf(1): 1}
	exists := func(h types.Hash) error {
		mu.Lock()
		defer mu.Unlock()
		if chain[byHash[h]] {
			return nil
		}
		return errors.New("not found")
	}
	max := []int{50, 50, 3, 8}[rnd.Intn(4)]
	ver := uint64(7)
	nb := func() batch.Batch { return batch.NewBatch(exists, exists, ver, max) }
	b := nb()
	var offered []int // in this batch
	// exec runs the batch; fail is the item whose insertion fails, musts what has to be in before
	exec := func(fail int, musts map[int][]int) {
		var bad string
		done := map[int]bool{}
		running := 0
		stopped := false
		delays := make([]time.Duration, 8)
		for i := range delays {
			if rnd.Intn(3) == 0 {
				delays[i] = time.Duration(rnd.Intn(200)) * time.Microsecond
			}
		}
		say := func(f string, a ...interface{}) {
			if bad == "" {
				bad = fmt.Sprintf(f, a...)
			}
		}
		fn := func(snap bool) batch.BucketExecutorFn {
			return func(p batch.Batch, l batch.Level, bk batch.Bucket, v uint64) error {
				mu.Lock()
				defer mu.Unlock()
				running++
				defer func() { running-- }()
				if v != ver {
					say("version %d", v)
				}
				if l.Snapshot() != snap || snap != (bk.Owner() == nil) {
					say("snapshot blocks and account blocks are mixed up")
				}
				if stopped && l.HasDone() {
					say("a level runs again")
				}
				for _, x := range bk.Items() {
					it := x.(*item)
					if snap && running > 1 {
						say("snapshot block %d is inserted beside another", it.id)
					}
					if done[it.id] || chain[it.id] {
						say("block %d is inserted twice", it.id)
					}
					if (it.o == nil) != (bk.Owner() == nil) || (it.o != nil && *it.o != *bk.Owner()) {
						say("block %d is in the bucket of another account", it.id)
					}
					for _, r := range append(append([]int{}, it.refs...), it.prev) {
						if r != 0 && !done[r] && !chain[r] {
							say("block %d is inserted before block %d that it refers to", it.id, r)
						}
					}
					for _, r := range musts[it.id] {
						if !done[r] && !chain[r] {
							say("block %d is inserted before block %d", it.id, r)
						}
					}
					mu.Unlock()
					time.Sleep(delays[it.id%len(delays)])
					mu.Lock()
					if it.id == fail {
						stopped = true
						return errFail
					}
					done[it.id] = true
				}
				return nil
			}
		}
		err := b.Batch(fn(true), fn(false))
		c.Check("batch", bad == "", "%s", bad)
		if fail == 0 {
			c.Check("batch", err == nil, "running the batch: %v", err)
			c.Check("batch", len(done) == len(offered), "%d blocks are inserted, not %d", len(done), len(offered))
		} else {
			c.Check("batch", err == errFail, "the batch hides that block %d failed: %v", fail, err)
			after := map[int]bool{fail: true}
			for _, id := range offered {
				for _, m := range musts[id] {
					if after[m] {
						after[id] = true
					}
				}
			}
			for id := range done {
				c.Check("batch", !after[id], "block %d is inserted though block %d before it failed", id, fail)
			}
		}
		var left []int
		for _, id := range offered {
			if done[id] {
				chain[id] = true
			} else {
				left = append(left, id)
			}
		}
		offered = left
		b = nb()
	}
	var offer func(id int)
	add := func(id int) error {
		if its[id].snap {
			return b.AddSItem(its[id])
		}
		var sh *types.Hash
		if rnd.Intn(2) == 0 {
			h := hashOf(0)
			sh = &h
		}
		return b.AddAItem(its[id], sh)
	}
	offer = func(id int) {
		err := add(id)
		if err == batch.ErrorArrivedToMax {
			c.Notes["full"]++
			exec(0, nil)
			err = add(id)
		}
		c.Check("batch", err == nil, "block %d is refused: %v", id, err)
		c.Check("batch", b.Exists(hashOf(id)) && b.Exists(sendOf(id)), "block %d is not in the batch", id)
		offered = append(offered, id)
	}
	addr := func(o string) *types.Address {
		var a types.Address
		copy(a[:], "account-"+o)
		return &a
	}
	for i := range st {
		s := &st[i]
		c.Step = i + 1
		switch s.A {
		case "make":
			it := &item{id: s.Id, prev: s.Prev, refs: s.Refs, snap: s.O == "s", h: 1}
			if s.Prev != 0 {
				it.h = its[s.Prev].h + 1
			}
			if !it.snap {
				it.o = addr(s.O)
			}
			its[s.Id] = it
			byHash[hashOf(s.Id)] = s.Id
			byHash[sendOf(s.Id)] = s.Id
		case "offer":
			offer(s.Id)
		case "refuse":
			err := add(s.Id)
			c.Check("batch", err != nil, "block %d is taken though what it refers to is missing", s.Id)
			c.Check("batch", !b.Exists(hashOf(s.Id)), "block %d was refused and is in the batch", s.Id)
		case "run":
			ms := map[int][]int{}
			for _, m := range s.M {
				ms[m.Id] = m.M
			}
			n := 0
			for _, l := range b.Levels() {
				n += l.Size()
			}
			c.Check("batch", n == len(offered), "the levels hold %d blocks, not %d", n, len(offered))
			f := 0
			for _, id := range offered {
				if id == s.Fail {
					f = id
				}
			}
			exec(f, ms)
			if len(offered) > 0 { // the pool tries again what is left
				l := offered
				offered = nil
				for _, id := range l {
					offer(id)
				}
				exec(0, ms)
			}
		}
	}
}
