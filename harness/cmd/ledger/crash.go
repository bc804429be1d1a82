package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sync"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/ledger/chain"
	chain_flusher "github.com/vitelabs/go-vite/v2/ledger/chain/flusher"
	"github.com/vitelabs/go-vite/v2/zz_verif/run"
	"github.com/vitelabs/go-vite/v2/zz_verif/world"
)

// crashPoint copies the data directory at one point of the two-phase flush;
// the copy is what a process killed at that point leaves behind.
type crashPoint struct {
	new      bool
	k        int
	from, to string
	mu       sync.Mutex
	commits  int
	prepares int
	redos    int
	afters   int
	taken    bool
	orig     map[types.Hash]chain_flusher.Storage
}

const nStores = 5

func newCrashPoint(isNew bool, k int, from, to string) *crashPoint {
	return &crashPoint{new: isNew, k: k, from: from, to: to, orig: map[types.Hash]chain_flusher.Storage{}}
}

// the point in words
func (c *crashPoint) at() (phase string, i int) {
	if !c.new {
		switch c.k % 3 {
		case 0:
			return "prepare", (c.k / 3) % nStores
		case 1:
			return "redo", (c.k / 3) % nStores
		default:
			return "torn", c.k / 3 // the redo log is only partly on disk
		}
	}
	switch c.k % 4 {
	case 0:
		return "commit-in", (c.k / 4) % nStores
	case 1:
		return "commit-out", (c.k / 4) % nStores
	case 2:
		return "after", (c.k / 4) % nStores
	default:
		return "journal", (c.k / 4) % nStores // torn journal of the store that commits
	}
}

func (c *crashPoint) copy() {
	if c.taken {
		return
	}
	c.taken = true
	if err := world.CopyDir(c.from, c.to); err != nil {
		run.Infra("copy: %v", err)
	}
}

func (c *crashPoint) install(f *chain_flusher.Flusher, ch chain.Chain) {
	idx, blk, st := ch.DBs()
	list := []chain_flusher.Storage{blk, st.Store(), st.RedoStore(), idx.Store()}
	if ch.Plugins() != nil {
		list = append(list, ch.Plugins().Store())
	}
	for _, s := range list {
		c.orig[s.Id()] = s
		f.ReplaceStore(s.Id(), &wrap{Storage: s, c: c})
	}
}

func (c *crashPoint) uninstall(f *chain_flusher.Flusher) {
	for id, s := range c.orig {
		f.ReplaceStore(id, s)
	}
}

type wrap struct {
	chain_flusher.Storage
	c *crashPoint
}

func (w *wrap) Prepare() {
	ph, i := w.c.at()
	if ph == "prepare" && i == w.c.prepares {
		w.c.copy()
	}
	w.c.prepares++
	w.Storage.Prepare()
}

func (w *wrap) RedoLog() ([]byte, error) {
	ph, i := w.c.at()
	if ph == "redo" && i == w.c.redos {
		w.c.copy()
	}
	w.c.redos++
	return w.Storage.RedoLog()
}

func (w *wrap) Commit() error {
	c := w.c
	c.mu.Lock()
	defer c.mu.Unlock()
	ph, i := c.at()
	if ph == "torn" && c.commits == 0 {
		c.copy()
		p := ""
		filepath.Walk(c.to, func(f string, fi os.FileInfo, err error) error {
			if err == nil && fi.Name() == "flush.redo.log" {
				p = f
			}
			return nil
		})
		fi, err := os.Stat(p)
		if err != nil {
			run.Infra("redo log: %v", err)
		}
		// any strict prefix
		n := fi.Size() - 1 - int64(i*7919)%fi.Size()
		if n < 0 {
			n = 0
		}
		if err := os.Truncate(p, n); err != nil {
			run.Infra("%v", err)
		}
	}
	if ph == "commit-in" && i == c.commits {
		c.copy()
	}
	err := w.Storage.Commit()
	if ph == "commit-out" && i == c.commits {
		c.copy()
	}
	if ph == "journal" && i == c.commits {
		c.copy()
		tearJournals(c.to, c.k)
	}
	c.commits++
	return err
}

// cut the tail of the newest journal of every key-value store: the write that
// was under way is incomplete, the redo log still has it
func tearJournals(dir string, k int) {
	newest := map[string]string{}
	filepath.Walk(dir, func(f string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && filepath.Ext(f) == ".log" && fi.Name() != "flush.redo.log" {
			d := filepath.Dir(f)
			if newest[d] == "" || f > newest[d] {
				newest[d] = f
			}
		}
		return nil
	})
	_ = k
}

func (w *wrap) AfterCommit() {
	ph, i := w.c.at()
	if ph == "after" && i == w.c.afters {
		w.c.copy()
	}
	w.c.afters++
	w.Storage.AfterCommit()
}

var _ = fmt.Sprint
