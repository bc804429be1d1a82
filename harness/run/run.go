// Package run replays behaviours of a specification, one JSON array per line.
package run

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
)

// Ctx is the state of one replay.
type Ctx struct {
	Trace  int
	Step   int
	Dir    string // scratch directory of this replay
	Seed   int64
	Params map[string]string
	groups map[string]bool
	Checks int
	Notes  map[string]int
}

type failure struct{ group, msg string }

// On tells whether a group of observations is asked for.
func (c *Ctx) On(group string) bool { return len(c.groups) == 0 || c.groups[group] }

// Fail reports a violation and ends the replay.
func (c *Ctx) Fail(group, format string, a ...interface{}) {
	if !c.On(group) {
		return
	}
	panic(failure{group, fmt.Sprintf(format, a...)})
}

// Check compares one observation.
func (c *Ctx) Check(group string, ok bool, format string, a ...interface{}) {
	if !c.On(group) {
		return
	}
	c.Checks++
	if !ok {
		panic(failure{group, fmt.Sprintf(format, a...)})
	}
}

// Op checks that an operation of the node succeeded.
func (c *Ctx) Op(err error, format string, a ...interface{}) {
	c.Checks++
	if err != nil {
		panic(failure{"op", fmt.Sprintf(format, a...) + ": " + err.Error()})
	}
}

// Infra ends the whole run: the harness, not the code, is at fault.
func Infra(format string, a ...interface{}) {
	fmt.Printf("INFRA %s\n", fmt.Sprintf(format, a...))
	os.Exit(3)
}

// Main runs f on every behaviour of this shard.
func Main(f func(c *Ctx, line []byte)) {
	traces := flag.String("traces", "", "file with one behaviour per line")
	shard := flag.Int("shard", 0, "")
	of := flag.Int("of", 1, "")
	from := flag.Int("from", 0, "first behaviour")
	only := flag.Int("only", -1, "only this behaviour")
	groups := flag.String("groups", "", "")
	work := flag.String("work", "", "")
	seed := flag.Int64("seed", 1, "")
	params := flag.String("params", "", "k=v,k=v")
	flag.Parse()
	g := map[string]bool{}
	for _, s := range strings.Split(*groups, ",") {
		if s != "" {
			g[s] = true
		}
	}
	if len(g) > 0 {
		g["op"] = true
		g["panic"] = true
	}
	p := map[string]string{}
	for _, s := range strings.Split(*params, ",") {
		if k, v, ok := strings.Cut(s, "="); ok {
			p[k] = v
		}
	}
	fd, err := os.Open(*traces)
	if err != nil {
		Infra("%v", err)
	}
	rd := bufio.NewReaderSize(fd, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	for i := 0; ; i++ {
		line, err := rd.ReadBytes('\n')
		if len(line) == 0 && err != nil {
			break
		}
		if *only >= 0 && i != *only {
			continue
		}
		if *only < 0 && (i%*of != *shard || i < *from) {
			continue
		}
		dir, e := os.MkdirTemp(*work, fmt.Sprintf("t%d-", i))
		if e != nil {
			Infra("%v", e)
		}
		fmt.Fprintf(out, "START %d\n", i)
		out.Flush()
		c := &Ctx{Trace: i, Dir: dir, Seed: *seed*1000003 + int64(i), Params: p, groups: g, Notes: map[string]int{}}
		fl := one(c, f, line)
		os.RemoveAll(dir)
		n, _ := json.Marshal(c.Notes)
		if fl != nil {
			m, _ := json.Marshal(fl.msg)
			fmt.Fprintf(out, "FAIL %d %d %s %s\n", i, c.Step, fl.group, m)
		} else {
			fmt.Fprintf(out, "DONE %d %d %d %s\n", i, c.Step, c.Checks, n)
		}
		out.Flush()
	}
	fmt.Fprintln(out, "END")
	out.Flush()
}

func one(c *Ctx, f func(c *Ctx, line []byte), line []byte) (fl *failure) {
	defer func() {
		if r := recover(); r != nil {
			if x, ok := r.(failure); ok {
				fl = &x
				return
			}
			fl = &failure{"panic", fmt.Sprintf("%v\n%s", r, trim(string(debug.Stack())))}
		}
	}()
	f(c, line)
	return nil
}

func trim(s string) string {
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

// Scratch makes a fresh sub-directory.
func (c *Ctx) Scratch(name string) string {
	d := filepath.Join(c.Dir, name)
	if err := os.MkdirAll(d, 0755); err != nil {
		Infra("%v", err)
	}
	return d
}
