package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/rpc"
	"github.com/vitelabs/go-vite/v2/rpcapi/api"
	"github.com/vitelabs/go-vite/v2/rpcapi/api/filters"
)

// events: filters that are polled now and then, and two slow subscribers that keep the events of several
// operations waiting. Whoever applies the messages one by one has the ledger at every moment.
type events struct {
	es   *filters.EventSystem
	api  *filters.SubscribeApi
	mu   sync.Mutex
	cond *sync.Cond
	open bool
	stop bool
	subs []*filters.RpcSubscription
	all  rpc.ID
	sb   rpc.ID
	acct map[string][2]rpc.ID
	road map[string][2]rpc.ID
	logs []*logFilter
	pass []rpc.ID // filters in use for a while only

	fAll  map[types.Hash]bool
	fSb   []types.Hash
	fAcct map[string][2][]types.Hash
	fRoad map[string][2]map[types.Hash]bool
}

type logFilter struct {
	id    rpc.ID
	old   bool
	param api.VmLogFilterParam
	acct  map[string][2]int
	topic map[int]bool
	set   map[string]int
}

func topicHash(t int) types.Hash {
	var h types.Hash
	h[31] = byte(t)
	return h
}

func (r *rep) evStart() {
	e := &events{acct: map[string][2]rpc.ID{}, road: map[string][2]rpc.ID{}, fAll: map[types.Hash]bool{},
		fAcct: map[string][2][]types.Hash{}, fRoad: map[string][2]map[types.Hash]bool{}}
	e.cond = sync.NewCond(&e.mu)
	e.open = true
	e.es = filters.NewEventSystem(r.w.Node)
	e.es.Start()
	filters.Es = e.es
	e.api = filters.NewSubscribeApi(r.w.Node)
	wait := func() bool {
		e.mu.Lock()
		defer e.mu.Unlock()
		for !e.open && !e.stop {
			e.cond.Wait()
		}
		return !e.stop
	}
	ach := make(chan []*filters.AccountBlock)
	as := e.es.SubscribeAccountBlocks(ach)
	sch := make(chan []*filters.SnapshotBlock)
	ss := e.es.SubscribeSnapshotBlocks(sch, filters.SnapshotBlocksSubscription)
	go func() {
		for wait() {
			select {
			case <-ach:
			case <-as.Err():
				return
			}
		}
	}()
	go func() {
		for wait() {
			select {
			case <-sch:
			case <-ss.Err():
				return
			}
		}
	}()
	id := func(id rpc.ID, err error) rpc.ID {
		r.Op(err, "create a filter")
		return id
	}
	e.all = id(e.api.NewAccountBlockFilter())
	e.sb = id(e.api.NewSnapshotBlockFilter())
	for _, a := range r.accts {
		e.acct[a] = [2]rpc.ID{id(e.api.NewAccountBlocksByAddrFilter(r.addr[a])), id(e.api.NewAccountBlockByAddressFilter(r.addr[a]))}
		e.road[a] = [2]rpc.ID{id(e.api.NewOnroadBlocksByAddrFilter(r.addr[a])), id(e.api.NewUnreceivedBlockByAddressFilter(r.addr[a]))}
	}
	all := map[string][2]int{}
	for _, a := range r.accts {
		if a[0] == 'c' {
			all[a] = [2]int{0, 0}
		}
	}
	e.logs = []*logFilter{
		{acct: all},
		{acct: map[string][2]int{"c1": {2, 4}, "c2": {3, 0}}, old: true},
		{acct: all, topic: map[int]bool{1: true, 3: true}},
	}
	for _, f := range e.logs {
		f.param = r.logParam(f.acct, f.topic)
		f.set = map[string]int{}
		if f.old {
			f.id = id(e.api.NewLogsFilter(filters.RpcFilterParam{AddrRange: f.param.AddrRange, Topics: f.param.Topics}))
		} else {
			f.id = id(e.api.NewVmLogFilter(f.param))
		}
		for k, n := range r.wantLogs(f) {
			f.set[k] = n
		}
	}
	// what the subscriber already has
	for _, a := range r.accts {
		var l [2][]types.Hash
		var m [2]map[types.Hash]bool
		for v := range l {
			m[v] = map[types.Hash]bool{}
			for h := 1; h <= len(r.o.Ids[a]); h++ {
				l[v] = append(l[v], r.block(a, h).b.Hash)
			}
			for _, sid := range r.o.Pend[a] {
				m[v][r.snd[sid].b.Hash] = true
			}
		}
		for _, h := range l[0] {
			e.fAll[h] = true
		}
		e.fAcct[a], e.fRoad[a] = l, m
	}
	for n := 0; n <= len(r.o.Sids); n++ {
		e.fSb = append(e.fSb, r.snapAt(n).Hash)
	}
	r.ev = e
}

func (r *rep) logParam(acct map[string][2]int, topic map[int]bool) api.VmLogFilterParam {
	p := api.VmLogFilterParam{AddrRange: map[string]*api.Range{}}
	for a, hr := range acct {
		p.AddrRange[r.addr[a].String()] = &api.Range{FromHeight: fmt.Sprint(hr[0]), ToHeight: fmt.Sprint(hr[1])}
	}
	if len(topic) > 0 {
		var l []types.Hash
		for t := range topic {
			l = append(l, topicHash(t))
		}
		p.Topics = [][]types.Hash{l}
	}
	return p
}

func logKey(h types.Hash, height string, a string, topic int) string {
	return fmt.Sprintf("%s of %s/%s: topic %d", h, a, height, topic)
}

// logs of the ledger that a filter selects
func (r *rep) wantLogs(f *logFilter) map[string]int {
	res := map[string]int{}
	for a, hr := range f.acct {
		for h := 1; h <= len(r.o.Ids[a]); h++ {
			if (hr[0] > 0 && h < hr[0]) || (hr[1] > 0 && h > hr[1]) {
				continue
			}
			x := r.block(a, h)
			for _, t := range x.log {
				if len(f.topic) == 0 || f.topic[t] {
					res[logKey(x.b.Hash, fmt.Sprint(h), a, t)]++
				}
			}
		}
	}
	return res
}

func (e *events) gate(open bool) {
	e.mu.Lock()
	e.open = open
	e.cond.Broadcast()
	e.mu.Unlock()
}

func (r *rep) evBefore(i int, restart bool) {
	if r.ev == nil {
		r.evStart()
	}
	if restart {
		r.evSync()
		r.ev.mu.Lock()
		r.ev.stop = true
		r.ev.cond.Broadcast()
		r.ev.mu.Unlock()
		r.ev.es.Stop()
		return
	}
	if i%6 == 0 {
		if i%12 == 0 {
			r.evPass()
		}
		r.ev.gate(false)
		e := r.ev
		time.AfterFunc(5*time.Second, func() { e.gate(true) })
	}
}

// filters of every kind which are given up again; the others must not notice
func (r *rep) evPass() {
	e := r.ev
	add := func(id rpc.ID, err error) {
		r.Op(err, "create a filter")
		e.pass = append(e.pass, id)
	}
	add(e.api.NewAccountBlockFilter())
	add(e.api.NewSnapshotBlockFilter())
	for _, a := range r.accts {
		add(e.api.NewAccountBlocksByAddrFilter(r.addr[a]))
		add(e.api.NewAccountBlockByAddressFilter(r.addr[a]))
		add(e.api.NewOnroadBlocksByAddrFilter(r.addr[a]))
		add(e.api.NewUnreceivedBlockByAddressFilter(r.addr[a]))
	}
	add(e.api.NewVmLogFilter(e.logs[0].param))
	add(e.api.NewLogsFilter(filters.RpcFilterParam{AddrRange: e.logs[0].param.AddrRange}))
}

func (r *rep) evPassed() {
	e := r.ev
	for _, id := range e.pass {
		r.Check("events", e.api.UninstallFilter(id), "a filter cannot be given up")
		r.Check("events", !e.api.UninstallFilter(id), "a filter can be given up twice")
		_, err := e.api.GetChangesByFilterId(id)
		r.Check("events", err != nil, "a filter answers after it was given up")
	}
	e.pass = nil
}

func (r *rep) evAfter(i int, restart, last bool) {
	if restart {
		r.evStart()
		return
	}
	if i%6 == 5 || last {
		r.evSync()
		if last {
			time.Sleep(3 * time.Millisecond)
			r.evSync()
		}
	}
}

// wait until the filters have delivered what the ledger holds
func (r *rep) evSync() {
	r.ev.gate(true)
	r.evPassed()
	var why string
	for t := 0; ; t++ {
		r.evPoll()
		if why = r.evDiff(); why == "" {
			break
		}
		if t > 4000 {
			r.Fail("events", "a subscriber that applies every message does not have the ledger: %s", why)
		}
		time.Sleep(time.Duration(t/200+1) * time.Millisecond)
	}
	r.Checks++
}

func (r *rep) evDiff() string {
	e := r.ev
	n := 0
	for _, a := range r.accts {
		n += len(r.o.Ids[a])
		for v := 0; v < 2; v++ {
			got := e.fAcct[a][v]
			if len(got) != len(r.o.Ids[a]) {
				return fmt.Sprintf("%d blocks of %s instead of %d", len(got), a, len(r.o.Ids[a]))
			}
			for i, h := range got {
				if h != r.block(a, i+1).b.Hash {
					return fmt.Sprintf("block %s/%d is another one", a, i+1)
				}
			}
			if len(e.fRoad[a][v]) != len(r.o.Pend[a]) {
				return fmt.Sprintf("%d unreceived sends to %s instead of %d", len(e.fRoad[a][v]), a, len(r.o.Pend[a]))
			}
			for _, sid := range r.o.Pend[a] {
				if !e.fRoad[a][v][r.snd[sid].b.Hash] {
					return fmt.Sprintf("unreceived send #%d to %s is missing", sid, a)
				}
			}
		}
		for h := 1; h <= len(r.o.Ids[a]); h++ {
			if !e.fAll[r.block(a, h).b.Hash] {
				return fmt.Sprintf("block %s/%d is missing", a, h)
			}
		}
	}
	if len(e.fAll) != n {
		return fmt.Sprintf("%d account blocks instead of %d", len(e.fAll), n)
	}
	if len(e.fSb) != len(r.o.Sids)+1 {
		return fmt.Sprintf("%d snapshot blocks instead of %d", len(e.fSb), len(r.o.Sids)+1)
	}
	for n := range e.fSb {
		if e.fSb[n] != r.snapAt(n).Hash {
			return fmt.Sprintf("snapshot block %d is another one", n+1)
		}
	}
	for i, f := range e.logs {
		want := r.wantLogs(f)
		var ks []string
		for k := range f.set {
			if f.set[k] != want[k] {
				ks = append(ks, k)
			}
		}
		for k := range want {
			if f.set[k] != want[k] {
				ks = append(ks, k)
			}
		}
		if len(ks) > 0 {
			sort.Strings(ks)
			return fmt.Sprintf("filter %d has log %s %d times instead of %d", i, ks[0], f.set[ks[0]], want[ks[0]])
		}
	}
	return ""
}

type chEv struct {
	h       types.Hash
	height  uint64
	removed bool
}

// a chain of blocks grows at its end; what is removed together is its end
func (r *rep) foldChain(l []types.Hash, evs []chEv, what string) []types.Hash {
	g := "events"
	hole := map[int]bool{}
	settle := func() {
		if len(hole) == 0 {
			return
		}
		n := len(l) - len(hole)
		for i := range hole {
			if i < n {
				r.Fail(g, "%s: block at height %d is removed below ones that stay", what, i+1)
			}
		}
		l = l[:n]
		hole = map[int]bool{}
	}
	for _, ev := range evs {
		if ev.removed {
			i := int(ev.height) - 1
			if i < 0 || i >= len(l) || l[i] != ev.h || hole[i] {
				r.Fail(g, "%s: removal of block %s at height %d, which the subscriber does not have", what, ev.h, ev.height)
			}
			hole[i] = true
			continue
		}
		settle()
		if int(ev.height) != len(l)+1 {
			r.Fail(g, "%s: a new block at height %d after height %d", what, ev.height, len(l))
		}
		l = append(l, ev.h)
	}
	settle()
	return l
}

func (r *rep) evPoll() {
	e := r.ev
	g := "events"
	get := func(id rpc.ID) interface{} {
		x, err := e.api.GetChangesByFilterId(id)
		r.Op(err, "poll a filter")
		return x
	}
	num := func(s string) uint64 {
		var n uint64
		fmt.Sscan(s, &n)
		return n
	}
	known := map[types.Hash]*blk{}
	for _, b := range r.blk {
		known[b.b.Hash] = b
	}
	for _, m := range get(e.all).(filters.AccountBlocksMsg).Blocks {
		r.Checks++
		if m.Removed {
			if !e.fAll[m.Hash] {
				r.Fail(g, "removal of account block %s, which the subscriber does not have", m.Hash)
			}
			delete(e.fAll, m.Hash)
			continue
		}
		if e.fAll[m.Hash] {
			r.Fail(g, "account block %s is announced twice", m.Hash)
		}
		b := known[m.Hash]
		if b == nil {
			r.Fail(g, "unknown account block %s is announced", m.Hash)
		}
		if b.b.Height > 1 && !e.fAll[b.b.PrevHash] {
			r.Fail(g, "account block %s/%d is announced before its predecessor", b.acct, b.b.Height)
		}
		if b.src != 0 && !e.fAll[r.blk[r.snd[b.src].owner].b.Hash] {
			r.Fail(g, "receive block %s/%d is announced before its send", b.acct, b.b.Height)
		}
		e.fAll[m.Hash] = true
	}
	var sbs []chEv
	for _, m := range get(e.sb).(filters.SnapshotBlocksMsgV2).Blocks {
		sbs = append(sbs, chEv{m.Hash, num(m.Height), m.Removed})
	}
	e.fSb = r.foldChain(e.fSb, sbs, "snapshot blocks")
	for _, a := range r.accts {
		var x, y []chEv
		for _, m := range get(e.acct[a][0]).(filters.AccountBlocksWithHeightMsg).Blocks {
			x = append(x, chEv{m.Hash, m.Height, m.Removed})
		}
		for _, m := range get(e.acct[a][1]).(filters.AccountBlocksWithHeightMsgV2).Blocks {
			y = append(y, chEv{m.Hash, num(m.Height), m.Removed})
		}
		l := e.fAcct[a]
		e.fAcct[a] = [2][]types.Hash{r.foldChain(l[0], x, "blocks of "+a), r.foldChain(l[1], y, "blocks of "+a+" (v2)")}
		road := func(set map[types.Hash]bool, h types.Hash, closed, removed bool) {
			r.Checks++
			if (closed || removed) != set[h] {
				r.Fail(g, "unreceived sends to %s: message %s closed=%v removed=%v, while the subscriber has it: %v", a, h, closed, removed, set[h])
			}
			if set[h] {
				delete(set, h)
			} else {
				set[h] = true
			}
		}
		for _, m := range get(e.road[a][0]).(filters.OnroadBlocksMsg).Blocks {
			road(e.fRoad[a][0], m.Hash, m.Closed, m.Removed)
		}
		for _, m := range get(e.road[a][1]).(filters.OnroadBlocksMsgV2).Blocks {
			road(e.fRoad[a][1], m.Hash, m.Received, m.Removed)
		}
	}
	for i, f := range e.logs {
		one := func(h types.Hash, height string, addr *types.Address, topics []types.Hash, removed bool) {
			r.Checks++
			if addr == nil || len(topics) != 1 {
				r.Fail(g, "log filter %d: message without address or topic", i)
			}
			k := logKey(h, height, r.name[*addr], int(topics[0][31]))
			if removed {
				f.set[k]--
				if f.set[k] < 0 {
					r.Fail(g, "log filter %d: removal of a log the subscriber does not have: %s", i, k)
				}
				if f.set[k] == 0 {
					delete(f.set, k)
				}
			} else {
				f.set[k]++
			}
		}
		if f.old {
			for _, m := range get(f.id).(filters.LogsMsg).Logs {
				one(m.AccountBlockHash, m.AccountHeight, m.Addr, m.Log.Topics, m.Removed)
			}
		} else {
			for _, m := range get(f.id).(filters.LogsMsgV2).Logs {
				one(m.AccountBlockHash, m.AccountHeight, m.Addr, m.Log.Topics, m.Removed)
			}
		}
	}
	_ = strings.Join
}
