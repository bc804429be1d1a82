package main

import (
	"fmt"
	"os"
	"time"

	"github.com/vitelabs/go-vite/v2/zz_verif/world"
)

func main() {
	t0 := time.Now()
	dir, _ := os.MkdirTemp("/tmp", "smoke")
	defer os.RemoveAll(dir)
	w := world.New(dir, world.Options{Users: 3, Deployers: 2, OnRoad: true, Plugins: true})
	fmt.Println("open", time.Since(t0))
	b, err := w.Send(w.Users[0], w.Users[1].Addr, world.Vite, world.U(5), []byte("hello"))
	fmt.Println(b != nil, err)
	r, retry, xe, err := w.Recv(w.Users[1], b)
	fmt.Println(r != nil, retry, xe, err)
	c, err := w.Create(w.Deployers[0], world.U(3), world.Vite, world.InitCode(0), 0, 0, 10)
	fmt.Println(c != nil, err, c.ToAddress == w.Contracts[0])
	sb, bad, err := w.Snapshot(true)
	fmt.Println(sb != nil, bad, err)
	r, retry, xe, err = w.Recv(w.Users[1], c)
	fmt.Println("create recv", r != nil, retry, xe, err)
	u1 := w.Users[1].Addr
	call, err := w.Send(w.Users[0], c.ToAddress, world.Vite, world.U(2), world.CallData(0,
		world.Round{Key: 1, Add: 5, To: &u1, Token: world.Vite, Amount: world.U(1), Topic: 77}))
	fmt.Println("call", call != nil, err)
	r, retry, xe, err = w.Recv(w.Users[1], call)
	fmt.Println("call recv", r != nil, retry, xe, err)
	if r != nil {
		fmt.Println(len(r.SendBlockList), r.LogHash != nil, r.QuotaUsed)
		v, e := w.Chain.GetValue(c.ToAddress, world.StorageKey(1))
		fmt.Println(v, e)
	}
	for mode := 1; mode <= 3; mode++ {
		call, err = w.Send(w.Users[0], c.ToAddress, world.Vite, world.U(2), world.CallData(mode,
			world.Round{Key: 1, Add: 5, To: &u1, Token: world.Vite, Amount: world.U(1), Topic: 77}))
		fmt.Println("call", call != nil, err)
		r, retry, xe, err = w.Recv(w.Users[1], call)
		fmt.Println("call recv", r != nil, retry, xe, err)
		if r != nil {
			fmt.Println(r.BlockType, len(r.SendBlockList), r.LogHash != nil, r.QuotaUsed)
			v, e := w.Chain.GetValue(c.ToAddress, world.StorageKey(1))
			fmt.Println(v, e)
		}
	}
	sb, bad, err = w.Snapshot(true)
	fmt.Println(sb != nil, bad, err)
	t1 := time.Now()
	w.Flush()
	fmt.Println("flush", time.Since(t1))
	t1 = time.Now()
	dir2 := dir + "x"
	world.CopyDir(dir, dir2)
	w.Reopen(dir2)
	fmt.Println("reopen", time.Since(t1), w.Chain.GetLatestSnapshotBlock().Height)
	t1 = time.Now()
	ch, err := w.Chain.DeleteSnapshotBlocksToHeight(3)
	fmt.Println("del", time.Since(t1), len(ch), err, w.Chain.GetLatestSnapshotBlock().Height)
	w.Close()
}
