// Command wallet replays behaviours of specs/Wallet on the wallet manager.
package main

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha512"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/tyler-smith/go-bip39"
	"github.com/vitelabs/go-vite/v2/common/config"
	werr "github.com/vitelabs/go-vite/v2/common/errors"
	"github.com/vitelabs/go-vite/v2/common/types"
	vcrypto "github.com/vitelabs/go-vite/v2/crypto"
	"github.com/vitelabs/go-vite/v2/crypto/ed25519"
	"github.com/vitelabs/go-vite/v2/log15"
	"github.com/vitelabs/go-vite/v2/wallet"
	"github.com/vitelabs/go-vite/v2/wallet/entropystore"
	"github.com/vitelabs/go-vite/v2/wallet/hd-bip/derivation"
	"github.com/vitelabs/go-vite/v2/zz_verif/run"
	"golang.org/x/crypto/scrypt"
)

type store struct {
	Seed  int
	Place string
}

func (s *store) UnmarshalJSON(b []byte) error {
	var x []interface{}
	if err := json.Unmarshal(b, &x); err != nil {
		return err
	}
	s.Seed, s.Place = int(x[0].(float64)), x[1].(string)
	return nil
}

type step struct {
	A   string  `json:"a"`
	S   store   `json:"s"`
	P   int     `json:"p"`
	R   string  `json:"r"`
	X   string  `json:"x"`
	Rel bool    `json:"rel"`
	Q   int     `json:"q"`
	I   int     `json:"i"`
	In  []store `json:"in"`
	Max int     `json:"max"`
	O   struct {
		Files []store `json:"files"`
		Man   []store `json:"man"`
		Open  []store `json:"open"`
		Ev    []struct {
			S  store `json:"s"`
			Up bool  `json:"up"`
		} `json:"ev"`
	} `json:"o"`
}

var seeds = []string{"",
	"abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about",
	"legal winner thank year wave sausage worth useful legal winner thank year wave sausage worth useful legal winner thank year wave sausage worth title",
	"zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo wrong",
}
var passes = []string{"", "123456", "", "пароль 密码 🔑", strings.Repeat("a long passphrase ", 12)}

// key derives the secret of path m/44'/666666'/i' (SLIP-0010, ed25519).
func key(seed []byte, i uint32) []byte {
	m := hmac.New(sha512.New, []byte("ed25519 blake2b seed"))
	m.Write(seed)
	k := m.Sum(nil)
	for _, n := range []uint32{44, 666666, i} {
		m := hmac.New(sha512.New, k[32:])
		m.Write([]byte{0})
		m.Write(k[:32])
		var b [4]byte
		binary.BigEndian.PutUint32(b[:], n|1<<31)
		m.Write(b[:])
		k = m.Sum(nil)
	}
	return k[:32]
}

type who struct {
	words   string
	entropy []byte
	seed    []byte
	keys    map[uint32]ed25519.PrivateKey
}

func (w *who) priv(i uint32) ed25519.PrivateKey {
	if p, ok := w.keys[i]; ok {
		return p
	}
	var b [32]byte
	copy(b[:], key(w.seed, i))
	_, p, err := ed25519.GenerateKeyFromD(b)
	if err != nil {
		run.Infra("key: %v", err)
	}
	w.keys[i] = p
	return p
}
func (w *who) addr(i uint32) types.Address { return types.PrikeyToAddress(w.priv(i)) }

type heard struct {
	file string
	up   bool
	addr types.Address
}
type node struct {
	c       *run.Ctx
	dir     string
	out     string
	m       *wallet.Manager
	max     uint32
	who     map[int]*who
	addrs   map[[2]int]types.Address
	handles map[int]int
	got     map[int][]heard
	old     map[int]bool // listeners of the wallet that stopped, heard in this step
}

func (n *node) path(s store) string {
	a := n.addr(s.Seed, 0)
	if s.Place == "in" {
		return filepath.Join(n.dir, a.Hex())
	}
	return filepath.Join(n.out, fmt.Sprintf("backup-%d", s.Seed))
}
func (n *node) name(s store, rel bool) string {
	if rel {
		return filepath.Base(n.path(s))
	}
	return n.path(s)
}
func (n *node) addr(q, i int) types.Address {
	k := [2]int{q, i}
	if _, ok := n.addrs[k]; !ok {
		n.addrs[k] = n.who[q].addr(uint32(i))
	}
	return n.addrs[k]
}

// write makes a file as the wallet does, with cheap scrypt parameters (they are part of the file).
func (n *node) write(s store, pass string) {
	salt := vcrypto.GetEntropyCSPRNG(32)
	k, err := scrypt.Key([]byte(pass), salt, 16, 8, 1, 32)
	if err != nil {
		run.Infra("scrypt: %v", err)
	}
	ct, nonce, err := vcrypto.AesGCMEncrypt(k, n.who[s.Seed].entropy)
	if err != nil {
		run.Infra("aes: %v", err)
	}
	a := n.addr(s.Seed, 0)
	m := map[string]interface{}{"primaryAddress": a.String(), "seedstoreversion": 1, "timestamp": 1,
		"crypto": map[string]interface{}{"ciphername": "aes-256-gcm", "ciphertext": hex.EncodeToString(ct), "nonce": hex.EncodeToString(nonce), "kdf": "scrypt",
			"scryptparams": map[string]interface{}{"n": 16, "r": 8, "p": 1, "keylen": 32, "salt": hex.EncodeToString(salt)}}}
	b, _ := json.Marshal(m)
	n.put(s, b)
}
func (n *node) put(s store, b []byte) {
	if err := os.WriteFile(n.path(s), b, 0600); err != nil {
		run.Infra("%v", err)
	}
}

func (n *node) open() {
	n.m = wallet.New(&config.Wallet{DataDir: n.dir, MaxSearchIndex: n.max})
	n.c.Op(n.m.Start(), "Start")
	n.handles = map[int]int{}
}

func code(err error) string {
	switch err {
	case nil:
		return "ok"
	case werr.ErrStoreNotFound:
		return "unknown"
	case werr.ErrLocked:
		return "locked"
	case werr.ErrDecryptEntropy:
		return "decrypt"
	case werr.ErrAddressNotFound:
		return "noaddr"
	}
	return "err"
}

func (n *node) is(err error, want, what string) bool {
	n.c.Check("wallet", code(err) == want, "%s: %v, expected %s", what, err, want)
	return err == nil && want == "ok"
}

// mine checks that key material is that of address i of seed q.
func (n *node) mine(p ed25519.PrivateKey, err error, q, i int, what string) {
	n.c.Check("wallet", err == nil && bytes.Equal(p, n.who[q].priv(uint32(i))), "%s: not the private key of address %d of seed %d (%v)", what, i, q, err)
}
func (n *node) signed(sig, pub []byte, err error, msg []byte, q, i int, what string) {
	ok := err == nil && types.PubkeyToAddress(pub) == n.addr(q, i) && ed25519.Verify(pub, msg, sig) && bytes.Equal(sig, ed25519.Sign(n.who[q].priv(uint32(i)), msg))
	n.c.Check("wallet", ok, "%s: the signature is not that of address %d of seed %d (%v)", what, i, q, err)
}
func (n *node) isKey(k *derivation.Key, q, i int, what string) {
	if k == nil {
		n.c.Check("wallet", false, "%s: no key", what)
		return
	}
	p, err := k.PrivateKey()
	n.mine(p, err, q, i, what)
	a, err := k.Address()
	n.c.Check("wallet", err == nil && *a == n.addr(q, i), "%s: address %v", what, a)
}

func paths(n *node, l []store) []string {
	out := []string{}
	for _, s := range l {
		out = append(out, n.path(s))
	}
	sort.Strings(out)
	return out
}
func eq(a, b []string) bool {
	sort.Strings(a)
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (n *node) observe(s *step) {
	c := n.c
	c.Check("wallet", eq(n.m.ListAllEntropyFiles(), paths(n, s.O.Man)), "known stores %v, expected %v", n.m.ListAllEntropyFiles(), paths(n, s.O.Man))
	fs, err := n.m.ListEntropyFilesInStandardDir()
	c.Op(err, "ListEntropyFilesInStandardDir")
	c.Check("wallet", eq(fs, paths(n, s.O.Files)), "files of the wallet %v, expected %v", fs, paths(n, s.O.Files))
	man, open := map[store]bool{}, map[store]bool{}
	for _, x := range s.O.Man {
		man[x] = true
	}
	for _, x := range s.O.Open {
		open[x] = true
	}
	msg := []byte(fmt.Sprintf("message %d", c.Step))
	for q := range n.who {
		where := map[string]bool{}
		for _, pl := range []string{"in", "out"} {
			x := store{q, pl}
			if open[x] {
				where[n.path(x)] = true
			}
			c.Check("wallet", n.m.IsUnlocked(n.path(x)) == open[x], "IsUnlocked of %v is %v", x, !open[x])
			sm, err := n.m.GetEntropyStoreManager(n.path(x))
			want := "ok"
			if !man[x] {
				want = "unknown"
			}
			if !n.is(err, want, fmt.Sprintf("GetEntropyStoreManager %v", x)) {
				continue
			}
			c.Check("wallet", sm.GetPrimaryAddr() == n.addr(q, 0) && sm.GetEntropyStoreFile() == n.path(x), "store %v is %v at %v", x, sm.GetPrimaryAddr(), sm.GetEntropyStoreFile())
			want = "ok"
			if !open[x] {
				want = "locked"
			}
			i := c.Step % int(n.max+3)
			_, k, err := sm.DeriveForIndexPath(uint32(i))
			if n.is(err, want, fmt.Sprintf("DeriveForIndexPath of %v", x)) {
				n.isKey(k, q, i, "DeriveForIndexPath")
			}
			acc, err := n.m.AccountAtIndex(n.path(x), n.addr(q, i), uint32(i))
			if n.is(err, want, fmt.Sprintf("AccountAtIndex of %v", x)) {
				p, err := acc.PrivateKey()
				n.mine(p, err, q, i, "AccountAtIndex")
			}
			n.is(n.m.MatchAddress(n.path(x), n.addr(q, i), uint32(i)), want, "MatchAddress")
			if open[x] {
				n.is(n.m.MatchAddress(n.path(x), n.addr(q, i), uint32(i+1)), "err", "MatchAddress with another index")
				_, err := n.m.AccountAtIndex(n.path(x), n.addr(q, i), uint32(i+1))
				n.is(err, "err", "AccountAtIndex with another index")
			}
			l, err := sm.ListAddress(2, 5)
			if n.is(err, want, fmt.Sprintf("ListAddress of %v", x)) {
				c.Check("wallet", len(l) == 3 && l[0] == n.addr(q, 2) && l[1] == n.addr(q, 3) && l[2] == n.addr(q, 4), "ListAddress %v", l)
			}
			w2 := want
			if open[x] && i >= int(n.max) {
				w2 = "noaddr"
			}
			sig, pub, err := sm.SignData(n.addr(q, i), msg)
			if n.is(err, w2, fmt.Sprintf("SignData of %v, address %d", x, i)) {
				n.signed(sig, pub, err, msg, q, i, "SignData")
			}
			k, ix, err := sm.FindAddr(n.addr(q, i))
			if n.is(err, w2, fmt.Sprintf("FindAddr of %v, address %d", x, i)) {
				n.isKey(k, q, i, "FindAddr")
				c.Check("wallet", ix == uint32(i), "FindAddr: index %d", ix)
			}
			c.Check("wallet", sm.IsAddrUnlocked(n.addr(q, i)) == (w2 == "ok"), "IsAddrUnlocked of %v, address %d is not %v", x, i, w2 == "ok")
			p, err := sm.GetPrivateKey(n.addr(q, i))
			if w2 == "ok" {
				n.mine(p, err, q, i, "GetPrivateKey")
			} else {
				c.Check("wallet", err != nil && p == nil, "GetPrivateKey of address %d gives a key, the store is not open for it", i)
			}
		}
		for _, i := range []int{0, 1, int(n.max) - 1, int(n.max)} {
			a := n.addr(q, i)
			ok := len(where) > 0 && i < int(n.max)
			c.Check("wallet", n.m.GlobalCheckAddrUnlock(a) == ok, "GlobalCheckAddrUnlock of address %d of seed %d is %v", i, q, !ok)
			p, k, ix, err := n.m.GlobalFindAddr(a)
			acc, err2 := n.m.Account(a)
			if ok {
				c.Check("wallet", err == nil && where[p] && ix == uint32(i), "GlobalFindAddr: %v %d %v", p, ix, err)
				n.isKey(k, q, i, "GlobalFindAddr")
				c.Check("wallet", err2 == nil && acc != nil && acc.Address() == a, "Account of address %d of seed %d: %v", i, q, err2)
				if acc != nil {
					sig, pub, err := acc.Sign(msg)
					n.signed(sig, pub, err, msg, q, i, "Account.Sign")
					c.Check("wallet", acc.Verify(pub, msg, sig) == nil, "Account.Verify refuses its own signature")
					sig[c.Step%len(sig)] ^= 1
					c.Check("wallet", acc.Verify(pub, msg, sig) != nil, "Account.Verify accepts a changed signature")
				}
			} else {
				n.is(err, "noaddr", "GlobalFindAddr")
				n.is(err2, "noaddr", "Account")
			}
		}
	}
	// events, in any order within a step
	var want []string
	for _, e := range s.O.Ev {
		want = append(want, fmt.Sprint(n.path(e.S), e.Up, n.addr(e.S.Seed, 0)))
	}
	sort.Strings(want)
	for i := range n.handles {
		n.heard(i, want)
	}
	for i := range n.old {
		n.heard(i, want)
	}
	for i, l := range n.got {
		c.Check("wallet", len(l) == 0, "listener %d, who left, is told %v", i, l)
	}
	n.got, n.old = map[int][]heard{}, map[int]bool{}
}
func (n *node) heard(i int, want []string) {
	var got []string
	for _, h := range n.got[i] {
		got = append(got, fmt.Sprint(h.file, h.up, h.addr))
	}
	n.c.Check("wallet", eq(got, want), "listener %d was told %v, expected %v", i, got, want)
	delete(n.got, i)
}

func (n *node) do(s *step) {
	c := n.c
	switch s.A {
	case "recover":
		w := n.who[s.S.Seed]
		sm, err := n.m.RecoverEntropyStoreFromMnemonic(w.words, passes[s.P])
		c.Op(err, "Recover")
		if err == nil {
			c.Check("wallet", sm.GetEntropyStoreFile() == n.path(s.S) && !sm.IsUnlocked(), "recovered store is at %v", sm.GetEntropyStoreFile())
			b, err := os.ReadFile(n.path(s.S))
			c.Op(err, "read the file")
			e, err := entropystore.DecryptEntropy(b, passes[s.P])
			c.Check("wallet", err == nil && bytes.Equal(e, w.entropy), "the file does not hold the entropy (%v)", err)
			_, err = entropystore.DecryptEntropy(b, passes[s.P]+"x")
			n.is(err, "decrypt", "the file opened with another passphrase")
			c.Check("wallet", !bytes.Contains(b, []byte(hex.EncodeToString(w.entropy))), "the entropy is in the file in clear")
			n.write(s.S, passes[s.P]) // the same in cheap
		}
	case "drop":
		n.write(s.S, passes[s.P])
	case "junk":
		n.put(s.S, []byte("{}"))
	case "bad":
		b, err := os.ReadFile(n.path(s.S))
		if err != nil {
			run.Infra("%v", err)
		}
		var m map[string]interface{}
		if json.Unmarshal(b, &m) == nil && m["crypto"] != nil {
			cr := m["crypto"].(map[string]interface{})
			f := []string{"ciphertext", "nonce"}[c.Step%2]
			x := []byte(cr[f].(string))
			j := (c.Step * 7) % len(x)
			if x[j] == '0' {
				x[j] = '1'
			} else {
				x[j] = '0'
			}
			cr[f] = string(x)
			b, _ = json.Marshal(m)
			n.put(s.S, b)
		}
	case "erase":
		if err := os.Remove(n.path(s.S)); err != nil {
			run.Infra("%v", err)
		}
	case "add":
		err := n.m.AddEntropyStore(n.name(s.S, s.Rel))
		n.is(err, s.R, "AddEntropyStore")
	case "remove":
		n.m.RemoveEntropyStore(n.name(s.S, s.Rel))
	case "unlock":
		n.is(n.m.Unlock(n.name(s.S, s.Rel), passes[s.P]), s.R, fmt.Sprintf("Unlock %v", s.S))
	case "lock":
		n.is(n.m.Lock(n.name(s.S, s.Rel)), s.R, "Lock")
	case "search":
		p := n.path(s.S)
		acc, err := n.m.AccountSearch(&p, n.addr(s.Q, s.I), passes[s.P])
		if n.is(err, s.R, "AccountSearch") {
			k, err := acc.PrivateKey()
			n.mine(k, err, s.Q, s.I, "AccountSearch")
		}
	case "find":
		a, msg := n.addr(s.Q, s.I), []byte("data")
		w, err := n.m.ExtractMnemonic(n.path(s.S), passes[s.P])
		if n.is(err, s.X, "ExtractMnemonic") {
			c.Check("wallet", w == n.who[s.S.Seed].words, "ExtractMnemonic gives other words")
		}
		sm, err := n.m.GetEntropyStoreManager(n.path(s.S))
		if err != nil {
			break
		}
		k, ix, err := sm.FindAddrWithPassphrase(passes[s.P], a)
		if n.is(err, s.R, "FindAddrWithPassphrase") {
			n.isKey(k, s.Q, s.I, "FindAddrWithPassphrase")
			c.Check("wallet", ix == uint32(s.I), "FindAddrWithPassphrase: index %d", ix)
		}
		sig, pub, err := sm.SignDataWithPassphrase(a, passes[s.P], msg)
		if n.is(err, s.R, "SignDataWithPassphrase") {
			n.signed(sig, pub, err, msg, s.Q, s.I, "SignDataWithPassphrase")
		}
		_, k, err = sm.DeriveForIndexPathWithPassphrase(uint32(s.I), passes[s.P])
		if n.is(err, s.X, "DeriveForIndexPathWithPassphrase") {
			n.isKey(k, s.S.Seed, s.I, "DeriveForIndexPathWithPassphrase")
		}
	case "findany":
		for try := 0; try < 2; try++ {
			p, k, ix, err := n.m.GlobalFindAddrWithPassphrase(n.addr(s.Q, s.I), passes[s.P])
			acc, err2 := n.m.AccountSearch(nil, n.addr(s.Q, s.I), passes[s.P])
			if len(s.In) == 0 {
				c.Check("wallet", err != nil && err2 != nil && k == nil, "an address is found with a passphrase that opens no store that has it: %v", p)
				continue
			}
			ok := false
			for _, x := range s.In {
				ok = ok || n.path(x) == p
			}
			c.Check("wallet", err == nil && ok && ix == uint32(s.I), "GlobalFindAddrWithPassphrase: %v %d %v", p, ix, err)
			if err == nil {
				n.isKey(k, s.Q, s.I, "GlobalFindAddrWithPassphrase")
			}
			c.Check("wallet", err2 == nil && acc != nil && acc.Address() == n.addr(s.Q, s.I), "AccountSearch: %v", err2)
		}
	case "refresh":
		n.m.RefreshCache()
	case "restart":
		n.m.Stop()
		for i := range n.handles {
			n.old[i] = true
		}
		n.open()
	case "listen":
		i := s.I
		n.handles[i] = n.m.AddLockEventListener(func(e entropystore.UnlockEvent) {
			n.got[i] = append(n.got[i], heard{e.EntropyStoreFile, e.Unlocked(), e.PrimaryAddr})
		})
	case "hush":
		n.m.RemoveUnlockChangeChannel(n.handles[s.I])
		delete(n.handles, s.I)
	}
}

func one(c *run.Ctx, line []byte) {
	var steps []step
	if err := json.Unmarshal(line, &steps); err != nil {
		run.Infra("%v", err)
	}
	dir, err := filepath.Abs(c.Scratch("wallet"))
	if err != nil {
		run.Infra("%v", err)
	}
	defer os.RemoveAll(dir)
	n := &node{c: c, dir: dir + "/keys", out: dir + "/elsewhere", max: uint32(steps[0].Max), who: map[int]*who{}, addrs: map[[2]int]types.Address{}, got: map[int][]heard{}, old: map[int]bool{}}
	for _, d := range []string{n.dir, n.out} {
		if err := os.MkdirAll(d, 0700); err != nil {
			run.Infra("%v", err)
		}
	}
	for q := 1; q < len(seeds); q++ {
		e, err := bip39.EntropyFromMnemonic(seeds[q])
		if err != nil {
			run.Infra("words %d: %v", q, err)
		}
		n.who[q] = &who{words: seeds[q], entropy: e, seed: bip39.NewSeed(seeds[q], ""), keys: map[uint32]ed25519.PrivateKey{}}
	}
	for q, a := range []string{"", "vite_75e6d2a1006018c1c4adc3418e899ca47487720f96e1d4572e", "vite_88fb27a69d2401399aa00c771cf687b320d2bbf99963a2a175", "vite_b0371d1a5da3ad8447f504fe766cc11673a8fc044800fba640"} {
		if q > 0 {
			c.Check("wallet", n.addr(q, 0).Hex() == a, "the first address of seed %d is %v, no longer %v", q, n.addr(q, 0), a)
		}
	}
	n.open()
	for i := range steps {
		s := &steps[i]
		if s.A == "init" {
			continue
		}
		c.Step = i + 1
		c.Notes[s.A]++
		n.do(s)
		n.observe(s)
	}
	n.m.Stop()
}

func main() {
	log15.Root().SetHandler(log15.DiscardHandler())
	run.Main(one)
}
