package main

import (
	"bytes"
	"math/big"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/crypto"
	"github.com/vitelabs/go-vite/v2/crypto/ed25519"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/zz_verif/world"
)

// One alteration of a valid block.  The result is always invalid in the current ledger.
type forgery struct {
	name string
	f    func(r *rep, b *ledger.AccountBlock) bool // false: does not apply
}

func someHash(n byte) types.Hash { return types.DataHash([]byte{0xfe, n}) }

func (r *rep) extraSend(b *ledger.AccountBlock) *ledger.AccountBlock {
	x := &ledger.AccountBlock{BlockType: ledger.BlockTypeSendCall, AccountAddress: b.AccountAddress, ToAddress: r.addr["u1"],
		Amount: big.NewInt(5), TokenId: world.Vite, Fee: big.NewInt(0)}
	return x
}

// content alterations, re-hashed and re-signed by the owner: only the rules of the ledger refuse them
var contentForgeries = []forgery{
	{"height + 1", func(r *rep, b *ledger.AccountBlock) bool { b.Height++; return true }},
	{"height - 1", func(r *rep, b *ledger.AccountBlock) bool { b.Height--; return b.Height > 1 }},
	{"other previous hash", func(r *rep, b *ledger.AccountBlock) bool { b.PrevHash = someHash(1); return b.Height > 1 }},
	{"skips the head", func(r *rep, b *ledger.AccountBlock) bool {
		n := r.name[b.AccountAddress]
		if b.Height < 3 {
			return false
		}
		b.Height--
		b.PrevHash = r.block(n, int(b.Height)-1).b.Hash
		return true
	}},
	{"amount above the balance", func(r *rep, b *ledger.AccountBlock) bool {
		if !b.IsSendBlock() {
			return false
		}
		bal, err := r.w.Chain.GetBalance(b.AccountAddress, b.TokenId)
		r.Op(err, "balance")
		b.Amount = new(big.Int).Add(bal, big.NewInt(1))
		return true
	}},
	{"huge amount", func(r *rep, b *ledger.AccountBlock) bool {
		b.Amount = new(big.Int).Lsh(big.NewInt(1), 255)
		return b.IsSendBlock()
	}},
	{"unknown token", func(r *rep, b *ledger.AccountBlock) bool {
		b.TokenId = types.TokenTypeId{1, 2, 3}
		b.Amount = big.NewInt(1)
		return b.IsSendBlock()
	}},
	{"amount without token", func(r *rep, b *ledger.AccountBlock) bool {
		b.TokenId = types.ZERO_TOKENID
		b.Amount = big.NewInt(1)
		return b.IsSendBlock()
	}},
	{"fee", func(r *rep, b *ledger.AccountBlock) bool { b.Fee = big.NewInt(3); return true }},
	{"log hash", func(r *rep, b *ledger.AccountBlock) bool {
		h := someHash(2)
		if b.LogHash != nil {
			b.LogHash = nil
		} else {
			b.LogHash = &h
		}
		return true
	}},
	{"type send reward", func(r *rep, b *ledger.AccountBlock) bool {
		b.BlockType = ledger.BlockTypeSendReward
		return b.Amount != nil
	}},
	{"type send refund", func(r *rep, b *ledger.AccountBlock) bool {
		b.BlockType = ledger.BlockTypeSendRefund
		return b.Amount != nil
	}},
	{"type send create", func(r *rep, b *ledger.AccountBlock) bool {
		if b.BlockType != ledger.BlockTypeSendCall {
			return false
		}
		b.BlockType = ledger.BlockTypeSendCreate
		return true
	}},
	{"type receive error", func(r *rep, b *ledger.AccountBlock) bool {
		if b.BlockType != ledger.BlockTypeReceive {
			return false
		}
		b.BlockType = ledger.BlockTypeReceiveError
		return true
	}},
	{"type genesis", func(r *rep, b *ledger.AccountBlock) bool {
		if b.BlockType != ledger.BlockTypeReceive {
			return false
		}
		b.BlockType = ledger.BlockTypeGenesisReceive
		b.Amount = new(big.Int)
		return true
	}},
	{"difficulty without nonce", func(r *rep, b *ledger.AccountBlock) bool { b.Difficulty = big.NewInt(67108863); return true }},
	{"nonce without work", func(r *rep, b *ledger.AccountBlock) bool {
		b.Difficulty = new(big.Int).Lsh(big.NewInt(1), 60)
		b.Nonce = []byte{1, 2, 3, 4, 5, 6, 7, 8}
		return true
	}},
	{"short nonce", func(r *rep, b *ledger.AccountBlock) bool {
		b.Difficulty = big.NewInt(1)
		b.Nonce = []byte{1, 2, 3}
		return true
	}},
	{"names an unknown send", func(r *rep, b *ledger.AccountBlock) bool { b.FromBlockHash = someHash(3); return !b.IsSendBlock() }},
	{"names a received send", func(r *rep, b *ledger.AccountBlock) bool {
		n := r.name[b.AccountAddress]
		if r.o == nil {
			return false
		}
		for h := len(r.o.Ids[n]); h >= 1; h-- {
			if x := r.block(n, h); x.src != 0 {
				b.FromBlockHash = r.snd[x.src].b.Hash
				return !b.IsSendBlock()
			}
		}
		return false
	}},
	{"names another account's send", func(r *rep, b *ledger.AccountBlock) bool {
		for _, a := range r.accts {
			if r.addr[a] != b.AccountAddress && len(r.o.Pend[a]) > 0 {
				b.FromBlockHash = r.snd[r.o.Pend[a][0]].b.Hash
				return !b.IsSendBlock()
			}
		}
		return false
	}},
	{"names a receive block", func(r *rep, b *ledger.AccountBlock) bool {
		for _, a := range r.accts {
			for h := len(r.o.Ids[a]); h >= 1; h-- {
				if x := r.block(a, h); x.src != 0 {
					b.FromBlockHash = x.b.Hash
					return !b.IsSendBlock()
				}
			}
		}
		return false
	}},
	{"data of a user's receive", func(r *rep, b *ledger.AccountBlock) bool {
		b.Data = []byte{1}
		return !b.IsSendBlock() && !types.IsContractAddr(b.AccountAddress)
	}},
	{"declares another result", func(r *rep, b *ledger.AccountBlock) bool {
		if !types.IsContractAddr(b.AccountAddress) || len(b.Data) != types.HashSize+1 {
			return false
		}
		b.Data = append([]byte{}, b.Data...)
		b.Data[types.HashSize] ^= 1
		return true
	}},
	{"declares another state", func(r *rep, b *ledger.AccountBlock) bool {
		if !types.IsContractAddr(b.AccountAddress) || len(b.Data) != types.HashSize+1 {
			return false
		}
		b.Data = append([]byte{}, b.Data...)
		b.Data[3] ^= 0x40
		return true
	}},
	{"drops a send", func(r *rep, b *ledger.AccountBlock) bool {
		if len(b.SendBlockList) == 0 {
			return false
		}
		b.SendBlockList = b.SendBlockList[:len(b.SendBlockList)-1]
		return true
	}},
	{"adds a send", func(r *rep, b *ledger.AccountBlock) bool {
		x := r.extraSend(b)
		b.SendBlockList = append(b.SendBlockList, x)
		return true
	}},
	{"larger send", func(r *rep, b *ledger.AccountBlock) bool {
		if len(b.SendBlockList) == 0 {
			return false
		}
		b.SendBlockList[0].Amount = new(big.Int).Add(b.SendBlockList[0].Amount, big.NewInt(1))
		return true
	}},
	{"redirected send", func(r *rep, b *ledger.AccountBlock) bool {
		if len(b.SendBlockList) == 0 || b.SendBlockList[0].ToAddress == r.addr["u2"] {
			return false
		}
		b.SendBlockList[0].ToAddress = r.addr["u2"]
		return true
	}},
	{"sends in another order", func(r *rep, b *ledger.AccountBlock) bool {
		l := b.SendBlockList
		if len(l) < 2 || (l[0].ToAddress == l[1].ToAddress && l[0].Amount.Cmp(l[1].Amount) == 0 && l[0].TokenId == l[1].TokenId && bytes.Equal(l[0].Data, l[1].Data)) {
			return false
		}
		l[0], l[1] = l[1], l[0]
		return true
	}},
	{"calls a contract that does not exist", func(r *rep, b *ledger.AccountBlock) bool {
		b.ToAddress = types.CreateContractAddress([]byte("nowhere"))
		return b.BlockType == ledger.BlockTypeSendCall
	}},
	{"another account", func(r *rep, b *ledger.AccountBlock) bool {
		n := "u1"
		if r.addr[n] == b.AccountAddress {
			n = "u2"
		}
		b.AccountAddress = r.addr[n]
		b.Height = uint64(len(r.o.Ids[n]) + 1)
		b.PrevHash = r.block(n, len(r.o.Ids[n])).b.Hash
		return b.IsSendBlock()
	}},
}

// fields of a receive that its hash does not cover: no wire encoding carries them either
var directForgeries = []forgery{
	{"amount of a receive", func(r *rep, b *ledger.AccountBlock) bool { b.Amount = big.NewInt(1); return !b.IsSendBlock() }},
	{"token of a receive", func(r *rep, b *ledger.AccountBlock) bool { b.TokenId = world.TokenA; return !b.IsSendBlock() }},
	{"addressee of a receive", func(r *rep, b *ledger.AccountBlock) bool { b.ToAddress = r.addr["u1"]; return !b.IsSendBlock() }},
	{"source of a send", func(r *rep, b *ledger.AccountBlock) bool { b.FromBlockHash = someHash(4); return b.IsSendBlock() }},
}

// clone copies a block (AccountBlock.Copy duplicates the entries of SendBlockList)
func clone(b *ledger.AccountBlock) *ledger.AccountBlock {
	y := *b
	y.SendBlockList = nil
	x := y.Copy()
	for _, s := range b.SendBlockList {
		x.SendBlockList = append(x.SendBlockList, s.Copy())
	}
	return x
}

func rehash(b *ledger.AccountBlock) {
	if types.IsContractAddr(b.AccountAddress) && b.IsReceiveBlock() {
		for i, s := range b.SendBlockList {
			s.Hash = s.ComputeSendHash(b, uint8(i))
		}
	} else {
		for i, s := range b.SendBlockList {
			s.Hash = s.ComputeSendHash(b, uint8(i))
		}
	}
	b.Hash = b.ComputeHash()
}

func (r *rep) verifyRaw(b *ledger.AccountBlock) error {
	if err := r.w.Verifier.VerifyNetAccountBlock(b); err != nil {
		return err
	}
	task, _, err := r.w.Verifier.VerifyPoolAccountBlock(b, r.w.Chain.GetLatestSnapshotBlock())
	if err != nil {
		return err
	}
	if task != nil {
		return world.ErrNoBlock
	}
	return nil
}

// forge alters a valid block in every way that applies; none of them may be accepted.
func (r *rep) forge(b *ledger.AccountBlock, signer world.Account) {
	sign := func(x *ledger.AccountBlock, a world.Account) { x.Signature, x.PublicKey, _ = a.Sign(x.Hash.Bytes()) }
	orig, _ := b.Serialize()
	refuse := func(x *ledger.AccountBlock, what string) {
		if buf, err := x.Serialize(); err == nil && bytes.Equal(buf, orig) {
			return
		}
		_, err := r.w.Verify(x)
		r.Check("verify", err != nil, "a block of %s (type %d, height %d) altered by %q is accepted", r.name[b.AccountAddress], b.BlockType, b.Height, what)
	}
	for _, f := range contentForgeries {
		x := clone(b)
		if !f.f(r, x) {
			continue
		}
		refuse(x, f.name+" (not rehashed)")
		rehash(x)
		if !bytes.Equal(x.Signature, nil) {
			refuse(x, f.name+" (rehashed, old signature)")
		}
		sign(x, signer)
		refuse(x, f.name)
		// the same without the wire
		r.Check("verify", r.verifyRaw(x) != nil, "a block of %s (type %d) altered by %q is accepted", r.name[b.AccountAddress], b.BlockType, f.name)
	}
	for _, f := range directForgeries {
		x := clone(b)
		if !f.f(r, x) {
			continue
		}
		r.Check("verify", r.verifyRaw(x) != nil, "a block of %s (type %d) altered by %q is accepted", r.name[b.AccountAddress], b.BlockType, f.name)
	}
	// signatures
	x := clone(b)
	x.Signature[5] ^= 1
	refuse(x, "broken signature")
	x = clone(b)
	x.Signature, x.PublicKey = nil, nil
	refuse(x, "no signature")
	x = clone(b)
	x.Signature = nil
	refuse(x, "empty signature")
	if !types.IsContractAddr(b.AccountAddress) {
		o := world.NewAccount(77)
		x = clone(b)
		sign(x, o)
		refuse(x, "signed by someone else")
		x = clone(b)
		sign(x, o)
		x.PublicKey = append(ed25519.PublicKey{}, b.PublicKey...)
		refuse(x, "signed by someone else under the owner's key")
	}
	x = clone(b)
	x.Hash = someHash(9)
	sign(x, signer)
	refuse(x, "another hash")
	x.Hash = types.Hash{}
	sign(x, signer)
	refuse(x, "zero hash")
}

var _ = crypto.Hash256
