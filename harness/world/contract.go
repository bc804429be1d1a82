package world

import (
	"encoding/binary"
	"math/big"

	"github.com/vitelabs/go-vite/v2/common/types"
)

// A tiny assembler for the test contract. The contract executes up to two
// "rounds" taken from its calldata and then ends in the way the caller asked.
//
//	word 0      mode: 0 stop, 1 revert, 2 invalid opcode, 3 endless loop
//	round r at word 1+7r:
//	  +0 key  +1 add   (key != 0: storage[key] += add)
//	  +2 to   +3 token +4 amount (to != 0: asynchronous call)
//	  +5 topic (topic != 0: emit a log with that topic)
//	  +6 forwarded calldata start word (0: none; n: calldata words n.. are forwarded)
type asm struct {
	code   []byte
	labels map[string]int
	fix    map[int]string
}

func newAsm() *asm { return &asm{labels: map[string]int{}, fix: map[int]string{}} }

func (a *asm) op(b ...byte) *asm { a.code = append(a.code, b...); return a }
func (a *asm) push1(b byte) *asm { return a.op(0x60, b) }
func (a *asm) push2(v uint16) *asm {
	return a.op(0x61, byte(v>>8), byte(v))
}
func (a *asm) label(l string) *asm { a.labels[l] = len(a.code); return a.op(0x5b) }
func (a *asm) ref(l string) *asm {
	a.op(0x61)
	a.fix[len(a.code)] = l
	return a.op(0, 0)
}
func (a *asm) bytes() []byte {
	for p, l := range a.fix {
		binary.BigEndian.PutUint16(a.code[p:], uint16(a.labels[l]))
	}
	return a.code
}

const (
	opSTOP, opADD                      = 0x00, 0x01
	opEQ, opISZERO                     = 0x14, 0x15
	opCALLDATALOAD, opCALLDATASIZE     = 0x35, 0x36
	opCALLDATACOPY                     = 0x37
	opMLOAD, opMSTORE, opSLOAD         = 0x51, 0x52, 0x54
	opSSTORE, opJUMP, opJUMPI          = 0x55, 0x56, 0x57
	opDUP1, opLOG1, opCALL, opREVERT   = 0x80, 0xa1, 0xf1, 0xfd
	opRETURN, opCODECOPY, opSUB, opMUL = 0xf3, 0x39, 0x03, 0x02
)

func (a *asm) word(n int) *asm { return a.push2(uint16(32 * n)).op(opCALLDATALOAD) }

// Runtime is the runtime code of the test contract.
func Runtime() []byte {
	a := newAsm()
	for r := 0; r < 2; r++ {
		base := 1 + 7*r
		sfx := string(rune('0' + r))
		// store
		a.word(base).op(opISZERO).ref("nostore" + sfx).op(opJUMPI)
		a.word(base).op(opSLOAD).word(base + 1).op(opADD).word(base).op(opSSTORE)
		a.label("nostore" + sfx)
		// log
		a.word(base + 5).op(opISZERO).ref("nolog" + sfx).op(opJUMPI)
		a.word(base + 5).push1(0).push1(0).op(opLOG1) // LOG1 pops offset,size,topic
		a.label("nolog" + sfx)
		// call
		a.word(base + 2).op(opISZERO).ref("nocall" + sfx).op(opJUMPI)
		a.word(base + 6).op(opISZERO).ref("plain" + sfx).op(opJUMPI)
		// forward calldata from byte offset 32*w to the end:  CALLDATACOPY(mem 0, off, size-off)
		a.word(base + 6).push1(32).op(opMUL).op(opCALLDATASIZE).op(opSUB) // size - off
		a.word(base + 6).push1(32).op(opMUL).push1(0).op(opCALLDATACOPY)
		// CALL(to, token, amount, inOffset, inSize): push reverse
		a.word(base + 6).push1(32).op(opMUL).op(opCALLDATASIZE).op(opSUB).push1(0)
		a.word(base + 4).word(base + 3).word(base + 2).op(opCALL)
		a.ref("nocall" + sfx).op(opJUMP)
		a.label("plain" + sfx)
		a.push1(0).push1(0).word(base + 4).word(base + 3).word(base + 2).op(opCALL)
		a.label("nocall" + sfx)
	}
	a.word(0).op(opISZERO).ref("stop").op(opJUMPI)
	a.word(0).push1(1).op(opEQ).ref("revert").op(opJUMPI)
	a.word(0).push1(2).op(opEQ).ref("invalid").op(opJUMPI)
	a.label("loop").ref("loop").op(opJUMP)
	a.label("stop").op(opSTOP)
	a.label("revert").push1(0).push1(0).op(opREVERT)
	a.label("invalid").op(0xfe)
	return a.bytes()
}

// InitCode returns the deployment code; fail: 0 ok, 1 revert, 2 invalid opcode.
func InitCode(fail int) []byte {
	switch fail {
	case 1:
		return newAsm().push1(0).push1(0).op(opREVERT).bytes()
	case 2:
		return []byte{0xfe}
	}
	rt := Runtime()
	n := uint16(len(rt))
	a := newAsm()
	// initial storage: storage[9] = 7
	a.push1(7).push1(9).op(opSSTORE)
	// CODECOPY(0, off, n); RETURN(0,n)
	head := len(a.code) + 3 + 3 + 2 + 1 + 3 + 2 + 1
	a.push2(n).push2(uint16(head)).push1(0).op(opCODECOPY)
	a.push2(n).push1(0).op(opRETURN)
	return append(a.bytes(), rt...)
}

// Round is one round of the test contract program.
type Round struct {
	Key, Add int64
	To       *types.Address
	Token    types.TokenTypeId
	Amount   *big.Int
	Topic    int64
	Forward  []byte
}

func padLeft(b []byte) []byte {
	r := make([]byte, 32)
	copy(r[32-len(b):], b)
	return r
}

// CallData packs a program for the test contract.
func CallData(mode int, rounds ...Round) []byte {
	words := make([][]byte, 15)
	for i := range words {
		words[i] = make([]byte, 32)
	}
	words[0] = padLeft(big.NewInt(int64(mode)).Bytes())
	var tail []byte
	for i, r := range rounds {
		b := 1 + 7*i
		words[b] = padLeft(big.NewInt(r.Key).Bytes())
		add := big.NewInt(r.Add)
		if r.Add < 0 {
			add.Add(add, new(big.Int).Lsh(big.NewInt(1), 256))
		}
		words[b+1] = padLeft(add.Bytes())
		if r.To != nil {
			words[b+2] = padLeft(r.To.Bytes())
			words[b+3] = padLeft(r.Token.Bytes())
			words[b+4] = padLeft(r.Amount.Bytes())
		}
		words[b+5] = padLeft(big.NewInt(r.Topic).Bytes())
		if len(r.Forward) > 0 {
			words[b+6] = padLeft(big.NewInt(15).Bytes())
			tail = r.Forward
		}
	}
	var out []byte
	for _, w := range words {
		out = append(out, w...)
	}
	return append(out, tail...)
}

// StorageKey is the raw storage key of contract slot k (keys are left-trimmed
// by nothing: the interpreter uses the 32-byte word).
func StorageKey(k int64) []byte { return padLeft(big.NewInt(k).Bytes()) }
