--------------------------------- MODULE VM --------------------------------
(* The contract virtual machine: one contract, deployed with some code, and *)
(* the calls it executes, one instruction per step, with the quota each     *)
(* instruction costs.                                                       *)
(*                                                                          *)
(* A byte of a word or of memory is 0..255, or a symbol >= 256: byte i of   *)
(* the k-th unknown of the call (a hash, the caller, a timestamp, ...) is   *)
(* 256 + 32(k-1) + (i-1). Programs move symbols about, they do not compute  *)
(* with them.                                                               *)
EXTENDS Word, FiniteSets, TLC
CONSTANTS Code, Datas, Amts
VARIABLES code,      \* the code of the contract
          sto, bal,  \* its storage and its balance
          m,         \* the machine: running a call, or idle
          env        \* the call it runs: [mode, data, amt]
vars == <<code, sto, bal, m, env>>
Limit == 1000000          \* quota of one block
StackLimit == 1024
StoLimit == 100           \* storage keys one call may write
Idle == [out |-> "idle"]
----------------------------------------------------------------------------
(* instruction table *)
Unary == {21, 25}  \* ISZERO NOT
Binary == (1..7) \cup {10, 11} \cup (16..20) \cup (22..24) \cup (26..29)
Ternary == {8, 9}
Ctx == {48, 51, 52, 66, 67, 70, 71, 72, 73}
(* ADDRESS CALLER CALLVALUE TIMESTAMP HEIGHT TOKENID ACCOUNTHEIGHT PREVHASH FROMHASH *)
CtxName == 48 :> "address" @@ 51 :> "caller" @@ 52 :> "value" @@ 66 :> "timestamp" @@ 67 :> "height" @@ 70 :> "token" @@ 71 :> "accheight" @@ 72 :> "prevhash" @@ 73 :> "fromhash"
Size == {54, 56, 61, 88, 89}    \* CALLDATASIZE CODESIZE RETURNDATASIZE PC MSIZE
Copy == {55, 57, 62}            \* CALLDATACOPY CODECOPY RETURNDATACOPY
IsPush(op) == op \in 96..127
IsDup(op) == op \in 128..143
IsSwap(op) == op \in 144..159
IsLog(op) == op \in 160..164
Valid(op) == op \in {0} \cup Unary \cup Binary \cup Ternary \cup {32, 33} \cup Ctx \cup {49, 53} \cup Size \cup Copy
                    \cup (80..89) \cup {91} \cup (96..164) \cup {241, 242, 243, 253}
Pops(op) == CASE op \in Unary \cup {49, 53, 80, 81, 84, 86} -> 1
              [] op \in Binary \cup {32, 33, 82, 83, 85, 87, 243, 253} -> 2
              [] op \in Ternary \cup Copy -> 3
              [] IsDup(op) -> op - 127 [] IsSwap(op) -> op - 142 [] IsLog(op) -> op - 158
              [] op \in {241, 242} -> 5 [] OTHER -> 0
Pushes(op) == CASE op \in Unary \cup Binary \cup Ternary \cup {32, 33, 49, 53, 81, 84, 242} \cup Ctx \cup Size -> 1
                [] IsPush(op) -> 1 [] IsDup(op) -> op - 126 [] IsSwap(op) -> op - 142 [] OTHER -> 0
Flat(op) == CASE op \in {1, 2, 3} -> 2 [] op \in {4, 6} -> 3 [] op = 5 -> 5 [] op = 7 -> 4 [] op = 8 -> 4 [] op = 9 -> 5
              [] op = 10 -> 10 [] op = 11 -> 2 [] op = 21 -> 1 [] op \in 16..28 -> 2 [] op = 29 -> 3
              [] op \in {32, 33} -> 20 [] op \in Ctx -> 1 [] op = 49 -> 150 [] op = 53 -> 2 [] op \in Size -> 1
              [] op \in Copy -> 3 [] op = 80 -> 1 [] op = 81 -> 2 [] op \in {82, 83} -> 1 [] op = 84 -> 150
              [] op \in {86, 87} -> 4 [] op = 91 -> 1 [] IsPush(op) -> 1 [] IsDup(op) -> 1 [] IsSwap(op) -> 2
              [] IsLog(op) -> 375 + 375 * (op - 160) [] OTHER -> 0
CodeAt(c, p) == IF p >= 0 /\ p < Len(c) THEN c[p + 1] ELSE 0
(* positions of instructions, as opposed to the data of PUSHes *)
Instr(c) == FoldLeft(LAMBDA a, i : IF a.skip > 0 THEN [skip |-> a.skip - 1, s |-> a.s]
                                   ELSE [skip |-> IF IsPush(c[i]) THEN c[i] - 95 ELSE 0, s |-> a.s \cup {i - 1}],
                     [skip |-> 0, s |-> {}], [i \in 1..Len(c) |-> i]).s
ValidDest(c, x) == IsSmall(x) /\ Num(x) < Len(c) /\ CodeAt(c, Num(x)) = 91 /\ Num(x) \in Instr(c)
(* n bytes of a sequence from offset off (a word), zeros beyond its end *)
Slice(s, off, n) == [i \in 1..n |-> IF IsSmall(off) /\ Num(off) + i <= Len(s) THEN s[Num(off) + i] ELSE 0]
----------------------------------------------------------------------------
(* memory: what a step needs, in words of 32 bytes. -1: more than any quota pays; -2: out of range *)
Need(off, n) == IF n = Zero THEN 0
                ELSE IF \E i \in 1..26 : off[i] # 0 \/ n[i] # 0 THEN -2
                ELSE IF ~SmallBelow(off, 4000000) \/ ~SmallBelow(n, 4000000) THEN -1
                ELSE (Num(off) + Num(n) + 31) \div 32
MemNeed(op, s) == CASE op \in {32, 33, 243, 253} \/ IsLog(op) -> Need(s[1], s[2])
                    [] op \in Copy -> Need(s[1], s[3])
                    [] op \in {81, 82} -> Need(s[1], W(32))
                    [] op = 83 -> Need(s[1], One)
                    [] op = 241 -> Need(s[4], s[5])
                    [] OTHER -> 0
MemCost(w) == w + (w * w) \div 1024
Words(n) == (n + 31) \div 32
(* storage: an absent key is zero *)
Get(f, k) == IF k \in DOMAIN f THEN f[k] ELSE Zero
Put(f, k, v) == IF v = Zero THEN [x \in DOMAIN f \ {k} |-> f[x]] ELSE (k :> v) @@ f
(* what writing v costs when the key holds cur and held orig before the call; negative: given back *)
StoreCost(orig, cur, v) ==
    CASE cur = v -> 200
      [] cur # v /\ orig = cur -> IF orig = Zero THEN 15000 ELSE IF v = Zero THEN 0 ELSE 15000
      [] cur # v /\ orig # cur /\ orig = v -> IF orig = Zero THEN -14600 ELSE IF cur = Zero THEN 400 ELSE -14600
      [] OTHER -> CASE orig # Zero /\ cur = Zero -> 15200
                    [] orig # Zero /\ cur # Zero /\ v = Zero -> -14800
                    [] OTHER -> 200
(* the data a CALL sends is priced (and, for CALL2, read) before memory grows:
   none when it starts beyond the memory in use, zeros where it runs past its end *)
CallLen(mem, off, n) == IF n = Zero \/ ~SmallBelow(off, Len(mem)) THEN 0 ELSE Num(n)
CallData(mem, off, n) == Slice(mem, off, CallLen(mem, off, n))
Users == <<"user">>
IsUser(to) == to[32] = 0     \* addresses: 20 bytes and a kind
----------------------------------------------------------------------------
Sym(k) == [i \in 1..32 |-> 256 + 32 * (k - 1) + i - 1]
Start(mode, data, amt, q) ==
    [out |-> "run", pc |-> 0, st |-> <<>>, mem |-> <<>>, q |-> q, sto |-> sto, mod |-> {}, logs |-> <<>>, sends |-> <<>>, syms |-> <<>>, ret |-> <<>>]
Arith(op, a, b) ==
    CASE op = 1 -> Add(a, b) [] op = 2 -> Mul(a, b) [] op = 3 -> Sub(a, b) [] op = 4 -> Div(a, b) [] op = 5 -> SDiv(a, b)
      [] op = 6 -> Mod(a, b) [] op = 7 -> SMod(a, b) [] op = 10 -> Exp(a, b) [] op = 11 -> SignExtend(a, b)
      [] op = 16 -> B(Less(a, b)) [] op = 17 -> B(Less(b, a)) [] op = 18 -> B(SLess(a, b)) [] op = 19 -> B(SLess(b, a)) [] op = 20 -> B(a = b)
      [] op = 22 -> WAnd(a, b) [] op = 23 -> WOr(a, b) [] op = 24 -> WXor(a, b) [] op = 26 -> Byte(a, b)
      [] op = 27 -> Shl(a, b) [] op = 28 -> Shr(a, b) [] op = 29 -> Sar(a, b)
Halt(x, how) == [x EXCEPT !.out = how]
Next1(x) == [x EXCEPT !.pc = @ + 1]
Pop(x, n) == [x EXCEPT !.st = SubSeq(@, n + 1, Len(@))]
Push(x, w) == [x EXCEPT !.st = <<w>> \o @]
PushSym(x, d) == [x EXCEPT !.st = <<Sym(Len(x.syms) + 1)>> \o @, !.syms = Append(@, d)]
Write(mem, off, bytes) == [i \in 1..Len(mem) |-> IF i > off /\ i <= off + Len(bytes) THEN bytes[i - off] ELSE mem[i]]
Grow(x, w) == IF 32 * w > Len(x.mem) THEN [x EXCEPT !.mem = @ \o Pad(32 * w - Len(@))] ELSE x
(* the cost of the instruction; "none": it fails here *)
Cost(x, op, need, e) ==
    LET s == x.st
        have == Len(x.mem) \div 32
        mc == IF need > have THEN MemCost(need) - MemCost(have) ELSE 0
    IN CASE op = 10 -> Flat(op) + 50 * ByteLen(s[2])
         [] op \in {32, 33} -> mc + Flat(op) + Words(Num(s[2]))
         [] op \in Copy -> mc + Flat(op) + 3 * Words(Num(s[3]))
         [] IsLog(op) -> mc + Flat(op) + 12 * Num(s[2])
         [] op = 85 -> StoreCost(Get(sto, s[1]), Get(x.sto, s[1]), s[2])
         [] op \in {241, 242} -> mc + 7500 + 28 * CallLen(x.mem, s[4], s[5])
         [] OTHER -> mc + Flat(op)
(* the instruction itself, after its quota is paid and memory has grown *)
Do(x, op, s, old, e) ==
    CASE op = 0 -> Halt(x, "stop")
      [] op \in Binary -> Next1(Push(Pop(x, 2), Arith(op, s[1], s[2])))
      [] op = 8 -> Next1(Push(Pop(x, 3), AddMod(s[1], s[2], s[3])))
      [] op = 9 -> Next1(Push(Pop(x, 3), MulMod(s[1], s[2], s[3])))
      [] op = 21 -> Next1(Push(Pop(x, 1), B(s[1] = Zero)))
      [] op = 25 -> Next1(Push(Pop(x, 1), WNot(s[1])))
      [] op \in {32, 33} -> Next1(PushSym(Pop(x, 2), [k |-> IF op = 32 THEN "keccak" ELSE "blake2b", d |-> Slice(x.mem, s[1], Num(s[2]))]))
      [] op \in Ctx -> IF e.mode = "off" /\ op \in {51, 52, 66, 67, 70, 73} THEN Next1(Push(x, Zero))
                       ELSE Next1(PushSym(x, [k |-> CtxName[op], d |-> <<>>]))
      [] op = 49 -> Next1(PushSym(Pop(x, 1), [k |-> "balance", d |-> s[1]]))
      [] op = 53 -> Next1(Push(Pop(x, 1), Slice(e.data, s[1], 32)))
      [] op = 54 -> Next1(Push(x, W(Len(e.data))))
      [] op = 56 -> Next1(Push(x, W(Len(code))))
      [] op = 61 -> Next1(Push(x, Zero))
      [] op = 88 -> Next1(Push(x, W(x.pc)))
      [] op = 89 -> Next1(Push(x, W(Len(x.mem))))
      [] op \in {55, 57} -> Next1([Pop(x, 3) EXCEPT !.mem = IF s[3] = Zero THEN @ ELSE Write(@, Num(s[1]), Slice(IF op = 55 THEN e.data ELSE code, s[2], Num(s[3])))])
      [] op = 62 -> IF s[2] = Zero /\ s[3] = Zero THEN Next1(Pop(x, 3)) ELSE Halt(x, "fail")   \* nothing was ever returned to this call
      [] op = 80 -> Next1(Pop(x, 1))
      [] op = 81 -> Next1(Push(Pop(x, 1), Slice(x.mem, s[1], 32)))
      [] op = 82 -> Next1([Pop(x, 2) EXCEPT !.mem = Write(@, Num(s[1]), s[2])])
      [] op = 83 -> Next1([Pop(x, 2) EXCEPT !.mem = Write(@, Num(s[1]), <<s[2][32]>>)])
      [] op = 84 -> Next1(Push(Pop(x, 1), Get(x.sto, s[1])))
      [] op = 85 -> Next1(IF e.mode = "off" THEN Pop(x, 2) ELSE [Pop(x, 2) EXCEPT !.sto = Put(@, s[1], s[2])])
      [] op = 86 -> IF ValidDest(code, s[1]) THEN [Pop(x, 1) EXCEPT !.pc = Num(s[1])] ELSE Halt(x, "fail")
      [] op = 87 -> IF s[2] = Zero THEN Next1(Pop(x, 2)) ELSE IF ValidDest(code, s[1]) THEN [Pop(x, 2) EXCEPT !.pc = Num(s[1])] ELSE Halt(x, "fail")
      [] op = 91 -> Next1(x)
      [] IsPush(op) -> [Push(x, FromBytes([i \in 1..op - 95 |-> CodeAt(code, x.pc + i)])) EXCEPT !.pc = @ + op - 94]
      [] IsDup(op) -> Next1(Push(x, s[op - 127]))
      [] IsSwap(op) -> Next1([x EXCEPT !.st = [@ EXCEPT ![1] = s[op - 142], ![op - 142] = s[1]]])
      [] IsLog(op) -> Next1(IF e.mode = "off" THEN Pop(x, op - 158)
                            ELSE [Pop(x, op - 158) EXCEPT !.logs = Append(@, [topics |-> SubSeq(s, 3, op - 158), data |-> Slice(x.mem, s[1], Num(s[2]))])])
      [] op \in {241, 242} ->
           LET y == IF e.mode = "off" THEN Pop(x, 5)
                    ELSE [Pop(x, 5) EXCEPT !.sends = Append(@, [to |-> s[1], tok |-> s[2], amt |-> s[3],
                              data |-> IF op = 241 THEN Slice(x.mem, s[4], Num(s[5])) ELSE CallData(old, s[4], s[5])])]
           IN Next1(IF op = 241 THEN y ELSE IF e.mode = "off" THEN Push(y, Zero) ELSE PushSym(y, [k |-> "send", d |-> <<Len(y.sends)>>]))
      [] op = 243 -> [Halt(x, "return") EXCEPT !.ret = Slice(x.mem, s[1], Num(s[2]))]
      [] op = 253 -> Halt(x, "revert")
(* one step: opcode, stack, storage limit, memory range, quota, and then the effect *)
Exec(x, e) ==
    LET op == CodeAt(code, x.pc)
        s == x.st
    IN IF ~Valid(op) THEN Halt(x, "fail")
       ELSE IF Len(s) < Pops(op) \/ Len(s) - Pops(op) + Pushes(op) > StackLimit THEN Halt(x, "fail")
       ELSE LET need == MemNeed(op, s)
                y == IF op = 85 /\ e.mode = "on" THEN [x EXCEPT !.mod = @ \cup {s[1]}] ELSE x
            IN IF need = -2 THEN Halt(x, "fail")
               ELSE IF need = -1 THEN Halt(x, "quota")
               ELSE IF op = 85 /\ Cardinality(y.mod) > StoLimit THEN Halt(x, "fail")
               ELSE IF op \in {241, 242} /\ ~IsUser(s[1]) THEN Halt(x, "fail")       \* a contract that does not exist
               ELSE LET c == Cost(x, op, need, e)
                    IN IF c > x.q THEN Halt(x, "quota")
                       ELSE Do(Grow([y EXCEPT !.q = @ - c], need), op, s, x.mem, e)
----------------------------------------------------------------------------
Vite == [i \in 1..32 |-> IF i <= 22 THEN 0 ELSE <<86, 73, 84, 69, 32, 84, 79, 75, 69, 78>>[i - 22]]
(* what is sent of the one token the contract may hold; -1: more than there can be *)
TotalSent(x) == FoldLeft(LAMBDA a, r : IF a = -1 \/ ~IsSmall(r.amt) \/ (r.tok # Vite /\ r.amt # Zero) THEN -1 ELSE a + Num(r.amt), 0, x.sends)
Init == code \in Code /\ sto = <<>> /\ bal = 0 /\ m = Idle /\ env = [mode |-> "none"]
(* a call of the contract, or a reading of it off chain *)
CallBase == 21040    \* one confirmation is asked for
Begin(mode, data, amt) ==
    /\ m.out = "idle"
    /\ env' = [mode |-> mode, data |-> data, amt |-> amt]
    /\ m' = Start(mode, data, amt, IF mode = "on" THEN Limit - CallBase ELSE Limit)
    /\ UNCHANGED <<code, sto, bal>>
Step == m.out = "run" /\ m' = Exec(m, env) /\ UNCHANGED <<code, sto, bal, env>>
Ended == m.out \notin {"run", "idle"}
Good == m.out \in {"stop", "return"} /\ TotalSent(m) # -1 /\ TotalSent(m) <= bal + env.amt
(* a call that ends well keeps its writes and its sends; any other leaves nothing *)
End == /\ Ended
       /\ IF env.mode = "on" /\ Good
          THEN sto' = m.sto /\ bal' = bal + env.amt - TotalSent(m)
          ELSE UNCHANGED <<sto, bal>>
       /\ m' = Idle /\ UNCHANGED <<code, env>>
Next == Step \/ End \/ \E d \in Datas, a \in Amts, mode \in {"on", "off"} : Begin(mode, d, IF mode = "on" THEN a ELSE 0)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
IsWord(w) == Len(w) = 32
TypeOK == m.out = "idle" \/ (/\ Len(m.st) <= StackLimit /\ \A i \in 1..Len(m.st) : IsWord(m.st[i])
                             /\ Len(m.mem) % 32 = 0 /\ m.q >= 0 /\ m.q <= Limit
                             /\ Cardinality(m.mod) <= StoLimit)
(* reading off chain changes nothing *)
OffChainPure == m.out # "idle" /\ env.mode = "off" => m.sto = sto /\ m.logs = <<>> /\ m.sends = <<>>
(* a write and its undoing never give back more than was paid *)
NoFreeQuota == m.out # "idle" => m.q <= IF env.mode = "on" THEN Limit - CallBase ELSE Limit
NoZeroStored == \A k \in DOMAIN sto : sto[k] # Zero
=============================================================================
