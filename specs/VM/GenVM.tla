------------------------------- MODULE GenVM -------------------------------
(* Random programs and calls of VM, printed as JSON for replay.             *)
EXTENDS VM, Json
CONSTANTS Depth, Size0, Calls, WEnd, WLoop, WSto, WBig
VARIABLES hist, ph, dep, slot, n, skip
gvars == <<hist, ph, dep, slot, n, skip>>
Rnd(S) == RandomElement({x \in S : n >= 0})
R(S) == {Rnd(S)}
P(k) == Rnd(1..100) <= k
RB(k) == Rnd(0..255) + 0 * k
RandWord(k) == [i \in 1..32 |-> RB(i)]
(* words worth trying *)
APow(k) == LET e == Rnd(0..255) IN [i \in 1..32 |-> IF i = 32 - (e \div 8) THEN P2(e % 8) ELSE 0]
AWord(k) == LET c == Rnd(1..14) IN
    CASE c = 1 -> Zero [] c = 2 -> One [] c = 3 -> Ones [] c = 4 -> Min255 [] c = 5 -> Sub(Min255, One)
      [] c = 6 -> W(Rnd({2, 3, 5, 7, 10, 31, 32, 33, 63, 64, 127, 128, 255, 256, 257, 1000, 65535, 65536}))
      [] c = 7 -> Neg(W(Rnd(1..300))) [] c = 8 -> RandWord(1) [] c = 9 -> APow(1)
      [] c = 10 -> LET a == Rnd(1..31) IN [i \in 1..32 |-> IF i <= a THEN 0 ELSE RB(i)]
      [] c = 11 -> LET a == Rnd(1..31) IN [i \in 1..32 |-> IF i <= a THEN 255 ELSE RB(i)]
      [] c = 12 -> Sub(APow(1), One)
      [] OTHER -> W(Rnd(0..300))
PushB(w) == LET k == IF ByteLen(w) = 0 THEN 1 ELSE ByteLen(w) IN <<95 + k>> \o SubSeq(w, 33 - k, 32)
PushI(i) == PushB(W(i))
PushAny(w) == IF P(80) THEN PushB(w) ELSE LET k == Rnd((IF ByteLen(w) = 0 THEN 1 ELSE ByteLen(w))..32) IN <<95 + k>> \o SubSeq(w, 33 - k, 32)
Here == Len(code)
(* a piece of code: its bytes, how it changes the depth, whether it takes a slot *)
Pc(b, d) == [b |-> b, d |-> d, s |-> 0]
Slot(b, d) == [b |-> b \o PushI(512 + 32 * slot) \o <<82>>, d |-> d, s |-> 1]   \* keep a symbol
Ops2 == Binary \ {10}
AnExp(k) == LET c == Rnd(1..4) IN CASE c = 1 -> W(Rnd(0..20)) [] c = 2 -> W(Rnd(0..300)) [] c = 3 -> W(256 * Rnd(1..255)) [] OTHER -> APow(1)
Arg(op, i) == IF op \in {26, 11} /\ i = 1 THEN (IF P(80) THEN W(Rnd(0..34)) ELSE AWord(1))
              ELSE IF op \in {27, 28, 29} /\ i = 1 THEN (IF P(80) THEN W(Rnd(0..260)) ELSE AWord(1)) ELSE AWord(1)
MOff(k) == Rnd({0, 0, 1, 5, 31, 32, 33, 64, 96, 100, 160, 200, 256})
MLen(k) == Rnd({0, 1, 4, 20, 31, 32, 33, 64, 80})
Far(k) == LET c == Rnd(1..3) IN CASE c = 1 -> Ones [] c = 2 -> W(100000000) [] OTHER -> APow(1)
DOff(k) == IF P(75) THEN W(Rnd({0, 0, 1, 3, 4, 31, 32, 33, 64, 200, 1000})) ELSE AWord(1)
Key(k) == IF P(80) THEN W(Rnd(0..3)) ELSE AWord(1)
Val(k) == IF P(40) THEN W(Rnd(0..2)) ELSE AWord(1)
Dest(k) == [i \in 1..32 |-> IF i <= 11 THEN 0 ELSE IF i = 32 THEN (IF P(93) THEN 0 ELSE 1) ELSE RB(i)]
OtherTok == [i \in 1..32 |-> IF i <= 22 THEN 0 ELSE 7]
Neutral(k) == LET c == Rnd(1..4) IN
    CASE c = 1 -> PushI(Rnd(0..255)) \o PushI(MOff(1)) \o <<83>> [] c = 2 -> PushB(AWord(1)) \o <<80>> [] c = 3 -> <<91>> [] OTHER -> PushB(AWord(1)) \o PushI(MOff(1)) \o <<82>>
Piece(k) ==
    CASE k \in 1..6 -> Pc(PushAny(AWord(1)), 1)
      [] k \in 7..16 -> LET op == Rnd(Ops2) IN
            IF dep >= 2 /\ P(40) THEN Pc(<<op>>, -1) ELSE Pc(PushB(Arg(op, 2)) \o PushB(Arg(op, 1)) \o <<op>>, 1)
      [] k = 17 -> Pc(PushB(AnExp(1)) \o PushB(AWord(1)) \o <<10>>, 1)
      [] k \in {18, 19} -> LET op == Rnd(Ternary) IN IF dep >= 3 /\ P(30) THEN Pc(<<op>>, -2) ELSE Pc(PushB(AWord(1)) \o PushB(AWord(1)) \o PushB(AWord(1)) \o <<op>>, 1)
      [] k = 20 -> IF dep >= 1 THEN Pc(<<Rnd(Unary)>>, 0) ELSE Pc(PushB(AWord(1)), 1)
      [] k \in {21, 22} -> IF dep >= 1 THEN Pc(<<127 + Rnd(1..(IF dep < 16 THEN dep ELSE 16))>>, 1) ELSE Pc(PushB(AWord(1)), 1)
      [] k \in {23, 24} -> IF dep >= 2 THEN Pc(<<143 + Rnd(1..(IF dep < 17 THEN dep - 1 ELSE 16))>>, 0) ELSE Pc(PushB(AWord(1)), 1)
      [] k = 25 -> IF dep >= 1 THEN Pc(<<80>>, -1) ELSE Pc(<<91>>, 0)
      [] k \in {26, 27} -> IF dep >= 1 /\ P(60) THEN Pc(PushI(MOff(1)) \o <<Rnd({82, 82, 83})>>, -1) ELSE Pc(PushB(AWord(1)) \o PushI(MOff(1)) \o <<Rnd({82, 82, 83})>>, 0)
      [] k = 28 -> Pc(PushI(MOff(1)) \o <<81>>, 1)
      [] k \in {29, 30} -> Pc(PushB(DOff(1)) \o <<53>>, 1)
      [] k = 31 -> Pc(PushI(MLen(1)) \o PushB(DOff(1)) \o PushI(MOff(1)) \o <<55>>, 0)
      [] k = 32 -> Pc(PushI(MLen(1)) \o PushB(DOff(1)) \o PushI(MOff(1)) \o <<57>>, 0)
      [] k = 33 -> Pc(<<Rnd(Size)>>, 1)
      [] k = 34 -> LET c == Rnd({241, 242}) IN   \* a send of this contract
            LET args == PushI(IF P(30) THEN 0 ELSE MLen(1)) \o PushI(MOff(1)) \o PushI(Rnd({0, 0, 1, 5, 30})) \o PushB(IF P(93) THEN Vite ELSE OtherTok) \o PushB(Dest(1)) IN
            IF c = 241 THEN Pc(args \o <<241>>, 0) ELSE Slot(args \o <<242>>, 0)
      [] k = 35 -> Pc(PushB(Key(1)) \o <<84>>, 1)
      [] k \in 36..38 -> IF dep >= 1 /\ P(30) THEN Pc(PushB(Key(1)) \o <<85>>, -1) ELSE Pc(PushB(Val(1)) \o PushB(Key(1)) \o <<85>>, 0)
      [] k = 39 -> LET t == Rnd(0..4) IN Pc(FlattenSeq([i \in 1..t |-> PushB(AWord(i))]) \o PushI(MLen(1)) \o PushI(MOff(1)) \o <<160 + t>>, 0)
      [] k = 40 -> LET g == [i \in 1..Rnd(0..6) |-> RB(i)]  x == PushI(0) IN     \* jump over anything
            LET at == Here + 4 + Len(g) IN Pc(<<97, at \div 256, at % 256, 86>> \o g \o (IF g # <<>> /\ P(50) THEN <<>> ELSE <<>>) \o <<91>>, 0)
      [] k \in {41, 42} -> LET g == Neutral(1)  cb == IF dep >= 1 /\ P(50) THEN <<128>> ELSE PushB(AWord(1)) IN   \* if
            LET at == Here + Len(cb) + 4 + Len(g) IN Pc(cb \o <<97, at \div 256, at % 256, 87>> \o g \o <<91>>, 0)
      [] k = 43 -> IF ~P(WLoop) THEN Pc(<<91>>, 0) ELSE     \* a loop of a few rounds, leaving its counter
            LET c == PushI(Rnd(1..6))  g == Neutral(1)  at == Here + Len(c) IN
            Pc(c \o <<91>> \o g \o PushI(1) \o <<144, 3, 128, 97, at \div 256, at % 256, 87>>, 1)
      [] k \in 44..47 -> LET op == Rnd(Ctx) IN Slot(<<op>>, 0)
      [] k = 48 -> Slot(PushB(IF P(80) THEN Vite ELSE OtherTok) \o <<49>>, 0)
      [] k \in {49, 50} -> Slot(PushI(MLen(1)) \o PushI(MOff(1)) \o <<Rnd({32, 33})>>, 0)
      [] k = 51 -> IF ~P(WSto) THEN Pc(<<91>>, 0) ELSE    \* one key again and again
            LET q == W(Rnd(0..1)) IN Pc(FlattenSeq([i \in 1..Rnd(2..5) |-> PushI(Rnd(0..2) + 0 * i) \o PushB(q) \o <<85>>]), 0)
      [] k = 52 -> IF ~P(WEnd) THEN Pc(<<91>>, 0) ELSE   \* an end
            LET c == Rnd(1..9) IN
            (CASE c = 1 -> Pc(<<Rnd({i \in 12..255 : ~Valid(i) /\ i \notin {74, 75}})>>, 0)
              [] c = 2 -> Pc(PushB(AWord(1)) \o <<86>>, 0)
              [] c = 3 -> Pc(PushI(Rnd(0..Here)) \o <<86>>, 0)
              [] c = 4 -> Pc(PushI(MLen(1)) \o PushI(MOff(1)) \o <<253>>, 0)
              [] c = 5 -> Pc(PushI(MLen(1)) \o PushI(MOff(1)) \o <<243>>, 0)
              [] c = 6 -> Pc(<<0>>, 0)
              [] c = 7 -> Pc(FlattenSeq([i \in 1..dep |-> <<80>>]) \o <<Rnd({1, 8, 9, 21, 80, 82, 85, 86, 87, 128, 144, 160, 241, 243})>>, 0)
              [] c = 8 -> Pc(PushB(AWord(1)) \o PushB(Far(1)) \o <<Rnd({81, 82, 83})>>, 0)
              [] c = 9 -> Pc(PushB(IF P(50) THEN One ELSE Zero) \o PushB(Zero) \o PushB(Zero) \o <<62>>, 0))
      [] k = 53 -> IF ~P(WBig) THEN Pc(<<91>>, 0) ELSE   \* the limits: stack, keys written, quota
            LET lim == Rnd(1..4) IN
            (CASE lim \in {1, 2} -> LET t == (IF dep < 1000 THEN 1024 - dep ELSE 1) + Rnd({-1, 0, 1, 2}) IN
                    Pc([i \in 1..t |-> 88] \o (IF P(50) THEN <<Rnd({80, 1, 144, 128})>> ELSE <<>>) \o (IF P(70) THEN [i \in 1..t - Rnd(2..4) |-> 80] ELSE <<>>), 0)
              [] lim = 3 -> LET v == IF P(70) THEN 0 ELSE 1  t == Rnd({60, 66, 98, 99, 100, 101}) IN Pc(FlattenSeq([i \in 1..t |-> PushI(v) \o PushI(i) \o <<85>>]), 0)
              [] OTHER -> LET b == Rnd({20000, 31000, 31250, 31500, 33000}) IN Pc(PushI(1) \o PushI(32 * b) \o <<Rnd({82, 83})>>, 0))
      [] OTHER -> Pc(<<91>>, 0)
Room == ph = "build" /\ n < Size0
FarOk(b) == TRUE
gBuild == Room /\ \E k \in R(1..53) : \E p \in {Piece(k)} :
    /\ code' = code \o p.b /\ dep' = (IF dep + p.d < 0 THEN 0 ELSE dep + p.d) /\ slot' = (slot + p.s) % 8 /\ n' = n + 1
    /\ UNCHANGED <<sto, bal, m, env, hist, ph, skip>>
Epi == LET k == IF dep < 12 THEN dep ELSE 12  end == 768 + 32 * k IN
    FlattenSeq([i \in 1..k |-> PushI(768 + 32 * (i - 1)) \o <<82>>]) \o PushI(end) \o PushI(0) \o <<160>> \o PushI(end) \o PushI(0) \o <<243>>
gDeploy == /\ ph = "build" /\ n >= Size0 /\ ph' = "ready" /\ n' = n + 1
    /\ \E cut \in {IF P(8) THEN Rnd(1..20) ELSE 0} : code' = (IF cut > 0 THEN SubSeq(code, 1, IF cut < Len(code) THEN Len(code) - cut ELSE 1) ELSE code \o Epi)
    /\ hist' = <<[a |-> "deploy", code |-> code']>>
    /\ skip' = (\E p \in Instr(code') : CodeAt(code', p) \in {74, 75})     \* a contract that asks for random numbers
    /\ UNCHANGED <<sto, bal, m, env, dep, slot>>
DataOf(k) == LET c == Rnd(1..4) IN CASE c = 1 -> <<>> [] c = 2 -> [i \in 1..Rnd({1, 4, 31, 33}) |-> RB(i)] [] OTHER -> AWord(1) \o AWord(2) \o [i \in 1..Rnd(0..5) |-> RB(i)]
gCall == /\ ph = "ready" /\ Len(hist) <= Calls /\ m.out = "idle"
    /\ \E d \in {DataOf(1)}, a \in R({0, 0, 10, 50}), mode \in R({"on", "on", "on", "off"}) : Begin(mode, d, IF mode = "on" THEN a ELSE 0)
    /\ n' = n + 1 /\ UNCHANGED <<hist, ph, dep, slot, skip>>
(* the one known deviation: SAR of zero by 256 or more *)
Odd == m.out = "run" /\ CodeAt(code, m.pc) = 29 /\ Len(m.st) >= 2 /\ m.st[2] = Zero /\ ~SmallBelow(m.st[1], 256)
gStep == Step /\ n' = n + 1 /\ skip' = (skip \/ Odd) /\ UNCHANGED <<hist, ph, dep, slot>>
Pairs(f) == {<<k, f[k]>> : k \in DOMAIN f}
gEnd == /\ End /\ n' = n + 1
    /\ hist' = Append(hist, [a |-> "call", mode |-> env.mode, data |-> env.data, amt |-> env.amt, good |-> Good, out |-> m.out,
            used |-> (IF m.out = "quota" THEN 0 ELSE Limit - m.q), logs |-> m.logs, sends |-> m.sends, syms |-> m.syms, ret |-> m.ret, held |-> bal + env.amt, bal |-> bal', sto |-> Pairs(sto')])
    /\ UNCHANGED <<ph, dep, slot, skip>>
gDone == ph = "ready" /\ Len(hist) > Calls /\ m.out = "idle" /\ ph' = "done" /\ UNCHANGED <<vars, hist, dep, slot, n, skip>>
GenInit == code = <<>> /\ sto = <<>> /\ bal = 0 /\ m = Idle /\ env = [mode |-> "none", data |-> <<>>, amt |-> 0]
           /\ hist = <<>> /\ ph = "build" /\ dep = 0 /\ slot = 0 /\ n = 0 /\ skip = FALSE
GenNext == gBuild \/ gDeploy \/ gCall \/ gStep \/ gEnd \/ gDone
GenSpec == GenInit /\ [][GenNext]_<<vars, gvars>>
Emit == (ph = "done" /\ ~skip) => PrintT("TRACE " \o ToJson(hist))
=============================================================================
