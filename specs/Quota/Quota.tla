------------------------------- MODULE Quota -------------------------------
(***************************************************************************)
(* Quota accounting.  Every account block consumes quota: the part that    *)
(* staking pays for (q) and the total (qu).  What an account may spend is  *)
(* computed from the last W snapshots, the unconfirmed blocks being the    *)
(* last item.  Snapshots, rollbacks of any depth, restarts.                *)
(*                                                                         *)
(*   unc   unconfirmed blocks in the order of their insertion              *)
(*   conf  snapshots that confirm something: [h, bs]                       *)
(*   tip   height of the latest snapshot (1: genesis)                      *)
(*   lo    redo logs exist for the snapshots lo..tip                       *)
(*   fl    what is on disk                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
CONSTANTS Users, QS(_), W, Retain, Base, PerByte, Limit

VARIABLES unc, conf, tip, lo, fl, next
vars == <<unc, conf, tip, lo, fl, next>>

Init == unc = <<>> /\ conf = <<>> /\ tip = 1 /\ lo = 1 /\ fl = [tip |-> 1, conf |-> <<>>, lo |-> 1] /\ next = 1

Mx(a, b) == IF a > b THEN a ELSE b
Mn(a, b) == IF a < b THEN a ELSE b
Rng(s) == {s[i] : i \in 1..Len(s)}
SumSq(s, F(_)) == LET f[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE f[i - 1] + F(s[i]) IN f[Len(s)]
ConfBlocks == LET f[i \in 0..Len(conf)] == IF i = 0 THEN <<>> ELSE f[i - 1] \o conf[i].bs IN f[Len(conf)]
All == ConfBlocks \o unc

(* the window: W - 1 snapshots after genesis, and the unconfirmed blocks *)
First == Mx(2, tip - W + 2)
WinLen == tip - First + 2
Of(u, bs) == SelectSeq(bs, LAMBDA b : b.u = u)
Item(u, bs) == LET s == Of(u, bs) IN [n |-> Len(s), q |-> SumSq(s, LAMBDA b : b.q), qu |-> SumSq(s, LAMBDA b : b.qu)]
InWin == SelectSeq(conf, LAMBDA c : c.h >= First)

(* what is left of the quota that the confirmed part of the window grants   *)
Confirmed(u) ==
    LET w == InWin
        f[i \in 0..Len(w)] ==      \* after the i-th snapshot with blocks: <<height, left>>
            IF i = 0 THEN <<First - 1, 0>>
            ELSE LET l == f[i - 1][2] + (w[i].h - f[i - 1][1]) * QS(u) IN <<w[i].h, Mx(0, l - Item(u, w[i].bs).q)>>
        e == f[Len(w)]
    IN e[2] + (tip - e[1]) * QS(u)
SnapCur(u) == Confirmed(u) + QS(u)
UncQ(u) == Item(u, unc).q
Overdrawn(u) == SnapCur(u) < UncQ(u)
Avail(u) == IF Overdrawn(u) THEN 0 ELSE SnapCur(u) - UncQ(u)
Avg(u) == LET w == InWin
              n == SumSq(w, LAMBDA c : Item(u, c.bs).n) + Item(u, unc).n
              t == SumSq(w, LAMBDA c : Item(u, c.bs).qu) + Item(u, unc).qu IN IF n = 0 THEN 0 ELSE t \div n
HasPow(u) == \E i \in 1..Len(unc) : unc[i].u = u /\ unc[i].pow > 0

(* a block of cost c with proof of work worth pow *)
Total(u, pow) == Mn(Limit, Avail(u) + pow)
CanDo(u, c, pow) == ~Overdrawn(u) /\ (pow > 0 => ~HasPow(u)) /\ c <= Total(u, pow)
Blk(u, kind, to, src, c, pow) == [id |-> next, u |-> u, k |-> kind, to |-> to, src |-> src, pow |-> pow,
                                  q |-> Mx(0, c - Mn(pow, Limit)), qu |-> c]
SendCost(n) == Base + PerByte * n
Pending(v) == {b \in Rng(All) : b.k = "s" /\ b.to = v} 
Received == {b.src : b \in {x \in Rng(All) : x.k = "r"}}
Open(v) == {b \in Pending(v) : b.id \notin Received}

Put(b) == unc' = Append(unc, b) /\ next' = next + 1 /\ UNCHANGED <<conf, tip, lo, fl>>
Send(u, v, n, pow) == CanDo(u, SendCost(n), pow) /\ Put(Blk(u, "s", v, 0, SendCost(n), pow))
Recv(v, s, pow) == s \in Open(v) /\ CanDo(v, Base, pow) /\ Put(Blk(v, "r", "", s.id, Base, pow))

(* n snapshots, the first confirms the first cut unconfirmed blocks *)
Snap(n, cut) ==
    /\ cut \in 0..Len(unc)
    /\ conf' = IF cut = 0 THEN conf ELSE Append(conf, [h |-> tip + 1, bs |-> SubSeq(unc, 1, cut)])
    /\ unc' = SubSeq(unc, cut + 1, Len(unc))
    /\ tip' = tip + n
    /\ lo' = Mx(lo, tip + n - Retain + 1)
    /\ UNCHANGED <<fl, next>>

(* deleting unconfirmed block i: with it go what follows in its account and the receives of what goes *)
RECURSIVE Doomed(_, _)
Doomed(D, i) == IF i > Len(unc) THEN D
                ELSE Doomed(IF unc[i].id \in D \/ (\E j \in 1..(i - 1) : unc[j].id \in D /\ (unc[j].u = unc[i].u \/ unc[i].src = unc[j].id))
                            THEN D \cup {unc[i].id} ELSE D, i + 1)
DelAcct(i) == /\ i \in 1..Len(unc)
              /\ LET D == Doomed({unc[i].id}, 1) IN unc' = SelectSeq(unc, LAMBDA b : b.id \notin D)
              /\ UNCHANGED <<conf, tip, lo, fl, next>>

(* deleting the snapshots from h on: what h confirmed is unconfirmed again, if its redo log is still there *)
DelSnap(h) ==
    /\ h \in 2..tip
    /\ LET c == SelectSeq(conf, LAMBDA x : x.h = h) IN
       unc' = IF h >= lo /\ c # <<>> THEN c[1].bs ELSE <<>>
    /\ conf' = SelectSeq(conf, LAMBDA x : x.h < h)
    /\ tip' = h - 1
    /\ lo' = Mn(lo, h)
    /\ fl' = [tip |-> tip', conf |-> conf', lo |-> lo']
    /\ UNCHANGED next
Flush == fl' = [tip |-> tip, conf |-> conf, lo |-> lo] /\ UNCHANGED <<unc, conf, tip, lo, next>>
Restart == unc' = <<>> /\ tip' = fl.tip /\ conf' = fl.conf /\ lo' = fl.lo /\ UNCHANGED <<fl, next>>

-----------------------------------------------------------------------------
(* properties *)
Causal == \A i \in 1..Len(All) : All[i].k = "r" => \E j \in 1..(i - 1) : All[j].id = All[i].src
Once == \A i, j \in 1..Len(All) : i # j => All[i].id # All[j].id /\ (All[i].k = "r" /\ All[j].k = "r" => All[i].src # All[j].src)
OnePow == \A u \in Users : Cardinality({i \in 1..Len(unc) : unc[i].u = u /\ unc[i].pow > 0}) <= 1
Bounded == \A u \in Users : Avail(u) <= W * QS(u) /\ Avail(u) >= 0 /\ WinLen <= W
(* nobody spends without stake or work *)
NoFree == \A b \in Rng(All) : b.q + Mn(b.pow, Limit) >= b.qu /\ (QS(b.u) = 0 => b.q = 0) /\ b.qu <= Limit
(* what is confirmed at one height never exceeds what the window can grant *)
PerSnap == \A i \in 1..Len(conf) : \A u \in Users : Item(u, conf[i].bs).q <= W * QS(u)
QuotaInv == Causal /\ Once /\ OnePow /\ Bounded /\ NoFree /\ PerSnap
=============================================================================
