------------------------------ MODULE Consensus ------------------------------
(* Who may produce when, and who produced how much. Both are functions of the chain of snapshot blocks: a block's       *)
(* ancestors decide the candidates and their votes, the members elected for a period, and the counted blocks.           *)
(* There is no other state; whatever an implementation caches must not show.                                            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Json
CONSTANTS SG, CG    \* the snapshot group and a contract group: [gid, n, per, rep, iv, rc, rr]
VARIABLES chain,    \* snapshot blocks: [t: seconds since genesis, who: producing address, w: registrations and votes, seed]
          worlds,   \* registrations and votes: [reg: name -> its producing addresses (latest last), act: active names, vote: voter -> name, bal: voter -> balance]
          per       \* periods with blocks: [p, mem: elected members]
vars == <<chain, worlds, per>>
Gen == 0            \* the producer of the first block

PI(g) == g.iv * g.n * g.per * g.rep
Period(g, t) == t \div PI(g)
Tip == chain[Len(chain)]
Before(t) == LET S == {i \in 1..Len(chain) : chain[i].t < t} IN CHOOSE i \in S : \A j \in S : j <= i
(* the block whose state decides the members of period p *)
ProofS(p) == IF p < 2 THEN 1 ELSE Before((p - 1) * PI(SG))
ProofC(p) == LET s == p * PI(CG) - 75 IN IF s < 0 THEN 1 ELSE Before(s)

World(i) == worlds[chain[i].w]
Sum(f, S) == FoldSet(LAMBDA x, acc : acc + f[x], 0, S)
VotesOf(w, n) == Sum(w.bal, {x \in DOMAIN w.vote : w.vote[x] = n})
Cands(w) == {[name |-> n, addr |-> Last(w.reg[n]), bal |-> VotesOf(w, n)] : n \in w.act}
ByBal(a, b) == a.bal > b.bal \/ (a.bal = b.bal /\ a.name < b.name)
Sorted(S) == SetToSortSeq(S, ByBal)
BalSum(S) == FoldSet(LAMBDA x, acc : acc + x.bal, 0, S)
SeedOf(g, S, h, seed) == h + g.gid + (IF seed = 0 THEN BalSum(S) ELSE seed)
Perms == JsonDeserialize("perm.json")  \* Perms[n][s + 1]: the permutation of 1..n for seed s (Go's generator)
Perm(s, n) == Perms[n][s + 1]
Min2(a, b) == IF a < b THEN a ELSE b

(* blocks and turns of an address within periods lo..hi *)
InPer(lo, hi) == {k \in 1..Len(per) : lo <= per[k].p /\ per[k].p <= hi}
Blocks(lo, hi) == LET P == {per[k].p : k \in InPer(lo, hi)} IN {i \in 1..Len(chain) : Period(SG, chain[i].t) \in P}
Fact(lo, hi, a) == Cardinality({i \in Blocks(lo, hi) : chain[i].who = a})
Exp(lo, hi, a) == SG.per * SG.rep * Cardinality({k \in InPer(lo, hi) : a \in ToSet(per[k].mem)})
Active(lo, hi) == {chain[i].who : i \in Blocks(lo, hi)} \cup UNION {ToSet(per[k].mem) : k \in InPer(lo, hi)}
RateOf(e, f) == IF e = 0 THEN -1 ELSE (f * 1000000) \div e
Rates(p) == LET lo == IF p < 47 THEN 0 ELSE p - 47 IN [a \in Active(lo, p) |-> RateOf(Exp(lo, p, a), Fact(lo, p, a))]

(* the two worst of the first group give way to the two best of the second when they fall short and the others do not *)
Line == 800000
Exchange(A, B, rates) ==
    LET R(x) == IF x.addr \in DOMAIN rates THEN rates[x.addr] ELSE -1
        ByRate(a, b) == R(a) > R(b) \/ (R(a) = R(b) /\ ByBal(a, b))
        SA == SetToSortSeq(A, ByRate)  SB == SetToSortSeq(B, ByRate)
        W == SubSeq(SA, Len(SA) - 1, Len(SA))
        D == SelectSeq(W, LAMBDA x : R(x) >= 0 /\ R(x) < Line)
        I == SelectSeq(SB, LAMBDA x : R(x) > Line)
        k == Min2(Len(D), Min2(2, Len(I)))
        out == {D[i] : i \in (Len(D) - k + 1)..Len(D)}  inn == {I[i] : i \in 1..k}
    IN IF Cardinality(DOMAIN rates) < 2 THEN <<A, B>> ELSE <<(A \ out) \cup inn, (B \ inn) \cup out>>
(* some of the first group stand back for members of the second *)
Choose(g, A, B, h, seed) ==
    LET SA == Sorted(A)  SB == Sorted(B)  n == g.n  len == Len(SA) + Len(SB)
        s == SeedOf(g, A \cup B, h, seed)
        rc == IF n \div 3 > g.rc THEN g.rc ELSE n \div 3
        top == n - rc  all == SA \o SB
    IN IF top * (len - n) > rc * n
       THEN {SA[Perm(s, n)[i]] : i \in 1..top} \cup {SB[Perm(s + 1, len - n)[i]] : i \in 1..rc}
       ELSE {all[Perm(s, len)[i]] : i \in 1..n}
Elect(g, i, rates) ==
    LET w == World(i)  seed == chain[i].seed
        C == Sorted(Cands(w))
        A == {C[k] : k \in 1..Min2(g.n, Len(C))}  B == {C[k] : k \in (g.n + 1)..Min2(g.rr, Len(C))}
        X == Exchange(A, B, rates)
        F == IF B = {} THEN Sorted(A) ELSE Sorted(Choose(g, X[1], X[2], i, seed))
        q == IF Len(F) = 0 THEN <<>> ELSE Perm(SeedOf(g, ToSet(F), i, seed), Len(F))
    IN [k \in 1..Len(F) |-> F[q[k]].addr]
NoRates == [a \in {} |-> 0]
ElectS(i) == LET p == Period(SG, chain[i].t) - 2 IN Elect(SG, i, IF p > 0 THEN Rates(p) ELSE NoRates)
MemS(p) == ElectS(ProofS(p))
MemC(p) == Elect(CG, ProofC(p), NoRates)
(* turns of a period: who, from when *)
Plan(g, p, mem) == IF mem = <<>> THEN <<>> ELSE [k \in 1..(Len(mem) * g.per * g.rep) |->
    LET r == (k - 1) \div (Len(mem) * g.per)  m == ((k - 1) % (Len(mem) * g.per)) \div g.per  c == (k - 1) % g.per
    IN <<mem[m + 1], p * PI(g) + g.iv * (r * g.n * g.per + m * g.per + c)>>]
May(a, t) == LET p == Period(SG, t)  pl == Plan(SG, p, MemS(p)) IN \E k \in 1..Len(pl) : pl[k] = <<a, t>>
MayC(a) == a \in ToSet(MemC(Period(CG, Tip.t)))

Init == /\ chain = <<[t |-> 0, who |-> Gen, w |-> 1, seed |-> 0]>> /\ per = <<>>
(* a block for a turn of period p *)
Produce(bs) == LET p == Period(SG, bs[1].t) IN
    /\ chain' = chain \o bs
    /\ per' = IF per # <<>> /\ Last(per).p = p THEN per ELSE Append(per, [p |-> p, mem |-> MemS(p)])
    /\ UNCHANGED worlds
Rollback(n) ==
    /\ n >= 1 /\ n < Len(chain) /\ chain' = SubSeq(chain, 1, n) /\ UNCHANGED worlds
    /\ per' = SelectSeq(per, LAMBDA x : \E i \in 2..n : Period(SG, chain[i].t) = x.p)
Change(w) == worlds' = Append(worlds, w) /\ UNCHANGED <<chain, per>>
Restart == UNCHANGED vars

(* ------- what has to hold ------- *)
Names == DOMAIN worlds[1].reg
Distinct(s) == \A i, j \in 1..Len(s) : s[i] = s[j] => i = j
(* at most one producer at a time, never more than n, and only candidates of the first rr *)
Eligible(g, i) == LET C == Sorted(Cands(World(i))) IN {C[k].addr : k \in 1..Min2(g.rr, Len(C))}
ElectionOk(g, i, mem) ==
    LET C == Sorted(Cands(World(i)))  E == Eligible(g, i) IN
    /\ Distinct(mem) /\ ToSet(mem) \subseteq E /\ Len(mem) = Min2(g.n, Len(C))
    /\ Len(C) <= g.n => ToSet(mem) = E
OneProducer(g, p, mem) == LET pl == Plan(g, p, mem) IN
    /\ \A i, j \in 1..Len(pl) : i < j => pl[i][2] + g.iv <= pl[j][2]
    /\ \A i \in 1..Len(pl) : p * PI(g) <= pl[i][2] /\ pl[i][2] + g.iv <= (p + 1) * PI(g)
Periods == 0..(Period(SG, Tip.t) + 2)
Elections == \A p \in Periods : /\ ElectionOk(SG, ProofS(p), MemS(p)) /\ OneProducer(SG, p, MemS(p))
                                /\ ElectionOk(CG, ProofC(p), MemC(p)) /\ OneProducer(CG, p, MemC(p))
(* every block but the first is counted once, by period, hour and day alike *)
Counted == LET hi == Period(SG, Tip.t) IN
    /\ Cardinality(Blocks(0, hi)) = Len(chain) - (IF \E k \in 1..Len(per) : per[k].p = 0 THEN 0 ELSE 1)
    /\ \A k \in 1..Len(per) : per[k].mem = MemS(per[k].p)
(* the members of a period are known once the period two before it is over: later blocks do not matter *)
Stable == [][\A k \in 1..Len(per) : k <= Len(per') => (per'[k].p = per[k].p => per'[k].mem = per[k].mem)]_vars
=============================================================================
