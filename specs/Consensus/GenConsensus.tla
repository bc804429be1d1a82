---------------------------- MODULE GenConsensus ----------------------------
EXTENDS Consensus, TLC
CONSTANTS Depth, N, Per, Rep, Iv, Rc, Rr, CN, CPer, CIv, NNames, WRoll, WJump
VARIABLES lazy, wcur, hist
S1 == [gid |-> 1, n |-> N, per |-> Per, rep |-> Rep, iv |-> Iv, rc |-> Rc, rr |-> Rr]
C1 == [gid |-> 2, n |-> CN, per |-> CPer, rep |-> 1, iv |-> CIv, rc |-> 1, rr |-> CN + 2]
Rnd(S) == RandomElement({x \in S : Len(hist) >= 0})
R(S) == {Rnd(S)}
P(n) == Rnd(1..100) <= n
Voters == 1..8
Nm == 1..NNames
W0 == [reg |-> [n \in Nm |-> <<n * 10 + 1>>], act |-> Nm, vote |-> [v \in Voters |-> ((v - 1) % NNames) + 1], bal |-> [v \in Voters |-> (v * 5) % 7]]
GenInit == Init /\ worlds = <<W0>> /\ lazy = {1, 2} /\ wcur = 1 /\ hist = <<>>
Room == Len(hist) < Depth
Log(r) == hist' = Append(hist, r)
ws == <<lazy, wcur>>
Name(a) == a \div 10
P0 == Period(SG, Tip.t)
(* a period's blocks: producers that are lazy miss most of their turns *)
gPeriod == Room /\ \E p \in {LET k == Rnd(1..100) IN IF k <= 20 THEN P0 ELSE IF k <= 92 THEN P0 + 1 ELSE P0 + Rnd({2, 3, 4})} :
    \E pl \in {Plan(SG, p, MemS(p))} :
    \E K \in {{k \in 1..Len(pl) : pl[k][2] > Tip.t /\ Rnd(1..100) + k * 0 <= (IF Name(pl[k][1]) \in lazy THEN 35 ELSE 95)}} :
    \E bs \in {LET q == SetToSortSeq(K, <) IN [i \in 1..Len(q) |-> [t |-> pl[q[i]][2], who |-> IF Rnd(1..100) + i * 0 <= 2 THEN 91 ELSE pl[q[i]][1], w |-> wcur,
                    seed |-> IF Rnd(1..100) + i * 0 <= 50 THEN 0 ELSE Rnd(1..40)]]} :
    bs # <<>> /\ Produce(bs) /\ UNCHANGED ws /\ Log([a |-> "blocks", bs |-> bs])
gJump == Room /\ P(WJump) /\ \E p \in {P0 + Rnd({5, 30, 50, 70, 100})} : \E pl \in {Plan(SG, p, MemS(p))} : pl # <<>> /\
    \E k \in R(1..Len(pl)) : \E bs \in {<<[t |-> pl[k][2], who |-> pl[k][1], w |-> wcur, seed |-> 0]>>} :
    Produce(bs) /\ UNCHANGED ws /\ Log([a |-> "blocks", bs |-> bs])
gRoll == Room /\ Len(chain) > 2 /\ P(WRoll) /\ \E d \in {LET m == Rnd({1, 1, 2, 3, 5, 8, 13, 30}) IN IF m < Len(chain) THEN m ELSE Len(chain) - 1} :
    Rollback(Len(chain) - d) /\ UNCHANGED ws /\ Log([a |-> "roll", n |-> Len(chain) - d])
gRestart == Room /\ P(30) /\ Restart /\ UNCHANGED ws /\ Log([a |-> "restart"])
W == worlds[wcur]
AddrOf(w, n) == Last(w.reg[n]) + 1
Changed(k) == CASE k <= 30 -> [W EXCEPT !.bal[Rnd(Voters)] = Rnd(0..20)]
              [] k <= 60 -> [W EXCEPT !.vote[Rnd(Voters)] = Rnd(Nm)]
              [] k <= 75 -> LET n == Rnd(Nm) IN [W EXCEPT !.reg[n] = IF Len(W.reg[n]) < 6 THEN Append(@, AddrOf(W, n)) ELSE @]
              [] k <= 85 -> [W EXCEPT !.act = IF Cardinality(@) > 2 THEN @ \ {Rnd(@)} ELSE @]
              [] k <= 97 -> [W EXCEPT !.act = @ \cup {Rnd(Nm)}]
              [] OTHER -> [W EXCEPT !.act = {Rnd(Nm)}]
gChange == Room /\ P(60) /\ \E w \in {Changed(Rnd(1..100))} : Change(w) /\ wcur' = Len(worlds) + 1 /\ lazy' = (IF P(20) THEN {Rnd(Nm), Rnd(Nm), Rnd(Nm)} ELSE lazy)
    /\ Log([a |-> "world", w |-> [reg |-> w.reg, act |-> w.act, vote |-> w.vote, bal |-> w.bal]])
(* questions *)
Near == 0..(P0 + 3)
PQ(x) == IF P(70) THEN Rnd({p \in Near : p + 4 >= P0}) ELSE Rnd(Near)
Addrs == {chain[i].who : i \in 1..Len(chain)} \cup {Last(W.reg[n]) : n \in Nm}
NC == UNCHANGED <<vars, ws>>
qElect == \E p \in {PQ(1)} : Room /\ NC /\ Log([a |-> "elect", g |-> 1, p |-> p, pl |-> Plan(SG, p, MemS(p))])
qElectC == \E p \in {(PQ(1) * PI(SG) + Rnd(0..(PI(SG) - 1))) \div PI(CG)} : Room /\ NC /\ Log([a |-> "elect", g |-> 2, p |-> p, pl |-> Plan(CG, p, MemC(p))])
qVerify == \E p \in {PQ(1)} : \E pl \in {Plan(SG, p, MemS(p))} : pl # <<>> /\ Room /\ NC /\
    \E k \in R(1..Len(pl)) : \E a \in {IF P(50) THEN pl[k][1] ELSE Rnd(Addrs)}, t \in {IF P(80) THEN pl[k][2] ELSE pl[k][2] + Rnd({-1, 1, Iv, 5})} :
    t >= 0 /\ Log([a |-> "verify", who |-> a, t |-> t, ok |-> May(a, t)])
qMayC == \E a \in {Rnd(Addrs)} : Room /\ NC /\ Log([a |-> "mayc", who |-> a, ok |-> MayC(a)])
HR == 3600 \div PI(SG)
DR == 24 * HR
Stat(lo, hi) == {<<a, Exp(lo, hi, a), Fact(lo, hi, a)>> : a \in Active(lo, hi)}
Range2(hi) == LET a == Rnd(0..hi)  b == Rnd({0, 0, 1, 2, 3, 6}) IN <<IF P(50) THEN hi ELSE a, b>>
qPeriod == \E r \in {Range2(P0 + 1)} : \E lo \in {IF r[1] > r[2] THEN r[1] - r[2] ELSE 0} : Room /\ NC /\
    Log([a |-> "period", lo |-> lo, hi |-> r[1], st |-> {<<i, Stat(i, i)>> : i \in {x \in lo..r[1] : InPer(x, x) # {}}}])
qHour == \E r \in {Range2(P0 \div HR + 1)} : \E lo \in {IF r[1] > r[2] THEN r[1] - r[2] ELSE 0} : Room /\ NC /\
    Log([a |-> "hour", lo |-> lo, hi |-> r[1], st |-> {<<i, Stat(i * HR, i * HR + HR - 1)>> : i \in {x \in lo..r[1] : InPer(x * HR, x * HR + HR - 1) # {}}}])
Owner(a) == {n \in Nm : \E k \in 1..Len(World(Len(chain)).reg[n]) : World(Len(chain)).reg[n][k] = a}
Day(d) == LET lo == d * DR  hi == d * DR + DR - 1  i == Before((d + 1) * 86400)  C == Sorted(Cands(World(i)))
              top == {C[k] : k \in 1..Min2(SG.rr, Len(C))}
          IN [i |-> d, sum |-> BalSum(top), total |-> Cardinality(Blocks(lo, hi)),
              st |-> {<<c.name, c.bal, FoldSet(LAMBDA a, acc : acc + Exp(lo, hi, a), 0, {a \in Active(lo, hi) : Owner(a) = {c.name}}),
                                       FoldSet(LAMBDA a, acc : acc + Fact(lo, hi, a), 0, {a \in Active(lo, hi) : Owner(a) = {c.name}})>> : c \in top}]
qDay == \E hi \in {LET m == P0 \div DR IN IF P(60) THEN m ELSE Rnd(0..(m + 1))} : \E lo \in {IF hi > 2 THEN Rnd({hi, hi - 1, hi - 2}) ELSE Rnd(0..hi)} : Room /\ NC /\
    Log([a |-> "day", lo |-> lo, hi |-> hi, st |-> {Day(d) : d \in {x \in lo..hi : InPer(x * DR, x * DR + DR - 1) # {}}}])
qRate == \E p \in {PQ(1)} : Room /\ NC /\ Log([a |-> "rate", p |-> p, st |-> {<<a, Rates(p)[a]>> : a \in DOMAIN Rates(p)}])
qVotes == \E i \in R(1..Len(chain)) : \E t \in {chain[i].t + 1} : Room /\ NC /\
    Log([a |-> "votes", t |-> t, i |-> Before(t), st |-> [k \in 1..Cardinality(World(Before(t)).act) |-> LET c == Sorted(Cands(World(Before(t))))[k] IN <<c.name, c.addr, c.bal>>]])
gDone == Len(hist) >= Depth /\ UNCHANGED <<vars, ws, hist>>
GenNext == gPeriod \/ gPeriod \/ gPeriod \/ gPeriod \/ gPeriod \/ gJump \/ gRoll \/ gRestart \/ gChange \/ qElect \/ qElect \/ qElectC \/ qVerify \/ qMayC \/ qPeriod \/ qHour \/ qDay \/ qRate \/ qVotes \/ gDone
GenSpec == GenInit /\ [][GenNext]_<<vars, ws, hist>>
Emit == (Len(hist) = Depth) => PrintT("TRACE " \o ToJson([g |-> <<N, Per, Rep, Iv, Rc, Rr, CN, CPer, CIv>>, nn |-> NNames, h |-> hist]))
=============================================================================
