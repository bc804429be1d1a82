------------------------------ MODULE GenQuota ------------------------------
(* Behaviours of Quota, printed as JSON for replay. *)
EXTENDS Quota, Json
CONSTANTS Depth, WDelSnap, WDelAcct, WRestart, WDeep, MaxTip
VARIABLE hist
Rnd(S) == RandomElement({x \in S : Len(hist) >= 0})
R(S) == {Rnd(S)}
P(n) == Rnd(1..100) <= n
gQS(u) == CASE u = "u1" -> 280000 [] u = "u2" -> 20720 [] u = "u3" -> 1960 [] OTHER -> 0

Item3(i) == <<i.n, i.q, i.qu>>
Obs == LET w == InWin IN
    [tip |-> tip, len |-> WinLen,
     used |-> UNION {{<<u, tip + 1 - w[i].h, Item3(Item(u, w[i].bs))>> : i \in {j \in 1..Len(w) : Item(u, w[j].bs).n > 0}} : u \in Users}
              \cup {<<u, 0, Item3(Item(u, unc))>> : u \in {v \in Users : Item(v, unc).n > 0}},
     glob |-> <<SumSq(w, LAMBDA c : Len(c.bs)), SumSq(w, LAMBDA c : SumSq(c.bs, LAMBDA b : b.q)), SumSq(w, LAMBDA c : SumSq(c.bs, LAMBDA b : b.qu))>>,
     acc |-> {<<u, QS(u), Avail(u), SnapCur(u), Avg(u), Overdrawn(u), HasPow(u)>> : u \in Users},
     live |-> {b.id : b \in Rng(All)}, open |-> {b.id : b \in UNION {Open(u) : u \in Users}},
     last |-> {<<u, LET x == Of(u, All) IN IF x = <<>> THEN 0 ELSE x[Len(x)].id,
                 Cardinality({b \in Rng(All) : b.u = u /\ b.k = "r"}) - Cardinality({b \in Rng(All) : b.u = u /\ b.k = "s"})>> : u \in Users},
     at |-> {<<b.id, c.h>> : <<b, c>> \in UNION {{<<b, c>> : b \in Rng(c.bs)} : c \in Rng(conf)}},
     unc |-> [i \in 1..Len(unc) |-> unc[i].id]]
Room == Len(hist) < Depth
Log(r) == hist' = Append(hist, r @@ [o |-> Obs'])
Bytes(u, k) ==  \* mostly what just fits or just not
    LET most == (Total(u, 0) - Base) \div PerByte IN
    CASE k = 1 -> 0 [] k = 2 -> 30 [] k = 3 -> Mn(5000, Mx(0, most)) [] k = 4 -> Mx(0, Mn(34964, most)) [] k = 5 -> Mx(0, Mn(34964, most) + 1) [] OTHER -> 100
(* send: accepted or refused, as the model says *)
gSend == \E u \in R(Users), v \in R(Users), k \in R({1, 1, 2, 3, 4, 5, 6}), pw \in R({0, 0, 0, 21000, 42000}) :
    \E n \in {Bytes(u, k)} : \E pow \in {IF u = "u4" \/ P(30) THEN pw ELSE 0} : Room
    /\ IF CanDo(u, SendCost(n), pow) THEN Send(u, v, n, pow) /\ Log([a |-> "send", id |-> next, u |-> u, v |-> v, n |-> n, pow |-> pow, q |-> Blk(u, "s", v, 0, SendCost(n), pow).q, qu |-> SendCost(n)])
       ELSE UNCHANGED vars /\ Log([a |-> "nosend", u |-> u, v |-> v, n |-> n, pow |-> pow])
gRecv == LET O == UNION {Open(v) : v \in Users} IN /\ O # {} /\ Room
    /\ \E s \in R(O), pw \in R({0, 0, 21000, 42000}) : LET v == s.to  pow == IF v = "u4" \/ P(20) THEN pw ELSE 0 IN
       \E pow2 \in {pow} : IF CanDo(v, Base, pow2) THEN Recv(v, s, pow2) /\ Log([a |-> "recv", id |-> next, u |-> v, src |-> s.id, pow |-> pow2, q |-> Blk(v, "r", "", s.id, Base, pow2).q, qu |-> Base])
       ELSE UNCHANGED vars /\ Log([a |-> "norecv", u |-> v, src |-> s.id, pow |-> pow2])
gSnap == \E n \in R({1, 1, 1, 2, 7, 30, 72, 73, 74, 75, 76}), all \in R({TRUE, TRUE, FALSE}), c \in R(0..Len(unc)) :
    Room /\ tip + n <= MaxTip /\ Snap(n, IF all THEN Len(unc) ELSE c) /\ Log([a |-> "snap", n |-> n, cut |-> IF all THEN Len(unc) ELSE c])
gJump == \E n \in R({130, 500, 600, 610}) : Room /\ P(WDeep) /\ tip + n <= MaxTip /\ Snap(n, Len(unc)) /\ Log([a |-> "snap", n |-> n, cut |-> Len(unc)])
gDelAcct == unc # <<>> /\ Room /\ P(WDelAcct) /\ \E i \in R(1..Len(unc)) : DelAcct(i) /\ Log([a |-> "delacct", id |-> unc[i].id])
(* where: the last few, any, one with blocks, near the ends of what is kept *)
gDelSnap == /\ tip > 1 /\ Room /\ P(WDelSnap)
    /\ \E k \in R(1..8) :
       \E h0 \in {CASE k \in {1, 2} -> Rnd(Mx(2, tip - 3)..tip)
                    [] k = 3 -> Mx(2, tip - Rnd(70..80))
                    [] k = 4 -> IF conf # <<>> THEN Rnd({c.h : c \in Rng(conf)}) ELSE tip
                    [] k = 5 -> Mx(2, tip - Rnd({118, 119, 120, 121, 240}))
                    [] k = 6 -> IF P(WDeep) THEN Rnd({h \in lo - 1..lo + 1 : h >= 2 /\ h <= tip} \cup {tip}) ELSE tip
                    [] k = 7 -> IF P(WDeep) THEN Mx(2, tip - Rnd(520..600)) ELSE tip
                    [] OTHER -> IF P(30) THEN Rnd(2..Mn(4, tip)) ELSE tip} :
       \E h \in {h0} : DelSnap(h) /\ Log([a |-> "delsnap", h |-> h])
gFlush == Room /\ P(25) /\ Flush /\ Log([a |-> "flush"])
gRestart == Room /\ P(WRestart) /\ Restart /\ Log([a |-> "restart"])
gDone == Len(hist) >= Depth /\ UNCHANGED <<vars, hist>>
GenInit == Init /\ hist = <<>>
GenNext == gSend \/ gSend \/ gSend \/ gRecv \/ gRecv \/ gSnap \/ gSnap \/ gJump \/ gDelAcct \/ gDelSnap \/ gFlush \/ gRestart \/ gDone
GenSpec == GenInit /\ [][GenNext]_<<vars, hist>>
Emit == (Len(hist) = Depth) => PrintT("TRACE " \o ToJson(hist))
=============================================================================
