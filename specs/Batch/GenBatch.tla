------------------------------ MODULE GenBatch ------------------------------
EXTENDS Batch, Json, TLC
CONSTANTS Depth, WSnap, WRun
VARIABLE hist
Rnd(X) == RandomElement({x \in X : Len(hist) >= 0})
R(X) == {Rnd(X)}
P(n) == Rnd(1..100) <= n
LastOf(o) == LET M == {i \in Ids : items[i].o = o} IN IF M = {} THEN 0 ELSE CHOOSE i \in M : \A j \in M : j <= i
Others(o) == {i \in Ids : items[i].o # o /\ ~IsS(i) /\ i + 25 >= Len(items)}
Room == Len(hist) < Depth
Musts == {<<i, {j \in In : Before(j, i)}>> : i \in In}
Log(r) == hist' = Append(hist, r)
(* a new block; most are offered at once *)
gMake == \E o \in R(Owners), k \in R(1..10) :
    \E r \in {IF k <= 5 \/ Others(o) = {} THEN {} ELSE R(Others(o))} : Room
    /\ Make(o, LastOf(o), r) /\ Log([a |-> "make", id |-> Len(items) + 1, o |-> o, prev |-> LastOf(o), refs |-> r])
gMakeS == Room /\ P(WSnap) /\ \E A \in {{o \in Owners : P(60)}} : \E r \in {{LastOf(o) : o \in A} \ {0}} :
    Make(S, LastOf(S), r) /\ Log([a |-> "make", id |-> Len(items) + 1, o |-> S, prev |-> LastOf(S), refs |-> r])
Frees == {i \in Ids : Free(i)}
Ready == {i \in Frees : Known(i)}
gOffer == Ready # {} /\ Room /\ \E i \in {IF P(50) THEN Rnd(Ready) ELSE CHOOSE x \in Ready : \A y \in Ready : x <= y} :
    Offer(i) /\ Log([a |-> "offer", id |-> i])
gRefuse == LET N == {i \in Frees : ~Known(i)} IN N # {} /\ Room /\ P(50) /\ \E i \in R(N) : Refuse(i) /\ Log([a |-> "refuse", id |-> i])
gRun == batch # <<>> /\ Room /\ P(WRun) /\ Run /\ \E f \in {IF P(25) THEN Rnd(In) ELSE 0} : Log([a |-> "run", m |-> Musts, fail |-> f])
gDone == Len(hist) >= Depth /\ UNCHANGED <<vars, hist>>
GenInit == Init /\ hist = <<>>
GenNext == gMake \/ gMake \/ gMake \/ gMakeS \/ gOffer \/ gOffer \/ gOffer \/ gRefuse \/ gRun \/ gDone
GenSpec == GenInit /\ [][GenNext]_<<vars, hist>>
Emit == (Len(hist) = Depth) => PrintT("TRACE " \o ToJson(hist))
=============================================================================
