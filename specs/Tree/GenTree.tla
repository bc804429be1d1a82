------------------------------ MODULE GenTree -------------------------------
EXTENDS Tree, Json, TLC
CONSTANTS Depth, WRoll, WSwitch
VARIABLE hist
Rnd(S) == RandomElement({x \in S : Len(hist) >= 0})
R(S) == {Rnd(S)}
P(n) == Rnd(1..100) <= n
Obs == [disk |-> disk, head |-> head, wait |-> Waiting,
        leaves |-> {<<l, Path(l), Common(l, head)>> : l \in Leaves}, main |-> Path(head)]
Room == Len(hist) < Depth
Log(r) == hist' = Append(hist, r @@ [o |-> Obs'])
Recent == {b \in Ids : b + 6 >= Len(parent)}
gAdd == \E k \in R(1..10) :
    \E p \in {CASE k <= 4 -> head [] k <= 7 -> Rnd({head} \cup Leaves) [] k <= 9 -> Rnd(Recent) [] OTHER -> Rnd(Ids)} :
    Room /\ Add(p) /\ Log([a |-> "add", id |-> Len(parent) + 1, p |-> p])
gInsert == LET C == Children(Tip)  M == {c \in C : Through(head, c)} IN C # {} /\ Room /\
    \E b \in {IF P(75) /\ M # {} THEN Rnd(M) ELSE Rnd(C)} : Insert(b) /\ Log([a |-> "insert", id |-> b])
gNew == Room /\ P(20) /\ InsertNew /\ Log([a |-> "insnew", id |-> Len(parent) + 1, p |-> Tip])
gSwitch == LET S == {l \in Leaves : Through(l, Tip)} IN S # {} /\ Room /\ P(WSwitch) /\ \E b \in R(S) : Switch(b) /\ Log([a |-> "switch", id |-> b])
gEmpty == Room /\ P(15) /\ Empty /\ Log([a |-> "empty"])
gRoll == Len(disk) > 1 /\ Room /\ P(WRoll) /\ \E n \in {LET m == Rnd({1, 1, 2, 3, 5}) IN IF m < Len(disk) THEN m ELSE 1} : Rollback(n) /\ Log([a |-> "roll", n |-> n])
gPrune == Room /\ P(40) /\ Prune /\ Log([a |-> "prune"])
gDone == Len(hist) >= Depth /\ UNCHANGED <<vars, hist>>
GenInit == Init /\ hist = <<>>
GenNext == gAdd \/ gAdd \/ gAdd \/ gInsert \/ gInsert \/ gNew \/ gSwitch \/ gEmpty \/ gRoll \/ gPrune \/ gDone
GenSpec == GenInit /\ [][GenNext]_<<vars, hist>>
Emit == (Len(hist) = Depth) => PrintT("TRACE " \o ToJson(hist))
=============================================================================
