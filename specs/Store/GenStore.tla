------------------------------ MODULE GenStore ------------------------------
EXTENDS Store, Json
CONSTANTS Depth, WRoll, WCrash, WFlush
VARIABLES hist
KO == [a \in Accts |-> IF a = "x" THEN {1, 3, 5} ELSE {2, 4, 6}]
Rnd(S) == RandomElement({x \in S : tick >= 0})
P(c) == Rnd(1..100) <= c
Ev(e) == e @@ [view |-> [k \in 1..8 |-> view'[k]]]
Log(e) == hist' = Append(hist, Ev(e))
Batch(ks) == [i \in 1..Rnd(1..4) |-> <<Rnd(ks), IF P(35) THEN 0 ELSE tick * 4 + Rnd({0, 1, 2, 3} \cup {0 * i})>>]
gBlock == \E a \in {Rnd(Accts)} : \E b \in {Batch(KeysOf[a])} : Block(a, b) /\ Log([a |-> "block", id |-> tick, b |-> b])
gSnap == \E n \in {[a \in Accts |-> Rnd({0, 1, 2, 9})]} : \E b \in {Batch(Global)} : Snapshot(n, b) /\ Log([a |-> "snap", b |-> b, ids |-> [i \in DOMAIN Conf(n) |-> Conf(n)[i].u.id]])
gRollA == \E a \in {Rnd(Accts)} : IF LastOf(a) = 0 THEN gBlock ELSE RollAcct(a) /\ Log([a |-> "rollacct", id |-> unconf[LastOf(a)].id, b |-> unconf[LastOf(a)].undo])
gRollS == IF past = <<>> THEN gSnap ELSE \E i \in {Rnd({j \in DOMAIN past : j >= Len(past) - 3})} : RollSnap(i) /\ Log([a |-> "rollsnap", b |-> Restore(view, past[i])])
gDirect == \E b \in {Batch(Global)} : Direct(b) /\ Log([a |-> "direct", b |-> b])
gFlush == IF fl.st = "none" THEN Prepare /\ Log([a |-> "prepare"])
          ELSE IF fl.st = "prepared" THEN (IF P(20) THEN Cancel /\ Log([a |-> "cancel"]) ELSE Redo /\ Log([a |-> "redo"]))
          ELSE IF fl.st = "redo" THEN Commit /\ Log([a |-> "commit"]) ELSE After /\ Log([a |-> "after"])
gCrash == Crash /\ Log([a |-> "crash"])
gCompact == UNCHANGED <<view, disk, snap, unconf, fl, past>> /\ tick' = tick + 1 /\ Log([a |-> "compact"])
(* a contract's writes on top of what is stored *)
gVm == UNCHANGED <<view, disk, snap, unconf, fl, past>> /\ tick' = tick + 1
       /\ \E b \in {Batch(1..8) \o Batch(1..8)} : hist' = Append(hist, Ev([a |-> "vm", b |-> b, over |-> [k \in 1..8 |-> Apply(view, b)[k]]]))
GenInit == Init /\ hist = <<>>
GenNext == Len(hist) < Depth /\ \E k \in {Rnd(1..(100 + WRoll + WCrash + WFlush))} :
    IF k <= 50 THEN gBlock ELSE IF k <= 75 THEN gSnap ELSE IF k <= 82 THEN gDirect ELSE IF k <= 86 THEN gCompact ELSE IF k <= 100 THEN gVm
    ELSE IF k <= 100 + WRoll THEN (IF k % 3 = 0 THEN gRollS ELSE gRollA)
    ELSE IF k <= 100 + WRoll + WCrash THEN gCrash ELSE gFlush
GenSpec == GenInit /\ [][GenNext]_<<vars, hist>>
Emit == Len(hist) >= Depth => PrintT("TRACE " \o ToJson(hist))
=============================================================================
