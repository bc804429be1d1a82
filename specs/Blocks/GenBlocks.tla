------------------------------ MODULE GenBlocks -----------------------------
EXTENDS Blocks, Json
CONSTANTS Depth, WBack, WCrash, WFlush, Files
VARIABLES hist, n
Rnd(S) == RandomElement({x \in S : n >= 0})
P(c) == Rnd(1..100) <= c
R(S) == {Rnd(S)}
Log(e) == hist' = Append(hist, e @@ [log |-> log']) /\ n' = n + 1
(* sizes of the account blocks of a chunk, and where its end should lie: -1 anywhere, or 10 + distance to the end of a file *)
gWrite == Write /\ \E c \in {Rnd(0..4)} : \E sz \in {[i \in 1..c |-> Rnd({20, 60, 200, 500} \cup {i * 0 + 1})]} : \E fit \in {IF P(25) THEN 10 + Rnd(-5..5) ELSE -1}, unit \in R({TRUE, FALSE}) :
        Log([a |-> "write", id |-> cid, sz |-> sz, fit |-> fit, unit |-> unit])
gMany == \E k \in {Rnd(5..25)} : log' = log \o [i \in 1..k |-> cid + i - 1] /\ cid' = cid + k /\ UNCHANGED <<disk, next, prev, fl>>
        /\ Log([a |-> "many", id |-> cid, k |-> k])
Near(k) == IF P(60) THEN Rnd({i \in 1..k - 1 : i >= k - 4}) ELSE Rnd(1..k - 1)
gBack == Len(log) > 1 /\ \E k \in {Near(Len(log))} : k >= 1 /\ Rollback(k) /\ Log([a |-> "back", k |-> k])
gPrepare == Prepare /\ Log([a |-> "prepare"])
gCancel == Cancel /\ Log([a |-> "cancel"])
gRedo == Redo /\ Log([a |-> "redo"])
gCommit == Commit /\ Log([a |-> "commit"])
gAfter == After /\ Log([a |-> "after"])
gCrash == \E t \in {fl.st = "redo" /\ P(60)} : \E cut \in R(0..100) : Crash(t) /\ Log([a |-> "crash", torn |-> t, cut |-> cut])
Pick == LET k == Rnd(1..(100 + WBack + WCrash + WFlush)) IN
    IF log = <<>> THEN "write"
    ELSE IF k <= 90 THEN "write" ELSE IF k <= 100 THEN "many"
    ELSE IF k <= 100 + WBack THEN (IF Len(log) > 1 THEN "back" ELSE "write")
    ELSE IF k <= 100 + WBack + WCrash THEN (IF disk # <<>> \/ fl.st \in {"redo", "committed"} THEN "crash" ELSE "flush") ELSE "flush"
GenInit == Init /\ n = 1 /\ \E fs \in {Rnd(Files)} : hist = <<[a |-> "init", fs |-> fs, log |-> <<>>]>>
GenNext == Len(hist) < Depth /\ \E p \in {Pick} :
    IF p = "write" THEN gWrite ELSE IF p = "many" THEN gMany ELSE IF p = "back" THEN gBack
    ELSE IF p = "crash" THEN gCrash
    ELSE IF fl.st = "none" THEN gPrepare ELSE IF fl.st = "prepared" THEN (IF P(15) THEN gCancel ELSE gRedo)
    ELSE IF fl.st = "redo" THEN gCommit ELSE gAfter
GenSpec == GenInit /\ [][GenNext]_<<vars, hist, n>>
Emit == Len(hist) >= Depth => PrintT("TRACE " \o ToJson(hist))
=============================================================================
