------------------------------- MODULE GenSync ------------------------------
EXTENDS Sync, Json
CONSTANTS Depth
VARIABLE hist
gvars == <<item, hist>>
Rnd(S) == RandomElement({x \in S : Len(hist) >= 0})
R(S) == {Rnd(S)}
P(n) == Rnd(1..100) <= n
Obs == [done |-> {<<s, item'[s].st, item'[s].ver>> : s \in {x \in Segs : item'[x].st \in {"done", "lost"}}}]
Log(r) == hist' = Append(hist, r @@ [o |-> Obs])
In(st) == {s \in Segs : item[s].st = st}
Small == {s \in Segs : s[2] - s[1] <= 2}
Some(S) == IF S = {} THEN Rnd(Segs) ELSE Rnd(S)
Whichever == IF P(60) /\ Here # {} THEN Rnd(Here) ELSE IF P(80) /\ {s \in Small : Free(s)} # {} THEN Rnd({s \in Small : Free(s)}) ELSE Rnd(Segs)
Do(k, s) ==
    CASE k = "begin" -> Begin(s) /\ Log([a |-> k, s |-> s, ok |-> Free(s)])
      [] k = "put" /\ item[s].st = "open" -> UNCHANGED item /\ Log([a |-> k, s |-> s])
      [] k = "finish" /\ item[s].st = "open" -> Finish(s) /\ Log([a |-> k, s |-> s])
      [] k = "verify" /\ Readable(s) -> Verify(s) /\ Log([a |-> k, s |-> s])
      [] k = "delete" /\ item[s].st # "open" -> Delete(s) /\ Log([a |-> k, s |-> s, ok |-> s \in Done])
      [] k = "lose" /\ item[s].st = "done" /\ P(40) -> Lose(s) /\ Log([a |-> k, s |-> s])
      [] k = "restart" -> Restart /\ Log([a |-> k])
      [] OTHER -> UNCHANGED item /\ Log([a |-> "read", s |-> s, ok |-> Readable(s)])
Kinds == <<"begin", "begin", "begin", "begin", "put", "put", "finish", "finish", "finish", "verify", "delete", "read", "read", "lose", "restart">>
gStep == \E i \in R(1..Len(Kinds)) :
         \E s \in {CASE Kinds[i] \in {"put", "finish"} -> Some(In("open")) [] Kinds[i] \in {"verify", "lose"} -> Some(In("done")) [] Kinds[i] = "delete" -> (IF P(85) THEN Some(Done) ELSE Rnd(Segs))
                     [] Kinds[i] = "begin" -> (IF P(80) THEN Some({x \in Small : Free(x)}) ELSE Rnd(Segs)) [] OTHER -> Whichever} : Do(Kinds[i], s)
GenInit == Init /\ hist = <<[a |-> "init"]>>
GenNext == Len(hist) < Depth /\ gStep
GenSpec == GenInit /\ [][GenNext]_gvars
Emit == Len(hist) = Depth => PrintT("TRACE " \o ToJson(hist))
=============================================================================
