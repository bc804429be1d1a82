------------------------------ MODULE GenWallet ------------------------------
EXTENDS Wallet, Json
CONSTANTS Depth, WNew
VARIABLE hist
gvars == <<vars, hist>>
Rnd(S) == RandomElement({x \in S : Len(hist) >= 0})
R(S) == {Rnd(S)}
P(n) == Rnd(1..1000) <= n
Idx == {0, 1, Max0 - 1, Max0, Max0 + 3}
(* often a store that is known, or whose file is there *)
Pick == LET k == {s \in Stores : s \in man}  e == {s \in Stores : Exists(s)} IN
        IF P(550) /\ k # {} THEN Rnd(k) ELSE IF P(600) /\ e # {} THEN Rnd(e) ELSE Rnd(Stores)
Pass(s) == IF P(650) /\ Exists(s) THEN file[s].pass ELSE Rnd(Passes)
Log(r) == hist' = Append(hist, r @@ [o |-> [files |-> {s \in Stores : s[2] = "in" /\ file'[s].st \in {"ok", "bad"}}, man |-> man', open |-> open', ev |-> ev']])
Do(k, s, p) ==
    CASE k = "recover" -> Recover(s[1], p) /\ Log([a |-> k, s |-> <<s[1], "in">>, p |-> p])
      [] k = "drop" -> Drop(s, p) /\ Log([a |-> k, s |-> s, p |-> p])
      [] k = "junk" -> Damage(s, "junk") /\ Log([a |-> k, s |-> s])
      [] k = "bad" -> Damage(s, "bad") /\ Log([a |-> k, s |-> s])
      [] k = "erase" -> Erase(s) /\ Log([a |-> k, s |-> s])
      [] k = "add" -> Add(s) /\ Log([a |-> k, s |-> s, r |-> AddRes(s), rel |-> s[2] = "in" /\ P(500)])
      [] k = "remove" -> Forget(s) /\ Log([a |-> k, s |-> s, rel |-> s[2] = "in" /\ P(500)])
      [] k = "unlock" -> Unlock(s, p) /\ Log([a |-> k, s |-> s, p |-> p, r |-> Try(s, p), rel |-> s[2] = "in" /\ P(500)])
      [] k = "lock" -> Lock(s) /\ Log([a |-> k, s |-> s, r |-> IF s \in man THEN "ok" ELSE "unknown", rel |-> s[2] = "in" /\ P(500)])
      [] k = "search" -> \E i \in R(Idx), q \in R(Seeds \cup {s[1]}) :
                           Unlock(s, p) /\ Log([a |-> k, s |-> s, p |-> p, q |-> q, i |-> i, r |-> FindRes(s, p, q, i)])
      [] k = "find" -> \E i \in R(Idx), q \in R(Seeds \cup {s[1]}) :
                           Read /\ Log([a |-> k, s |-> s, p |-> p, q |-> q, i |-> i, r |-> FindRes(s, p, q, i), x |-> Try(s, p)])
      [] k = "findany" -> \E i \in R(Idx) : Read /\ Log([a |-> k, p |-> p, q |-> s[1], i |-> i, in |-> FindAny(p, s[1], i)])
      [] k = "refresh" -> Refresh /\ Log([a |-> k])
      [] k = "restart" -> Restart /\ Log([a |-> k])
Can(k, s) == CASE k = "drop" -> ~Exists(s) [] k \in {"junk", "bad", "erase"} -> Exists(s) [] OTHER -> TRUE
Kinds == <<"drop", "drop", "drop", "unlock", "unlock", "unlock", "unlock", "lock", "add", "add", "add", "remove", "search", "find", "find", "findany", "erase", "bad", "junk", "refresh", "restart">>
Quiet == {"junk", "bad", "erase", "restart"}
gStep == \E k0 \in R(1..Len(Kinds)) : \E k \in {IF P(WNew) THEN "recover" ELSE IF Kinds[k0] \in Quiet /\ P(600) THEN "find" ELSE Kinds[k0]} : \E s0 \in {Pick} :
         \E s \in {IF k = "drop" /\ Exists(s0) /\ {x \in Stores : ~Exists(x)} # {} THEN Rnd({x \in Stores : ~Exists(x)}) ELSE s0} :
         \E p \in {IF k \in {"recover", "drop"} THEN Rnd(Passes) ELSE Pass(s)} :
         Do(IF Can(k, s) THEN k ELSE "unlock", s, p)
gLis == \E i \in R(1..3) : IF i \in lis THEN Hush(i) /\ Log([a |-> "hush", i |-> i]) ELSE Listen(i) /\ Log([a |-> "listen", i |-> i])
GenInit == Init /\ hist = <<[a |-> "init", max |-> Max0]>>
GenNext == Len(hist) < Depth /\ (IF P(60) THEN gLis ELSE gStep)
GenSpec == GenInit /\ [][GenNext]_gvars
Emit == Len(hist) = Depth => PrintT("TRACE " \o ToJson(hist))
=============================================================================
