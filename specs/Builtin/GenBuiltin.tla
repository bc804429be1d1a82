----------------------------- MODULE GenBuiltin -----------------------------
(* Behaviours of Builtin, printed as JSON for replay. *)
EXTENDS Builtin, Json
CONSTANTS Depth, WDelSnap, WRestart, WQ, WA, WG, WJump, WWd, WRev
VARIABLES hist, top    \* top: the greatest snapshot height ever reached
(* state-dependent, so that TLC draws anew in every step *)
Rnd(S) == RandomElement({x \in S : Len(hist) >= 0})
R(S) == {Rnd(S)}
Of(q) == {q[Rnd(1..Len(q))]}
P(n) == Rnd(1..100) <= n
One(S) == CHOOSE x \in S : TRUE
gInit == 5000000

Obs(s) ==
    [bal |-> {<<u, ToString(t), s.bal[u][t]>> : <<u, t>> \in UNION {{<<u, t>> : t \in DOMAIN s.bal[u]} : u \in Users}},
     rw |-> [u \in Users |-> s.rw[u]], minted |-> s.minted, burnt |-> s.burnt,
     stakes |-> s.stakes, ids |-> s.idmap, toks |-> s.toks, olist |-> s.olist,
     regs |-> {s.regs[x] : x \in DOMAIN s.regs}, his |-> {<<x, s.his[x]>> : x \in DOMAIN s.his},
     votes |-> {<<x, s.votes[x]>> : x \in DOMAIN s.votes},
     pend |-> {[sid |-> p.sid, to |-> p.to] : p \in s.pend}]
Room == Len(hist) < Depth
Log(r) == hist' = Append(hist, r @@ [o |-> Obs(st')]) /\ top' = Mx(top, H(snaps'))
LogCall(u, to, tok, amt, fee, arg) == Log([a |-> "call", id |-> next, from |-> u, to |-> to, tok |-> tok, amt |-> amt, fee |-> fee, arg |-> arg])
(* a user's quota allows some calls between two snapshots *)
QuotaFor(u, to) == to \in Users \/ Cardinality({p \in st.pend : p.from = u /\ p.ch = 0 /\ p.to \notin Users}) < 4
DoCall(u, to, tok, amt, fee, arg) == Room /\ QuotaFor(u, to) /\ Call(u, to, tok, amt, fee, arg) /\ LogCall(u, to, tok, amt, fee, arg)
Like(S, d) == IF S = {} THEN d ELSE Rnd(S)

(* ---- quota *)
gStake == \E u \in R(Users), b \in R(Users), m \in R({134, 200, 500}), op \in Of(<<"stake", "stake", "stakecb", "stakeold", "delegate">>), h \in R({600, 601, 1200}), bid \in R({1, 2}), v \in R(Users) :
    P(WQ) /\ DoCall(u, "Q", 0, m, 0, Arg(op, b, IF op = "delegate" THEN v ELSE "", "", IF op \in {"stakecb", "delegate"} THEN h ELSE 0, IF op = "delegate" THEN bid ELSE 0, FALSE, FALSE))
(* adding to a stake *)
gMore == LET E == {e \in Range(st.stakes) : e.id = 0} IN /\ E # {} /\ P(WQ) /\ P(60)
    /\ \E e \in R(E), m \in R({134, 200, 500}), h \in R({600, 601, 1200}) :
       IF e.dg = "" THEN DoCall(e.owner, "Q", 0, m, 0, Arg("stakeold", e.ben, "", "", 0, 0, FALSE, FALSE))
       ELSE DoCall(e.dg, "Q", 0, m, 0, Arg("delegate", e.ben, e.owner, "", h, e.bid, FALSE, FALSE))
(* mostly one's own, mostly due *)
gCancel == /\ st.idmap # {} /\ P(WQ)
    /\ \E x \in R(LET D == {x \in st.idmap : \E e \in Range(st.stakes) : e.key = x[2] /\ e.exp <= H(snaps) + 1} IN IF D # {} /\ P(70) THEN D ELSE st.idmap), op \in R({"cancel", "cancelcb"}) :
       \E u \in {IF P(85) THEN Like({e.owner : e \in {e \in Range(st.stakes) : e.key = x[2]}}, "u1") ELSE Rnd(Users)} :
       DoCall(u, "Q", 0, 0, 0, Arg(op, "", "", "", x[1], 0, FALSE, FALSE))
gCancelOld == LET E == Range(st.stakes) IN /\ E # {} /\ P(WQ)
    /\ \E e \in R(LET D == {e \in E : e.exp <= H(snaps) + 1 /\ e.id = 0} IN IF D # {} /\ P(70) THEN D ELSE E), k \in R(1..4) :
       \E m \in {CASE k = 1 -> e.amt [] k = 2 -> Mx(134, e.amt - 134) [] k = 3 -> 134 [] OTHER -> e.amt + 1} :
       IF e.dg = "" THEN DoCall(e.owner, "Q", 0, 0, 0, Arg("cancelold", e.ben, "", "", m, 0, FALSE, FALSE))
       ELSE DoCall(IF P(90) THEN e.dg ELSE "u1", "Q", 0, 0, 0, Arg("canceldel", e.ben, e.owner, "", m, e.bid, FALSE, FALSE))
(* ---- asset *)
gIssue == \E u \in R(Users), sy \in R({"AAA", "BBB"}), n \in R({0, 10, 1000}), x \in R({0, 5, 1000}), f \in Of(<<TRUE, TRUE, FALSE>>), g \in R(BOOLEAN) :
    P(WA) /\ Len(st.toks) < 7 /\ (f \/ n > 0)
    /\ DoCall(u, "A", 0, 0, IssueFee, Arg("issue", sy, "", "", n, IF f THEN n + x ELSE 0, f, f /\ g))
Tok(z) == Like(Range(st.toks), [id |-> 77777, owner |-> "u1", max |-> 0, supply |-> 0])
gAsset == \E e \in {Tok(0)}, op \in Of(<<"reissue", "reissue", "transfer", "disable", "info", "vite">>), v \in R(Users), k \in R(1..4) :
    \E u \in {IF P(75) THEN e.owner ELSE Rnd(Users)}, m \in {CASE k = 1 -> 1 [] k = 2 -> Mx(1, e.max - e.supply) [] k = 3 -> Mx(1, e.max - e.supply + 1) [] OTHER -> 5} :
    /\ P(WA)
    /\ CASE op = "reissue" -> DoCall(u, "A", 0, 0, 0, Arg("reissue", v, "", "", e.id, m, FALSE, FALSE))
         [] op = "transfer" -> u # v /\ DoCall(u, "A", 0, 0, 0, Arg("transfer", v, "", "", e.id, 0, FALSE, FALSE))
         [] op = "disable" -> P(30) /\ DoCall(u, "A", 0, 0, 0, Arg("disable", "", "", "", e.id, 0, FALSE, FALSE))
         [] op = "info" -> DoCall(u, "A", 0, 0, 0, Arg("info", "", "", "", e.id, 0, FALSE, FALSE))
         [] op = "vite" -> P(20) /\ DoCall(u, "A", 0, 0, 0, Arg("reissue", v, "", "", 0, 1, FALSE, FALSE))
gBurn == LET B == {<<u, t>> \in UNION {{<<u, t>> : t \in DOMAIN st.bal[u]} : u \in Users} : st.bal[u][t] > 0 /\ (t # 0 \/ P(10))} IN
    /\ B # {} /\ P(WA) /\ \E x \in R(B), k \in R({1, 3, 0}) :
       \E m \in {IF k = 0 /\ x[2] # 0 THEN st.bal[x[1]][x[2]] ELSE IF k = 0 \/ k > st.bal[x[1]][x[2]] THEN 1 ELSE k} :
       DoCall(x[1], "A", x[2], m, 0, Arg("burn", "", "", "", 0, 0, FALSE, FALSE))
(* hand tokens around *)
gGive == LET B == {<<u, t>> \in UNION {{<<u, t>> : t \in DOMAIN st.bal[u]} : u \in Users} : t # 0 /\ st.bal[u][t] > 0} IN
    /\ B # {} /\ P(WA) /\ \E x \in R(B), v \in R(Users) : DoCall(x[1], v, x[2], 1, 0, NoArg)
(* ---- governance *)
Wd(z) == IF P(WWd) THEN "w1" ELSE Rnd(Users \cup {"w1", "w2"})
(* mostly a producer that the name may use *)
Prod(x) == LET F == {d \in Prods : d \in DOMAIN st.his => st.his[d] = x} IN IF F # {} /\ P(75) THEN Rnd(F) ELSE Rnd(Prods)
NewName(z) == LET F == Names \ DOMAIN st.regs IN IF F # {} /\ P(60) THEN Rnd(F) ELSE Rnd(Names)
gRegister == \E u \in R(Users), x \in {NewName(0)}, w \in {Wd(0)}, m \in {IF P(85) THEN 1 ELSE 2} : \E d \in {Prod(x)} :
    \E v \in {IF x \in DOMAIN st.regs /\ P(75) THEN st.regs[x].owner ELSE u} :
    P(WG) /\ (x \in DOMAIN st.regs => (~Active(st.regs[x]) \/ P(15))) /\ DoCall(v, "G", 0, IF m = 1 THEN RegAmt ELSE RegAmt - 1, 0, Arg("register", x, d, w, 0, 0, FALSE, FALSE))
gGov == \E x \in {IF DOMAIN st.regs # {} /\ P(90) THEN Rnd(DOMAIN st.regs) ELSE Rnd(Names)}, op \in Of(<<"revoke", "prod", "wd", "reward", "reward", "vote", "vote", "unvote">>),
           w \in {Wd(0)}, v \in R(Users) : \E d \in {Prod(x)} :
    \E u \in {IF x \in DOMAIN st.regs /\ op \notin {"vote", "unvote"} /\ P(80) THEN (IF op = "reward" /\ st.regs[x].wd \in Users /\ P(50) THEN st.regs[x].wd ELSE st.regs[x].owner) ELSE v} :
    P(WG) /\ (op = "revoke" => P(WRev))
    /\ DoCall(u, "G", 0, 0, 0, Arg(op, IF op = "unvote" THEN "" ELSE x, CASE op = "prod" -> d [] op = "wd" -> w [] op = "reward" -> v [] OTHER -> "", "", 0, 0, FALSE, FALSE))
(* ---- *)
DoRecv(p) == ContractRecv(p)
       /\ LET r == Result(p) IN Log([a |-> "crecv", id |-> next, c |-> p.to, src |-> p.sid, ok |-> r.ok, outs |-> r.outs, op |-> p.arg.op])
gCRecv == LET C == {p \in st.pend : p.to \notin Users /\ p.ch > 0 /\ Front(st, p)} IN
    /\ C # {} /\ Room /\ \E p \in R(C) : ~LateReward(p) /\ DoRecv(p)
gURecv == LET C == {p \in st.pend : p.to \in Users} IN
    /\ C # {} /\ Room /\ \E p \in R(C) : UserRecv(p) /\ Log([a |-> "urecv", id |-> next, u |-> p.to, src |-> p.sid])
gEarly == LET C == {p \in st.pend : p.to \notin Users /\ ~(p.ch > 0 /\ Front(st, p))} IN
    /\ C # {} /\ Room /\ P(30) /\ \E p \in R(C) : UNCHANGED vars /\ Log([a |-> "early", c |-> p.to, src |-> p.sid])
(* a call the node refuses already when it is sent; k chooses which *)
gBad == \E u \in R(Users), k \in R(1..24) : Room /\ P(25) /\ UNCHANGED vars /\ Log([a |-> "bad", u |-> u, k |-> k])
gSnap == \E dt \in Of(<<1, 1, 1, 2000, 40000, Day, Day, 2 * Day + 5000>>) : Room /\ Snap(1, dt) /\ Log([a |-> "snap", n |-> 1, dt |-> dt])
gJump == Room /\ P(WJump) /\ st.stakes # <<>> /\ H(snaps) < 3000 /\ Snap(600, 1) /\ Log([a |-> "snap", n |-> 600, dt |-> 1])
gDelSnap == /\ snaps # <<>> /\ Room /\ P(WDelSnap)
    /\ \E n \in R((IF Len(snaps) > 3 THEN Len(snaps) - 3 ELSE 1)..Len(snaps)) : snaps[n].first > top - 1190 /\ DelSnap(n) /\ Log([a |-> "delsnap", n |-> n, h |-> snaps[n].first])
gFlush == Room /\ P(25) /\ Flush /\ Log([a |-> "flush"])
gRestart == Room /\ P(WRestart) /\ Restart /\ Log([a |-> "restart", n |-> nflush])
gDone == Len(hist) >= Depth /\ UNCHANGED <<vars, hist, top>>
GenInit == Init /\ hist = <<>> /\ top = 1
GenNext == gStake \/ gMore \/ gCancel \/ gCancelOld \/ gIssue \/ gAsset \/ gAsset \/ gBurn \/ gGive \/ gRegister \/ gGov \/ gGov
           \/ gCRecv \/ gCRecv \/ gCRecv \/ gCRecv \/ gURecv \/ gURecv \/ gEarly \/ gBad \/ gSnap \/ gSnap \/ gJump \/ gDelSnap \/ gFlush \/ gRestart \/ gDone
GenSpec == GenInit /\ [][GenNext]_<<vars, hist, top>>
Emit == (Len(hist) = Depth) => PrintT("TRACE " \o ToJson(hist))
GenInv == BuiltinInv
=============================================================================
