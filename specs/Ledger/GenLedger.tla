------------------------------ MODULE GenLedger ------------------------------
(* Behaviours of Ledger, one per simulation run, printed as JSON for replay. *)
EXTENDS Ledger, Json
CONSTANTS Depth, WRestart, WCrash, WCrashDel, WDelSnap, WDelAcct, WEarly, WForge
VARIABLE hist
(* state-dependent, so that TLC draws anew in every step *)
Rnd(S) == RandomElement({x \in S : Len(hist) >= 0})
R(S) == {Rnd(S)}
gCreatorOf == [c \in Contracts |-> CASE c = "c1" -> "d1" [] c = "c2" -> "d2" [] OTHER -> "d3"]
gConfOf == [c \in Contracts |-> CASE c = "c1" -> 0 [] c = "c2" -> 1 [] OTHER -> 2]
gInitBal == 1000
gFee == 10

Obs(ch, ord, sn) ==
    [ids |-> [a \in Accts |-> [h \in 1..Len(ch[a]) |-> ch[a][h].id]],
     bal |-> [a \in Accts |-> Bal(ch, a)],
     sto |-> [c \in Contracts |-> Sto(ch, c)],
     code |-> [c \in Contracts |-> Code(ch, c)],
     pend |-> [a \in Accts |-> {SendAt(ch, p).sid : p \in {q \in Pending(ch) : SendAt(ch, q).to = a}}],
     order |-> [i \in 1..Len(ord) |-> ch[ord[i][1]][ord[i][2]].id],
     lines |-> [i \in 1..Len(sn) |-> sn[i].line],
     sids |-> [i \in 1..Len(sn) |-> sn[i].sid]]

Log(r) == hist' = Append(hist, r @@ [o |-> Obs(chain', order', snaps')])
Room == Len(hist) < Depth
P(n) == Rnd(1..100) <= n

Able(u) == u \in Users \/ (u \in Deployers /\ Len(chain[u]) >= 2)
Amount(u, t, m) == IF m = -1 THEN Bal(chain, u)[t] ELSE m

gSend == \E u \in R(Users \cup (IF P(20) THEN Deployers ELSE {})), v \in R(Users \cup (IF P(10) THEN Deployers ELSE {})),
            t \in R(Tokens), m0 \in R({0, 1, 7, 300, 900, -1}) :
    LET m == Amount(u, t, m0) IN
    /\ Room /\ Able(u) /\ UserSend(u, v, t, m, NoProg)
    /\ Log([a |-> "send", id |-> next, from |-> u, to |-> v, tok |-> t, amt |-> m, prog |-> NoProg])

Mode(z) == IF P(75) THEN 0 ELSE Rnd({1, 2})
One(S) == CHOOSE x \in S : TRUE
(* a round for contract c; sometimes it clears the slot *)
RandRound(c, lim) == One({Round(k, IF k # 0 /\ Sto(chain, c)[k] # 0 /\ P(35) THEN 0 - Sto(chain, c)[k] ELSE Rnd({1, 5, -1, -5, 300}),
                   Rnd({"", "u1", "u3", "c1", "c2", "c3"}), Rnd(Tokens), Rnd(lim), Rnd({0, 4, 6})) : k \in R({0, 1, 2})})
Rounds2(c, lim) == One({<<r[1], IF P(40) THEN [r[2] EXCEPT !.to = r[1].to] ELSE r[2]>> : r \in {<<RandRound(c, lim), RandRound(c, lim)>>}})
RandProg0(c, lim) == [mode |-> Mode(0), rs |-> IF P(60) THEN <<RandRound(c, lim)>> ELSE Rounds2(c, lim), fwd |-> 0, sub |-> <<>>]
RandProg(c) == LET Q == {RandProg0(c, {0, 3, 40})}  g == CHOOSE x \in Q : TRUE IN
    IF P(50) THEN g ELSE [g EXCEPT !.fwd = Rnd(1..Len(g.rs)), !.sub = <<RandProg0(c, {0, 1, 30})>>]

gCall == \E u \in R(Users \cup (IF P(20) THEN Deployers ELSE {})), c \in R(Contracts), t \in R(Tokens), m0 \in R({0, 2, 60, -1}) :
    \E g \in {RandProg(c)}, m \in {Amount(u, t, IF m0 = -1 /\ P(70) THEN 60 ELSE m0)} :
    /\ Room /\ Able(u) /\ UserSend(u, c, t, m, g)
    /\ Log([a |-> "send", id |-> next, from |-> u, to |-> c, tok |-> t, amt |-> m, prog |-> g])

gDeploy == LET CC == {c \in Contracts : Len(chain[CreatorOf[c]]) = 1} IN CC # {} /\ \E c \in R(CC), t \in R(Tokens), m \in R({0, 4}), bad \in R({<<TRUE>>, <<FALSE>>, <<FALSE, FALSE>>}) :
    /\ Room /\ Deploy(c, t, m, bad[1])
    /\ Log([a |-> "deploy", id |-> next, from |-> CreatorOf[c], to |-> c, tok |-> t, amt |-> m, bad |-> bad[1], conf |-> ConfOf[c]])

gURecv == LET PP == {p \in Pending(chain) : Able(SendAt(chain, p).to)} IN
    /\ PP # {} /\ Room
    /\ \E p \in R(PP) : /\ UserRecv(p)
                       /\ Log([a |-> "recv", id |-> next, acct |-> SendAt(chain, p).to, src |-> SendAt(chain, p).sid])

gCRecv == LET PP == {p \in Pending(chain) : CanRecv(p)} IN
    /\ PP # {} /\ Room
    /\ \E p \in R(LET QQ == {p \in PP : p[1] \in Contracts} IN IF QQ # {} /\ P(60) THEN QQ ELSE PP) : /\ ContractRecv(p)
                       /\ LET c == SendAt(chain, p).to IN
                          Log([a |-> "crecv", id |-> next, acct |-> c, src |-> SendAt(chain, p).sid,
                               res |-> Last(chain'[c]).res, log |-> Last(chain'[c]).log,
                               outs |-> Last(chain'[c]).out])

(* a receive the node has to refuse: not the front call of its caller, not   *)
(* confirmed often enough, already received, or not addressed to it          *)
gEarly == LET PP == {p \in Pending(chain) : SendAt(chain, p).to \in Contracts /\ chain[SendAt(chain, p).to] # <<>>
                        /\ SendAt(chain, p).kind # "create" /\ ~CanRecv(p)} IN
    /\ PP # {} /\ Room /\ WEarly
    /\ \E p \in R(LET QQ == {p \in PP : p[1] \in Contracts} IN IF QQ # {} /\ P(50) THEN QQ ELSE PP) : UNCHANGED vars /\ Log([a |-> "early", acct |-> SendAt(chain, p).to, src |-> SendAt(chain, p).sid,
                          why |-> IF ~FrontOfCaller(p) THEN "order" ELSE "confirm"])
gDouble == LET PP == {q \in Positions(chain) \ Pending(chain) : SendAt(chain, q).to \in Users} IN
    /\ PP # {} /\ Room /\ WEarly /\ P(20)
    /\ \E p \in R(PP) : UNCHANGED vars /\ Log([a |-> "double", acct |-> SendAt(chain, p).to, src |-> SendAt(chain, p).sid])
gPoor == \E u \in R(Users), v \in R(Users), t \in R(Tokens) :
    /\ Room /\ WEarly /\ P(15) /\ UNCHANGED vars
    /\ Log([a |-> "poor", from |-> u, to |-> v, tok |-> t, amt |-> Bal(chain, u)[t] + 1])

(* a valid block that is not inserted: every altered copy of it has to be refused *)
gForgeSend == \E u \in R(Users), v \in R(Users \cup {c \in Contracts : Callable(c)}), t \in R(Tokens), m \in R({0, 1, 7}) :
    /\ Room /\ P(WForge) /\ m <= Bal(chain, u)[t] /\ UNCHANGED vars
    /\ Log([a |-> "forgesend", from |-> u, to |-> v, tok |-> t, amt |-> m, prog |-> NoProg])
gForgeRecv == LET PP == {p \in Pending(chain) : LET to == SendAt(chain, p).to IN IF to \in Contracts THEN CanRecv(p) ELSE Able(to)} IN
    /\ PP # {} /\ Room /\ P(WForge)
    /\ \E p \in R(PP) : UNCHANGED vars /\ Log([a |-> "forgerecv", acct |-> SendAt(chain, p).to, src |-> SendAt(chain, p).sid])

gSnap == \E full \in R({TRUE, FALSE, TRUE}), ex \in R(Accts \cup {""}), rj \in R(Contracts \cup {"", "x", "y"}), sd \in R(BOOLEAN),
            cut \in R(0..Len(order)) :
    LET c == IF full THEN Len(order) ELSE cut
        e == IF full \/ ex = "" THEN {} ELSE {ex}
        r == IF rj \in Contracts THEN {rj} ELSE {} IN
    /\ Room /\ P(75) /\ Snap(c, e, r, sd)
    /\ Log([a |-> "snap", sid |-> next, rej |-> r, seed |-> sd, line |-> Last(snaps').line,
            prev |-> Line(snaps)])

gDelAcct == /\ order # <<>> /\ Room /\ Rnd(1..10) <= WDelAcct
            /\ \E x \in R(SetOf(order)) : DelAcct(x[1], x[2])
                 /\ Log([a |-> "delacct", acct |-> x[1], h |-> x[2]])
gDelSnap == /\ snaps # <<>> /\ Room /\ Rnd(1..10) <= WDelSnap
            /\ \E n \in R((IF Len(snaps) > 3 THEN Len(snaps) - 3 ELSE 1)..Len(snaps)) : DelSnap(n)
                 /\ Log([a |-> "delsnap", n |-> n])
gFlush == Room /\ P(35) /\ Flush /\ Log([a |-> "flush"])
gRestart == Room /\ Rnd(1..10) <= WRestart /\ Restart /\ Log([a |-> "restart"])
gCrash == \E new \in R(BOOLEAN), k \in R(0..39) : Room /\ Rnd(1..10) <= WCrash /\ CrashFlush(new) /\ Log([a |-> "crash", new |-> new, k |-> k])
gCrashDel == /\ snaps # <<>> /\ Room /\ Rnd(1..10) <= WCrashDel
             /\ \E n \in R((IF Len(snaps) > 3 THEN Len(snaps) - 3 ELSE 1)..Len(snaps)), new \in R(BOOLEAN), k \in R(0..39) :
                   CrashDelSnap(n, new) /\ Log([a |-> "crashdel", n |-> n, new |-> new, k |-> k])
gDone == Len(hist) >= Depth /\ UNCHANGED <<vars, hist>>

GenInit == Init /\ hist = <<>>
GenNext == gSend \/ gCall \/ gCall \/ gCall \/ gDeploy \/ gDeploy \/ gDeploy \/ gURecv \/ gCRecv \/ gCRecv \/ gCRecv \/ gEarly \/ gDouble \/ gPoor \/ gForgeSend \/ gForgeRecv \/ gForgeRecv
           \/ gSnap \/ gSnap \/ gDelAcct \/ gDelSnap \/ gFlush \/ gRestart \/ gCrash \/ gCrashDel \/ gDone
GenSpec == GenInit /\ [][GenNext]_<<vars, hist>>
Emit == (Len(hist) = Depth) => PrintT("TRACE " \o ToJson(hist))
GenInv == LedgerInv
=============================================================================
