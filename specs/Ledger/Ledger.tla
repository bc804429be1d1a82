------------------------------- MODULE Ledger -------------------------------
(***************************************************************************)
(* The account/snapshot ledger of a go-vite node: account chains with send *)
(* and receive blocks, asynchronous contract calls with refunds, snapshot  *)
(* blocks that confirm a dependency-closed part of the unconfirmed blocks, *)
(* deletion of account blocks and of snapshot blocks (rollback), flushing, *)
(* restart and crash.                                                      *)
(*                                                                         *)
(* One action per public operation of the node core:                       *)
(*   UserSend/UserRecv/Deploy/Call/ContractRecv  insert an account block   *)
(*   Snap        insert a snapshot block                                   *)
(*   DelAcct     delete unconfirmed account blocks                         *)
(*   DelSnap     delete snapshot blocks                                    *)
(*   Flush, Restart                                                        *)
(* The state of an account is a function of its chain: every block carries *)
(* the account's state after it (bal, sto, code), so rollback is truncation.*)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS Users,      \* user accounts
          Deployers,  \* accounts whose second block creates a contract
          Contracts,  \* contract accounts
          CreatorOf,  \* [Contracts -> Deployers]
          ConfOf,     \* [Contracts -> Nat] confirmations a call needs
          Tokens, Keys, InitBal, CreateFee

VARIABLES chain,   \* [Accts -> Seq(Block)]
          order,   \* unconfirmed blocks <<acct,height>> in insertion order
          snaps,   \* sequence of snapshot records (genesis is not included)
          dur,     \* what a restart brings back: [chain, snaps]
          next     \* next fresh identifier

vars == <<chain, order, snaps, dur, next>>

Accts == Users \cup Deployers \cup Contracts
(* A program is the calldata of a call to a contract: up to two rounds, each    *)
(* round adds v to storage key k (0: none), emits a log with a topic (0: none)  *)
(* and sends (to = "": none); round fwd carries the program sub[1] on; in the   *)
(* end the program stops (mode 0), reverts (1) or hits an invalid opcode (2).   *)
NoProg == [mode |-> 0, rs |-> <<>>, fwd |-> 0, sub |-> <<>>]
Round(k, v, to, tok, amt, log) == [k |-> k, v |-> v, to |-> to, tok |-> tok, amt |-> amt, log |-> log]

ZeroBal == [t \in Tokens |-> 0]
ZeroSto == [k \in Keys |-> 0]
GenBlock(a) == [id |-> 0, typ |-> "gen", src |-> 0, res |-> "ok", out |-> <<>>, log |-> <<>>,
                bal |-> [t \in Tokens |-> InitBal], sto |-> ZeroSto, code |-> FALSE]

Last(s) == s[Len(s)]
Bal(ch, a) == IF ch[a] = <<>> THEN ZeroBal ELSE Last(ch[a]).bal
Sto(ch, a) == IF ch[a] = <<>> THEN ZeroSto ELSE Last(ch[a]).sto
Code(ch, a) == ch[a] # <<>> /\ Last(ch[a]).code

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE SumSet(_, _)
SumSet(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumSet(S \ {x}, f)

(* every send record that exists in the chains, as [a, h, i] positions *)
Positions(ch) == UNION {UNION {{<<a, h, i>> : i \in 1..Len(ch[a][h].out)} : h \in 1..Len(ch[a])} : a \in Accts}
SendAt(ch, p) == ch[p[1]][p[2]].out[p[3]]
Received(ch) == UNION {{ch[a][h].src : h \in 1..Len(ch[a])} : a \in Accts} \ {0}
Pending(ch) == LET rc == Received(ch) IN {p \in Positions(ch) : SendAt(ch, p).sid \notin rc}

Line(sn) == IF sn = <<>> THEN [a \in Accts |-> IF a \in Contracts THEN 0 ELSE 1] ELSE Last(sn).line
LineAt(sn, n) == IF n = 0 THEN [a \in Accts |-> IF a \in Contracts THEN 0 ELSE 1] ELSE sn[n].line

(* number of snapshots that confirm block <<a,h>> *)
ConfTimes(sn, a, h) == Cardinality({n \in 1..Len(sn) : sn[n].line[a] >= h})

Truncate(ch, line) == [a \in Accts |-> SubSeq(ch[a], 1, line[a])]

-----------------------------------------------------------------------------
Init == /\ chain = [a \in Accts |-> IF a \in Contracts THEN <<>> ELSE <<GenBlock(a)>>]
        /\ order = <<>>
        /\ snaps = <<>>
        /\ dur = [chain |-> [a \in Accts |-> IF a \in Contracts THEN <<>> ELSE <<GenBlock(a)>>], snaps |-> <<>>]
        /\ next = 1

Append1(a, b) == /\ chain' = [chain EXCEPT ![a] = Append(@, b)]
                 /\ order' = Append(order, <<a, Len(chain[a]) + 1>>)

SRec(sid, to, tok, amt, fee, kind, prog) ==
    [sid |-> sid, to |-> to, tok |-> tok, amt |-> amt, fee |-> fee, kind |-> kind, prog |-> prog]

Exists(c) == \E h \in 1..Len(chain[CreatorOf[c]]) : chain[CreatorOf[c]][h].typ = "create"

(* a contract can be called once a snapshot has confirmed its creation *)
Callable(c) == \E h \in 1..Len(chain[CreatorOf[c]]) :
    chain[CreatorOf[c]][h].typ = "create" /\ ConfTimes(snaps, CreatorOf[c], h) >= 1

(* a user sends amt of tok to account v (a user: plain transfer; a contract: a call) *)
UserSend(u, v, tok, amt, prog) ==
    /\ chain[u] # <<>>
    /\ v \in Contracts => Callable(v)
    /\ amt <= Bal(chain, u)[tok]
    /\ LET b == [id |-> next, typ |-> "send", src |-> 0, res |-> "ok", log |-> <<>>,
                 out |-> <<SRec(next, v, tok, amt, 0, "call", prog)>>,
                 bal |-> [Bal(chain, u) EXCEPT ![tok] = @ - amt],
                 sto |-> Sto(chain, u), code |-> FALSE]
       IN Append1(u, b)
    /\ next' = next + 1
    /\ UNCHANGED <<snaps, dur>>

(* the deployer's first block creates the contract; bad: the constructor fails *)
Deploy(c, tok, amt, bad) ==
    LET d == CreatorOf[c] IN
    /\ Len(chain[d]) = 1
    /\ LET bal1 == [Bal(chain, d) EXCEPT ![tok] = @ - amt]
           bal2 == [bal1 EXCEPT !["VITE"] = @ - CreateFee]
       IN /\ bal2["VITE"] >= 0 /\ bal2[tok] >= 0
          /\ Append1(d, [id |-> next, typ |-> "create", src |-> 0, res |-> "ok", log |-> <<>>,
                 out |-> <<SRec(next, c, tok, amt, CreateFee, "create",
                           [NoProg EXCEPT !.mode = IF bad THEN 1 ELSE 0])>>,
                 bal |-> bal2, sto |-> ZeroSto, code |-> FALSE])
    /\ next' = next + 1
    /\ UNCHANGED <<snaps, dur>>

UserRecv(p) ==
    LET s == SendAt(chain, p)  u == s.to IN
    /\ p \in Pending(chain)
    /\ u \notin Contracts
    /\ Append1(u, [id |-> next, typ |-> "recv", src |-> s.sid, res |-> "ok", out |-> <<>>, log |-> <<>>,
                   bal |-> [Bal(chain, u) EXCEPT ![s.tok] = @ + s.amt],
                   sto |-> ZeroSto, code |-> FALSE])
    /\ next' = next + 1
    /\ UNCHANGED <<snaps, dur>>

(* contract c may take p when it is the oldest pending call of its caller,  *)
(* is confirmed often enough, and the creation comes first                  *)
FrontOfCaller(p) ==
    LET s == SendAt(chain, p) IN
    \A q \in Pending(chain) : (SendAt(chain, q).to = s.to /\ q[1] = p[1]) => SendAt(chain, q).sid >= s.sid

(* the snapshot whose contracts a receive of p may call: the one that confirms p  *)
(* often enough; for an unconfirmed p the latest one                              *)
ExistsAt(c, n) == \E h \in 1..Len(chain[CreatorOf[c]]) :
    chain[CreatorOf[c]][h].typ = "create" /\ LineAt(snaps, n)[CreatorOf[c]] >= h
FirstConf(p) == LET N == {n \in 0..Len(snaps) : LineAt(snaps, n)[p[1]] >= p[2]} IN CHOOSE n \in N : \A m \in N : n <= m
View(p) == LET c == SendAt(chain, p).to IN
    IF ConfTimes(snaps, p[1], p[2]) = 0 THEN Len(snaps)
    ELSE FirstConf(p) + (IF ConfOf[c] > 0 THEN ConfOf[c] - 1 ELSE 0)
(* an unconfirmed call that itself calls a contract no snapshot knows has to wait *)
Reliable(p) == LET s == SendAt(chain, p) IN
    ConfTimes(snaps, p[1], p[2]) = 0 /\ s.kind = "call" /\ Code(chain, s.to) =>
        \A i \in 1..Len(s.prog.rs) : s.prog.rs[i].to \in Contracts => ExistsAt(s.prog.rs[i].to, Len(snaps))

CanRecv(p) ==
    LET s == SendAt(chain, p) IN
    /\ s.to \in Contracts
    /\ Exists(s.to)
    /\ FrontOfCaller(p)
    /\ (s.kind = "create") <=> (chain[s.to] = <<>>)
    /\ ConfTimes(snaps, p[1], p[2]) >= ConfOf[s.to]
    /\ Reliable(p)

(* result of running program g with incoming send s on contract c *)
RECURSIVE Rounds(_, _, _, _)
Rounds(g, i, st, view) ==
    IF i > Len(g.rs) THEN st
    ELSE LET r == g.rs[i]
             sto1 == IF r.k # 0 THEN [st.sto EXCEPT ![r.k] = @ + r.v] ELSE st.sto
             log1 == IF r.log # 0 THEN Append(st.log, r.log) ELSE st.log
             q == IF g.fwd = i THEN g.sub[1] ELSE NoProg
         IN IF r.to = "" THEN Rounds(g, i + 1, [st EXCEPT !.sto = sto1, !.log = log1], view)
            ELSE Rounds(g, i + 1,
                   [st EXCEPT !.sto = sto1, !.log = log1,
                              !.ok = @ /\ st.bal[r.tok] >= r.amt /\ (r.to \in Contracts => ExistsAt(r.to, view)),
                              !.bal = [@ EXCEPT ![r.tok] = @ - r.amt],
                              !.out = Append(@, SRec(next + 1 + Len(@), r.to, r.tok, r.amt, 0, "call", q))], view)

Exec(c, s, caller, view) ==
    LET b0 == Bal(chain, c)
        s0 == Sto(chain, c)
        b1 == [b0 EXCEPT ![s.tok] = @ + s.amt]
        g  == s.prog
        plain == [ok |-> TRUE, bal |-> b1, sto |-> s0, log |-> <<>>, out |-> <<>>]
        r  == Rounds(g, 1, plain, view)
        fail == [ok |-> FALSE, bal |-> b0, sto |-> s0, log |-> <<>>,
                 out |-> IF s.amt > 0 THEN <<SRec(next + 1, caller, s.tok, s.amt, 0, "refund", NoProg)>> ELSE <<>>]
    IN CASE s.kind = "refund" -> plain
         [] s.kind = "create" /\ g.mode = 0 -> [plain EXCEPT !.sto = [s0 EXCEPT ![9] = 7]]
         [] s.kind = "create" /\ g.mode # 0 -> fail
         [] s.kind = "call" /\ ~Code(chain, c) -> plain
         [] s.kind = "call" /\ (g.mode # 0 \/ ~r.ok) -> fail
         [] OTHER -> r

ContractRecv(p) ==
    LET s == SendAt(chain, p)  c == s.to IN
    /\ p \in Pending(chain)
    /\ CanRecv(p)
    /\ LET r == Exec(c, s, p[1], View(p)) IN
       Append1(c, [id |-> next, typ |-> "recv", src |-> s.sid, log |-> r.log,
                   res |-> IF r.ok THEN "ok" ELSE "fail", out |-> r.out,
                   bal |-> r.bal, sto |-> r.sto,
                   code |-> IF s.kind = "create" THEN r.ok ELSE Code(chain, c)])
    /\ next' = next + 3
    /\ UNCHANGED <<snaps, dur>>

-----------------------------------------------------------------------------
(* Walk the blocks of ord; Bad0(b) marks blocks that go for a reason of their   *)
(* own; everything that depends on a bad block (same account, or receives a     *)
(* send of a bad block) is bad too.                                             *)
RECURSIVE Walk(_, _, _, _, _)
Walk(ord, i, Bad0, badA, badS) ==
    IF i > Len(ord) THEN <<>>
    ELSE LET a == ord[i][1]  h == ord[i][2]  b == chain[a][h]
             isbad == a \in badA \/ (b.src # 0 /\ b.src \in badS) \/ ord[i] \in Bad0
         IN <<isbad>> \o Walk(ord, i + 1, Bad0,
                              IF isbad THEN badA \cup {a} ELSE badA,
                              IF isbad THEN badS \cup {b.out[j].sid : j \in 1..Len(b.out)} ELSE badS)

Bads(ord, Bad0) == Walk(ord, 1, Bad0, {}, {})
Keep(ord, bads, v) == LET RECURSIVE K(_) 
                          K(i) == IF i > Len(ord) THEN <<>>
                                  ELSE (IF bads[i] = v THEN <<ord[i]>> ELSE <<>>) \o K(i + 1)
                      IN K(1)

SetOf(s) == {s[i] : i \in 1..Len(s)}
(* chains without the blocks of del (a dependency-closed suffix of every account) *)
Without(ch, del) ==
    LET D == SetOf(del) IN
    [a \in Accts |-> SubSeq(ch[a], 1, Cardinality({h \in 1..Len(ch[a]) : <<a, h>> \notin D}))]

(* A snapshot over the first cut unconfirmed blocks without those of the accounts *)
(* in excl and what depends on them.  Afterwards the unconfirmed blocks of the    *)
(* contracts in rej have lost their producer: they and their dependents go.       *)
Snap(cut, excl, rej, seed) ==
    LET pre   == SubSeq(order, 1, cut)
        bad1  == Bads(pre, {x \in SetOf(pre) : x[1] \in excl})
        conf  == Keep(pre, bad1, FALSE)
        rest  == Keep(order, [i \in 1..Len(order) |-> order[i] \notin SetOf(conf)], TRUE)
        bad2  == Bads(rest, {x \in SetOf(rest) : x[1] \in rej})
        left  == Keep(rest, bad2, FALSE)
        gone  == Keep(rest, bad2, TRUE)
        ln    == Line(snaps)
        ln2   == [a \in Accts |-> LET hs == {x[2] : x \in {y \in SetOf(conf) : y[1] = a}} IN
                        IF hs = {} THEN ln[a] ELSE CHOOSE m \in hs : \A z \in hs : z <= m]
    IN /\ snaps' = Append(snaps, [line |-> ln2, blocks |-> conf, seed |-> seed, sid |-> next])
       /\ order' = left
       /\ chain' = Without(chain, gone)
       /\ next' = next + 1
       /\ UNCHANGED dur

(* delete the unconfirmed block <<a,h>> with everything that depends on it *)
DelAcct(a, h) ==
    /\ <<a, h>> \in SetOf(order)
    /\ LET bad == Bads(order, {<<a, h>>})
       IN /\ order' = Keep(order, bad, FALSE)
          /\ chain' = Without(chain, Keep(order, bad, TRUE))
    /\ UNCHANGED <<snaps, dur, next>>

(* delete snapshot n and above: the blocks n confirmed become unconfirmed again, *)
(* everything above goes; the result is flushed at once                          *)
DelSnap(n) ==
    /\ n \in 1..Len(snaps)
    /\ snaps' = SubSeq(snaps, 1, n - 1)
    /\ order' = snaps[n].blocks
    /\ chain' = Truncate(chain, snaps[n].line)
    /\ dur' = [chain |-> Truncate(chain, LineAt(snaps, n - 1)), snaps |-> SubSeq(snaps, 1, n - 1)]
    /\ UNCHANGED next

Flush == /\ dur' = [chain |-> Truncate(chain, Line(snaps)), snaps |-> snaps]
         /\ UNCHANGED <<chain, order, snaps, next>>

Restart == /\ chain' = dur.chain /\ snaps' = dur.snaps /\ order' = <<>>
           /\ UNCHANGED <<dur, next>>

(* a crash in the middle of a flush: either the old or the new durable state *)
CrashFlush(new) ==
    LET d == IF new THEN [chain |-> Truncate(chain, Line(snaps)), snaps |-> snaps] ELSE dur
    IN /\ dur' = d /\ chain' = d.chain /\ snaps' = d.snaps /\ order' = <<>>
       /\ UNCHANGED next

(* a crash in the flush that ends the deletion of snapshot n and above *)
CrashDelSnap(n, new) ==
    /\ n \in 1..Len(snaps)
    /\ LET d == IF new THEN [chain |-> Truncate(chain, LineAt(snaps, n - 1)), snaps |-> SubSeq(snaps, 1, n - 1)] ELSE dur
       IN /\ dur' = d /\ chain' = d.chain /\ snaps' = d.snaps /\ order' = <<>>
    /\ UNCHANGED next

-----------------------------------------------------------------------------
(* Properties *)
Supply(t) == InitBal * Cardinality(Users \cup Deployers)
Fees == SumSet(Deployers, [d \in Deployers |-> SumSeq([h \in 1..Len(chain[d]) |->
            IF chain[d][h].typ = "create" THEN CreateFee ELSE 0])])
InFlight(t) == LET P == Pending(chain) IN
    SumSet(P, [p \in P |-> IF SendAt(chain, p).tok = t THEN SendAt(chain, p).amt ELSE 0])

Conservation == \A t \in Tokens :
    SumSet(Accts, [a \in Accts |-> Bal(chain, a)[t]]) + InFlight(t) + (IF t = "VITE" THEN Fees ELSE 0) = Supply(t)

NonNegative == \A a \in Accts, t \in Tokens : Bal(chain, a)[t] >= 0

(* every receive names a send that is in the ledger and addressed to it, no send is received twice *)
ReceiveOnce ==
    /\ \A a \in Accts : \A h \in 1..Len(chain[a]) : chain[a][h].src # 0 =>
          \E p \in Positions(chain) : SendAt(chain, p).sid = chain[a][h].src /\ SendAt(chain, p).to = a
    /\ LET R == UNION {{<<a, h>> : h \in {g \in 1..Len(chain[a]) : chain[a][g].src # 0}} : a \in Accts}
       IN Cardinality({chain[r[1]][r[2]].src : r \in R}) = Cardinality(R)

(* the confirmed part is dependency closed, lines grow, order is exactly the rest *)
ClosedAt(ch) ==
    \A a \in Accts : \A h \in 1..Len(ch[a]) : ch[a][h].src # 0 =>
          \E p \in Positions(ch) : SendAt(ch, p).sid = ch[a][h].src
LinesClosed == \A n \in 0..Len(snaps) : ClosedAt(Truncate(chain, LineAt(snaps, n)))
LinesGrow == \A n \in 1..Len(snaps) : \A a \in Accts : LineAt(snaps, n)[a] >= LineAt(snaps, n - 1)[a]
OrderIsRest == /\ SetOf(order) = UNION {{<<a, h>> : h \in (Line(snaps)[a] + 1)..Len(chain[a])} : a \in Accts}
               /\ Cardinality(SetOf(order)) = Len(order)
DurIsPrefix == /\ ClosedAt(dur.chain)
               /\ \A a \in Accts : Len(dur.chain[a]) = LineAt(dur.snaps, Len(dur.snaps))[a]

FailedCallLeavesNothing ==
    \A c \in Contracts : \A h \in 1..Len(chain[c]) : chain[c][h].res = "fail" =>
        /\ chain[c][h].log = <<>>
        /\ chain[c][h].sto = (IF h = 1 THEN ZeroSto ELSE chain[c][h - 1].sto)
        /\ chain[c][h].bal = (IF h = 1 THEN ZeroBal ELSE chain[c][h - 1].bal)
        /\ \A j \in 1..Len(chain[c][h].out) : chain[c][h].out[j].kind = "refund"

LedgerInv == Conservation /\ NonNegative /\ ReceiveOnce /\ LinesClosed /\ LinesGrow
             /\ OrderIsRest /\ DurIsPrefix /\ FailedCallLeavesNothing
=============================================================================
