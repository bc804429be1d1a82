------------------------------ MODULE Builtin ------------------------------
(***************************************************************************)
(* The built-in contracts of go-vite a user keeps money and rights in:     *)
(*   Q  quota contract       (staking for quota)                           *)
(*   A  asset contract       (token issuance)                              *)
(*   G  governance contract  (SBP registration, votes, rewards)            *)
(* Users call them asynchronously (send, confirmation by a snapshot,       *)
(* receive by the contract, receive of what it sends back).  The state is  *)
(* one record, saved at every snapshot, so that rollback, restart and the  *)
(* reading of history are exact.                                           *)
(* Amounts are whole VITE, token 0 is VITE, other tokens are named by the  *)
(* number of the receive block that issued them.  A reward is the set of   *)
(* <<name, day>> it pays.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
CONSTANTS Users, Names, Prods, InitBal, StakeH, RegH, RegAmt, IssueFee, MinStake, Day, Limit, GenTok

VARIABLES st, snaps, nflush, next
vars == <<st, snaps, nflush, next>>

Last(s) == s[Len(s)]
Mx(a, b) == IF a > b THEN a ELSE b
SumOf(S, F(_)) == MapThenSumSet(F, S)
Flt(s, P(_)) == SelectSeq(s, P)

(* arguments of a call: a, b, c strings, n, m numbers, f, g booleans *)
Arg(op, a, b, c, n, m, f, g) == [op |-> op, a |-> a, b |-> b, c |-> c, n |-> n, m |-> m, f |-> f, g |-> g]
NoArg == Arg("", "", "", "", 0, 0, FALSE, FALSE)
(* a send on its way *)
Send(sid, from, to, tok, amt, fee, arg, rw) ==
    [sid |-> sid, from |-> from, to |-> to, tok |-> tok, amt |-> amt, fee |-> fee, arg |-> arg, rw |-> rw, ch |-> 0, ct |-> 0]

(* names with nothing to pay on some days *)
Pays(name, day) == (day + (IF name = "s1" THEN 0 ELSE 1)) % 3 # 0

NoReg == [on |-> FALSE]
(* a token that exists from genesis on (GenTok = 0: none), owned by u1; the *)
(* contract's list of an owner's tokens has it only after a transfer        *)
GenToks == IF GenTok = 0 THEN <<>>
           ELSE <<[id |-> GenTok, owner |-> "u1", supply |-> InitBal * Cardinality(Users), max |-> InitBal * Cardinality(Users) + 7,
                   re |-> TRUE, bo |-> FALSE, sym |-> "TOKA", idx |-> 0]>>
St0 == [bal |-> [u \in Users |-> [t \in {0} \cup {e.id : e \in Range(GenToks)} |-> InitBal]],
        rw |-> [u \in Users |-> {}],           \* rewards received
        minted |-> {},                         \* rewards minted
        burnt |-> 0,                           \* VITE burnt
        stakes |-> <<>>,                       \* in order of their keys
        idmap |-> {},                          \* <<id, key>>
        toks |-> GenToks,                      \* tokens besides VITE
        nidx |-> [s \in {"AAA", "BBB"} |-> 0],
        olist |-> [u \in Users |-> <<>>],      \* tokens listed for an owner
        regs |-> [x \in {} |-> NoReg], his |-> [x \in {} |-> ""], votes |-> [x \in {} |-> ""],
        pend |-> {}]

Init == st = St0 /\ snaps = <<>> /\ nflush = 0 /\ next = 1

H(sn) == IF sn = <<>> THEN 1 ELSE Last(sn).h
T(sn) == IF sn = <<>> THEN 0 ELSE Last(sn).t

BalOf(s, u, t) == IF t \in DOMAIN s.bal[u] THEN s.bal[u][t] ELSE 0
SetBal(s, u, t, n) == [s EXCEPT !.bal[u] = (t :> n) @@ @]
Credit(s, u, t, n) == SetBal(s, u, t, BalOf(s, u, t) + n)
Front(s, p) == \A q \in s.pend : (q.from = p.from /\ q.to = p.to) => q.sid >= p.sid

-----------------------------------------------------------------------------
(* rewards: days by the clock of snapshot blocks *)
StartIdx(t) == IF t <= 0 THEN 0 ELSE ((t - 1) \div Day) + 1
Within(t) == t < Day
EndIdx(t) == IF Within(t) THEN 0 ELSE (t \div Day) - 1
EndTime(t) == IF Within(t) THEN 0 ELSE (t \div Day) * Day
Active(r) == r.revoke = 0
Calc(r, now) ==
    IF r.reward = -1 THEN [end |-> 0, days |-> {}, drained |-> TRUE]
    ELSE LET lim == now - Limit
             byRevoke == ~Active(r) /\ EndTime(r.revoke) <= lim
             t == IF byRevoke THEN r.revoke ELSE lim
             days == IF Within(t) \/ StartIdx(r.reward) > EndIdx(t) THEN {} ELSE StartIdx(r.reward)..EndIdx(t)
         IN [end |-> EndTime(t), days |-> {d \in days : Pays(r.name, d)}, drained |-> byRevoke]
Drained(r, now) == LET c == Calc(r, now) IN c.drained /\ c.days = {}

-----------------------------------------------------------------------------
(* what a contract does with call p; k is the number of the receive block.  *)
(* A result is [ok, s, outs]; outs are [to, tok, amt, kind, arg, rw].        *)
Out(to, tok, amt, kind, arg, rw) == [to |-> to, tok |-> tok, amt |-> amt, kind |-> kind, arg |-> arg, rw |-> rw]
Bad == [ok |-> FALSE]
Good(s, outs) == [ok |-> TRUE, s |-> s, outs |-> outs]
CB(op, ok) == [NoArg EXCEPT !.op = op, !.f = ok]

Stk(owner, id, ben, amt, exp, dg, bid, key) ==
    [owner |-> owner, id |-> id, ben |-> ben, amt |-> amt, exp |-> exp, dg |-> dg, bid |-> bid, key |-> key]
(* the entry a call without an id means: the first that fits *)
Fit(s, owner, ben, dg, bid) == {i \in 1..Len(s.stakes) : LET e == s.stakes[i] IN e.owner = owner /\ e.ben = ben /\ e.dg = dg /\ e.bid = bid}
FirstOf(I) == CHOOSE i \in I : \A j \in I : i <= j
DropAt(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))

(* staking without an id adds to the entry that fits *)
StakeOld(s, p, k, owner, ben, dg, bid, exp, kept) ==
    LET I == Fit(s, owner, ben, dg, bid) IN
    IF I = {} THEN [s EXCEPT !.stakes = Append(@, Stk(owner, 0, ben, p.amt, exp, dg, bid, k))]
    ELSE LET i == FirstOf(I) IN
         [s EXCEPT !.stakes[i] = [@ EXCEPT !.amt = @ + p.amt, !.id = 0, !.exp = IF kept THEN Mx(@, exp) ELSE exp]]
CancelOld(s, p, owner, ben, dg, bid, amt, cb) ==
    LET I == Fit(s, owner, ben, dg, bid) IN
    IF I = {} THEN Bad
    ELSE LET i == FirstOf(I)  e == s.stakes[i]  left == e.amt - amt IN
         IF e.exp > p.ch \/ left < 0 \/ e.id # 0 \/ (left # 0 /\ left < MinStake) THEN Bad
         ELSE Good(IF left = 0 THEN [s EXCEPT !.stakes = DropAt(@, i)] ELSE [s EXCEPT !.stakes[i].amt = left],
                   <<Out(p.from, 0, amt, "call", IF cb = "" THEN NoArg ELSE CB(cb, TRUE), {})>>)

ExecQ(s, p, k) == LET g == p.arg IN
    CASE g.op = "stake" ->
            Good([s EXCEPT !.stakes = Append(@, Stk(p.from, p.sid, g.a, p.amt, p.ch + StakeH, "", 0, k)), !.idmap = @ \cup {<<p.sid, k>>}], <<>>)
      [] g.op = "stakecb" ->
            Good([s EXCEPT !.stakes = Append(@, Stk(p.from, p.sid, g.a, p.amt, p.ch + g.n, "", 0, k)), !.idmap = @ \cup {<<p.sid, k>>}],
                 <<Out(p.from, 0, 0, "call", CB("stakecb", TRUE), {})>>)
      [] g.op \in {"cancel", "cancelcb"} ->
            LET K == {x \in s.idmap : x[1] = g.n} IN
            IF K = {} THEN Bad
            ELSE LET key == (CHOOSE x \in K : TRUE)[2]
                     I == {i \in 1..Len(s.stakes) : s.stakes[i].key = key} IN
                 IF I = {} THEN Bad
                 ELSE LET i == FirstOf(I)  e == s.stakes[i] IN
                      IF e.owner # p.from \/ e.exp > p.ch THEN Bad
                      ELSE Good([s EXCEPT !.stakes = DropAt(@, i), !.idmap = @ \ K],
                                <<Out(p.from, 0, e.amt, "call", IF g.op = "cancel" THEN NoArg ELSE CB("cancelcb", TRUE), {})>>)
      [] g.op = "stakeold" -> Good(StakeOld(s, p, k, p.from, g.a, "", 0, p.ch + StakeH, FALSE), <<>>)
      [] g.op = "cancelold" -> CancelOld(s, p, p.from, g.a, "", 0, g.n, "")
      [] g.op = "delegate" -> Good(StakeOld(s, p, k, g.b, g.a, p.from, g.m, p.ch + g.n, TRUE), <<Out(p.from, 0, 0, "call", CB("delegate", TRUE), {})>>)
      [] g.op = "canceldel" -> CancelOld(s, p, g.b, g.a, p.from, g.m, g.n, "canceldel")

TokAt(s, t) == {i \in 1..Len(s.toks) : s.toks[i].id = t}
ExecA(s, p, k) == LET g == p.arg  I == TokAt(s, g.n) IN
    CASE g.op = "issue" ->   \* a symbol, n supply, m maximum, f re-issuable, g owner burn only
            Good([s EXCEPT !.toks = Append(@, [id |-> k, owner |-> p.from, supply |-> g.n, max |-> g.m, re |-> g.f, bo |-> g.g, sym |-> g.a, idx |-> s.nidx[g.a]]),
                           !.nidx[g.a] = @ + 1, !.olist[p.from] = Append(@, k)],
                 <<Out(p.from, k, g.n, "reward", NoArg, {})>>)
      [] g.op = "reissue" -> \* n token, m amount, a receiver
            IF g.n = 0 THEN
                 IF p.from # "G" THEN Bad
                 ELSE Good([s EXCEPT !.minted = @ \cup p.rw], <<Out(g.a, 0, 0, "reward", NoArg, p.rw)>>)
            ELSE IF I = {} THEN Bad
            ELSE LET i == FirstOf(I)  e == s.toks[i] IN
                 IF ~e.re \/ e.owner # p.from \/ e.max - e.supply < g.m THEN Bad
                 ELSE Good([s EXCEPT !.toks[i].supply = @ + g.m], <<Out(g.a, g.n, g.m, "reward", NoArg, {})>>)
      [] g.op = "burn" ->
            IF p.tok = 0 THEN Good([s EXCEPT !.burnt = @ + p.amt], <<>>)
            ELSE LET i == FirstOf(TokAt(s, p.tok))  e == s.toks[i] IN
                 IF e.bo /\ e.owner # p.from THEN Bad
                 ELSE Good([s EXCEPT !.toks[i].supply = @ - p.amt], <<>>)
      [] g.op = "transfer" ->
            IF I = {} THEN Bad
            ELSE LET i == FirstOf(I)  e == s.toks[i] IN
                 IF ~e.re \/ e.owner # p.from THEN Bad
                 ELSE Good([s EXCEPT !.toks[i].owner = g.a,
                                     !.olist = [[@ EXCEPT ![p.from] = Flt(@, LAMBDA x : x # g.n)] EXCEPT ![g.a] = Append(@, g.n)]], <<>>)
      [] g.op = "disable" ->
            IF I = {} THEN Bad
            ELSE LET i == FirstOf(I)  e == s.toks[i] IN
                 IF ~e.re \/ e.owner # p.from THEN Bad
                 ELSE Good([s EXCEPT !.toks[i] = [@ EXCEPT !.re = FALSE, !.max = 0, !.bo = FALSE]], <<>>)
      [] g.op = "info" -> Good(s, <<Out(p.from, 0, 0, "call", CB("info", I # {}), {})>>)

SetReg(s, r) == [s EXCEPT !.regs = (r.name :> r) @@ @]
ExecG(s, p, k) == LET g == p.arg  has == g.a \in DOMAIN s.regs  r == s.regs[g.a] IN
    CASE g.op = "register" ->   \* a name, b producer, c withdraw address
            IF p.amt # RegAmt \/ p.tok # 0 THEN Bad
            ELSE IF has /\ (Active(r) \/ r.owner # p.from \/ ~Drained(r, p.ct)) THEN Bad
            ELSE IF g.b \in DOMAIN s.his /\ s.his[g.b] # g.a THEN Bad
            ELSE LET fresh == g.b \notin DOMAIN s.his
                     old == IF has THEN r.hist ELSE <<>> IN
                 Good([SetReg(s, [name |-> g.a, owner |-> p.from, prod |-> g.b, wd |-> g.c, amt |-> p.amt, exp |-> p.ch + RegH, reward |-> p.ct, revoke |-> 0,
                                  hist |-> IF fresh THEN Append(old, g.b) ELSE old]) EXCEPT !.his = (g.b :> g.a) @@ @], <<>>)
      [] g.op = "revoke" ->
            IF ~has THEN Bad ELSE IF ~Active(r) \/ r.owner # p.from \/ r.exp > p.ch THEN Bad
            ELSE Good(SetReg(s, [r EXCEPT !.amt = 0, !.exp = 0, !.revoke = p.ct, !.reward = IF Drained(r, p.ct) THEN -1 ELSE @]),
                      <<Out(p.from, 0, r.amt, "call", NoArg, {})>>)
      [] g.op = "prod" ->
            IF ~has THEN Bad ELSE IF ~Active(r) \/ r.owner # p.from \/ r.prod = g.b THEN Bad
            ELSE IF g.b \in DOMAIN s.his /\ s.his[g.b] # g.a THEN Bad
            ELSE Good([SetReg(s, [r EXCEPT !.prod = g.b, !.hist = IF g.b \in DOMAIN s.his THEN @ ELSE Append(@, g.b)]) EXCEPT !.his = (g.b :> g.a) @@ @], <<>>)
      [] g.op = "wd" ->
            IF ~has THEN Bad ELSE IF ~Active(r) \/ r.owner # p.from \/ r.wd = g.b THEN Bad
            ELSE Good(SetReg(s, [r EXCEPT !.wd = g.b]), <<>>)
      [] g.op = "reward" ->   \* a name, b receiver
            IF ~has THEN Bad ELSE IF r.reward = -1 \/ (p.from # r.owner /\ p.from # r.wd) THEN Bad
            ELSE LET c == Calc(r, p.ct)  e == IF c.drained THEN -1 ELSE c.end IN
                 IF e = r.reward THEN Good(s, <<>>)
                 ELSE Good(SetReg(s, [r EXCEPT !.reward = e]),
                           IF c.days = {} THEN <<>>
                           ELSE <<Out("A", 0, 0, "call", Arg("reissue", g.b, "", "", 0, 0, FALSE, FALSE), {<<g.a, d>> : d \in c.days})>>)
      [] g.op = "vote" -> IF ~has THEN Bad ELSE IF ~Active(r) THEN Bad ELSE Good([s EXCEPT !.votes = (p.from :> g.a) @@ @], <<>>)
      [] g.op = "unvote" -> Good([s EXCEPT !.votes = [x \in DOMAIN @ \ {p.from} |-> @[x]]], <<>>)

(* operations that tell the caller about a failure *)
CallsBack == {"stakecb", "cancelcb", "delegate", "canceldel", "info"}
Refund(p) == LET a == IF p.arg.op \in CallsBack THEN CB(p.arg.op, FALSE) ELSE NoArg
                 m == IF p.tok = 0 THEN p.amt + p.fee ELSE p.amt IN
    (IF p.amt > 0 /\ p.tok # 0 THEN <<Out(p.from, p.tok, p.amt, "call", a, {})>> ELSE <<>>)
    \o (IF p.tok = 0 /\ m > 0 THEN <<Out(p.from, 0, m, "call", a, {})>> ELSE <<>>)
    \o (IF p.tok # 0 /\ p.fee > 0 THEN <<Out(p.from, 0, p.fee, "call", a, {})>> ELSE <<>>)
    \o (IF p.amt = 0 /\ p.fee = 0 /\ p.arg.op \in CallsBack THEN <<Out(p.from, 0, 0, "call", a, {})>> ELSE <<>>)

Exec(s, p, k) == CASE p.to = "Q" -> ExecQ(s, p, k) [] p.to = "A" -> ExecA(s, p, k) [] p.to = "G" -> ExecG(s, p, k)

-----------------------------------------------------------------------------
Call(u, to, tok, amt, fee, arg) ==
    /\ amt <= BalOf(st, u, tok) /\ fee + (IF tok = 0 THEN amt ELSE 0) <= BalOf(st, u, 0)
    /\ LET s1 == Credit(st, u, tok, 0 - amt)  s2 == Credit(s1, u, 0, 0 - fee) IN
       st' = [s2 EXCEPT !.pend = @ \cup {Send(next, u, to, tok, amt, fee, arg, {})}]
    /\ next' = next + 1 /\ UNCHANGED <<snaps, nflush>>

Result(p) == LET r == Exec([st EXCEPT !.pend = @ \ {p}], p, next) IN
    IF r.ok THEN r ELSE [ok |-> FALSE, s |-> [st EXCEPT !.pend = @ \ {p}], outs |-> Refund(p)]
(* sends of a contract are numbered after its receive block *)
ContractRecv(p) ==
    /\ p \in st.pend /\ p.to \notin Users /\ p.ch > 0 /\ Front(st, p)
    /\ LET r == Result(p) IN
       /\ st' = [r.s EXCEPT !.pend = @ \cup {LET o == r.outs[i] IN Send(next + i, p.to, o.to, o.tok, o.amt, 0, o.arg, o.rw) : i \in 1..Len(r.outs)}]
       /\ next' = next + 1 + Len(r.outs)
    /\ UNCHANGED <<snaps, nflush>>
(* Known finding: the contract computes the reward as of the snapshot that   *)
(* confirmed the call, so receiving an older withdrawal after a newer one    *)
(* turns the reward time back, and days already paid become payable again.   *)
Paid(s) == s.minted \cup UNION {q.rw : q \in s.pend}
LateReward(p) == /\ p.to = "G" /\ p.arg.op = "reward"
                 /\ LET r == Result(p) IN r.ok /\ r.s.regs[p.arg.a].reward # -1
                       /\ \E x \in Paid(st) : x[1] = p.arg.a /\ x[2] >= StartIdx(r.s.regs[p.arg.a].reward)
UserRecv(p) ==
    /\ p \in st.pend /\ p.to \in Users
    /\ st' = [Credit([st EXCEPT !.pend = @ \ {p}], p.to, p.tok, p.amt) EXCEPT !.rw[p.to] = @ \cup p.rw]
    /\ next' = next + 1 /\ UNCHANGED <<snaps, nflush>>

Confirm(s, h, t) == [s EXCEPT !.pend = {IF p.ch = 0 THEN [p EXCEPT !.ch = h, !.ct = t] ELSE p : p \in @}]
(* n snapshots in a row, the first confirms everything, one second apart after dt *)
Snap(n, dt) ==
    /\ snaps' = Append(snaps, [h |-> H(snaps) + n, t |-> T(snaps) + dt + n - 1, first |-> H(snaps) + 1,
                               pre |-> st, post |-> Confirm(st, H(snaps) + 1, T(snaps) + dt)])
    /\ st' = Confirm(st, H(snaps) + 1, T(snaps) + dt)
    /\ UNCHANGED <<nflush, next>>
DelSnap(n) ==
    /\ n \in 1..Len(snaps)
    /\ st' = snaps[n].pre /\ snaps' = SubSeq(snaps, 1, n - 1) /\ nflush' = n - 1 /\ UNCHANGED next
Flush == nflush' = Len(snaps) /\ UNCHANGED <<st, snaps, next>>
Restart == /\ st' = IF nflush = 0 THEN St0 ELSE snaps[nflush].post
           /\ snaps' = SubSeq(snaps, 1, nflush) /\ UNCHANGED <<nflush, next>>

-----------------------------------------------------------------------------
(* the properties, on every state *)
PendAmt(s, t) == SumOf({p \in s.pend : p.tok = t}, LAMBDA p : p.amt)
Held(s, t) == SumOf(Users, LAMBDA u : BalOf(s, u, t))
StakeTotal(s) == SumOf(Range(s.stakes), LAMBDA e : e.amt)
RegTotal(s) == SumOf({s.regs[x] : x \in DOMAIN s.regs}, LAMBDA r : r.amt)
(* the fee of an issue is burnt once the issue succeeds *)
FeeUnder(s) == SumOf(s.pend, LAMBDA p : p.fee)
TokenInv == \A i \in 1..Len(st.toks) : LET e == st.toks[i] IN
    /\ e.supply = Held(st, e.id) + PendAmt(st, e.id)
    /\ e.supply >= 0 /\ (e.re => e.supply <= e.max)
    /\ e.id # GenTok => e.id \in Range(st.olist[e.owner])
    /\ \A u \in Users : e.id \in Range(st.olist[u]) => u = e.owner
    /\ \A j \in 1..Len(st.toks) : i # j => (e.id # st.toks[j].id /\ ~(e.sym = st.toks[j].sym /\ e.idx = st.toks[j].idx))
ViteInv == Held(st, 0) + PendAmt(st, 0) + FeeUnder(st) + StakeTotal(st) + RegTotal(st) + st.burnt + IssueFee * (Len(st.toks) - Len(GenToks))
           = InitBal * Cardinality(Users)
StakeInv == \A i \in 1..Len(st.stakes) : LET e == st.stakes[i] IN
    e.amt >= MinStake /\ (e.id # 0 => <<e.id, e.key>> \in st.idmap)
RewardOnce == /\ \A u, v \in Users : u # v => st.rw[u] \cap st.rw[v] = {}
              /\ \A p, q \in st.pend : p # q => p.rw \cap q.rw = {}
              /\ \A p \in st.pend, u \in Users : p.rw \cap st.rw[u] = {}
              /\ st.minted = (UNION {st.rw[u] : u \in Users}) \cup UNION {p.rw : p \in {q \in st.pend : q.to # "A"}}
RegInv == /\ \A x \in DOMAIN st.regs : LET r == st.regs[x] IN
                /\ r.amt = (IF Active(r) THEN RegAmt ELSE 0) /\ st.his[r.prod] = x
                /\ \A d \in Range(r.hist) : st.his[d] = x
          /\ \A u \in DOMAIN st.votes : st.votes[u] \in DOMAIN st.regs
BuiltinInv == TokenInv /\ ViteInv /\ StakeInv /\ RewardOnce /\ RegInv
=============================================================================
