-------------------------------- MODULE Dex --------------------------------
(***************************************************************************)
(* The exchange of go-vite: one market of a trade token "T" against a      *)
(* quote token "Q".  Contract "F" (DexFund) keeps the users' funds, "D"    *)
(* (DexTrade) the order book.  Every interaction is asynchronous: a send,  *)
(* its confirmation by a snapshot, the receive by the contract; F hands    *)
(* orders to D and D hands settlements back to F in the same way.          *)
(* Prices are in quarters (4 means 1.0); amounts are integers of the       *)
(* smallest unit; DecDiv = 10^(decimals of T - decimals of Q).             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC
CONSTANTS Users, Op, InitBal, DecDiv, Card, BaseRate, VipCut, Vip, Invited, MinAmt, MarketMax, MaxTx

VARIABLES st, next
vars == <<st, next>>
Toks == {"Q", "T"}
People == Users \cup {Op}
Mn(a, b) == IF a < b THEN a ELSE b
Mx(a, b) == IF a > b THEN a ELSE b
SumOf(S, F(_)) == MapThenSumSet(F, S)
SumSq(s, F(_)) == FoldLeft(LAMBDA a, x : a + F(x), 0, s)

\* order types
Limit == 0  Market == 1  PostOnly == 2  FOK == 3  IOC == 4
\* order states
Pending == 0  Partial == 1  Full == 2  Cancelled == 3
\* reasons of a cancellation
ByUser == 0  ByMarket == 1  PartialByUser == 3  PartialByMarket == 4  ByPostOnly == 7  ByFOK == 8  ByMax == 9

-----------------------------------------------------------------------------
(* arithmetic: amounts and fees are rounded half up *)
Amt(q, p) == (2 * q * p + 4 * DecDiv) \div (8 * DecDiv)
Dust(q, p) == q * p < 4 * DecDiv
QtyFor(a, p) == (a * 4 * DecDiv) \div p
Fee(a, r) == (2 * a * r + Card) \div (2 * Card)

Rate(u) == BaseRate - (IF u \in Vip THEN VipCut ELSE 0)
Cut(u, r) == IF u \in Invited THEN (r * 9) \div 10 ELSE r
MaxRate(o) == Mx(o.tr + o.to, o.mr + o.mo)

NoOrd == [n |-> 0]
Acc0 == [a |-> 0, l |-> 0]
St0 == [fund |-> [u \in Users |-> [t \in Toks |-> Acc0]],
        bal |-> [u \in Users |-> [t \in Toks |-> InitBal]],
        fbal |-> [t \in Toks |-> 0],
        book |-> [s \in BOOLEAN |-> <<>>],       \* side (TRUE sells) -> orders, best first
        pool |-> 0, opf |-> 0,                   \* fees in Q: for dividends, of the market's operator
        mk |-> [tr |-> 0, mr |-> 0, stop |-> FALSE, stable |-> FALSE], off |-> FALSE,
        grants |-> {}, ordn |-> 0, pend |-> {}]
Init == st = St0 /\ next = 1

Arg0 == [op |-> "", u |-> "", tok |-> "", amt |-> 0, side |-> FALSE, ty |-> 0, p |-> 0, q |-> 0, ref |-> 0, f |-> FALSE, ord |-> NoOrd,
         set |-> {}, base |-> 0, opfee |-> 0]
Snd(sid, from, to, tok, amt, arg) == [sid |-> sid, from |-> from, to |-> to, tok |-> tok, amt |-> amt, arg |-> arg, conf |-> FALSE]
InTurn(s, p) == \A q \in s.pend : (q.from = p.from /\ q.to = p.to) => q.sid >= p.sid
Good(s, outs) == [ok |-> TRUE, s |-> s, outs |-> outs, tx |-> <<>>, tk |-> NoOrd, mkr |-> <<>>]
Bad == [ok |-> FALSE, s |-> st, outs |-> <<>>, tx |-> <<>>, tk |-> NoOrd, mkr |-> <<>>]
Out(to, tok, amt, arg) == [to |-> to, tok |-> tok, amt |-> amt, arg |-> arg]

-----------------------------------------------------------------------------
(* contract F *)
AddA(s, u, t, n) == [s EXCEPT !.fund[u][t].a = @ + n]
(* place an order of u, sent as send number sid by the agent who ("": by u) *)
Place(s, u, who, g, sid) ==
    LET z == s.mk.stable
        tr == IF z THEN 0 ELSE Cut(u, Rate(u))  to == IF z THEN 0 ELSE Cut(u, s.mk.tr)
        mr == IF z THEN 0 ELSE Cut(u, Rate(u))  mo == IF z THEN 0 ELSE Cut(u, s.mk.mr)
        rate == Mx(tr + to, mr + mo)
        lim == g.ty # Market
        amt == IF lim THEN Amt(g.q, g.p) ELSE 0
        fee == IF lim /\ ~g.side THEN Fee(amt, rate) ELSE 0
        tok == IF g.side THEN "T" ELSE "Q"
        have == s.fund[u][tok].a
        lock == IF g.side THEN g.q ELSE IF lim THEN amt + fee ELSE have
        (* a market buy splits what there is into amount and fee *)
        mfee == IF rate = 0 THEN 0 ELSE Fee(have, (rate * Card) \div (Card + rate) + 1)
        o == [n |-> s.ordn + 1, sid |-> sid, u |-> u, ag |-> who, side |-> g.side, ty |-> g.ty, p |-> g.p, q |-> g.q,
              a |-> IF ~lim /\ ~g.side THEN have - mfee ELSE amt, lf |-> IF ~lim /\ ~g.side THEN mfee ELSE fee,
              tr |-> tr, to |-> to, mr |-> mr, mo |-> mo, st |-> Pending, xq |-> 0, xa |-> 0, xb |-> 0, xo |-> 0, why |-> 0, ref |-> 0]
    IN IF s.off \/ s.mk.stop \/ (who # "" /\ <<u, who>> \notin s.grants) THEN Bad
       ELSE IF lim /\ amt + fee < MinAmt THEN Bad
       ELSE IF ~lim /\ ~g.side /\ have < MinAmt THEN Bad
       ELSE IF have < lock THEN Bad
       ELSE Good([s EXCEPT !.fund[u][tok] = [a |-> have - lock, l |-> @.l + lock], !.ordn = @ + 1],
                 <<Out("D", "V", 0, [Arg0 EXCEPT !.op = "order", !.ord = o])>>)
Settle(s, g) ==
    LET x(u, t) == SumOf({e \in g.set : e.u = u /\ e.t = t}, LAMBDA e : e.rel + e.inc)
        y(u, t) == SumOf({e \in g.set : e.u = u /\ e.t = t}, LAMBDA e : e.rel + e.red) IN
    [s EXCEPT !.fund = [u \in Users |-> [t \in Toks |-> [a |-> s.fund[u][t].a + x(u, t), l |-> s.fund[u][t].l - y(u, t)]]],
              !.pool = @ + g.base, !.opf = @ + g.opfee]
ExecF(s, p) == LET g == p.arg IN
    CASE g.op = "deposit" -> Good(AddA(s, p.from, p.tok, p.amt), <<>>)
      [] g.op = "depositfor" -> Good(AddA(s, g.u, p.tok, p.amt), <<>>)
      [] g.op \in {"withdraw", "withdrawto"} ->
            IF s.fund[p.from][g.tok].a < g.amt THEN Bad
            ELSE Good(AddA(s, p.from, g.tok, -g.amt), <<Out(IF g.op = "withdraw" THEN p.from ELSE g.u, g.tok, g.amt, Arg0)>>)
      [] g.op = "transfer" ->
            IF s.fund[p.from][g.tok].a < g.amt THEN Bad
            ELSE Good(AddA(AddA(s, p.from, g.tok, -g.amt), g.u, g.tok, g.amt), <<>>)
      [] g.op = "place" -> Place(s, p.from, "", g, p.sid)
      [] g.op = "placefor" -> Place(s, g.u, p.from, g, p.sid)
      [] g.op = "settle" -> Good(Settle(s, g), <<>>)
      [] g.op = "grant" -> Good([s EXCEPT !.grants = IF g.f THEN @ \cup {<<p.from, g.u>>} ELSE @ \ {<<p.from, g.u>>}], <<>>)
      [] g.op = "fcancel" ->   \* by hash, for oneself (u = "") or a principal
            IF g.u # "" /\ g.u # p.from /\ <<g.u, p.from>> \notin s.grants THEN Bad
            ELSE Good(s, <<Out("D", "V", 0, [Arg0 EXCEPT !.op = "icancel", !.ref = g.ref, !.u = IF g.u = "" THEN p.from ELSE g.u])>>)
      (* rights of the operator of the exchange and of the market *)
      [] g.op \in {"rates", "stop", "stable", "off", "time"} ->
            IF p.from # Op THEN Bad
            ELSE CASE g.op = "rates" -> IF g.p > 200 \/ g.q > 200 THEN Bad ELSE Good([s EXCEPT !.mk.tr = g.p, !.mk.mr = g.q], <<>>)
                   [] g.op = "stop" -> Good([s EXCEPT !.mk.stop = g.f], <<>>)
                   [] g.op = "stable" -> IF s.mk.stable = g.f THEN Bad ELSE Good([s EXCEPT !.mk.stable = g.f], <<>>)
                   [] g.op = "off" -> Good([s EXCEPT !.off = g.f], <<>>)
                   [] OTHER -> Good(s, <<>>)

-----------------------------------------------------------------------------
(* contract D: matching *)
Crosses(t, m) == t.ty = Market \/ (IF t.side THEN t.p <= m.p ELSE t.p >= m.p)
(* the fees an execution of amount a costs order o: <<base, operator>> *)
FeesOf(o, a, br, or) ==
    LET room == o.lf - o.xb - o.xo
        b == IF br = 0 THEN 0 ELSE IF o.side THEN Fee(a, br) ELSE Mn(Fee(a, br), Mx(0, room))
        left == o.side \/ br = 0 \/ b < room
        r == IF ~left \/ or = 0 THEN 0 ELSE IF o.side THEN Fee(a, or) ELSE Mn(Fee(a, or), room - b)
    IN <<b, r>>
Cap(o, a) == IF ~o.side THEN Mn(a, o.a - o.xa) ELSE a
After(o, q, a, f, p) ==
    LET done == \/ o.q - o.xq = q
                \/ o.ty = Market /\ ~o.side /\ (o.a - o.xa = a \/ QtyFor(o.a - o.xa - a, p) < 1)
                \/ o.ty # Market /\ Dust(o.q - o.xq - q, o.p)
    IN [o EXCEPT !.st = IF done THEN Full ELSE Partial, !.xq = @ + q, !.xa = @ + a, !.xb = @ + f[1], !.xo = @ + f[2]]
(* one step of the loop over the book; z = [t, out, mod, tx, stop] *)
TakeOne(z, m) ==
    IF z.stop THEN [z EXCEPT !.out = Append(@, m)]
    ELSE IF ~Crosses(z.t, m) THEN [z EXCEPT !.stop = TRUE, !.out = Append(@, m)]
    ELSE IF z.t.ty = PostOnly THEN [z EXCEPT !.stop = TRUE, !.out = Append(@, m), !.t.st = Cancelled, !.t.why = ByPostOnly]
    ELSE LET t == z.t
             tq == IF t.ty = Market /\ ~t.side THEN Mn(t.q - t.xq, QtyFor(t.a - t.xa, m.p)) ELSE t.q - t.xq
             q == Mn(tq, m.q - m.xq)
             a == Mn(Cap(t, Amt(q, m.p)), Cap(m, Amt(q, m.p)))
             tf == FeesOf(t, a, t.tr, t.to)
             mf == FeesOf(m, a, m.mr, m.mo)
             t1 == After(t, q, a, tf, m.p)
             m1 == After(m, q, a, mf, m.p)
             n == Len(z.tx) + 1
             full == t1.st = Partial /\ n >= MaxTx      \* as many fills as one order may have
             t2 == IF full /\ t.ty # FOK THEN [t1 EXCEPT !.st = Cancelled, !.why = PartialByMarket] ELSE t1
         IN [t |-> t2, out |-> IF m1.st = Full THEN z.out ELSE Append(z.out, m1), mod |-> Append(z.mod, m1),
             tx |-> Append(z.tx, [m |-> m.n, mu |-> m.u, p |-> m.p, q |-> q, a |-> a, tf |-> tf, mf |-> mf]), stop |-> full \/ t2.st # Partial]
Refund(o) == IF o.side THEN o.q - o.xq ELSE (o.a - o.xa) + (o.lf - o.xb - o.xo)
Reset(o) == [o EXCEPT !.xq = 0, !.xa = 0, !.xb = 0, !.xo = 0]
Closed(o) == [o EXCEPT !.ref = Refund(o)]
(* moves of funds: red leaves locked, rel goes from locked to available, inc comes in *)
Mv(n, u, t, red, rel, inc) == [n |-> n, u |-> u, t |-> t, red |-> red, rel |-> rel, inc |-> inc]
Moves(t, tx, i) ==
    LET ft == tx.tf[1] + tx.tf[2]  fm == tx.mf[1] + tx.mf[2] IN
    IF ~t.side THEN {Mv(<<i, 1>>, t.u, "T", 0, 0, tx.q), Mv(<<i, 2>>, t.u, "Q", tx.a + ft, 0, 0),
                     Mv(<<i, 3>>, tx.mu, "Q", 0, 0, tx.a - fm), Mv(<<i, 4>>, tx.mu, "T", tx.q, 0, 0)}
    ELSE {Mv(<<i, 1>>, t.u, "Q", 0, 0, tx.a - ft), Mv(<<i, 2>>, t.u, "T", tx.q, 0, 0),
          Mv(<<i, 3>>, tx.mu, "T", 0, 0, tx.q), Mv(<<i, 4>>, tx.mu, "Q", tx.a + fm, 0, 0)}
RefundMove(o) == IF o.st \in {Full, Cancelled} /\ o.ref > 0 THEN {Mv(<<0, o.n>>, o.u, IF o.side THEN "T" ELSE "Q", 0, o.ref, 0)} ELSE {}
Better(a, b) == IF a.p # b.p THEN (IF a.side THEN a.p < b.p ELSE a.p > b.p) ELSE a.n < b.n
InsertO(bk, o) == SelectSeq(bk, LAMBDA x : Better(x, o)) \o <<o>> \o SelectSeq(bk, LAMBDA x : Better(o, x))
Match(s, o) ==
    LET z == FoldLeft(TakeOne, [t |-> o, out |-> <<>>, mod |-> <<>>, tx |-> <<>>, stop |-> FALSE], s.book[~o.side])
        t0 == z.t
        over == o.ty = Market /\ t0.xa + t0.xb + t0.xo > MarketMax
        rest == t0.st \in {Pending, Partial}
        t1 == IF over THEN [Reset(t0) EXCEPT !.st = Cancelled, !.why = ByMax]
              ELSE IF rest /\ o.ty \in {Market, IOC} THEN [t0 EXCEPT !.st = Cancelled, !.why = ByMarket]
              ELSE IF rest /\ o.ty = FOK THEN [Reset(t0) EXCEPT !.st = Cancelled, !.why = ByFOK]
              ELSE t0
        none == over \/ (rest /\ o.ty = FOK)      \* nothing is executed after all
        t2 == IF t1.st \in {Full, Cancelled} THEN Closed(t1) ELSE t1
        mk == IF none THEN <<>> ELSE [i \in DOMAIN z.mod |-> IF z.mod[i].st = Full THEN Closed(z.mod[i]) ELSE z.mod[i]]
        tx == IF none THEN <<>> ELSE z.tx
        set == UNION {Moves(o, tx[i], i) : i \in DOMAIN tx} \cup RefundMove(t2) \cup UNION {RefundMove(mk[i]) : i \in DOMAIN mk}
        s1 == [s EXCEPT !.book = [d \in BOOLEAN |->
                  IF d = o.side THEN (IF t2.st \in {Pending, Partial} THEN InsertO(s.book[d], t2) ELSE s.book[d])
                  ELSE IF none THEN s.book[d] ELSE z.out]]
        base == SumSq(tx, LAMBDA x : x.tf[1] + x.mf[1])
        opfee == SumSq(tx, LAMBDA x : x.tf[2] + x.mf[2])
        outs == IF set = {} THEN <<>> ELSE <<Out("F", "V", 0, [Arg0 EXCEPT !.op = "settle", !.set = set, !.base = base, !.opfee = opfee])>>
    IN [Good(s1, outs) EXCEPT !.tx = tx, !.tk = t2, !.mkr = mk]
CancelIt(s, who, B) ==     \* B: the order meant, if it is on the book
    IF B = {} THEN Bad
    ELSE LET o == CHOOSE x \in B : TRUE
             c == Closed([o EXCEPT !.st = Cancelled, !.why = IF o.st = Pending THEN ByUser ELSE PartialByUser]) IN
         IF o.u # who THEN Bad      \* not even the agent who placed it
         ELSE [Good([s EXCEPT !.book[o.side] = SelectSeq(@, LAMBDA x : x.n # o.n)],
                    <<Out("F", "V", 0, [Arg0 EXCEPT !.op = "settle", !.set = RefundMove(c)])>>) EXCEPT !.mkr = <<c>>]
OnBook(s) == ToSet(s.book[TRUE]) \cup ToSet(s.book[FALSE])
ExecD(s, p) == LET g == p.arg IN
    CASE g.op = "order" -> Match(s, g.ord)
      [] g.op = "cancel" -> CancelIt(s, p.from, {o \in OnBook(s) : o.n = g.ref})
      [] g.op = "hcancel" -> CancelIt(s, p.from, {o \in OnBook(s) : o.sid = g.ref})
      [] g.op = "icancel" -> CancelIt(s, g.u, {o \in OnBook(s) : o.sid = g.ref})

-----------------------------------------------------------------------------
Call(u, to, tok, amt, arg) ==
    /\ amt > 0 => (u \in Users /\ st.bal[u][tok] >= amt)
    /\ st' = [(IF amt > 0 THEN [st EXCEPT !.bal[u][tok] = @ - amt] ELSE st) EXCEPT !.pend = @ \cup {Snd(next, u, to, tok, amt, arg)}]
    /\ next' = next + 1
Result(p) == LET s == [st EXCEPT !.pend = @ \ {p}]
                 s1 == IF p.to = "F" /\ p.amt > 0 THEN [s EXCEPT !.fbal[p.tok] = @ + p.amt] ELSE s
                 r == IF p.to = "F" THEN ExecF(s1, p) ELSE ExecD(s1, p) IN
             IF r.ok THEN r ELSE [r EXCEPT !.s = s1]
ContractRecv(p) ==
    /\ p \in st.pend /\ p.to \notin People /\ p.conf /\ InTurn(st, p)
    /\ LET r == Result(p)
           news == {Snd(next + i, p.to, r.outs[i].to, r.outs[i].tok, r.outs[i].amt, r.outs[i].arg) : i \in DOMAIN r.outs}
           s2 == FoldLeft(LAMBDA s, o : IF o.amt > 0 THEN [s EXCEPT !.fbal[o.tok] = @ - o.amt] ELSE s, r.s, r.outs) IN
       st' = [s2 EXCEPT !.pend = @ \cup news] /\ next' = next + 1 + Len(r.outs)
UserRecv(p) ==
    /\ p \in st.pend /\ p.to \in Users
    /\ st' = [st EXCEPT !.pend = @ \ {p}, !.bal[p.to][p.tok] = @ + p.amt] /\ next' = next + 1
Snap == st' = [st EXCEPT !.pend = {[p EXCEPT !.conf = TRUE] : p \in @}] /\ UNCHANGED next

-----------------------------------------------------------------------------
(* C18: the book *)
Sorted(bk) == \A i, j \in DOMAIN bk : i < j => Better(bk[i], bk[j])
BookOk ==
    /\ Sorted(st.book[TRUE]) /\ Sorted(st.book[FALSE])
    /\ (st.book[TRUE] # <<>> /\ st.book[FALSE] # <<>>) => st.book[FALSE][1].p < st.book[TRUE][1].p
    /\ \A o \in OnBook(st) : /\ o.ty \in {Limit, PostOnly} /\ o.xq < o.q /\ o.xq >= 0
                             /\ ~o.side => (o.xa <= o.a /\ o.xb + o.xo <= o.lf)
                             /\ o.st = (IF o.xq = 0 /\ o.xa = 0 THEN o.st ELSE Partial)
(* a matched order: limits, all or nothing, book untouched by what is not executed *)
MatchOk(s, r, o) ==
    LET T == r.tx IN
    /\ \A i \in DOMAIN T : o.ty # Market => (IF o.side THEN T[i].p >= o.p ELSE T[i].p <= o.p)
    /\ \A i, j \in DOMAIN T : i < j => Better(s.book[~o.side][i], s.book[~o.side][j]) /\ T[i].m = s.book[~o.side][i].n
    /\ r.tk.xq = SumSq(T, LAMBDA x : x.q) /\ r.tk.xa = SumSq(T, LAMBDA x : x.a) /\ r.tk.xq <= o.q
    /\ o.ty = PostOnly => T = <<>>
    /\ (o.ty = FOK /\ T # <<>>) => r.tk.st = Full
    /\ r.tk.st # Full \/ o.ty = Market \/ Dust(o.q - r.tk.xq, o.p)
    /\ (~o.side /\ o.ty # Market) => r.tk.xa <= o.a
    /\ r.tk.ref >= 0 /\ \A i \in DOMAIN r.mkr : r.mkr[i].ref >= 0
(* C19: funds *)
LockedIn(o, u, t) == IF o.u # u THEN 0 ELSE IF o.side THEN (IF t = "T" THEN o.q - o.xq ELSE 0) ELSE IF t = "Q" THEN (o.a - o.xa) + (o.lf - o.xb - o.xo) ELSE 0
FundsOk ==
    /\ \A u \in Users, t \in Toks : st.fund[u][t].a >= 0 /\ st.fund[u][t].l >= 0 /\ st.bal[u][t] >= 0
    (* what the contract holds is what it owes *)
    /\ \A t \in Toks : st.fbal[t] = SumOf(Users, LAMBDA u : st.fund[u][t].a + st.fund[u][t].l) + (IF t = "Q" THEN st.pool + st.opf ELSE 0)
    (* what is locked is locked by an order on the book, on its way to it, or by a settlement on its way back *)
    /\ \A u \in Users, t \in Toks : st.fund[u][t].l =
          SumOf(OnBook(st), LAMBDA o : LockedIn(o, u, t))
        + SumOf({p \in st.pend : p.arg.op = "order"}, LAMBDA p : LockedIn(p.arg.ord, u, t))
        + SumOf({p \in st.pend : p.arg.op = "settle"}, LAMBDA p : SumOf({e \in p.arg.set : e.u = u /\ e.t = t}, LAMBDA e : e.red + e.rel))
    /\ \A t \in Toks : Cardinality(Users) * InitBal = SumOf(Users, LAMBDA u : st.bal[u][t]) + st.fbal[t] + SumOf({p \in st.pend : p.tok = t}, LAMBDA p : p.amt)
=============================================================================
