------------------------------- MODULE GenDex -------------------------------
(* Behaviours of Dex, printed as JSON for replay. *)
EXTENDS Dex, Json
CONSTANTS Depth, WAdmin, WFund, WCancel, WAgent
VARIABLE hist
Rnd(S) == RandomElement({x \in S : Len(hist) >= 0})
R(S) == {Rnd(S)}
P(n) == Rnd(1..100) <= n
gPrices == {2, 3, 4, 6, 7, 8, 9, 12}

OrdObs(o) == <<o.n, o.u, o.p, o.q, o.a, o.lf, o.xq, o.xa, o.xb, o.xo, o.st, o.ty>>
Obs(s) == [fund |-> {<<u, t, s.fund[u][t].a, s.fund[u][t].l>> : u \in Users, t \in Toks},
           bal |-> {<<u, t, s.bal[u][t]>> : u \in Users, t \in Toks},
           fbal |-> {<<t, s.fbal[t]>> : t \in Toks},
           sells |-> [i \in DOMAIN s.book[TRUE] |-> OrdObs(s.book[TRUE][i])],
           buys |-> [i \in DOMAIN s.book[FALSE] |-> OrdObs(s.book[FALSE][i])],
           pool |-> s.pool, opf |-> s.opf, mk |-> s.mk, off |-> s.off, grants |-> s.grants]
Room == Len(hist) < Depth
Log(r) == hist' = Append(hist, r @@ [o |-> Obs(st')])
(* a user's quota allows only a few calls between two snapshots *)
CanCall(u) == Cardinality({p \in st.pend : p.from = u /\ ~p.conf}) < 3 /\ Cardinality({p \in st.pend : p.from = u}) < 5
DoCall(u, to, tok, amt, arg) == /\ Room /\ CanCall(u) /\ Call(u, to, tok, amt, arg)
                                /\ Log([a |-> "call", id |-> next, from |-> u, to |-> to, tok |-> tok, amt |-> amt, arg |-> arg])
G(op) == [Arg0 EXCEPT !.op = op]

Some(n) == Rnd({x \in {1, 7, n \div 5, n \div 3, n - 1, n, n + 1, 20000, 50000} : x >= 1 /\ x <= n + 1})
gDeposit == \E u \in R(Users), t \in R(Toks), v \in R(Users) : \E n \in {Rnd({x \in {5000, 50000, 200000, st.bal[u][t] \div 2, st.bal[u][t]} : x <= st.bal[u][t]} \cup {0})} :
    n > 0 /\ \E k \in {IF P(15) THEN "depositfor" ELSE "deposit"} : DoCall(u, "F", t, n, [G(k) EXCEPT !.u = IF k = "deposit" THEN "" ELSE v])
gWithdraw == P(WFund) /\ \E u \in R(Users), t \in R(Toks), v \in R(Users) : \E n \in {Some(st.fund[u][t].a)}, k \in R({"withdraw", "withdraw", "withdrawto", "transfer"}) :
    DoCall(u, "F", "V", 0, [G(k) EXCEPT !.u = IF k = "withdraw" THEN "" ELSE v, !.tok = t, !.amt = n])
(* prices: around the other side's best; quantities: what is there, more, less *)
Px(side) == LET b == st.book[~side] IN
    IF b # <<>> /\ P(60) THEN Rnd({b[1].p, b[1].p, b[Len(b)].p, b[(Len(b) + 1) \div 2].p}) ELSE Rnd(gPrices)
Qy(side, u, p) ==
    LET b == st.book[~side]
        have == IF side THEN st.fund[u]["T"].a ELSE QtyFor(st.fund[u]["Q"].a, p)
        sum == Mn(SumSq(b, LAMBDA x : x.q - x.xq), 50000000)
        k == Rnd(1..10)
        q == CASE k = 1 /\ b # <<>> -> b[1].q - b[1].xq
               [] k = 2 /\ b # <<>> -> b[1].q - b[1].xq + Rnd({-1, 1, 2, 3})
               [] k = 3 /\ b # <<>> -> sum
               [] k = 4 /\ b # <<>> -> sum + Rnd({-1, 1, MinAmt})
               [] k = 5 -> have
               [] k = 6 -> have - Rnd({1, 2, 100, have \div 100})
               [] k = 7 -> (4 * DecDiv * MinAmt) \div p + Rnd({-2, -1, 0, 1, 2})
               \* amounts whose fees are rounded up
               [] k >= 8 /\ MinAmt < 200 /\ P(80) -> (4 * DecDiv * Rnd({250, 255, 260, 300, 500, 510, 750, 800})) \div p + Rnd({0, 1})
               [] k = 8 -> have \div Rnd({2, 3, 7, 13})
               [] OTHER -> DecDiv * Rnd({1003, 2500, 3333, 4001, 7777, 10000})
        cap == IF P(88) THEN (IF side THEN have ELSE have - have \div 100) ELSE 50000000
    IN Mx(1, Mn(q, cap))
gType(k) == CASE k <= 56 -> 0 [] k <= 70 -> 1 [] k <= 78 -> 2 [] k <= 90 -> 3 [] OTHER -> 4
(* who can pay for an order on which side *)
Rich == {<<u, d>> \in Users \X BOOLEAN : st.fund[u][IF d THEN "T" ELSE "Q"].a > 2 * MinAmt}
gPlace == \E us \in {IF Rich # {} /\ P(85) THEN Rnd(Rich) ELSE Rnd(Users \X BOOLEAN)}, v0 \in R(Users), k \in R(1..100) :
    \E u \in {us[1]}, side \in {us[2]}, v \in {IF P(75) /\ (\E g \in st.grants : g[1] = us[1]) THEN Rnd({g[2] : g \in {h \in st.grants : h[1] = us[1]}}) ELSE v0} : \E p \in {Px(side)} : \E q \in {Qy(side, u, p)}, ag \in {P(WAgent) /\ (st.grants # {} \/ P(25))} :
    DoCall(IF ag THEN v ELSE u, "F", "V", 0, [G(IF ag THEN "placefor" ELSE "place") EXCEPT !.u = IF ag THEN u ELSE "", !.side = side, !.ty = gType(k), !.p = p, !.q = q])
(* cancellations: mostly one's own open orders *)
gCancel == P(WCancel) /\ OnBook(st) # {} /\ \E o \in R(OnBook(st)), w \in R(Users), k \in R({"cancel", "cancel", "hcancel", "fcancel", "fcancel"}) : \E u \in {IF o.ag # "" /\ P(50) THEN o.ag ELSE IF P(75) THEN o.u ELSE w} :
    DoCall(u, IF k = "fcancel" THEN "F" ELSE "D", "V", 0,
           [G(k) EXCEPT !.ref = IF k = "cancel" THEN o.n ELSE o.sid, !.u = IF k = "fcancel" /\ u # o.u /\ P(70) THEN o.u ELSE ""])
(* an order that is gone or was never on the book *)
gLost == P(WCancel) /\ \E u \in R(Users), k \in R({"cancel", "hcancel", "fcancel"}) :
    \E C \in {{p \in st.pend : p.arg.op = "order"}} : \E ref \in {IF C # {} /\ P(50) THEN (LET p == Rnd(C) IN <<p.arg.ord.n, p.arg.ord.sid>>) ELSE <<0, 0>>} :
    ref[1] > 0 /\ DoCall(u, IF k = "fcancel" THEN "F" ELSE "D", "V", 0, [G(k) EXCEPT !.ref = IF k = "cancel" THEN ref[1] ELSE ref[2]])
gGrant == P(WAgent) /\ \E u \in R(Users), v \in R(Users), f \in R({TRUE, TRUE, FALSE}) : u # v /\ DoCall(u, "F", "V", 0, [G("grant") EXCEPT !.u = v, !.f = f])
gAdmin == P(IF st.off \/ st.mk.stop THEN 100 ELSE WAdmin) /\ \E u \in {IF P(85) THEN Op ELSE Rnd(Users)}, k \in {IF P(65) /\ st.off THEN "off" ELSE IF P(65) /\ st.mk.stop THEN "stop" ELSE Rnd({"rates", "rates", "rates", "stop", "stable", "off", "time", "time"})}, f \in R(BOOLEAN),
          a \in R({0, 1, 150, 200, 200, 201}), b \in R({0, 3, 100, 200, 200}) :
    DoCall(u, "F", "V", 0, [G(k) EXCEPT !.p = IF k = "rates" THEN a ELSE 0, !.q = IF k = "rates" THEN b ELSE 0,
                            !.f = IF k \in {"stop", "off"} THEN (IF k = "stop" THEN st.mk.stop = FALSE /\ P(40) ELSE st.off = FALSE /\ P(30)) ELSE IF k = "stable" /\ P(70) THEN ~st.mk.stable ELSE f])
(* the messages the contracts send each other, sent by a user: refused *)
gForge == Room /\ P(35) /\ \E u \in R(Users), k \in R({"settle", "order", "icancel"}), v \in R(Users), t \in R(Toks), o \in {IF OnBook(st) = {} THEN NoOrd ELSE Rnd(OnBook(st))} :
          /\ k = "icancel" => o.n > 0
          /\ UNCHANGED vars
          /\ Log([a |-> "forge", from |-> u, arg |-> [G(k) EXCEPT !.u = v, !.tok = t, !.ref = IF k = "icancel" THEN o.sid ELSE 0]])
gRates == st.mk.tr = 0 /\ CanCall(Op) /\ (\A p \in st.pend : p.from # Op) /\ P(60) /\ DoCall(Op, "F", "V", 0, [G("rates") EXCEPT !.p = 200, !.q = 200])
OutObs(o) == [to |-> o.to, tok |-> o.tok, amt |-> o.amt, op |-> o.arg.op, ord |-> o.arg.ord, set |-> o.arg.set, base |-> o.arg.base, opfee |-> o.arg.opfee]
gRecv == \E C \in {{p \in st.pend : p.to \in {"F", "D"} /\ p.conf /\ InTurn(st, p)}} :
    /\ Room /\ C # {}
    /\ \E p \in R(C) : LET r == Result(p) IN
       /\ ContractRecv(p)
       /\ Log([a |-> "recv", id |-> next, src |-> p.sid, c |-> p.to, from |-> p.from, op |-> p.arg.op, ok |-> r.ok,
               outs |-> [i \in DOMAIN r.outs |-> OutObs(r.outs[i])], tx |-> r.tx, tk |-> r.tk, mkr |-> r.mkr])
gURecv == \E C \in {{p \in st.pend : p.to \in Users}} : /\ Room /\ C # {} /\ P(40)
    /\ \E p \in R(C) : UserRecv(p) /\ Log([a |-> "urecv", id |-> next, src |-> p.sid, u |-> p.to])
gSnap == Room /\ (\E p \in st.pend : ~p.conf) /\ Snap /\ Log([a |-> "snap"])
gDone == Len(hist) >= Depth /\ UNCHANGED <<vars, hist>>
Cfg == [a |-> "cfg", decdiv |-> DecDiv, min |-> MinAmt, mmax |-> MarketMax, bal |-> InitBal]
GenInit == Init /\ hist = <<Cfg>>
Early == Len(hist) < 12
GenNext == IF Len(hist) >= Depth THEN gDone
           ELSE IF Early THEN gDeposit \/ gDeposit \/ gDeposit \/ gRates \/ gSnap
           ELSE IF P(45) /\ (\E p \in st.pend : p.to \in {"F", "D"} /\ p.conf /\ InTurn(st, p)) THEN gRecv
           ELSE gRecv \/ gRecv \/ gSnap \/ gSnap \/ gPlace \/ gPlace \/ gPlace \/ gPlace \/ gCancel \/ gCancel \/ gLost \/ gDeposit \/ gWithdraw \/ gGrant \/ gAdmin \/ gForge \/ gURecv
GenSpec == GenInit /\ [][GenNext]_<<vars, hist>>
Emit == (Len(hist) = Depth) => PrintT("TRACE " \o ToJson(hist))
GenMatch == \A p \in st.pend : (p.arg.op = "order" /\ p.conf) => MatchOk(st, Match(st, p.arg.ord), p.arg.ord)
=============================================================================
