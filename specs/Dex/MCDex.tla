------------------------------- MODULE MCDex -------------------------------
(* Small exhaustive instance: two traders who have deposited, a few orders  *)
(* of every type and cancellations, every interleaving of the receives.     *)
EXTENDS Dex
CONSTANTS MaxCalls, Types, Prices, Qtys, Withdraws
mcUsers == {"u1", "u2"}
mcOp == "op"
mcVip == {}
mcInvited == {"u2"}
mcInit == /\ next = 1
          /\ st = [St0 EXCEPT !.fund = [u \in Users |-> [t \in Toks |-> [a |-> InitBal, l |-> 0]]],
                              !.bal = [u \in Users |-> [t \in Toks |-> 0]],
                              !.fbal = [t \in Toks |-> InitBal * Cardinality(Users)],
                              !.mk = [tr |-> 1, mr |-> 0, stop |-> FALSE, stable |-> FALSE]]
Calls == next <= MaxCalls
Ords == {[Arg0 EXCEPT !.op = "place", !.side = s, !.ty = y, !.p = p, !.q = q] : s \in BOOLEAN, y \in Types, p \in Prices, q \in Qtys}
cPlace == \E u \in Users, g \in Ords : st.ordn < 3 /\ Cardinality({p \in st.pend : p.to = "F" /\ p.from = u}) = 0 /\ Calls /\ Call(u, "F", "V", 0, g)
cCancel == \E u \in Users, o \in OnBook(st) : Calls /\ {p \in st.pend : p.arg.op = "cancel"} = {} /\ Call(u, "D", "V", 0, [Arg0 EXCEPT !.op = "cancel", !.ref = o.n])
cWithdraw == Withdraws /\ \E u \in Users, t \in Toks : Calls /\ st.fund[u][t].a > 0 /\ Call(u, "F", "V", 0, [Arg0 EXCEPT !.op = "withdraw", !.tok = t, !.amt = st.fund[u][t].a])
(* confirmation is immediate here *)
cRecv == \E p \in st.pend : p.to \notin Users /\ p.conf /\ ContractRecv(p)
mcNext == IF \E p \in st.pend : ~p.conf THEN Snap ELSE cPlace \/ cCancel \/ cWithdraw \/ cRecv
mcSpec == mcInit /\ [][mcNext]_vars
mcMatch == \A p \in st.pend : p.arg.op = "order" => MatchOk(st, Match(st, p.arg.ord), p.arg.ord)
=============================================================================
