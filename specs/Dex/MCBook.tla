------------------------------- MODULE MCBook -------------------------------
(* Orders of every type that are placed, matched and settled one after the   *)
(* other, and cancellations: everything that can happen to a small book.     *)
EXTENDS MCDex
CONSTANTS MaxOrders
Play(s, c, u, g) == LET p == Snd(1, u, c, "V", 0, g) IN IF c = "F" THEN ExecF(s, p) ELSE ExecD(s, p)
(* what an order or cancellation leads to in the end *)
Whole(u, c, g) ==
    LET r == Play(st, c, u, g)
        r1 == IF r.ok /\ c = "F" THEN Play(r.s, "D", "F", r.outs[1].arg) ELSE r
    IN IF ~r.ok THEN st ELSE IF r1.outs = <<>> THEN r1.s ELSE Settle(r1.s, r1.outs[1].arg)
bPlace == \E u \in Users, g \in Ords : st.ordn < MaxOrders /\ st' = Whole(u, "F", g) /\ next' = next
bCancel == \E o \in OnBook(st) : st' = Whole(o.u, "D", [Arg0 EXCEPT !.op = "cancel", !.ref = o.n]) /\ next' = next
bSpec == mcInit /\ [][bPlace \/ bCancel]_vars
bMatch == \A u \in Users, g \in Ords : LET r == Play(st, "F", u, g) IN (st.ordn < MaxOrders /\ r.ok) => MatchOk(r.s, Match(r.s, r.outs[1].arg.ord), r.outs[1].arg.ord)
=============================================================================
