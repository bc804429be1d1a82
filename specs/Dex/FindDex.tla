------------------------------ MODULE FindDex ------------------------------
(* The history of the known finding about fill-or-kill orders: u1 has 101    *)
(* open sell orders, one more than the fills one order may have; u2's        *)
(* fill-or-kill order asks for all of them.  It has to be killed.            *)
EXTENDS GenDex
CONSTANTS BuyType, Extra    \* type of the order and how many orders too many there are
Count == MaxTx + Extra
Ready == {p \in st.pend : p.to \in {"F", "D"} /\ p.conf /\ InTurn(st, p)}
One == CHOOSE p \in Ready : \A q \in Ready : p.sid <= q.sid
Placed == Cardinality({i \in DOMAIN hist : hist[i].a = "call" /\ hist[i].from = "u1"}) - 1
Recv == LET p == One  r == Result(p) IN
    /\ ContractRecv(p)
    /\ Log([a |-> "recv", id |-> next, src |-> p.sid, c |-> p.to, from |-> p.from, op |-> p.arg.op, ok |-> r.ok,
            outs |-> [i \in DOMAIN r.outs |-> OutObs(r.outs[i])], tx |-> r.tx, tk |-> r.tk, mkr |-> r.mkr])
Sell == [G("place") EXCEPT !.side = TRUE, !.ty = Limit, !.p = 4, !.q = 1000]
Buy == [G("place") EXCEPT !.side = FALSE, !.ty = BuyType, !.p = 4, !.q = 1000 * Count]
FindNext ==
    IF Len(hist) = 1 THEN DoCall("u1", "F", "T", 200000, G("deposit"))
    ELSE IF Len(hist) = 2 THEN DoCall("u2", "F", "Q", 200000, G("deposit"))
    ELSE IF Ready # {} THEN Recv
    ELSE IF Placed < Count /\ CanCall("u1") THEN DoCall("u1", "F", "V", 0, Sell)
    ELSE IF \E p \in st.pend : ~p.conf THEN gSnap
    ELSE IF st.ordn = Count THEN DoCall("u2", "F", "V", 0, Buy)
    ELSE Snap /\ Log([a |-> "snap"])
FindSpec == GenInit /\ [][FindNext]_<<vars, hist>>
=============================================================================
