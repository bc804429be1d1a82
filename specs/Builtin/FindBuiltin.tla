---------------------------- MODULE FindBuiltin ----------------------------
(* The history of the known finding of LateReward: u2, who may withdraw for  *)
(* s1, asks on day 2; u1 asks on day 5 and is served first; then u2 is       *)
(* served, which turns the reward time back; u1 asks again.                  *)
EXTENDS GenBuiltin
The(u) == CHOOSE p \in st.pend : p.to = "G" /\ p.from = u
Pay(z) == CHOOSE p \in st.pend : p.to = "A"
DoSnap(dt) == Snap(1, dt) /\ Log([a |-> "snap", n |-> 1, dt |-> dt])
DoURecv(z) == LET p == CHOOSE p \in st.pend : p.to \in Users IN UserRecv(p) /\ Log([a |-> "urecv", id |-> next, u |-> p.to, src |-> p.sid])
Ask(u) == DoCall(u, "G", 0, 0, 0, Arg("reward", "s1", "u3", "", 0, 0, FALSE, FALSE))
FindNext == LET k == Len(hist) + 1 IN
    \/ k = 1 /\ DoCall("u1", "G", 0, RegAmt, 0, Arg("register", "s1", "p1", "u2", 0, 0, FALSE, FALSE))
    \/ k = 2 /\ DoSnap(1)
    \/ k = 3 /\ DoRecv(The("u1"))
    \/ k = 4 /\ DoSnap(2 * Day)
    \/ k = 5 /\ Ask("u2")
    \/ k = 6 /\ DoSnap(1)
    \/ k = 7 /\ DoSnap(3 * Day)
    \/ k = 8 /\ Ask("u1")
    \/ k = 9 /\ DoSnap(1)
    \/ k = 10 /\ DoRecv(The("u1"))
    \/ k = 11 /\ DoSnap(1)
    \/ k = 12 /\ DoRecv(Pay(0))
    \/ k = 13 /\ DoURecv(0)
    \/ k = 14 /\ DoRecv(The("u2"))
    \/ k = 15 /\ Ask("u1")
    \/ k = 16 /\ DoSnap(1)
    \/ k = 17 /\ DoRecv(The("u1"))
    \/ k = 18 /\ DoSnap(1)
    \/ k = 19 /\ DoRecv(Pay(0))
FindSpec == GenInit /\ [][FindNext]_<<vars, hist, top>>
=============================================================================
