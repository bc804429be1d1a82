----------------------------- MODULE GenRounds ------------------------------
(* Behaviours of Builtin around elections: registrations, votes and VITE on *)
(* the move, snapshots that fall into the same round or skip rounds, deep   *)
(* roll backs and restarts.  A round takes 75 seconds; the node keeps the   *)
(* last rounds' votes and balances in memory while it catches up.           *)
EXTENDS GenBuiltin

rRegister == \E u \in R(Users), x \in {NewName(0)} : \E d \in {Prod(x)} : \E v \in {IF x \in DOMAIN st.regs THEN st.regs[x].owner ELSE u} :
    (x \in DOMAIN st.regs => ~Active(st.regs[x])) /\ DoCall(v, "G", 0, RegAmt, 0, Arg("register", x, d, Rnd(Users), 0, 0, FALSE, FALSE))
rRevoke == DOMAIN st.regs # {} /\ P(20) /\ \E x \in R(DOMAIN st.regs) : DoCall(st.regs[x].owner, "G", 0, 0, 0, Arg("revoke", x, "", "", 0, 0, FALSE, FALSE))
rVote == DOMAIN st.regs # {} /\ \E x \in R(DOMAIN st.regs), u \in R(Users) : DoCall(u, "G", 0, 0, 0, Arg("vote", x, "", "", 0, 0, FALSE, FALSE))
rUnvote == \E u \in R(Users) : u \in DOMAIN st.votes /\ DoCall(u, "G", 0, 0, 0, Arg("unvote", "", "", "", 0, 0, FALSE, FALSE))
rPay == \E u \in R(Users), v \in R(Users), m \in Of(<<1, 7, 100, 1000>>) : DoCall(u, v, 0, m, 0, NoArg)
rSnap == \E dt \in Of(<<1, 1, 1, 20, 40, 75, 76, 150, 300>>) : Room /\ Snap(1, dt) /\ Log([a |-> "snap", n |-> 1, dt |-> dt])
rDelSnap == /\ snaps # <<>> /\ Room /\ P(WDelSnap)
    /\ \E k \in Of(<<0, 0, 1, 2, 3, 5, 8>>) : \E n \in {IF Len(snaps) > k THEN Len(snaps) - k ELSE 1} :
       DelSnap(n) /\ Log([a |-> "delsnap", n |-> n, h |-> snaps[n].first])
rNext == rRegister \/ rRevoke \/ rVote \/ rVote \/ rUnvote \/ rPay \/ rPay \/ gCRecv \/ gCRecv \/ gCRecv \/ gURecv \/ gURecv \/ rSnap \/ rSnap \/ rSnap \/ rSnap
         \/ rDelSnap \/ gFlush \/ gRestart \/ gDone
rSpec == GenInit /\ [][rNext]_<<vars, hist, top>>
=============================================================================
