----------------------------- MODULE MCBuiltin -----------------------------
EXTENDS Builtin
CONSTANTS MaxNext, MaxSnaps, Part
mcInit == 4
mcArgsQ == {Arg("stake", "u1", "", "", 0, 0, FALSE, FALSE), Arg("stakeold", "u1", "", "", 0, 0, FALSE, FALSE)}
MCNext ==
    \/ \E u \in Users, g \in mcArgsQ : Part = "Q" /\ Call(u, "Q", 0, 1, 0, g)
    \/ \E u \in Users, i \in {e.id : e \in Range(st.stakes)} \ {0} : Part = "Q" /\ Call(u, "Q", 0, 0, 0, Arg("cancel", "", "", "", i, 0, FALSE, FALSE))
    \/ \E u \in Users : Part = "Q" /\ Call(u, "Q", 0, 0, 0, Arg("cancelold", "u1", "", "", 1, 0, FALSE, FALSE))
    \/ \E u \in Users : Part = "A" /\ Call(u, "A", 0, 0, IssueFee, Arg("issue", "AAA", "", "", 1, 2, TRUE, TRUE))
    \/ \E u \in Users, i \in 1..Len(st.toks) : Part = "A" /\ Call(u, "A", 0, 0, 0, Arg("reissue", u, "", "", st.toks[i].id, 1, FALSE, FALSE))
    \/ \E u \in Users, i \in 1..Len(st.toks) : Part = "A" /\ Call(u, "A", st.toks[i].id, 1, 0, Arg("burn", "", "", "", 0, 0, FALSE, FALSE))
    \/ \E u, v \in Users, i \in 1..Len(st.toks) : u # v /\ Part = "A" /\ Call(u, "A", 0, 0, 0, Arg("transfer", v, "", "", st.toks[i].id, 0, FALSE, FALSE))
    \/ \E u \in Users, x \in Names, d \in Prods : Part = "G" /\ Call(u, "G", 0, RegAmt, 0, Arg("register", x, d, u, 0, 0, FALSE, FALSE))
    \/ \E u \in Users, x \in Names, op \in {"revoke", "reward", "vote"} : Part = "G" /\ Call(u, "G", 0, 0, 0, Arg(op, x, IF op = "reward" THEN u ELSE "", "", 0, 0, FALSE, FALSE))
    \/ \E p \in st.pend : UserRecv(p) \/ (ContractRecv(p) /\ ~LateReward(p))
    \/ \E dt \in {1, 2 * Day} : Len(snaps) < MaxSnaps /\ Snap(1, dt)
    \/ \E n \in 1..Len(snaps) : DelSnap(n)
    \/ Flush
    \/ Restart
MCSpec == Init /\ [][MCNext]_vars
Bound == next <= MaxNext
=============================================================================
