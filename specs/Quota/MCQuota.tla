------------------------------ MODULE MCQuota ------------------------------
EXTENDS Quota
CONSTANTS MaxNext, MaxTip
mcQS(u) == CASE u = "u1" -> 2 [] u = "u2" -> 1 [] OTHER -> 0
MCNext == \/ \E u, v \in Users, n \in {0, 1}, p \in {0, 2} : Send(u, v, n, p)
          \/ \E v \in Users : \E s \in Open(v), p \in {0, 2} : Recv(v, s, p)
          \/ \E n \in {1, 2}, cut \in 0..Len(unc) : tip + n <= MaxTip /\ Snap(n, cut)
          \/ \E i \in 1..Len(unc) : DelAcct(i)
          \/ \E h \in 2..tip : DelSnap(h)
          \/ Flush
          \/ Restart
MCSpec == Init /\ [][MCNext]_vars
Bound == next <= MaxNext
=============================================================================
