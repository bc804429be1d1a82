------------------------------ MODULE MCLedger ------------------------------
(* Exhaustive exploration with small constants. *)
EXTENDS Ledger
CONSTANT MaxNext, MaxSnaps
mcCreatorOf == [c \in Contracts |-> "d1"]
mcConfOf == [c \in Contracts |-> 0]
mcInitBal == 12
mcFee == 10
Progs == {NoProg, [NoProg EXCEPT !.mode = 1], [NoProg EXCEPT !.rs = <<Round(1, 2, "u1", "VITE", 2, 0)>>],
          [NoProg EXCEPT !.rs = <<Round(1, 2, "c1", "VITE", 1, 0), Round(1, -2, "u1", "VITE", 0, 0)>>]}
MCNext ==
    \/ \E u \in Users, v \in Users : UserSend(u, v, "VITE", 1, NoProg)
    \/ \E u \in Users, c \in Contracts, g \in Progs : UserSend(u, c, "VITE", 1, g)
    \/ \E c \in Contracts, bad \in BOOLEAN : Deploy(c, "VITE", 1, bad)
    \/ \E p \in Pending(chain) : UserRecv(p)
    \/ \E p \in Pending(chain) : ContractRecv(p)
    \/ \E cut \in 0..Len(order), e \in {{}} \cup {{a} : a \in Accts}, r \in {{}, Contracts} :
          Len(snaps) < MaxSnaps /\ Snap(cut, e, r, FALSE)
    \/ \E x \in SetOf(order) : DelAcct(x[1], x[2])
    \/ \E n \in 1..Len(snaps) : DelSnap(n)
    \/ Flush
    \/ Restart
    \/ \E new \in BOOLEAN : CrashFlush(new)
    \/ \E n \in 1..Len(snaps), new \in BOOLEAN : CrashDelSnap(n, new)
MCSpec == Init /\ [][MCNext]_vars
Bound == next <= MaxNext
(* identifiers of snapshots are irrelevant to the properties *)
=============================================================================
