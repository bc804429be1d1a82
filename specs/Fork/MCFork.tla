------------------------------- MODULE MCFork -------------------------------
(* All trees of N snapshot blocks, all orders of arrival; account blocks are left out (each node needs one of its own). *)
EXTENDS Fork
CONSTANTS N, Prods
VARIABLE h0       \* tip at which the node last rested with everything delivered
mcInit == /\ nodes = <<>> /\ seen = {} /\ got = {} /\ cur = 0 /\ led = 0 /\ h0 = 0
Grow(p, d) == /\ Len(nodes) < N
              /\ nodes' = Append(nodes, [par |-> p, h |-> H(p) + 1, prod |-> d, t |-> H(p), new |-> {Len(nodes) + 1}, path |-> Append(Path(p), Len(nodes) + 1)])
              /\ UNCHANGED <<seen, got, cur, led, h0>>
Quiet == seen = Ids /\ got = Ids
Settled == Quiet /\ ~ENABLED (Insert \/ \E n \in Ids : Extend(n) \/ Switch(n))
Rested == Settled /\ h0' = led /\ UNCHANGED fvars
mcNext == \/ \E p \in 0..Len(nodes), d \in Prods : Grow(p, d)
          \/ \E n \in Ids : (n \notin seen /\ Arrive(n) /\ UNCHANGED h0) \/ (n \notin got /\ ArriveAb(n) /\ UNCHANGED h0)
          \/ \E n \in Ids : (Extend(n) \/ Switch(n)) /\ UNCHANGED h0
          \/ Insert /\ UNCHANGED h0
          \/ Rested
mcSpec == mcInit /\ [][mcNext]_<<fvars, h0>>
(* the ledger is always a path of blocks that have arrived, and the node works on a branch through it *)
LedgerOk == Complete(led) /\ On(cur, led)
(* at rest the node is where the rules say *)
RestOk == Settled => led \in Rest(h0, Ids)
(* a block that became irreversible in this ledger stays *)
Final == [][Cnt > 0 => (Point(led) = 0 \/ On(led', Point(led)))]_<<fvars, h0>>
(* the node ends *)
Ends == WF_<<fvars, h0>>(Insert /\ UNCHANGED h0) /\ \A n \in 1..N : WF_<<fvars, h0>>(n \in Ids /\ Extend(n) /\ UNCHANGED h0) /\ WF_<<fvars, h0>>(n \in Ids /\ Switch(n) /\ UNCHANGED h0)
=============================================================================
