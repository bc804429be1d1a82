------------------------------- MODULE MCTree -------------------------------
EXTENDS Tree
CONSTANT MaxB
Next == \/ \E p \in Ids : Len(parent) < MaxB /\ Add(p)
        \/ \E b \in Children(Tip) : Insert(b)
        \/ Len(parent) < MaxB /\ InsertNew
        \/ \E b \in Leaves : Switch(b)
        \/ Empty \/ \E n \in 1..Len(disk) : Rollback(n)
MCSpec == Init /\ [][Next]_vars
(* nothing received is ever forgotten, and main always continues the chain on disk *)
Inv == Linked /\ DiskIsPath /\ Reachable
Kept == [][\A b \in Ids : b \in 1..Len(parent') /\ parent'[b] = parent[b]]_vars
=============================================================================
