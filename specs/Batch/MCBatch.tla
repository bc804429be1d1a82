------------------------------ MODULE MCBatch -------------------------------
EXTENDS Batch
CONSTANT MaxI
LastOf(o) == LET M == {i \in Ids : items[i].o = o} IN IF M = {} THEN 0 ELSE CHOOSE i \in M : \A j \in M : j <= i
Others(o) == {i \in Ids : items[i].o # o /\ ~IsS(i)}
Next == \/ \E o \in Owners : \E r \in {{}} \cup {{x} : x \in Others(o)} : Len(items) < MaxI /\ Make(o, LastOf(o), r)
        \/ \E r \in SUBSET {LastOf(o) : o \in Owners} : Len(items) < MaxI /\ 0 \notin r /\ Make(S, LastOf(S), r)
        \/ \E i \in Ids : Offer(i)
        \/ Run
MCSpec == Init /\ [][Next]_vars
Inv == LevelsKeepOrder /\ ChainClosed /\ Buckets
=============================================================================
