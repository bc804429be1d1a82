------------------------------- MODULE MCStore ------------------------------
EXTENDS Store
CONSTANT MaxTick
KO == [a \in Accts |-> IF a = "x" THEN {1} ELSE {2}]
Vals == {0, tick}
Batches(ks) == {<<<<k, v>>>> : k \in ks, v \in Vals}
Next == \/ \E a \in Accts : \E b \in Batches(KeysOf[a]) : Block(a, b)
        \/ \E n \in [Accts -> 0..2] : \E b \in Batches(Global) : Snapshot(n, b)
        \/ \E a \in Accts : RollAcct(a)
        \/ \E i \in DOMAIN past : RollSnap(i)
        \/ \E b \in Batches(Global) : Direct(b)
        \/ Prepare \/ Cancel \/ Redo \/ Commit \/ After \/ Crash
Spec == Init /\ [][Next]_vars
Bound == tick <= MaxTick
(* while a flush goes on or ends, readers see no change *)
Quiet == [][(fl.st # fl'.st) => (view' = view \/ (view' = disk' /\ unconf' = <<>> /\ snap' = <<>>))]_vars
=============================================================================
