-------------------------------- MODULE Tree --------------------------------
(* The pool's tree of blocks that wait for insertion. What counts is the set of blocks that were received, the chain  *)
(* on disk, and the branch that is to be inserted next (main); how branches refer to each other is the                *)
(* implementation's business, and re-rooting them must never change which blocks a branch leads through.              *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt
CONSTANT Disk0
VARIABLES parent, path, disk, head
vars == <<parent, path, disk, head>>
Ids == 1..Len(parent)
Tip == disk[Len(disk)]
Path(b) == path[b]  \* from the first block to b
Height(b) == Len(path[b])
OnDisk(b) == Len(path[b]) <= Len(disk) /\ disk[Len(path[b])] = b
Waiting == {b \in Ids : ~OnDisk(b)}
Children(b) == {c \in Ids : parent[c] = b}
Leaves == {b \in Waiting : Children(b) = {}}
Through(b, a) == Len(path[a]) <= Len(path[b]) /\ path[b][Len(path[a])] = a
Common(a, b) == LET p == Path(a)  q == Path(b)  C == {i \in 1..Len(p) : i <= Len(q) /\ p[i] = q[i]} IN p[CHOOSE i \in C : \A j \in C : j <= i]

Init == parent = [i \in 1..Disk0 |-> i - 1] /\ path = [i \in 1..Disk0 |-> [j \in 1..i |-> j]] /\ disk = [i \in 1..Disk0 |-> i] /\ head = Disk0
(* a block arrives; it extends main when it comes right after it *)
Received(p) == parent' = Append(parent, p) /\ path' = Append(path, Append(path[p], Len(parent) + 1))
Add(p) == /\ Received(p)
          /\ head' = IF p = head THEN Len(parent) + 1 ELSE head
          /\ UNCHANGED disk
(* the block after the tip goes to disk: main's next, another branch's, or one nobody has seen *)
Insert(b) == /\ parent[b] = Tip /\ disk' = Append(disk, b)
             /\ head' = IF Through(head, b) THEN head ELSE b
             /\ UNCHANGED <<parent, path>>
InsertNew == /\ Received(Tip) /\ disk' = Append(disk, Len(parent) + 1) /\ head' = Len(parent) + 1
Switch(b) == Through(b, Tip) /\ head' = b /\ UNCHANGED <<parent, path, disk>>
Empty == head' = Tip /\ UNCHANGED <<parent, path, disk>>
Rollback(n) == n < Len(disk) /\ disk' = SubSeq(disk, 1, Len(disk) - n) /\ UNCHANGED <<parent, path, head>>
Prune == UNCHANGED vars

Linked == Through(head, Tip)
DiskIsPath == disk = Path(Tip)
Reachable == \A b \in Waiting : \E l \in Leaves : Through(l, b)
=============================================================================
