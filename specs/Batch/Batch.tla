------------------------------- MODULE Batch --------------------------------
(* The pool collects blocks in a batch and inserts the batch: level after level, the accounts of a level side by side. *)
(* A batch takes a block only when everything it refers to is in the ledger or already in the batch, and whatever      *)
(* order the insertion takes, no block starts before all it depends on are in.                                         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS Owners, S, MaxLevel   \* S: the owner of snapshot blocks
VARIABLES items,   \* blocks that exist: [o: owner, prev: the owner's block before, refs: blocks referred to]
          chain,   \* blocks in the ledger
          batch,   \* blocks in the batch, in the order they were offered
          lvl,     \* level of each
          cur, last, closed
vars == <<items, chain, batch, lvl, cur, last, closed>>
Ids == 1..Len(items)
In == ToSet(batch)
Deps(i) == items[i].refs \cup (IF items[i].prev = 0 THEN {} ELSE {items[i].prev})
IsS(i) == items[i].o = S
Pos(i) == CHOOSE k \in 1..Len(batch) : batch[k] = i
(* what has to be in before j starts: its references, and everything on the other side of a snapshot block *)
Before(i, j) == i # j /\ (i \in Deps(j) \/ ((IsS(i) \/ IsS(j)) /\ Pos(i) < Pos(j)) \/ (items[i].o = items[j].o /\ Pos(i) < Pos(j)))
Known(i) == Deps(i) \subseteq chain \cup In
Mx(a, b) == IF a > b THEN a ELSE b

(* levels, as the implementation assigns them: an account block goes one above the blocks of others it refers to and    *)
(* level with its own; never below the last snapshot block; a snapshot block goes above everything                      *)
OpenRefs(i) == {r \in Deps(i) \cap In : lvl[r] \notin closed}
Need(i) == LET N == {IF items[r].o = items[i].o THEN lvl[r] ELSE lvl[r] + 1 : r \in OpenRefs(i)} IN
    IF N = {} THEN last + 1 ELSE CHOOSE m \in N : \A x \in N : x <= m
LevelA(i) == LET m == Need(i) IN
    IF m > cur THEN m ELSE IF cur \in {lvl[j] : j \in {k \in In : IsS(k)}} THEN cur + 1 ELSE m
LevelS(i) == IF cur < 0 THEN 0 ELSE IF cur \in {lvl[j] : j \in {k \in In : IsS(k)}} THEN cur ELSE cur + 1
Level(i) == IF IsS(i) THEN LevelS(i) ELSE LevelA(i)

Init == /\ items = <<[o |-> S, prev |-> 0, refs |-> {}]>> /\ chain = {1} /\ batch = <<>> /\ lvl = <<0>>
        /\ cur = -1 /\ last = -1 /\ closed = {}
Make(o, prev, refs) == /\ items' = Append(items, [o |-> o, prev |-> prev, refs |-> refs]) /\ lvl' = Append(lvl, 0)
                       /\ UNCHANGED <<chain, batch, cur, last, closed>>
Put(i) == LET l == Level(i) IN
    /\ batch' = Append(batch, i) /\ lvl' = [lvl EXCEPT ![i] = l] /\ cur' = Mx(cur, l)
    /\ last' = IF IsS(i) THEN l ELSE last
    /\ closed' = IF IsS(i) THEN closed \cup (last + 1)..(l - 1) ELSE closed
    /\ UNCHANGED <<items, chain>>
Free(i) == i \notin chain /\ i \notin In
Offer(i) == Free(i) /\ Known(i) /\ Level(i) < MaxLevel /\ Put(i)
Refuse(i) == Free(i) /\ ~Known(i) /\ UNCHANGED vars
Run == /\ batch # <<>> /\ chain' = chain \cup In /\ batch' = <<>> /\ cur' = -1 /\ last' = -1 /\ closed' = {} /\ lvl' = [i \in Ids |-> 0]
       /\ UNCHANGED items

(* going through the levels one by one, each bucket in its own order, keeps every dependency *)
LevelsKeepOrder == \A i, j \in In : Before(i, j) => lvl[i] < lvl[j] \/ (lvl[i] = lvl[j] /\ items[i].o = items[j].o /\ Pos(i) < Pos(j))
ChainClosed == \A i \in chain : Deps(i) \subseteq chain
(* within a level an owner has one bucket, whose blocks follow each other *)
Buckets == \A i, j \in In : (items[i].o = items[j].o /\ lvl[i] = lvl[j] /\ Pos(i) < Pos(j) /\ ~\E k \in In : items[k].o = items[i].o /\ lvl[k] = lvl[i] /\ Pos(i) < Pos(k) /\ Pos(k) < Pos(j))
              => items[j].prev = i
=============================================================================
