-------------------------------- MODULE Fork --------------------------------
(***************************************************************************)
(* How a node chooses among forks.  Snapshot blocks form a tree; each      *)
(* confirms account blocks.  Blocks arrive in any order; the node's        *)
(* ledger follows one path of the tree.  A node gives up its branch only   *)
(* for one that is at least Limit longer, never below a block that enough  *)
(* producers have built upon, and it ends at a tip.                        *)
(* Node 0 is the genesis block, node i is nodes[i].                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
CONSTANTS Limit, Cnt, Per      \* Cnt: producers that make a block irreversible (0: none do); Per: seconds of a period
VARIABLES nodes,   \* snapshot blocks: [par, h, prod, t, new (account blocks first confirmed here)]
          seen,    \* nodes that arrived
          got,     \* account blocks that arrived
          cur,     \* tip of the branch the node works on
          led      \* last snapshot block of the ledger
fvars == <<nodes, seen, got, cur, led>>
Ids == 1..Len(nodes)
Par(n) == nodes[n].par
H(n) == IF n = 0 THEN 1 ELSE nodes[n].h
(* paths are stored in the nodes, genesis excluded *)
Path(n) == IF n = 0 THEN <<>> ELSE nodes[n].path
On(n, a) == IF a = 0 THEN TRUE ELSE IF n = 0 \/ Len(Path(a)) > Len(Path(n)) THEN FALSE ELSE Path(n)[Len(Path(a))] = a     \* a is n or an ancestor of n
Common(a, b) == LET p == Path(a)  q == Path(b)
                    C == {i \in DOMAIN p : i \in DOMAIN q /\ p[i] = q[i]} IN IF C = {} THEN 0 ELSE p[Max(C)]
NewOn(n) == UNION {nodes[Path(n)[i]].new : i \in DOMAIN Path(n)}
Complete(n) == IF n = 0 THEN TRUE ELSE (ToSet(Path(n)) \subseteq seen /\ NewOn(n) \subseteq got)
Leaves(S) == IF S = {} THEN {0} ELSE {n \in S : \A m \in S : Par(m) # n}

(* the irreversible block of the chain that ends in n: the first block of the last period within which Cnt producers follow it *)
Index(n) == nodes[n].t \div Per         \* times count from the genesis block
RECURSIVE PointUpTo(_)
PointUpTo(n) ==
    IF n = 0 \/ H(n) <= Cnt THEN 0
    ELSE LET p == Path(n)
             I == {i \in DOMAIN p : Index(p[i]) = Index(n)}
             a == Min(I) IN
         IF Cardinality({nodes[p[i]].prod : i \in I}) >= Cnt THEN p[a] ELSE IF a = 1 THEN 0 ELSE PointUpTo(p[a - 1])
Point(n) == IF Cnt = 0 THEN 0 ELSE PointUpTo(n)
(* the node at n may give it up for b only if both hold the block that is irreversible at n; it does so if they also share a later one *)
MayLeave(n, b) == IF Point(n) = 0 THEN TRUE ELSE On(b, Point(n))
WillLeave(n, b) == IF Point(n) = 0 THEN TRUE ELSE H(Point(n)) < H(Common(n, b))

-----------------------------------------------------------------------------
(* the pool *)
Arrive(n) == seen' = seen \cup {n} /\ UNCHANGED <<nodes, got, cur, led>>
ArriveAb(b) == got' = got \cup {b} /\ UNCHANGED <<nodes, seen, cur, led>>
Extend(n) == n \in seen /\ Par(n) = cur /\ cur' = n /\ UNCHANGED <<nodes, seen, got, led>>
Insert == /\ led # cur
          /\ LET n == Path(cur)[Len(Path(led)) + 1] IN On(cur, led) /\ nodes[n].new \subseteq got /\ led' = n
          /\ UNCHANGED <<nodes, seen, got, cur>>
Switch(b) == /\ b \in Leaves({n \in seen : Complete(n)}) /\ ~On(b, cur) /\ H(b) >= H(cur) + Limit
             /\ IF On(b, led) THEN TRUE ELSE MayLeave(led, b)
             /\ cur' = b /\ led' = Common(led, b) /\ UNCHANGED <<nodes, seen, got>>

(* Where the node may end, when all blocks of S have arrived and it last rested at tip h.  It looks at a longest branch only:
   one that it must not follow hides others. *)
Rest(h, S) == LET L == Leaves(S) IN
    {n \in L : /\ IF On(n, h) THEN TRUE ELSE H(n) >= H(h) + Limit /\ MayLeave(h, n)
               /\ LET T == {m \in L : H(m) >= H(n) + Limit}
                      M == {m \in T : \A k \in T : H(k) <= H(m)} IN
                  T = {} \/ \E m \in M : ~WillLeave(n, m)}
=============================================================================
