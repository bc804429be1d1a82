---------------------------- MODULE MCConsensus -----------------------------
EXTENDS Consensus
CONSTANTS MaxLen, MaxPer
S1 == [gid |-> 1, n |-> 3, per |-> 1, rep |-> 1, iv |-> 100, rc |-> 1, rr |-> 5]
C1 == [gid |-> 2, n |-> 2, per |-> 1, rep |-> 2, iv |-> 50, rc |-> 1, rr |-> 4]
W1 == [reg |-> <<<<11>>, <<21>>, <<31>>, <<41>>, <<51>>>>, act |-> 1..5, vote |-> <<1, 2, 3, 4, 4>>, bal |-> <<3, 2, 2, 0, 1>>]
W2 == [reg |-> <<<<11>>, <<21, 22>>, <<31>>, <<41>>, <<51>>>>, act |-> {2, 3}, vote |-> <<1, 2, 3, 4, 4>>, bal |-> <<3, 2, 2, 0, 1>>]
MCInit == Init /\ worlds = <<W1, W2>>
P0 == Period(SG, Tip.t)
Blk == \E p \in P0..(P0 + 2) : p <= MaxPer /\ LET pl == Plan(SG, p, MemS(p)) IN
    \E k \in 1..Len(pl), w \in 1..2 : pl[k][2] > Tip.t /\ Len(chain) < MaxLen /\ (w >= Tip.w)
        /\ Produce(<<[t |-> pl[k][2], who |-> pl[k][1], w |-> w, seed |-> IF k = 1 THEN 7 ELSE 0]>>)
Roll == \E n \in 1..(Len(chain) - 1) : Rollback(n)
MCNext == Blk \/ Roll
MCSpec == MCInit /\ [][MCNext]_vars
Inv == Elections /\ Counted
=============================================================================
