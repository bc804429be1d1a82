------------------------------- MODULE Rounds -------------------------------
(* The node keeps, for the last Keep rounds, the votes and balances as of   *)
(* the last snapshot of the round (ledger/chain/state/round_cache.go).  The  *)
(* state here is one value that every snapshot may change; the value stands  *)
(* for any vote or balance.  What the cache gives for a snapshot must be     *)
(* what the ledger has as of that snapshot.                                  *)
EXTENDS Integers, Sequences
CONSTANTS Keep, MaxH, Steps
VARIABLES sn,    \* snapshots above genesis: [r |-> round, w |-> the value it sets, 0: none]
          data,  \* the cache: [r, last, cur, logs]; last = -1: the round is not complete
          lri, bad
vars == <<sn, data, lri, bad>>
RoundOf(h) == IF h = 0 THEN 0 ELSE sn[h].r
RECURSIVE Apply(_, _)
Apply(v, l) == IF l = <<>> THEN v ELSE Apply(IF Head(l).w = 0 THEN v ELSE Head(l).w, Tail(l))
AsOf(s, h) == Apply(0, [i \in 1..h |-> s[i]])
Top == Len(sn)
Item(r, last, cur, nil, logs) == [r |-> r, last |-> last, cur |-> cur, nil |-> nil, logs |-> logs]
Init == sn = <<>> /\ data = <<>> /\ lri = 0 /\ bad = FALSE

Cut(d) == IF Len(d) > Keep THEN SubSeq(d, 2, Len(d)) ELSE d
Insert(step, w) ==
    LET r == RoundOf(Top) + step  h == Top + 1  n == Len(data)
        log == [h |-> h, w |-> w]
        new == Item(r, -1, 0, FALSE, <<log>>) IN
    /\ Top < MaxH
    /\ sn' = Append(sn, [r |-> r, w |-> w])
    /\ IF r = lri THEN
           /\ data' = IF n = 0 THEN data ELSE [data EXCEPT ![n].logs = Append(@, log)]
           /\ UNCHANGED <<lri, bad>>
       ELSE IF n = 0 THEN
           /\ data' = Cut(<<Item(lri, Top, AsOf(sn, Top), TRUE, <<>>), new>>) /\ lri' = r /\ UNCHANGED bad
       ELSE IF n = 1 \/ data[n].logs = <<>> \/ data[n - 1].last = -1 THEN bad' = TRUE /\ UNCHANGED <<data, lri>>
       ELSE /\ data' = Cut(Append([data EXCEPT ![n].last = Top, ![n].cur = Apply(data[n - 1].cur, data[n].logs)], new))
            /\ lri' = r /\ UNCHANGED bad

(* delete the snapshots from height h on *)
Delete(h) ==
    LET r == sn[h].r
        Keeps(x) == IF x.r = r THEN SelectSeq(x.logs, LAMBDA l : l.h < h) ELSE x.logs
        Gone(x) == x.r > r \/ (x.r = r /\ Keeps(x) = <<>>)
        Ends == {i \in 1..Len(data) : Gone(data[i])}
        end == IF Ends = {} THEN Len(data) ELSE (CHOOSE i \in Ends : \A j \in Ends : i <= j) - 1
        to == IF end <= 1 THEN 0 ELSE end
        d == [i \in 1..to |-> [data[i] EXCEPT !.logs = Keeps(data[i])]] IN
    /\ h \in 1..Top
    /\ sn' = SubSeq(sn, 1, h - 1)
    /\ data' = IF to = 0 THEN <<>> ELSE [d EXCEPT ![to].last = -1, ![to].cur = 0]
    /\ lri' = IF h = 1 THEN 0 ELSE sn[h - 1].r
    /\ UNCHANGED bad

(* the node starts anew, with the snapshots s on disk, and reads the rounds *)
(* from there: the first in full, the others by the logs of their snapshots *)
Of(s, r) == {h \in 1..Len(s) : s[h].r = r}
LastOf(s, r) == CHOOSE h \in Of(s, r) : \A k \in Of(s, r) : k <= h
LogsOf(s, r) == SelectSeq([h \in 1..Len(s) |-> [h |-> h, w |-> s[h].w]], LAMBDA l : s[l.h].r = r)
RECURSIVE Build(_, _, _, _, _)
Build(s, r, end, cur, acc) ==
    IF r > end THEN acc
    ELSE IF Of(s, r) = {} THEN Build(s, r + 1, end, cur, acc)
    ELSE LET v == Apply(cur, LogsOf(s, r)) IN
         Build(s, r + 1, end, v, Append(acc, IF r < end THEN Item(r, LastOf(s, r), v, FALSE, LogsOf(s, r)) ELSE Item(r, -1, 0, FALSE, LogsOf(s, r))))
Read(s) ==
    LET end == IF s = <<>> THEN 0 ELSE s[Len(s)].r
        start == end - Keep + 1 IN
    IF end <= Keep \/ Of(s, start) = {} THEN <<>>
    ELSE Build(s, start + 1, end, AsOf(s, LastOf(s, start)), <<Item(start, LastOf(s, start), AsOf(s, LastOf(s, start)), FALSE, LogsOf(s, start))>>)
Restart(h) ==
    /\ h \in 0..Top
    /\ LET s == SubSeq(sn, 1, h) IN sn' = s /\ lri' = (IF h = 0 THEN 0 ELSE sn[h].r) /\ data' = Read(s)
    /\ UNCHANGED bad
Next == \/ \E d \in Steps, w \in BOOLEAN : Insert(d, IF w THEN Top + 1 ELSE 0)
        \/ \E h \in 1..Top : Delete(h)
        \/ \E h \in 0..Top : Restart(h)
Spec == Init /\ [][Next]_vars

(* what a query gets: the first item not complete ends the search *)
Hit(i) == /\ i \in 1..Len(data) /\ \A j \in 1..i : data[j].last # -1
RightInv == \A i \in 1..Len(data) : Hit(i) => data[i].last <= Top /\ data[i].cur = AsOf(sn, data[i].last)
(* no insertion is refused, and complete rounds stay within reach *)
NoErrInv == ~bad /\ Len(data) # 1 /\ Len(data) <= Keep
            /\ \A i \in 1..Len(data) : (data[i].last = -1) <=> (i = Len(data))
RoundInv == RightInv /\ NoErrInv
=============================================================================
