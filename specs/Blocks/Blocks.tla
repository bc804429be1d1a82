------------------------------- MODULE Blocks -------------------------------
(* The block files: snapshot chunks appended one after the other, rolled     *)
(* back to the end of an earlier one, and flushed in stages (prepare, redo   *)
(* log, commit, clean up) while writing goes on.  A crash at any point must  *)
(* lead back to what the last flush whose redo log was complete meant.       *)
(* Positions are counted in chunks; a chunk is an identifier.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
VARIABLES log,     \* the chunks as readers see them
          disk,    \* the chunks in the files
          next,    \* where the next flush has to start
          prev,    \* where the last flush ended
          fl,      \* the flush under way: [st, start, data]
          cid      \* identifier of the next chunk
vars == <<log, disk, next, prev, fl, cid>>
None == [st |-> "none", start |-> 0, data |-> <<>>, goal |-> <<>>]
Min2(a, b) == IF a < b THEN a ELSE b
Init == log = <<>> /\ disk = <<>> /\ next = 0 /\ prev = 0 /\ fl = None /\ cid = 1
Write == log' = Append(log, cid) /\ cid' = cid + 1 /\ UNCHANGED <<disk, next, prev, fl>>
(* keep the first k chunks *)
Rollback(k) == /\ k < Len(log) /\ log' = SubSeq(log, 1, k) /\ next' = Min2(next, k)
               /\ UNCHANGED <<disk, prev, fl, cid>>
Prepare == /\ fl.st = "none"
           /\ fl' = [st |-> "prepared", start |-> next, data |-> SubSeq(log, next + 1, Len(log)), goal |-> log]
           /\ next' = Len(log) /\ UNCHANGED <<log, disk, prev, cid>>
Cancel == /\ fl.st = "prepared" /\ fl' = None /\ next' = Min2(next, fl.start) /\ UNCHANGED <<log, disk, prev, cid>>
Redo == fl.st = "prepared" /\ fl' = [fl EXCEPT !.st = "redo"] /\ UNCHANGED <<log, disk, next, prev, cid>>
(* d with s written from position p on, and cut if it ended beyond *)
Over(d, p, s) == [i \in 1..(IF Len(d) > p + Len(s) THEN Len(d) ELSE p + Len(s)) |-> IF i > p /\ i <= p + Len(s) THEN s[i - p] ELSE d[i]]
Flushed(d, f, last) == LET o == Over(d, f.start, f.data)  end == f.start + Len(f.data) IN IF last > end THEN SubSeq(o, 1, end) ELSE o
Commit == /\ fl.st = "redo" /\ fl' = [fl EXCEPT !.st = "committed"]
          /\ disk' = Flushed(disk, fl, prev) /\ prev' = fl.start + Len(fl.data)
          /\ UNCHANGED <<log, next, cid>>
After == fl.st = "committed" /\ fl' = None /\ UNCHANGED <<log, disk, next, prev, cid>>
(* after a crash: with a redo log the flush is done again, without one it is forgotten.
   torn: the crash came while the data was being written *)
Crash(torn) ==
    /\ (torn => fl.st = "redo")
    /\ fl' = None /\ UNCHANGED cid
    /\ LET cut == IF torn THEN SubSeq(Over(disk, fl.start, fl.data), 1, fl.start + Len(fl.data)) ELSE disk
           d == IF fl.st \in {"redo", "committed"} THEN SubSeq(Over(cut, fl.start, fl.data), 1, fl.start + Len(fl.data)) ELSE disk
       IN disk' = d /\ log' = d /\ next' = Len(d) /\ prev' = Len(d)
Next == Write \/ (\E k \in 0..Len(log) : Rollback(k)) \/ Prepare \/ Cancel \/ Redo \/ Commit \/ After \/ (\E t \in BOOLEAN : Crash(t))
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
(* the files hold what was there when the flush was prepared *)
DiskIsGoal == fl.st = "committed" => disk = fl.goal
(* nothing before the next start is missing from the files, once a flush is done *)
NoGap == fl.st = "none" => next <= Len(disk) /\ next <= Len(log) /\ SubSeq(disk, 1, next) = SubSeq(log, 1, next)
PrevIsEnd == fl.st = "none" => prev = Len(disk)
Distinct == \A i, j \in 1..Len(log) : i # j => log[i] # log[j]
(* a crash gives back the content of the last flush whose redo log was complete *)
Durable == [][log' # log /\ Len(log') >= 0 /\ cid' = cid /\ fl.st \in {"redo", "committed"} /\ fl' = None => log' = fl.goal]_vars
=============================================================================
