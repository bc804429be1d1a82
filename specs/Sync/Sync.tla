-------------------------------- MODULE Sync --------------------------------
(* The cache of downloaded ledger segments.  A segment <<from, to, tag>>     *)
(* covers heights from..to; tag stands for its hashes (segments of different  *)
(* forks may cover the same heights).                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS Top, Tags
VARIABLES item     \* segment -> [st: none, open (being written), done, lost (its file has vanished); ver: verified]
vars == item
Segs == {s \in (1..Top) \X (1..Top) \X Tags : s[1] <= s[2]}
None == [st |-> "none", ver |-> FALSE]
Here == {s \in Segs : item[s].st # "none"}
Done == {s \in Segs : item[s].st \in {"done", "lost"}}
Overlap(s, t) == s[1] <= t[2] /\ t[1] <= s[2]
Init == item = [s \in Segs |-> None]
Set(s, r) == item' = [item EXCEPT ![s] = r]
Free(s) == \A t \in Here : ~Overlap(s, t)
Begin(s) == IF Free(s) THEN Set(s, [st |-> "open", ver |-> FALSE]) ELSE UNCHANGED item
Finish(s) == item[s].st = "open" /\ Set(s, [st |-> "done", ver |-> FALSE])
Delete(s) == item[s].st # "open" /\ Set(s, None)
Readable(s) == item[s].st = "done"
Verify(s) == Readable(s) /\ Set(s, [st |-> "done", ver |-> TRUE])
Lose(s) == item[s].st = "done" /\ Set(s, [item[s] EXCEPT !.st = "lost"])
(* a restart keeps what was finished and is still there *)
Restart == item' = [s \in Segs |-> IF item[s].st = "done" THEN item[s] ELSE None]
Next == (\E s \in Segs : Begin(s) \/ Finish(s) \/ Delete(s) \/ Verify(s) \/ Lose(s)) \/ Restart
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Apart == \A s, t \in Here : s # t => ~Overlap(s, t)
(* verified segments stay verified until they are deleted or lost *)
Sticky == [][\A s \in Segs : item[s].ver /\ item[s].st = "done" /\ item'[s].st # "none" => item'[s].ver]_vars
=============================================================================
