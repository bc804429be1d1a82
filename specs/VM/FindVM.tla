------------------------------- MODULE FindVM -------------------------------
(* The history of the known finding about SAR: zero shifted right by 256.    *)
EXTENDS GenVM
Prog == PushI(0) \o PushI(256) \o <<29>> \o PushI(0) \o <<82>> \o PushI(32) \o PushI(0) \o <<160>> \o PushI(32) \o PushI(0) \o <<243>>
fDeploy == /\ ph = "build" /\ ph' = "ready" /\ n' = n + 1 /\ code' = Prog /\ hist' = <<[a |-> "deploy", code |-> Prog, what |-> "sar"]>>
           /\ UNCHANGED <<sto, bal, m, env, dep, slot, skip>>
fCall == /\ ph = "ready" /\ Len(hist) <= 1 /\ m.out = "idle" /\ Begin("on", <<>>, 0) /\ n' = n + 1 /\ UNCHANGED <<hist, ph, dep, slot, skip>>
fStep == Step /\ n' = n + 1 /\ UNCHANGED <<hist, ph, dep, slot, skip>>
fDone == ph = "ready" /\ Len(hist) > 1 /\ m.out = "idle" /\ ph' = "done" /\ UNCHANGED <<vars, hist, dep, slot, n, skip>>
FindSpec == GenInit /\ [][fDeploy \/ fCall \/ fStep \/ gEnd \/ fDone]_<<vars, gvars>>
=============================================================================
