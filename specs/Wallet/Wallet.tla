------------------------------- MODULE Wallet -------------------------------
(* The wallet: encrypted files that hold the entropy of a seed, the stores   *)
(* the manager knows, which of them are unlocked, and who is told.           *)
(* A store is <<seed, place>>: its file lies in the wallet's directory       *)
(* ("in") or elsewhere ("out"); several files may hold the same seed.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
CONSTANTS Seeds, Passes, Max0          \* Max0: how many addresses of a seed are searched
VARIABLES file,    \* store -> [st, pass]; st: none, ok, bad (does not decrypt), junk (not such a file)
          man,     \* stores the manager knows
          open,    \* stores that are unlocked
          lis,     \* listeners
          ev       \* events of the last step
vars == <<file, man, open, lis, ev>>
Stores == Seeds \X {"in", "out"}
Gone == [st |-> "none", pass |-> 0]
Init == file = [s \in Stores |-> Gone] /\ man = {} /\ open = {} /\ lis = {} /\ ev = {}
Exists(s) == file[s].st # "none"
Looks(s) == file[s].st \in {"ok", "bad"}      \* looks like a file of the wallet
(* what comes of reading store s with passphrase p *)
Try(s, p) == IF s \notin man THEN "unknown" ELSE IF ~Exists(s) THEN "err" ELSE IF file[s].st = "junk" THEN "err"
             ELSE IF file[s].st = "bad" \/ file[s].pass # p THEN "decrypt" ELSE "ok"
Told(s, up) == {[s |-> s, up |-> up]}
Keep == UNCHANGED <<file, man, open, lis>>

(* a new store, or one recovered from its words: the file is written anew, the store is known and locked *)
Recover(q, p) == LET s == <<q, "in">> IN
    /\ file' = [file EXCEPT ![s] = [st |-> "ok", pass |-> p]] /\ man' = man \cup {s} /\ open' = open \ {s} /\ ev' = {} /\ UNCHANGED lis
(* things that happen to the files behind the wallet's back *)
Drop(s, p) == ~Exists(s) /\ file' = [file EXCEPT ![s] = [st |-> "ok", pass |-> p]] /\ ev' = {} /\ UNCHANGED <<man, open, lis>>
Damage(s, how) == Exists(s) /\ file' = [file EXCEPT ![s].st = IF how = "junk" \/ @ = "junk" THEN "junk" ELSE "bad"] /\ ev' = {} /\ UNCHANGED <<man, open, lis>>
Erase(s) == Exists(s) /\ file' = [file EXCEPT ![s] = Gone] /\ ev' = {} /\ UNCHANGED <<man, open, lis>>

AddRes(s) == IF Looks(s) THEN "ok" ELSE "err"
Add(s) == man' = (IF Looks(s) THEN man \cup {s} ELSE man) /\ ev' = {} /\ UNCHANGED <<file, open, lis>>
Forget(s) == /\ man' = man \ {s} /\ open' = open \ {s} /\ ev' = (IF s \in man THEN Told(s, FALSE) ELSE {}) /\ UNCHANGED <<file, lis>>
(* a wrong passphrase changes nothing, also when the store is open *)
Unlock(s, p) == IF Try(s, p) = "ok" THEN open' = open \cup {s} /\ ev' = Told(s, TRUE) /\ UNCHANGED <<file, man, lis>>
                ELSE ev' = {} /\ Keep
Lock(s) == open' = open \ {s} /\ ev' = (IF s \in man THEN Told(s, FALSE) ELSE {}) /\ UNCHANGED <<file, man, lis>>
Refresh == LET g == {s \in man : ~Exists(s)} IN
    man' = man \ g /\ open' = open \ g /\ ev' = {[s |-> s, up |-> FALSE] : s \in g} /\ UNCHANGED <<file, lis>>
(* the wallet stops and starts again: it knows what is in its directory, all locked; told: those who listened hear of every store *)
Restart == /\ man' = {s \in Stores : s[2] = "in" /\ Looks(s)} /\ open' = {} /\ lis' = {} /\ UNCHANGED file
           /\ ev' = {[s |-> s, up |-> FALSE] : s \in man}
Listen(i) == i \notin lis /\ lis' = lis \cup {i} /\ ev' = {} /\ UNCHANGED <<file, man, open>>
Hush(i) == i \in lis /\ lis' = lis \ {i} /\ ev' = {} /\ UNCHANGED <<file, man, open>>

-----------------------------------------------------------------------------
(* readings *)
Has(q, i) == {s \in open : s[1] = q /\ i < Max0}                               \* stores in which address i of seed q is found
FindRes(s, p, q, i) == IF Try(s, p) # "ok" THEN Try(s, p) ELSE IF s[1] = q /\ i < Max0 THEN "ok" ELSE "noaddr"
FindAny(p, q, i) == {s \in man : FindRes(s, p, q, i) = "ok"}                   \* by passphrase, locked or not
Derive(s) == IF s \notin man THEN "unknown" ELSE IF s \in open THEN "ok" ELSE "locked"
Read == ev' = {} /\ Keep

-----------------------------------------------------------------------------
Known == open \subseteq man
Told1 == \A e \in ev : e.up <=> e.s \in open
(* keys come out only by the passphrase of the file *)
ByPass == [][\A s \in open' \ open : file[s].st = "ok" /\ s \in man /\ ev' = Told(s, TRUE)]_vars
(* whoever listens hears of every store that is closed, except one that is written anew *)
Heard == [][\A s \in open \ open' : ([s |-> s, up |-> FALSE] \in ev') \/ (s \in man' /\ s[2] = "in" /\ file'[s].st = "ok")]_vars
=============================================================================
