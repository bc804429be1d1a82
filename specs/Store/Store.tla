-------------------------------- MODULE Store -------------------------------
(* The key-value store under the chain: writes of account blocks that are    *)
(* not confirmed, confirmed writes, the flush in stages, roll backs, crashes. *)
(* A batch is a sequence of <<key, value>>; value 0 deletes the key.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS Accts, KeysOf, Global      \* keys owned by each account; keys written by snapshots
VARIABLES view,     \* what readers see
          disk,     \* what is in the database
          snap,     \* batches that are confirmed, not flushed
          unconf,   \* account blocks that are not confirmed: [id, acct, b, undo]
          fl,       \* flush under way: [st, b]
          past,     \* states at earlier snapshots
          tick
vars == <<view, disk, snap, unconf, fl, past, tick>>
Keys == UNION {KeysOf[a] : a \in Accts} \cup Global
Apply(m, b) == FoldLeft(LAMBDA x, w : [x EXCEPT ![w[1]] = w[2]], m, b)
Flat(bs) == FlattenSeq(bs)
Nothing == [k \in Keys |-> 0]
NoFlush == [st |-> "none", b |-> <<>>]
(* the batch that leads from state m to state g *)
Restore(m, g) == LET ks == SetToSeq({k \in Keys : m[k] # g[k]}) IN [i \in DOMAIN ks |-> <<ks[i], g[ks[i]]>>]
Init == view = Nothing /\ disk = Nothing /\ snap = <<>> /\ unconf = <<>> /\ fl = NoFlush /\ past = <<>> /\ tick = 1
(* an account block *)
Block(a, b) ==
    /\ unconf' = Append(unconf, [id |-> tick, acct |-> a, b |-> b, undo |-> Restore(Apply(view, b), view)])
    /\ view' = Apply(view, b) /\ tick' = tick + 1 /\ UNCHANGED <<disk, snap, fl, past>>
(* a snapshot confirms the first n[a] blocks of each account *)
Conf(n) == SelectSeq([i \in DOMAIN unconf |-> [u |-> unconf[i], i |-> i]],
                     LAMBDA x : Cardinality({j \in 1..x.i : unconf[j].acct = x.u.acct}) <= n[x.u.acct])
Snapshot(n, b) ==
    LET c == Conf(n)  ids == {c[i].i : i \in DOMAIN c} IN
    /\ snap' = snap \o [i \in DOMAIN c |-> c[i].u.b] \o <<b>>
    /\ unconf' = [i \in 1..Cardinality(DOMAIN unconf \ ids) |-> unconf[SetToSortSeq(DOMAIN unconf \ ids, <)[i]]]
    /\ view' = Apply(view, b) /\ tick' = tick + 1
    /\ past' = Append(past, Apply(Apply(disk, fl.b), Flat(snap')))
    /\ UNCHANGED <<disk, fl>>
(* the last block of account a is rolled back *)
LastOf(a) == LET s == {i \in DOMAIN unconf : unconf[i].acct = a} IN IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : j <= i
RollAcct(a) == LET i == LastOf(a) IN
    /\ i > 0 /\ view' = Apply(view, unconf[i].undo) /\ unconf' = [j \in 1..Len(unconf) - 1 |-> unconf[IF j < i THEN j ELSE j + 1]]
    /\ tick' = tick + 1 /\ UNCHANGED <<disk, snap, fl, past>>
(* back to an earlier snapshot *)
RollSnap(i) == LET b == Restore(view, past[i]) IN
    /\ view' = past[i] /\ snap' = snap \o [j \in DOMAIN unconf |-> unconf[j].b] \o <<b>>
    /\ unconf' = <<>> /\ past' = SubSeq(past, 1, i) /\ tick' = tick + 1 /\ UNCHANGED <<disk, fl>>
Direct(b) == view' = Apply(view, b) /\ snap' = Append(snap, b) /\ tick' = tick + 1 /\ UNCHANGED <<disk, unconf, fl, past>>
Prepare == fl.st = "none" /\ fl' = [st |-> "prepared", b |-> Flat(snap)] /\ snap' = <<>> /\ tick' = tick + 1 /\ UNCHANGED <<view, disk, unconf, past>>
Cancel == fl.st = "prepared" /\ fl' = NoFlush /\ snap' = <<fl.b>> \o snap /\ tick' = tick + 1 /\ UNCHANGED <<view, disk, unconf, past>>
Redo == fl.st = "prepared" /\ fl' = [fl EXCEPT !.st = "redo"] /\ tick' = tick + 1 /\ UNCHANGED <<view, disk, snap, unconf, past>>
Commit == fl.st = "redo" /\ fl' = [fl EXCEPT !.st = "committed"] /\ disk' = Apply(disk, fl.b) /\ tick' = tick + 1 /\ UNCHANGED <<view, snap, unconf, past>>
After == fl.st = "committed" /\ fl' = NoFlush /\ view' = Apply(Apply(disk, Flat(snap)), Flat([i \in DOMAIN unconf |-> unconf[i].b]))
         /\ tick' = tick + 1 /\ UNCHANGED <<disk, snap, unconf, past>>
(* a crash keeps what was committed, or had its redo log written *)
Crash == LET d == IF fl.st \in {"redo", "committed"} THEN Apply(disk, fl.b) ELSE disk IN
    /\ disk' = d /\ view' = d /\ snap' = <<>> /\ unconf' = <<>> /\ fl' = NoFlush /\ past' = <<>> /\ tick' = tick + 1
----------------------------------------------------------------------------
(* readers see every write, flushed or not, in the order of writing *)
ViewIsAll == view = Apply(Apply(Apply(disk, IF fl.st = "committed" THEN <<>> ELSE fl.b), Flat(snap)), Flat([i \in DOMAIN unconf |-> unconf[i].b]))
TypeOK == view \in [Keys -> Int] /\ disk \in [Keys -> Int] /\ fl.st \in {"none", "prepared", "redo", "committed"}
=============================================================================
