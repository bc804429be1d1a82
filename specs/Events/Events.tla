------------------------------ MODULE Events ------------------------------
(* What a subscriber is told.  The ledger is a list of account blocks: a send (0), or a receive of an earlier send.   *)
(* It grows at its end; a roll back removes a set of blocks that is closed under "is needed by".  Every change of the *)
(* ledger becomes one event, which waits in a queue until the event loop turns it into messages.  A subscriber        *)
(* applies the messages it gets; in between any number of changes may happen.                                         *)
(* Anchors: rpcapi/api/filters/{chain_subscribe,event_system,subscribe}.go, ledger/chain/event_manager.go.            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

CONSTANTS MaxOps,      \* changes of the ledger
          Accts,       \* accounts
          Split        \* TRUE: insertions and removals wait in different queues (as the code did once)

VARIABLES led,     \* the ledger: sequence of [id, acct, src] (src = 0: a send to acct `to`)
          next,    \* next block id
          qs,      \* queues of events [del, blocks]
          box,     \* messages delivered to the filter but not read
          have,    \* what the subscriber believes: set of block ids
          road,    \* ... and the sends it believes unreceived
          past,    \* the ledgers so far (sets of ids), one per event not yet read
          ok       \* every message made sense when it was applied

vars == <<led, next, qs, box, have, road, past, ok>>

Ids(l) == {l[i].id : i \in DOMAIN l}
Srcs(l) == {l[i].src : i \in DOMAIN l} \ {0}
Unreceived(l) == {l[i].id : i \in {j \in DOMAIN l : l[j].src = 0}} \ Srcs(l)

Q(del) == IF Split THEN (IF del THEN 2 ELSE 1) ELSE 1
Emit(del, bs) == qs' = [qs EXCEPT ![Q(del)] = Append(@, [del |-> del, blocks |-> bs])]

Init == /\ led = <<>> /\ next = 1 /\ qs = <<<<>>, <<>>>> /\ box = <<>> /\ have = {} /\ road = {} /\ past = <<>> /\ ok = TRUE

Insert(a, src) ==
  /\ next <= MaxOps
  /\ LET b == [id |-> next, acct |-> a, src |-> src] IN
       /\ led' = Append(led, b)
       /\ Emit(FALSE, <<b>>)
       /\ past' = Append(past, Ids(led'))
  /\ next' = next + 1
  /\ UNCHANGED <<box, have, road, ok>>

\* all that needs block b: later blocks of its account, and the receives of its sends
RECURSIVE Needs(_, _)
Needs(l, S) ==
  LET T == S \cup {i \in DOMAIN l : \E j \in S : j < i /\ (l[i].acct = l[j].acct \/ l[i].src = l[j].id)} IN
  IF T = S THEN S ELSE Needs(l, T)

Drop(i) ==
  /\ next <= MaxOps
  /\ LET S == Needs(led, {i})
         Gone(x) == x \in {led[j] : j \in S} IN
       /\ led' = SelectSeq(led, LAMBDA x : ~Gone(x))
       /\ Emit(TRUE, SelectSeq(led, Gone))
       /\ past' = Append(past, Ids(led'))
  /\ next' = next + 1
  /\ UNCHANGED <<box, have, road, ok>>

\* the messages of an event: [kind, id]; kinds: new, gone (blocks), open, closed, void (sends)
Msgs(e) ==
  LET bs == e.blocks
      sends == {bs[i].id : i \in {j \in DOMAIN bs : bs[j].src = 0}}
      recs == {bs[i].src : i \in {j \in DOMAIN bs : bs[j].src # 0}}
      One(k, S) == SetToSeq({[kind |-> k, id |-> x] : x \in S}) IN
  IF ~e.del
  THEN FoldLeft(LAMBDA acc, b : acc \o <<[kind |-> "new", id |-> b.id],
                                        IF b.src = 0 THEN [kind |-> "open", id |-> b.id] ELSE [kind |-> "closed", id |-> b.src]>>, <<>>, bs)
  ELSE One("gone", {bs[i].id : i \in DOMAIN bs})
       \o One("open", recs \ sends)      \* its receive is gone, the send stays
       \o One("void", sends \ recs)      \* the send is gone before it was received

Loop(k) ==
  /\ qs[k] # <<>>
  /\ box' = Append(box, Msgs(Head(qs[k])))
  /\ qs' = [qs EXCEPT ![k] = Tail(@)]
  /\ UNCHANGED <<led, next, have, road, past, ok>>

Sane(h, r, m) == CASE m.kind = "new" -> m.id \notin h
                   [] m.kind = "gone" -> m.id \in h
                   [] m.kind = "open" -> m.id \notin r
                   [] OTHER -> m.id \in r
Read ==
  /\ box # <<>>
  /\ LET f == FoldLeft(LAMBDA acc, m : [h |-> IF m.kind = "new" THEN acc.h \cup {m.id} ELSE IF m.kind = "gone" THEN acc.h \ {m.id} ELSE acc.h,
                                        r |-> IF m.kind = "open" THEN acc.r \cup {m.id} ELSE IF m.kind \in {"closed", "void"} THEN acc.r \ {m.id} ELSE acc.r,
                                        ok |-> acc.ok /\ Sane(acc.h, acc.r, m)],
                       [h |-> have, r |-> road, ok |-> ok], Head(box)) IN
       /\ have' = f.h /\ road' = f.r /\ ok' = (f.ok /\ f.h = Head(past))
  /\ box' = Tail(box)
  /\ past' = Tail(past)
  /\ UNCHANGED <<led, next, qs>>

Next == \/ \E a \in Accts, s \in Unreceived(led) \cup {0} : Insert(a, s)
        \/ \E i \in DOMAIN led : Drop(i)
        \/ \E k \in {1, 2} : Loop(k)
        \/ Read

Spec == Init /\ [][Next]_vars /\ WF_vars(\E k \in {1, 2} : Loop(k)) /\ WF_vars(Read)

\* each message is meaningful when it comes, and after the messages of a change the subscriber has that ledger
InOrder == ok
\* when nothing waits, it has the ledger
UpToDate == (qs = <<<<>>, <<>>>> /\ box = <<>>) => have = Ids(led) /\ road = Unreceived(led)
=============================================================================
