------------------------------- MODULE GenFork -------------------------------
(***************************************************************************)
(* Behaviours of Fork, printed as JSON for replay.  First a tree of        *)
(* snapshot blocks with their account blocks is built (depth first: the    *)
(* builder moves back along its own path), then parts of it are handed to  *)
(* the node in any order, some of it not at all (the node must ask), some  *)
(* twice, some as sync chunks, until the node has come to rest.            *)
(***************************************************************************)
EXTENDS Fork, Json
CONSTANTS Depth, N, NAcc, NProd, B0, WChunk
VARIABLES blks,    \* account blocks: [acct, h, prev, k ("send"/"recv"), to, amt, from]
          chains,  \* draft of the builder: account -> ids of its blocks
          base,    \* node the builder is at
          rev,     \* revealed nodes
          todo,    \* items still to be handed over
          rest,    \* tips at which the node may rest now
          hist
gvars == <<fvars, blks, chains, base, rev, todo, rest, hist>>
Rnd(S) == RandomElement({x \in S : Len(hist) >= 0})
R(S) == {Rnd(S)}
P(n) == Rnd(1..100) <= n
Accts == 1..NAcc
NoChains == [a \in Accts |-> <<>>]
ChainsOf(n) == IF n = 0 THEN NoChains ELSE nodes[n].chains
TimeOf(n) == IF n = 0 THEN 0 ELSE nodes[n].t
Blocks(cs) == UNION {ToSet(cs[a]) : a \in Accts}
Fresh == Blocks(chains) \ Blocks(ChainsOf(base))          \* unconfirmed in the draft
Bal(cs, a) == FoldFunction(+, B0, [b \in Blocks(cs) |-> IF blks[b].acct # a THEN 0 ELSE IF blks[b].k = "send" THEN -blks[b].amt ELSE blks[blks[b].from].amt])
Pending(cs, a) == {b \in Blocks(cs) : blks[b].k = "send" /\ blks[b].to = a /\ \A c \in Blocks(cs) : blks[c].k = "recv" => blks[c].from # b}
Room == Len(hist) < Depth
Building == Len(nodes) < N
Log(r) == hist' = Append(hist, r)
Prev(a) == IF chains[a] = <<>> THEN 0 ELSE chains[a][Len(chains[a])]
(* the same block made on two branches is one block *)
Put(b) == LET same == {i \in DOMAIN blks : blks[i] = b}
              id == IF same = {} THEN Len(blks) + 1 ELSE CHOOSE i \in same : TRUE IN
          /\ blks' = IF same = {} THEN Append(blks, b) ELSE blks
          /\ chains' = [chains EXCEPT ![b.acct] = Append(@, id)]
          /\ Log([a |-> b.k, id |-> id, acct |-> b.acct, to |-> b.to, amt |-> b.amt, from |-> b.from])
gSend == /\ Room /\ Building /\ Cardinality(Fresh) < 4
         /\ \E a \in R(Accts), b \in R(Accts), m \in R({1, 2, 3}) :
               /\ Bal(chains, a) >= m
               /\ Put([acct |-> a, h |-> Len(chains[a]) + 1, prev |-> Prev(a), k |-> "send", to |-> b, amt |-> m, from |-> 0])
         /\ UNCHANGED <<fvars, base, rev, todo, rest>>
gRecv == /\ Room /\ Building /\ Cardinality(Fresh) < 4
         /\ LET S == {a \in Accts : Pending(chains, a) # {}} IN S # {} /\ \E a \in R(S) : \E f \in R(Pending(chains, a)) :
               Put([acct |-> a, h |-> Len(chains[a]) + 1, prev |-> Prev(a), k |-> "recv", to |-> 0, amt |-> 0, from |-> f])
         /\ UNCHANGED <<fvars, base, rev, todo, rest>>
gSnap == /\ Room /\ Building
         /\ \E p \in R(1..NProd) :
            LET id == Len(nodes) + 1
                t == TimeOf(base) + 1 + Cardinality({n \in Ids : Par(n) = base}) IN
            /\ nodes' = Append(nodes, [par |-> base, h |-> H(base) + 1, prod |-> p, t |-> t, new |-> Fresh, path |-> Append(Path(base), id), chains |-> chains])
            /\ base' = id
            /\ Log([a |-> "snap", id |-> id, prod |-> p, t |-> t, par |-> base, h |-> H(base) + 1, new |-> SetToSortSeq(Fresh, <)])
         /\ UNCHANGED <<seen, got, cur, led, blks, chains, rev, todo, rest>>
gBack == /\ Room /\ Building /\ Fresh = {} /\ base # 0 /\ P(IF H(base) >= Max({H(n) : n \in Ids}) /\ H(base) > 3 THEN 70 ELSE 8)
         /\ \E n \in R(({0} \cup ToSet(Path(base))) \ {base}) :
               base' = n /\ chains' = ChainsOf(n) /\ Log([a |-> "back", id |-> n, h |-> H(n)])
         /\ UNCHANGED <<fvars, blks, rev, todo, rest>>

-----------------------------------------------------------------------------
Handing == ~Building
Items(S) == {<<"s", n>> : n \in S} \cup {<<"a", b>> : b \in UNION {nodes[n].new : n \in S}}
(* often a branch that the node has to turn to, or a low one *)
Pick(way) == LET hi == Max({H(h) : h \in rest})
                 far == {n \in Ids \ rev : H(n) >= hi + Limit /\ \A h \in rest : ~On(n, h)}
                 low == {n \in Ids \ rev : H(n) <= hi + 2} IN
             IF way /\ rest # {0} /\ far # {} THEN Rnd(far) ELSE IF way /\ low # {} THEN Rnd(low) ELSE Rnd(Ids \ rev)
gReveal == /\ Room /\ Handing /\ rev # Ids /\ (IF todo = {} THEN TRUE ELSE P(25))
           /\ \E x \in {Pick(P(60))} :
                LET S == ToSet(Path(x)) \ rev IN
                /\ rev' = rev \cup S
                /\ todo' = todo \cup Items(S)
                /\ Log([a |-> "reveal", ids |-> S])
           /\ UNCHANGED <<fvars, blks, chains, base, rest>>
Wait == Rnd({0, 0, 0, 0, 0, 0, 20, 100, 400, 2500})
Must(i) == i[1] = "s" /\ i[2] \in Leaves(rev)
gHand == /\ Room /\ Handing /\ todo # {}
         /\ \E i \in R(todo) :
              /\ todo' = todo \ {i}
              /\ Log([a |-> IF ~Must(i) /\ P(15) THEN "skip" ELSE "hand", k |-> i[1], id |-> i[2], w |-> Wait])
         /\ UNCHANGED <<fvars, blks, chains, base, rev, rest>>
gAgain == /\ Room /\ Handing /\ todo # {} /\ P(10)
          /\ LET D == Items(rev) \ todo IN D # {} /\ \E i \in R(D) : Log([a |-> "hand", k |-> i[1], id |-> i[2], w |-> Wait])
          /\ UNCHANGED <<fvars, blks, chains, base, rev, todo, rest>>
(* a chunk starts at a height the node has surely reached *)
gChunk == /\ Room /\ Handing /\ todo # {} /\ P(WChunk)
          /\ \E x \in R(rev) :
               LET low == Min({H(h) : h \in rest})
                   I == {i \in DOMAIN Path(x) : H(Par(Path(x)[i])) <= low} IN
               /\ I # {}
               /\ \E i \in R(I) : \E j \in R(i..Len(Path(x))) :
                    LET S == SubSeq(Path(x), i, j) IN
                    /\ Log([a |-> "chunk", ids |-> S, w |-> Wait])
                    /\ todo' = todo \ Items(ToSet(S))
          /\ UNCHANGED <<fvars, blks, chains, base, rev, rest>>
Alts == {[h |-> h, tips |-> Rest(h, rev)] : h \in rest}
Obs(n) == [n |-> n, bal |-> [a \in Accts |-> Bal(ChainsOf(n), a)], len |-> [a \in Accts |-> Len(ChainsOf(n)[a])], irr |-> Point(n)]
gSettle == /\ Room /\ Handing /\ todo = {} /\ rev # {} /\ hist[Len(hist)].a # "settle"
           /\ LET T == UNION {x.tips : x \in Alts} IN
              /\ rest' = T
              /\ Log([a |-> "settle", alts |-> Alts, obs |-> {Obs(n) : n \in T}])
           /\ UNCHANGED <<fvars, blks, chains, base, rev, todo>>
Done == Handing /\ rev = Ids /\ todo = {} /\ hist[Len(hist)].a = "settle"
gInit == /\ nodes = <<>> /\ seen = {} /\ got = {} /\ cur = 0 /\ led = 0 /\ blks = <<>> /\ chains = NoChains /\ base = 0
         /\ rev = {} /\ todo = {} /\ rest = {0} /\ hist = <<[a |-> "cfg", accts |-> NAcc, prods |-> NProd, b0 |-> B0, cnt |-> Cnt, per |-> Per]>>
gEnd == Done /\ Log([a |-> "end"]) /\ UNCHANGED <<fvars, blks, chains, base, rev, todo, rest>>
gGo == \/ gSend \/ gSend \/ gRecv \/ gSnap \/ gSnap \/ gBack
         \/ gReveal \/ gHand \/ gHand \/ gHand \/ gAgain \/ gChunk \/ gSettle
(* an end state has no successor: the behaviour stops there *)
gNext == hist[Len(hist)].a # "end" /\ IF Done THEN gEnd ELSE gGo
gSpec == gInit /\ [][gNext]_gvars
Emit == (hist # <<>> /\ hist[Len(hist)].a = "end") => PrintT("TRACE " \o ToJson(hist))
GenOk == Alts # {} /\ \A x \in Alts : x.tips # {} \/ rev = {}
=============================================================================
