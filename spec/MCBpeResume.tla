---------------------------- MODULE MCBpeResume ----------------------------
(* Learning in installments: between two calls the heap and the table of     *)
(* pending decrements are lost; the linked words, the index of the pairs and *)
(* the unigram counts survive.  The next call has to rebuild the heap from   *)
(* the index.  Rebuilding it from the pair counts of the original corpus     *)
(* (Stale) is the known mistake.                                             *)
EXTENDS MCBpeIndex, Json
CONSTANTS Pauses, Stale, Export
VARIABLES c0,        \* the corpus as given
          sched      \* numbers of merges after which learning paused
rvars == <<vars, c0, sched>>

ResumeInit == Init /\ c0 = c /\ sched = <<>>
FromIndex == {<<p, Sum([j \in DOMAIN ix[p] |-> Freq(ix[p][j][1])])>> : p \in {q \in DOMAIN ix : ix[q] # <<>>}}
Pause == /\ ~stopped /\ Len(sched) < Pauses /\ n > 0 /\ n < Merges
         /\ heap' = IF Stale THEN {<<p, PairCounts(c0)[p]>> : p \in AllPairs(c0)} ELSE FromIndex
         /\ dirty' = << >> /\ sched' = Append(sched, n)
         /\ UNCHANGED <<c, node, ix, uni, next, n, stopped, c0>>
(* the merges of the refuted design end where its heap is wrong *)
Sound == LET m == PairCounts(c) IN \A p \in DOMAIN m : \E h \in heap : h[1] = p /\ h[2] + Get(dirty, p, 0) = m[p]
Step == (~Stale \/ Sound) /\ (Clean \/ Merge \/ Stop) /\ UNCHANGED <<c0, sched>>
ResumeNext == Step \/ Pause
ResumeSpec == ResumeInit /\ [][ResumeNext]_rvars /\ WF_rvars(Step)

(* the index holds occurrences only, and their weights add up to the count   *)
IxExact == /\ \A p \in DOMAIN ix : \A j \in DOMAIN ix[p] :
                LET x == ix[p][j]  nd == node[x]
                IN nd.right # 0 /\ <<nd.val, node[<<x[1], nd.right>>].val>> = p
           /\ \A p \in AllPairs(c) :
                p \in DOMAIN ix /\ Sum([j \in DOMAIN ix[p] |-> Freq(ix[p][j][1])]) = Weight(c, p[1], p[2])
(* uni: no count of a symbol is ever negative *)
UniSane == \A a \in DOMAIN uni : uni[a] >= 0
ExportDone == (Export /\ stopped) => PrintT("BEHAVIOUR " \o ToJson([c |-> c0, sched |-> sched, n |-> n, end |-> [k \in DOMAIN c |-> c[k].s]]))
=============================================================================
