----------------------------- MODULE MCBpeIndex -----------------------------
(* The incremental learner: doubly linked words, an index from pairs to the  *)
(* nodes at which they start (in order of arrival), a max-heap with stale    *)
(* priorities and a table of pending decrements.  Refinement: every merge it *)
(* makes is one that BpeLearn allows, with the exact count, and the linked   *)
(* words are the left-to-right merged corpus.                                *)
EXTENDS BpeLearn
CONSTANTS Alpha, MaxLen, MaxWords, Freqs, Merges

Seqs == UNION {[1..n -> Alpha] : n \in 1..MaxLen}
WordSeqs == SetToSeq(Seqs)
Corpora == UNION {{[k \in 1..Len(x) |-> [s |-> WordSeqs[x[k]], f |-> f[k]]] :
                     x \in {y \in [1..m -> DOMAIN WordSeqs] : \A i, j \in 1..m : i < j => y[i] < y[j]},
                     f \in [1..m -> Freqs]} : m \in 1..MaxWords}

VARIABLES c,        \* abstract corpus
          node,     \* [<<k, i>> -> [val, left, right]]  (position numbers, 0 = none)
          ix,       \* [pair -> sequence of <<k, i>>]
          heap,     \* set of <<pair, priority>>
          dirty,    \* [pair -> negative number]
          uni, next, n, stopped
vars == <<c, node, ix, heap, dirty, uni, next, n, stopped>>

Freq(k) == c[k].f
NodesOf(cc) == UNION {{<<k, i>> : i \in 1..Len(cc[k].s)} : k \in DOMAIN cc}
OccSeq(cc) == Flat([k \in DOMAIN cc |-> [i \in 1..Len(cc[k].s) - 1 |-> <<k, i>>]])

Init == /\ c \in Corpora
        /\ node = [x \in NodesOf(c) |->
                     [val |-> c[x[1]].s[x[2]], left |-> x[2] - 1,
                      right |-> IF x[2] = Len(c[x[1]].s) THEN 0 ELSE x[2] + 1]]
        /\ ix = [p \in AllPairs(c) |-> SelectSeq(OccSeq(c), LAMBDA x : c[x[1]].s[x[2]] = p[1] /\ c[x[1]].s[x[2] + 1] = p[2])]
        /\ heap = {<<p, PairCounts(c)[p]>> : p \in AllPairs(c)}
        /\ dirty = << >>
        /\ uni = [a \in Alpha |-> Sum([k \in DOMAIN c |-> c[k].f * Cardinality({i \in DOMAIN c[k].s : c[k].s[i] = a})])]
        /\ next = 100 /\ n = 0 /\ stopped = FALSE

Get(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

(* heap order: highest priority, then smallest pair *)
PairLess(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
Top == CHOOSE h \in heap : \A g \in heap : g = h \/ g[2] < h[2] \/ (g[2] = h[2] /\ PairLess(h[1], g[1]))

Clean == /\ ~stopped /\ n < Merges /\ heap # {}
         /\ Top[1] \in DOMAIN dirty
         /\ LET v == Top[2] + dirty[Top[1]]
            IN heap' = (heap \ {Top}) \cup (IF v > 0 THEN {<<Top[1], v>>} ELSE {})
         /\ dirty' = Without(dirty, Top[1])
         /\ UNCHANGED <<c, node, ix, uni, next, n, stopped>>

(* one occurrence; z is the state of the loop *)
Visit(z, x, a, b, r) ==
  LET k == x[1]  nd == z.node[x]
      bx == <<k, nd.right>>
  IN IF (nd.left = 0 /\ nd.right = 0)
        \/ (a = b /\ (nd.val = r \/ z.node[bx].val = r))
     THEN [z EXCEPT !.uni = [@ EXCEPT ![a] = @ + Freq(k)], !.skip = @ + Freq(k)]
     ELSE LET y == z.node[bx].right
              n1 == [z.node EXCEPT ![x] = [val |-> r, left |-> nd.left, right |-> y],
                                   ![bx] = [val |-> z.node[bx].val, left |-> 0, right |-> 0]]
              n2 == IF y = 0 THEN n1 ELSE [n1 EXCEPT ![<<k, y>>].left = x[2]]
              xl == <<k, nd.left>>  yr == <<k, y>>
              xv == z.node[xl].val  yv == z.node[yr].val
              ixL == IF nd.left = 0 THEN z.ix
                     ELSE LET old == <<xv, a>>
                              i1 == IF old \in DOMAIN z.ix THEN [z.ix EXCEPT ![old] = SelectSeq(@, LAMBDA q : q # xl)] ELSE z.ix
                          IN Put(i1, <<xv, r>>, Append(Get(i1, <<xv, r>>, <<>>), xl))
              ixR == IF y = 0 THEN ixL
                     ELSE LET old == <<b, yv>>
                              i1 == IF old \in DOMAIN ixL THEN [ixL EXCEPT ![old] = SelectSeq(@, LAMBDA q : q # bx)] ELSE ixL
                          IN Put(i1, <<r, yv>>, Append(Get(i1, <<r, yv>>, <<>>), x))
              dL == IF nd.left = 0 THEN z.delta
                    ELSE LET d1 == Put(z.delta, <<xv, a>>, Get(z.delta, <<xv, a>>, 0) - Freq(k))
                         IN Put(d1, <<xv, r>>, Get(d1, <<xv, r>>, 0) + Freq(k))
              dR == IF y = 0 THEN dL
                    ELSE LET d1 == Put(dL, <<b, yv>>, Get(dL, <<b, yv>>, 0) - Freq(k))
                         IN Put(d1, <<r, yv>>, Get(d1, <<r, yv>>, 0) + Freq(k))
          IN [z EXCEPT !.node = n2, !.ix = ixR, !.delta = dR]

Merge == /\ ~stopped /\ n < Merges /\ heap # {}
         /\ Top[1] \notin DOMAIN dirty
         /\ LET a == Top[1][1]  b == Top[1][2]  f == Top[2]  r == next
                z0 == [node |-> node, ix |-> Without(ix, <<a, b>>), delta |-> << >>, skip |-> 0,
                       uni |-> [Put(uni, r, 0) EXCEPT ![a] = @ - f]]
                z1 == FoldLeft(LAMBDA z, x : Visit(z, x, a, b, r), [z0 EXCEPT !.uni = [@ EXCEPT ![b] = @ - f]], ix[<<a, b>>])
            IN /\ Assert(f = Best(PairCounts(c)), <<"not the best", c, Top>>)
               /\ Assert(f = Weight(c, a, b), <<"wrong count", c, Top>>)
               /\ c' = MergeCorpus(c, a, b, r)
               /\ node' = z1.node /\ ix' = z1.ix
               /\ uni' = [z1.uni EXCEPT ![b] = @ + z1.skip, ![r] = f - z1.skip]
               /\ heap' = (heap \ {Top}) \cup {<<p, z1.delta[p]>> : p \in {q \in DOMAIN z1.delta : z1.delta[q] > 0}}
               /\ dirty' = [p \in DOMAIN dirty \cup {q \in DOMAIN z1.delta : z1.delta[q] < 0} |->
                              Get(dirty, p, 0) + (IF Get(z1.delta, p, 0) < 0 THEN z1.delta[p] ELSE 0)]
         /\ next' = next + 1 /\ n' = n + 1
         /\ UNCHANGED stopped
Stop == /\ ~stopped /\ (n = Merges \/ heap = {})
        /\ Assert(n = Merges \/ AllPairs(c) = {}, <<"stopped early", c>>)
        /\ stopped' = TRUE /\ UNCHANGED <<c, node, ix, heap, dirty, uni, next, n>>
Next == Clean \/ Merge \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RECURSIVE Chain(_, _)
Chain(k, i) == IF i = 0 THEN <<>> ELSE <<node[<<k, i>>].val>> \o Chain(k, node[<<k, i>>].right)
ListsAreCorpus == \A k \in DOMAIN c : Chain(k, 1) = c[k].s
UniExact == \A a \in DOMAIN uni :
   uni[a] = Sum([k \in DOMAIN c |-> c[k].f * Cardinality({i \in DOMAIN c[k].s : c[k].s[i] = a})])
(* every pair of the corpus is in the heap, and its priority minus pending decrements is its count *)
HeapExact == LET m == PairCounts(c) IN
   /\ \A p \in DOMAIN m : \E h \in heap : h[1] = p /\ h[2] + Get(dirty, p, 0) = m[p]
   /\ \A h \in heap : h[2] + Get(dirty, h[1], 0) >= 0
(* indexed nodes of a pair of the corpus are its occurrences, stale ones aside *)
Terminates == <>stopped
=============================================================================
