----------------------------- MODULE MCTracker -----------------------------
(* The tracker's own bookkeeping: doubly linked sequences, an index from     *)
(* pairs to the nodes at which they start, in order of arrival, and unigram  *)
(* counts corrected node by node.  Refinement: after every merge, counts,    *)
(* lengths and index are those of the corpus merged left to right.           *)
EXTENDS Tracker, Json
CONSTANTS Alpha, MaxLen, MaxSeqs, NMerges, Export, Sloppy
VARIABLES c0, c, node, ix, uni, lens, merges, todo, cur
vars == <<c0, c, node, ix, uni, lens, merges, todo, cur>>
Mark == 0
Seqs == {s \o <<Mark>> : s \in UNION {[1..n -> Alpha] : n \in 0..MaxLen}}
NodesOf(cc) == UNION {{<<k, i>> : i \in 1..Len(cc[k].s)} : k \in DOMAIN cc}
Occ(cc) == Flat([k \in DOMAIN cc |-> [i \in 1..Len(cc[k].s) - 1 |-> <<k, i>>]])
NewSym == 100 + Len(merges)
Get(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Del(s, x) == SelectSeq(s, LAMBDA y : y # x)
AddLast(s, x) == IF \E i \in DOMAIN s : s[i] = x THEN s ELSE Append(s, x)   \* ordered set
Init == /\ \E n \in 1..MaxSeqs : \E x \in [1..n -> Seqs] : c0 = [k \in 1..n |-> [s |-> x[k], f |-> 1]]
        /\ c = c0
        /\ node = [x \in NodesOf(c0) |-> [val |-> c0[x[1]].s[x[2]], left |-> x[2] - 1, right |-> IF x[2] = Len(c0[x[1]].s) THEN 0 ELSE x[2] + 1]]
        /\ ix = [p \in AllPairs(c0) |-> SelectSeq(Occ(c0), LAMBDA x : c0[x[1]].s[x[2]] = p[1] /\ c0[x[1]].s[x[2] + 1] = p[2])]
        /\ uni = [a \in Alpha \cup {Mark} |-> Sum([k \in DOMAIN c0 |-> Cardinality({i \in DOMAIN c0[k].s : c0[k].s[i] = a})])]
        /\ lens = [k \in DOMAIN c0 |-> Len(c0[k].s)]
        /\ merges = <<>> /\ todo = <<>> /\ cur = <<>>
Start == /\ cur = <<>> /\ Len(merges) < NMerges
         /\ \E a, b \in DOMAIN uni :
              /\ cur' = [a |-> a, b |-> b, r |-> NewSym]
              /\ todo' = Get(ix, <<a, b>>, <<>>)
              /\ ix' = [p \in DOMAIN ix \ {<<a, b>>} |-> ix[p]]
              /\ LET f == Len(Get(ix, <<a, b>>, <<>>))
                     u1 == Put(uni, NewSym, f)
                     u2 == Put(u1, a, u1[a] - f)
                 IN uni' = Put(u2, b, u2[b] - f)
              /\ merges' = Append(merges, [a |-> a, b |-> b])
              /\ c' = MergeCorpus(c, a, b, NewSym)
         /\ UNCHANGED <<c0, node, lens>>
Visit == /\ cur # <<>> /\ todo # <<>>
         /\ LET x == Head(todo)  k == x[1]  nd == node[x]  bx == <<k, nd.right>>
                a == cur.a  b == cur.b  r == cur.r
                skip == (nd.left = 0 /\ nd.right = 0) \/ (a = b /\ (nd.val = r \/ node[bx].val = r))
            IN IF skip
               THEN /\ LET u1 == Put(uni, r, uni[r] - 1)
                           u2 == Put(u1, a, u1[a] + 1)
                       IN uni' = IF Sloppy THEN u2 ELSE Put(u2, b, u2[b] + 1)
                    /\ UNCHANGED <<node, ix, lens>>
               ELSE LET y  == node[bx].right
                        lx == <<k, nd.left>>  yx == <<k, y>>
                        n1 == Put(Put(node, x, [val |-> r, left |-> nd.left, right |-> y]), bx, [node[bx] EXCEPT !.left = 0, !.right = 0])
                        n2 == IF y = 0 THEN n1 ELSE Put(n1, yx, [n1[yx] EXCEPT !.left = x[2]])
                        i1 == IF nd.left = 0 THEN ix
                              ELSE LET q == <<n2[lx].val, a>>
                                       j1 == IF q \in DOMAIN ix THEN Put(ix, q, Del(ix[q], lx)) ELSE ix
                                       q2 == <<n2[lx].val, r>>
                                   IN Put(j1, q2, AddLast(Get(j1, q2, <<>>), lx))
                        i2 == IF y = 0 THEN i1
                              ELSE LET q == <<b, n2[yx].val>>
                                       j1 == IF q \in DOMAIN i1 THEN Put(i1, q, Del(i1[q], bx)) ELSE i1
                                       q2 == <<r, n2[yx].val>>
                                   IN Put(j1, q2, AddLast(Get(j1, q2, <<>>), x))
                    IN node' = n2 /\ ix' = i2 /\ uni' = uni /\ lens' = [lens EXCEPT ![k] = @ - 1]
         /\ todo' = Tail(todo) /\ UNCHANGED <<c0, c, merges, cur>>
Stop == /\ cur # <<>> /\ todo = <<>> /\ cur' = <<>>
        /\ UNCHANGED <<c0, c, node, ix, uni, lens, merges, todo>>
Next == Start \/ Visit \/ Stop
Spec == Init /\ [][Next]_vars
Quiet == cur = <<>>
Count(a) == Sum([k \in DOMAIN c |-> Cardinality({i \in DOMAIN c[k].s : c[k].s[i] = a})])
UniExact == Quiet => \A a \in DOMAIN uni : uni[a] = Count(a)
LensExact == Quiet => lens = Lens(c)
RECURSIVE Walk(_, _)
Walk(k, i) == IF i = 0 THEN <<>> ELSE <<node[<<k, i>>].val>> \o Walk(k, node[<<k, i>>].right)
Linked == Quiet => \A k \in DOMAIN c : Walk(k, 1) = c[k].s
IxExact == Quiet => \A p \in DOMAIN ix \cup AllPairs(c) : Len(Get(ix, p, <<>>)) = Get(PairCounts(c), p, 0)
ExportDone == (Export /\ Quiet /\ Len(merges) = NMerges) =>
  PrintT("BEHAVIOUR " \o ToJson([seqs |-> [k \in DOMAIN c0 |-> c0[k].s], merges |-> merges, lens |-> lens,
                                 uni |-> [s \in 1..3 |-> uni[s - 1]], new |-> [m \in 1..NMerges |-> uni[99 + m]]]))
=============================================================================
