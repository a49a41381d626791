----------------------------- MODULE MCBpeLearn -----------------------------
(* The abstract learner over every small corpus: it never gets stuck, counts *)
(* never grow, merging preserves the text, and left-to-right replacement     *)
(* leaves no occurrence of the merged pair (except when the new piece        *)
(* re-creates none).  Exports the corpora as inputs for the implementation.  *)
EXTENDS BpeLearn, Json
CONSTANTS Alpha, MaxLen, MaxWords, Freqs, Merges, Export
ASSUME Alpha \subseteq 6..20

Seqs == UNION {[1..n -> Alpha] : n \in 1..MaxLen}
WordSeqs == SetToSeq(Seqs)
VARIABLES c, names, spelled, n
vars == <<c, names, spelled, n>>

\* names: spelling of every row over the alphabet; rows are numbered from 0 here: letters are their own row
Spell(r) == IF r \in Alpha THEN <<r>> ELSE names[r - 99]
SpellSeq(s) == Flat([i \in DOMAIN s |-> Spell(s[i])])

Corpora == UNION {{[k \in 1..Len(x) |-> [s |-> WordSeqs[x[k]], f |-> f[k]]] :
                     x \in {y \in [1..m -> DOMAIN WordSeqs] : \A i, j \in 1..m : i < j => y[i] < y[j]},
                     f \in [1..m -> Freqs]} : m \in 1..MaxWords}
Init == /\ c \in Corpora
        /\ names = <<>> /\ n = 0
        /\ spelled = [k \in DOMAIN c |-> c[k].s]
Merge == LET m == PairCounts(c) IN
         /\ n < Merges
         /\ \E p \in DOMAIN m :
              /\ m[p] = Best(m)
              /\ c' = MergeCorpus(c, p[1], p[2], 100 + Len(names))
              /\ names' = Append(names, Spell(p[1]) \o Spell(p[2]))
         /\ n' = n + 1
         /\ UNCHANGED spelled
Stopped == n = Merges \/ AllPairs(c) = {}
Next == Merge
Spec == Init /\ [][Next]_vars

TextPreserved == \A k \in DOMAIN c : SpellSeq(c[k].s) = spelled[k]
NeverStuck == Stopped \/ ENABLED Merge
CountsAgree == LET m == PairCounts(c) IN \A p \in DOMAIN m : m[p] = Weight(c, p[1], p[2]) /\ m[p] > 0
(* replacement leaves no occurrence: a later occurrence would overlap a replaced one *)
NoLeft == \A k \in DOMAIN c : \A x, y \in Alpha \cup {100, 101} :
             LET s == MergeSeq(c[k].s, x, y, 999) IN \A i \in 1..Len(s) - 1 : ~(s[i] = x /\ s[i + 1] = y)
Shrinks == [][\A k \in DOMAIN c : Len(c'[k].s) <= Len(c[k].s)]_vars
BestFalls == [][Best(PairCounts(c')) <= Best(PairCounts(c))]_vars
ExportInit == (Export /\ n = 0) => PrintT("BEHAVIOUR " \o ToJson(c))
=============================================================================
