----------------------------- MODULE MCClasses -----------------------------
(* Learning labels one line at a time, in any order: the resulting table is  *)
(* a function of the multiset of labels only (permutation invariance), and   *)
(* encode/decode through it is a bijection.                                  *)
EXTENDS Classes, Json
CONSTANTS LabelSeq, MaxLines, Export
MCLabels == << <<97>>, <<97, 32, 98>>, <<98>>, <<>>, <<97, 44, 98>>, <<65>> >>
VARIABLES lines, stats
vars == <<lines, stats>>
Init == lines = <<>> /\ stats = << >>
Put(f, x) == [y \in DOMAIN f \cup {x} |-> (IF y \in DOMAIN f THEN f[y] ELSE 0) + (IF y = x THEN 1 ELSE 0)]
AddLine == /\ Len(lines) < MaxLines
        /\ \E i \in DOMAIN LabelSeq : /\ lines' = Append(lines, LabelSeq[i])
                                      /\ stats' = Put(stats, LabelSeq[i])
Next == AddLine
Spec == Init /\ [][Next]_vars
TableOf(s) == LET o == SetToSortSeq(DOMAIN s, SeqLess) IN [i \in DOMAIN o |-> [idx |-> i - 1, name |-> o[i], freq |-> s[o[i]]]]
St == ClassInit([src |-> "lines", lines |-> lines])
Accepted == lines # <<>> => ClassFault(St, [op |-> "table", rows |-> TableOf(stats)]) = ""
OneToOne == \A i, j \in DOMAIN TableOf(stats) : TableOf(stats)[i].name = TableOf(stats)[j].name => i = j
OrderFree == \A p \in Permutations(DOMAIN lines) :
   ClassInit([src |-> "lines", lines |-> [i \in DOMAIN lines |-> lines[p[i]]]]) = St
ExportAll == (Export /\ lines # <<>>) => PrintT("BEHAVIOUR " \o ToJson([lines |-> lines, table |-> TableOf(stats)]))
=============================================================================
