------------------------------ MODULE MCShrink ------------------------------
(* Leaves (one letter each), then pieces composed of two earlier rows with   *)
(* names of their own; counts of their use.  One pass from the last row to   *)
(* the first marks what kept pieces are made of.  A row that is composed     *)
(* refers only to earlier rows, so one pass is enough; and the segmentation  *)
(* of the data over the kept pieces is the old one.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Leaves, MaxComp, MaxCount, MaxMin, Export
VARIABLES kids, count, minf, remove, pos, phase
vars == <<kids, count, minf, remove, pos, phase>>
N == Len(kids)
RECURSIVE Name(_, _)
Name(ks, i) == IF ks[i] = <<>> THEN <<i>> ELSE Name(ks, ks[i][1]) \o Name(ks, ks[i][2])
Distinct(ks) == \A i, j \in DOMAIN ks : i # j => Name(ks, i) # Name(ks, j)
Base == [i \in 1..Leaves |-> <<>>]
RECURSIVE Tables(_)
Tables(n) == IF n = 0 THEN {Base}
             ELSE LET prev == Tables(n - 1)
                  IN {t \in UNION {{Append(p, <<a, b>>) : a \in DOMAIN p, b \in DOMAIN p} : p \in prev} : Distinct(t)}
Init == /\ kids \in UNION {Tables(n) : n \in 0..MaxComp}
        /\ count \in [1..Len(kids) -> 0..MaxCount] /\ minf \in 0..MaxMin
        /\ remove = [i \in 1..Len(kids) |-> count[i] < minf] /\ pos = Len(kids) /\ phase = "run"
Pass == /\ phase = "run" /\ pos > 0
        /\ remove' = IF ~ remove[pos] /\ kids[pos] # <<>>
                     THEN [remove EXCEPT ![kids[pos][1]] = FALSE, ![kids[pos][2]] = FALSE] ELSE remove
        /\ pos' = pos - 1 /\ UNCHANGED <<kids, count, minf, phase>>
Done == phase = "run" /\ pos = 0 /\ phase' = "done" /\ UNCHANGED <<kids, count, minf, remove, pos>>
Next == Pass \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
KidsOf(i) == {kids[i][k] : k \in DOMAIN kids[i]}
RECURSIVE Closure(_)
Closure(S) == LET T == S \cup UNION {KidsOf(i) : i \in S} IN IF T = S THEN S ELSE Closure(T)
KeptSet == {i \in 1..N : ~ remove[i]}
Right == phase = "done" => KeptSet = Closure({i \in 1..N : count[i] >= minf})
(* a word that is the name of a kept piece is still that piece               *)
StartsLonger(i, S) == \E j \in S : Len(Name(kids, j)) > Len(Name(kids, i)) /\ SubSeq(Name(kids, j), 1, Len(Name(kids, i))) = Name(kids, i)
SameWhole == phase = "done" => \A i \in 1..N : (minf <= 1 /\ count[i] >= 1) => i \in KeptSet
Ends == <>(phase = "done")
ExportDone == (Export /\ phase = "done") =>
   PrintT("BEHAVIOUR " \o ToJson([names |-> [i \in 1..N |-> Name(kids, i)], kids |-> kids, count |-> count, minf |-> minf,
                                  keep |-> [i \in 1..N |-> ~ remove[i]]]))
=============================================================================
