---------------------------- MODULE MCMapReduce ----------------------------
(* Rounds of pairing over a stream whose items are combined by workers in    *)
(* any order.  An odd item is paired with the identity.  The rounds end with *)
(* one item, which is the concatenation of all, in order; empty input is an  *)
(* error.                                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS MaxN, Export
VARIABLES n, level, pairs, results, phase
vars == <<n, level, pairs, results, phase>>
Init == /\ n \in 0..MaxN
        /\ level = [i \in 1..n |-> <<i>>]
        /\ pairs = <<>> /\ results = << >> /\ phase = "round"
PairUp == /\ phase = "round"
          /\ IF Len(level) = 0 THEN phase' = "error" /\ UNCHANGED <<level, pairs, results>>
             ELSE IF Len(level) = 1 THEN phase' = "done" /\ UNCHANGED <<level, pairs, results>>
             ELSE /\ pairs' = [k \in 1..(Len(level) + 1) \div 2 |->
                                 <<level[2 * k - 1], IF 2 * k <= Len(level) THEN level[2 * k] ELSE <<>> >>]
                  /\ results' = << >> /\ phase' = "work" /\ UNCHANGED level
          /\ UNCHANGED n
Work == /\ phase = "work"
        /\ \E k \in DOMAIN pairs \ DOMAIN results :
             results' = [j \in DOMAIN results \cup {k} |-> IF j = k THEN pairs[k][1] \o pairs[k][2] ELSE results[j]]
        /\ UNCHANGED <<n, level, pairs, phase>>
Collect == /\ phase = "work" /\ DOMAIN results = DOMAIN pairs
           /\ level' = [k \in DOMAIN pairs |-> results[k]]
           /\ phase' = "round" /\ UNCHANGED <<n, pairs, results>>
Next == PairUp \/ Work \/ Collect
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
All == [i \in 1..n |-> i]
Kept == FoldLeft(LAMBDA a, x : a \o x, <<>>, level) = All
Result == phase = "done" => level[1] = All
EmptyIsError == (phase = "error") <=> (n = 0 /\ phase # "round")
Ends == <>(phase \in {"done", "error"})
ExportDone == (Export /\ phase \in {"done", "error"}) => PrintT("BEHAVIOUR " \o ToJson([n |-> n, phase |-> phase]))
=============================================================================
