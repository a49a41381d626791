------------------------------- MODULE MCTrim -------------------------------
(* The trimming pipeline as steps: coverage, then minimum frequency, then    *)
(* size, each moving types from the kept to the cut side.  Refinement: the   *)
(* result is one that Trimmed accepts; accounting is invariant.  Every final *)
(* state is exported: data, limits, and the frequencies that are kept.       *)
EXTENDS Vocab, Json
CONSTANTS MaxTypes, MaxFreq, Covs, MinFreqs, Sizes, Export

MCCovs == {<<0, 1>>, <<1, 2>>, <<3, 4>>, <<7, 10>>, <<9, 10>>, <<1, 1>>}
MCSizes == {-1, 0, 1, 6, 7, 8, 9, 20}

VARIABLES fs, cov, minf, size, kept, cut, phase
vars == <<fs, cov, minf, size, kept, cut, phase>>
Desc(n) == {f \in [1..n -> 1..MaxFreq] : \A i \in 1..n - 1 : f[i] >= f[i + 1]}

Init == /\ fs \in UNION {Desc(n) : n \in 1..MaxTypes}
        /\ cov \in Covs /\ minf \in MinFreqs /\ size \in Sizes
        /\ kept = fs /\ cut = 0 /\ phase = "coverage"

DropLast == /\ kept' = SubSeq(kept, 1, Len(kept) - 1)
            /\ cut' = cut + kept[Len(kept)]
Coverage == /\ phase = "coverage"
            /\ IF cov[1] > 0 /\ Len(kept) > 1 /\ Sum(SubSeq(kept, 1, Len(kept) - 1)) * cov[2] >= Sum(fs) * cov[1]
               THEN DropLast /\ UNCHANGED phase
               ELSE phase' = "minfreq" /\ UNCHANGED <<kept, cut>>
            /\ UNCHANGED <<fs, cov, minf, size>>
MinFreq ==  /\ phase = "minfreq"
            /\ IF kept # <<>> /\ kept[Len(kept)] < minf
               THEN DropLast /\ UNCHANGED phase
               ELSE phase' = "size" /\ UNCHANGED <<kept, cut>>
            /\ UNCHANGED <<fs, cov, minf, size>>
Size ==     /\ phase = "size"
            /\ IF size > 0 /\ kept # <<>> /\ Len(kept) + 6 > size
               THEN DropLast /\ UNCHANGED phase
               ELSE phase' = "done" /\ UNCHANGED <<kept, cut>>
            /\ UNCHANGED <<fs, cov, minf, size>>
Next == Coverage \/ MinFreq \/ Size
Spec == Init /\ [][Next]_vars

Accounted == Sum(kept) + cut = Sum(fs)
SizeBound == (phase = "done" /\ size > 0) => Len(kept) + 6 <= Max2(size, 6)
Case == [scheme |-> "word", src |-> "tfs", cov |-> [num |-> cov[1], den |-> cov[2]], minfreq |-> minf, size |-> size,
         tfs |-> [i \in DOMAIN fs |-> [w |-> <<96 + i>>, f |-> fs[i]]]]
Table == [i \in 1..6 |-> [name |-> Reserved[i], freq |-> IF i = 2 /\ cut > 0 THEN cut ELSE -1]]
         \o [i \in DOMAIN kept |-> [name |-> <<96 + i>>, freq |-> kept[i]]]
Refines == phase = "done" => Trimmed(Case, Table) = ""
ExportDone == (Export /\ phase = "done") =>
   PrintT("BEHAVIOUR " \o ToJson([fs |-> fs, cov |-> cov, minf |-> minf, size |-> size, kept |-> kept, cut |-> cut]))
=============================================================================
