----------------------------- MODULE MCTermFreq -----------------------------
(* The lines of several files are dealt to partitions in any way; equal      *)
(* lines may be dropped first (each partition drops, then they exchange);    *)
(* partitions count on their own, and partial counts are merged in any order.*)
(* A line tag is counted with the words: the number of lines.                *)
EXTENDS TermFreq, Json
CONSTANTS Letters, MaxFiles, MaxLines, MaxWords, NParts, Export, TagIsWord
VARIABLES files, dedup, part, partial, acc, phase
vars == <<files, dedup, part, partial, acc, phase>>
Tag == IF TagIsWord THEN <<97>> ELSE <<32>>
WordSet == {<<a>> : a \in Letters} \cup {<<a, b>> : a \in Letters, b \in Letters}
LineSet == {<<>>} \cup {w : w \in WordSet} \cup (IF MaxWords > 1 THEN {w \o <<32>> \o v : w \in WordSet, v \in {<<a>> : a \in Letters}} ELSE {})
Files == UNION {[1..n -> UNION {[1..k -> LineSet] : k \in 0..MaxLines}] : n \in 1..MaxFiles}
All == Flat(files)
Init == /\ files \in Files /\ dedup \in BOOLEAN
        /\ part = << >> /\ partial = << >> /\ acc = << >> /\ phase = "deal"
(* after dropping repeats any one of the equal lines survives                 *)
Survivors == IF dedup THEN {CHOOSE i \in DOMAIN All : All[i] = x : x \in {All[i] : i \in DOMAIN All}} ELSE DOMAIN All
Deal == /\ phase = "deal" /\ part' \in [Survivors -> 1..NParts] /\ phase' = "count"
        /\ UNCHANGED <<files, dedup, partial, acc>>
TokensOf(i) == <<Tag>> \o Words(All[i])
PartTokens(p) == Flat([k \in 1..Len(All) |-> IF k \in DOMAIN part /\ part[k] = p THEN TokensOf(k) ELSE <<>>])
Count == /\ phase = "count"
         /\ \E p \in 1..NParts \ DOMAIN partial :
              partial' = [q \in DOMAIN partial \cup {p} |-> IF q = p THEN PartTokens(p) ELSE partial[q]]
         /\ phase' = IF Cardinality(DOMAIN partial') = NParts THEN "merge" ELSE phase
         /\ UNCHANGED <<files, dedup, part, acc>>
Plus(m, ts) == [t \in DOMAIN m \cup {ts[i] : i \in DOMAIN ts} |-> (IF t \in DOMAIN m THEN m[t] ELSE 0) + CountIn(ts, t)]
Merge == /\ phase = "merge"
         /\ \E p \in DOMAIN partial :
              /\ acc' = Plus(acc, partial[p])
              /\ partial' = [q \in DOMAIN partial \ {p} |-> partial[q]]
         /\ phase' = IF DOMAIN partial' = {} THEN "done" ELSE phase
         /\ UNCHANGED <<files, dedup, part>>
Next == Deal \/ Count \/ Merge
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ls == LinesOf(files, dedup)
WordsOut == [t \in DOMAIN acc \ {Tag} |-> acc[t]]
NOut == IF Tag \in DOMAIN acc THEN acc[Tag] ELSE 0
Rows == LET T == SetToSeq(DOMAIN WordsOut) IN [k \in DOMAIN T |-> [t |-> T[k], f |-> WordsOut[T[k]]]]
(* characters are counted from the words and their counts                     *)
CharRows == LET ch == SetToSeq({<<x>> : x \in UNION {{t[i] : i \in DOMAIN t} : t \in DOMAIN WordsOut}})
            IN [k \in DOMAIN ch |-> [t |-> ch[k], f |-> Sum([j \in DOMAIN Rows |-> Rows[j].f * CountIn(Rows[j].t, ch[k][1])])]]
Exact == phase = "done" => StatsFault([lines |-> Ls], [words |-> Rows, chars |-> CharRows, n |-> NOut]) = ""
Ends == <>(phase = "done")
ExportDone == (Export /\ phase = "done") =>
  PrintT("BEHAVIOUR " \o ToJson([files |-> files, dedup |-> dedup, words |-> Rows, chars |-> CharRows, n |-> NOut]))
=============================================================================
