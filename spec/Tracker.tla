------------------------------ MODULE Tracker ------------------------------
(* Replaying merges over a corpus: after every merge the counts, lengths and *)
(* statistics are those of the corpus merged left to right so far.           *)
EXTENDS BpeLearn, Segment

(* header: names of the initial table, lines, merges [a, b]                   *)
TokenSeq(names, line) == LET s == Segment(names, line) IN [i \in DOMAIN s |-> RowOf(names, s[i])]
TrackInit(case) == [c |-> [k \in DOMAIN case.lines |-> [s |-> TokenSeq(case.init, case.lines[k]), f |-> 1]],
                    k |-> Len(case.init), merges |-> case.merges, done |-> 0]

CountsOfIds(c, k) == [i \in 1..k |-> Sum([x \in DOMAIN c |-> Cardinality({j \in DOMAIN c[x].s : c[x].s[j] = i - 1})])]
Lens(c) == [x \in DOMAIN c |-> Len(c[x].s)]
Abs(x) == IF x < 0 THEN -x ELSE x
(* imbalance = distance to the uniform distribution, times 2 k total          *)
Imbalance(u, k) == LET t == Sum(u) IN Sum([i \in 1..k |-> Abs(k * u[i] - t)])

StepTo(st, n) ==        \* the first n merges done
  FoldLeft(LAMBDA z, i : [z EXCEPT !.c = MergeCorpus(z.c, st.merges[i].a, st.merges[i].b, z.k), !.k = @ + 1, !.done = @ + 1],
           st, [j \in 1..n - st.done |-> st.done + j])

TrackFault(st, e) ==
  CASE e.op = "report" ->         \* k, total * 1, imbalance * 2 k total
         LET u == CountsOfIds(st.c, st.k) IN
         CASE e.k # st.k -> "reported vocabulary size"
           [] e.total # Sum(Lens(st.c)) -> "reported mean length is that of the corpus"
           [] e.imb # Imbalance(u, st.k) -> "reported imbalance follows from the counts"
           [] OTHER -> ""
    [] e.op = "state" ->
         LET z == StepTo(st, e.done) IN
         CASE e.uni # CountsOfIds(z.c, Len(e.uni)) -> "unigram counts are those of the merged corpus"
           [] e.lens # Lens(z.c) -> "sequence lengths are those of the merged corpus"
           [] OTHER -> ""
    [] e.op = "end" -> IF st.done # Len(st.merges) \/ e.left # 0 THEN "every merge of the model is replayed" ELSE ""
    [] OTHER -> "unknown event"
(* a report is followed by the next merge                                     *)
TrackApply(st, e) == IF e.op = "report" /\ st.done < Len(st.merges) THEN StepTo(st, st.done + 1) ELSE st
=============================================================================
