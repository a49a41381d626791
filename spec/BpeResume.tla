------------------------------ MODULE BpeResume ------------------------------
(* The learner as an object: it is given sequences of symbols (or words, of  *)
(* which user words stay whole), and asked for some more merges, again and   *)
(* again.  The result depends only on how many merges there are altogether,  *)
(* and the learner's symbol counts are those of the segmented corpus.        *)
EXTENDS BpeLearn

WordSeq(names, w) ==      \* w has its end mark already
  IF \E i \in DOMAIN names : names[i] = w THEN <<RowOf(names, w)>>
  ELSE [i \in DOMAIN w |-> RowOf(names, <<w[i]>>)]
Given(case) == IF case.kind = "seqs" THEN case.seqs
               ELSE [k \in DOMAIN case.tfs |-> [s |-> WordSeq(case.init, case.tfs[k].w), f |-> case.tfs[k].f]]

ResumeInitSt(case) ==
  [c |-> Given(case), names |-> case.init, hist |-> <<>>, open |-> FALSE, left |-> 0, minev |-> 1, level |-> 0]

Occurrences(c, a) == FoldLeft(LAMBDA n, w : n + (w.f * CountIn(w.s, a)), 0, c)

Triple(e) == <<e.a, e.b, e.freq>>
ResumeFault(st, e) ==
  LET m == PairCounts(st.c)
      best == Best(m)
  IN CASE e.op = "call" -> IF st.open THEN "call inside a call" ELSE ""
       [] e.op = "merge" ->
            IF ~st.open THEN "merge outside of a call"
            ELSE IF st.left = 0 THEN "more merges than asked for"
            ELSE IF <<e.a, e.b>> \notin DOMAIN m THEN "merged pair does not occur in the corpus"
            ELSE IF best < st.minev THEN "learning goes on below the minimum co-evidence"
            ELSE IF m[<<e.a, e.b>>] # best THEN "merged pair is not a most frequent one"
            ELSE IF e.freq # best THEN "recorded frequency is the count of the pair"
            ELSE IF e.name # st.names[e.a + 1] \o st.names[e.b + 1] THEN "piece joins the two parts"
            ELSE IF e.level # st.level THEN "new types have the level asked for"
            ELSE IF e.idx # Len(st.names) THEN "new types are numbered consecutively"
            ELSE ""
       [] e.op = "return" ->
            IF ~st.open THEN "return outside of a call"
            ELSE IF st.left > 0 /\ DOMAIN m # {} /\ best >= st.minev THEN "learning stops too early"
            ELSE IF e.old # st.names THEN "the types of earlier calls are kept"
            ELSE ""
       [] e.op = "counts" ->
            IF \E k \in DOMAIN e.uni : e.uni[k][2] # Occurrences(st.c, e.uni[k][1]) THEN "symbol counts are those of the segmented corpus"
            ELSE IF \E a \in 0..(Len(st.names) - 1) : Occurrences(st.c, a) > 0 /\ ~ \E k \in DOMAIN e.uni : e.uni[k][1] = a
                 THEN "every symbol of the segmented corpus is counted"
            ELSE ""
       [] e.op = "once" ->      \* the same corpus, e.n merges at once
            LET want == SubSeq(st.hist, 1, IF e.n < Len(st.hist) THEN e.n ELSE Len(st.hist))
            IN IF e.rows # want THEN "merges do not depend on the number of calls or the size asked for" ELSE ""
       [] OTHER -> "unknown event"

ResumeApply(st, e) ==
  CASE e.op = "call" -> [st EXCEPT !.open = TRUE, !.left = e.n, !.minev = IF e.minev < 1 THEN 1 ELSE e.minev, !.level = e.level]
    [] e.op = "merge" -> [st EXCEPT !.c = MergeCorpus(st.c, e.a, e.b, Len(st.names)), !.names = Append(@, e.name),
                                    !.hist = Append(@, Triple(e)), !.left = @ - 1]
    [] e.op = "return" -> [st EXCEPT !.open = FALSE]
    [] OTHER -> st
=============================================================================
