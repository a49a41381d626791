------------------------------- MODULE Repro -------------------------------
(* Learning as a function of data and settings: every run of a case must     *)
(* complete and give the rows of the first run.                              *)
EXTENDS BpeLearn

CharsOf(tfs) == UNION {{tfs[k].w[i] : i \in DOMAIN tfs[k].w} : k \in DOMAIN tfs} \ {SpaceMark}

(* a BPE table needs room for the special tokens, the alphabet and one piece *)
Admitted(case) ==
  \/ case.scheme # "bpe"
  \/ case.size > 6 + Cardinality(CharsOf(IF case.src = "lines" THEN TermFreqs(case.lines) ELSE case.tfs))

ReproInit(case) == [admitted |-> Admitted(case), first |-> "", n |-> 0]
ReproFault(st, e) ==
  CASE e.outcome = "refused" -> IF st.admitted \/ (st.n > 0 /\ st.first # "refused")
                                THEN "learning completes within admitted limits" ELSE ""
    [] e.outcome = "ok"      -> IF st.n > 0 /\ st.first # e.rows
                                THEN "the same data and settings give the same vocabulary" ELSE ""
    [] OTHER                 -> "learning completes"
ReproApply(st, e) == IF st.n > 0 THEN [st EXCEPT !.n = @ + 1]
                     ELSE [st EXCEPT !.n = 1, !.first = IF e.outcome = "ok" THEN e.rows ELSE "refused"]
=============================================================================
