------------------------------- MODULE ParMap -------------------------------
(* Mapping a stream with several workers: what comes out is what mapping the *)
(* items one by one gives, in order; a failing item (or source) surfaces,    *)
(* after a prefix of the results before it.                                  *)
EXTENDS Integers, Sequences

(* header: ref, the results one by one (before a failure, if any);            *)
(* fail: "no", or "yes" if an item, or the source, fails after ref            *)
ParInit(case) == [ref |-> case.ref, fail |-> case.fail, pos |-> 0, ended |-> FALSE]
ParFault(st, e) ==
  CASE st.ended -> "output after the end"
    [] e.op = "yield" ->
         IF st.pos + Len(e.vals) > Len(st.ref) THEN "more results than items"
         ELSE IF \E i \in DOMAIN e.vals : e.vals[i] # st.ref[st.pos + i] THEN "results are those of the items, in order"
         ELSE ""
    [] e.op = "end" ->
         IF e.outcome = "ok"
         THEN IF st.fail = "yes" THEN "a failure surfaces to the caller"
              ELSE IF st.pos # Len(st.ref) THEN "no result is lost" ELSE ""
         ELSE IF e.outcome = "raised" THEN IF st.fail = "yes" THEN "" ELSE "no failure without a failing item"
         ELSE "the stream ends"
    [] e.op = "close" -> ""      \* the caller stops reading
    [] OTHER -> "unknown event"
ParApply(st, e) == IF e.op = "yield" THEN [st EXCEPT !.pos = @ + Len(e.vals)] ELSE [st EXCEPT !.ended = TRUE]
=============================================================================
