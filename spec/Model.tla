-------------------------------- MODULE Model --------------------------------
(* A codec and its model file.  The file is a header with the scheme and one *)
(* line per row; a row names its parts by id.  Loading rebuilds the rows one *)
(* by one, so a line is acceptable only if it carries the next id and refers *)
(* back.  Damage is a rearrangement of the lines of a good file.             *)
EXTENDS Integers, Sequences, FiniteSets

(* lines: sequence of [idx, kids] *)
Acceptable(lines) ==
  \A i \in DOMAIN lines : /\ lines[i].idx = i - 1
                          /\ \A k \in DOMAIN lines[i].kids : lines[i].kids[k] >= 0 /\ lines[i].kids[k] < lines[i].idx

Row(r) == [idx |-> r.idx, name |-> r.name, level |-> r.level, freq |-> r.freq, kids |-> r.kids]
SameRows(a, b) == /\ Len(a) = Len(b)
                  /\ \A i \in DOMAIN a : Row(a[i]) = Row(b[i])

ModelInit(case) == [scheme |-> case.scheme, rows |-> case.rows]
ModelFault(st, e) ==
  CASE e.op = "load" ->
         IF e.outcome # "ok" THEN "a saved model loads"
         ELSE IF e.scheme # st.scheme THEN "the scheme is restored"
         ELSE IF ~SameRows(st.rows, e.rows) THEN "the rows are restored"
         ELSE ""
    [] e.op = "code" ->
         IF e.orig # e.new THEN "the reloaded codec encodes and decodes like the original" ELSE ""
    [] e.op = "damaged" ->
         IF Acceptable(e.lines)
         THEN IF e.outcome = "ok" /\ ~(Len(e.rows) <= Len(st.rows) /\ \A i \in DOMAIN e.rows : e.rows[i].idx = i - 1)
              THEN "wrong ids" ELSE ""
         ELSE IF e.outcome = "ok" THEN "a damaged model is rejected" ELSE ""
    [] OTHER -> "unknown event"
ModelApply(st, e) == st
=============================================================================
