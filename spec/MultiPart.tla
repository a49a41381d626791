----------------------------- MODULE MultiPart -----------------------------
(* A directory holding a multi-part database, under attempts to write it     *)
(* that may be refused, raise or be killed, and under loads.  The state is   *)
(* the set of data sets the directory may hold; <<>> stands for "does not    *)
(* load".                                                                    *)
EXTENDS SeqStore
None == <<>>
MpInit(case) == [cand |-> {None}]

Holds(c, e) == c # None /\ PassFault(c, e.out) = "" /\ e.n = Len(c)
Only(S) == CHOOSE x \in S : TRUE

MpFault(st, e) ==
  CASE e.op = "attempt" ->
         IF e.pre = "data" /\ ~ e.overwrite
         THEN (IF e.ended = "returned" THEN "existing data is not overwritten unless asked"
               ELSE IF ~ e.same THEN "existing data is not touched unless overwriting"
               ELSE "")
         ELSE IF e.ended = "returned" /\ ~ e.whole THEN "an error in the records surfaces"
         ELSE IF e.ended = "raised" /\ e.whole /\ ~ e.fault THEN "legal records are written"
         ELSE IF e.ended = "returned" /\ e.leftover THEN "nothing of the old data remains"
         ELSE ""
    [] e.op = "load" ->
         IF e.outcome = "refused"
         THEN (IF None \notin st.cand THEN "a complete database loads" ELSE "")
         ELSE IF e.outcome = "partial" THEN "what loads can be read to the end"
         ELSE IF \E c \in st.cand : Holds(c, e) THEN ""
         ELSE IF st.cand = {None} THEN "an incomplete database refuses to load"
         ELSE IF Cardinality(st.cand) = 1
              THEN (LET f == PassFault(Only(st.cand), e.out) IN IF f # "" THEN f ELSE "the length is the number of records")
         ELSE "what loads is one complete data set, the old or the new"
    [] e.op = "tornflag" -> ""     \* the write did not get to the flag, of which a part is found later
    [] e.op = "pass" ->           \* a further pass over a loaded database
         IF \E c \in st.cand : c # None /\ PassFault(c, e.out) = "" THEN ""
         ELSE "every pass yields every record once, with its own data"
    [] OTHER -> "unknown event"
MpApply(st, e) ==
  CASE e.op = "attempt" ->
         [st EXCEPT !.cand = IF e.pre = "data" /\ ~ e.overwrite THEN @
                             ELSE IF e.ended = "returned" THEN {e.recs}
                             ELSE @ \cup {None} \cup (IF e.whole THEN {e.recs} ELSE {})]
    [] e.op = "tornflag" -> [st EXCEPT !.cand = {None}]
    [] e.op = "load" ->
         [st EXCEPT !.cand = IF e.outcome = "refused" THEN {None} ELSE {c \in @ : Holds(c, e)}]
    [] OTHER -> st
=============================================================================
