------------------------------- MODULE Bitext -------------------------------
(* A parallel corpus as a database of encoded pairs.  A trace has the lines  *)
(* (as code points), their encodings by the two codecs, and the contents of  *)
(* the resulting store.                                                      *)
EXTENDS Integers, Sequences, FiniteSets

Min2(a, b) == IF a < b THEN a ELSE b
Cut(s, n) == SubSeq(s, 1, Min2(Len(s), n))

Usable(p) == p.src # <<>> /\ p.tgt # <<>> /\ p.x # <<>> /\ p.y # <<>>
Stored(p, e) == Usable(p) /\ (e.truncate \/ (Len(p.x) <= e.srclen /\ Len(p.y) <= e.tgtlen))
Image(p, e)  == IF e.truncate THEN [x |-> Cut(p.x, e.srclen), y |-> Cut(p.y, e.tgtlen)] ELSE [x |-> p.x, y |-> p.y]

Times(s, v) == Cardinality({i \in DOMAIN s : s[i] = v})

BxInit(case) == [pairs |-> case.pairs]
BxFault(st, e) ==
  CASE e.op = "db" ->
         LET idx  == {i \in DOMAIN st.pairs : Stored(st.pairs[i], e)}
             want == {Image(st.pairs[i], e) : i \in idx}
             n(v) == Cardinality({i \in idx : Image(st.pairs[i], e) = v})
             got  == [i \in DOMAIN e.recs |-> [x |-> e.recs[i].x, y |-> e.recs[i].y]]
         IN IF e.outcome # "ok" THEN (IF idx = {} THEN "" ELSE "a corpus with usable pairs is stored")
            ELSE IF Cardinality({e.recs[i].id : i \in DOMAIN e.recs}) # Len(e.recs) THEN "ids are unique"
            ELSE IF \E i \in DOMAIN got : got[i] \notin want
                 THEN (IF \E i \in DOMAIN got : \/ \A j \in DOMAIN st.pairs : got[i].x # Image(st.pairs[j], e).x
                                                \/ \A j \in DOMAIN st.pairs : got[i].y # Image(st.pairs[j], e).y
                       THEN "what is stored is the encoding of a line, cut to the limit"
                       ELSE "each source line goes with its own target line")
            ELSE IF \E v \in want : Times(got, v) > n(v) THEN "no pair is stored twice"
            ELSE IF \E v \in want : Times(got, v) < n(v) THEN "no usable pair is lost"
            ELSE IF e.n # Len(e.recs) THEN "the length is the number of records"
            ELSE IF e.names # e.asked THEN "the fields have the requested names"
            ELSE ""
    [] e.op = "rdd" ->        \* records given directly, in numbered partitions
         IF e.outcome # "ok" THEN "records in any partitions are stored"
         ELSE IF \E i \in DOMAIN e.recs : e.recs[i] \notin {e.want[j] : j \in DOMAIN e.want} THEN "every record keeps its id and data"
         ELSE IF Len(e.recs) # Len(e.want) \/ Cardinality({e.recs[i].id : i \in DOMAIN e.recs}) # Len(e.recs)
              THEN "every record is stored exactly once"
         ELSE IF e.n # Len(e.want) THEN "the length is the number of records"
         ELSE ""
    [] OTHER -> "unknown event"
BxApply(st, e) == st
=============================================================================
