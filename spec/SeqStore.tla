------------------------------ MODULE SeqStore ------------------------------
(* A store of records: an id and one sequence of integers per field.         *)
(* Integers of 64 bits are not representable in TLC; values (and ids) are    *)
(* opaque strings here (decimal numbers, or digests of long sequences).      *)
EXTENDS Naturals, Sequences, FiniteSets, Functions

Ids(recs)    == {recs[i].id : i \in DOMAIN recs}
Unique(recs) == Cardinality(Ids(recs)) = Len(recs)
Width(recs, n) == \A i \in DOMAIN recs : Len(recs[i].cols) = n
Creatable(recs, names) == Unique(recs) /\ Width(recs, Len(names))

Contents(recs) == [id \in Ids(recs) |-> (CHOOSE i \in DOMAIN recs : recs[i].id = id)]
Rec(recs, id)  == recs[CHOOSE i \in DOMAIN recs : recs[i].id = id]

(* what came out is a rearrangement of what went in, every record with its   *)
(* own data                                                                  *)
Missing(recs, out)   == ~ (Ids(recs) \subseteq Ids(out))
Repeated(out)        == Cardinality(Ids(out)) < Len(out)
Foreign(recs, out)   == ~ (Ids(out) \subseteq Ids(recs))
Altered(recs, out)   == ~ ({<<out[j].id, out[j].cols>> : j \in DOMAIN out} \subseteq {<<recs[i].id, recs[i].cols>> : i \in DOMAIN recs})

Pairs(recs) == {<<recs[i].id, recs[i].cols>> : i \in DOMAIN recs}
PassFault(recs, out) ==
  IF Len(out) = Len(recs) /\ Pairs(out) = Pairs(recs) /\ Unique(recs) THEN ""     \* the same as below, and quick
  ELSE IF Foreign(recs, out) THEN "only stored records come out"
  ELSE IF Repeated(out) THEN "no record comes out twice"
  ELSE IF Missing(recs, out) THEN "every record comes out"
  ELSE IF Altered(recs, out) THEN "every record has the data stored under its id"
  ELSE ""

StInit(case) == [recs |-> <<>>, names |-> <<>>, live |-> FALSE]
StFault(st, e) ==
  CASE e.op = "create" ->
         IF Creatable(e.recs, e.names) /\ e.outcome # "ok" THEN "legal records are stored"
         ELSE IF ~ Unique(e.recs) /\ e.outcome = "ok" THEN "duplicate ids are refused"
         ELSE IF ~ Width(e.recs, Len(e.names)) /\ e.outcome = "ok" THEN "a wrong number of fields is refused"
         ELSE ""
    [] e.op = "get" ->
         IF e.id \in Ids(st.recs)
         THEN (IF e.outcome # "ok" THEN "a stored record is found"
               ELSE IF e.cols # Rec(st.recs, e.id).cols THEN "every record has the data stored under its id" ELSE "")
         ELSE (IF e.outcome = "ok" THEN "an unknown id is not found" ELSE "")
    [] e.op = "pass" -> PassFault(st.recs, e.out)
    [] e.op = "len" -> IF e.n # Len(st.recs) THEN "the length is the number of records" ELSE ""
    [] e.op = "field" ->          \* one field, read alone: values in order of insertion, lengths by id
         IF e.values # [i \in DOMAIN st.recs |-> st.recs[i].cols[e.k]] THEN "a field lists its sequences in order"
         ELSE IF e.keys # [i \in DOMAIN st.recs |-> st.recs[i].id] THEN "a field lists its ids in order"
         ELSE IF Len(e.lens) # Len(st.recs) \/ \E i \in DOMAIN e.lens : e.lens[i] # [id |-> st.recs[i].id, n |-> st.recs[i].lens[e.k]]
              THEN "a field knows the lengths of its sequences"
         ELSE ""
    [] e.op = "join" ->           \* fields made one by one, each in its own order, put together
         IF e.same /\ e.outcome # "ok" THEN "fields over the same ids make a store"
         ELSE IF ~ e.same /\ e.outcome = "ok" THEN "fields over different ids are refused"
         ELSE ""
    [] e.op = "reload" -> IF e.outcome # "ok" THEN "a saved store loads" ELSE ""
    [] e.op = "damaged" -> IF e.outcome = "ok" THEN "a truncated or foreign file fails to load" ELSE ""
    [] OTHER -> "unknown event"
StApply(st, e) ==
  IF e.op = "join" THEN (IF e.outcome = "ok" THEN [recs |-> e.recs, names |-> e.names, live |-> TRUE] ELSE st)
  ELSE IF e.op = "create" THEN (IF e.outcome = "ok" THEN [recs |-> e.recs, names |-> e.names, live |-> TRUE] ELSE st)
  ELSE st
=============================================================================
