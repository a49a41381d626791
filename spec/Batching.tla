------------------------------ MODULE Batching ------------------------------
(* Batches of pairs of sequences.  Records are pairwise different, so a row  *)
(* of a batch (markers and padding taken off) names its record.              *)
EXTENDS Naturals, Sequences, FiniteSets

MaxN(a, b) == IF a > b THEN a ELSE b
MinN(a, b) == IF a < b THEN a ELSE b
Size(r)   == MaxN(Len(r.x), Len(r.y))
Usable(r) == Len(r.x) > 0 /\ Len(r.y) > 0

(* all records of all parts                                                  *)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Row(r)  == [x |-> r.x, y |-> r.y]

BtInit(case) ==
  LET recs == [p \in DOMAIN case.parts |-> {Row(case.parts[p][i]) : i \in DOMAIN case.parts[p]}]
      all  == UNION {recs[p] : p \in DOMAIN recs}
  IN [parts |-> recs, all |-> all, usable |-> {r \in all : Usable(r)}, total |-> case.total]

RowsOf(bs) == Flat(bs)
Longest(b) == LET S == {Size(b[i]) : i \in DOMAIN b} IN CHOOSE m \in S : \A k \in S : k <= m
Shortest(b) == LET S == {Size(b[i]) : i \in DOMAIN b} IN CHOOSE m \in S : \A k \in S : m <= k

BtFault(st, e) ==
  CASE e.op = "pass" ->
       LET rows == RowsOf(e.batches)
           seen == {rows[i] : i \in DOMAIN rows}
           bsz  == DOMAIN e.batches
       IN IF \E b \in bsz : e.batches[b] = <<>> THEN "every batch has a record"
          ELSE IF \E i \in DOMAIN rows : rows[i] \notin st.all THEN "every row is a stored record"
          ELSE IF \E i \in DOMAIN rows : rows[i] \notin st.usable THEN "records with an empty side are in no batch"
          ELSE IF Cardinality(seen) # Len(rows) THEN "no record is in two batches"
          ELSE IF \E b \in bsz : Len(e.batches[b]) * Longest(e.batches[b]) > e.toks THEN "rows times longest sequence within the token limit"
          ELSE IF e.sents > 0 /\ \E b \in bsz : Len(e.batches[b]) > e.sents THEN "number of rows within the limit"
          ELSE IF e.error /\ st.usable # {} /\ \A r \in st.usable : Size(r) <= e.toks THEN "records that fit are batched"
          ELSE IF ~ e.error /\ seen # st.usable THEN "every usable record is in a batch, or an error is raised"
          ELSE IF e.mode = "eq" /\
                  \E p \in DOMAIN st.parts : \E a, b \in bsz :
                     /\ a < b
                     /\ \A i \in DOMAIN e.batches[a] : e.batches[a][i] \in st.parts[p]
                     /\ \A i \in DOMAIN e.batches[b] : e.batches[b][i] \in st.parts[p]
                     /\ Shortest(e.batches[a]) < Longest(e.batches[b])
                     /\ Shortest(e.batches[b]) < Longest(e.batches[a])
               THEN "batches of a part have separate ranges of length"
          ELSE ""
    [] e.op = "len" -> IF e.n # st.total THEN "the number of items is the number of records" ELSE ""
    [] OTHER -> "unknown event"
BtApply(st, e) == st
=============================================================================
