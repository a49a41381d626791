---------------------------- MODULE BatchTensor ----------------------------
(* The matrix of a batch: marked, padded rows of its records.  Values are    *)
(* opaque strings.                                                           *)
EXTENDS Integers, Sequences, FiniteSets

Bad(s, bos, eos, m) == (~ bos /\ s[1] = m.bos) \/ (~ eos /\ s[Len(s)] = m.eos)
WithBos(s, bos, m) == IF bos /\ s[1] # m.bos THEN <<m.bos>> \o s ELSE s
WithEos(s, eos, m) == IF eos /\ s[Len(s)] # m.eos THEN Append(s, m.eos) ELSE s
Image(s, bos, eos, m) == WithEos(WithBos(s, bos, m), eos, m)

MaxLen(ss) == CHOOSE k \in {Len(ss[i]) : i \in DOMAIN ss} : \A i \in DOMAIN ss : Len(ss[i]) <= k
Padded(s, n, pad) == [j \in 1..n |-> IF j <= Len(s) THEN s[j] ELSE pad]
RECURSIVE Total(_)
Total(ns) == IF ns = <<>> THEN 0 ELSE Head(ns) + Total(Tail(ns))

XImg(r, m) == Image(r.x, m.bosx, m.eosx, m)
YImg(r, m) == Image(r.y, m.bosy, m.eosy, m)
(* what a row must be: images of both sides, with the raw text               *)
Want(e, r)  == [x |-> XImg(r, e.meta), y |-> IF e.has_y THEN YImg(r, e.meta) ELSE <<>>, xr |-> r.xr, yr |-> r.yr]
Got(e, i)  == [x |-> SubSeq(e.x[i], 1, e.xlen[i]), y |-> IF e.has_y THEN SubSeq(e.y[i], 1, e.ylen[i]) ELSE <<>>,
               xr |-> e.xr[i], yr |-> e.yr[i]]
Refuses(e) == \E i \in DOMAIN e.recs : \/ Bad(e.recs[i].x, e.meta.bosx, e.meta.eosx, e.meta)
                                       \/ e.has_y /\ Bad(e.recs[i].y, e.meta.bosy, e.meta.eosy, e.meta)
SideFault(e, rows, lens, toks, mx) ==
  LET n == Len(e.recs) IN
  IF Len(rows) # n \/ Len(lens) # n THEN "one row per record"
  ELSE IF \E i \in 1..n : Len(rows[i]) # mx \/ lens[i] > mx \/ lens[i] < 1 THEN "rows are as wide as the longest"
  ELSE IF ~ \E i \in 1..n : lens[i] = mx THEN "rows are as wide as the longest"
  ELSE IF \E i \in 1..n : \E j \in (lens[i] + 1)..mx : rows[i][j] # e.meta.pad THEN "only padding follows a row"
  ELSE IF toks # Total(lens) THEN "the number of tokens is the sum of the lengths"
  ELSE ""
(* all records sit in rows, each as often as it was given                    *)
SameRows(e) == LET n == Len(e.recs) IN
  \A i \in 1..n : Cardinality({j \in 1..n : Got(e, j) = Got(e, i)}) = Cardinality({j \in 1..n : Want(e, e.recs[j]) = Got(e, i)})

(* what position p of a row may look at: no padding and nothing that follows *)
Visible(row, pad, p, q) == row[q] # pad /\ q <= p
MaskOf(row, pad) == [p \in DOMAIN row |-> [q \in DOMAIN row |-> IF Visible(row, pad, p, q) THEN 1 ELSE 0]]

(* long rows: positions 1..n, those in pads are padding, vis[p] are the      *)
(* visible positions of p as maximal intervals                               *)
RunEnds(n, pads) == {q \in 1..n : q \notin pads /\ (q = n \/ q + 1 \in pads)}
RunStarts(n, pads) == {q \in 1..n : q \notin pads /\ (q = 1 \/ q - 1 \in pads)}
WideFault(e) ==
  LET P == {e.pads[i] : i \in DOMAIN e.pads}
      S == RunStarts(e.n, P)
      E == RunEnds(e.n, P)
      ok(p) == LET v == e.vis[p]
                   s == {q \in S : q <= p}
               IN /\ {v[i][1] : i \in DOMAIN v} = s
                  /\ Len(v) = Cardinality(s)
                  /\ \A i \in DOMAIN v : v[i][2] = p \/ v[i][2] \in E
                  /\ \A i \in DOMAIN v : v[i][2] <= p /\ v[i][1] <= v[i][2]
                  /\ {v[i][2] : i \in DOMAIN v} = {q \in E : q < p} \cup (IF p \in P THEN {} ELSE {p})
  IN IF e.shape # <<1, e.n, e.n>> \/ Len(e.vis) # e.n THEN "a mask has a row for every position"
     ELSE IF \E p \in 1..e.n : ~ ok(p) THEN "the mask hides exactly padding and later positions"
     ELSE ""

TnFault(st, e) ==
  CASE e.op = "batch" ->
        IF Refuses(e) THEN (IF e.outcome = "ok" THEN "a forbidden marker is reported" ELSE "")
        ELSE IF e.outcome # "ok" THEN "a legal batch is built"
        ELSE LET fx == SideFault(e, e.x, e.xlen, e.xtoks, e.xmax)
                 fy == IF e.has_y THEN SideFault(e, e.y, e.ylen, e.ytoks, e.ymax) ELSE ""
             IN IF fx # "" THEN fx ELSE IF fy # "" THEN fy
                ELSE IF e.sort /\ \E i \in 1..(Len(e.recs) - 1) : e.xlen[i] < e.xlen[i + 1] THEN "sorted by decreasing length of the source"
                ELSE IF ~ e.sort /\ \E i \in DOMAIN e.recs : Got(e, i) # Want(e, e.recs[i]) THEN "row i is the image of record i"
                ELSE IF ~ SameRows(e) THEN "rows are the images of the records, both sides aligned"
                ELSE IF e.n # Len(e.recs) THEN "the length of a batch is its number of records"
                ELSE ""
    [] e.op = "mask" ->
        IF e.outcome # "ok" THEN "a mask is made for every matrix"
        ELSE IF Len(e.mask) # Len(e.rows) THEN "one mask per row"
        ELSE IF \E i \in DOMAIN e.rows : e.mask[i] # MaskOf(e.rows[i], e.pad) THEN "the mask hides exactly padding and later positions"
        ELSE ""
    [] e.op = "wide" -> WideFault(e)
    [] e.op = "stored" -> IF e.before # e.after THEN "building batches does not alter the stored data" ELSE ""
    [] e.op = "item" ->
        IF e.xlen # Len(e.x) \/ e.ylen # Len(e.y) THEN "an example tells the lengths of its sequences"
        ELSE IF e.gotx # e.x \/ e.goty # e.y THEN "an example gives its fields by name"
        ELSE ""
    [] OTHER -> "unknown event"
TnInit(case) == [none |-> 0]
TnApply(st, e) == st
=============================================================================
