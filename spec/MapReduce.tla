----------------------------- MODULE MapReduce -----------------------------
(* Map-reduce is the left-to-right combination of the mapped items, for any  *)
(* associative operation with an identity.                                   *)
EXTENDS BpeLearn

P == 10007
Bit(n, k) == (n \div k) % 2
BitAnd(m, n) == Bit(m, 1) * Bit(n, 1) + 2 * Bit(m, 2) * Bit(n, 2) + 4 * Bit(m, 4) * Bit(n, 4)
Mat(a, b) == << (a[1]*b[1] + a[2]*b[3]) % P, (a[1]*b[2] + a[2]*b[4]) % P,
                (a[3]*b[1] + a[4]*b[3]) % P, (a[3]*b[2] + a[4]*b[4]) % P >>
Op(kind, a, b) == CASE kind = "concat" -> a \o b
                    [] kind = "sum"    -> <<a[1] + b[1]>>
                    [] kind = "max"    -> IF a[1] > b[1] THEN a ELSE b
                    [] kind = "mat"    -> Mat(a, b)
                    [] kind = "maxr"   -> IF a[1] > b[1] THEN a ELSE b
                    [] kind = "prod"   -> <<(a[1] * b[1]) % P>>
                    [] kind = "first"  -> IF a[1] = -1 THEN b ELSE a
                    [] kind = "last"   -> IF b[1] = -1 THEN a ELSE b
                    [] kind = "both"   -> <<BitAnd(a[1], b[1])>>
Reduced(kind, items) == FoldLeft(LAMBDA a, x : Op(kind, a, x), Head(items), Tail(items))

(* sparse counts: sequences of [t |-> type, n |-> count], as sets              *)
AsSet(rows) == {rows[i] : i \in DOMAIN rows}
CountRows(ws) == {[t |-> t, n |-> CountIn(ws, t)] : t \in {ws[i] : i \in DOMAIN ws}}
MergedRows(a, b) ==
  LET T == {a[i].t : i \in DOMAIN a} \cup {b[i].t : i \in DOMAIN b}
      get(r, t) == Sum([i \in DOMAIN r |-> IF r[i].t = t THEN r[i].n ELSE 0])
  IN {[t |-> t, n |-> get(a, t) + get(b, t)] : t \in T}

MrInit(case) == [runs |-> 0]
MrFault(st, e) ==
  CASE e.op = "reduce" ->       \* items: the mapped items
         IF e.items = <<>> THEN IF e.outcome = "raised" THEN "" ELSE "empty input is an error"
         ELSE IF e.outcome # "ok" THEN "reduction completes"
         ELSE IF e.result # Reduced(e.kind, e.items) THEN "the left-to-right combination of all mapped items"
         ELSE ""
    [] e.op = "count" ->
         IF e.lines = <<>> THEN IF e.outcome = "raised" THEN "" ELSE "empty input is an error"
         ELSE IF e.outcome # "ok" THEN "reduction completes"
         ELSE IF AsSet(e.result) # CountRows(AllWords(e.lines)) THEN "exact word counts"
         ELSE ""
    [] e.op = "merge" ->
         IF AsSet(e.result) # MergedRows(e.a, e.b) THEN "merged frequencies are the sums" ELSE ""
    [] e.op = "pairs" ->        \* items and default are numbers
         IF e.result # [k \in 1..(Len(e.items) + 1) \div 2 |->
                          <<e.items[2 * k - 1], IF 2 * k <= Len(e.items) THEN e.items[2 * k] ELSE e.default>>]
         THEN "pairs of subsequent items, in order" ELSE ""
    [] OTHER -> "unknown event"
MrApply(st, e) == [runs |-> st.runs + 1]
=============================================================================
