------------------------------- MODULE Shrink -------------------------------
(* Shrinking a vocabulary to some data.  Row k of the table has id k - 1.    *)
EXTENDS Integers, Sequences, FiniteSets

Reserved == -1
Ids(rows) == 0..(Len(rows) - 1)
Level(rows, i) == rows[i + 1].level
Kids(rows, i)  == {rows[i + 1].kids[k] : k \in DOMAIN rows[i + 1].kids}

(* codes: sequence of sequences of ids, as encoded                           *)
CountIn(s, i) == Cardinality({k \in DOMAIN s : s[k] = i})
RECURSIVE Count(_, _)
Count(codes, i) == IF codes = <<>> THEN 0 ELSE CountIn(Head(codes), i) + Count(Tail(codes), i)

RECURSIVE Closure(_, _)
Closure(rows, S) ==
  LET T == S \cup UNION {Kids(rows, i) : i \in S} IN IF T = S THEN S ELSE Closure(rows, T)

Kept(rows, codes, minf) ==
  Closure(rows, {i \in Ids(rows) : Level(rows, i) = Reserved \/ Count(codes, i) >= minf})

RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})

Renumber(map, i) == (CHOOSE k \in DOMAIN map : map[k] = i) - 1
NewRow(rows, map, k) ==
  LET o == rows[map[k] + 1] IN
  [idx |-> k - 1, name |-> o.name, level |-> o.level, freq |-> o.freq,
   kids |-> [j \in DOMAIN o.kids |-> Renumber(map, o.kids[j])]]
Shrunk(rows, map) == [k \in DOMAIN map |-> NewRow(rows, map, k)]

SkInit(case) == [rows |-> case.rows, scheme |-> case.scheme, map |-> <<>>, minf |-> -1, codes |-> <<>>]
SkFault(st, e) ==
  CASE e.op = "shrink" ->
         LET k == Kept(st.rows, e.codes, e.minf)
             a == Kept(st.rows, e.codes \o e.breaks, e.minf)     \* byte scheme: with the line breaks of the file
             got == {e.map[j] : j \in DOMAIN e.map}
         IN IF e.outcome # "ok" THEN (IF k = {} THEN "" ELSE "shrinking to legal data works")   \* no codec without types
            ELSE IF e.map = Sorted(k) \/ e.map = Sorted(a) THEN ""
            ELSE IF ~ (k \subseteq got) THEN "what is needed or frequent enough is kept"
            ELSE IF got = k THEN "the mapping lists the old ids in increasing order"
            ELSE "what is not needed is dropped"
    [] e.op = "load" ->
         IF e.outcome # "ok" THEN "the shrunk model loads"
         ELSE IF e.scheme # st.scheme THEN "the shrunk model is of the same scheme"
         ELSE IF e.rows # Shrunk(st.rows, st.map) THEN "row k of the new model is row mapping[k] of the old one"
         ELSE ""
    [] e.op = "code" ->          \* line number e.k of the data, by the shrunk codec
         IF st.minf > 1 THEN ""
         ELSE IF e.outcome # "ok" THEN "the data is still encoded"
         ELSE IF Len(e.ids) # Len(st.codes[e.k]) \/
                 \E j \in DOMAIN e.ids : \/ e.ids[j] >= Len(st.map)
                                         \/ (IF e.ids[j] < 0 THEN e.ids[j] ELSE st.map[e.ids[j] + 1]) # st.codes[e.k][j]
              THEN "the data is encoded to the same pieces, ids related by the mapping"
         ELSE IF e.pieces # e.oldpieces THEN "the data is encoded to the same pieces"
         ELSE ""
    [] e.op = "old" -> IF e.rows # st.rows THEN "the original codec is unchanged" ELSE ""
    [] OTHER -> "unknown event"
SkApply(st, e) == IF e.op = "shrink" /\ e.outcome = "ok" THEN [st EXCEPT !.map = e.map, !.minf = e.minf, !.codes = e.codes] ELSE st
=============================================================================
