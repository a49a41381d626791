----------------------------- MODULE EvalStats -----------------------------
(* Reports over encoded data: token and type counts, n-grams, in- and out-of-*)
(* vocabulary partitions, per-n-gram precision and recall.                   *)
(* Ratios are compared as rationals; a recorded ratio is an integer in units *)
(* of 1 / Scale.                                                             *)
EXTENDS BpeLearn, FiniteSetsExt

Scale == 10000
Abs(x) == IF x < 0 THEN -x ELSE x
(* recorded value v stands for num / den *)
Close(v, num, den) == Abs(v * den - num * Scale) <= 2 * den
InUnit(v) == v >= 0 /\ v <= Scale

(* ---- quality ------------------------------------------------------------ *)
AllToks(enc) == Flat(enc)
InTable(enc) == SelectSeq(AllToks(enc), LAMBDA t : t >= 0)
TokCount(enc, t) == CountIn(AllToks(enc), t)
Imbalance(enc, k) == LET s == Len(InTable(enc)) IN Sum([i \in 1..k |-> Abs(k * TokCount(enc, i - 1) - s)])

QualityFault(st, e) ==
  CASE e.outcome # "ok" -> "the quality of any codec on any text is reported"
    [] e.n_types # st.k -> "reported number of types"
    [] e.n_tokens # Len(AllToks(st.enc)) -> "reported number of tokens"
    [] e.unk # TokCount(st.enc, st.unk) -> "reported number of unknown tokens"
    [] e.tool -> ""
    [] e.mean # Len(AllToks(st.enc)) -> "reported mean length follows from the counts"
    [] Len(InTable(st.enc)) > 0 /\ e.imb # Imbalance(st.enc, st.k) -> "reported imbalance follows from the counts"
    [] OTHER -> ""

(* ---- n-grams ------------------------------------------------------------ *)
Grams(s, n) == [i \in 1..(IF Len(s) >= n THEN Len(s) - n + 1 ELSE 0) |-> SubSeq(s, i, i + n - 1)]
GramsOf(enc, n) == Flat([k \in DOMAIN enc |-> Grams(enc[k], n)])
Counted(ts) == {<<t, CountIn(ts, t)>> : t \in {ts[i] : i \in DOMAIN ts}}
Rows(rs) == {<<rs[i].g, rs[i].f>> : i \in DOMAIN rs}
Falling(rs) == \A i \in 1..Len(rs) - 1 : rs[i].f >= rs[i + 1].f

(* what is unknown and has no id (labels) is not reported as if it was known  *)
Unk == <<60, 117, 110, 107, 62>>
Known(st) == {st.names[i] : i \in DOMAIN st.names} \ {Unk}
NamedAs(st, g, names) ==
  /\ Len(names) = Len(g)
  /\ \A k \in DOMAIN g : IF g[k] >= 0 THEN names[k] = st.names[g[k] + 1] ELSE names[k] \notin Known(st)
Commas(ss) == Flat([i \in DOMAIN ss |-> IF i = 1 THEN ss[i] ELSE <<44>> \o ss[i]])

GramFault(st, e) ==
  CASE e.outcome # "ok" -> "n-grams of any text are reported"
    [] Rows(e.rows) # Counted(GramsOf(st.enc, e.n)) \/ Cardinality(Rows(e.rows)) # Len(e.rows) -> "n-gram frequencies are exact"
    [] e.sorted /\ ~Falling(e.rows) -> "reported n-grams are sorted by frequency"
    [] e.sorted /\ \E i \in DOMAIN e.rows : ~NamedAs(st, e.rows[i].g, e.rows[i].names) -> "n-grams are reported with their names"
    [] OTHER -> ""

(* ---- vocabulary partitions ---------------------------------------------- *)
OovFault(st, e) ==
  LET all == Counted(AllWords(st.lines))
      V   == {e.vocab[i] : i \in DOMAIN e.vocab}
      iv  == {x \in all : x[1] \in V}
  IN CASE e.outcome # "ok" -> "vocabulary coverage of any text is reported"
       [] Rows(e.iv) # iv \/ Cardinality(Rows(e.iv)) # Len(e.iv) -> "in-vocabulary words with their exact counts"
       [] Rows(e.oov) # all \ iv \/ Cardinality(Rows(e.oov)) # Len(e.oov) -> "out-of-vocabulary words with their exact counts"
       [] OTHER -> ""
Tot(S) == FoldSet(LAMBDA x, a : a + x[2], 0, S)
OovToolFault(st, e) ==
  LET all == Counted(AllWords(st.lines))
      iv  == {x \in all : x[1] \in {st.names[i] : i \in DOMAIN st.names}}
      a   == Tot(iv)
      b   == Tot(all \ iv)
  IN CASE e.outcome # "ok" -> "vocabulary coverage of any text is reported"
       [] e.types # <<Cardinality(iv), Cardinality(all \ iv)>> -> "reported types in and out of the vocabulary"
       [] e.toks # <<a, b>> -> "reported tokens in and out of the vocabulary"
       [] ~(Close(e.pct[1], a, a + b) /\ Close(e.pct[2], b, a + b)) -> "reported percentages follow from the counts"
       [] OTHER -> ""

(* ---- precision and recall ----------------------------------------------- *)
Base == 2520                            \* counts per sentence are at most 10
Min2(x, y) == IF x < y THEN x ELSE y
(* mean over the sentences having g on side A of min(a, b) / a, as a rational *)
MeanHit(A, B, n, g) ==
  LET I   == {k \in DOMAIN A : CountIn(Grams(A[k], n), g) > 0}
      num == FoldSet(LAMBDA k, z : z + Min2(CountIn(Grams(A[k], n), g), CountIn(Grams(B[k], n), g)) * (Base \div CountIn(Grams(A[k], n), g)), 0, I)
  IN [num |-> num, den |-> Base * Cardinality(I), any |-> I # {}]
GramSet(enc, n) == LET s == GramsOf(enc, n) IN {s[i] : i \in DOMAIN s}
FreqOr(enc, n, g) == LET f == CountIn(GramsOf(enc, n), g) IN IF f = 0 THEN -1 ELSE f

PrRowFault(st, e, r) ==
  LET rec == MeanHit(st.refs, st.cands, e.n, r.g)
      pre == MeanHit(st.cands, st.refs, e.n, r.g)
  IN CASE (\A k \in DOMAIN r.g : r.g[k] >= 0) /\ r.name # Commas([k \in DOMAIN r.g |-> st.names[r.g[k] + 1]]) -> "n-grams are reported with their names"
       [] Len(r.g) = 1 /\ r.g[1] < 0 /\ r.name \in Known(st) -> "n-grams are reported with their names"
       [] r.reff # FreqOr(st.refs, e.n, r.g) -> "frequency in the references"
       [] r.candf # FreqOr(st.cands, e.n, r.g) -> "frequency in the candidates"
       [] rec.any /\ ~Close(r.recall, rec.num, rec.den) -> "recall of an n-gram"
       [] pre.any /\ ~Close(r.prec, pre.num, pre.den) -> "precision of an n-gram"
       [] ~(InUnit(r.recall) /\ InUnit(r.prec) /\ InUnit(r.f1)) -> "ratios lie in the unit interval"
       [] Abs(r.f1 * (r.recall + r.prec) - 2 * r.recall * r.prec) > 5 * Scale -> "F1 is the harmonic mean"
       [] OTHER -> ""
PrFault(st, e) ==
  LET gs == {e.rows[i].g : i \in DOMAIN e.rows}
      R  == GramSet(st.refs, e.n)
      C  == GramSet(st.cands, e.n)
      G  == {e.freqs[i].g : i \in DOMAIN e.freqs}
      want == IF e.given THEN (G \cap (R \cup C)) \cup R ELSE R
      rank(g) == IF ~e.given THEN FreqOr(st.refs, e.n, g)
                 ELSE IF g \in G THEN e.freqs[CHOOSE i \in DOMAIN e.freqs : e.freqs[i].g = g].f ELSE -1
      bad == {i \in DOMAIN e.rows : PrRowFault(st, e, e.rows[i]) # ""}
  IN CASE e.outcome # "ok" -> "precision and recall of any pair of files are reported"
       [] gs # want \/ Len(e.rows) # Cardinality(gs) -> "every n-gram of the references is reported once"
       [] \E i \in DOMAIN e.rows : e.rows[i].rank # i \/ e.rows[i].rankf # rank(e.rows[i].g) -> "ranking frequency"
       [] \E i \in 1..Len(e.rows) - 1 : e.rows[i].rankf < e.rows[i + 1].rankf -> "reported n-grams are ranked by frequency"
       [] bad # {} -> PrRowFault(st, e, e.rows[CHOOSE i \in bad : \A j \in bad : i <= j])
       [] OTHER -> ""

(* ---- distances of distributions (weights over their sums) ---------------- *)
DistFault(st, e) ==
  LET p == e.p  q == e.q  tp == Sum(p)  tq == Sum(q)
      num == Sum([i \in DOMAIN p |-> Abs(p[i] * tq - q[i] * tp)])
  IN CASE e.outcome # "ok" -> "distances of distributions are computed"
       [] ~Close(e.emd, num, 2 * tp * tq) -> "earth mover distance"
       [] Abs(e.js - e.js2) > 1 -> "the Jensen-Shannon divergence is symmetric"
       [] e.js < 0 \/ e.js > 6932 -> "the Jensen-Shannon divergence is bounded"
       [] num = 0 /\ e.js # 0 -> "equal distributions have no divergence"
       [] num * 100 > 2 * tp * tq * 5 /\ e.js <= 0 -> "different distributions diverge"
       [] OTHER -> ""

(* what is no pair of distributions over the same outcomes is refused        *)
Units == 100000
Distr(p) == Len(p) > 0 /\ Sum(p) = Units /\ \A i \in DOMAIN p : p[i] >= 0
DistrFault(st, e) ==
  LET ok == Distr(e.p) /\ Distr(e.q) /\ Len(e.p) = Len(e.q)
  IN CASE ok /\ (e.emd # "ok" \/ e.js # "ok") -> "distances of distributions are computed"
       [] ~ok /\ (e.emd = "ok" \/ e.js = "ok") -> "distances of what is no distribution are refused"
       [] OTHER -> ""

(* ---- encoding all lines of a file ---------------------------------------- *)
CodeFault(st, e) ==
  CASE e.outcome # "ok" -> "all lines are encoded"
    [] e.index /\ e.ids # e.want -> "every line is encoded in its place"
    [] ~e.index /\ e.pieces # e.names -> "every line is encoded in its place"
    [] OTHER -> ""

EvInit(case) == case
EvFault(st, e) ==
  CASE e.op = "quality" -> QualityFault(st, e)
    [] e.op = "grams"   -> GramFault(st, e)
    [] e.op = "oov"     -> OovFault(st, e)
    [] e.op = "oovtool" -> OovToolFault(st, e)
    [] e.op = "pr"      -> PrFault(st, e)
    [] e.op = "dist"    -> DistFault(st, e)
    [] e.op = "distr"   -> DistrFault(st, e)
    [] e.op = "codes"   -> CodeFault(st, e)
    [] OTHER -> "unknown event"
EvApply(st, e) == st
=============================================================================
