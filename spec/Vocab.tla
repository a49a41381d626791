------------------------------- MODULE Vocab -------------------------------
(* Vocabulary tables: what a well-formed one is, and which one the trimming  *)
(* limits ask for.  A row is [idx, name, level, freq, kids, kidnames].       *)
EXTENDS BpeLearn

Reserved == << <<60,112,97,100,62>>, <<60,117,110,107,62>>, <<60,115,62>>,
               <<60,47,115,62>>, <<60,99,108,115,62>>, <<SpaceMark>> >>
ReservedSet == {Reserved[i] : i \in DOMAIN Reserved}
ReservedLevel == -1
HasReserved(scheme) == scheme \in {"word", "char", "bpe"}
Invertible(scheme) == scheme # "bpe"

Hex(n) == IF n < 10 THEN 48 + n ELSE 87 + n
HexName(b) == IF b < 16 THEN <<Hex(b)>> ELSE <<Hex(b \div 16), Hex(b % 16)>>
ByteTable == [i \in 1..258 |-> IF i <= 256 THEN HexName(i - 1) ELSE Reserved[i - 254]]

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

(* first violated clause of well-formedness, or ""                           *)
IllFormed(scheme, size, rows) ==
  CASE \E i \in DOMAIN rows : rows[i].idx # i - 1 -> "ids are dense, from 0"
    [] HasReserved(scheme) /\ ~(Len(rows) >= 6 /\ \A i \in 1..6 : rows[i].name = Reserved[i] /\ rows[i].level = ReservedLevel)
         -> "special tokens at their ids, with the reserved level"
    [] scheme = "byte" /\ ~(Len(rows) = 258 /\ (\A i \in 1..258 : rows[i].name = ByteTable[i])
                            /\ rows[257].level = ReservedLevel /\ rows[258].level = ReservedLevel
                            /\ \A i \in 1..256 : rows[i].level # ReservedLevel)
         -> "the fixed byte table"
    [] HasReserved(scheme) /\ \E i \in 7..Len(rows) : rows[i].level = ReservedLevel -> "only special tokens are reserved"
    [] Invertible(scheme) /\ Cardinality({rows[i].name : i \in DOMAIN rows}) # Len(rows) -> "names are distinct"
    [] \E i \in DOMAIN rows : \E k \in DOMAIN rows[i].kids : rows[i].kids[k] < 0 \/ rows[i].kids[k] >= i - 1
         -> "parts are earlier rows"
    [] \E i \in DOMAIN rows : \E k \in DOMAIN rows[i].kids : rows[rows[i].kids[k] + 1].name # rows[i].kidnames[k]
         -> "parts are rows of the table"
    [] \E i \in DOMAIN rows : Len(rows[i].kids) > 0 /\ (Len(rows[i].kids) # 2 \/ rows[i].name # Flat(rows[i].kidnames))
         -> "a composed piece is the concatenation of its two parts"
    [] scheme = "bpe" /\ \E i \in 7..Len(rows) : Len(rows[i].name) > 1 /\ Len(rows[i].kids) # 2
         -> "a piece longer than a character names the two rows it is composed of"
    [] HasReserved(scheme) /\ size > 0 /\ Len(rows) > Max2(size, 6) -> "at most the requested size"
    [] OTHER -> ""

(* ---- trimming ------------------------------------------------------------ *)
(* counts: a sequence of [t |-> type, f |-> count] of distinct types          *)
CharsOfLine(line) == Join(Words(line), SpaceMark)
Tokens(scheme, lines) ==
  IF scheme = "word" THEN AllWords(lines)
  ELSE Singles(Flat([i \in DOMAIN lines |-> CharsOfLine(lines[i])]))
CountsOf(ts) == LET T == SetToSeq({ts[i] : i \in DOMAIN ts})
                IN [k \in DOMAIN T |-> [t |-> T[k], f |-> CountIn(ts, T[k])]]
TfCounts(tfs) == [k \in DOMAIN tfs |-> [t |-> tfs[k].w, f |-> tfs[k].f]]
(* characters of weighted words, every word followed by the word-end marker   *)
BpeCounts(tfs) ==
  LET ch  == UNION {{tfs[k].w[i] : i \in DOMAIN tfs[k].w} : k \in DOMAIN tfs} \cup {SpaceMark}
      T   == SetToSeq(ch)
  IN [j \in DOMAIN T |-> [t |-> <<T[j]>>,
        f |-> Sum([k \in DOMAIN tfs |-> tfs[k].f * (CountIn(tfs[k].w, T[j]) + (IF T[j] = SpaceMark THEN 1 ELSE 0))])]]

CorpusCounts(case) ==
  CASE case.scheme = "bpe" -> BpeCounts(IF case.src = "lines" THEN TermFreqs(case.lines) ELSE case.tfs)
    [] case.src = "lines"  -> CountsOf(Tokens(case.scheme, case.lines))
    [] OTHER               -> TfCounts(case.tfs)

Total(cs) == Sum([k \in DOMAIN cs |-> cs[k].f])
FreqsDesc(cs) == SortSeq([k \in DOMAIN cs |-> cs[k].f], LAMBDA a, b : a > b)

(* how many of the most frequent types a coverage of num/den asks for: the   *)
(* shortest prefix whose sum reaches it.  One more is allowed where the      *)
(* prefix reaches it exactly and the ratio is one that binary floating point *)
(* numbers can not hold (1/2 and 3/4 are exact, 9/10 is not).                *)
Dyadic(den) == den \in {1, 2, 4, 8, 16}
CoverSizes(fs, num, den) ==
  LET tot == Sum(fs)
      pre(n) == Sum(SubSeq(fs, 1, n))
      R == {n \in 1..Len(fs) : pre(n) * den >= tot * num}
      n0 == IF R = {} THEN Len(fs) ELSE CHOOSE n \in R : \A m \in R : n <= m
  IN IF n0 < Len(fs) /\ num # den /\ ~Dyadic(den) /\ pre(n0) * den = tot * num THEN {n0, n0 + 1} ELSE {n0}

(* the sizes the three limits, applied in order, ask for                      *)
KeptSizes(fs, case) ==
  LET c1 == IF case.cov.num = 0 THEN {Len(fs)} ELSE CoverSizes(fs, case.cov.num, case.cov.den)
      c2 == {Cardinality({i \in 1..n : fs[i] >= Max2(case.minfreq, 1)}) : n \in c1}
  IN {IF case.size > 0 THEN Min2(n, Max2(case.size - 6, 0)) ELSE n : n \in c2}

(* rows: the table (its part without merges, for BPE)                         *)
Trimmed(case, rows) ==
  LET all  == CorpusCounts(case)
      lit  == SelectSeq(all, LAMBDA x : x.t \in ReservedSet)
      cs   == SelectSeq(all, LAMBDA x : x.t \notin ReservedSet)
      fs   == FreqsDesc(cs)
      kept == SubSeq(rows, 7, Len(rows))
      find(n) == LET I == {k \in DOMAIN cs : cs[k].t = n} IN IF I = {} THEN 0 ELSE cs[CHOOSE k \in I : TRUE].f
      names == {kept[i].name : i \in DOMAIN kept}
      cut  == Total(cs) - Sum([i \in DOMAIN kept |-> kept[i].freq])
      unkLit == Sum([k \in DOMAIN lit |-> IF lit[k].t = Reserved[2] THEN lit[k].f ELSE 0])
      unk == cut + unkLit
  IN CASE Len(rows) < 6 -> "special tokens are kept"
       [] \E i \in DOMAIN kept : find(kept[i].name) = 0 -> "an included type does not occur in the corpus"
       [] Cardinality(names) # Len(kept) -> "a type is included once"
       [] \E i \in DOMAIN kept : kept[i].freq # find(kept[i].name) -> "exact frequency of an included type"
       [] \E k \in DOMAIN cs : cs[k].t \notin names /\ \E i \in DOMAIN kept : kept[i].freq < cs[k].f
            -> "an excluded type is more frequent than an included one"
       [] Len(kept) \notin KeptSizes(fs, case) -> "the cut is the one the limits ask for"
       [] ~(rows[2].freq = unk \/ (unk = 0 /\ rows[2].freq = -1)) -> "the unknown token carries the tokens cut away"
       [] OTHER -> ""

(* ---- trace machines ------------------------------------------------------ *)
WfInit(case) == case
WfFault(st, e) ==
  CASE e.op = "table"   -> IllFormed(st.scheme, st.size, e.rows)
    [] e.op = "refused" -> ""
    [] OTHER            -> "unknown event"
WfApply(st, e) == st

TrimInit(case) == case
TrimFault(st, e) == IF e.op = "table" THEN Trimmed(st, e.rows) ELSE "unknown event"
TrimApply(st, e) == st
=============================================================================
