------------------------------ MODULE BpeLearn ------------------------------
(* Byte pair encoding as a state machine over the segmented corpus: which    *)
(* merges are allowed, with what count, and when learning has to stop.       *)
(* A corpus is a sequence of [s |-> symbols, f |-> weight]; symbols are row  *)
(* ids of the vocabulary table (ids start at 0).                             *)
EXTENDS Text, TLC

Weight(c, a, b) ==      \* weighted number of adjacent occurrences of a, b
  FoldLeft(LAMBDA n, w : n + w.f * Cardinality({i \in 1..Len(w.s) - 1 : w.s[i] = a /\ w.s[i + 1] = b}),
           0, c)

(* all pair counts at once: a function from pairs to weighted counts *)
PairsOf(w) == {<<w.s[i], w.s[i + 1]>> : i \in 1..Len(w.s) - 1}
AllPairs(c) == UNION {PairsOf(c[k]) : k \in DOMAIN c}
PairCounts(c) ==
  FoldLeft(LAMBDA m, w :
             FoldLeft(LAMBDA n, i : [n EXCEPT ![<<w.s[i], w.s[i + 1]>>] = @ + w.f],
                      m, [i \in 1..Len(w.s) - 1 |-> i]),
           [p \in AllPairs(c) |-> 0], c)

(* left-to-right replacement of a b by r in one sequence *)
MergeSeq(s, a, b, r) ==
  LET step(z, i) ==
        IF i < z.next THEN z
        ELSE IF i < Len(s) /\ s[i] = a /\ s[i + 1] = b
             THEN [out |-> Append(z.out, r), next |-> i + 2]
             ELSE [out |-> Append(z.out, s[i]), next |-> i + 1]
  IN FoldLeft(step, [out |-> <<>>, next |-> 1], [i \in 1..Len(s) |-> i]).out

MergeCorpus(c, a, b, r) == [k \in DOMAIN c |-> [s |-> MergeSeq(c[k].s, a, b, r), f |-> c[k].f]]

Best(m) == IF DOMAIN m = {} THEN 0
           ELSE CHOOSE n \in {m[p] : p \in DOMAIN m} : \A p \in DOMAIN m : m[p] <= n

(* ---- the initial segmentation: characters, unknown ones as the unk row    *)
RowOf(names, n) == LET I == {i \in DOMAIN names : names[i] = n}
                   IN IF I = {} THEN 1 ELSE (CHOOSE i \in I : \A j \in I : i <= j) - 1
InitialSeq(names, word) ==
  LET w == Append(word, SpaceMark) IN [i \in DOMAIN w |-> RowOf(names, <<w[i]>>)]

(* weighted words of a text: distinct words with their number of occurrences *)
AllWords(lines) == Flat([i \in DOMAIN lines |-> Words(lines[i])])
CountIn(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
TermFreqs(lines) ==
  LET ws == AllWords(lines)
      T  == SetToSeq({ws[i] : i \in DOMAIN ws})
  IN [k \in DOMAIN T |-> [w |-> T[k], f |-> CountIn(ws, T[k])]]

InitialCorpus(names, tfs) ==
  [k \in DOMAIN tfs |-> [s |-> InitialSeq(names, tfs[k].w), f |-> tfs[k].f]]

(* ---- trace machine ------------------------------------------------------ *)
(* header: tfs or lines, names of the initial table, size, minev             *)
LearnInit(case) ==
  [c     |-> InitialCorpus(case.init, IF case.src = "lines" THEN TermFreqs(case.lines) ELSE case.tfs),
   names |-> case.init, size |-> case.size, minev |-> case.minev, phase |-> "merge"]

LearnFault(st, e) ==
  LET m == PairCounts(st.c)
      best == Best(m)
      full == Len(st.names) >= st.size
  IN CASE e.op = "merge" ->
            IF st.phase # "merge" THEN "merge after the end"
            ELSE IF full THEN "learning goes on although the size is reached"
            ELSE IF <<e.a, e.b>> \notin DOMAIN m THEN "merged pair does not occur in the corpus"
            ELSE IF best < st.minev THEN "learning goes on below the minimum co-evidence"
            ELSE IF m[<<e.a, e.b>>] # best THEN "merged pair is not a most frequent one"
            ELSE IF e.freq # best THEN "recorded frequency is the count of the pair"
            ELSE IF e.name # st.names[e.a + 1] \o st.names[e.b + 1] THEN "piece joins the two parts"
            ELSE ""
       [] e.op = "stop" ->
            IF ~full /\ DOMAIN m # {} /\ best >= st.minev THEN "learning stops too early" ELSE ""
       [] OTHER -> "unknown event"

LearnApply(st, e) ==
  IF e.op = "merge"
  THEN [st EXCEPT !.c = MergeCorpus(st.c, e.a, e.b, Len(st.names)), !.names = Append(@, e.name)]
  ELSE [st EXCEPT !.phase = "done"]
=============================================================================
