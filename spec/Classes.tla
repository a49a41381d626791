------------------------------ MODULE Classes ------------------------------
(* The class codec: a bijection between the distinct (trimmed) labels of the *)
(* training data, in alphabetical order, and the ids 0..n-1.                 *)
EXTENDS BpeLearn

Labels(lines) == {Strip(lines[i]) : i \in DOMAIN lines}
CountLabel(case, n) ==
  IF case.src = "lines" THEN Cardinality({i \in DOMAIN case.lines : Strip(case.lines[i]) = n})
  ELSE Sum([k \in DOMAIN case.tfs |-> IF Strip(case.tfs[k].w) = n THEN case.tfs[k].f ELSE 0])
AllLabels(case) == IF case.src = "lines" THEN Labels(case.lines) ELSE {Strip(case.tfs[k].w) : k \in DOMAIN case.tfs}

ClassInit(case) ==
  LET L == AllLabels(case) IN
  [sorted |-> SetToSortSeq(L, SeqLess),
   freq   |-> [n \in L |-> CountLabel(case, n)]]

ClassFault(st, e) ==
  LET pos(n) == CHOOSE i \in DOMAIN st.sorted : st.sorted[i] = n
      known(n) == n \in DOMAIN st.freq
  IN CASE e.op = "table" ->
         IF [i \in DOMAIN e.rows |-> e.rows[i].name] # st.sorted THEN "exactly the distinct labels, in alphabetical order"
         ELSE IF \E i \in DOMAIN e.rows : e.rows[i].idx # i - 1 THEN "ids in order"
         ELSE IF \E i \in DOMAIN e.rows : e.rows[i].freq # st.freq[e.rows[i].name] THEN "exact counts"
         ELSE ""
    [] e.op = "code" ->
         IF known(Strip(e.text))
         THEN IF e.ids # <<pos(Strip(e.text)) - 1>> THEN "a known label encodes to exactly its id"
              ELSE IF e.dec # Strip(e.text) THEN "a known label decodes back to itself"
              ELSE IF e.pieces # <<Strip(e.text)>> \/ e.dec_pieces # Strip(e.text) THEN "a whole line is one label"
              ELSE ""
         ELSE IF \E i \in DOMAIN e.ids : e.ids[i] >= 0 /\ e.ids[i] < Len(st.sorted)
              THEN "an unknown label does not get the id of a known one"
              ELSE IF e.ids # <<>> /\ e.decodes /\ e.dec # <<60, 117, 110, 107, 62>> /\ known(e.dec)
              THEN "an unknown label is not decoded to a known one"
              ELSE ""
    [] e.op = "several" ->     (* labels one after the other, with commas between *)
         LET all == Flat([i \in DOMAIN e.ids |-> (IF i = 1 THEN <<>> ELSE <<44>>) \o st.sorted[e.ids[i] + 1]])
         IN IF e.out # all \/ e.outp # all THEN "several ids are decoded to their labels, in order, separated by commas" ELSE ""
    [] OTHER -> "unknown event"
ClassApply(st, e) == st
=============================================================================
