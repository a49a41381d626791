------------------------------- MODULE Splits -------------------------------
(* Expanding pieces along their merge trees.  kids[i] is <<>> or <<a, b>>    *)
(* (row ids) for row id i - 1.                                               *)
EXTENDS Text, TLC

RECURSIVE Expansions(_, _)
Expansions(kids, id) ==
  {<<id>>} \cup
  (IF kids[id + 1] = <<>> THEN {}
   ELSE {a \o b : a \in Expansions(kids, kids[id + 1][1]), b \in Expansions(kids, kids[id + 1][2])})

RECURSIVE Full(_, _)
Full(kids, id) == IF kids[id + 1] = <<>> THEN <<id>>
                  ELSE Full(kids, kids[id + 1][1]) \o Full(kids, kids[id + 1][2])

(* Reading an expansion of the piece id from position p of out: the position *)
(* behind it, or 0.  No choice arises: the pieces below id are other pieces, *)
(* and all expansions of a piece have the same leaves, so that none is a     *)
(* proper beginning of another.  (MCSplits checks this against Expansions.)  *)
RECURSIVE After(_, _, _, _)
After(kids, id, out, p) ==
  IF p = 0 \/ p > Len(out) THEN 0
  ELSE IF out[p] = id THEN p + 1
  ELSE IF kids[id + 1] = <<>> THEN 0
  ELSE After(kids, kids[id + 1][2], out, After(kids, kids[id + 1][1], out, p))
Covers(kids, id, out) == After(kids, id, out, 1) = Len(out) + 1
SplitOf(kids, seq, out) ==
  FoldLeft(LAMBDA p, id : After(kids, id, out, p), 1, seq) = Len(out) + 1

Spelling(names, seq) == Flat([i \in DOMAIN seq |-> names[seq[i] + 1]])

(* A chain: row base is a leaf, every later row up to top is made of the row *)
(* before it and the leaf (in this order, or the other one when flipped).    *)
(* An expansion of a row is summarised: one row, and how often the leaf.     *)
(* (MCSplits checks this against Expansions.)                                *)
Unchained(out, flipped) ==
  LET n == Len(out)
  IN IF n = 0 THEN [row |-> -1, rest |-> <<>>]
     ELSE IF flipped THEN [row |-> out[n], rest |-> SubSeq(out, 1, n - 1)] ELSE [row |-> out[1], rest |-> SubSeq(out, 2, n)]
ChainSplit(base, id, out, flipped) ==
  LET u == Unchained(out, flipped)
  IN u.row >= base /\ u.row <= id /\ Len(u.rest) = id - u.row /\ \A i \in DOMAIN u.rest : u.rest[i] = base
ChainFault(e) ==
  IF e.outcome # "ok" THEN "pieces of any depth are split"
  ELSE IF ~ ChainSplit(e.base, e.id, e.out, e.flipped) THEN "a split follows the merge trees"
  ELSE IF e.ratio = 0 /\ Len(e.out) # 1 THEN "ratio 0 changes nothing"
  ELSE IF e.ratio = 100 /\ Len(e.out) # e.id - e.base + 1 THEN "ratio 1 splits down to what cannot be split"
  ELSE IF e.perms = <<>> THEN ""
  \* the expansions of a row, each as [row, number of leaves]
  ELSE IF {e.perms[i] : i \in DOMAIN e.perms} # {<<j, e.id - j>> : j \in e.base..e.id} THEN "the permutations are exactly the expansions"
  ELSE IF Len(e.perms) # e.id - e.base + 1 THEN "no permutation is listed twice"
  ELSE ""

SplitInit(case) == [names |-> case.names, kids |-> case.kids, T |-> {case.names[i] : i \in DOMAIN case.names}]
SplitFault(st, e) ==
  LET nm(s) == [i \in DOMAIN s |-> st.names[s[i] + 1]]
      inTable(s) == \A i \in DOMAIN s : s[i] >= 0 /\ s[i] < Len(st.names)
      leafNames == {st.names[i] : i \in {j \in DOMAIN st.names : st.kids[j] = <<>>}}
  IN CASE e.op = "split" ->       \* ids -> ids, num/den the ratio
         IF ~inTable(e.out) THEN "splits are pieces of the vocabulary"
         ELSE IF Spelling(st.names, e.out) # Spelling(st.names, e.seq) THEN "a split spells the original"
         ELSE IF ~SplitOf(st.kids, e.seq, e.out) THEN "a split follows the merge trees"
         ELSE IF e.ratio = 0 /\ e.out # e.seq THEN "ratio 0 changes nothing"
         ELSE IF e.ratio = 100 /\ e.out # Flat([i \in DOMAIN e.seq |-> Full(st.kids, e.seq[i])]) THEN "ratio 1 splits down to what cannot be split"
         ELSE ""
    [] e.op = "encode" ->      \* names of the plain segmentation, of the regularised one, and what decoding gives
         IF \E i \in DOMAIN e.out : e.out[i] \notin st.T THEN "splits are pieces of the vocabulary"
         ELSE IF Flat(e.out) # Flat(e.plain) THEN "a split spells the original"
         ELSE IF e.dec_out # e.dec_plain THEN "decoding is unaffected by splits"
         ELSE IF e.ratio = 0 /\ e.out # e.plain THEN "ratio 0 changes nothing"
         ELSE IF e.ratio = 100 /\ \E i \in DOMAIN e.out : e.out[i] \notin leafNames
              THEN "ratio 1 splits down to what cannot be split"
         ELSE ""
    [] e.op = "perms" ->
         IF {e.perms[i] : i \in DOMAIN e.perms} # Expansions(st.kids, e.id) THEN "the permutations are exactly the expansions"
         ELSE IF Cardinality({e.perms[i] : i \in DOMAIN e.perms}) # Len(e.perms) THEN "no permutation is listed twice"
         ELSE IF \E i \in DOMAIN e.perms : Spelling(st.names, e.perms[i]) # st.names[e.id + 1] THEN "each permutation spells the piece"
         ELSE IF [i \in DOMAIN e.perms |-> nm(e.perms[i])] # e.named THEN "named permutations are the same permutations"
         ELSE ""
    [] e.op = "chain" -> ChainFault(e)
    [] OTHER -> "unknown event"
SplitApply(st, e) == st
=============================================================================
