------------------------------- MODULE Chance -------------------------------
(* Operations that draw at random: what they may yield, that they yield all  *)
(* of it, and how often.  A case describes the operation; `drawn' tells one  *)
(* of its outcomes and how often it came in n independent runs.              *)
EXTENDS Splits, Functions

RECURSIVE Perms(_)
Perms(S) == IF S = {} THEN {<<>>} ELSE UNION {{<<x>> \o p : p \in Perms(S \ {x})} : x \in S}

(* sequences of blocks: every block in any order, the blocks in any order    *)
RECURSIVE Concats(_)
Concats(ss) == IF ss = <<>> THEN {<<>>} ELSE {a \o b : a \in Head(ss), b \in Concats(Tail(ss))}
Orders(blocks) ==
  UNION {Concats([i \in DOMAIN p |-> Perms({blocks[p[i]][j] : j \in DOMAIN blocks[p[i]]})]) : p \in Perms(DOMAIN blocks)}

(* all sequences of batches of two, or of one, of the records of a block     *)
RECURSIVE Pairings(_)
Pairings(S) == IF S = {} THEN {<<>>}
               ELSE UNION {{<<p>> \o q : q \in Pairings(S \ p)} : p \in {p \in SUBSET S : Cardinality(p) = 2}}
OneByOne(S) == {[i \in DOMAIN p |-> {p[i]}] : p \in Perms(S)}
Batches(blocks, k) ==
  UNION {Concats([i \in DOMAIN p |-> LET S == {blocks[p[i]][j] : j \in DOMAIN blocks[p[i]]} IN IF k = 1 THEN OneByOne(S) ELSE Pairings(S)]) :
         p \in Perms(DOMAIN blocks)}

(* the weight of an expansion, when every piece that can be split is split   *)
(* with probability r/10, independently; a sum of 10^Inner                   *)
RECURSIVE Inner(_, _)
Inner(kids, id) == IF kids[id + 1] = <<>> THEN 0 ELSE 1 + Inner(kids, kids[id + 1][1]) + Inner(kids, kids[id + 1][2])
RECURSIVE Pow(_)
Pow(n) == IF n = 0 THEN 1 ELSE 10 * Pow(n - 1)
RECURSIVE Weight(_, _, _, _, _)
Weight(kids, r, id, out, p) ==
  IF kids[id + 1] = <<>> THEN 1
  ELSE IF out[p] = id THEN (10 - r) * Pow(Inner(kids, id) - 1)
  ELSE LET a == kids[id + 1][1]  b == kids[id + 1][2]
       IN r * Weight(kids, r, a, out, p) * Weight(kids, r, b, out, After(kids, a, out, p))
RECURSIVE SeqWeight(_, _, _, _, _)
SeqWeight(kids, r, seq, out, p) ==
  IF seq = <<>> THEN 1
  ELSE Weight(kids, r, Head(seq), out, p) * SeqWeight(kids, r, Tail(seq), out, After(kids, Head(seq), out, p))
RECURSIVE SumInner(_, _)
SumInner(kids, seq) == IF seq = <<>> THEN 0 ELSE Inner(kids, Head(seq)) + SumInner(kids, Tail(seq))
SplitsOf(kids, seq) == Concats([i \in DOMAIN seq |-> Expansions(kids, seq[i])])

Outcomes(c) ==
  CASE c.kind \in {"order", "still"} -> Orders(c.blocks)
    [] c.kind = "singles" -> Batches(c.blocks, 1)
    [] c.kind = "pairs"   -> Batches(c.blocks, 2)
    [] c.kind = "split"   -> SplitsOf(c.kids, c.seq)
    [] c.kind = "place"   -> {<<i>> : i \in 1..c.n}     (* where one of n records comes, or which of them comes there *)
    [] OTHER -> {}
Plain(c, out) == IF c.kind \in {"singles", "pairs"} THEN [i \in DOMAIN out |-> {out[i][j] : j \in DOMAIN out[i]}] ELSE out
(* the expected number in n runs *)
Expected(st, out, n) ==
  IF st.case.kind = "split" THEN (n * SeqWeight(st.case.kids, st.case.r, st.case.seq, out, 1)) \div Pow(SumInner(st.case.kids, st.case.seq))
  ELSE n \div Cardinality(st.can)
(* eight standard deviations: 8 * sqrt(n p (1 - p)) <= 8 * sqrt(n) / 2, 8 * sqrt(n p) *)
Root(n) == CHOOSE k \in 0..n : k * k <= n /\ (k + 1) * (k + 1) > n
Far(a, b, n) == LET d == IF a > b THEN a - b ELSE b - a IN d > 4 * Root(n) + 8 \/ d > 8 * Root(b) + 8

ChInit(case) == [case |-> case, can |-> Outcomes(case), seen |-> <<>>]
ChFault(st, e) ==
  CASE e.op = "drawn" ->
         IF Plain(st.case, e.out) \notin st.can THEN "only legal outcomes come" ELSE ""
    [] e.op = "end" ->
         IF st.case.kind = "still" THEN (IF Len(st.seen) # 1 THEN "without shuffling every pass is in the same order" ELSE "")
         ELSE IF st.can # {Plain(st.case, st.seen[i].out) : i \in DOMAIN st.seen} THEN "every legal outcome comes"
         ELSE IF \E i \in DOMAIN st.seen : Far(st.seen[i].k, Expected(st, st.seen[i].out, e.n), e.n) THEN "outcomes are as likely as they should be"
         ELSE ""
    [] e.op = "again" -> IF e.a # e.b THEN "the same seeds give the same outcomes" ELSE ""
    [] OTHER -> "unknown event"
ChApply(st, e) == IF e.op = "drawn" THEN [st EXCEPT !.seen = Append(@, [out |-> e.out, k |-> e.k])] ELSE st
=============================================================================
