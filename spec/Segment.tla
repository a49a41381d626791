------------------------------ MODULE Segment ------------------------------
(* What a BPE segmentation is: leftmost-longest over the vocabulary.         *)
(* `names` is the table of piece names, row idx at index idx + 1; row 1 of   *)
(* the table (index 2) is the unknown token.                                 *)
EXTENDS Text

UnkRow == 2

BpeText(line) == Append(Join(Words(line), SpaceMark), SpaceMark)

StartsAt(p, s, i) == /\ Len(p) > 0
                     /\ i + Len(p) - 1 <= Len(s)
                     /\ \A k \in 1..Len(p) : s[i + k - 1] = p[k]

(* the length of the longest piece of P that starts at position i of s, or 0 *)
LongestAt(P, s, i) ==
  LET L == {Len(p) : p \in {q \in P : q # <<>> /\ q[1] = s[i] /\ StartsAt(q, s, i)}}
  IN IF L = {} THEN 0 ELSE CHOOSE n \in L : \A m \in L : m <= n

(* the segmentation as a sequence of pieces; <<>> stands for one unknown char *)
SegmentSeq(P, s) ==
  LET step(a, i) ==
        IF i < a.next THEN a
        ELSE LET n == LongestAt(P, s, i)
             IN IF n = 0 THEN [out |-> Append(a.out, <<>>), next |-> i + 1]
                ELSE [out |-> Append(a.out, SubSeq(s, i, i + n - 1)), next |-> i + n]
  IN FoldLeft(step, [out |-> <<>>, next |-> 1], [i \in 1..Len(s) |-> i]).out

Pieces(names) == {names[i] : i \in DOMAIN names}

Segment(names, line) ==
  LET r == SegmentSeq(Pieces(names), BpeText(line))
  IN [i \in DOMAIN r |-> IF r[i] = <<>> THEN names[UnkRow] ELSE r[i]]

(* state machine for traces: the vocabulary is fixed, every encoding is      *)
(* independent of the ones before                                            *)
SegInit(case) == [names |-> case.names, P |-> Pieces(case.names)]
SegFault(st, e) ==
  LET r   == SegmentSeq(st.P, BpeText(e.text))
      exp == [i \in DOMAIN r |-> IF r[i] = <<>> THEN st.names[UnkRow] ELSE r[i]]
  IN CASE e.op = "encode" ->
           IF e.pieces # exp THEN "leftmost-longest segmentation"
           ELSE IF Len(e.ids) # Len(exp) \/ \E i \in DOMAIN e.ids :
                     \/ e.ids[i] < 0 \/ e.ids[i] >= Len(st.names)
                     \/ st.names[e.ids[i] + 1] # exp[i]
                THEN "ids describe the segmentation"
           ELSE ""
       [] OTHER -> "unknown event"
SegApply(st, e) == st
=============================================================================
