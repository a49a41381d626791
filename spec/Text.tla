-------------------------------- MODULE Text --------------------------------
(* Text is a sequence of Unicode code points.                                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

SpaceMark == 9601                               \* U+2581, the word-end marker
Blank     == 32

(* the code points on which words are separated (Unicode White_Space and the *)
(* separators of the ASCII control block)                                    *)
IsSpace(c) == \/ c \in 9..13 \/ c \in 28..32
              \/ c \in {133, 160, 5760, 8232, 8233, 8239, 8287, 12288}
              \/ c \in 8192..8202

Flat(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)

(* Words(line): the maximal runs of non-space characters, in order           *)
Words(line) ==
  LET step(a, c) == IF IsSpace(c)
                    THEN IF a.w = <<>> THEN a
                         ELSE [ws |-> Append(a.ws, a.w), w |-> <<>>]
                    ELSE [ws |-> a.ws, w |-> Append(a.w, c)]
      z == FoldLeft(step, [ws |-> <<>>, w |-> <<>>], line)
  IN IF z.w = <<>> THEN z.ws ELSE Append(z.ws, z.w)

Join(ws, sep) ==
  IF ws = <<>> THEN <<>>
  ELSE FoldLeft(LAMBDA a, w : a \o <<sep>> \o w, Head(ws), Tail(ws))

Normal(line) == Join(Words(line), Blank)        \* whitespace-normalised text

Singles(s) == [i \in 1..Len(s) |-> <<s[i]>>]

Replace(s, x, y) == [i \in 1..Len(s) |-> IF s[i] = x THEN y ELSE s[i]]

RECURSIVE LStrip(_), RStrip(_)
LStrip(s) == IF s # <<>> /\ IsSpace(s[1]) THEN LStrip(Tail(s)) ELSE s
RStrip(s) == IF s # <<>> /\ IsSpace(s[Len(s)]) THEN RStrip(SubSeq(s, 1, Len(s) - 1)) ELSE s
Strip(s)  == LStrip(RStrip(s))

Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)

(* pointwise lexicographic order of code points *)
RECURSIVE SeqLess(_, _)
SeqLess(a, b) == IF b = <<>> THEN FALSE
                 ELSE IF a = <<>> THEN TRUE
                 ELSE IF a[1] # b[1] THEN a[1] < b[1]
                 ELSE SeqLess(Tail(a), Tail(b))
=============================================================================
