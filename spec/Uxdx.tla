-------------------------------- MODULE Uxdx --------------------------------
(* Devanagari expansion: consonants carry an implicit vowel; expanding makes *)
(* it visible between two adjacent consonants.                               *)
EXTENDS Integers, Sequences, SequencesExt, TLC
Marker == 8942                                     \* U+22EE
Consonant(c) == c \in 2325..2361 \/ c \in 2392..2399

Between(s, i) == i < Len(s) /\ Consonant(s[i]) /\ Consonant(s[i + 1])
Expand(s)   == FoldLeft(LAMBDA a, i : IF Between(s, i) THEN a \o <<s[i], Marker>> ELSE Append(a, s[i]), <<>>, [i \in 1..Len(s) |-> i])
Contract(s) == SelectSeq(s, LAMBDA c : c # Marker)

UxInit(c) == [x |-> 0]
UxFault(st, e) ==
  CASE e.outcome # "ok" -> "every text is expanded"
    [] e.op = "expand" /\ e.out # Expand(e.text) -> "expanding inserts one marker between adjacent consonants and nothing else"
    [] e.op = "contract" /\ e.out # Contract(e.text) -> "de-expanding removes exactly the markers"
    [] e.op = "back" /\ e.out # Contract(e.text) -> "de-expanding the expansion restores the text"
    [] e.op = "tool" /\ Len(e.out) # Len(e.lines) -> "the line tool writes one line per line"
    [] e.op = "tool" /\ (\E i \in DOMAIN e.lines : e.out[i] # IF e.decode THEN Contract(e.lines[i]) ELSE Expand(e.lines[i]))
         -> "the line tool writes the image of each line"
    [] OTHER -> ""
UxApply(st, e) == st
=============================================================================
