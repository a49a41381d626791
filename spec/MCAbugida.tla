------------------------------ MODULE MCAbugida ------------------------------
(* Two machines side by side: one transcribes the text symbol by symbol and  *)
(* looks one symbol ahead; the other reads what the first one writes, with   *)
(* its own look ahead, and writes Unicode again.  On regular text the second *)
(* gives the text back.  The mistake: all texts are taken for regular.       *)
EXTENDS Abugida, Json
CONSTANTS Syms, MaxLen, Anything, Lite, Export
MCSyms == {2325, 2399, 2310, 2366, A, Virama, 2306, 32}
VARIABLES text, i, enc, j, dec
vars == <<text, i, enc, j, dec>>
Good(s) == Anything \/ (IF Lite THEN LiteRegular(s) ELSE Regular(s))
Init == /\ text \in UNION {[1..n -> Syms] : n \in 0..MaxLen} /\ Good(text)
        /\ i = 1 /\ enc = <<>> /\ j = 1 /\ dec = <<>>
Write == /\ i <= Len(text) /\ i' = i + 1
         /\ enc' = enc \o (IF Lite THEN LiteSymbol(text, i) ELSE Symbol(text, i))
         /\ UNCHANGED <<text, j, dec>>
(* may the second machine look at position j + 1 yet? *)
Ready == j < Len(enc) \/ (i > Len(text) /\ j <= Len(enc))
SignOf(v) == IF v = A THEN <<>> ELSE <<Signs[SignTab[v]][2]>>
ReadFull ==
  LET c == enc[j]  n == At(enc, j + 1)  p == At(enc, j - 1) IN
  IF c = Inside THEN <<<<>>, 1>>
  ELSE IF IsCons(c) THEN <<IF IsCons(n) \/ Gap(n) THEN <<c, Virama>> ELSE <<c>>, 1>>
  ELSE IF Vowel(c) THEN (IF n = Inside THEN <<<<c>>, 2>> ELSE IF Gap(p) THEN <<<<c>>, 1>> ELSE <<SignOf(c), 1>>)
  ELSE <<<<c>>, 1>>
ReadLite ==
  LET c == enc[j]  n == At(enc, j + 1) IN
  IF IsCons(c) THEN (IF IsCons(n) \/ Gap(n) THEN <<<<c, Virama>>, 1>> ELSE IF n = A THEN <<<<c>>, 2>> ELSE <<<<c>>, 1>>)
  ELSE <<<<c>>, 1>>
Read == /\ Ready
        /\ LET r == IF Lite THEN ReadLite ELSE ReadFull IN j' = j + r[2] /\ dec' = dec \o r[1]
        /\ UNCHANGED <<text, i, enc>>
Next == Write \/ Read
Spec == Init /\ [][Next]_vars
Done == i > Len(text) /\ j > Len(enc)
Refines == i > Len(text) => enc = IF Lite THEN LiteExplicit(text) ELSE Explicit(text)
Restored == Done => dec = text
(* nothing is implied any more *)
NoVirama == \A k \in DOMAIN enc : enc[k] # Virama
NoSigns  == Lite \/ \A k \in DOMAIN enc : ~ Sign(enc[k])
ExportDone == (Export /\ Done) => PrintT("BEHAVIOUR " \o ToJson([text |-> text]))
=============================================================================
