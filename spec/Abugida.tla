------------------------------- MODULE Abugida -------------------------------
(* Devanagari with explicit vowels: a consonant stands for itself alone, and *)
(* every vowel is written as such.  In Unicode text a bare consonant implies *)
(* the vowel a, a virama takes it away, a vowel sign replaces it.            *)
EXTENDS Integers, Sequences, SequencesExt, TLC
Virama  == 2381
A       == 2309                          \* the implied vowel
Inside  == 57344                         \* U+E000: the vowel before is a letter of its own
IsCons(c)  == c \in 2325..2361 \/ c \in 2392..2399
(* vowel letters and their signs *)
Signs == <<<<2310, 2366>>, <<2311, 2367>>, <<2312, 2368>>, <<2313, 2369>>, <<2314, 2370>>, <<2315, 2371>>, <<2400, 2372>>,
           <<2317, 2373>>, <<2318, 2374>>, <<2319, 2375>>, <<2320, 2376>>, <<2321, 2377>>, <<2322, 2378>>, <<2323, 2379>>,
           <<2324, 2380>>, <<2316, 2402>>, <<2401, 2403>>>>
LetterTab == [c \in {Signs[i][2] : i \in DOMAIN Signs} |-> (CHOOSE i \in DOMAIN Signs : Signs[i][2] = c)]
SignTab   == [c \in {Signs[i][1] : i \in DOMAIN Signs} |-> (CHOOSE i \in DOMAIN Signs : Signs[i][1] = c)]
Vowel(c)  == c = A \/ c \in DOMAIN SignTab
Sign(c)   == c \in DOMAIN LetterTab
Letter(c) == Signs[LetterTab[c]][1]
Gap(c)    == c \in {9, 10, 32}
At(s, i)  == IF i \in DOMAIN s THEN s[i] ELSE 32       \* beyond the ends there is space

(* text of which nothing is lost: a virama follows a consonant and precedes  *)
(* a consonant or the end of the word, and no word begins with a sign        *)
ViramasRegular(s) == \A i \in DOMAIN s : s[i] = Virama => IsCons(At(s, i - 1)) /\ (IsCons(At(s, i + 1)) \/ Gap(At(s, i + 1)))
Regular(s) == /\ ViramasRegular(s)
              /\ \A i \in DOMAIN s : (Sign(s[i]) => ~ Gap(At(s, i - 1))) /\ s[i] # Inside

Symbol(s, i) ==
  LET c == s[i] IN
  IF c = Virama THEN <<>>
  ELSE IF Vowel(c) THEN (IF Gap(At(s, i - 1)) THEN <<c>> ELSE <<c, Inside>>)
  ELSE IF IsCons(c) THEN (IF Sign(At(s, i + 1)) \/ At(s, i + 1) = Virama THEN <<c>> ELSE <<c, A>>)
  ELSE IF Sign(c) THEN <<Letter(c)>>
  ELSE <<c>>
Explicit(s) == FoldLeft(LAMBDA a, i : a \o Symbol(s, i), <<>>, [i \in 1..Len(s) |-> i])

(* the light variant leaves vowels as they are; the implied one appears only *)
(* where a consonant or the end of the word follows                          *)
LiteRegular(s) == ViramasRegular(s) /\ \A i \in DOMAIN s : IsCons(s[i]) => At(s, i + 1) # A
LiteSymbol(s, i) ==
  LET c == s[i]  n == At(s, i + 1) IN
  IF c = Virama THEN <<>>
  ELSE IF IsCons(c) /\ (IsCons(n) \/ Gap(n)) THEN <<c, A>>
  ELSE <<c>>
LiteExplicit(s) == FoldLeft(LAMBDA a, i : a \o LiteSymbol(s, i), <<>>, [i \in 1..Len(s) |-> i])

AbInit(c) == [x |-> 0]
AbFault(st, e) ==
  CASE e.outcome # "ok" -> "every text is transcribed"
    [] e.op = "explicit" /\ Regular(e.text) /\ e.out # Explicit(e.text) -> "consonants stand alone and every vowel is written"
    [] e.op = "back" /\ Regular(e.text) /\ e.out # e.text -> "transcribing back restores the text"
    [] e.op = "lite" /\ LiteRegular(e.text) /\ e.out # LiteExplicit(e.text) -> "the light transcription shows the implied vowels only"
    [] e.op = "liteback" /\ LiteRegular(e.text) /\ e.out # e.text -> "transcribing back restores the text"
    [] e.op = "tool" /\ Len(e.out) # Len(e.lines) -> "the line tool writes one line per line"
    [] e.op = "tool" /\ (\E i \in DOMAIN e.lines : Regular(e.lines[i]) /\ e.out[i] # IF e.decode THEN e.lines[i] ELSE Explicit(e.lines[i]))
         -> "the line tool writes the image of each line"
    [] OTHER -> ""
AbApply(st, e) == st
=============================================================================
