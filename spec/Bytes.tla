------------------------------- MODULE Bytes -------------------------------
(* UTF-8 and the byte codec: encoding, and a total decoder that replaces     *)
(* what is not valid (one replacement per maximal invalid part) and shows    *)
(* the two sequence markers as themselves.                                   *)
EXTENDS Text

Utf8Char(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Utf8(text) == Flat([i \in DOMAIN text |-> Utf8Char(text[i])])

Replacement == 65533
Need(b) == IF b \in 194..223 THEN 2 ELSE IF b \in 224..239 THEN 3 ELSE IF b \in 240..244 THEN 4 ELSE 0
Cont(b, k, x) ==        \* may x be byte number k (from 2) after lead b?
  IF k > 2 THEN x \in 128..191
  ELSE CASE b = 224 -> x \in 160..191
         [] b = 237 -> x \in 128..159
         [] b = 240 -> x \in 144..191
         [] b = 244 -> x \in 128..143
         [] OTHER   -> x \in 128..191
Lead(b, n) == IF n = 2 THEN b - 192 ELSE IF n = 3 THEN b - 224 ELSE b - 240

(* one step of decoding s at position i: <<code point, next position>>        *)
RECURSIVE Run(_, _, _, _)
Run(s, i, n, k) ==      \* how many of the n bytes of the character at i are good, k known to be
  IF k < n /\ i + k <= Len(s) /\ Cont(s[i], k + 1, s[i + k]) THEN Run(s, i, n, k + 1) ELSE k
Step(s, i) ==
  LET b == s[i]  n == Need(b) IN
  IF b < 128 THEN <<b, i + 1>>
  ELSE IF n = 0 THEN <<Replacement, i + 1>>
  ELSE LET k == Run(s, i, n, 1) IN
       IF k < n THEN <<Replacement, i + k>>
       ELSE <<FoldLeft(LAMBDA a, j : a * 64 + (s[i + j] - 128), Lead(b, n), [j \in 1..n - 1 |-> j]), i + n>>
DecodeBytes(s) ==
  FoldLeft(LAMBDA a, i : IF i < a.next THEN a
                         ELSE LET r == Step(s, i) IN [out |-> Append(a.out, r[1]), next |-> r[2]],
           [out |-> <<>>, next |-> 1], [i \in 1..Len(s) |-> i]).out

BOS == 256
EOS == 257
MarkText(x) == IF x = BOS THEN <<60,115,62>> ELSE <<60,47,115,62>>

(* ids: bytes and the two markers *)
DecodeIds(ids) ==
  LET step(a, x) == IF x >= 256 THEN [out |-> a.out \o DecodeBytes(a.buf) \o MarkText(x), buf |-> <<>>]
                    ELSE [out |-> a.out, buf |-> Append(a.buf, x)]
      z == FoldLeft(step, [out |-> <<>>, buf |-> <<>>], ids)
  IN z.out \o DecodeBytes(z.buf)

BytesInit(case) == [n |-> 0]
BytesFault(st, e) ==
  CASE e.op = "encode" ->
         IF e.ids # Utf8(e.text) THEN "the ids are the UTF-8 bytes"
         ELSE IF e.dec # e.text THEN "decoding gives exactly the text back"
         ELSE IF e.dec_str # e.text THEN "decoding the pieces gives exactly the text back"
         ELSE ""
    [] e.op = "decode" ->
         IF e.outcome # "ok" THEN "the decoder is total"
         ELSE IF e.text # DecodeIds(e.ids) THEN "valid runs decode, invalid bytes are replaced, markers appear as themselves"
         ELSE ""
    [] OTHER -> "unknown event"
BytesApply(st, e) == [st EXCEPT !.n = @ + 1]
=============================================================================
