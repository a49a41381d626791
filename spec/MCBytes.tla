------------------------------ MODULE MCBytes ------------------------------
(* The decoder as a machine that reads one id at a time, with a buffer of    *)
(* bytes that is flushed at a marker and at the end.  Refinement: its result *)
(* is DecodeIds.  Lossless: decoding an encoded text gives it back; markers  *)
(* put between characters do not disturb their neighbours.                   *)
EXTENDS Bytes, TLC, Json
CONSTANTS Ids, MaxIds, Chars, MaxText, Export

VARIABLES kind, input, text, pos, buf, out
vars == <<kind, input, text, pos, buf, out>>
Init == /\ pos = 1 /\ buf = <<>> /\ out = <<>>
        /\ \/ /\ kind = "ids" /\ text = <<>>
              /\ input \in UNION {[1..n -> Ids] : n \in 0..MaxIds}
           \/ /\ kind = "text"
              /\ text \in UNION {[1..n -> Chars] : n \in 0..MaxText}
              /\ input = Utf8(text)
Flush == out \o DecodeBytes(buf)
Read == /\ pos <= Len(input)
        /\ pos' = pos + 1
        /\ IF input[pos] >= 256
           THEN out' = Flush \o MarkText(input[pos]) /\ buf' = <<>>
           ELSE out' = out /\ buf' = Append(buf, input[pos])
        /\ UNCHANGED <<kind, input, text>>
End == /\ pos = Len(input) + 1
       /\ out' = Flush /\ buf' = <<>> /\ pos' = pos + 1
       /\ UNCHANGED <<kind, input, text>>
Next == Read \/ End
Spec == Init /\ [][Next]_vars
Done == pos = Len(input) + 2
Refines == Done => out = DecodeIds(input)
Lossless == (Done /\ kind = "text") => out = text
Valid == \A i \in DOMAIN out : out[i] \in 0..1114111 /\ out[i] \notin 55296..57343
(* a marker inside a text splits it into two texts that decode on their own   *)
Undisturbed == \A k \in 0..Len(input) :
   LET a == SubSeq(input, 1, k)  b == SubSeq(input, k + 1, Len(input))
   IN DecodeIds(a \o <<BOS>> \o b) = DecodeIds(a) \o MarkText(BOS) \o DecodeIds(b)
UndisturbedAtStart == pos = 1 => Undisturbed
ExportDone == (Export /\ Done) => PrintT("BEHAVIOUR " \o ToJson([ids |-> input, text |-> out]))
=============================================================================
