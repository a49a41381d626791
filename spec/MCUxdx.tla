------------------------------- MODULE MCUxdx -------------------------------
(* A transducer that reads one symbol at a time and remembers only whether   *)
(* the last one was a consonant refines Expand; another that drops markers   *)
(* refines Contract.  Every text is exported.                                *)
EXTENDS Uxdx, Json
CONSTANTS Syms, MaxLen, Export, Consume
MCSyms == {2324, 2325, 2361, 2364, 2381, 2392, 2400, 8942}
VARIABLES text, i, last, out, back
vars == <<text, i, last, out, back>>
Init == text \in UNION {[1..n -> Syms] : n \in 0..MaxLen} /\ i = 0 /\ last = FALSE /\ out = <<>> /\ back = <<>>
Step == /\ i < Len(text) /\ i' = i + 1
        /\ LET c == text[i + 1]
               k == Consonant(c)
               m == last /\ k
           IN /\ out' = IF m THEN out \o <<Marker, c>> ELSE Append(out, c)
              /\ last' = IF Consume /\ m THEN FALSE ELSE k   \* the mistake: a pair uses both of its consonants up
              /\ back' = IF c = Marker THEN back ELSE Append(back, c)
        /\ UNCHANGED text
Spec == Init /\ [][Step]_vars
Done == i = Len(text)
Refines == out = Expand(SubSeq(text, 1, i)) /\ back = Contract(SubSeq(text, 1, i))
Reversible == Done => Contract(out) = back
NoMarker == (Done /\ \A j \in DOMAIN text : text[j] # Marker) => Contract(out) = text
Separated == Done => \A j \in 1..Len(out) - 1 : ~(Consonant(out[j]) /\ Consonant(out[j + 1]))
Idempotent == Done => Expand(out) = out
ExportDone == (Export /\ Done) => PrintT("BEHAVIOUR " \o ToJson([text |-> text]))
=============================================================================
