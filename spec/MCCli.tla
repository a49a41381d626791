------------------------------- MODULE MCCli -------------------------------
(* encode | decode: two processes and a pipe of bounded size between them.   *)
(* Lines are of a kind: empty, blank, known, unknown.  The last line of the  *)
(* input may lack its line end.  Each filter reads a line, writes a line.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxN, Cap, Export, SkipBlank
VARIABLES input, ended, pos, pipe, eof, out, phase
vars == <<input, ended, pos, pipe, eof, out, phase>>
Kinds == {"empty", "blank", "known", "unknown"}
Enc(k) == IF k = "blank" THEN "empty" ELSE k            \* nothing but white space: an empty sequence
Dec(k) == k
Init == /\ input \in UNION {[1..n -> Kinds] : n \in 0..MaxN}
        /\ ended \in (IF input # <<>> /\ input[Len(input)] = "empty" THEN {TRUE} ELSE BOOLEAN)
        /\ pos = 0 /\ pipe = <<>> /\ eof = FALSE /\ out = <<>> /\ phase = "run"
Encode == /\ phase = "run" /\ pos < Len(input) /\ Len(pipe) < Cap
          /\ pos' = pos + 1
          /\ pipe' = IF SkipBlank /\ Enc(input[pos + 1]) = "empty" THEN pipe ELSE Append(pipe, Enc(input[pos + 1]))
          /\ UNCHANGED <<input, ended, eof, out, phase>>
Close == /\ phase = "run" /\ pos = Len(input) /\ ~eof /\ eof' = TRUE
         /\ UNCHANGED <<input, ended, pos, pipe, out, phase>>
Decode == /\ phase = "run" /\ pipe # <<>>
          /\ out' = Append(out, Dec(Head(pipe))) /\ pipe' = Tail(pipe)
          /\ UNCHANGED <<input, ended, pos, eof, phase>>
Finish == /\ phase = "run" /\ eof /\ pipe = <<>> /\ phase' = "done"
          /\ UNCHANGED <<input, ended, pos, pipe, eof, out>>
Next == Encode \/ Close \/ Decode \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
InOrder == Len(out) + Len(pipe) <= Len(input) /\ \A i \in DOMAIN out : out[i] = Enc(input[i])
OneEach == phase = "done" => Len(out) = Len(input)
Ends == <>(phase = "done")
ExportDone == (Export /\ phase = "done") => PrintT("BEHAVIOUR " \o ToJson([input |-> input, ended |-> ended, out |-> out]))
=============================================================================
