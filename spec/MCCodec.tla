------------------------------ MODULE MCCodec ------------------------------
(* Encoding then decoding over every small vocabulary and line: the encoder  *)
(* and decoder of each scheme satisfy the round-trip clauses of Codec.       *)
(* Exports lines with what has to come back.                                 *)
EXTENDS Codec, TLC, Json
CONSTANTS Chars, Spaces, MaxLine, Export

Lines == UNION {[1..n -> Chars \cup Spaces] : n \in 0..MaxLine}
Letter == <<97>>
VocabsOf(scheme) ==
  CASE scheme = "word" -> SUBSET {<<97>>, <<97, 97>>, <<98>>, <<97, 98>>}
    [] scheme = "char" -> SUBSET {<<97>>, <<98>>}
    [] OTHER -> SUBSET {<<97>>, <<98>>, <<97, 98>>, <<97, SpaceMark>>, <<98, SpaceMark, 97>>}
Res == << <<60,112,97,100,62>>, UnkName, <<60,115,62>>, <<60,47,115,62>>, <<60,99,108,115,62>>, <<SpaceMark>> >>

VARIABLES scheme, V, line, phase, pieces, back
vars == <<scheme, V, line, phase, pieces, back>>
Names == Res \o SetToSeq(V)
Init == /\ scheme \in {"word", "char", "bpe"} /\ V \in VocabsOf(scheme) /\ line \in Lines
        /\ phase = "line" /\ pieces = <<>> /\ back = <<>>
Encode == /\ phase = "line" /\ phase' = "pieces"
          /\ pieces' = IF scheme = "bpe" THEN Segment(Names, line)
                       ELSE [i \in DOMAIN Symbols(scheme, line) |->
                              IF Symbols(scheme, line)[i] \in Pieces(Names) THEN Symbols(scheme, line)[i] ELSE UnkName]
          /\ UNCHANGED <<scheme, V, line, back>>
Decode == /\ phase = "pieces" /\ phase' = "done" /\ back' = Spelled(scheme, pieces) /\ UNCHANGED <<scheme, V, line, pieces>>
Next == Encode \/ Decode
Spec == Init /\ [][Next]_vars
St == CodecInit([scheme |-> scheme, names |-> Names])
RoundTrip == (phase = "done" /\ Known(St, line)) => back = Normal(line)
Undisturbed == (phase = "done" /\ Decided(St, line)) => back = Expected(St, line)
ExportDone == (Export /\ phase = "done") =>
   PrintT("BEHAVIOUR " \o ToJson([scheme |-> scheme, names |-> SetToSeq(V), line |-> line, back |-> back]))
=============================================================================
