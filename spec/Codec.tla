------------------------------- MODULE Codec -------------------------------
(* Word, character and BPE codecs between lines, pieces and ids.             *)
EXTENDS Segment

UnkName == <<60,117,110,107,62>>

(* the symbols a line is made of *)
Symbols(scheme, line) ==
  IF scheme = "word" THEN Words(line) ELSE Singles(Join(Words(line), SpaceMark))

Spelled(scheme, pieces) ==      \* what a sequence of pieces means as text
  IF scheme = "word" THEN Join(pieces, Blank)
  ELSE LET t == Replace(Flat(pieces), SpaceMark, Blank) IN IF scheme = "bpe" THEN Strip(t) ELSE t

CodecInit(case) == [scheme |-> case.scheme, names |-> case.names, P |-> Pieces(case.names)]

(* the text with every unknown symbol replaced by the unknown token           *)
Expected(st, line) ==
  LET sy == Symbols(st.scheme, line)
      r  == [i \in DOMAIN sy |-> IF sy[i] \in st.P \/ sy[i] = <<SpaceMark>> THEN sy[i] ELSE UnkName]
  IN Spelled(st.scheme, r)
(* BPE: an unknown character may still be covered by a longer piece; those    *)
(* texts are decided by Segment, the others character by character            *)
Decided(st, line) ==
  st.scheme = "bpe" =>
    \A i \in DOMAIN line : \/ IsSpace(line[i]) \/ <<line[i]>> \in st.P
                           \/ \A p \in st.P : \A k \in DOMAIN p : p[k] # line[i]
Clean(line) == \A i \in DOMAIN line : line[i] # SpaceMark
Known(st, line) == LET sy == Symbols(st.scheme, line)
                   IN \A i \in DOMAIN sy : sy[i] \in st.P \/ sy[i] = <<SpaceMark>>

CodecFault(st, e) ==
  LET nm(i) == IF e.ids[i] < 0 \/ e.ids[i] >= Len(st.names) THEN <<>> ELSE st.names[e.ids[i] + 1]
      sy    == Symbols(st.scheme, e.text)
  IN CASE e.op = "code" ->
        IF Len(e.ids) # Len(e.pieces) \/
           \E i \in DOMAIN e.ids : nm(i) # (IF e.pieces[i] \in st.P THEN e.pieces[i] ELSE UnkName)
             THEN "ids and pieces describe the same sequence"
        ELSE IF st.scheme # "bpe" /\ (Len(e.ids) # Len(sy) \/
                \E i \in DOMAIN sy : nm(i) # (IF sy[i] \in st.P THEN sy[i] ELSE UnkName))
             THEN "one id per word or character, the unknown token for an unknown one"
        ELSE IF Clean(e.text) /\ Known(st, e.text) /\ e.dec_ids # Normal(e.text)
             THEN "decoding the ids gives the line back"
        ELSE IF Clean(e.text) /\ Known(st, e.text) /\ e.dec_pieces # Normal(e.text)
             THEN "decoding the pieces gives the line back"
        ELSE IF Clean(e.text) /\ Decided(st, e.text) /\ e.dec_ids # Expected(st, e.text)
             THEN "unknown symbols do not disturb their neighbours"
        ELSE ""
       [] OTHER -> "unknown event"
CodecApply(st, e) == st
=============================================================================
