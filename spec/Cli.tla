-------------------------------- MODULE Cli --------------------------------
(* The command line as a filter: n lines in, the n images out, in order.     *)
(* The header has the lines and what the library makes of each of them.      *)
EXTENDS Codec

Digit(n) == <<48 + n>>
RECURSIVE Digits(_)
Digits(n) == IF n < 0 THEN <<45>> \o Digits(-n) ELSE IF n < 10 THEN Digit(n) ELSE Digits(n \div 10) \o Digit(n % 10)

Coded(lib, mode) == IF mode = "ids" THEN Join([k \in DOMAIN lib.ids |-> Digits(lib.ids[k])], Blank)
                    ELSE Join(lib.pieces, Blank)
Decoded(lib, mode) == IF mode = "ids" THEN lib.backi ELSE lib.backp

CliInit(case) == [scheme |-> case.scheme, names |-> case.names, P |-> Pieces(case.names), lines |-> case.lines, lib |-> case.lib,
                  model |-> case.model]

(* what piping has to give back *)
Exact(st, i, mode) ==
  CASE st.scheme = "byte" -> TRUE
    [] st.scheme = "class" -> (mode = "ids" \/ Len(Words(st.lines[i])) = 1) /\ Strip(st.lines[i]) \in st.P
    [] OTHER -> Clean(st.lines[i]) /\ Known(st, st.lines[i])
Same(st, i) == CASE st.scheme = "byte" -> st.lines[i] [] st.scheme = "class" -> Strip(st.lines[i]) [] OTHER -> Normal(st.lines[i])

CliFault(st, e) ==
  CASE e.op = "learn" -> IF e.outcome # "ok" THEN "learning through the command line completes"
                         ELSE IF e.model # st.model THEN "the command line learns the model of the library"
                         ELSE ""
    [] e.op = "stream" -> IF e.ids # e.wantids \/ e.pieces # e.wantpieces THEN "each line, without its line break, is encoded as it is"
                          ELSE IF e.backi # e.wantbacki \/ e.backp # e.wantbackp THEN "each line is the decoding of the library"
                          ELSE ""
    [] e.outcome # "ok" -> "the command line accepts any lines"
    [] Len(e.out) # (IF e.op = "decode" THEN Len(e.want) ELSE Len(st.lines)) -> "one output line per input line"
    [] ~e.ended /\ e.out # <<>> -> "every output line is ended"
    [] e.op = "encode" -> IF \E i \in DOMAIN e.out : e.out[i] # Coded(st.lib[i], e.mode)
                          THEN "each line is the encoding of the library" ELSE ""
    [] e.op = "decode" -> IF \E i \in DOMAIN e.out : e.out[i] # e.want[i]
                          THEN "each line is the decoding of the library" ELSE ""
    [] e.op = "pipe"   -> IF \E i \in DOMAIN e.out : e.out[i] # Decoded(st.lib[i], e.mode)
                          THEN "each line is the decoding of the library"
                          ELSE IF \E i \in DOMAIN e.out : Exact(st, i, e.mode) /\ e.out[i] # Same(st, i)
                          THEN "encoding piped into decoding gives the text back"
                          ELSE ""
    [] OTHER -> "unknown event"
CliApply(st, e) == st
=============================================================================
