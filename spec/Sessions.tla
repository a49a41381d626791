------------------------------ MODULE Sessions ------------------------------
(* A process that learns, builds, loads and uses several codecs, in any      *)
(* order.  A codec is a value: what an operation yields is a function of the *)
(* codec's model, the operation and its argument -- the result it has in a   *)
(* process that has done nothing else -- whatever was done before, with this *)
(* codec or another one, and whatever the caller did to earlier results.     *)
(* Operations, arguments and results are opaque (rendered as strings).       *)
EXTENDS Naturals, Sequences

SessInit(case) == [refs |-> case.refs, tables |-> case.tables]
Alone(st, e) == {i \in DOMAIN st.refs : st.refs[i].codec = e.codec /\ st.refs[i].op = e.op /\ st.refs[i].arg = e.arg}

SessFault(st, e) ==
  CASE e.op = "table" ->
         IF e.out # st.tables[e.codec] THEN "a codec keeps its table" ELSE ""
    [] OTHER ->
         IF Alone(st, e) = {} THEN "unknown call"
         ELSE IF \E i \in Alone(st, e) : st.refs[i].out # e.out THEN "a result depends on the codec and the argument alone"
         ELSE IF e.argafter # e.arg THEN "arguments are left as they were"
         ELSE ""
SessApply(st, e) == st
=============================================================================
