----------------------------- MODULE GrowCodec -----------------------------
(* A BPE codec that starts from the characters and is given the merges of    *)
(* its model one at a time.  After k merges it is the codec of the table cut *)
(* behind row n0 + k.                                                        *)
EXTENDS Codec

GrowInit(case) == [names |-> case.names, n0 |-> case.n0, done |-> 0]
Now(st)  == SubSeq(st.names, 1, st.n0 + st.done)
Left(st) == Len(st.names) - st.n0 - st.done
Upcoming(st) == [name |-> st.names[st.n0 + st.done + 1], idx |-> st.n0 + st.done]

GrowFault(st, e) ==
  CASE e.op = "merge" ->
         IF Left(st) = 0 THEN (IF e.outcome = "ok" THEN "no merge is left" ELSE "")
         ELSE IF e.outcome # "ok" THEN "the next merge is made"
         ELSE IF [name |-> e.name, idx |-> e.idx] # Upcoming(st) THEN "merges are made in the order of the model" ELSE ""
    [] e.op = "peek" ->
         IF Left(st) = 0 THEN "" ELSE IF [name |-> e.name, idx |-> e.idx] # Upcoming(st) THEN "the next merge is shown" ELSE ""
    [] e.op = "sizes" ->
         IF e.len # st.n0 + st.done \/ e.left # Left(st) \/ e.total # Len(st.names) THEN "types and merges left add up" ELSE ""
    [] e.op = "encode" ->
         LET names == Now(st)  exp == Segment(names, e.text)
         IN IF e.pieces # exp THEN "encodes as the model cut at its size"
            ELSE IF Len(e.ids) # Len(exp) \/ \E i \in DOMAIN e.ids : e.ids[i] \notin 0..(Len(names) - 1) \/ names[e.ids[i] + 1] # exp[i]
                 THEN "ids describe the segmentation"
            ELSE ""
    [] e.op = "decode" ->
         IF e.text # Spelled("bpe", [i \in DOMAIN e.ids |-> st.names[e.ids[i] + 1]]) THEN "decodes as the model cut at its size" ELSE ""
    [] OTHER -> "unknown event"
GrowApply(st, e) == IF e.op = "merge" /\ e.outcome = "ok" THEN [st EXCEPT !.done = @ + 1] ELSE st
=============================================================================
