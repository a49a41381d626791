----------------------------- MODULE MCSessions -----------------------------
(* Codecs that remember results, as an implementation may: a bounded memo,   *)
(* the oldest entry leaves.  Results live on a heap that the caller can      *)
(* write to.  With copies handed out and one memo per codec no call shows    *)
(* any of it; the two mistakes are refuted.                                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Codecs, Args, Steps, Cap, Alias, SharedMemo, Export
VARIABLES memo, heap, hist, held
vars == <<memo, heap, hist, held>>
(* memo: sequence of [key, at]; heap: sequence of values; held: address the caller got last (0: none) *)
Value(c, a) == <<c, a>>
Key(c, a) == IF SharedMemo THEN <<0, a>> ELSE <<c, a>>
Hit(k) == {i \in DOMAIN memo : memo[i].key = k}
Trim(m) == IF Len(m) > Cap THEN Tail(m) ELSE m

Init == memo = <<>> /\ heap = <<>> /\ hist = <<>> /\ held = 0
Call(c, a) ==
  LET k == Key(c, a)
  IN /\ Len(hist) < Steps
     /\ IF Hit(k) # {}
        THEN LET at == memo[CHOOSE i \in Hit(k) : TRUE].at
             IN /\ UNCHANGED memo
                /\ IF Alias THEN heap' = heap /\ held' = at ELSE heap' = Append(heap, heap[at]) /\ held' = Len(heap) + 1
                /\ hist' = Append(hist, [codec |-> c, arg |-> a, out |-> heap[at], clobber |-> FALSE])
        ELSE /\ IF Alias THEN heap' = Append(heap, Value(c, a)) /\ held' = Len(heap) + 1
                ELSE heap' = heap \o <<Value(c, a), Value(c, a)>> /\ held' = Len(heap) + 2
             /\ memo' = Trim(Append(memo, [key |-> k, at |-> Len(heap) + 1]))
             /\ hist' = Append(hist, [codec |-> c, arg |-> a, out |-> Value(c, a), clobber |-> FALSE])
Clobber ==
  /\ held # 0 /\ Len(hist) < Steps
  /\ heap' = [heap EXCEPT ![held] = <<"clobbered">>]
  /\ hist' = [hist EXCEPT ![Len(hist)].clobber = TRUE]
  /\ held' = 0 /\ UNCHANGED memo
Next == Clobber \/ \E c \in Codecs, a \in Args : Call(c, a)
Spec == Init /\ [][Next]_vars

Alone == \A i \in DOMAIN hist : hist[i].out = Value(hist[i].codec, hist[i].arg)
ExportDone == (Export /\ Len(hist) = Steps) =>
   PrintT("BEHAVIOUR " \o ToJson([h |-> [i \in DOMAIN hist |-> [c |-> hist[i].codec, a |-> hist[i].arg, clobber |-> hist[i].clobber]]]))
=============================================================================
