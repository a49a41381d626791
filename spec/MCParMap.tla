------------------------------ MODULE MCParMap ------------------------------
(* A pool of workers taking chunks in order from a queue, finishing them in  *)
(* any order; results are held back until their chunk is next.  The output   *)
(* is always a prefix of the sequential one, and complete in the end; with a *)
(* failing item the failure is delivered at the place of its chunk.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Items, Workers, Chunk, Export

NChunks == (Items + Chunk - 1) \div Chunk
ItemsOf(k) == [i \in 1..(IF k = NChunks THEN Items - (k - 1) * Chunk ELSE Chunk) |-> (k - 1) * Chunk + i]
VARIABLES fail,       \* the failing item, 0 if none
          taken, running, finished, order, out, raised
vars == <<fail, taken, running, finished, order, out, raised>>
Init == /\ fail \in 0..Items
        /\ taken = 0 /\ running = {} /\ finished = {} /\ order = <<>> /\ out = <<>> /\ raised = FALSE
Take == /\ taken < NChunks /\ Cardinality(running) < Workers
        /\ taken' = taken + 1 /\ running' = running \cup {taken + 1}
        /\ UNCHANGED <<fail, finished, order, out, raised>>
Finish(k) == /\ k \in running
             /\ running' = running \ {k} /\ finished' = finished \cup {k} /\ order' = Append(order, k)
             /\ UNCHANGED <<fail, taken, out, raised>>
NextChunk == 1 + (Len(out) \div Chunk)
HasFail(k) == fail \in {ItemsOf(k)[i] : i \in DOMAIN ItemsOf(k)}
Yield == /\ ~raised /\ Len(out) < Items /\ NextChunk \in finished
         /\ IF HasFail(NextChunk)
            THEN raised' = TRUE /\ UNCHANGED out
            ELSE out' = out \o ItemsOf(NextChunk) /\ UNCHANGED raised
         /\ UNCHANGED <<fail, taken, running, finished, order>>
Next == Take \/ Yield \/ \E k \in running : Finish(k)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == raised \/ Len(out) = Items
PrefixInOrder == out = [i \in 1..Len(out) |-> i]
FailureSurfaces == [](Len(out) < fail \/ fail = 0)
Completes == <>Done
AllFinished == Cardinality(finished) = NChunks
ExportOrder == (Export /\ AllFinished /\ Done /\ fail \in {0, 2}) =>
                  PrintT("BEHAVIOUR " \o ToJson([order |-> order, fail |-> fail, out |-> out]))
=============================================================================
