--------------------------- MODULE MCBatchTensor ---------------------------
(* Marker insertion step by step, first the begin then the end, each looking *)
(* at one end of the sequence only; every batch of up to MaxRows sequences.  *)
EXTENDS BatchTensor, TLC, Json
CONSTANTS MaxL, MaxRows, Export
VARIABLES batch, seqs, bos, eos, pos, step, phase
vars == <<batch, seqs, bos, eos, pos, step, phase>>
Meta == [pad |-> "0", bos |-> "1", eos |-> "2"]
Syms == {"1", "2", "9", "0"}
AllSeqs == UNION {[1..n -> Syms] : n \in 1..MaxL}
Init == /\ \E n \in 1..MaxRows : batch \in [1..n -> AllSeqs]
        /\ seqs = batch /\ bos \in BOOLEAN /\ eos \in BOOLEAN /\ pos = 1 /\ step = "bos" /\ phase = "run"
Bos == /\ phase = "run" /\ step = "bos"
       /\ IF ~ bos /\ seqs[pos][1] = Meta.bos THEN phase' = "refused" /\ UNCHANGED <<seqs, step>>
          ELSE /\ seqs' = [seqs EXCEPT ![pos] = IF bos /\ @[1] # Meta.bos THEN <<Meta.bos>> \o @ ELSE @]
               /\ step' = "eos" /\ UNCHANGED phase
       /\ UNCHANGED <<batch, bos, eos, pos>>
Eos == /\ phase = "run" /\ step = "eos"
       /\ IF ~ eos /\ seqs[pos][Len(seqs[pos])] = Meta.eos THEN phase' = "refused" /\ UNCHANGED <<seqs, step, pos>>
          ELSE /\ seqs' = [seqs EXCEPT ![pos] = IF eos /\ @[Len(@)] # Meta.eos THEN Append(@, Meta.eos) ELSE @]
               /\ step' = "bos" /\ pos' = pos + 1
               /\ phase' = IF pos = Len(batch) THEN "done" ELSE "run"
       /\ UNCHANGED <<batch, bos, eos>>
Next == Bos \/ Eos
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Imaged  == phase = "done" => \A i \in DOMAIN batch : seqs[i] = Image(batch[i], bos, eos, Meta)
Refused == phase = "refused" => \E i \in DOMAIN batch : Bad(batch[i], bos, eos, Meta)
Accepts == phase = "done" => \A i \in DOMAIN batch : ~ Bad(batch[i], bos, eos, Meta)
Again   == phase = "done" => \A i \in DOMAIN batch : ~ Bad(seqs[i], bos, eos, Meta) /\ Image(seqs[i], bos, eos, Meta) = seqs[i]
(* with masks, a row sees what the row alone, without padding, would see     *)
MaskFaithful == phase = "done" => \A i \in DOMAIN batch :
    LET row == Padded(seqs[i], MaxLen(seqs), Meta.pad) IN
    \A p, q \in DOMAIN row :
        /\ q > Len(seqs[i]) => MaskOf(row, Meta.pad)[p][q] = 0
        /\ (q <= p /\ q <= Len(seqs[i]) /\ seqs[i][q] # Meta.pad) => MaskOf(row, Meta.pad)[p][q] = 1
Ends == <>(phase \in {"done", "refused"})
ExportDone == (Export /\ phase \in {"done", "refused"}) =>
    PrintT("BEHAVIOUR " \o ToJson([batch |-> batch, bos |-> bos, eos |-> eos, phase |-> phase,
              masks |-> IF phase = "done" THEN [i \in DOMAIN seqs |-> MaskOf(Padded(seqs[i], MaxLen(seqs), Meta.pad), Meta.pad)] ELSE <<>>,
              rows |-> IF phase = "done" THEN [i \in DOMAIN seqs |-> Padded(seqs[i], MaxLen(seqs), Meta.pad)] ELSE <<>>]))
=============================================================================
