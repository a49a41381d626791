----------------------------- MODULE MCSegment -----------------------------
(* Refinement: the trie walk with one remembered data node (the design of    *)
(* the segmenter) produces the leftmost-longest segmentation, for every      *)
(* vocabulary and text within the bounds.                                    *)
EXTENDS Segment, TLC, Json
CONSTANTS Alpha, MaxPiece, MaxVocab, MaxText, Export

PiecesAll == UNION {[1..n -> Alpha] : n \in 1..MaxPiece}
TextsAll  == UNION {[1..n -> Alpha] : n \in 0..MaxText}
Vocabs    == UNION {kSubset(k, PiecesAll) : k \in 0..MaxVocab}

TriePaths(P) == UNION {{SubSeq(p, 1, n) : n \in 0..Len(p)} : p \in P}

VARIABLES P, text, seq, node, idx, data, dataIdx, out
vars == <<P, text, seq, node, idx, data, dataIdx, out>>

(* node: the path from the root; data: path of the last data node, or <<>>   *)
Init == /\ P \in Vocabs
        /\ text \in TextsAll
        /\ seq = text
        /\ node = <<>> /\ idx = 0 /\ data = <<>> /\ dataIdx = 0 /\ out = <<>>

HasData == node \in P
Grow == /\ idx < Len(seq)
        /\ Append(node, seq[idx + 1]) \in TriePaths(P)
        /\ node' = Append(node, seq[idx + 1])
        /\ idx' = idx + 1
        /\ IF HasData THEN data' = node /\ dataIdx' = idx ELSE UNCHANGED <<data, dataIdx>>
        /\ UNCHANGED <<P, text, seq, out>>
Emit == /\ seq # <<>>
        /\ ~ (idx < Len(seq) /\ Append(node, seq[idx + 1]) \in TriePaths(P))
        /\ LET d == IF HasData THEN node ELSE data
               di == IF HasData THEN idx ELSE dataIdx
           IN IF d # <<>> THEN /\ out' = Append(out, d)
                               /\ seq' = SubSeq(seq, di + 1, Len(seq))
              ELSE /\ out' = Append(out, <<>>)
                   /\ seq' = Tail(seq)
        /\ node' = <<>> /\ idx' = 0 /\ data' = <<>> /\ dataIdx' = 0
        /\ UNCHANGED <<P, text>>
Next == Grow \/ Emit
Spec == Init /\ [][Next]_vars

Done == seq = <<>>
Refines == Done => out = SegmentSeq(P, text)
Progress == ~Done => ENABLED Next
(* everything emitted so far spells the consumed text, unknowns being one character *)
RECURSIVE Width(_)
Width(o) == IF o = <<>> THEN 0 ELSE (IF o[1] = <<>> THEN 1 ELSE Len(o[1])) + Width(Tail(o))
Spells == Width(out) + Len(seq) = Len(text)
ExportDone == (Export /\ Done /\ <<SpaceMark>> \in P /\ text # <<>> /\ text[Len(text)] = SpaceMark) =>
   PrintT("BEHAVIOUR " \o ToJson([vocab |-> SetToSeq(P), text |-> text, out |-> out]))
=============================================================================
