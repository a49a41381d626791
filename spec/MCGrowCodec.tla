---------------------------- MODULE MCGrowCodec ----------------------------
(* The prefix tree of the codec grows with every merge: the path of the new  *)
(* piece is walked, missing nodes are made, and the last one gets the piece. *)
(* After every merge the tree segments every text as the cut table does.     *)
(* The mistake: a node that exists already is left as it is.                 *)
EXTENDS GrowCodec, TLC, Json
CONSTANTS Merges, MaxText, Keep, Export
VARIABLES names, merges, nodes, data, todo, path
vars == <<names, merges, nodes, data, todo, path>>
Leaves == <<<<SpaceMark>>, <<97>>, <<98>>>>        \* rows 5, 6, 7 of the table
Texts == UNION {[1..k -> {97, 98, 113}] : k \in 0..MaxText}

Init == /\ names = Leaves /\ merges = <<>>
        /\ nodes = {<<>>} \cup {Leaves[i] : i \in DOMAIN Leaves} /\ data = {Leaves[i] : i \in DOMAIN Leaves}
        /\ todo = <<>> /\ path = <<>>
Merge == /\ todo = <<>> /\ Len(merges) < Merges
         /\ \E a, b \in DOMAIN names :
              /\ merges' = Append(merges, <<a + 4, b + 4>>) /\ names' = Append(names, names[a] \o names[b])
              /\ todo' = names[a] \o names[b]
         /\ path' = <<>> /\ UNCHANGED <<nodes, data>>
Grow == /\ todo # <<>>
        /\ path' = Append(path, todo[1]) /\ todo' = Tail(todo)
        /\ LET q == Append(path, todo[1])  new == q \notin nodes
           IN /\ nodes' = nodes \cup {q}
              /\ data' = IF Len(todo) = 1 /\ (new \/ ~ Keep) THEN data \cup {q} ELSE data
        /\ UNCHANGED <<names, merges>>
Next == Merge \/ Grow
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* the walk down the tree *)
Reach(s) == {k \in 1..Len(s) : \A j \in 1..k : SubSeq(s, 1, j) \in nodes}
RECURSIVE Walk(_)
Walk(s) == IF s = <<>> THEN <<>>
           ELSE LET D == {k \in Reach(s) : SubSeq(s, 1, k) \in data}
                    n == CHOOSE k \in D : \A j \in D : j <= k
                IN IF D = {} THEN <<<<>>>> \o Walk(Tail(s)) ELSE <<SubSeq(s, 1, n)>> \o Walk(SubSeq(s, n + 1, Len(s)))
Settled == todo = <<>>
TreeIsTable == Settled => data = Pieces(names)
SameSegments == Settled => \A t \in Texts : Walk(BpeText(t)) = SegmentSeq(Pieces(names), BpeText(t))
Ends == <>[](Settled /\ Len(merges) = Merges)
ExportDone == (Export /\ Settled /\ Len(merges) = Merges) =>
   PrintT("BEHAVIOUR " \o ToJson([merges |-> merges, names |-> names,
     outs |-> [k \in 0..Merges |-> [i \in DOMAIN SetToSeq(Texts) |->
                 [t |-> SetToSeq(Texts)[i], out |-> SegmentSeq({names[j] : j \in 1..(3 + k)}, BpeText(SetToSeq(Texts)[i]))]]]]))
=============================================================================
