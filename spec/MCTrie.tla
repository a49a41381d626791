------------------------------- MODULE MCTrie -------------------------------
(* Nodes with a table of children and a parent, created one step at a time   *)
(* along a key, refine the prefix-closed set of keys.                        *)
EXTENDS Containers, Json
CONSTANTS Syms, MaxKey, MaxOps, Export, Careless

VARIABLES kids, parent, abs, hist, walk
vars == <<kids, parent, abs, hist, walk>>
Idle == [at |-> 0, rest |-> <<>>, create |-> FALSE, put |-> -1]
Keys == UNION {[1..n -> Syms] : n \in 0..MaxKey}
(* node 1 is the root; kids[n] is a set of <<symbol, node>> *)
Init == /\ kids = <<{}>> /\ parent = <<0>> /\ abs = [TrieInit EXCEPT !.data = [x \in {} |-> 0]]
        /\ hist = <<[op |-> "new", key |-> <<>>, create |-> FALSE, put |-> -1]>> /\ walk = Idle
Start == /\ walk = Idle /\ Len(hist) <= MaxOps
         /\ \E k \in Keys, c \in BOOLEAN, p \in {-2, -1, 0, 1} :
              /\ walk' = [at |-> 1, rest |-> k, create |-> c, put |-> p]
              /\ hist' = Append(hist, [op |-> "get", key |-> k, create |-> c, put |-> p])
         /\ UNCHANGED <<kids, parent, abs>>
Child(n, s) == IF \E x \in kids[n] : x[1] = s THEN (CHOOSE x \in kids[n] : x[1] = s)[2] ELSE 0
Event == [create |-> walk.create, key |-> hist[Len(hist)].key, put |-> walk.put]
Step == /\ walk # Idle /\ walk.rest # <<>>
        /\ LET s == Head(walk.rest)
               c == Child(walk.at, s)
           IN IF c # 0
              THEN walk' = [walk EXCEPT !.at = c, !.rest = Tail(@)] /\ UNCHANGED <<kids, parent, abs>>
              ELSE IF walk.create \/ Careless
              THEN /\ kids' = Append([kids EXCEPT ![walk.at] = @ \union {<<s, Len(kids) + 1>>}], {})
                   /\ parent' = Append(parent, walk.at)
                   /\ walk' = [walk EXCEPT !.at = Len(kids) + 1, !.rest = Tail(@)]
                   /\ UNCHANGED abs
              ELSE walk' = Idle /\ UNCHANGED <<kids, parent, abs>>
        /\ UNCHANGED hist
Arrive == /\ walk # Idle /\ walk.rest = <<>> /\ walk' = Idle
          /\ abs' = TrieApply(abs, [outcome |-> "ok"] @@ Event)
          /\ UNCHANGED <<kids, parent, hist>>
Next == Start \/ Step \/ Arrive
Spec == Init /\ [][Next]_vars

RECURSIVE PathOf(_)
PathOf(n) == IF n = 1 THEN <<>> ELSE Append(PathOf(parent[n]), (CHOOSE x \in kids[parent[n]] : x[2] = n)[1])
Refines == walk = Idle => {PathOf(n) : n \in DOMAIN kids} = abs.nodes /\ Cardinality(abs.nodes) = Len(kids)
Closed  == \A k \in abs.nodes : PathsTo(k) \subseteq abs.nodes
DataHasNode == DOMAIN abs.data \subseteq abs.nodes
ExportDone == (Export /\ walk = Idle /\ Len(hist) = MaxOps + 1) => PrintT("BEHAVIOUR " \o ToJson([kind |-> "trie", hist |-> hist]))
=============================================================================
