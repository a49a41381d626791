------------------------------- MODULE MCLinks ------------------------------
(* Two link fields per node, updated as deletion does, refine the sequence.  *)
EXTENDS Containers, Json
CONSTANTS MaxLen, MaxOps, Export, OneSided

VARIABLES left, right, abs, hist
vars == <<left, right, abs, hist>>
Init == \E n \in 0..MaxLen :
          /\ abs = ListInit([i \in 1..n |-> i])
          /\ left = [i \in 1..n |-> i - 1]
          /\ right = [i \in 1..n |-> IF i < n THEN i + 1 ELSE 0]
          /\ hist = <<[op |-> "new", n |-> n, unlink |-> FALSE]>>
(* a node is not deleted again after it kept its links *)
Delete == /\ Len(hist) <= MaxOps
          /\ \E n \in DOMAIN left, u \in BOOLEAN :
               /\ n \in Live(abs) \/ abs.kept[n] = NoLinks
               /\ LET x == left[n]
                      y == right[n]
                      r1 == IF x # 0 THEN [right EXCEPT ![x] = y] ELSE right
                      l1 == IF y # 0 /\ ~OneSided THEN [left EXCEPT ![y] = x] ELSE left
                  IN /\ right' = IF u THEN [r1 EXCEPT ![n] = 0] ELSE r1
                     /\ left' = IF u THEN [l1 EXCEPT ![n] = 0] ELSE l1
               /\ abs' = ListDelete(abs, n, u)
               /\ hist' = Append(hist, [op |-> "delete", n |-> n, unlink |-> u])
Spec == Init /\ [][Delete]_vars
Refines == \A n \in DOMAIN left : left[n] = LinksOf(abs, n).l /\ right[n] = LinksOf(abs, n).r
Mirror  == \A n \in Live(abs) : /\ left[n] # 0 => right[left[n]] = n
                                /\ right[n] # 0 => left[right[n]] = n
ExportDone == (Export /\ Len(hist) > 1) => PrintT("BEHAVIOUR " \o ToJson([kind |-> "list", hist |-> hist]))
=============================================================================
