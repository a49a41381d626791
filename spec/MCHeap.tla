------------------------------- MODULE MCHeap -------------------------------
(* A binary heap in an array, one exchange per step, refines the bag: while  *)
(* no operation is under way the root is a largest item.  Every history of   *)
(* operations is exported with the priorities it must give.                  *)
EXTENDS Containers, Json
CONSTANTS Nodes, Prios, MaxOps, Export, Lazy

VARIABLES arr, bag, hist, todo
vars == <<arr, bag, hist, todo>>
Done == [op |-> "none", i |-> 0]

Init == /\ \E n \in 0..1 : \E f \in [1..n -> [n : Nodes, p : Prios]] : arr = f
        /\ bag = arr /\ hist = <<[op |-> "new", items |-> arr]>> /\ todo = Done

Swap(a, i, j) == [a EXCEPT ![i] = a[j], ![j] = a[i]]
Push == /\ todo = Done /\ Len(hist) <= MaxOps
        /\ \E n \in Nodes, p \in Prios :
             /\ arr' = Append(arr, [n |-> n, p |-> p]) /\ bag' = Pushed(bag, n, p)
             /\ hist' = Append(hist, [op |-> "push", n |-> n, p |-> p])
        /\ todo' = [op |-> "up", i |-> Len(arr) + 1]
Up ==   /\ todo.op = "up"
        /\ LET i == todo.i
               j == i \div 2
           IN IF i > 1 /\ arr[j].p < arr[i].p
              THEN arr' = Swap(arr, i, j) /\ todo' = [op |-> "up", i |-> j]
              ELSE todo' = Done /\ UNCHANGED arr
        /\ UNCHANGED <<bag, hist>>
Pop ==  /\ todo = Done /\ Len(hist) <= MaxOps /\ arr # <<>>
        /\ Holds(bag, arr[1].n, arr[1].p)
        /\ bag' = Taken(bag, arr[1].n, arr[1].p)
        /\ hist' = Append(hist, [op |-> "pop", n |-> 0, p |-> arr[1].p])
        /\ LET m == Len(arr)
           IN arr' = IF m = 1 THEN <<>> ELSE SubSeq([arr EXCEPT ![1] = arr[m]], 1, m - 1)
        /\ todo' = IF Lazy THEN Done ELSE [op |-> "down", i |-> 1]
Down == /\ todo.op = "down"
        /\ LET i == todo.i
               kids == {k \in {2 * i, 2 * i + 1} : k <= Len(arr) /\ arr[k].p > arr[i].p}
           IN IF kids # {}
              THEN LET k == CHOOSE k \in kids : \A j \in kids : arr[j].p <= arr[k].p
                   IN arr' = Swap(arr, i, k) /\ todo' = [op |-> "down", i |-> k]
              ELSE todo' = Done /\ UNCHANGED arr
        /\ UNCHANGED <<bag, hist>>
Next == Push \/ Up \/ Pop \/ Down
Spec == Init /\ [][Next]_vars

Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag == \A x \in [n : Nodes, p : Prios] : Count(arr, x) = Count(bag, x)
TopIsLargest == (todo = Done /\ arr # <<>>) => Largest(bag, arr[1].p)
HeapOrder == todo = Done => \A i \in 2..Len(arr) : arr[i \div 2].p >= arr[i].p
ExportDone == (Export /\ todo = Done /\ Len(hist) = MaxOps + 1) => PrintT("BEHAVIOUR " \o ToJson([kind |-> "heap", hist |-> hist]))
=============================================================================
