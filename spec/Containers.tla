----------------------------- MODULE Containers -----------------------------
(* The containers that learning and encoding are built from, as abstract     *)
(* data types: a priority queue is a bag, a linked list is a sequence of     *)
(* nodes with a set of detached ones, a trie is a prefix-closed set of keys. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

(* ---- priority queue: a bag of [n, p] ------------------------------------ *)
Pushed(b, n, p) == Append(b, [n |-> n, p |-> p])
Holds(b, n, p)  == \E i \in DOMAIN b : b[i].n = n /\ b[i].p = p
Largest(b, p)   == \A i \in DOMAIN b : b[i].p <= p
Taken(b, n, p)  == LET k == CHOOSE i \in DOMAIN b : b[i].n = n /\ b[i].p = p IN RemoveAt(b, k)

HeapFault(b, e) ==
  CASE e.op = "push" -> IF e.outcome = "ok" THEN "" ELSE "an item can be pushed"
    [] e.op = "len"  -> IF e.n = Len(b) THEN "" ELSE "the length of the heap is the number of items in it"
    [] e.op \in {"pop", "peek"} ->
         IF b = <<>> THEN IF e.outcome = "empty" THEN "" ELSE "an empty heap gives nothing"
         ELSE IF e.outcome # "ok" THEN "a heap that is not empty gives an item"
         ELSE IF ~Holds(b, e.n, e.p) THEN "the heap gives items that were put in, with their priority"
         ELSE IF ~Largest(b, e.p) THEN "the heap gives an item of the highest priority"
         ELSE ""
HeapApply(b, e) ==
  CASE e.op = "push" -> Pushed(b, e.n, e.p)
    [] e.op = "pop" /\ b # <<>> -> Taken(b, e.n, e.p)
    [] OTHER -> b

(* ---- doubly linked list ------------------------------------------------- *)
(* live: node numbers in order.  kept: links a node kept when it was taken   *)
(* out without being unlinked.  val: value by node.                          *)
NoLinks == [l |-> 0, r |-> 0]
LinksOf(s, n) ==
  IF \E i \in DOMAIN s.live : s.live[i] = n
  THEN LET i == CHOOSE i \in DOMAIN s.live : s.live[i] = n
       IN [l |-> IF i > 1 THEN s.live[i - 1] ELSE 0, r |-> IF i < Len(s.live) THEN s.live[i + 1] ELSE 0]
  ELSE s.kept[n]
ListInit(vals) == [live |-> [i \in 1..Len(vals) |-> i], vals |-> vals, kept |-> [i \in 1..Len(vals) |-> NoLinks]]
ListDelete(s, n, unlink) ==
  IF \E i \in DOMAIN s.live : s.live[i] = n
  THEN [s EXCEPT !.kept[n] = IF unlink THEN NoLinks ELSE LinksOf(s, n), !.live = SelectSeq(s.live, LAMBDA x : x # n)]
  ELSE s                                         \* it has no neighbours any more
ListSet(s, n, v) == [s EXCEPT !.vals[n] = v]
Live(s) == {s.live[i] : i \in DOMAIN s.live}

ListFault(s, e) ==
  IF e.op # "look" THEN IF e.outcome = "ok" THEN "" ELSE "nodes can be deleted and changed"
  ELSE IF \E n \in DOMAIN s.vals : e.nodes[n].val # s.vals[n] THEN "nodes keep their value"
  ELSE IF \E n \in DOMAIN s.vals : e.nodes[n].freq # e.freq \/ e.nodes[n].data # e.data THEN "nodes keep the frequency and data of their sequence"
  ELSE IF \E n \in Live(s) : e.nodes[n].l # LinksOf(s, n).l THEN "the left link of a remaining node is its left neighbour"
  ELSE IF \E n \in Live(s) : e.nodes[n].r # LinksOf(s, n).r THEN "the right link of a remaining node is its right neighbour"
  ELSE IF \E n \in DOMAIN s.vals : n \notin Live(s) /\ (e.nodes[n].l # s.kept[n].l \/ e.nodes[n].r # s.kept[n].r)
       THEN "a deleted node is detached, or keeps its links when told so"
  ELSE IF \E n \in DOMAIN s.vals : e.nodes[n].unl # (LinksOf(s, n) = NoLinks) THEN "a node is detached when it has no neighbours"
  ELSE IF \E n \in Live(s) : e.nodes[n].shown # [i \in DOMAIN s.live |-> s.vals[s.live[i]]] THEN "a node shows the list it is in"
  ELSE ""
ListApply(s, e) ==
  CASE e.op = "delete" -> ListDelete(s, e.n, e.unlink)
    [] e.op = "setval" -> ListSet(s, e.n, e.v)
    [] OTHER -> s

(* ---- trie: nodes is a prefix-closed set of keys, data a function on some -- *)
TrieInit == [nodes |-> {<<>>}, data |-> << >>]
PathsTo(k) == {SubSeq(k, 1, i) : i \in 0..Len(k)}
Under(s, k) == {n \in s.nodes : Len(n) >= Len(k) /\ SubSeq(n, 1, Len(k)) = k}
Sized(s, k)   == Cardinality(Under(s, k))
Counted(s, k) == Cardinality({n \in DOMAIN s.data : n \in Under(s, k)})
KidsOf(s, k)  == Cardinality({n \in s.nodes : Len(n) = Len(k) + 1 /\ SubSeq(n, 1, Len(k)) = k})
DataAt(s, k)  == IF k \in DOMAIN s.data THEN s.data[k] ELSE -1
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
With(f, k, v) == [x \in DOMAIN f \union {k} |-> IF x = k THEN v ELSE f[x]]

Grown(s, e) == IF e.create THEN [s EXCEPT !.nodes = @ \union PathsTo(e.key)] ELSE s
TrieFault(s, e) ==
  LET t == Grown(s, e)
  IN CASE e.key \notin t.nodes -> IF e.outcome = "missing" THEN "" ELSE "a key that was not inserted is not found"
       [] e.outcome # "ok" -> "an inserted key is found"
       [] e.path # e.key -> "the node found is the one of the key"
       [] e.data # DataAt(t, e.key) \/ e.has # (e.key \in DOMAIN t.data) -> "the last data stored under a key is found"
       [] e.kids # KidsOf(t, e.key) -> "number of children"
       [] e.size # Sized(t, e.key) -> "the size is the number of nodes"
       [] e.count # Counted(t, e.key) -> "number of nodes with data"
       [] e.total # Sized(t, <<>>) \/ e.totalcount # Counted(t, <<>>) -> "size of the whole trie"
       [] OTHER -> ""
TrieApply(s, e) ==
  LET t == Grown(s, e)
  IN IF e.outcome # "ok" THEN t
     ELSE IF e.put >= 0 THEN [t EXCEPT !.data = With(@, e.key, e.put)]
     ELSE IF e.put = -2 THEN [t EXCEPT !.data = Without(@, e.key)]
     ELSE t

(* ---- traces ------------------------------------------------------------- *)
CoInit(c) == [kind |-> c.kind,
              s |-> CASE c.kind = "heap" -> c.items
                      [] c.kind = "list" -> ListInit(c.vals)
                      [] c.kind = "trie" -> TrieInit]
CoFault(st, e) == CASE st.kind = "heap" -> HeapFault(st.s, e)
                    [] st.kind = "list" -> ListFault(st.s, e)
                    [] st.kind = "trie" -> TrieFault(st.s, e)
CoApply(st, e) == [st EXCEPT !.s = CASE st.kind = "heap" -> HeapApply(@, e)
                                     [] st.kind = "list" -> ListApply(@, e)
                                     [] st.kind = "trie" -> TrieApply(@, e)]
=============================================================================
