------------------------------ MODULE MCChance ------------------------------
(* Shuffling by random exchanges, block by block and then the blocks; every  *)
(* sequence of choices is one state, so that the choices behind an outcome   *)
(* can be counted.  Ways: "fy" (exchange with itself or an earlier one),     *)
(* "sattolo" (with an earlier one: not all orders come), "naive" (with any:  *)
(* all come, but not equally often), "once" (blocks keep their inner order). *)
EXTENDS Chance, TLCExt
CONSTANTS Way, Blocks
B22 == <<<<"a", "b">>, <<"c", "d">>>>
B3 == <<<<"a", "b", "c">>>>
B312 == <<<<"a", "b", "c">>, <<"d">>, <<"e", "f">>>>
VARIABLES seq, todo, choices
vars == <<seq, todo, choices>>
(* seq: blocks; todo: stack of <<block (0: the blocks themselves), position>> *)
Positions(n) == [i \in 1..(IF n > 1 THEN n - 1 ELSE 0) |-> n + 1 - i]
Todo == Flat([b \in DOMAIN Blocks |-> IF Way = "once" THEN <<>> ELSE [i \in DOMAIN Positions(Len(Blocks[b])) |-> <<b, Positions(Len(Blocks[b]))[i]>>]])
        \o [i \in DOMAIN Positions(Len(Blocks)) |-> <<0, Positions(Len(Blocks))[i]>>]
Swap(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
Partners(i, n) == CASE Way = "sattolo" -> 1..(i - 1) [] Way = "naive" -> 1..n [] OTHER -> 1..i

Init == seq = Blocks /\ todo = Todo /\ choices = <<>>
Next == /\ todo # <<>>
        /\ LET b == Head(todo)[1]  i == Head(todo)[2]
               s == IF b = 0 THEN seq ELSE seq[b]
           IN \E j \in Partners(i, Len(s)) :
                /\ seq' = IF b = 0 THEN Swap(s, i, j) ELSE [seq EXCEPT ![b] = Swap(s, i, j)]
                /\ choices' = Append(choices, j)
        /\ todo' = Tail(todo)
Spec == Init /\ [][Next]_vars

Out == Flat(seq)
Legal == Out \in Orders(Blocks)
(* one worker: counts the final states by outcome *)
Count == todo = <<>> =>
  LET m == TLCGet(11) IN TLCSet(11, IF Out \in DOMAIN m THEN [m EXCEPT ![Out] = @ + 1] ELSE m @@ (Out :> 1))
ASSUME TLCSet(11, [x \in {} |-> 0])
AllCome == DOMAIN TLCGet(11) = Orders(Blocks) /\ \A a, b \in DOMAIN TLCGet(11) : TLCGet(11)[a] = TLCGet(11)[b]

(* the weights of the expansions of a piece add up *)
RECURSIVE SumW(_, _, _, _)
SumW(kids, r, id, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN Weight(kids, r, id, x, 1) + SumW(kids, r, id, S \ {x})
Trees == {<<<<>>, <<>>, a, b, c>> : a \in (0..1) \X (0..1), b \in (0..2) \X (0..2), c \in (0..3) \X (0..3)}
ASSUME \A kids \in Trees, r \in 0..10 : \A id \in 2..4 : Inner(kids, id) <= 5 => SumW(kids, r, id, Expansions(kids, id)) = Pow(Inner(kids, id))
=============================================================================
