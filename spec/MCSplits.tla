------------------------------ MODULE MCSplits ------------------------------
(* The stochastic split as a machine with a work stack: the top piece is     *)
(* either emitted or, if it has parts, replaced by them (the coin).  For     *)
(* every merge table and every outcome of the coins the result is an         *)
(* expansion; all expansions are reachable; ratio 0 and 1 fix the coin.      *)
(* Exports every run with the coins tossed.                                  *)
EXTENDS Splits, Json
CONSTANTS Leaves, Merges, Export

RECURSIVE TablesOf(_)
TablesOf(n) == IF n = Leaves THEN {[i \in 1..Leaves |-> <<>>]}
               ELSE {Append(t, <<a, b>>) : t \in TablesOf(n - 1), a, b \in 0..n - 2}
Tables == TablesOf(Leaves + Merges)
VARIABLES kids, start, stack, out, coins
vars == <<kids, start, stack, out, coins>>
Init == /\ kids \in Tables
        /\ start = <<Leaves + Merges - 1>>       \* the last piece
        /\ stack = start /\ out = <<>> /\ coins = <<>>
Top == stack[1]
Emit == /\ stack # <<>>
        /\ out' = Append(out, Top) /\ stack' = Tail(stack)
        /\ coins' = IF kids[Top + 1] # <<>> THEN Append(coins, 0) ELSE coins
        /\ UNCHANGED <<kids, start>>
Split == /\ stack # <<>> /\ kids[Top + 1] # <<>>
         /\ stack' = kids[Top + 1] \o Tail(stack)
         /\ coins' = Append(coins, 1)
         /\ UNCHANGED <<kids, start, out>>
Next == Emit \/ Split
Spec == Init /\ [][Next]_vars
Done == stack = <<>>
Valid == Done => SplitOf(kids, start, out)
Member == Done => out \in Expansions(kids, start[1])
(* changed in one place, a split is recognised exactly if it still is one     *)
Decides == Done => \A i \in DOMAIN out, t \in 0..Leaves + Merges - 1 :
             LET x == [out EXCEPT ![i] = t] IN SplitOf(kids, start, x) <=> x \in Expansions(kids, start[1])
AllHeads == (Done /\ \A i \in DOMAIN coins : coins[i] = 1) => out = Full(kids, start[1])
AllTails == (Done /\ \A i \in DOMAIN coins : coins[i] = 0) => out = start
LeafLen(s) == Len(Flat([i \in DOMAIN s |-> Full(kids, s[i])]))
Preserved == LeafLen(out \o stack) = LeafLen(start)
(* the summary of chains says what Expansions says: all sequences of rows *)
ChainKids(n, flipped) == [i \in 1..n |-> IF i = 1 THEN <<>> ELSE IF flipped THEN <<0, i - 2>> ELSE <<i - 2, 0>>]
ASSUME \A n \in 1..5, flipped \in BOOLEAN : \A k \in 0..n : \A w \in [1..k -> 0..n - 1] :
         ChainSplit(0, n - 1, w, flipped) <=> w \in Expansions(ChainKids(n, flipped), n - 1)
ExportDone == (Export /\ Done) => PrintT("BEHAVIOUR " \o ToJson([kids |-> kids, coins |-> coins, out |-> out]))
=============================================================================
