------------------------------ MODULE MCBitext ------------------------------
(* Both sides are split into partitions of their own, lines are numbered by  *)
(* partition offset, joined by number, encoded, filtered and cut; workers    *)
(* write their partitions, some of them empty, in any order.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxN, MaxLen, NParts, Export
VARIABLES xs, ys, scut, tcut, trunc, sl, tl, place, written, phase
vars == <<xs, ys, scut, tcut, trunc, sl, tl, place, written, phase>>
(* a line is <<side, number, length>>                                        *)
N == Len(xs)
Min2(a, b) == IF a < b THEN a ELSE b
Init == /\ \E n \in 1..MaxN : xs \in [1..n -> 0..MaxLen] /\ ys \in [1..n -> 0..MaxLen]
        /\ scut \in 0..Len(xs) /\ tcut \in 0..Len(xs)
        /\ trunc \in BOOLEAN /\ sl \in 1..MaxLen /\ tl \in 1..MaxLen
        /\ place = << >> /\ written = {} /\ phase = "join"
(* zipWithIndex: partition 1 has lines 1..cut, partition 2 the rest          *)
Number(cut, part, pos) == IF part = 1 THEN pos ELSE cut + pos
Lines(cut, n) == {<<1, p>> : p \in 1..cut} \cup {<<2, p>> : p \in 1..(n - cut)}
Joined == {<<a, b>> \in Lines(scut, N) \X Lines(tcut, N) : Number(scut, a[1], a[2]) = Number(tcut, b[1], b[2])}
SrcLine(a) == Number(scut, a[1], a[2])
TgtLine(b) == Number(tcut, b[1], b[2])
Keep(i) == xs[i] > 0 /\ ys[i] > 0 /\ (trunc \/ (xs[i] <= sl /\ ys[i] <= tl))
Rec(ab) == LET i == SrcLine(ab[1])  j == TgtLine(ab[2]) IN
           [src |-> i, tgt |-> j, lx |-> IF trunc THEN Min2(xs[i], sl) ELSE xs[i], ly |-> IF trunc THEN Min2(ys[j], tl) ELSE ys[j]]
Recs == {Rec(ab) : ab \in {p \in Joined : Keep(SrcLine(p[1]))}}
Place == /\ phase = "join"
         /\ place' \in [Recs -> 1..NParts]
         /\ phase' = "write" /\ UNCHANGED <<xs, ys, scut, tcut, trunc, sl, tl, written>>
Write == /\ phase = "write"
         /\ IF \A p \in 1..NParts : p \in {w[1] : w \in written} THEN phase' = "done" /\ UNCHANGED written
            ELSE /\ \E p \in 1..NParts : p \notin {w[1] : w \in written} /\
                      written' = written \cup {<<p, {r \in DOMAIN place : place[r] = p}>>}
                 /\ UNCHANGED phase
         /\ UNCHANGED <<xs, ys, scut, tcut, trunc, sl, tl, place>>
Next == Place \/ Write
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
All == UNION {w[2] : w \in written}
Paired == \A r \in All : r.src = r.tgt
Whole  == phase = "done" => {r.src : r \in All} = {i \in 1..N : Keep(i)} /\ Cardinality(All) = Cardinality({i \in 1..N : Keep(i)})
OneEach == \A a, b \in written : a # b => a[2] \cap b[2] = {}
Limits == \A r \in All : r.lx \in 1..sl /\ r.ly \in 1..tl
Ends == <>(phase = "done")
ExportDone == (Export /\ phase = "done" /\ N = 1) =>
   PrintT("BEHAVIOUR " \o ToJson([lx |-> xs[1], ly |-> ys[1], trunc |-> trunc, sl |-> sl, tl |-> tl,
            out |-> {<<r.lx, r.ly>> : r \in All}]))
=============================================================================
