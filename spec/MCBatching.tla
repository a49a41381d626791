----------------------------- MODULE MCBatching -----------------------------
(* Packing of records (given by the lengths of their two sides) into         *)
(* batches: in any order, or in order of size.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxRecs, MaxLen, MaxToks, Sents, Export
VARIABLES recs, toks, sents, mode, left, batch, done, phase
vars == <<recs, toks, sents, mode, left, batch, done, phase>>
Max2(a, b) == IF a > b THEN a ELSE b
Size(i)   == Max2(recs[i].x, recs[i].y)
Usable(i) == recs[i].x > 0 /\ recs[i].y > 0
Lens == [x : 0..MaxLen, y : 0..MaxLen]
Code(r) == r.x * (MaxLen + 1) + r.y
Init == /\ \E n \in 1..MaxRecs : recs \in {s \in [1..n -> Lens] : \A i \in 1..(n-1) : Code(s[i]) <= Code(s[i + 1])}
        /\ toks \in 1..MaxToks /\ sents \in Sents /\ mode \in {"all", "eq"}
        /\ left = DOMAIN recs /\ batch = {} /\ done = <<>> /\ phase = "run"
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
Longest(b) == IF b = {} THEN 0 ELSE SetMax({Size(i) : i \in b})
Fits(b, i) == (Cardinality(b) + 1) * Max2(Longest(b), Size(i)) <= toks /\ Cardinality(b) < sents
Skip == \E i \in left : ~ Usable(i) /\ left' = left \ {i} /\ UNCHANGED <<recs, toks, sents, mode, batch, done, phase>>
Take == \E i \in left :
          /\ Usable(i)
          /\ mode = "eq" => \A j \in left : Usable(j) => Size(i) <= Size(j)
          /\ IF Fits(batch, i) THEN batch' = batch \cup {i} /\ left' = left \ {i} /\ UNCHANGED <<done, phase>>
             ELSE IF Size(i) > toks THEN phase' = "error" /\ UNCHANGED <<batch, left, done>>
             ELSE done' = Append(done, batch) /\ batch' = {i} /\ left' = left \ {i} /\ UNCHANGED phase
          /\ UNCHANGED <<recs, toks, sents, mode>>
End == /\ left = {} /\ phase = "run"
       /\ done' = (IF batch = {} THEN done ELSE Append(done, batch)) /\ batch' = {} /\ phase' = "done"
       /\ UNCHANGED <<recs, toks, sents, mode, left>>
Next == phase = "run" /\ (Skip \/ Take \/ End)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

NonEmpty == \A k \in DOMAIN done : done[k] # {}
Within   == \A k \in DOMAIN done : Cardinality(done[k]) * Longest(done[k]) <= toks /\ Cardinality(done[k]) <= sents
Once     == \A a, b \in DOMAIN done : a # b => done[a] \cap done[b] = {}
Whole    == phase = "done" => UNION {done[k] : k \in DOMAIN done} = {i \in DOMAIN recs : Usable(i)}
Error    == phase = "error" => \E i \in DOMAIN recs : Usable(i) /\ Size(i) > toks
Raises   == phase = "done"  => \A i \in DOMAIN recs : Usable(i) => Size(i) <= toks
Ranges   == mode = "eq" => \A a, b \in DOMAIN done : a < b => \A i \in done[a], j \in done[b] : Size(i) <= Size(j)
Ends == <>(phase \in {"done", "error"})
ExportDone == (Export /\ phase \in {"done", "error"}) =>
                PrintT("BEHAVIOUR " \o ToJson([recs |-> recs, toks |-> toks, sents |-> sents, mode |-> mode, phase |-> phase]))
=============================================================================
