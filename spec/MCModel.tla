------------------------------ MODULE MCModel ------------------------------
(* Model files under damage: deleting, swapping, duplicating a line or       *)
(* redirecting a part of a row, up to MaxDamage times.  A reader that takes  *)
(* the lines one by one accepts exactly the acceptable files, and what it    *)
(* then holds has the right ids and only backward references.                *)
EXTENDS Model, TLC, Json, SequencesExt
CONSTANTS N, MaxDamage, Export

Kids(i) == {<<>>} \cup {<<a, b>> : a, b \in 0..(i - 2)}
Tables == {t \in [1..N -> UNION {Kids(i) : i \in 1..N}] : \A i \in 1..N : t[i] \in Kids(i)}
VARIABLES file, damage, ops, table, read, verdict
vars == <<file, damage, ops, table, read, verdict>>
Init == /\ table \in Tables
        /\ file = [i \in 1..N |-> [idx |-> i - 1, kids |-> table[i]]]
        /\ damage = 0 /\ ops = <<>> /\ read = 0 /\ verdict = "none"
Del(i)     == SubSeq(file, 1, i - 1) \o SubSeq(file, i + 1, Len(file))
Swap(i, j) == [file EXCEPT ![i] = file[j], ![j] = file[i]]
Dup(i)     == SubSeq(file, 1, i) \o SubSeq(file, i, Len(file))
Damage == /\ damage < MaxDamage /\ read = 0 /\ verdict = "none"
          /\ damage' = damage + 1
          /\ \/ \E i \in DOMAIN file : file' = Del(i) /\ ops' = Append(ops, <<"del", i, 0, 0>>)
             \/ \E i, j \in DOMAIN file : i < j /\ file' = Swap(i, j) /\ ops' = Append(ops, <<"swap", i, j, 0>>)
             \/ \E i \in DOMAIN file : file' = Dup(i) /\ ops' = Append(ops, <<"dup", i, 0, 0>>)
             \/ \E i \in DOMAIN file : file[i].kids # <<>> /\ \E k \in 1..2, v \in 0..N :
                  /\ file' = [file EXCEPT ![i].kids[k] = v] /\ ops' = Append(ops, <<"kid", i, k, v>>)
             \/ \E i \in DOMAIN file : file[i].kids # <<>> /\ \E v \in 0..N :
                  /\ file' = [file EXCEPT ![i].kids = <<v, v>>] /\ ops' = Append(ops, <<"kids", i, 0, v>>)
          /\ UNCHANGED <<table, read, verdict>>
(* the reader *)
ReadLine == /\ verdict = "none" /\ read < Len(file)
            /\ LET r == file[read + 1] IN
                 IF r.idx = read /\ \A k \in DOMAIN r.kids : r.kids[k] < r.idx
                 THEN read' = read + 1 /\ UNCHANGED verdict
                 ELSE verdict' = "rejected" /\ UNCHANGED read
            /\ UNCHANGED <<file, damage, ops, table>>
Finish == /\ verdict = "none" /\ read = Len(file) /\ verdict' = "loaded"
          /\ UNCHANGED <<file, damage, ops, table, read>>
Next == Damage \/ ReadLine \/ Finish
Spec == Init /\ [][Next]_vars
Exact == /\ verdict = "loaded" => Acceptable(file)
         /\ verdict = "rejected" => ~Acceptable(file)
UndamagedLoads == (verdict # "none" /\ damage = 0) => verdict = "loaded"
(* a file that lost a row in the middle, or has rows out of order, is never acceptable *)
MiddleMissing == (verdict = "loaded") => \A i \in DOMAIN file : file[i].idx = i - 1
ExportDone == (Export /\ verdict # "none") =>
   PrintT("BEHAVIOUR " \o ToJson([table |-> table, ops |-> ops, verdict |-> verdict]))
=============================================================================
