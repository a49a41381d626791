---------------------------- MODULE MCMultiPart ----------------------------
(* The directory of a multi-part database, at the level of file operations.  *)
(* An attempt writes generation g (its parts 0..np-1): clear the directory   *)
(* if asked to, then for each part a data and a meta file, then the flag     *)
(* with the manifest.  A crash may come at every step, and leaves files      *)
(* torn.  FlagFirst: the flag of the old data goes before anything else.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxParts, MaxAtt, FlagFirst, Crashes, Export
VARIABLES fs,      \* files: name -> [g, torn, parts]
          dir,     \* does the directory exist
          pc, g, np, ow,
          committed,  \* generation that is complete by a returned attempt, 0: none
          hist        \* what happened: sequence of [np, ow, ended]
vars == <<fs, dir, pc, g, np, ow, committed, hist>>

P(k) == <<"p", k>>
M(k) == <<"m", k>>
F    == <<"f", 0>>
Names == {P(k) : k \in 0..MaxParts-1} \cup {M(k) : k \in 0..MaxParts-1} \cup {F}
Put(n, c) == fs' = [x \in DOMAIN fs \cup {n} |-> IF x = n THEN c ELSE fs[x]]
Del(n)    == fs' = [x \in DOMAIN fs \ {n} |-> fs[x]]
File(torn, parts) == [g |-> g, torn |-> torn, parts |-> parts]

Init == /\ fs = << >> /\ dir = FALSE /\ pc = "idle" /\ g = 0 /\ np = 0 /\ ow = FALSE
        /\ committed = 0 /\ hist = <<>>

Begin == /\ pc = "idle" /\ Len(hist) < MaxAtt
         /\ \E n \in 1..MaxParts, o \in BOOLEAN :
              /\ np' = n /\ ow' = o /\ g' = g + 1
              /\ IF DOMAIN fs = {} THEN pc' = "mkdir" /\ hist' = hist
                 ELSE IF ~ o THEN pc' = "idle" /\ hist' = Append(hist, [np |-> n, ow |-> o, ended |-> "refused"])
                 ELSE pc' = (IF FlagFirst /\ F \in DOMAIN fs THEN "unflag" ELSE "rmtree") /\ hist' = hist
         /\ UNCHANGED <<fs, dir, committed>>
Unflag == pc = "unflag" /\ Del(F) /\ pc' = "rmtree" /\ UNCHANGED <<dir, g, np, ow, committed, hist>>
Rmtree == /\ pc = "rmtree"
          /\ IF DOMAIN fs = {} THEN dir' = FALSE /\ pc' = "mkdir" /\ fs' = fs
             ELSE (\E n \in DOMAIN fs : Del(n)) /\ UNCHANGED <<dir, pc>>
          /\ UNCHANGED <<g, np, ow, committed, hist>>
Mkdir == pc = "mkdir" /\ dir' = TRUE /\ pc' = "write" /\ UNCHANGED <<fs, g, np, ow, committed, hist>>
Complete(n) == n \in DOMAIN fs /\ fs[n].g = g /\ ~ fs[n].torn
(* parts may be written side by side (spark) and in any order                *)
WritePart == /\ pc = "write"
             /\ \E k \in 0..np-1 :
                  \/ ~ Complete(P(k)) /\ P(k) \notin DOMAIN fs /\ Put(P(k), File(TRUE, {}))
                  \/ P(k) \in DOMAIN fs /\ fs[P(k)].torn /\ Put(P(k), File(FALSE, {}))
                  \/ Complete(P(k)) /\ M(k) \notin DOMAIN fs /\ Put(M(k), File(TRUE, {}))
                  \/ M(k) \in DOMAIN fs /\ fs[M(k)].torn /\ Put(M(k), File(FALSE, {}))
             /\ UNCHANGED <<dir, pc, g, np, ow, committed, hist>>
Close == /\ pc = "write" /\ \A k \in 0..np-1 : Complete(M(k))
         /\ Put(F, File(TRUE, {}))
         /\ pc' = "flag" /\ UNCHANGED <<dir, g, np, ow, committed, hist>>
Flag == /\ pc = "flag"
        /\ Put(F, File(FALSE, {k \in 0..MaxParts-1 : M(k) \in DOMAIN fs}))
        /\ pc' = "idle" /\ committed' = g /\ hist' = Append(hist, [np |-> np, ow |-> ow, ended |-> "returned"])
        /\ UNCHANGED <<dir, g, np, ow>>
(* the generation a load sees: 0 refused, -1 a mixture or a part             *)
Loads == IF F \notin DOMAIN fs \/ fs[F].torn THEN 0
         ELSE LET ps == {P(k) : k \in fs[F].parts}
              IN IF \E n \in ps : n \notin DOMAIN fs \/ fs[n].torn \/ fs[n].g # fs[F].g THEN -1 ELSE fs[F].g
Crash == /\ Crashes /\ pc # "idle"
         /\ pc' = "idle" /\ committed' = (IF Loads = 0 THEN 0 ELSE committed)
         /\ hist' = Append(hist, [np |-> np, ow |-> ow, ended |-> "crashed"])
         /\ UNCHANGED <<fs, dir, g, np, ow>>
Next == Begin \/ Unflag \/ Rmtree \/ Mkdir \/ WritePart \/ Close \/ Flag \/ Crash
Spec == Init /\ [][Next]_vars /\ WF_vars(Begin \/ Unflag \/ Rmtree \/ Mkdir \/ WritePart \/ Close \/ Flag)

NeverPartial  == Loads # -1
OnlyOldOrNew  == Loads \in {0, committed, g}
Durable       == (pc = "idle" /\ hist # <<>> /\ hist[Len(hist)].ended = "returned") => Loads = g
Untouched     == (pc = "idle" /\ hist # <<>> /\ hist[Len(hist)].ended = "refused") => Loads = committed
WholeManifest == Loads > 0 => \A n \in DOMAIN fs : (n[1] = "p" /\ fs[n].g = Loads) => n[2] \in fs[F].parts
Ends == <>[](pc = "idle" /\ Len(hist) = MaxAtt)
ExportDone == (Export /\ pc = "idle" /\ Len(hist) = MaxAtt) => PrintT("BEHAVIOUR " \o ToJson([hist |-> hist]))
=============================================================================
