---------------------------- MODULE MCEvalStats ----------------------------
(* Reports made in one pass: sentence pairs come one at a time, per-n-gram   *)
(* hits and totals are collected, ratios are averaged at the end.            *)
EXTENDS EvalStats, Json
CONSTANTS Syms, MaxLen, MaxPairs, MaxNg, Export, Swap
VARIABLES refs, cands, n, pos, recs, precs, reff, candf
vars == <<refs, cands, n, pos, recs, precs, reff, candf>>
Sents == UNION {[1..k -> Syms] : k \in 0..MaxLen}
Init == /\ \E m \in 1..MaxPairs : refs \in [1..m -> Sents] /\ cands \in [1..m -> Sents]
        /\ n \in 1..MaxNg
        /\ pos = 0 /\ recs = << >> /\ precs = << >> /\ reff = << >> /\ candf = << >>
Get(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
(* every n-gram of A gets one more hit ratio and its frequency                *)
Ratio(m, A, B) == LET T == GramSet(<<A>>, n) IN
   [g \in DOMAIN m \cup T |-> IF g \notin T THEN m[g] ELSE
        LET a == CountIn(Grams(A, n), g)  b == CountIn(Grams(B, n), g)
            den == IF Swap /\ b > 0 THEN b ELSE a
        IN Append(Get(m, g, <<>>), <<Min2(a, b), den>>)]
Freq(m, A) == LET T == GramSet(<<A>>, n) IN [g \in DOMAIN m \cup T |-> Get(m, g, 0) + CountIn(Grams(A, n), g)]
Next == /\ pos < Len(refs) /\ pos' = pos + 1
        /\ recs' = Ratio(recs, refs[pos + 1], cands[pos + 1]) /\ precs' = Ratio(precs, cands[pos + 1], refs[pos + 1])
        /\ reff' = Freq(reff, refs[pos + 1]) /\ candf' = Freq(candf, cands[pos + 1])
        /\ UNCHANGED <<refs, cands, n>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == pos = Len(refs)
MeanOf(rs) == [num |-> Sum([i \in DOMAIN rs |-> rs[i][1] * (Base \div rs[i][2])]), den |-> Base * Len(rs), any |-> TRUE]
RecallExact == Done => /\ DOMAIN recs = GramSet(refs, n) /\ \A g \in DOMAIN recs : MeanOf(recs[g]) = MeanHit(refs, cands, n, g)
PrecExact   == Done => /\ DOMAIN precs = GramSet(cands, n) /\ \A g \in DOMAIN precs : MeanOf(precs[g]) = MeanHit(cands, refs, n, g)
FreqExact   == Done => (\A g \in DOMAIN reff : reff[g] = FreqOr(refs, n, g)) /\ (\A g \in DOMAIN candf : candf[g] = FreqOr(cands, n, g))
Mass        == Done => Sum([k \in DOMAIN refs |-> Len(Grams(refs[k], n))]) = FoldSet(LAMBDA g, z : z + reff[g], 0, DOMAIN reff)
UnitR       == \A g \in DOMAIN recs : MeanOf(recs[g]).num \in 0..MeanOf(recs[g]).den
SameIsOne   == (Done /\ refs = cands) => \A g \in DOMAIN recs : MeanOf(recs[g]).num = MeanOf(recs[g]).den
Ends == <>Done
ExportDone == (Export /\ Done) =>
  PrintT("BEHAVIOUR " \o ToJson([refs |-> refs, cands |-> cands, n |-> n,
     recs |-> {<<g, MeanOf(recs[g]).num, MeanOf(recs[g]).den>> : g \in DOMAIN recs},
     precs |-> {<<g, MeanOf(precs[g]).num, MeanOf(precs[g]).den>> : g \in DOMAIN precs},
     reff |-> {<<g, reff[g]>> : g \in DOMAIN reff}, candf |-> {<<g, candf[g]>> : g \in DOMAIN candf}]))
=============================================================================
