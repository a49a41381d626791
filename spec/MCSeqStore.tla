----------------------------- MODULE MCSeqStore -----------------------------
(* The builder of one field: appended sequences gather in a buffer, which is *)
(* packed into the frozen array, in the smallest integer type that holds all *)
(* values, whenever it has Buf or more elements, and at the end.  Casting to *)
(* a type wraps.  Types scaled down: 0..1, -1..0, 0..3, -2..1, 0..7, -4..3.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Codes, MaxRecs, MaxLen, Bufs, Export
VARIABLES puts, bufsz, buffer, frozen, ftype, refs, phase
vars == <<puts, bufsz, buffer, frozen, ftype, refs, phase>>

Vals == {c - 3 : c \in Codes}     \* a cfg file has no negative numbers
Types == << <<0, 1>>, <<-1, 0>>, <<0, 3>>, <<-2, 1>>, <<0, 7>>, <<-4, 3>> >>
Fits(t, mn, mx) == t[1] <= mn /\ mx <= t[2]
None == <<0, -1>>
Best(mn, mx) == IF \E i \in DOMAIN Types : Fits(Types[i], mn, mx)
                THEN Types[CHOOSE i \in DOMAIN Types : Fits(Types[i], mn, mx) /\ \A j \in 1..(i-1) : ~ Fits(Types[j], mn, mx)]
                ELSE None
Cast(v, t) == IF t = None THEN v ELSE LET size == t[2] - t[1] + 1 IN t[1] + ((v - t[1]) % size)
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
RangeOf(s) == {s[i] : i \in DOMAIN s}

Seqs == UNION {[1..n -> Vals] : n \in 0..MaxLen}
Init == /\ puts = <<>> /\ buffer = <<>> /\ frozen = <<>> /\ ftype = <<-1, 0>> /\ refs = <<>>
        /\ bufsz \in Bufs /\ phase = "open"

Pack(f, b) == LET all == RangeOf(f) \cup RangeOf(b)
                  t   == Best(SetMin(all), SetMax(all))
              IN [t |-> t, data |-> [i \in 1..(Len(f) + Len(b)) |-> Cast((f \o b)[i], t)]]

Append1 == /\ phase = "open" /\ Len(puts) < MaxRecs
           /\ \E s \in Seqs :
                LET b == buffer \o s IN
                /\ puts' = Append(puts, s)
                /\ refs' = Append(refs, <<Len(frozen) + Len(buffer), Len(s)>>)
                /\ IF Len(b) >= bufsz /\ b # <<>>
                   THEN LET p == Pack(frozen, b) IN
                        IF p.t = None THEN phase' = "refused" /\ UNCHANGED <<frozen, ftype>> /\ buffer' = b
                        ELSE frozen' = p.data /\ ftype' = p.t /\ buffer' = <<>> /\ phase' = "open"
                   ELSE buffer' = b /\ UNCHANGED <<frozen, ftype, phase>>
           /\ UNCHANGED bufsz
Build == /\ phase = "open" /\ puts # <<>>
         /\ IF buffer = <<>> THEN phase' = "built" /\ UNCHANGED <<frozen, ftype, buffer>>
            ELSE LET p == Pack(frozen, buffer) IN
                 IF p.t = None THEN phase' = "refused" /\ UNCHANGED <<frozen, ftype, buffer>>
                 ELSE frozen' = p.data /\ ftype' = p.t /\ buffer' = <<>> /\ phase' = "built"
         /\ UNCHANGED <<puts, bufsz, refs>>
Next == Append1 \/ Build
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

All == frozen \o buffer
Get(i) == SubSeq(All, refs[i][1] + 1, refs[i][1] + refs[i][2])
Exact == phase # "refused" => \A i \in DOMAIN puts : Get(i) = puts[i]
InType == \A i \in DOMAIN frozen : ftype[1] <= frozen[i] /\ frozen[i] <= ftype[2]
AllVals == UNION {RangeOf(puts[i]) : i \in DOMAIN puts}
(* refused only if no single type holds all values                           *)
RefusedRightly == (phase = "refused") =>  AllVals # {} /\ Best(SetMin(AllVals), SetMax(AllVals)) = None
BuiltRightly   == (phase = "built" /\ AllVals # {}) => Best(SetMin(AllVals), SetMax(AllVals)) # None
Ends == <>(phase \in {"built", "refused"})
ExportDone == (Export /\ phase \in {"built", "refused"}) =>
                 PrintT("BEHAVIOUR " \o ToJson([puts |-> puts, buf |-> bufsz, outcome |-> phase]))
=============================================================================
