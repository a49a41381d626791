----------------------------- MODULE MCTextFiles -----------------------------
(* Two files under writes and appends, then read by a machine that takes     *)
(* blocks of a few bytes, keeps what may be the beginning of a character and *)
(* hands out a line at every line feed.  It refines Shown, whatever the      *)
(* block size.  The mistake: carriage returns end lines as well.             *)
EXTENDS TextFiles, TLC, Json
CONSTANTS Bs, MaxLen, MaxWrites, Universal, Export
MCBs == {97, 13, 10, 195, 169}                       \* a, CR, LF, the two bytes of U+00E9
Contents == UNION {[1..n -> Bs] : n \in 0..MaxLen}
VARIABLES files, hist, phase, path, text, block, pos, held, cur, out
vars == <<files, hist, phase, path, text, block, pos, held, cur, out>>
Init == /\ files = [p \in 1..2 |-> Absent] /\ hist = <<>> /\ phase = "write"
        /\ path \in 1..2 /\ text \in BOOLEAN /\ block \in 1..2
        /\ pos = 0 /\ held = <<>> /\ cur = <<>> /\ out = <<>>
Write == /\ phase = "write" /\ Len(hist) < MaxWrites
         /\ \E p \in 1..2, c \in Contents, a \in BOOLEAN :
              /\ files' = [files EXCEPT ![p] = (IF a /\ @ # Absent THEN @ ELSE <<>>) \o c]
              /\ hist' = Append(hist, [path |-> p, chunk |-> c, append |-> a])
         /\ UNCHANGED <<phase, path, text, block, pos, held, cur, out>>
Open == /\ phase = "write" /\ files[path] # Absent /\ phase' = "read"
        /\ UNCHANGED <<files, hist, path, text, block, pos, held, cur, out>>
(* a byte that begins a character which the next byte may complete is held *)
Waiting(s) == s # <<>> /\ Need(s[Len(s)]) = 2
EndsLine(c) == c = LF \/ (Universal /\ c = 13)
Feed(a, c) == IF EndsLine(c) THEN [out |-> Append(a.out, Append(a.cur, c)), cur |-> <<>>]
              ELSE [a EXCEPT !.cur = Append(@, c)]
Block == /\ phase = "read" /\ pos < Len(files[path])
         /\ LET n == IF pos + block > Len(files[path]) THEN Len(files[path]) - pos ELSE block
                got == held \o SubSeq(files[path], pos + 1, pos + n)
                last == pos + n = Len(files[path])
                keep == IF text /\ ~last /\ Waiting(got) THEN 1 ELSE 0
                use == SubSeq(got, 1, Len(got) - keep)
                z == FoldLeft(Feed, [out |-> out, cur |-> cur], IF text THEN DecodeBytes(use) ELSE use)
            IN /\ pos' = pos + n /\ held' = SubSeq(got, Len(use) + 1, Len(got))
               /\ out' = z.out /\ cur' = z.cur
         /\ UNCHANGED <<files, hist, phase, path, text, block>>
Close == /\ phase = "read" /\ pos = Len(files[path])
         /\ phase' = "done" /\ out' = (IF cur = <<>> THEN out ELSE Append(out, cur)) /\ cur' = <<>>
         /\ UNCHANGED <<files, hist, path, text, block, pos, held>>
Next == Write \/ Open \/ Block \/ Close
Spec == Init /\ [][Next]_vars
Refines == phase = "done" => out = Shown(files[path], text) /\ held = <<>>
(* nothing is lost or made up *)
Whole == phase = "done" => Flat(out) = (IF text THEN DecodeBytes(files[path]) ELSE files[path])
OneFeed == \A i \in DOMAIN out : \A j \in DOMAIN out[i] : out[i][j] = LF => j = Len(out[i])
ExportDone == (Export /\ phase = "done" /\ block = 1 /\ Len(hist) = MaxWrites) =>
   PrintT("BEHAVIOUR " \o ToJson([hist |-> hist, path |-> path, text |-> text, out |-> out]))
=============================================================================
