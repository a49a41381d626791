------------------------------ MODULE TextFiles ------------------------------
(* Files written and read as streams of lines.  A file is a sequence of      *)
(* bytes; a line ends with a line feed and nothing else; text is UTF-8, and  *)
(* what is not valid is replaced.  Whether the bytes are compressed on disk  *)
(* is not visible.                                                           *)
EXTENDS Bytes
LF == 10
(* lines with their line feeds; the last one may have none *)
Lines(s) ==
  LET z == FoldLeft(LAMBDA a, c : IF c = LF THEN [done |-> Append(a.done, Append(a.cur, c)), cur |-> <<>>]
                                  ELSE [a EXCEPT !.cur = Append(@, c)],
                    [done |-> <<>>, cur |-> <<>>], s)
  IN IF z.cur = <<>> THEN z.done ELSE Append(z.done, z.cur)
Shown(bytes, text) == IF text THEN Lines(DecodeBytes(bytes)) ELSE Lines(bytes)
Coded(chunks, text) == IF text THEN Utf8(Flat(chunks)) ELSE Flat(chunks)

Absent == <<-1>>
Broken == <<-2>>                \* compressed, and its end is missing
TfInit(case) == [files |-> [p \in 1..case.n |-> Absent]]
All(st, paths, text) == Flat([i \in DOMAIN paths |-> Shown(st.files[paths[i]], text)])
TfFault(st, e) ==
  CASE e.op = "write" ->
         IF e.outcome # (IF e.stop THEN "stopped" ELSE "ok") THEN "legal contents are written, and an error of the caller surfaces"
         ELSE IF ~ e.closed THEN "a file is closed when its block ends"
         ELSE ""
    [] e.op = "read" ->
         IF st.files[e.path] = Broken THEN (IF e.outcome = "ok" THEN "a truncated compressed file is not taken for a whole one" ELSE "")
         ELSE IF st.files[e.path] = Absent THEN (IF e.outcome = "ok" THEN "reading a file that does not exist is an error" ELSE "")
         ELSE IF e.outcome # "ok" THEN "a file that was written can be read"
         ELSE IF ~ e.closed THEN "a file is closed when its block ends"
         ELSE IF Len(e.out) # Len(Shown(st.files[e.path], e.text)) THEN "a line ends at a line feed and nowhere else"
         ELSE IF e.out # Shown(st.files[e.path], e.text) THEN "what was written is read back"
         ELSE ""
    [] e.op = "stream" ->
         IF e.outcome # (IF \E i \in DOMAIN e.paths : st.files[e.paths[i]] \in {Absent, Broken} THEN "raised" ELSE "ok")
         THEN "a stream of files is read to its end or fails"
         ELSE IF e.outcome = "ok" /\ e.out # All(st, e.paths, e.text) THEN "a stream of files has the lines of each, in order"
         ELSE ""
    [] e.op = "cut" -> ""
    [] OTHER -> "unknown event"
TfApply(st, e) ==
  IF e.op = "write"
  THEN [st EXCEPT !.files[e.path] = (IF e.append /\ @ # Absent THEN @ ELSE <<>>) \o Coded(e.chunks, e.text)]
  ELSE IF e.op = "cut" THEN [st EXCEPT !.files[e.path] = Broken]
  ELSE st
=============================================================================
