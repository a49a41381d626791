------------------------------ MODULE TermFreq ------------------------------
(* Term statistics of text files: word and character frequencies and the     *)
(* number of lines, over all lines or over the distinct ones; their file     *)
(* form; and vocabularies learned from them.                                 *)
EXTENDS Vocab

LinesOf(files, dedup) ==
  LET all == Flat(files) IN IF dedup THEN SetToSeq({all[i] : i \in DOMAIN all}) ELSE all

(* exact counts of a sequence of tokens, as a set of <<token, count>>         *)
Counted(ts) == {<<t, CountIn(ts, t)>> : t \in {ts[i] : i \in DOMAIN ts}}
WordStats(ls) == Counted(AllWords(ls))
CharStats(ls) == Counted(Singles(Flat(AllWords(ls))))
AsSet(rows) == {<<rows[i].t, rows[i].f>> : i \in DOMAIN rows}
NoTwice(rows) == Cardinality({rows[i].t : i \in DOMAIN rows}) = Len(rows)

TfInit(case) == [lines |-> LinesOf(case.files, case.dedup), words |-> <<>>, chars |-> <<>>, n |-> -1, model |-> ""]

StatsFault(st, e) ==
  CASE AsSet(e.words) # WordStats(st.lines) \/ ~NoTwice(e.words) -> "exact word frequencies"
    [] AsSet(e.chars) # CharStats(st.lines) \/ ~NoTwice(e.chars) -> "exact character frequencies"
    [] e.n # Len(st.lines) -> "exact number of lines"
    [] OTHER -> ""

(* a statistics file: read back it gives the same frequencies                 *)
FileFault(st, e) ==
  LET want == IF e.kind = "words" THEN WordStats(st.lines) ELSE CharStats(st.lines)
  IN CASE AsSet(e.rows) # want \/ ~NoTwice(e.rows) -> "reading a statistics file gives the same frequencies"
       [] e.n # Len(st.lines) -> "reading a statistics file gives the same number of lines"
       [] \E i \in 1..Len(e.rows) - 1 : e.rows[i].f < e.rows[i + 1].f -> "a statistics file is sorted by frequency"
       [] OTHER -> ""

(* the table of a model learned from the statistics: the one the limits ask   *)
(* for on the text itself                                                     *)
ModelFault(st, e) ==
  LET base == SelectSeq(e.rows, LAMBDA r : r.kids = <<>>)
      case == [src |-> "lines", lines |-> st.lines, scheme |-> e.scheme, cov |-> e.cov, minfreq |-> e.minfreq, size |-> e.size]
      f    == IF e.scheme = "class" THEN "" ELSE Trimmed(case, [i \in DOMAIN base |-> [name |-> base[i].name, freq |-> base[i].freq]])
  IN CASE e.outcome # "ok" -> "learning from statistics completes"
       [] e.again /\ e.model # st.model -> "learning again gives the same model"
       [] e.scheme = "class" /\ {<<base[i].name, base[i].freq>> : i \in DOMAIN base} # WordStats(st.lines) -> "labels with their exact counts"
       [] OTHER -> f

TfFault(st, e) ==
  CASE e.op = "stats" -> IF e.outcome # "ok" THEN "statistics of any text are extracted" ELSE StatsFault(st, e)
    [] e.op = "file"  -> FileFault(st, e)
    [] e.op = "model" -> ModelFault(st, e)
    [] e.op = "exact" -> IF AsSet(e.rows) # AsSet(e.got) \/ ~NoTwice(e.got) \/ e.n # e.m THEN "large counts are written and read exactly" ELSE ""
    [] OTHER -> "unknown event"
TfApply(st, e) == IF e.op = "model" THEN [st EXCEPT !.model = e.model] ELSE st
=============================================================================
