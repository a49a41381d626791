------------------------------- MODULE TrTrim -------------------------------
EXTENDS Vocab
VARIABLES tid, l, st, bad
INSTANCE TraceLib WITH InitSt <- TrimInit, Fault <- TrimFault, Apply <- TrimApply
=============================================================================
