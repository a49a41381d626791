----------------------------- MODULE TrTermFreq -----------------------------
EXTENDS TermFreq
VARIABLES tid, l, st, bad
INSTANCE TraceLib WITH InitSt <- TfInit, Fault <- TfFault, Apply <- TfApply
=============================================================================
