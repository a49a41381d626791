----------------------------- MODULE TrTextFiles -----------------------------
EXTENDS TextFiles
VARIABLES tid, l, st, bad
INSTANCE TraceLib WITH InitSt <- TfInit, Fault <- TfFault, Apply <- TfApply
=============================================================================
