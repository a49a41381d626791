------------------------------ MODULE TrVocab ------------------------------
EXTENDS Vocab
VARIABLES tid, l, st, bad
INSTANCE TraceLib WITH InitSt <- WfInit, Fault <- WfFault, Apply <- WfApply
=============================================================================
