------------------------------ MODULE TrSplits ------------------------------
EXTENDS Splits
VARIABLES tid, l, st, bad
INSTANCE TraceLib WITH InitSt <- SplitInit, Fault <- SplitFault, Apply <- SplitApply
=============================================================================
