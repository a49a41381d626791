----------------------------- MODULE TrSeqStore -----------------------------
EXTENDS SeqStore
VARIABLES tid, l, st, bad
INSTANCE TraceLib WITH InitSt <- StInit, Fault <- StFault, Apply <- StApply
=============================================================================
