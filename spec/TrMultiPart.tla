---------------------------- MODULE TrMultiPart ----------------------------
EXTENDS MultiPart
VARIABLES tid, l, st, bad
INSTANCE TraceLib WITH InitSt <- MpInit, Fault <- MpFault, Apply <- MpApply
=============================================================================
