---------------------------- MODULE TrMapReduce ----------------------------
EXTENDS MapReduce
VARIABLES tid, l, st, bad
INSTANCE TraceLib WITH InitSt <- MrInit, Fault <- MrFault, Apply <- MrApply
=============================================================================
