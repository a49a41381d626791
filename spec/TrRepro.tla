------------------------------ MODULE TrRepro ------------------------------
EXTENDS Repro
VARIABLES tid, l, st, bad
INSTANCE TraceLib WITH InitSt <- ReproInit, Fault <- ReproFault, Apply <- ReproApply
=============================================================================
