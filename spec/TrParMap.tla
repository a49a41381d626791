------------------------------ MODULE TrParMap ------------------------------
EXTENDS ParMap
VARIABLES tid, l, st, bad
INSTANCE TraceLib WITH InitSt <- ParInit, Fault <- ParFault, Apply <- ParApply
=============================================================================
