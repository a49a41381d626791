------------------------------ MODULE TrAbugida ------------------------------
EXTENDS Abugida
VARIABLES tid, l, st, bad
INSTANCE TraceLib WITH InitSt <- AbInit, Fault <- AbFault, Apply <- AbApply
=============================================================================
