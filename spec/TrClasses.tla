----------------------------- MODULE TrClasses -----------------------------
EXTENDS Classes
VARIABLES tid, l, st, bad
INSTANCE TraceLib WITH InitSt <- ClassInit, Fault <- ClassFault, Apply <- ClassApply
=============================================================================
