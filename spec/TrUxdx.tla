------------------------------- MODULE TrUxdx -------------------------------
EXTENDS Uxdx
VARIABLES tid, l, st, bad
INSTANCE TraceLib WITH InitSt <- UxInit, Fault <- UxFault, Apply <- UxApply
=============================================================================
