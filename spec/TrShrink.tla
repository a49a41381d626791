------------------------------ MODULE TrShrink ------------------------------
EXTENDS Shrink
VARIABLES tid, l, st, bad
INSTANCE TraceLib WITH InitSt <- SkInit, Fault <- SkFault, Apply <- SkApply
=============================================================================
