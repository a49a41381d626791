----------------------------- MODULE TrBpeLearn -----------------------------
EXTENDS BpeLearn
VARIABLES tid, l, st, bad
INSTANCE TraceLib WITH InitSt <- LearnInit, Fault <- LearnFault, Apply <- LearnApply
=============================================================================
