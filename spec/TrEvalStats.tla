---------------------------- MODULE TrEvalStats ----------------------------
EXTENDS EvalStats
VARIABLES tid, l, st, bad
INSTANCE TraceLib WITH InitSt <- EvInit, Fault <- EvFault, Apply <- EvApply
=============================================================================
