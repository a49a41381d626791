----------------------------- MODULE TrBatching -----------------------------
EXTENDS Batching
VARIABLES tid, l, st, bad
INSTANCE TraceLib WITH InitSt <- BtInit, Fault <- BtFault, Apply <- BtApply
=============================================================================
