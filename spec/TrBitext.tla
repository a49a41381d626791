------------------------------ MODULE TrBitext ------------------------------
EXTENDS Bitext
VARIABLES tid, l, st, bad
INSTANCE TraceLib WITH InitSt <- BxInit, Fault <- BxFault, Apply <- BxApply
=============================================================================
