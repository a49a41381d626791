------------------------------ MODULE TrChance ------------------------------
EXTENDS Chance
VARIABLES tid, l, st, bad
INSTANCE TraceLib WITH InitSt <- ChInit, Fault <- ChFault, Apply <- ChApply
=============================================================================
