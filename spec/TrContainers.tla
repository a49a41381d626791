---------------------------- MODULE TrContainers ----------------------------
EXTENDS Containers
VARIABLES tid, l, st, bad
INSTANCE TraceLib WITH InitSt <- CoInit, Fault <- CoFault, Apply <- CoApply
=============================================================================
