------------------------------ MODULE TrModel ------------------------------
EXTENDS Model
VARIABLES tid, l, st, bad
INSTANCE TraceLib WITH InitSt <- ModelInit, Fault <- ModelFault, Apply <- ModelApply
=============================================================================
