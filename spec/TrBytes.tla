------------------------------ MODULE TrBytes ------------------------------
EXTENDS Bytes
VARIABLES tid, l, st, bad
INSTANCE TraceLib WITH InitSt <- BytesInit, Fault <- BytesFault, Apply <- BytesApply
=============================================================================
