--------------------------- MODULE TrBatchTensor ---------------------------
EXTENDS BatchTensor
VARIABLES tid, l, st, bad
INSTANCE TraceLib WITH InitSt <- TnInit, Fault <- TnFault, Apply <- TnApply
=============================================================================
