---------------------------- MODULE TrGrowCodec ----------------------------
EXTENDS GrowCodec
VARIABLES tid, l, st, bad
INSTANCE TraceLib WITH InitSt <- GrowInit, Fault <- GrowFault, Apply <- GrowApply
=============================================================================
