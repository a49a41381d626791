----------------------------- MODULE TrSegment -----------------------------
EXTENDS Segment
VARIABLES tid, l, st, bad
INSTANCE TraceLib WITH InitSt <- SegInit, Fault <- SegFault, Apply <- SegApply
=============================================================================
