----------------------------- MODULE TrTracker -----------------------------
EXTENDS Tracker
VARIABLES tid, l, st, bad
INSTANCE TraceLib WITH InitSt <- TrackInit, Fault <- TrackFault, Apply <- TrackApply
=============================================================================
