----------------------------- MODULE TrSessions -----------------------------
EXTENDS Sessions
VARIABLES tid, l, st, bad
INSTANCE TraceLib WITH InitSt <- SessInit, Fault <- SessFault, Apply <- SessApply
=============================================================================
