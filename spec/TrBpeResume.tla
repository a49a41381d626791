----------------------------- MODULE TrBpeResume -----------------------------
EXTENDS BpeResume
VARIABLES tid, l, st, bad
INSTANCE TraceLib WITH InitSt <- ResumeInitSt, Fault <- ResumeFault, Apply <- ResumeApply
=============================================================================
