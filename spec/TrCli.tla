------------------------------- MODULE TrCli -------------------------------
EXTENDS Cli
VARIABLES tid, l, st, bad
INSTANCE TraceLib WITH InitSt <- CliInit, Fault <- CliFault, Apply <- CliApply
=============================================================================
