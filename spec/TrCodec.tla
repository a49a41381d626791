------------------------------ MODULE TrCodec ------------------------------
EXTENDS Codec
VARIABLES tid, l, st, bad
INSTANCE TraceLib WITH InitSt <- CodecInit, Fault <- CodecFault, Apply <- CodecApply
=============================================================================
