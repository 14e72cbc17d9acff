-------------------------------- MODULE Trace --------------------------------
EXTENDS ApiTrace, Props
=============================================================================
