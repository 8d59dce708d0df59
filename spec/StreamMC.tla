------------------------------ MODULE StreamMC ------------------------------
EXTENDS Stream
=============================================================================
