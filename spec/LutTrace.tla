------------------------------ MODULE LutTrace ------------------------------
EXTENDS Judge, Lut
=============================================================================
