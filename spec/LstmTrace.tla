------------------------------ MODULE LstmTrace ------------------------------
EXTENDS Judge, Lstm
=============================================================================
