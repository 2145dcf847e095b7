------------------------------ MODULE SearchTrace ------------------------------
(* optimisation histories recorded from the code *)
EXTENDS Judge, Search
NoSearch == Idle
=============================================================================
