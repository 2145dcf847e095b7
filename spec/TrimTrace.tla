------------------------------ MODULE TrimTrace ------------------------------
(* trimming recorded from the code *)
EXTENDS Judge, Trim
=============================================================================
