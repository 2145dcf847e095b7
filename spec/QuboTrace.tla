------------------------------- MODULE QuboTrace -------------------------------
(* problems, solutions and policies recorded from the code *)
EXTENDS Judge, Qubo
None == NoLayer
=============================================================================
