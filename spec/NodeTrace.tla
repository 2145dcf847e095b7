------------------------------ MODULE NodeTrace ------------------------------
(* histories of node operations recorded from the code, judged step by step   *)
EXTENDS Judge, Node
=============================================================================
