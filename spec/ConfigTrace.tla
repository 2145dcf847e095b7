----------------------------- MODULE ConfigTrace -----------------------------
(* configuration histories recorded from the code *)
EXTENDS Judge, Config
=============================================================================
