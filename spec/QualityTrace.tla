---------------------------- MODULE QualityTrace ----------------------------
(* quality measurements recorded from the code *)
EXTENDS Judge, Quality
=============================================================================
