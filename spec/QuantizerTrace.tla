--------------------------- MODULE QuantizerTrace ---------------------------
(* traces of the quantisation primitives recorded from the code, judged      *)
EXTENDS Judge, Quantizer
=============================================================================
