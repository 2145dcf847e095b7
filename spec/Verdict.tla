------------------------------ MODULE Verdict ------------------------------
(* helpers for verdict operators: the semantics modules extend this one      *)
EXTENDS Num, Json, IOUtils, FiniteSets
If(cond, name) == IF cond THEN {} ELSE {name}          \* clause must hold
Tag(cond, name) == IF cond THEN {name} ELSE {}
V(s, bad, cov) == [st |-> s, bad |-> bad, cov |-> cov]
=============================================================================
