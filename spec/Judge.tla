------------------------------- MODULE Judge -------------------------------
(***************************************************************************)
(* Trace validation driver shared by all conformance specifications.       *)
(* A trace is an ndjson file of events recorded from the real code.  The   *)
(* specification of a subsystem supplies one operator                      *)
(*     Step(st, e) = [st  |-> state after the event according to the spec, *)
(*                    bad |-> set of names of the clauses e violates,      *)
(*                    cov |-> set of names of situations e exercises]      *)
(* which is total.  The behaviour is a single chain of states, one per     *)
(* event; the verdict (events consumed, violated clauses with positions,   *)
(* coverage counts) is written as JSON by the last step.                   *)
(***************************************************************************)
EXTENDS Verdict
CONSTANT Step(_, _), Start

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, st, bad, cov
jvars == <<l, st, bad, cov>>

CovTick(c, tags) ==
  [t \in DOMAIN c \cup tags |->
     (IF t \in DOMAIN c THEN c[t] ELSE 0) + (IF t \in tags THEN 1 ELSE 0)]

JInit == l = 1 /\ st = Start /\ bad = <<>> /\ cov = [t \in {"events"} |-> 0]

Consume ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l]
         r == TLCEval(Step(st, e))
     IN /\ st' = r.st
        /\ bad' = IF r.bad = {} \/ Len(bad) > 40 THEN bad
                  ELSE bad \o [i \in 1..Cardinality(r.bad) |-> <<l, SetToSeq(r.bad)[i]>>]
        /\ cov' = CovTick(cov, r.cov \cup {"events"})
  /\ l' = l + 1

Finish ==
  /\ l = Len(Trace) + 1
  /\ JsonSerialize(IOEnv.VERDICT, [n |-> l - 1, bad |-> bad, cov |-> cov])
  /\ l' = l + 1
  /\ UNCHANGED <<st, bad, cov>>

JNext == Consume \/ Finish
JSpec == JInit /\ [][JNext]_jvars

=============================================================================
