------------------------------- MODULE SearchMC -------------------------------
(***************************************************************************)
(* The parameter search as a state machine over N nodes with scale indices *)
(* 1..Smax and zero points 0..Zmax.  Losses are unknown in advance: the    *)
(* first visit of a point chooses any value, so every loss landscape and   *)
(* every sequence of random moves is explored.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS N, Smax, Zmax, Losses, MaxRetries, MaxEvals
Point == [1..N -> (1..Smax) \X (0..Zmax)]
VARIABLES cur, best, cost, loss, tries, phase, start, evals
vars == <<cur, best, cost, loss, tries, phase, start, evals>>
Known(p) == p \in DOMAIN loss
Visit(p, v) == [q \in DOMAIN loss \cup {p} |-> IF q = p THEN v ELSE loss[q]]
Values(p) == IF Known(p) THEN {loss[p]} ELSE Losses
Init == \E p \in Point, v \in Losses :
          /\ cur = p /\ best = p /\ start = p /\ cost = v /\ loss = [q \in {p} |-> v] /\ tries = 0 /\ phase = "search" /\ evals = 1
(* one move changes every node: the zero point by one step within its type, the scale to another positive one *)
Near(a) == {<<s, z>> \in (1..Smax) \X (0..Zmax) : z \in {a[2] - 1, a[2] + 1} /\ s \in {a[1] - 1, a[1], a[1] + 1}}
Move == /\ phase = "search" /\ tries <= MaxRetries /\ evals < MaxEvals
        /\ \E p \in {p \in Point : \A i \in 1..N : p[i] \in Near(best[i])} :
             \E v \in Values(p) :
               /\ loss' = Visit(p, v) /\ cur' = p /\ evals' = evals + 1
               /\ IF v < cost THEN best' = p /\ cost' = v /\ tries' = 0 ELSE UNCHANGED <<best, cost>> /\ tries' = tries + 1
        /\ UNCHANGED <<phase, start>>
Restore == /\ phase = "search" /\ tries > MaxRetries /\ phase' = "done" /\ cur' = best /\ UNCHANGED <<best, cost, loss, tries, start, evals>>
Next == Move \/ Restore
Spec == Init /\ [][Next]_vars
MinLoss == CHOOSE v \in {loss[p] : p \in DOMAIN loss} : \A q \in DOMAIN loss : v <= loss[q]
BestIsMin == cost = MinLoss /\ loss[best] = cost
NoWorse == cost <= loss[start]
EndsOnBest == phase = "done" => loss[cur] = MinLoss
InRange == \A p \in DOMAIN loss, i \in 1..N : p[i][1] > 0 /\ p[i][2] \in 0..Zmax
(* every sequence of losses of successive evaluations up to MaxEvals, replayed on the real search *)
Scripts == [1..MaxEvals -> Losses]
Emit == TLCGet("distinct") > 0 /\ JsonSerialize(IOEnv.OUT, [h |-> Scripts])
=============================================================================
