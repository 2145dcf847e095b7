-------------------------------- MODULE RoundMC --------------------------------
(***************************************************************************)
(* Rounding optimisation as a state machine: an annealing phase that may   *)
(* accept worse policies while remembering the best, then a greedy phase   *)
(* from the best.  Costs are chosen on the first visit of a policy, so     *)
(* every cost function (zero and negative included) and every sequence of  *)
(* moves and acceptances is explored.  One move flips one bit per tensor.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Sizes, Costs, Steps, Retries, MaxEvals
Elems == {<<i, k>> \in (1..Len(Sizes)) \X (1..4) : k <= Sizes[i]}
Pol == [Elems -> {0, 1}]
VARIABLES cur, best, cost, ecur, f, phase, step, stuck, start
vars == <<cur, best, cost, ecur, f, phase, step, stuck, start>>
Visit(p, v) == [q \in DOMAIN f \cup {p} |-> IF q = p THEN v ELSE f[q]]
Values(p) == IF p \in DOMAIN f THEN {f[p]} ELSE Costs
Moves(p) == {[e \in Elems |-> IF \E i \in DOMAIN c : e = <<i, c[i]>> THEN 1 - p[e] ELSE p[e]] : c \in {c \in [1..Len(Sizes) -> 1..4] : \A i \in DOMAIN c : c[i] <= Sizes[i]}}
Init == \E v \in Costs : LET p == [e \in Elems |-> 0] IN
          cur = p /\ best = p /\ start = p /\ cost = v /\ ecur = v /\ f = [q \in {p} |-> v] /\ phase = "anneal" /\ step = 0 /\ stuck = 0
Anneal == /\ phase = "anneal" /\ step < Steps
          /\ \E p \in Moves(cur), v \in Costs : v \in Values(p) /\
               /\ f' = Visit(p, v)
               /\ \/ cur' = p /\ ecur' = v /\ IF v < cost THEN best' = p /\ cost' = v ELSE UNCHANGED <<best, cost>>
                  \/ v > ecur /\ UNCHANGED <<cur, ecur, best, cost>>
          /\ step' = step + 1 /\ UNCHANGED <<phase, stuck, start>>
Cool == phase = "anneal" /\ step = Steps /\ phase' = "greedy" /\ cur' = best /\ ecur' = cost /\ UNCHANGED <<best, cost, f, step, stuck, start>>
Greedy == /\ phase = "greedy" /\ stuck <= Retries /\ Cardinality(DOMAIN f) < MaxEvals
          /\ \E p \in Moves(best), v \in Costs : v \in Values(p) /\
               /\ f' = Visit(p, v)
               /\ IF v < cost THEN best' = p /\ cost' = v /\ stuck' = 0 ELSE UNCHANGED <<best, cost>> /\ stuck' = stuck + 1
          /\ UNCHANGED <<cur, ecur, phase, step, start>>
End == phase = "greedy" /\ stuck > Retries /\ phase' = "done" /\ cur' = best /\ UNCHANGED <<best, cost, ecur, f, step, stuck, start>>
Next == Anneal \/ Cool \/ Greedy \/ End
Spec == Init /\ [][Next]_vars
BestIsMin == f[best] = cost /\ \A p \in DOMAIN f : cost <= f[p]
NoWorse == cost <= f[start]
Binary == \A p \in DOMAIN f : p \in Pol
EndsOnBest == phase = "done" => \A p \in DOMAIN f : f[cur] <= f[p]
Emit == TLCGet("distinct") > 0 /\ JsonSerialize(IOEnv.OUT, [h |-> [1..5 -> Costs]])
S1 == <<3>>
S2 == <<2, 2>>
=============================================================================
