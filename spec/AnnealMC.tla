------------------------------- MODULE AnnealMC -------------------------------
(***************************************************************************)
(* The parameter search by simulated annealing.  The annealer works on     *)
(* copies of the nodes: `cand` is its candidate, `prev` the accepted point *)
(* it falls back to, `best` the best one; `net` holds the parameters of    *)
(* the network itself, the only ones the loss can see.  A worse candidate  *)
(* may be accepted or not.  Losses are unknown in advance: the first visit *)
(* of a point chooses any value.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Points, Losses, Steps
VARIABLES net, cand, prev, best, E, Eprev, Ebest, loss, step, phase, start
vars == <<net, cand, prev, best, E, Eprev, Ebest, loss, step, phase, start>>
Known(p) == p \in DOMAIN loss
Visit(p, v) == [q \in DOMAIN loss \cup {p} |-> IF q = p THEN v ELSE loss[q]]
Values(p) == IF Known(p) THEN {loss[p]} ELSE Losses
Init == \E p \in Points, v \in Losses :
          /\ net = p /\ cand = p /\ prev = p /\ best = p /\ start = p /\ E = v /\ Eprev = v /\ Ebest = v
          /\ loss = [q \in {p} |-> v] /\ step = 0 /\ phase = "move"
Near(p) == {q \in Points : q # p /\ q - p \in {-1, 1, 2}}
Move == /\ phase = "move" /\ step < Steps /\ \E q \in Near(cand) : cand' = q
        /\ phase' = "apply" /\ UNCHANGED <<net, prev, best, E, Eprev, Ebest, loss, step, start>>
(* evaluating a candidate first makes it the network's point *)
Evaluate == /\ phase = "apply" /\ net' = cand /\ \E v \in Values(cand) : E' = v /\ loss' = Visit(cand, v)
            /\ phase' = "decide" /\ UNCHANGED <<cand, prev, best, Eprev, Ebest, step, start>>
Accept == /\ phase = "decide" /\ prev' = cand /\ Eprev' = E
          /\ IF E < Ebest THEN best' = cand /\ Ebest' = E ELSE UNCHANGED <<best, Ebest>>
          /\ step' = step + 1 /\ phase' = "move" /\ UNCHANGED <<net, cand, E, loss, start>>
Reject == /\ phase = "decide" /\ E > Eprev /\ cand' = prev /\ E' = Eprev
          /\ step' = step + 1 /\ phase' = "move" /\ UNCHANGED <<net, prev, best, Eprev, Ebest, loss, start>>
End == /\ phase = "move" /\ step = Steps /\ net' = best /\ phase' = "done"
       /\ UNCHANGED <<cand, prev, best, E, Eprev, Ebest, loss, step, start>>
Next == Move \/ Evaluate \/ Accept \/ Reject \/ End
Spec == Init /\ [][Next]_vars
MinLoss == CHOOSE v \in {loss[p] : p \in DOMAIN loss} : \A q \in DOMAIN loss : v <= loss[q]
SeesNet == phase = "decide" => E = loss[net]
BestIsMin == phase = "move" => Ebest = MinLoss /\ loss[best] = Ebest
NoWorse == phase = "done" => loss[net] <= loss[start]
EndsOnBest == phase = "done" => loss[net] = MinLoss
=============================================================================
