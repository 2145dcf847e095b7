----------------------------- MODULE NetworkMC -----------------------------
(***************************************************************************)
(* Loading and running networks: a loader that accepts a file exactly when *)
(* the engine and all operations are known and both end nodes are present, *)
(* and an interpreter that hands a value from layer to layer and records   *)
(* every intermediate result.  TLC explores every history of loads and     *)
(* inferences up to MaxLen; each is replayed on real networks.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS MaxLen, Xs
Known == {"inc", "dbl", "neg"}
Apply(f, x) == CASE f = "inc" -> x + 1 [] f = "dbl" -> 2 * x [] f = "neg" -> -x
Files == [a    |-> [engine |-> "tflite", ops |-> <<"inc", "dbl">>, inp |-> TRUE, out |-> TRUE],
          b    |-> [engine |-> "onnx",   ops |-> <<"dbl", "neg", "inc">>, inp |-> TRUE, out |-> TRUE],
          eng  |-> [engine |-> "other",  ops |-> <<"inc">>, inp |-> TRUE, out |-> TRUE],
          oper |-> [engine |-> "tflite", ops |-> <<"inc", "what">>, inp |-> TRUE, out |-> TRUE],
          noin |-> [engine |-> "tflite", ops |-> <<"inc">>, inp |-> FALSE, out |-> TRUE],
          noout |-> [engine |-> "onnx",  ops |-> <<"inc">>, inp |-> TRUE, out |-> FALSE]]
Valid(f) == f.engine \in {"tflite", "onnx"} /\ f.inp /\ f.out /\ \A i \in 1..Len(f.ops) : f.ops[i] \in Known

VARIABLES net, phase, val, x, inter, results, hist
vars == <<net, phase, val, x, inter, results, hist>>
Init == net = "none" /\ phase = 0 /\ val = 0 /\ x = 0 /\ inter = <<>> /\ results = {} /\ hist = <<>>
Load == /\ phase = 0 /\ Len(hist) < MaxLen
        /\ \E f \in DOMAIN Files :
             /\ hist' = Append(hist, <<"load", f, 0>>)
             /\ net' = IF Valid(Files[f]) THEN f ELSE "none"
             /\ inter' = <<>> /\ results' = {}
        /\ UNCHANGED <<phase, val, x>>
Begin == /\ phase = 0 /\ net # "none" /\ Len(hist) < MaxLen
         /\ \E v \in Xs : x' = v /\ val' = v /\ hist' = Append(hist, <<"infer", net, v>>)
         /\ phase' = 1 /\ inter' = <<>> /\ UNCHANGED <<net, results>>
Layer == /\ phase > 0 /\ phase <= Len(Files[net].ops)
         /\ val' = Apply(Files[net].ops[phase], val) /\ inter' = Append(inter, val')
         /\ phase' = phase + 1 /\ UNCHANGED <<net, x, results, hist>>
End == /\ phase > 0 /\ phase > Len(Files[net].ops)
       /\ results' = results \cup {<<x, val>>} /\ phase' = 0 /\ UNCHANGED <<net, val, x, inter, hist>>
Next == Load \/ Begin \/ Layer \/ End
Spec == Init /\ [][Next]_vars
RECURSIVE Compose(_, _)
Compose(ops, v) == IF ops = <<>> THEN v ELSE Compose(Tail(ops), Apply(ops[1], v))
Composition == \A r \in results : r[2] = Compose(Files[net].ops, r[1])
Functional == \A r, q \in results : r[1] = q[1] => r[2] = q[2]
Traced == \A i \in 1..Len(inter) : inter[i] = Compose(SubSeq(Files[net].ops, 1, i), x)
Complete == (phase = 0 /\ inter # <<>>) => Len(inter) = Len(Files[net].ops)
OnlyValid == net # "none" => Valid(Files[net])
NoRepeat == \A i \in 1..(Len(hist) - 1) : hist[i][1] = "load" => hist[i + 1][1] = "infer" \/ ~Valid(Files[hist[i][2]])
(* histories worth replaying: start with a load *)
RECURSIVE Hists(_)
Hists(n) == IF n = 0 THEN {[h |-> <<>>, net |-> "none"]}
            ELSE LET P == Hists(n - 1) IN P \cup
                 {[h |-> Append(p.h, <<"load", f, 0>>), net |-> IF Valid(Files[f]) THEN f ELSE "none"] : p \in {q \in P : Len(q.h) = n - 1}, f \in DOMAIN Files}
                 \cup {[h |-> Append(p.h, <<"infer", p.net, v>>), net |-> p.net] : p \in {q \in P : Len(q.h) = n - 1 /\ q.net # "none"}, v \in Xs}
Emit == TLCGet("distinct") > 0 /\ JsonSerialize(IOEnv.OUT, [h |-> {p.h : p \in {q \in Hists(MaxLen) : Len(q.h) = MaxLen}}])
=============================================================================
