------------------------------- MODULE ExportMC -------------------------------
(***************************************************************************)
(* The exporter walking a model: a cursor over the layers, the node the    *)
(* next layer reads, the operations written so far.  Every model structure *)
(* up to MaxLen is a behaviour; TLC checks the walk against FileOps and    *)
(* emits every structure, and each is built with the real exporter.        *)
(***************************************************************************)
EXTENDS Export
CONSTANT MaxLen
L(k, a) == [k |-> k, act |-> a]
Kinds == {L("dense", "linear"), L("dense", "relu"), L("dense", "tanh"), L("dense", "sigmoid"), L("dense", "softmax"),
          L("dropout", ""), L("input", ""), L("seq", ""), L("last", ""), L("bad", "")}
(* recurrent layers: "seq" hands sequences on, only to another recurrent layer; they come first *)
Rank(l) == IF l.k = "dense" THEN 3 ELSE 2
Fits(m, l) ==
  LET c == {i \in 1..Len(m) : m[i].k \in {"seq", "last", "dense"}} IN
  CASE l.k \in {"seq", "last"} -> \A i \in c : m[i].k = "seq"
    [] l.k = "dense" -> \A i \in c : m[i].k # "seq" \/ \E j \in c : j > i
    [] OTHER -> TRUE
Closed(m) == \A i \in 1..Len(m) : m[i].k = "seq" => \E j \in 1..Len(m) : j > i /\ m[j].k \in {"seq", "last"} /\ \A k \in i..j : m[k].k # "dense"
As(m) == [i \in 1..Len(m) |-> IF m[i].k \in {"seq", "last"} THEN L("lstm", "") ELSE m[i]]

VARIABLES model, pc, pos, node, ops, err
vars == <<model, pc, pos, node, ops, err>>
Init == model = <<>> /\ pc = "model" /\ pos = 1 /\ node = 0 /\ ops = <<>> /\ err = FALSE
Choose == /\ pc = "model" /\ Len(model) < MaxLen
          /\ \E l \in Kinds : Fits(model, l) /\ model' = Append(model, l)
          /\ UNCHANGED <<pc, pos, node, ops, err>>
Begin == /\ pc = "model" /\ Closed(model) /\ pc' = "walk"
         /\ ops' = <<[ty |-> "QUANTIZE", in |-> 0, out |-> 1]>> /\ node' = 1 /\ UNCHANGED <<model, pos, err>>
(* one layer: its operations are chained from the current node *)
Layer == /\ pc = "walk" /\ pos <= Len(model) /\ ~err
         /\ LET l == As(model)[pos]  os == LayerOps(l) IN
            IF l.k = "bad" THEN err' = TRUE /\ UNCHANGED <<ops, node, pos>>
            ELSE /\ ops' = ops \o [k \in 1..Len(os) |-> [ty |-> os[k], in |-> node + k - 1, out |-> node + k]]
                 /\ node' = node + Len(os) /\ pos' = pos + 1 /\ UNCHANGED err
         /\ UNCHANGED <<model, pc>>
End == /\ pc = "walk" /\ (pos > Len(model) \/ err) /\ pc' = "done"
       /\ ops' = IF err THEN <<>> ELSE Append(ops, [ty |-> "DEQUANTIZE", in |-> node, out |-> 0])
       /\ UNCHANGED <<model, pos, node, err>>
Next == Choose \/ Begin \/ Layer \/ End
Spec == Init /\ [][Next]_vars
Written == pc = "done" /\ ~err => [k \in 1..Len(ops) |-> ops[k].ty] = FileOps(As(model))
Chained == \A k \in 2..Len(ops) : ops[k].in = ops[k - 1].out
Refused == pc = "done" => (err <=> ~Supported(As(model)))
Positions == pc = "done" /\ ~err => \A i \in 1..Len(model) : LayerOps(As(model)[i]) # <<>> =>
               ops[PosOf(As(model), i)].ty = LayerOps(As(model)[i])[1]
RECURSIVE Models(_)
Models(n) == IF n = 0 THEN {<<>>} ELSE LET P == Models(n - 1) IN P \cup {Append(m, l) : m \in {q \in P : Len(q) = n - 1}, l \in Kinds}
Growable(m) == \A i \in 1..Len(m) : Fits(SubSeq(m, 1, i - 1), m[i])
Emit == TLCGet("distinct") > 0 /\ JsonSerialize(IOEnv.OUT, [m |-> {m \in Models(MaxLen) : Growable(m) /\ Closed(m)}])
=============================================================================
