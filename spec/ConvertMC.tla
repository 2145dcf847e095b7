------------------------------ MODULE ConvertMC ------------------------------
(***************************************************************************)
(* The two walks: the layer walk of the Keras converter, and the cursor of  *)
(* the ONNX converter that matches the longest fused group at the current   *)
(* position.  Every source sequence over the layer kinds up to MaxLen is    *)
(* explored; the result is compared with the declarative definitions, and   *)
(* every sequence is handed to the real converters.                         *)
(***************************************************************************)
EXTENDS Convert
CONSTANTS MaxLen, Kind

KKinds == {"dense", "lstm", "conv2d", "flatten", "maxpooling2d", "dropout", "inputlayer", "bad"}
OKinds == {"DequantizeLinear", "Tanh", "QuantizeLinear", "QLinearMatMul", "QLinearAdd", "QLinearSigmoid", "Softmax", "bad"}
Kinds == IF Kind = "keras" THEN KKinds ELSE OKinds
As(m) == [i \in 1..Len(m) |-> [k |-> m[i], act |-> "relu"]]

VARIABLES src, pc, cur, out, err
vars == <<src, pc, cur, out, err>>
Init == src = <<>> /\ pc = "model" /\ cur = 1 /\ out = <<>> /\ err = FALSE
Choose == pc = "model" /\ Len(src) < MaxLen /\ \E k \in Kinds : src' = Append(src, k) /\ UNCHANGED <<pc, cur, out, err>>
Begin == pc = "model" /\ pc' = "walk" /\ UNCHANGED <<src, cur, out, err>>
Rest == SubSeq(src, cur, Len(src))
StartsWith(t) == Len(Rest) >= Len(t) /\ SubSeq(Rest, 1, Len(t)) = t
Walk ==
  /\ pc = "walk" /\ cur <= Len(src) /\ ~err
  /\ IF src[cur] = "bad" THEN err' = TRUE /\ UNCHANGED <<cur, out>>
     ELSE IF Kind = "keras" THEN out' = out \o KOps(As(src)[cur]) /\ cur' = cur + 1 /\ UNCHANGED err
     ELSE IF StartsWith(Triple) THEN out' = Append(out, "TanhLUT") /\ cur' = cur + 3 /\ UNCHANGED err
     ELSE out' = Append(out, OName(As(src), <<cur>>)) /\ cur' = cur + 1 /\ UNCHANGED err
  /\ UNCHANGED <<src, pc>>
Done == pc = "walk" /\ (cur > Len(src) \/ err) /\ pc' = "done" /\ UNCHANGED <<src, cur, out, err>>
Next == Choose \/ Begin \/ Walk \/ Done
Spec == Init /\ [][Next]_vars
OFile(m) == LET gs == OGroups(As(m), 1) IN [k \in 1..Len(gs) |-> OName(As(m), gs[k])]
Whole == pc = "done" /\ ~err => out = (IF Kind = "keras" THEN KFile(As(src)) ELSE OFile(src)) /\ cur = Len(src) + 1
Refused == pc = "done" => (err <=> \E i \in 1..Len(src) : src[i] = "bad")
(* every source operation is in exactly one group, in order *)
RECURSIVE Flat(_)
Flat(gs) == IF gs = <<>> THEN <<>> ELSE Head(gs) \o Flat(Tail(gs))
Covered == Kind = "onnx" => Flat(OGroups(As(src), 1)) = [i \in 1..Len(src) |-> i]
(* the operations of a prefix are a prefix of the operations (unless a group straddles the cut) *)
Positions == Kind = "keras" => \A i \in 1..Len(src) : KOps(As(src)[i]) # <<>> => KFile(As(src))[KPos(As(src), i)] = KOps(As(src)[i])[1]
RECURSIVE Models(_)
Models(n) == IF n = 0 THEN {<<>>} ELSE LET P == Models(n - 1) IN P \cup {Append(m, k) : m \in {q \in P : Len(q) = n - 1}, k \in Kinds}
Emit == TLCGet("distinct") > 0 /\ JsonSerialize(IOEnv.OUT, [m |-> Models(MaxLen)])
=============================================================================
