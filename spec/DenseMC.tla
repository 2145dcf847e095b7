------------------------------- MODULE DenseMC -------------------------------
(***************************************************************************)
(* Chains of dense layers: the bias of layer l follows the scale of its    *)
(* input (the network input, or the output of layer l-1) and of its        *)
(* kernel.  Every history of scale changes up to MaxLen keeps the product  *)
(* invariant, because each change is forwarded to every bias that depends  *)
(* on it.  The histories are replayed on the real layers.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Layers, MaxLen, Scales
Nodes == {<<"in", 0>>} \cup {<<k, l>> : k \in {"kernel", "out"}, l \in 1..Layers}
VARIABLES s, b, pending, hist
vars == <<s, b, pending, hist>>
Input(l) == IF l = 1 THEN <<"in", 0>> ELSE <<"out", l - 1>>
Init == s = [n \in Nodes |-> 1] /\ b = [l \in 1..Layers |-> 1] /\ pending = {} /\ hist = <<>>
(* an operation changes one scale and leaves notifications for the dependants *)
Change == /\ pending = {} /\ Len(hist) < MaxLen
          /\ \E n \in Nodes, op \in {"update", "defer", "reset"} :
               /\ \E v \in (IF op = "reset" THEN {1} ELSE Scales) : s' = [s EXCEPT ![n] = v]
               /\ pending' = {l \in 1..Layers : n \in {Input(l), <<"kernel", l>>}}
               /\ hist' = Append(hist, <<op, n[1], n[2]>>)
          /\ UNCHANGED b
Forward == \E l \in pending : /\ b' = [b EXCEPT ![l] = s[Input(l)] * s[<<"kernel", l>>]]
                              /\ pending' = pending \ {l} /\ UNCHANGED <<s, hist>>
Next == Change \/ Forward
Spec == Init /\ [][Next]_vars
Product == \A l \in 1..Layers : l \in pending \/ b[l] = s[Input(l)] * s[<<"kernel", l>>]
Hists == [1..MaxLen -> {<<op, n[1], n[2]>> : op \in {"update", "defer", "reset"}, n \in Nodes}]
Emit == TLCGet("distinct") > 0 /\ JsonSerialize(IOEnv.OUT, [h |-> Hists])
=============================================================================
