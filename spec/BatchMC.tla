------------------------------ MODULE BatchMC ------------------------------
(* Row-wise layers commute with stacking and permuting samples: every batch  *)
(* of up to N samples over 0..K through a chain of two row-wise layers, built *)
(* sample by sample in any order.                                             *)
EXTENDS Verdict
CONSTANTS N, K
VARIABLES batch, done, res
vars == <<batch, done, res>>
Layer1(x) == (3 * x + 1) % (K + 2)
Layer2(x) == IF x > K THEN K ELSE x
Net(x) == Layer2(Layer1(x))
Init == /\ batch \in UNION {[1..n -> 0..K] : n \in 1..N} /\ done = {} /\ res = <<>>
Process == \E i \in DOMAIN batch \ done : done' = done \cup {i} /\ res' = Append(res, <<i, Net(batch[i])>>) /\ UNCHANGED batch
Next == Process
Spec == Init /\ [][Next]_vars
Stack == [i \in DOMAIN batch |-> Net(batch[i])]
RowWise == \A j \in 1..Len(res) : res[j][2] = Stack[res[j][1]]
Emit == TLCGet("distinct") > 0 /\ JsonSerialize(IOEnv.OUT, [n |-> N])
=============================================================================
