------------------------------ MODULE TypedMC ------------------------------
(* Chains of typed operations over boundary values of the real widths: the   *)
(* widening rule (clip to the double type, keep the larger type iff the left *)
(* operand's type holds the result) is exact and always representable.       *)
EXTENDS Typed
CONSTANTS Widths, Steps
VARIABLES val, ty, ideal, n
vars == <<val, ty, ideal, n>>
Boundary(t) == {Lo(t), DAdd(Lo(t), D1), D0, D1, DSub(Hi(t), D1), Hi(t)} \cup (IF t.signed THEN {DInt(-1)} ELSE {DInt(2)})
Ty(sg) == {[signed |-> sg, bits |-> w] : w \in Widths}
Ops == {"add", "sub", "mul"}
Result(a, at, op, b, bt) ==
  LET d == Double(Wider(at, bt))
      r == DClip(Apply(op, a, b), Lo(d), Hi(d))
  IN [v |-> r, t |-> IF FitsIn(r, at) THEN Wider(at, bt) ELSE d]
Init == \E sg \in BOOLEAN : \E t \in Ty(sg) : ty = t /\ val \in Boundary(t) /\ ideal = val /\ n = 0
Next == /\ n < Steps /\ ty.bits <= 32
        /\ \E t \in Ty(ty.signed), op \in Ops : \E b \in Boundary(t) :
             LET x == Apply(op, val, b)  r == Result(val, ty, op, b, t) IN
             /\ FitsIn(x, Double(Wider(ty, t)))
             /\ val' = r.v /\ ty' = r.t /\ ideal' = x /\ n' = n + 1
Spec == Init /\ [][Next]_vars
Exact == DEq(val, ideal)
Representable == FitsIn(val, ty)
Cases == UNION {{[op |-> op, a |-> a, at |-> t, b |-> b, bt |-> u] : a \in Boundary(t), b \in Boundary(u), op \in Ops} : t \in Ty(TRUE), u \in Ty(TRUE)}
         \cup UNION {{[op |-> op, a |-> a, at |-> t, b |-> b, bt |-> u] : a \in Boundary(t), b \in Boundary(u), op \in Ops} : t \in Ty(FALSE), u \in Ty(FALSE)}
Emit == TLCGet("distinct") > 0 /\ JsonSerialize(IOEnv.OUT, SetToSeq(Cases))
=============================================================================
