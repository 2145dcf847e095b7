------------------------------- MODULE ScaleMC -------------------------------
(* Rounding shift with an integer mantissa, scaled down: x*q + 2^(e-1) >> e  *)
(* is the nearest integer to x*q/2^e with halves up, monotone and odd-safe.  *)
EXTENDS Verdict
CONSTANTS QBits, XMax, EMax
VARIABLES q, e, sg, x, r
vars == <<q, e, sg, x, r>>
Mul(xx, qq, ee, s) == (xx * qq * s + Pow2(ee - 1)) \div Pow2(ee)
Init == /\ q \in 0..(Pow2(QBits) - 1) /\ e \in 1..EMax /\ sg \in {1, -1} /\ x = -XMax /\ r = Mul(x, q, e, sg)
Next == x < XMax /\ x' = x + 1 /\ r' = Mul(x', q, e, sg) /\ UNCHANGED <<q, e, sg>>
Spec == Init /\ [][Next]_vars
Nearest == LET p == x * q * sg  h == Pow2(e) IN 2 * p < (2 * r + 1) * h /\ 2 * p >= (2 * r - 1) * h
Zero == x = 0 => r = 0
Monotone == [][IF sg = 1 THEN r' >= r ELSE r' <= r]_vars
Emit == TLCGet("distinct") > 0 /\ JsonSerialize(IOEnv.OUT, SetToSeq([q : 0..(Pow2(QBits) - 1), e : 1..EMax, sg : {1, -1}, xmax : {XMax}]))
=============================================================================
