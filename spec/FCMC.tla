-------------------------------- MODULE FCMC --------------------------------
(* Exhaustive model of a two-input unit with power-of-two scales: the        *)
(* fixed-point algorithm (q = 2^30, rounding shift) satisfies the relation   *)
(* used to judge the code, and the relation has no other solution.           *)
EXTENDS Engine
CONSTANT Wide
XS == {-128, -1, 3, 127}
WS == {-127, 0, 5} \cup (IF Wide THEN {1, 127} ELSE {})
BS == {-300, 0, 77}
Shifts == {0, 2, 6}
VARIABLES c, y
vars == <<c, y>>
Cases == [x : XS \X XS, w : WS \X WS, b : BS, iz : {-128, 0, 5}, oz : {0, -128, 7}, sh : Shifts]
Clip8(v) == IF v < -128 THEN -128 ELSE IF v > 127 THEN 127 ELSE v
Acc(k) == k.w[1] * (k.x[1] - k.iz) + k.w[2] * (k.x[2] - k.iz) + k.b
(* requantisation in steps: multiply by 2^30, add the rounding term, shift right by 30+sh *)
Fixed(a, sh) == IF sh = 0 THEN a ELSE (a + Pow2(sh - 1)) \div Pow2(sh)
Unit(k) == Clip8(Fixed(Acc(k), k.sh) + k.oz)
Init == c \in {k \in Cases : k.x[1] <= k.x[2]} /\ y = Unit(c)
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Rel(k, q) == FloorRelE(DMul(DInt(Acc(k)), DPow(-7)), DPow(-7 + k.sh), DInt(k.oz), DHalf, I8, DInt(q), D0)
FitsRelation == Rel(c, y)
Unique == \A q \in {y - 1, y + 1, -128, 127} \ {y} : ~Rel(c, q)
Emit == TLCGet("distinct") > 0 /\ JsonSerialize(IOEnv.OUT, SetToSeq({k \in Cases : k.x[1] <= k.x[2] /\ (k.x[1] + 3 * k.w[1] + 7 * k.w[2] + k.b + k.iz) % 5 = 0}))
=============================================================================
