------------------------------- MODULE QLinMC -------------------------------
(* Small exhaustive model of round-half-even requantisation of a sum and of  *)
(* a product, with power-of-two scales; the judging relation is a function.  *)
EXTENDS Engine
CONSTANT Wide
VARIABLES c
vars == <<c>>
Vals == {0, 1, 130, 255} \cup (IF Wide THEN {7, 128, 254} ELSE {})
Cases == [a : Vals, b : Vals, iz : {0, 128}, bz : {0, 131}, oz : {0, 128, 255}, ka : {4, 5}, kb : {4, 6}, ko : {3, 4}]
(* half-even division of n by 2^k *)
Even(n, k) == LET q == n \div Pow2(k)  r == n % Pow2(k)  h == Pow2(k - 1) IN
              IF k = 0 THEN n ELSE IF r > h \/ (r = h /\ q % 2 = 1) THEN q + 1 ELSE q
Clip255(v) == IF v < 0 THEN 0 ELSE IF v > 255 THEN 255 ELSE v
(* in units of 2^-6 *)
Sum(k) == (k.a - k.iz) * Pow2(6 - k.ka) + (k.b - k.bz) * Pow2(6 - k.kb)
Add(k) == Clip255(Even(Sum(k), 6 - k.ko) + k.oz)
ProdV(k) == (k.a - k.iz) * (k.b - k.bz) + (k.b - k.iz) * (k.a - k.bz)
Mul(k) == Clip255(Even(ProdV(k), (k.ka + k.kb) - (k.ko - 1)) + k.oz)
Init == c \in Cases
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
AddRel(k, q) == EvenRel(DMul(DInt(Sum(k)), DPow(-6)), DPow(-k.ko), DInt(k.oz), DInt(q), D0)
AddFits == AddRel(c, Add(c))
AddUnique == \A q \in {Add(c) - 1, Add(c) + 1, 0, 255} \ {Add(c)} : ~AddRel(c, q)
MulFits == EvenRel(DMul(DInt(ProdV(c)), DPow(-c.ka - c.kb)), DPow(1 - c.ko), DInt(c.oz), DInt(Mul(c)), D0)
Emit == TLCGet("distinct") > 0 /\ JsonSerialize(IOEnv.OUT, SetToSeq({k \in Cases : (k.a + 2 * k.b + k.ka + k.iz) % 3 = 0}))
=============================================================================
