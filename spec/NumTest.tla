------------------------------ MODULE NumTest ------------------------------
(* Self-check of Num against TLC's own integers on every pair of a range,   *)
(* and of algebraic identities on wide operands.                            *)
EXTENDS Num
CONSTANT R
VARIABLES a, b
Init == a \in -R..R /\ b \in -R..R
Next == UNCHANGED <<a, b>>
Rat(x, k) == DScale(DInt(x), -k)
FloorDiv(x, k) == x \div Pow2(k)     \* TLA+ \div floors
SmallOK ==
  /\ DToInt(DAdd(DInt(a), DInt(b))) = a + b
  /\ DToInt(DSub(DInt(a), DInt(b))) = a - b
  /\ DToInt(DMul(DInt(a * 97), DInt(b * 53))) = a * 97 * b * 53
  /\ DCmp(DInt(a), DInt(b)) = (IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0)
  /\ \A k \in 0..3 :
       /\ DToInt(DFloor(Rat(a, k))) = FloorDiv(a, k)
       /\ DToInt(DCeil(Rat(a, k))) = -FloorDiv(-a, k)
       /\ DToInt(DRoundUp(Rat(a, k))) = FloorDiv(2 * a + Pow2(k), k + 1)
       /\ LET r == DRoundEven(Rat(a, k)) IN
            /\ DLe(DDist(r, Rat(a, k)), DHalf)
            /\ DEq(DDist(r, Rat(a, k)), DHalf) => DToInt(r) % 2 = 0
       /\ DIsInt(Rat(a, k)) = (a % Pow2(k) = 0)
       /\ DToInt(DTrunc(Rat(a, k))) = (IF a < 0 THEN -((-a) \div Pow2(k)) ELSE a \div Pow2(k))
Big(x) == DAdd(DMul(DMul(DInt(x * 100003), DInt(x * 99991)), DInt(77777)), DInt(x))
WideOK ==
  LET x == Big(a)  y == Big(b) IN
  /\ DEq(DMul(DAdd(x, y), DSub(x, y)), DSub(DMul(x, x), DMul(y, y)))
  /\ DEq(DSub(DAdd(x, y), y), x)
  /\ \A k \in {1, 11, 12, 13, 25} :
       LET z == DScale(x, -k)  f == DFloor(z) IN
       /\ DLe(f, z) /\ DLt(z, DAdd(f, D1)) /\ DIsInt(f)
OK == SmallOK /\ WideOK
=============================================================================
