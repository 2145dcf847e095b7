----------------------------- MODULE TranscTest -----------------------------
(* identities of the exponential, checked on a grid *)
EXTENDS Transc
VARIABLE i
Init == i \in -44..44
Next == FALSE /\ UNCHANGED i
Close(x, y) == DLe(DDist(x, y), DScale(DAbs(y), -43))
ETrue == <<1, <<1897, 325, 2699, 3056, 21>>, -51>>
OK == /\ Close(DMul(DExp(DInt(i)), DExp(DInt(-i))), D1)
      /\ (i < 44) => Close(DMul(DExp(DInt(i)), DExp(D1)), DExp(DInt(i + 1)))
      /\ Close(DMul(DExp(DScale(DInt(i), -1)), DExp(DScale(DInt(i), -1))), DExp(DInt(i)))
      /\ TanhNear(D0, D0, DPow(-60)) /\ SigmoidNear(DHalf, D0, DPow(-60))
      /\ TanhNear(DNeg(D1), DInt(-44), DPow(-60)) /\ ~TanhNear(D1, DInt(-3), DPow(-4))
      /\ Close(DExp(D1), ETrue)
      /\ LET x == DScale(DInt(i), -1) IN DLe(DDist(FExp(x), DExp(x)), DScale(DExp(x), -24))
=============================================================================
