------------------------------- MODULE Transc -------------------------------
(***************************************************************************)
(* Transcendental functions in exact dyadic arithmetic, so that the         *)
(* specification (not a maths library) decides activation values.           *)
(* DExp: Taylor polynomial of degree 9 at x/2^10, squared ten times, kept   *)
(* to seven limbs; relative error below 2^-44 for |x| <= 44.                *)
(***************************************************************************)
EXTENDS Num
InvFact == <<                      \* 1/k!, k = 0..9
  <<1, <<0, 0, 0, 0, 0, 0, 0, 1>>, -84>>,
  <<1, <<0, 0, 0, 0, 0, 0, 0, 1>>, -84>>,
  <<1, <<0, 0, 0, 0, 0, 0, 0, 1>>, -85>>,
  <<1, <<2730, 2730, 2730, 2730, 2730, 2730, 2730>>, -86>>,
  <<1, <<2730, 2730, 2730, 2730, 2730, 2730, 2730>>, -88>>,
  <<1, <<2184, 2184, 2184, 2184, 2184, 2184, 2184>>, -90>>,
  <<1, <<2912, 2912, 2912, 2912, 2912, 2912, 2912>>, -93>>,
  <<1, <<3328, 3328, 3328, 3328, 3328, 3328, 3328>>, -96>>,
  <<1, <<3328, 3328, 3328, 3328, 3328, 3328, 3328>>, -99>>,
  <<1, <<228, 3414, 2503, 1593, 683, 3869, 2958>>, -102>> >>
DTop(x) == IF Len(x[2]) <= 7 THEN x
           ELSE <<x[1], SubSeq(x[2], Len(x[2]) - 6, Len(x[2])), x[3] + LB * (Len(x[2]) - 7)>>
RECURSIVE Horner(_, _)
Horner(y, k) == IF k = 10 THEN InvFact[10] ELSE DTop(DAdd(InvFact[k], DTop(DMul(y, Horner(y, k + 1)))))
RECURSIVE SqN(_, _)
SqN(x, n) == IF n = 0 THEN x ELSE SqN(DTop(DMul(x, x)), n - 1)
ExpLimit == DInt(44)
DExp(x) == LET c == DClip(x, DNeg(ExpLimit), ExpLimit) IN SqN(Horner(DTop(DScale(c, -10)), 1), 10)

(* a cheaper exponential: four limbs, degree 5; relative error below 2^-24 for |x| <= 44 (TranscTest) *)
FTop(x) == IF Len(x[2]) <= 4 THEN x
           ELSE <<x[1], SubSeq(x[2], Len(x[2]) - 3, Len(x[2])), x[3] + LB * (Len(x[2]) - 4)>>
FInvFact == [k \in 1..6 |-> FTop(InvFact[k])]
RECURSIVE FHorner(_, _)
FHorner(y, k) == IF k = 6 THEN FInvFact[6] ELSE FTop(DAdd(FInvFact[k], FTop(DMul(y, FHorner(y, k + 1)))))
RECURSIVE FSqN(_, _)
FSqN(x, n) == IF n = 0 THEN x ELSE FSqN(FTop(DMul(x, x)), n - 1)
FExp(x) == LET c == DClip(x, DNeg(ExpLimit), ExpLimit) IN FSqN(FHorner(FTop(DScale(c, -10)), 1), 10)

(* | y - 1/(1+e^-v) | <= tol *)
SigmoidNear(y, v, tol) ==
  LET E == DAdd(D1, DExp(DNeg(v))) IN DLe(DDist(DMul(y, E), D1), DMul(tol, E))
(* | y - tanh v | <= tol,  tanh v = (1 - e^-2v)/(1 + e^-2v) *)
TanhNear(y, v, tol) ==
  LET a == DExp(DScale(DNeg(DAbs(v)), 1))
      w == IF v[1] < 0 THEN DNeg(y) ELSE y
  IN DLe(DDist(DMul(w, DAdd(D1, a)), DSub(D1, a)), DMul(tol, DAdd(D1, a)))
=============================================================================
