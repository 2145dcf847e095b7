-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Exact arithmetic on dyadic rationals s * m * 2^e, unbounded, in pure    *)
(* TLA+ (TLC's own integers have 32 bits).  Every float and every integer  *)
(* that the code consumes or produces is such a number, so a recorded      *)
(* value is represented here without any loss, and the specification       *)
(* judges it exactly.  m is a little-endian sequence of base-2^12 limbs    *)
(* with no leading zero limb; s is -1, 0 or 1; e a TLC integer.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

LB == 12
BASE == 4096

Pow2(k) == 2^k                      \* only for 0 <= k < 31

(* ---------------------------- naturals --------------------------------- *)
RECURSIVE NTrim(_)
NTrim(a) == IF a = <<>> THEN a
            ELSE IF a[Len(a)] = 0 THEN NTrim(SubSeq(a, 1, Len(a) - 1)) ELSE a

RECURSIVE NOfInt(_)
NOfInt(i) == IF i = 0 THEN <<>> ELSE <<i % BASE>> \o NOfInt(i \div BASE)

RECURSIVE NCmpAt(_, _, _)
NCmpAt(a, b, i) == IF i = 0 THEN 0
                   ELSE IF a[i] < b[i] THEN -1
                   ELSE IF a[i] > b[i] THEN 1 ELSE NCmpAt(a, b, i - 1)
NCmp(a, b) == IF Len(a) < Len(b) THEN -1
              ELSE IF Len(a) > Len(b) THEN 1 ELSE NCmpAt(a, b, Len(a))

Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
MaxI(x, y) == IF x >= y THEN x ELSE y
MinI(x, y) == IF x <= y THEN x ELSE y
AbsI(x) == IF x < 0 THEN -x ELSE x

RECURSIVE NAddAt(_, _, _, _)
NAddAt(a, b, i, c) ==
  IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET t == Limb(a, i) + Limb(b, i) + c
       IN <<t % BASE>> \o NAddAt(a, b, i + 1, t \div BASE)
NAdd(a, b) == NAddAt(a, b, 1, 0)

RECURSIVE NSubAt(_, _, _, _)
NSubAt(a, b, i, c) ==
  IF i > Len(a) THEN <<>>
  ELSE LET t == a[i] - Limb(b, i) - c
       IN <<t % BASE>> \o NSubAt(a, b, i + 1, IF t < 0 THEN 1 ELSE 0)
NSub(a, b) == NTrim(NSubAt(a, b, 1, 0))          \* requires a >= b

RECURSIVE NColSum(_, _, _, _, _)
NColSum(a, b, k, i, hi) == IF i > hi THEN 0
                           ELSE a[i] * b[k + 1 - i] + NColSum(a, b, k, i + 1, hi)
RECURSIVE NMulAt(_, _, _, _)
NMulAt(a, b, k, c) ==
  IF k > Len(a) + Len(b) - 1
  THEN (IF c = 0 THEN <<>> ELSE NOfInt(c))
  ELSE LET t == NColSum(a, b, k, MaxI(1, k + 1 - Len(b)), MinI(k, Len(a))) + c
       IN <<t % BASE>> \o NMulAt(a, b, k + 1, t \div BASE)
NMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE NTrim(NMulAt(a, b, 1, 0))

NShl(a, k) == IF a = <<>> \/ k = 0 THEN a
              ELSE [i \in 1..(k \div LB) |-> 0] \o
                   (IF k % LB = 0 THEN a ELSE NMul(a, <<Pow2(k % LB)>>))

(* floor(a / 2^k) *)
RECURSIVE NShrAt(_, _, _)
NShrAt(a, i, r) == IF i > Len(a) THEN <<>>
                   ELSE <<(a[i] \div Pow2(r)) + (Limb(a, i + 1) % Pow2(r)) * Pow2(LB - r)>>
                        \o NShrAt(a, i + 1, r)
NShr(a, k) == IF k \div LB >= Len(a) THEN <<>>
              ELSE LET b == SubSeq(a, (k \div LB) + 1, Len(a))
                   IN IF k % LB = 0 THEN b ELSE NTrim(NShrAt(b, 1, k % LB))

(* ----------------------------- dyadics --------------------------------- *)
(* <<s, m, e>>                                                             *)
D0 == <<0, <<>>, 0>>
DInt(i) == IF i = 0 THEN D0 ELSE <<IF i < 0 THEN -1 ELSE 1, NOfInt(AbsI(i)), 0>>
DPow(k) == <<1, <<1>>, k>>                           \* 2^k, any k
D1 == DInt(1)
DHalf == DPow(-1)
DNeg(x) == <<-x[1], x[2], x[3]>>
DAbs(x) == <<AbsI(x[1]), x[2], x[3]>>
DSgn(x) == x[1]
DScale(x, k) == IF x[1] = 0 THEN D0 ELSE <<x[1], x[2], x[3] + k>>   \* x * 2^k

DMk(s, m, e) == IF m = <<>> THEN D0 ELSE <<s, m, e>>

DMagCmp(x, y) == LET e == MinI(x[3], y[3])
                 IN NCmp(NShl(x[2], x[3] - e), NShl(y[2], y[3] - e))
DCmp(x, y) == IF x[1] # y[1] THEN (IF x[1] < y[1] THEN -1 ELSE 1)
              ELSE IF x[1] = 0 THEN 0 ELSE x[1] * DMagCmp(x, y)
DLt(x, y) == DCmp(x, y) < 0
DLe(x, y) == DCmp(x, y) <= 0
DEq(x, y) == DCmp(x, y) = 0
DMax(x, y) == IF DLt(x, y) THEN y ELSE x
DMin(x, y) == IF DLt(x, y) THEN x ELSE y

DAdd(x, y) ==
  IF x[1] = 0 THEN y ELSE IF y[1] = 0 THEN x
  ELSE LET e == MinI(x[3], y[3])
           a == NShl(x[2], x[3] - e)
           b == NShl(y[2], y[3] - e)
       IN IF x[1] = y[1] THEN <<x[1], NAdd(a, b), e>>
          ELSE LET c == NCmp(a, b)
               IN IF c = 0 THEN D0
                  ELSE IF c > 0 THEN <<x[1], NSub(a, b), e>>
                  ELSE <<y[1], NSub(b, a), e>>
DSub(x, y) == DAdd(x, DNeg(y))
DMul(x, y) == IF x[1] = 0 \/ y[1] = 0 THEN D0
              ELSE <<x[1] * y[1], NMul(x[2], y[2]), x[3] + y[3]>>

(* floor to an integer (as a dyadic with exponent >= 0) *)
DIsInt(x) == x[1] = 0 \/ x[3] >= 0 \/ NShl(NShr(x[2], -x[3]), -x[3]) = x[2]
DFloor(x) ==
  IF x[1] = 0 \/ x[3] >= 0 THEN x
  ELSE LET q == NShr(x[2], -x[3])
           exact == NShl(q, -x[3]) = x[2]
       IN IF x[1] > 0 THEN DMk(1, q, 0)
          ELSE IF exact THEN DMk(-1, q, 0) ELSE <<-1, NAdd(q, <<1>>), 0>>
DCeil(x) == DNeg(DFloor(DNeg(x)))
DTrunc(x) == IF x[1] >= 0 THEN DFloor(x) ELSE DCeil(x)
DRoundUp(x) == DFloor(DAdd(x, DHalf))                \* nearest, halves up
DRoundEven(x) ==                                       \* nearest, halves to even
  LET f == DFloor(x)
      d == DCmp(DSub(x, f), DHalf)
      odd == ~DIsInt(DScale(f, -1))
  IN IF d > 0 \/ (d = 0 /\ odd) THEN DAdd(f, D1) ELSE f
DClip(x, lo, hi) == DMax(lo, DMin(hi, x))

RECURSIVE NToInt(_)
NToInt(m) == IF m = <<>> THEN 0 ELSE m[1] + BASE * NToInt(Tail(m))
(* value of an integral dyadic of small magnitude as a TLC integer *)
DToInt(x) == IF x[1] = 0 THEN 0
             ELSE x[1] * NToInt(IF x[3] >= 0 THEN NShl(x[2], x[3]) ELSE NShr(x[2], -x[3]))

RECURSIVE DSumAt(_, _)
DSumAt(s, i) == IF i > Len(s) THEN D0 ELSE DAdd(s[i], DSumAt(s, i + 1))
DSum(s) == DSumAt(s, 1)

DDist(x, y) == DAbs(DSub(x, y))
=============================================================================
