------------------------------- MODULE Quality -------------------------------
(***************************************************************************)
(* Measures of how much quantisation loses: collisions (float values that  *)
(* share a quantised value), mean square noise, divergence and cross       *)
(* entropy of histograms, and the comparison of two distributions.         *)
(***************************************************************************)
EXTENDS Calib, Transc

(* --------------------------- logarithm ----------------------------------- *)
RECURSIVE RecipN(_, _, _), AtSum(_, _, _)
NBits(m) == LET h == m[Len(m)] IN (Len(m) - 1) * LB + (CHOOSE k \in 1..LB : 2^(k - 1) <= h /\ h < 2^k)
DExpo(x) == NBits(x[2]) + x[3]                       \* x = m * 2^DExpo(x), 1/2 <= m < 1
LTop(x) == IF Len(x[2]) <= 5 THEN x                   \* 49 to 60 significant bits
           ELSE <<x[1], SubSeq(x[2], Len(x[2]) - 4, Len(x[2])), x[3] + LB * (Len(x[2]) - 5)>>
RecipN(d, r, n) == IF n = 0 THEN r ELSE RecipN(d, TLCEval(LTop(DMul(r, DSub(DInt(2), LTop(DMul(d, r)))))), n - 1)
(* 1/d for d > 0: Newton from 3/2 on the mantissa (error 1/2, 1/4, 1/16, ... 2^-64) *)
DRecip(d) == LET k == DExpo(d)  m == LTop(DScale(d, -k)) IN DScale(RecipN(m, DScale(DInt(3), -1), 6), -k)
InvOdd == <<                      \* 1/(2k+1), k = 0..18
  <<1, <<0, 0, 0, 0, 0, 2048>>, -71>>,
  <<1, <<2731, 2730, 2730, 2730, 2730, 2730>>, -73>>,
  <<1, <<3277, 3276, 3276, 3276, 3276, 3276>>, -74>>,
  <<1, <<2341, 2340, 2340, 2340, 2340, 2340>>, -74>>,
  <<1, <<3641, 3640, 3640, 3640, 3640, 3640>>, -75>>,
  <<1, <<2979, 744, 2234, 2606, 3723, 2978>>, -75>>,
  <<1, <<2521, 2520, 2520, 2520, 2520, 2520>>, -75>>,
  <<1, <<2185, 2184, 2184, 2184, 2184, 2184>>, -75>>,
  <<1, <<241, 3855, 240, 3855, 240, 3855>>, -76>>,
  <<1, <<3665, 1077, 3449, 3664, 1077, 3449>>, -76>>,
  <<1, <<3121, 3120, 3120, 3120, 3120, 3120>>, -76>>,
  <<1, <<1069, 534, 2315, 3205, 1602, 2849>>, -76>>,
  <<1, <<2621, 3440, 163, 983, 1802, 2621>>, -76>>,
  <<1, <<3793, 1061, 2427, 3792, 1061, 2427>>, -76>>,
  <<1, <<3390, 2824, 988, 141, 3531, 2259>>, -76>>,
  <<1, <<2114, 528, 132, 1057, 264, 2114>>, -76>>,
  <<1, <<3972, 992, 248, 2110, 3599, 3971>>, -77>>,
  <<1, <<3745, 3744, 3744, 3744, 3744, 3744>>, -77>>,
  <<1, <<2657, 1992, 3542, 2656, 1992, 3542>>, -77>> >>
AtSum(z2, k, n) == IF k > n THEN D0 ELSE LTop(DAdd(LTop(InvOdd[k + 1]), LTop(DMul(z2, AtSum(z2, k + 1, n)))))
(* ln m for m in [2/3, 4/3]: 2 atanh((m-1)/(m+1)), |argument| <= 1/5 *)
LnMant(m) == LET z == TLCEval(LTop(DMul(DSub(m, D1), DRecip(DAdd(m, D1))))) IN DScale(LTop(DMul(z, AtSum(TLCEval(LTop(DMul(z, z))), 0, 10))), 1)
Ln2 == <<1, <<2532, 2748, 3961, 3356, 2039, 1825, 177>>, -80>>
DLn(x) == LET t == LTop(x)  e == DExpo(t)
              k == IF DLt(DMul(DInt(3), DScale(t, -e)), DInt(2)) THEN e - 1 ELSE e
          IN IF DEq(x, D1) THEN D0 ELSE DAdd(DMul(DInt(k), Ln2), LnMant(DScale(t, -k)))

(* --------------------------- collisions ----------------------------------- *)
(* floats are the same value when they round to the same multiple of 10^-eps (eps = 0: when they are equal) *)
RECURSIVE Ten(_)
Ten(k) == IF k = 0 THEN D1 ELSE DMul(DInt(10), Ten(k - 1))
Class(x, eps) == IF eps = 0 THEN x ELSE DRoundEven(DMul(x, Ten(eps)))
Same(a, b) == DEq(a, b)
(* number of distinct values in a sequence of dyadics *)
Distinct(s) == Cardinality({i \in 1..Len(s) : \A j \in 1..(i - 1) : ~Same(s[i], s[j])})
Collisions(f, q, eps) ==
  LET c == TLCEval([i \in 1..Len(f) |-> Class(f[i], eps)])
      first == {i \in 1..Len(f) : \A j \in 1..(i - 1) : ~(Same(c[i], c[j]) /\ Same(q[i], q[j]))}     \* one index for each distinct pair
      mates(i) == Cardinality({j \in first : Same(q[i], q[j])})
  IN Cardinality({i \in first : mates(i) > 1})
(* rounding to decimals is unambiguous for the samples *)
Clear(f, eps) == eps = 0 \/ \A i \in 1..Len(f) : LET y == DMul(f[i], Ten(eps)) IN DLt(DPow(-8), DAbs(DSub(DSub(y, DFloor(y)), DHalf)))

JCollide(e) ==
  IF ~e.ok THEN V("none", {"counting collisions raises"}, {})
  ELSE LET n == Collisions(e.f.v, e.q.v, e.eps) IN
  IF ~Clear(e.f.v, e.eps) THEN V("none", {}, {"ambiguous"})
  ELSE V("none",
    If(e.n = n, "collisions are the distinct floats sharing a quantised value")
    \cup If(e.same, "tensors unchanged"),
    {"Collisions"} \cup Tag(n > 0, "colliding") \cup Tag(n = 0, "none-colliding") \cup Tag(e.eps > 0, "tolerance")
    \cup Tag(\E i, j \in 1..Len(e.f.v) : i < j /\ e.f.v[i] = e.f.v[j] /\ e.q.v[i] = e.q.v[j], "repeated-value"))

CeilDiv(a, b) == (a + b - 1) \div b
JLayerCollide(e) ==
  IF ~e.ok THEN V("none", {"counting collisions raises"}, {})
  ELSE LET want(i) == LET t == e.tensors[i]  n == Collisions(t.f.v, t.q.v, e.eps) IN IF t.rows = 0 THEN n ELSE CeilDiv(n, t.rows)
           tot == ISum([i \in 1..Len(e.tensors) |-> e.tensors[i].n], 1) IN
  IF \E i \in 1..Len(e.tensors) : ~Clear(e.tensors[i].f.v, e.eps) THEN V("none", {}, {"ambiguous"})
  ELSE V("none",
    If(e.names = [i \in 1..Len(e.tensors) |-> e.tensors[i].name], "a layer reports its kernel and its outputs")
    \cup If(\A i \in 1..Len(e.tensors) : e.tensors[i].n = want(i), "collisions of a layer, per sample for its outputs")
    \cup If(e.sum = tot, "sum of a layer's collisions")
    \cup If(\A i \in 1..Len(e.others) : e.others[i] = <<0, 0>>, "a layer without weights has no collisions"),
    {"LayerCollisions"} \cup Tag(Len(e.tensors) = 3, "with-activation") \cup Tag(tot > 0, "colliding"))

(* --------------------------- noise measures ------------------------------- *)
Near(a, b, size) == DLe(DDist(a, b), DScale(DAdd(size, DPow(-60)), -30))
ASum(s) == DSum([i \in 1..Len(s) |-> DAbs(s[i])])
JMse(e) ==
  IF ~e.ok \/ e.r[1] = 2 THEN V("none", {"mean square noise raises"}, {})
  ELSE LET n == Len(e.p.v)
           s == DSum([i \in 1..n |-> LET d == DSub(e.p.v[i], e.q.v[i]) IN DMul(d, d)]) IN
  V("none", If(Near(DMul(e.r, DInt(n)), s, s), "mean of the squared differences") \cup If(e.same, "histograms unchanged"), {"Mse"} \cup Tag(DSgn(s) = 0, "equal"))

(* divergence: sum of p ln(p/q) - p + q; an empty bin of p leaves q; an empty bin of q only adds *)
KTerm(p, q) == DAdd(DMul(p, DSub(DLn(p), DLn(q))), DSub(q, p))
JKl(e) ==
  IF ~e.ok \/ e.r[1] = 2 THEN V("none", {"divergence raises or is not finite"}, {})
  ELSE LET n == Len(e.p.v)  Pz(i) == DSgn(e.p.v[i]) = 0  Qz(i) == DSgn(e.q.v[i]) = 0
           t == TLCEval([i \in 1..n |-> IF Pz(i) THEN e.q.v[i] ELSE IF Qz(i) THEN D0 ELSE KTerm(e.p.v[i], e.q.v[i])])
           s == DSum(t)
           size == DAdd(ASum(t), DAdd(ASum(e.p.v), ASum(e.q.v)))
           tol == DAdd(DScale(size, -36), DScale(DInt(n), -24))       \* empty bins stand for bins of about 10^-10
           bare == \E i \in 1..n : Qz(i) /\ ~Pz(i) IN
  V("none",
    If(DLe(DNeg(tol), e.r), "divergence is not negative")
    \cup If(DLe(DSub(s, tol), e.r) /\ (bare \/ DLe(e.r, DAdd(s, tol))), "sum of p ln(p/q) - p + q")
    \cup If(e.p.v = e.q.v => DLe(e.r, tol), "no divergence from itself")
    \cup If(bare => LET m == DSum([i \in 1..n |-> IF Qz(i) THEN e.p.v[i] ELSE D0]) IN DLe(DSub(s, tol), DSub(e.r, DMul(m, D1))), "what the other misses costs at least its share")
    \cup If(e.same, "histograms unchanged"),
    {"Kl"} \cup Tag(e.p.v = e.q.v, "equal") \cup Tag(\E i \in 1..n : Pz(i), "empty-bin") \cup Tag(bare, "missing-bin"))

JCross(e) ==
  IF ~e.ok \/ e.r[1] = 2 THEN V("none", {"cross entropy raises or is not finite"}, {})
  ELSE LET n == Len(e.p.v)
           t == TLCEval([i \in 1..n |-> DMul(e.p.v[i], DLn(e.q.v[i]))]) IN
  V("none", If(DLe(DDist(e.r, DNeg(DSum(t))), DScale(DAdd(ASum(t), ASum(e.p.v)), -36)), "minus the sum of p ln q") \cup If(e.same, "histograms unchanged"), {"CrossEntropy"})

(* --------------------------- distributions -------------------------------- *)
JNormal(e) ==
  IF ~e.ok THEN V("none", {"normalising raises"}, {})
  ELSE LET n == ISum(e.h, 1) IN
  V("none", If(Len(e.v.v) = Len(e.h) /\ \A k \in 1..Len(e.h) : Near(DMul(e.v.v[k], DInt(n)), DInt(e.h[k]), DInt(e.h[k])), "shares of the samples")
    \cup If(Near(DSum(e.v.v), D1, D1), "shares sum to one") \cup If(e.same, "histograms unchanged"), {"Normalize"})

JCompare(e) ==
  IF ~e.ok \/ e.r[1] = 2 THEN V("none", {"comparing distributions raises"}, {})
  ELSE LET n1 == DInt(ISum(e.h1, 1))  n2 == DInt(ISum(e.h2, 1))  k == Len(e.h1)
           d(i) == IF e.norm THEN DSub(DMul(DInt(e.h1[i]), n2), DMul(DInt(e.h2[i]), n1)) ELSE DSub(DInt(e.h1[i]), DInt(e.h2[i]))
           s == DSum([i \in 1..k |-> DMul(d(i), d(i))])
           den == IF e.norm THEN DMul(DMul(n1, n1), DMul(n2, n2)) ELSE D1
           lhs == DMul(DMul(e.r, DInt(k)), den) IN
  V("none", If(DLe(DDist(lhs, s), DScale(DAdd(s, IF e.norm THEN DScale(den, -50) ELSE D0), -30)), "noise between the histograms, as shares or as counts")
    \cup If(e.same, "histograms unchanged"),
    {"Compare"} \cup Tag(e.norm, "shares") \cup Tag(~e.norm, "counts") \cup Tag(n1 # n2, "different-sizes"))

YStep(s, e) ==
  CASE e.ev = "Collide" -> JCollide(e)
    [] e.ev = "LayerCollide" -> JLayerCollide(e)
    [] e.ev = "Mse" -> JMse(e)
    [] e.ev = "Kl" -> JKl(e)
    [] e.ev = "Cross" -> JCross(e)
    [] e.ev = "Normal" -> JNormal(e)
    [] e.ev = "Compare" -> JCompare(e)
    [] e.ev = "Exception" -> V("none", {"unexpected error " \o e.what}, {})
    [] OTHER -> V("none", {"unknown event"}, {})
=============================================================================
