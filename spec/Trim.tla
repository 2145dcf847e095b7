-------------------------------- MODULE Trim --------------------------------
(***************************************************************************)
(* Trimming calibration data: from a distribution to one of a narrower     *)
(* range, and the scale calibrated from it.                                *)
(***************************************************************************)
EXTENDS Quality

(* position of the quantile of share p among n sorted samples, and slack for evaluating it in floats *)
HPos(p, n) == DMul(p, DInt(n - 1))
PosLo(p, n) == DToInt(DFloor(DAdd(HPos(p, n), DPow(-20)))) + 1     \* at least this many samples at or beyond the cut
PosHi(p, n) == DToInt(DCeil(DSub(HPos(p, n), DPow(-20))))          \* at most this many samples strictly beyond it
XTol(e) == DScale(DMax(DAbs(e.omin), DAbs(e.omax)), IF e.f32 THEN -21 ELSE -48)
NumWhere(x, P(_)) == Cardinality({i \in 1..Len(x.v) : P(x.v[i])})

Nested(e) == If(DLe(DSub(e.omin, XTol(e)), e.min) /\ DLe(e.min, e.max) /\ DLe(e.max, DAdd(e.omax, XTol(e))), "trimmed range lies inside the original")
Calibrated(e) == If(DSgn(e.s) = 1 /\ DLe(e.s, DAdd(e.s0, DScale(e.s0, -20))), "calibrated scale positive and no larger than without trimming")
                 \cup If(DIsInt(e.z) /\ DLe(DInt(-128), e.z) /\ DLe(e.z, DInt(127)), "zero point in the range of the type")

(* when the samples left between the cuts are all equal the histogram is one unit wide around them *)
EdgeA(e) == e.edges.v[1]
EdgeZ(e) == e.edges.v[Len(e.edges.v)]
Below(x, v, tol) == NumWhere(x, LAMBDA y : DLt(DAdd(y, tol), v))
Above(x, v, tol) == NumWhere(x, LAMBDA y : DLt(v, DSub(y, tol)))
Degenerate(e) ==
  /\ e.kind = "share"
  /\ LET xt == XTol(e) IN DLe(DDist(DSub(EdgeZ(e), EdgeA(e)), D1), DAdd(xt, DPow(-20)))
  /\ LET tol == DAdd(XTol(e), DPow(IF e.f32 THEN -22 ELSE -48))
         mid == DScale(DAdd(EdgeA(e), EdgeZ(e)), -1)
         b == Below(e.x, mid, tol)
         a == Above(e.x, mid, tol)
         hi == PosHi(e.p, Len(e.x.v))
     IN b <= hi /\ a <= hi /\ a + b < Len(e.x.v)

JShare(e) ==
  LET n == Len(e.x.v)  hi == PosHi(e.p, n)  lo == MinI(n, PosLo(e.p, n))  tol == XTol(e)
      below == Below(e.x, e.min, tol)
      above == Above(e.x, e.max, tol)
      atlow == n - Above(e.x, e.min, tol)
      athigh == n - Below(e.x, e.max, tol)
      (* one bin's count of the clipped samples; samples within slack of an edge may be on either side *)
      cl == TLCEval([i \in 1..n |-> DClip(e.x.v[i], e.min, e.max)])
      inner == TLCEval([k \in 1..Len(e.edges.v) |-> DAdd(e.edges.v[k], tol)])
      outer == TLCEval([k \in 1..Len(e.edges.v) |-> DSub(e.edges.v[k], tol)])
      AtMost(k) == Cardinality({i \in 1..n : DLe(outer[k], cl[i]) /\ DLe(cl[i], inner[k + 1])})
      AtLeast(k) == Cardinality({i \in 1..n : DLt(inner[k], cl[i]) /\ DLt(cl[i], outer[k + 1])})
  IN If(below <= hi /\ above <= hi, "no more than the share is cut at either end")
     \cup If(atlow >= lo /\ athigh >= lo, "the share is cut at either end")
     \cup If(ISum(e.counts, 1) = n, "every sample is still counted")
     \cup (IF Len(e.counts) > 8 THEN {}
           ELSE If(\A k \in 1..Len(e.counts) : AtLeast(k) <= e.counts[k] /\ e.counts[k] <= AtMost(k), "samples between the cuts are unchanged"))

JEntropy(e) ==
  LET tol == XTol(e)
      cut == DSub(DAdd(e.omin, DMul(DInt(e.levels), e.w)), tol)
      top == DAdd(e.max, tol)
      surely == NumWhere(e.x, LAMBDA x : DLe(x, cut)) IN
  If(DLe(DDist(e.min, e.omin), tol), "the lowest samples are kept")
  \cup If(All(e.x, LAMBDA i : DLe(e.x.v[i], cut) => DLe(e.x.v[i], top)) /\ ISum(e.counts, 1) >= surely, "as many bins as quantised levels are kept")

JTrim(e) ==
  IF ~e.ok THEN V("none", {"trimming raises"}, {})
  ELSE V("none",
    (IF Degenerate(e) THEN If(DSgn(e.s) = 1, "calibrated scale positive") \cup If(ISum(e.counts, 1) = Len(e.x.v), "every sample is still counted")
     ELSE Nested(e) \cup Calibrated(e))
    \cup If(e.same, "the original distribution is unchanged")
    \cup CASE e.kind = "minmax" -> If(DEq(e.min, e.omin) /\ DEq(e.max, e.omax) /\ ISum(e.counts, 1) = Len(e.x.v) /\ DEq(e.s, e.s0), "min-max keeps everything")
           [] e.kind = "share" -> IF Degenerate(e) THEN {} ELSE JShare(e)
           [] e.kind = "entropy" -> JEntropy(e)
           [] e.kind = "search" -> If(DLe(e.noise, DAdd(e.noise0, DScale(e.noise0, -30))), "no noisier than untrimmed"),
    {"Trim", e.kind} \cup Tag(Degenerate(e) /\ ~e.const, "nothing-but-one-value-left") \cup Tag(e.kind = "share" /\ DLt(e.omin, e.min) /\ DLt(e.max, e.omax), "both-ends-cut")
    \cup Tag(e.const, "constant") \cup Tag(Len(e.x.v) = 1, "single") \cup Tag(DLt(e.s, e.s0), "finer-scale") \cup Tag(e.kind = "entropy" /\ DLt(e.max, e.omax), "entropy-cuts"))

(* reduction of a histogram: groups of g consecutive bins are levelled over their non-empty bins *)
GroupOf(k, g) == (k - 1) \div g
JReduce(e) ==
  IF ~e.ok \/ Len(e.out) # Len(e.h) THEN V("none", {"reduction keeps the length"}, {})
  ELSE LET g == e.group  n == Len(e.h)
           Last1(b) == MinI(n, (b + 1) * g)
           Tot(b) == ISum(SubSeq(e.h, b * g + 1, Last1(b)), 1)
           Full(b) == Cardinality({k \in (b * g + 1)..Last1(b) : e.h[k] # 0})
       IN V("none",
         If(\A k \in 1..n : e.out[k][1] # 2 /\ (e.h[k] = 0 => e.out[k] = D0), "empty bins stay empty")
         \cup If(\A k \in 1..n : e.h[k] # 0 /\ e.out[k][1] # 2 =>
                   LET b == GroupOf(k, g) IN DLe(DDist(DMul(e.out[k], DInt(Full(b))), DInt(Tot(b))), DScale(DInt(Tot(b)), -40)), "each group is levelled without losing samples"),
         {"Reduce"} \cup Tag(\E b \in 0..((n - 1) \div g) : Tot(b) = 0, "empty-group"))

(* entropy trimming: the histogram cut after i bins, the rest counted in the last of them, is compared with the reduction of the cut
   histogram; the cut of smallest divergence is taken.  Divergences times the number of samples, in terms of integers only:
   sum p (ln p - ln q) with q = total of the group / its non-empty bins * N/M, an empty q standing for a share of 10^-10 *)
LnE10 == DMul(DInt(10), DLn(DInt(10)))
Divergence(h, i, g, lt) ==
  LET n == ISum(h, 1)
      m == ISum(SubSeq(h, 1, i), 1)
      Last1(b) == MinI(i, (b + 1) * g)
      tot == TLCEval([b \in 0..((i - 1) \div g) |-> ISum(SubSeq(h, b * g + 1, Last1(b)), 1)])
      full == TLCEval([b \in 0..((i - 1) \div g) |-> Cardinality({k \in (b * g + 1)..Last1(b) : h[k] # 0})])
      P(k) == IF k = i THEN h[k] + n - m ELSE h[k]
      Lq(k) == IF h[k] = 0 THEN DSub(lt[n], LnE10) ELSE LET b == GroupOf(k, g) IN DSub(DAdd(lt[tot[b]], lt[n]), DAdd(lt[full[b]], lt[m]))
  IN DSum([k \in 1..i |-> IF P(k) = 0 THEN D0 ELSE DMul(DInt(P(k)), DSub(lt[P(k)], Lq(k)))])
JChoice(e) ==
  IF ~e.ok THEN V("none", {"trimming raises"}, {})
  ELSE LET B == Len(e.h)  n == ISum(e.h, 1)
           lt == TLCEval([j \in 1..n |-> DLn(DInt(j))])
           d == TLCEval([i \in e.levels..(B - 1) |-> Divergence(e.h, i, e.group, lt)])
           (* the bins kept include the one the cut falls into *)
           ok == \E i \in e.levels..(B - 1) : i \in {e.kept - 1, e.kept} /\ \A j \in e.levels..(B - 1) : DLe(d[i], DAdd(d[j], DScale(DInt(n), -20))) IN
  V("none", If(ok, "the cut of smallest divergence is chosen"), {"Choice"} \cup Tag(e.kept > e.levels + 1 /\ e.kept < B, "inner-cut") \cup Tag(e.kept = e.levels + 1, "shortest-cut"))

(* a layer whose weights are calibrated through a trimming optimiser *)
JTrimLayer(e) ==
  IF ~e.ok THEN V("none", {"layer with trimming raises"}, {})
  ELSE LET n == Len(e.x.v)
           off == NumWhere([v |-> [i \in 1..n |-> DSub(DDist(DeqVal(e.q.v[i], e.s, e.z), e.x.v[i]), DAdd(e.s, DScale(e.s, -12)))]], LAMBDA d : DSgn(d) > 0) IN
  V("none", Calibrated(e) \cup If(off <= 2 * PosHi(e.p, n), "no more than the share is saturated"),
    {"TrimLayer"} \cup Tag(off > 0, "saturated"))

TStep(s, e) ==
  CASE e.ev = "Trim" -> JTrim(e)
    [] e.ev = "Reduce" -> JReduce(e)
    [] e.ev = "Choice" -> JChoice(e)
    [] e.ev = "TrimLayer" -> JTrimLayer(e)
    [] e.ev = "Exception" -> V("none", {"unexpected error " \o e.what}, {})
    [] OTHER -> V("none", {"unknown event"}, {})
=============================================================================
