-------------------------------- MODULE Calib --------------------------------
(***************************************************************************)
(* Calibration: from float samples to the scale and zero point of a type,  *)
(* and the histogram (distribution) the samples are kept in.               *)
(* The judgement is relational: any scale and zero point that represent    *)
(* the samples as the guarantee demands are accepted.                      *)
(***************************************************************************)
EXTENDS Quantizer

(* slack, in steps, of evaluating x/s in the float type of the samples; the states of a recurrent layer pass through many binary32 operations *)
CTol(e) == IF "src" \in DOMAIN e /\ e.src = "recurrent" THEN DScale(e.s, -5) ELSE DScale(e.s, MaxI(-30, e.t.bits + 3 - (IF e.f32 THEN 24 ELSE 50)))
SMin(x) == CHOOSE v \in {x.v[i] : i \in 1..Len(x.v)} : \A i \in 1..Len(x.v) : DLe(v, x.v[i])

(* free zero point: every sample lies within one step of the representable interval and is rebuilt to one step *)
Represented(e, i) ==
  LET lo == DeqVal(DSub(TLo(e.t), D1), e.s, e.z)
      hi == DeqVal(DAdd(THi(e.t), D1), e.s, e.z)
      x == e.x.v[i]
      w == DeqVal(e.q.v[i], e.s, e.z)
      tol == CTol(e)
  IN [sat |-> DLe(DSub(lo, tol), x) /\ DLe(x, DAdd(hi, tol)),
      err |-> DLe(DDist(w, x), DAdd(e.s, tol))]
(* forced zero point 0: the largest magnitude fits (one step beyond when the data is on the other side of the type) *)
ForcedFits(e, i) ==
  DLe(DAbs(e.x.v[i]), DAdd(DMul(e.s, IF e.sym THEN THi(e.t) ELSE DAdd(THi(e.t), D1)), CTol(e)))
ForcedRebuilt(e, i) ==
  LET w == DMul(e.q.v[i], e.s) IN
  (e.t.signed \/ DSgn(e.x.v[i]) >= 0) => DLe(DDist(w, e.x.v[i]), DAdd(e.s, CTol(e)))

JCalib(e) ==
  IF ~e.ok THEN V("none", {"calibration raises"}, {})
  ELSE IF ~(DSgn(e.s) = 1) THEN V("none", {"scale positive and finite"}, {})
  ELSE IF e.z[1] = 2 \/ ~DIsInt(e.z) \/ DLt(e.z, TLo(e.t)) \/ DLt(THi(e.t), e.z) THEN V("none", {"zero point in the range of the type"}, {})
  ELSE V("none",
    If(DEq(e.q0, e.z), "real zero quantises to the zero point")
    \cup If(e.after = e.x, "samples unchanged")
    \cup (IF "fs" \in DOMAIN e /\ e.fs # <<>>      \* the scale is imposed: it is used as it is, whatever the samples are
          THEN If(DEq(e.s, e.fs[1]), "forced scale used") \cup (IF e.forced THEN If(e.z = D0, "forced zero point used") ELSE {})
          ELSE IF e.forced
          THEN If(e.z = D0, "forced zero point used")
               \cup If(All(e.x, LAMBDA i : ForcedFits(e, i)), "largest magnitude fits")
               \cup If(All(e.x, LAMBDA i : ForcedRebuilt(e, i)), "reconstruction within one step")
          ELSE If(All(e.x, LAMBDA i : Represented(e, i).sat), "no sample saturates by more than a step")
               \cup If(All(e.x, LAMBDA i : Represented(e, i).err), "reconstruction within one step")),
    {"Calib"} \cup Tag("fs" \in DOMAIN e /\ e.fs # <<>>, "forced-scale") \cup Tag(e.forced, "forced") \cup Tag(e.forced /\ e.sym, "symmetric") \cup Tag(~e.t.signed, "unsigned")
    \cup Tag(All(e.x, LAMBDA i : e.x.v[i] = e.x.v[1]), "constant") \cup Tag(All(e.x, LAMBDA i : DSgn(e.x.v[i]) = 1), "all-positive")
    \cup Tag(All(e.x, LAMBDA i : DSgn(e.x.v[i]) = -1), "all-negative") \cup Tag(All(e.x, LAMBDA i : e.x.v[i] = D0), "all-zero")
    \cup Tag(Len(e.x.v) = 1, "single") \cup Tag(e.f32, "float32") \cup {e.src})

(* -------------------------- histogram ---------------------------------- *)
RECURSIVE ISum(_, _)
ISum(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + ISum(s, i + 1)
InBin(e, k, x) == /\ DLe(e.edges.v[k], x)
                  /\ IF k = Len(e.counts) THEN DLe(x, e.edges.v[k + 1]) ELSE DLt(x, e.edges.v[k + 1])
(* large sample sets are recorded as distinct values with their multiplicities e.mul *)
Mul(e, i) == IF "mul" \in DOMAIN e /\ e.mul # <<>> THEN e.mul[i] ELSE 1
RECURSIVE MulSum(_, _, _)
MulSum(e, S, i) == IF i = 0 THEN 0 ELSE MulSum(e, S, i - 1) + (IF i \in S THEN Mul(e, i) ELSE 0)
Samples(e) == MulSum(e, 1..Len(e.x.v), Len(e.x.v))
CountIn(e, k) == MulSum(e, {i \in 1..Len(e.x.v) : InBin(e, k, e.x.v[i])}, Len(e.x.v))
ConstX(e) == All(e.x, LAMBDA i : e.x.v[i] = e.x.v[1])
JHist(e) ==
  IF ~e.ok THEN V("none", {"histogram raises"}, {})
  ELSE LET nb == Len(e.counts)  n == Len(e.x.v) IN
  IF Len(e.edges.v) # nb + 1 \/ nb # e.bins THEN V("none", {"one more edge than bins"}, {})
  ELSE V("none",
    If(\A k \in 1..nb : DLt(e.edges.v[k], e.edges.v[k + 1]), "edges increase")
    \cup If(ISum(e.counts, 1) = Samples(e), "every sample counted once")
    \cup (IF nb <= 20 THEN If(\A k \in 1..nb : CountIn(e, k) = e.counts[k], "bin counts") ELSE {})
    \cup If(All(e.x, LAMBDA i : DLe(e.min, e.x.v[i]) /\ DLe(e.x.v[i], e.max)), "samples between minimum and maximum")
    \cup (IF ConstX(e) \/ n = 0 THEN {}
          ELSE If((\E i \in 1..n : DEq(e.min, e.x.v[i])) /\ (\E i \in 1..n : DEq(e.max, e.x.v[i])), "minimum and maximum are samples"))
    \cup If(\A b \in 1..Len(e.got) :
              LET g == e.got[b] IN
              /\ g.items = e.counts[g.k] /\ (g.items >= 2 => g.n = g.items)
              /\ \A i \in 1..Len(g.v) : DLe(g.min, g.v[i]) /\ DLe(g.v[i], g.max) /\ InBin(e, g.k, g.v[i]), "bin content"),
    {"Hist"} \cup Tag(nb = 1, "one-bin") \cup Tag(ConstX(e), "constant-data") \cup Tag(Samples(e) > 3000, "thousands-of-samples"))

(* dist[a:b]: everything inside is kept; nothing more than one bin outside is kept *)
JSlice(e) ==
  IF ~e.ok THEN V("none", {"slicing raises"}, {})
  ELSE LET In(x) == (e.hasa => DLe(e.a, x)) /\ (e.hasb => DLe(x, e.b))
           inside == {i \in 1..Len(e.x.v) : In(e.x.v[i])}
           w == DAdd(DAdd(e.w, DScale(e.w, -20)), DScale(DAdd(DAbs(e.dmin), DAbs(e.dmax)), IF e.f32 THEN -21 ELSE -50))
           narrow == DLt(DSub(IF e.hasb THEN e.b ELSE e.dmax, IF e.hasa THEN e.a ELSE e.dmin), w)
  IN V("none",
       If(\A i \in inside : DLe(e.min, e.x.v[i]) /\ DLe(e.x.v[i], e.max), "kept range covers the samples inside")
       \cup If(e.total >= MulSum(e, inside, Len(e.x.v)), "kept samples counted")
       \cup (IF inside = {} \/ (narrow /\ \A i, j \in inside : e.x.v[i] = e.x.v[j]) THEN {}
             ELSE If((e.hasa => DLe(DSub(e.a, w), e.min)) /\ (e.hasb => DLe(e.max, DAdd(e.b, w))), "nothing kept more than a bin outside"))
       \cup If(e.before, "distribution unchanged by slicing"),
       {"Slice"} \cup Tag(inside = {}, "nothing-inside") \cup Tag(narrow, "narrower-than-a-bin") \cup Tag(~e.hasa, "open-start") \cup Tag(~e.hasb, "open-end"))

CStep(s, e) ==
  CASE e.ev = "Calib" -> JCalib(e)
    [] e.ev = "Hist" -> JHist(e)
    [] e.ev = "Slice" -> JSlice(e)
    [] e.ev = "Exception" -> V("none", {"unexpected error " \o e.what}, {})
    [] OTHER -> V("none", {"unknown event"}, {})
=============================================================================
