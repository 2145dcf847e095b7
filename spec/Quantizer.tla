------------------------------ MODULE Quantizer ------------------------------
(***************************************************************************)
(* Affine quantisation of reals onto an n-bit integer grid: types, nearest *)
(* rounding, rounding policies, reconstruction.  Used by every other       *)
(* specification.  All judgements are relational (no division): for s > 0  *)
(*      u = floor(x/s + z + p)   <=>   (u-z-p)*s <= x < (u+1-z-p)*s.       *)
(***************************************************************************)
EXTENDS Verdict

(* ------------------------------- types --------------------------------- *)
TLo(t) == IF t.signed THEN DNeg(DPow(t.bits - 1)) ELSE D0
THi(t) == IF t.signed THEN DSub(DPow(t.bits - 1), D1) ELSE DSub(DPow(t.bits), D1)

(* ----------------------- exactness of binary64 -------------------------- *)
(* With a power-of-two scale and short operands every way of evaluating    *)
(* x/s + z + 1/2 in binary64 is exact, so the judgement uses no tolerance;  *)
(* otherwise a relative error of 2^-46 is granted.                         *)
NIsPow2(m) == Len(m) > 0 /\ (\A i \in 1..(Len(m) - 1) : m[i] = 0)
              /\ m[Len(m)] \in {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048}
Exact(x, s, z) == /\ NIsPow2(s[2]) /\ Len(x[2]) <= 3 /\ Len(z[2]) <= 2
                  /\ (x[1] = 0 \/ AbsI(x[3] - s[3]) < 14) /\ AbsI(s[3]) < 40
Eps(x, s, z, q) == IF Exact(x, s, z) THEN D0
                   ELSE DScale(DAdd(DAbs(x), DMul(DAdd(DAdd(DAbs(z), DAbs(q)), D1), s)), -46)

(* q is the saturated floor of x/s + z + p, p any real; e is the tolerance on x *)
FloorRelE(x, s, z, p, t, q, e) ==
  LET b == DSub(DSub(q, z), p)
  IN /\ DIsInt(q) /\ DLe(TLo(t), q) /\ DLe(q, THi(t))
     /\ DLt(TLo(t), q) => DLe(DMul(b, s), DAdd(x, e))
     /\ DLt(q, THi(t)) => IF e = D0 THEN DLt(x, DMul(DAdd(b, D1), s))
                          ELSE DLe(x, DAdd(DMul(DAdd(b, D1), s), e))
(* an exact tie is decided: when x is a multiple of s by a half or an       *)
(* integer, the correctly rounded quotient and all that follows are exact   *)
NotNextTie(x, s, z, p, t, q) == DLt(q, THi(t)) => ~DEq(x, DMul(DAdd(DSub(DSub(q, z), p), D1), s))
FloorRel(x, s, z, p, t, q) == FloorRelE(x, s, z, p, t, q, Eps(x, s, z, q)) /\ NotNextTie(x, s, z, p, t, q)
Nearest(x, s, z, t, q) == FloorRel(x, s, z, DHalf, t, q)

(* reconstruction: v is (q - z) * s up to binary64 rounding *)
DeqVal(q, s, z) == DMul(DSub(q, z), s)
DeqRel(q, s, z, v) == LET w == DeqVal(q, s, z)
                      IN DLe(DDist(v, w), DScale(DAbs(w), -50))

(* --------------------------- event helpers ------------------------------ *)
SameShape(a, b) == a.sh = b.sh /\ Len(a.v) = Len(b.v)
All(a, P(_)) == \A i \in 1..Len(a.v) : P(i)
AsStr(ok, n) == IF ok THEN "" ELSE n

TieTags(e) ==
  LET z == e.zp  s == e.s IN
  UNION {
    Tag(\E i \in 1..Len(e.x.v) : DEq(DAdd(DMul(DSub(e.out.v[i], z), s), D0), DAdd(e.x.v[i], DScale(s, -1))), "exact-tie"),
    Tag(\E i \in 1..Len(e.out.v) : e.out.v[i] = TLo(e.t), "at-low-end"),
    Tag(\E i \in 1..Len(e.out.v) : DEq(e.out.v[i], THi(e.t)), "at-high-end"),
    Tag(\E i \in 1..Len(e.x.v) : e.x.v[i][1] < 0, "negative-input"),
    Tag(e.x.sh = <<>>, "scalar"), Tag(Len(e.x.sh) > 1, "multi-dim"),
    Tag(Len(e.x.v) = 0, "empty"), Tag(e.t.bits > 16, "wide-type") }

JQuantize(e) ==
  IF e.out.ty = "E" THEN [st |-> "none", bad |-> {"quantise raises"}, cov |-> {}]
  ELSE IF ~SameShape(e.out, e.x) THEN [st |-> "none", bad |-> {"quantised shape"}, cov |-> {}]
  ELSE [st |-> "none",
        bad |-> If(All(e.x, LAMBDA i : Nearest(e.x.v[i], e.s, e.zp, e.t, e.out.v[i])), "nearest and saturated")
                \cup If(e.after = e.x, "input unchanged"),
        cov |-> TieTags(e) \cup {"Quantize"}]

JDequantize(e) ==
  IF e.out.ty = "E" THEN [st |-> "none", bad |-> {"dequantise raises"}, cov |-> {}]
  ELSE IF ~SameShape(e.out, e.q) THEN [st |-> "none", bad |-> {"dequantised shape"}, cov |-> {}]
  ELSE [st |-> "none",
        bad |-> If(All(e.q, LAMBDA i : DeqRel(e.q.v[i], e.s, e.zp, e.out.v[i])), "reconstruction value")
                \cup If(e.after = e.q, "input unchanged"),
        cov |-> {"Dequantize"}]

(* q -> dequantise -> quantise -> back *)
JRoundTrip(e) ==
  [st |-> "none",
   bad |-> If(e.back.ty # "E" /\ SameShape(e.back, e.q) /\ All(e.q, LAMBDA i : DEq(e.q.v[i], e.back.v[i])), "round trip of integers"),
   cov |-> {"RoundTrip"} \cup Tag(e.t.bits > 16, "wide-round-trip")]

(* x -> quantise -> dequantise, xs sorted increasingly *)
JReconstruct(e) ==
  LET n == Len(e.x.v)
      lo == DeqVal(TLo(e.t), e.s, e.zp)
      hi == DeqVal(THi(e.t), e.s, e.zp)
      Within(i) ==
        LET x == e.x.v[i]
            tol == DAdd(DScale(e.s, -1), DScale(DAdd(DAdd(DAbs(x), DAbs(lo)), DAbs(hi)), -44)) IN
        (DLe(lo, x) /\ DLe(x, hi)) => DLe(DDist(e.back.v[i], x), tol)
  IN IF e.out.ty = "E" \/ e.back.ty = "E" \/ Len(e.out.v) # n \/ Len(e.back.v) # n
     THEN [st |-> "none", bad |-> {"quantise raises"}, cov |-> {}]
     ELSE [st |-> "none",
           bad |-> If(\A i \in 1..n : Within(i), "half-step reconstruction")
                   \cup If(\A i \in 1..(n - 1) : DLe(e.x.v[i], e.x.v[i + 1]) => DLe(e.out.v[i], e.out.v[i + 1]), "monotone")
                   \cup If(\A i \in 1..(n - 1) : DLe(e.x.v[i], e.x.v[i + 1]) => DLe(e.back.v[i], e.back.v[i + 1]), "monotone reconstruction"),
           cov |-> {"Reconstruct"} \cup Tag(\E i \in 1..n : DLt(e.x.v[i], lo) \/ DLt(hi, e.x.v[i]), "outside-interval")]

(* quantise with a rounding policy; e.fits says whether the policy has the data's shape *)
JPolicy(e) ==
  IF e.out.ty = "E" THEN [st |-> "none", bad |-> {"quantise with policy raises"}, cov |-> {}]
  ELSE IF ~SameShape(e.out, e.x) THEN [st |-> "none", bad |-> {"shape with policy"}, cov |-> {}]
  ELSE IF e.pol.sh = e.x.sh
  THEN [st |-> "none",
        bad |-> If(All(e.x, LAMBDA i : FloorRel(e.x.v[i], e.s, e.zp, e.pol.v[i], e.t, e.out.v[i])), "floor plus policy entry")
                \cup If(e.after = e.x /\ e.polafter = e.pol, "policy and data unchanged"),
        cov |-> {"Policy"} \cup Tag(\E i \in 1..Len(e.x.v) : e.pol.v[i] = D0, "policy-floor")
                \cup Tag(\E i \in 1..Len(e.x.v) : e.pol.v[i] # D0, "policy-ceil")]
  ELSE [st |-> "none",
        bad |-> If(All(e.x, LAMBDA i : Nearest(e.x.v[i], e.s, e.zp, e.t, e.out.v[i])), "misfitting policy falls back to nearest"),
        cov |-> {"PolicyMisfit"}]

(* base policy: binary, of the data's shape, and floor + base = nearest *)
JBase(e) ==
  IF e.pol.ty = "E" \/ e.out.ty = "E" THEN [st |-> "none", bad |-> {"base policy raises"}, cov |-> {}]
  ELSE IF ~SameShape(e.pol, e.x) \/ ~SameShape(e.out, e.x) THEN [st |-> "none", bad |-> {"base policy shape"}, cov |-> {}]
  ELSE [st |-> "none",
        bad |-> If(All(e.pol, LAMBDA i : DEq(e.pol.v[i], D0) \/ DEq(e.pol.v[i], D1)), "base policy is binary")
                \cup If(All(e.x, LAMBDA i : Nearest(e.x.v[i], e.s, e.zp, e.t, e.out.v[i])), "base policy reproduces nearest"),
        cov |-> {"BasePolicy"}]

(* type names *)
JType(e) ==
  IF e.valid
  THEN [st |-> "none",
        bad |-> IF e.raised THEN {"valid name rejected"}
                ELSE If(DEq(e.lo, TLo(e.t)) /\ DEq(e.hi, THi(e.t)), "range of the type")
                     \cup If(DEq(e.qlo, TLo(e.t)) /\ DEq(e.qhi, THi(e.t)), "range reported by the quantiser")
                     \cup If(DEq(e.lo2, TLo(e.t)) /\ DEq(e.hi2, THi(e.t)), "printed name denotes the same type"),
        cov |-> {"ValidType"} \cup Tag(e.t.signed, "signed") \cup Tag(e.t.bits \notin {8, 16, 32, 64}, "odd-width")]
  ELSE [st |-> "none", bad |-> If(e.raised, "malformed name accepted"), cov |-> {"MalformedType"}]

(* ------------------------ lookup tables (C04) ---------------------------- *)
(* functions computed by the specification itself *)
Fn(name, x) ==
  CASE name = "id"    -> x
    [] name = "neg"   -> DNeg(x)
    [] name = "abs"   -> DAbs(x)
    [] name = "relu"  -> DMax(D0, x)
    [] name = "relu6" -> DMin(DInt(6), DMax(D0, x))
    [] name = "sq"    -> DMul(x, x)
    [] name = "cube"  -> DMul(x, DMul(x, x))
    [] name = "clip1" -> DClip(x, DInt(-1), D1)
    [] name = "step"  -> IF DLt(x, D0) THEN D0 ELSE D1
    [] name = "lin"   -> DAdd(DMul(DInt(3), x), DScale(DInt(-5), -2))
    [] name = "hsig"  -> DClip(DAdd(DScale(x, -2), DHalf), D0, D1)
    [] OTHER          -> D0
Known(name) == name \in {"id", "neg", "abs", "relu", "relu6", "sq", "cube", "clip1", "step", "lin", "hsig"}

(* e.lut[i] answers the (i-1)-th value of the input type *)
JTable(e) ==
  LET n == Len(e.lut.v)          \* the entries looked at; e.n in the whole table, the i-th being number e.idx[i]
      q(i) == DAdd(TLo(e.t), DInt(e.idx[i] - 1))
      FX(i) == IF Known(e.fn) THEN Fn(e.fn, DeqVal(q(i), e.is, e.iz)) ELSE e.ref[i]
      Slack(i) == LET w == DeqVal(q(i), e.is, e.iz) IN
        IF Exact(w, e.is, e.iz) /\ Known(e.fn) /\ NIsPow2(e.os[2]) THEN D0
        ELSE DScale(DAdd(DAdd(DAbs(FX(i)), DMul(DAdd(DAbs(w), D1), DAdd(DAbs(w), D1))), e.os), -42)
      OkAt(i) == LET b == DSub(DSub(e.lut.v[i], e.oz), DHalf)  x == FX(i)  sl == Slack(i) IN
        /\ DIsInt(e.lut.v[i]) /\ DLe(TLo(e.ot), e.lut.v[i]) /\ DLe(e.lut.v[i], THi(e.ot))
        /\ DLt(TLo(e.ot), e.lut.v[i]) => DLe(DMul(b, e.os), DAdd(x, sl))
        /\ DLt(e.lut.v[i], THi(e.ot)) => IF sl = D0 THEN DLt(x, DMul(DAdd(b, D1), e.os))
                                           ELSE DLe(x, DAdd(DMul(DAdd(b, D1), e.os), sl))
  IN IF e.lut.ty = "E" THEN [st |-> "none", bad |-> {"table creation raises"}, cov |-> {}]
     ELSE IF ~DEq(DInt(e.n), DAdd(DSub(THi(e.t), TLo(e.t)), D1)) \/ Len(e.idx) # n THEN [st |-> "none", bad |-> {"one entry per value"}, cov |-> {}]
     ELSE [st |-> "none", bad |-> If(\A i \in 1..n : OkAt(i), "table entry"),
           cov |-> {"Table"} \cup Tag(e.t.signed, "signed-table") \cup Tag(Known(e.fn), "spec-function") \cup Tag(e.n > 60000, "16-bit-table")]

(* a table-driven layer: out[i] = table[in[i] - lowest] ; native integers *)
JLookup(e) ==
  IF ~e.ok THEN [st |-> "none", bad |-> {"table layer raises"}, cov |-> {}]
  ELSE IF e.out.sh # e.x.sh THEN [st |-> "none", bad |-> {"table layer shape"}, cov |-> {}]
  ELSE [st |-> "none",
        bad |-> If(\A i \in 1..Len(e.x.v) : e.out.v[i] = e.lut[e.x.v[i] - e.lo + 1], "table layer answer")
                \cup If(e.after = e.x, "input unchanged"),
        cov |-> {"Lookup"} \cup Tag(e.reduced, "reduced-layer") \cup Tag(\E i \in 1..Len(e.x.v) : e.x.v[i] < 0, "negative-index")
                \cup Tag(Len(e.x.sh) > 1, "batch-lookup") \cup Tag(e.reduced /\ Len(e.lut) > 60000, "16-bit-reduced-layer")]

QStep(s, e) ==
  CASE e.ev = "Quantize"    -> JQuantize(e)
    [] e.ev = "Dequantize"  -> JDequantize(e)
    [] e.ev = "RoundTrip"   -> JRoundTrip(e)
    [] e.ev = "Reconstruct" -> JReconstruct(e)
    [] e.ev = "Policy"      -> JPolicy(e)
    [] e.ev = "Base"        -> JBase(e)
    [] e.ev = "Type"        -> JType(e)
    [] e.ev = "Table"       -> JTable(e)
    [] e.ev = "Lookup"      -> JLookup(e)
    [] e.ev = "Exception"   -> [st |-> "none", bad |-> {"unexpected error " \o e.what}, cov |-> {}]
    [] OTHER                -> [st |-> "none", bad |-> {"unknown event"}, cov |-> {}]
=============================================================================
