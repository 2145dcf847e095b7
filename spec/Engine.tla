------------------------------- MODULE Engine -------------------------------
(***************************************************************************)
(* The inference engine: what every operation of a network file denotes,   *)
(* as an exact relation between its input and its output (C08, C10, C24),  *)
(* the integer-only multiplier (C09), batches (C11) and networks (C12).    *)
(* A node is [s, z, t, v, lut]: scale, zero point, integer type, tensor,   *)
(* lookup table.  An operation is [ty, up, in, out]: name as written and   *)
(* in upper case, input and output nodes by position in the file.          *)
(***************************************************************************)
EXTENDS Quantizer, Transc

IsPow2D(d) == d[1] = 1 /\ NIsPow2(d[2])
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE s[1] * Prod(Tail(s))
LastDim(a) == IF a.sh = <<>> THEN 1 ELSE a.sh[Len(a.sh)]
Front1(s) == IF s = <<>> THEN <<>> ELSE SubSeq(s, 1, Len(s) - 1)
Native(a) == TLCEval([i \in 1..Len(a.v) |-> DToInt(a.v[i])])
Finite(a) == \A i \in 1..Len(a.v) : a.v[i][1] \in {-1, 0, 1}
U8 == [signed |-> FALSE, bits |-> 8]
I8 == [signed |-> TRUE, bits |-> 8]

(* ------------------------ accumulators ---------------------------------- *)
RECURSIVE Dot(_, _, _, _, _, _, _)
Dot(x, xo, zx, w, wo, zw, n) ==       \* native, |products| < 2^20
  IF n = 0 THEN 0 ELSE (x[xo + n] - zx) * (w[wo + n] - zw) + Dot(x, xo, zx, w, wo, zw, n - 1)
RECURSIVE DotD(_, _, _, _, _, _, _)
DotD(x, xo, zx, w, wo, zw, n) ==
  IF n = 0 THEN D0 ELSE DAdd(DMul(DSub(x[xo + n], zx), DSub(w[wo + n], zw)), DotD(x, xo, zx, w, wo, zw, n - 1))
Small(a, z) == /\ \A i \in 1..Len(a.v) : a.v[i][3] = 0 /\ Len(a.v[i][2]) <= 1
               /\ z[3] = 0 /\ Len(z[2]) <= 1
(* accumulators of x (rows of length d) against the rows of w; a flat sequence of dyadics *)
Accs(x, zx, w, zw) ==
  LET d == LastDim(x)  u == Len(w.v) \div d  rows == Len(x.v) \div d IN
  IF Small(x, zx) /\ Small(w, zw) /\ d <= 100
  THEN LET xn == Native(x)  wn == Native(w)  zxn == DToInt(zx)  zwn == DToInt(zw) IN
       TLCEval([k \in 1..(rows * u) |-> DInt(Dot(xn, ((k - 1) \div u) * d, zxn, wn, ((k - 1) % u) * d, zwn, d))])
  ELSE TLCEval([k \in 1..(rows * u) |-> DotD(x.v, ((k - 1) \div u) * d, zx, w.v, ((k - 1) % u) * d, zw, d)])

(* ---------------------- fully connected (C08) --------------------------- *)
(* multiplier domain: 1e-6 <= M < 2^30 *)
FCDomain(op) == LET a == DMul(op.in[1].s, op.in[2].s) IN
  /\ DLe(op.out[1].s, DMul(a, DInt(1000000))) /\ DLt(a, DScale(op.out[1].s, 29))
FCRel(op, x, y) ==
  LET i == op.in[1]  w == op.in[2]  b == op.in[3]  o == op.out[1]
      u == Len(b.v.v)
      m == DMul(i.s, w.s)
      exact == IsPow2D(i.s) /\ IsPow2D(w.s) /\ IsPow2D(o.s)
      acc == Accs(x, i.z, w.v, w.z)
      OkAt(k) == LET a == DMul(DAdd(acc[k], b.v.v[((k - 1) % u) + 1]), m)
                     e == IF exact THEN D0 ELSE DScale(DAbs(a), -30)
                 IN FloorRelE(a, o.s, o.z, DHalf, o.t, y.v[k], e)
  IN If(y.sh = Front1(x.sh) \o <<u>>, "fully connected shape")
     \cup (IF Len(y.v) # Len(acc) THEN {"fully connected shape"}
           ELSE If(\A k \in 1..Len(acc) : OkAt(k), "fully connected result"))

(* --------------- quantised product and addition (C10) -------------------- *)
(* q is the saturated round-half-even of v/s, shifted by z *)
EvenRel(v, s, z, q, e) ==
  LET r == DSub(q, z)
      lo == DMul(DSub(r, DHalf), s)
      hi == DMul(DAdd(r, DHalf), s)
      odd == ~DIsInt(DScale(r, -1))
  IN /\ DIsInt(q) /\ DLe(D0, q) /\ DLe(q, DInt(255))
     /\ DLt(D0, q) => /\ DLe(lo, DAdd(v, e))
                      /\ (e = D0 /\ DEq(lo, v)) => ~odd
     /\ DLt(q, DInt(255)) => /\ DLe(v, DAdd(hi, e))
                             /\ (e = D0 /\ DEq(hi, v)) => ~odd
QMMRel(op, x, y) ==
  LET i == op.in[1]  w == op.in[2]  o == op.in[3]
      d == LastDim(x)  u == Len(w.v.v) \div d
      m == DMul(i.s, w.s)
      exact == IsPow2D(i.s) /\ IsPow2D(w.s) /\ IsPow2D(o.s)
      acc == Accs(x, i.z, w.v, w.z)
      OkAt(k) == LET a == DMul(acc[k], m) IN
                 EvenRel(a, o.s, o.z, y.v[k], IF exact THEN D0 ELSE DScale(DAbs(a), -46))
  IN If(y.sh = Front1(x.sh) \o <<u>> /\ Len(y.v) = Len(acc), "matrix product shape")
     \cup (IF Len(y.v) # Len(acc) THEN {} ELSE If(\A k \in 1..Len(acc) : OkAt(k), "matrix product result"))
QAddRel(op, x, y) ==
  LET i == op.in[1]  b == op.in[2]  o == op.in[3]
      nx == Len(x.v)  nb == Len(b.v.v)  n == IF nx > nb THEN nx ELSE nb
      exact == IsPow2D(i.s) /\ IsPow2D(b.s) /\ IsPow2D(o.s)
      OkAt(k) == LET p == DMul(DSub(x.v[((k - 1) % nx) + 1], i.z), i.s)
                     q == DMul(DSub(b.v.v[((k - 1) % nb) + 1], b.z), b.s)
                     e == IF exact THEN D0 ELSE DScale(DAdd(DAbs(p), DAbs(q)), -46)
                 IN EvenRel(DAdd(p, q), o.s, o.z, y.v[k], e)
  IN If(y.sh = (IF nx >= nb THEN x.sh ELSE b.v.sh) /\ Len(y.v) = n, "addition shape")
     \cup (IF Len(y.v) # n THEN {} ELSE If(\A k \in 1..n : OkAt(k), "addition result"))

(* ------------------- element-wise layers (C24, C04) ---------------------- *)
Elementwise(x, y, name, P(_)) ==
  IF y.sh # x.sh \/ Len(y.v) # Len(x.v) THEN {name \o " shape"}
  ELSE If(\A k \in 1..Len(x.v) : P(k), name \o " value")
MonotoneOn(x, y, name) ==
  IF Len(y.v) # Len(x.v) THEN {}
  ELSE If(\A k \in 1..(Len(x.v) - 1) : (DLe(x.v[k], x.v[k + 1]) => DLe(y.v[k], y.v[k + 1]))
                                         /\ (DLe(x.v[k + 1], x.v[k]) => DLe(y.v[k + 1], y.v[k])), name \o " monotone")
QuantRel(n, t, x, y) == Elementwise(x, y, "quantisation layer", LAMBDA k : Nearest(x.v[k], n.s, n.z, t, y.v[k]))
DequantRel(n, x, y) == Elementwise(x, y, "dequantisation layer", LAMBDA k : DeqRel(x.v[k], n.s, n.z, y.v[k]))
(* within one step of the rescaled rectified value, zero exactly on zero *)
ReluRel(op, x, y) ==
  LET i == op.in[1]  o == op.out[1]  t == o.t
      OkAt(k) == LET r == DMul(DMax(D0, DSub(x.v[k], i.z)), i.s)
                     b == DMul(DSub(y.v[k], o.z), o.s)
                     tol == DAdd(o.s, DScale(DAdd(r, o.s), -40)) IN
                 /\ DIsInt(y.v[k]) /\ DLe(TLo(t), y.v[k]) /\ DLe(y.v[k], THi(t))
                 /\ DLt(TLo(t), y.v[k]) => DLe(DSub(b, tol), r)
                 /\ DLt(y.v[k], THi(t)) => DLe(r, DAdd(b, tol))
                 /\ DLe(x.v[k], i.z) => DEq(y.v[k], DClip(o.z, TLo(t), THi(t)))
  IN Elementwise(x, y, "rectifier", OkAt) \cup MonotoneOn(x, y, "rectifier")
(* half a step (plus 2^-9 step for binary32 evaluation) from the function of the dequantised input *)
HalfStep(s) == DMul(s, DAdd(DHalf, DPow(-9)))
Sat(q, t) == DIsInt(q) /\ DLe(TLo(t), q) /\ DLe(q, THi(t))
TanhRel(op, x, y) ==
  LET i == op.in[1]  s == DPow(-7)
      OkAt(k) == LET v == DeqVal(x.v[k], i.s, i.z)  b == DMul(y.v[k], s) IN
                 /\ Sat(y.v[k], I8)
                 /\ TanhNear(b, v, IF DEq(y.v[k], DInt(127)) THEN DAdd(s, DPow(-20)) ELSE HalfStep(s))
  IN Elementwise(x, y, "tanh", OkAt) \cup MonotoneOn(x, y, "tanh")
LogisticRel(op, x, y) ==
  LET i == op.in[1]  s == DPow(-8)
      OkAt(k) == LET v == DeqVal(x.v[k], i.s, i.z)  b == DMul(DAdd(y.v[k], DInt(128)), s) IN
                 /\ Sat(y.v[k], I8)
                 /\ SigmoidNear(b, v, IF DEq(y.v[k], DInt(127)) THEN DAdd(s, DPow(-20)) ELSE HalfStep(s))
  IN Elementwise(x, y, "logistic", OkAt) \cup MonotoneOn(x, y, "logistic")
(* second engine: uint8 in and out with stored output parameters *)
QSigRel(op, x, y) ==
  LET i == op.in[1]  o == op.in[2]
      OkAt(k) == LET v == DeqVal(x.v[k], i.s, i.z)  b == DMul(DSub(y.v[k], o.z), o.s)
                     near == SigmoidNear(b, v, HalfStep(o.s))
                     E == DAdd(D1, DExp(DNeg(v)))
                     h == HalfStep(o.s) IN
                 /\ Sat(y.v[k], U8)
                 /\ \/ near
                    \/ DEq(y.v[k], D0) /\ DLe(D1, DMul(DAdd(b, h), E))          \* saturated below: value <= b + h
                    \/ DEq(y.v[k], DInt(255)) /\ DLe(DMul(DSub(b, h), E), D1)  \* saturated above
  IN Elementwise(x, y, "quantised logistic", OkAt) \cup MonotoneOn(x, y, "quantised logistic")
FTanhRel(x, y) == Elementwise(x, y, "float tanh", LAMBDA k : TanhNear(y.v[k], x.v[k], DPow(-22))) \cup MonotoneOn(x, y, "float tanh")
LutRel(op, x, y) ==
  LET n == op.in[1] IN
  IF Len(n.lut) = 0 THEN {"lookup layer without table"} ELSE
  Elementwise(x, y, "lookup layer", LAMBDA k : LET j == DToInt(x.v[k]) + n.off + 1 IN
      j \in 1..Len(n.lut) /\ DEq(y.v[k], DInt(n.lut[j])))
(* softmax over the last dimension, one sample per row *)
SoftmaxRel(x, y) ==
  LET d == LastDim(x)  rows == IF d = 0 THEN 0 ELSE Len(x.v) \div d
      X(r, k) == x.v[(r - 1) * d + k]  Y(r, k) == y.v[(r - 1) * d + k]
      Top(r) == CHOOSE k \in 1..d : \A j \in 1..d : DLe(X(r, j), X(r, k))
      Ref(r, k) == DMul(DExp(DSub(X(r, k), X(r, Top(r)))), Y(r, Top(r)))
  IN IF y.sh # x.sh \/ Len(y.v) # Len(x.v) \/ ~Finite(y) THEN {"softmax shape or overflow"}
     ELSE If(\A k \in 1..Len(y.v) : DLe(D0, y.v[k]) /\ DLe(y.v[k], DAdd(D1, DPow(-20))), "softmax range")
          \cup If(\A r \in 1..rows : DLe(DDist(DSum([k \in 1..d |-> Y(r, k)]), D1), DPow(-18)), "softmax sums to one")
          \cup If(\A r \in 1..rows : \A j, k \in 1..d : DLt(X(r, j), X(r, k)) => DLe(Y(r, j), Y(r, k)), "softmax order")
          \cup If(\A r \in 1..rows : \A k \in 1..d : DLe(DDist(Y(r, k), Ref(r, k)), DPow(-18)), "softmax value")
(* the first engine hands the scores on: order preserving, same shape *)
PassRel(x, y) == LET d == LastDim(x) IN
  IF y.sh # x.sh \/ Len(y.v) # Len(x.v) THEN {"softmax shape or overflow"}
  ELSE If(\A a, b \in 1..Len(x.v) : (a - 1) \div d = (b - 1) \div d /\ DLt(x.v[a], x.v[b]) => DLe(y.v[a], y.v[b]), "softmax order")

(* ------------------------------ dispatch --------------------------------- *)
TfliteOps == {"FULLY_CONNECTED", "TANH", "TANHLUT", "SIGMOIDLUT", "LOGISTIC", "SOFTMAX", "QUANTIZE", "DEQUANTIZE", "RELU", "LSTM"}
OnnxOps == {"QLinearAdd", "QLinearMatMul", "QuantizeLinear", "QLinearSigmoid", "SigmoidLUT", "DequantizeLinear", "Softmax", "Tanh", "TanhLUT"}
KnownOp(eng, op) == IF eng = "TFLITE" THEN op.up \in TfliteOps ELSE op.ty \in OnnxOps
LayerRel(eng, op, x, y) ==
  IF ~Finite(y) /\ op.up # "SOFTMAX" THEN {"layer output not a number"} ELSE
  IF eng = "TFLITE" THEN
    CASE op.up = "FULLY_CONNECTED" -> FCRel(op, x, y)
      [] op.up \in {"TANHLUT", "SIGMOIDLUT"} -> LutRel(op, x, y)
      [] op.up = "TANH" -> TanhRel(op, x, y)
      [] op.up = "LOGISTIC" -> LogisticRel(op, x, y)
      [] op.up = "SOFTMAX" -> PassRel(x, y)
      [] op.up = "QUANTIZE" -> QuantRel(op.out[1], op.out[1].t, x, y)
      [] op.up = "DEQUANTIZE" -> DequantRel(op.in[1], x, y)
      [] op.up = "RELU" -> ReluRel(op, x, y)
      [] OTHER -> {}
  ELSE
    CASE op.ty = "QLinearAdd" -> QAddRel(op, x, y)
      [] op.ty = "QLinearMatMul" -> QMMRel(op, x, y)
      [] op.ty = "QuantizeLinear" -> QuantRel(op.in[1], U8, x, y)
      [] op.ty = "DequantizeLinear" -> DequantRel(op.in[1], x, y)
      [] op.ty = "QLinearSigmoid" -> QSigRel(op, x, y)
      [] op.ty \in {"SigmoidLUT", "TanhLUT"} -> LutRel(op, x, y)
      [] op.ty = "Softmax" -> SoftmaxRel(x, y)
      [] op.ty = "Tanh" -> FTanhRel(x, y)
      [] OTHER -> {}
InDomain(eng, op) == (eng = "TFLITE" /\ op.up = "FULLY_CONNECTED") => FCDomain(op)

JLayer(s, e) ==
  IF ~InDomain(e.eng, e.op) THEN V(s, {}, {"out-of-domain"})
  ELSE IF ~e.ok THEN V(s, {"layer raises"}, {})
  ELSE V(s, LayerRel(e.eng, e.op, e.x, e.y) \cup If(e.after = e.x, "layer input unchanged"),
         {"Layer " \o e.op.ty} \cup Tag(Len(e.x.sh) > 1, "batch") \cup Tag(Len(e.x.sh) = 1, "single")
         \cup Tag(e.op.up = "FULLY_CONNECTED" /\ (\E k \in 1..Len(e.y.v) : e.y.v[k] \in {TLo(e.op.out[1].t)} \/ DEq(e.y.v[k], THi(e.op.out[1].t))), "fc-saturated")
         \cup Tag(e.op.up = "FULLY_CONNECTED" /\ IsPow2D(e.op.in[1].s) /\ IsPow2D(e.op.in[2].s) /\ IsPow2D(e.op.out[1].s), "fc-exact"))

(* -------------------- integer-only multiplier (C09) ---------------------- *)
(* e.m multiplier, e.x integers in increasing order, e.arr products of the array, e.one products one by one *)
ShortMantissa(m) == LET k == Len(m[2]) IN k <= 2 \/ (k = 3 /\ m[2][3] < 128)
JScale(s, e) ==
  LET n == Len(e.x)
      Tol(i) == IF ShortMantissa(e.m) THEN D0 ELSE DScale(DAbs(DMul(e.x[i], e.m)), -31)
      Near(i) == LET p == DMul(e.x[i], e.m)  t == Tol(i)  r == e.one[i] IN
                 /\ DIsInt(r) /\ r[1] \in {-1, 0, 1}
                 /\ DLe(DSub(r, DHalf), DAdd(p, t))
                 /\ IF t = D0 THEN DLt(p, DAdd(r, DHalf)) ELSE DLe(DSub(p, t), DAdd(r, DHalf))
      Real(i) == DLe(DDist(e.one[i], DMul(e.x[i], e.m)), DScale(DAbs(DMul(e.x[i], e.m)), -50))
  IN IF ~e.ok \/ Len(e.arr) # n \/ Len(e.one) # n THEN V(s, {"rescaling raises"}, {})
     ELSE V(s,
       If(\A i \in 1..n : IF e.intonly THEN Near(i) ELSE Real(i), IF e.intonly THEN "nearest integer to the product" ELSE "real product")
       \cup If(\A i \in 1..n : DEq(e.arr[i], e.one[i]), "array and single integers agree")
       \cup If(\A i \in 1..n : e.x[i][1] = 0 => e.one[i][1] = 0, "zero maps to zero")
       \cup If(\A i \in 1..(n - 1) : IF e.m[1] >= 0 THEN DLe(e.one[i], e.one[i + 1]) ELSE DLe(e.one[i + 1], e.one[i]), "monotone rescaling"),
       {IF e.intonly THEN "integer-only" ELSE "real"} \cup Tag(e.m[1] < 0, "negative-multiplier") \cup Tag(e.m[1] = 0, "zero-multiplier")
       \cup Tag(ShortMantissa(e.m), "exact-multiplier") \cup Tag(DLt(e.m, DPow(-31)) /\ e.m[1] > 0, "tiny-multiplier") \cup Tag(DLt(D1, e.m), "above-one")
       \cup Tag(\E i \in 1..n : e.intonly /\ ShortMantissa(e.m) /\ DEq(DSub(e.one[i], DHalf), DMul(e.x[i], e.m)), "exact-half"))

(* --------------------------- batches (C11) ------------------------------- *)
(* e.whole: result of the batch; e.one[i]: result of sample i alone; e.perm: result of the permuted batch *)
CloseD(a, b) == DEq(a, b) \/ DLe(DDist(a, b), DScale(DAdd(DAbs(a), DAbs(b)), -44))
JBatch(s, e) ==
  IF ~e.ok THEN V(s, {"batch raises"}, {}) ELSE
  LET n == Len(e.one)
      d == IF n = 0 THEN 0 ELSE Len(e.one[1].v)
      RowOk(w, i, j) == Len(e.one[i].v) = d /\ \A k \in 1..d : CloseD(w.v[(j - 1) * d + k], e.one[i].v[k])
  IN V(s,
       (IF Len(e.whole.v) # n * d \/ e.whole.sh = <<>> \/ e.whole.sh[1] # n THEN {"batch shape"}
        ELSE If(\A i \in 1..n : RowOk(e.whole, i, i), "batch equals its samples"))
       \cup (IF Len(e.permuted.v) # n * d THEN {"batch shape"}
             ELSE If(\A j \in 1..n : RowOk(e.permuted, e.perm[j], j), "batch order and content")),
       {"Batch " \o e.what} \cup Tag(n = 1, "batch-of-one") \cup Tag(n > 3, "large-batch"))

(* -------------------------- networks (C12) ------------------------------- *)
(* state: [eng, ops, inq, hist] of the loaded network; hist is the set of (input, output) pairs so far *)
NoNet == [eng |-> "none", ops |-> <<>>, inp |-> [s |-> D1, z |-> D0], quant |-> FALSE, hist |-> {}]
JLoad(s, e) ==
  LET valid == /\ e.eng \in {"TFLITE", "ONNX"} /\ e.hasin /\ e.hasout
               /\ \A i \in 1..Len(e.ops) : KnownOp(e.eng, e.ops[i])
  IN [st |-> IF valid /\ e.loaded THEN [eng |-> e.eng, ops |-> e.ops, inp |-> e.inp, quant |-> e.quant, hist |-> {}] ELSE NoNet,
      bad |-> IF valid THEN If(e.loaded, "valid network rejected") ELSE If(~e.loaded, "invalid network accepted"),
      cov |-> {IF valid THEN "Load" ELSE "LoadRejected"} \cup Tag(valid /\ ~e.quant, "no-quant-layers")
              \cup Tag(e.eng \notin {"TFLITE", "ONNX"}, "unknown-engine") \cup Tag(~e.hasin \/ ~e.hasout, "missing-node")]
JInfer(s, e) ==
  IF s.eng = "none" THEN V(s, {}, {"infer-without-net"})
  ELSE IF ~e.ok THEN V(s, {"inference raises"}, {})
  ELSE LET n == Len(s.ops)
           key == <<e.x.sh, e.x.v>>
           seen == {h \in s.hist : h[1] = key}
           In(i) == IF i = 1 THEN e.first ELSE e.inter[i - 1]
       IN [st |-> [s EXCEPT !.hist = @ \cup {<<key, e.y.v>>}],
           bad |-> If(e.after = e.x, "network input unchanged")
             \cup If(\A h \in seen : h[2] = e.y.v, "inference depends on history")
             \cup (IF Len(e.inter) # n THEN {"one intermediate result per layer"}
                   ELSE (IF s.quant THEN If(e.first = e.x, "no extra quantisation") ELSE QuantRel(s.inp, I8, e.x, e.first))
                        \cup UNION {IF InDomain(s.eng, s.ops[i]) THEN LayerRel(s.eng, s.ops[i], In(i), e.inter[i]) ELSE {} : i \in 1..n}
                        \cup If(n > 0 => (e.y.sh = e.inter[n].sh /\ e.y.v = e.inter[n].v), "result is the last layer's")
                        \cup If(\A i \in 1..n : e.inter[i].v = e.direct[i].v, "intermediate results are the layers' outputs")),
           cov |-> {"Infer"} \cup Tag(seen # {}, "repeated-input") \cup Tag(Cardinality(s.hist) > 1, "history")
                   \cup Tag(n > 3, "deep-network")]

EStep(s, e) ==
  CASE e.ev = "Layer" -> JLayer(s, e)
    [] e.ev = "Scale" -> JScale(s, e)
    [] e.ev = "Batch" -> JBatch(s, e)
    [] e.ev = "Load" -> JLoad(s, e)
    [] e.ev = "Infer" -> JInfer(s, e)
    [] e.ev = "Exception" -> V(s, {"unexpected error " \o e.what}, {})
    [] OTHER -> V(s, {"unknown event"}, {})
=============================================================================
