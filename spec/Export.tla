-------------------------------- MODULE Export --------------------------------
(***************************************************************************)
(* The exporter (C21): what a network file must say about the model it was *)
(* made from, and - with Engine and Lstm - what running that file must     *)
(* give.                                                                   *)
(* A model is a sequence of layers [k, act, ...]; the file a sequence of   *)
(* operations.  Emit is the exporter as a state machine (ExportMC checks   *)
(* it); JExport relates a recorded file to the model and configuration.    *)
(***************************************************************************)
EXTENDS Lstm

(* ----------------------- structure of the file -------------------------- *)
ActOps(a) == CASE a = "tanh" -> <<"TANHLUT">> [] a = "sigmoid" -> <<"SIGMOIDLUT">> [] OTHER -> <<>>
LayerOps(l) == CASE l.k = "dense" -> <<"FULLY_CONNECTED">> \o ActOps(l.act)
                 [] l.k = "lstm" -> <<"LSTM">>
                 [] OTHER -> <<>>                    \* dropout and input layers leave nothing
Supported(ls) == \A i \in 1..Len(ls) : ls[i].k \in {"dense", "lstm", "dropout", "input"}
RECURSIVE BodyOps(_, _)
BodyOps(ls, i) == IF i > Len(ls) THEN <<>> ELSE LayerOps(ls[i]) \o BodyOps(ls, i + 1)
FileOps(ls) == <<"QUANTIZE">> \o BodyOps(ls, 1) \o <<"DEQUANTIZE">>
(* position in the file of the first operation of layer i *)
PosOf(ls, i) == 2 + Len(BodyOps(SubSeq(ls, 1, i - 1), 1))

SameNode(a, b) == a.q /\ b.q /\ DEq(a.s, b.s) /\ DEq(a.z, b.z) /\ a.t = b.t
SameScale(a, b) == DLe(DDist(a, b), DScale(b, -48))

(* ---------------------------- stored tensors ----------------------------- *)
(* with optimised rounding either neighbour is the quantisation of a value  *)
QOf(opt, x, n, q) == IF opt THEN FloorRel(x, n.s, n.z, D0, n.t, q) \/ FloorRel(x, n.s, n.z, D1, n.t, q)
                     ELSE Nearest(x, n.s, n.z, n.t, q)
Stored(n) == n.hasv /\ n.v.sh = n.sh
KernelOk(opt, n, K) ==      \* K is in x out, stored out x in
  /\ Stored(n) /\ n.sh = <<K.sh[2], K.sh[1]>> /\ Len(n.v.v) = Len(K.v)
  /\ \A r \in 1..K.sh[1], c \in 1..K.sh[2] : QOf(opt, K.v[(r - 1) * K.sh[2] + c], n, n.v.v[(c - 1) * K.sh[1] + r])
(* columns (g-1)*u+1 .. g*u of W, stored as they are *)
GateOk(opt, n, W, u, g) ==
  /\ Stored(n) /\ n.sh = <<W.sh[1], u>> /\ Len(n.v.v) = W.sh[1] * u
  /\ \A r \in 1..W.sh[1], c \in 1..u : QOf(opt, W.v[(r - 1) * W.sh[2] + (g - 1) * u + c], n, n.v.v[(r - 1) * u + c])
BiasOk(opt, n, B, off, u) ==
  /\ Stored(n) /\ n.sh = <<u>> /\ Len(n.v.v) = u
  /\ \A c \in 1..u : QOf(opt, IF Len(B.v) = 0 THEN D0 ELSE B.v[off + c], n, n.v.v[c])

(* ----------------------------- tables ------------------------------------ *)
(* c <= f(v) <= d, each side only where it is wanted; f = 1/(1+E) or +-(1-E)/(1+E) *)
FnIn(f, v, lower, c, upper, d) ==
  LET E == FExp(IF f = "tanh" THEN DScale(DNeg(DAbs(v)), 1) ELSE DNeg(v))
      den == DAdd(D1, E)
      num == IF f # "tanh" THEN D1 ELSE IF v[1] < 0 THEN DSub(E, D1) ELSE DSub(D1, E)
  IN (lower => DLe(DMul(c, den), num)) /\ (upper => DLe(num, DMul(d, den)))
(* the sampled entries of the table of node i against the node o it produces *)
LutOk(opt, f, i, o) ==
  LET tol == DAdd(DMul(o.s, DAdd(IF opt THEN D1 ELSE DHalf, DPow(-9))), DPow(-22))
      At(k) == LET q == DInt(i.lv[k])  b == DMul(DSub(q, o.z), o.s)
                   v == DeqVal(DAdd(TLo(i.t), DInt(i.li[k])), i.s, i.z) IN
               /\ DLe(TLo(o.t), q) /\ DLe(q, THi(o.t))
               /\ FnIn(f, v, DLt(TLo(o.t), q), DSub(b, tol), DLt(q, THi(o.t)), DAdd(b, tol))
  IN /\ DEq(DInt(i.ln), DAdd(DSub(THi(i.t), TLo(i.t)), D1)) /\ DEq(i.loff, DNeg(TLo(i.t)))
     /\ Len(i.lv) = Len(i.li) /\ Len(i.li) > 0
     /\ \A k \in 1..Len(i.li) : At(k)
     /\ (opt \/ \A k \in 1..(Len(i.lv) - 1) : i.lv[k] <= i.lv[k + 1])

(* ------------------------------ layers ----------------------------------- *)
DenseBad(e, l, p) ==
  LET fc == e.ops[p]  i == fc.in[1]  k == fc.in[2]  b == fc.in[3]  o == fc.out[1] IN
  IF Len(fc.in) # 3 \/ Len(fc.out) # 1 THEN {"nodes of a dense operation"} ELSE
  If(k.t = l.kt /\ b.t = l.bt /\ o.t = l.bat, "configured types of a dense layer")
  \cup If(k.q /\ KernelOk(e.opt, k, l.K), "stored kernel")
  \cup If(b.q /\ b.z[1] = 0 /\ SameScale(b.s, DMul(i.s, k.s)), "bias parameters")
  \cup If(BiasOk(e.opt, b, l.B, 0, l.K.sh[2]), "stored bias")
  \cup (IF l.act = "relu6" /\ ~e.opt /\ DLt(DInt(6), l.pmax) THEN If(DLe(DMul(DSub(THi(o.t), o.z), o.s), DAdd(DInt(6), DAdd(DScale(DSub(l.pmax, l.pmin), -8), DScale(o.s, 1)))) /\ DLe(DInt(6), DAdd(DMul(DSub(THi(o.t), o.z), o.s), DAdd(DScale(DSub(l.pmax, l.pmin), -8), DScale(o.s, 1)))), "fused rectifier up to six") ELSE {})
  \cup (IF l.act \in {"relu", "relu6"} /\ ~e.opt /\ l.pmax[1] > 0 THEN If(DLe(DMul(DSub(o.z, TLo(o.t)), o.s), DAdd(DScale(DSub(l.pmax, l.pmin), -4), DScale(o.s, 1))), "fused rectifier") ELSE {})
  \cup (IF ActOps(l.act) = <<>> THEN {} ELSE
        LET a == e.ops[p + 1] IN
        IF Len(a.in) # 1 \/ Len(a.out) # 1 THEN {"nodes of an activation operation"} ELSE
        If(a.out[1].t = l.at, "configured type of an activation")
        \cup If(LutOk(e.opt, l.act, a.in[1], a.out[1]), "stored activation table"))
GateFn(g) == IF g = GC THEN "tanh" ELSE "sigmoid"
LstmBad(e, l, p) ==
  LET op == e.ops[p]  u == l.units IN
  IF Len(op.in) # 32 \/ Len(op.out) # 1 THEN {"nodes of a recurrent operation"} ELSE
  If(\A g \in 1..4 : Kern(op, g).q /\ GateOk(e.opt, Kern(op, g), l.K, u, g), "stored kernel")
  \cup If(\A g \in 1..4 : Rec(op, g).q /\ GateOk(e.opt, Rec(op, g), l.R, u, g), "stored recurrent kernel")
  \cup If(\A g \in 1..4 : Bias(op, g).q /\ Bias(op, g).z[1] = 0 /\ SameScale(Bias(op, g).s, DMul(op.in[1].s, Kern(op, g).s)), "bias parameters")
  \cup If(\A g \in 1..4 : BiasOk(e.opt, Bias(op, g), l.B, (g - 1) * u, u), "stored bias")
  \cup If(\A g \in 1..4 : LET a == op.in[13 + g] IN a.q /\ a.z[1] = 0 /\ SameScale(a.s, DMul(Rec(op, g).s, Hid(op).s)), "parameters of the bias sum")
  \cup If(\A g \in 1..4 : SameNode(GateIn(op, g), RAdd(op, g)) /\ GateOut(op, g).q, "gate input is the recurrent sum")
  \cup If(SameNode(CActIn(op), Cell(op)) /\ CActOut(op).q /\ Hid(op).q, "cell activation input is the cell state")
  \cup If(\A g \in 1..4 : LutOk(e.opt, GateFn(g), GateIn(op, g), GateOut(op, g)), "stored gate table")
  \cup If(LutOk(e.opt, "tanh", CActIn(op), CActOut(op)), "stored cell table")
  \cup If(op.seq = l.ret /\ op.cells = u, "attributes of a recurrent operation")

JExport(s, e) ==
  LET ok == Supported(e.layers)
      kinds == [k \in 1..Len(e.ops) |-> e.ops[k].up] IN
  IF ~ok THEN V(s, If(e.raised, "unsupported layer is reported"), {"Unsupported"})
  ELSE IF e.raised THEN V(s, {"export raises"}, {})
  ELSE IF kinds # FileOps(e.layers) THEN V(s, {"operations of the file"}, {})
  ELSE LET n == Len(e.ops)  L == Len(e.layers)  first == e.ops[1] IN
    V(s,
      If(Len(first.out) = 1 /\ \A k \in 2..(n - 1) : Len(e.ops[k].in) >= 1 /\ Len(e.ops[k].out) = 1, "nodes of an operation")
      \cup (IF \A k \in 2..n : Len(e.ops[k].in) >= 1 /\ Len(e.ops[k - 1].out) >= 1
            THEN If(\A k \in 2..n : SameNode(e.ops[k - 1].out[1], e.ops[k].in[1]), "an operation reads what the previous one writes") ELSE {"nodes of an operation"})
      \cup If(Len(first.out) = 1 => first.out[1].t = e.inq, "configured input type")
      \cup UNION {CASE e.layers[i].k = "dense" -> DenseBad(e, e.layers[i], PosOf(e.layers, i))
                    [] e.layers[i].k = "lstm" -> LstmBad(e, e.layers[i], PosOf(e.layers, i))
                    [] OTHER -> {} : i \in 1..L}
      \cup If(e.nops = n /\ e.eng = "TFLITE", "file header")
      \cup If(e.same, "returned network is the written one"),
      {"Export"} \cup Tag(e.opt, "optimised") \cup Tag(L = 0, "empty-model") \cup Tag(\E i \in 1..L : e.layers[i].k = "lstm", "recurrent")
      \cup Tag(\E i \in 1..L : e.layers[i].k \in {"dropout", "input"}, "dropped-layer")
      \cup Tag(\E i \in 1..L : e.layers[i].k = "dense" /\ e.layers[i].act = "relu", "rectifier")
      \cup Tag(\E i \in 1..L : e.layers[i].k = "dense" /\ e.layers[i].act = "relu6" /\ DLt(DInt(6), e.layers[i].pmax), "rectifier-up-to-six")
      \cup Tag(\E i \in 1..L : e.layers[i].k = "dense" /\ ActOps(e.layers[i].act) # <<>> /\ e.layers[i].at # e.layers[i].bat, "table-changes-type")
      \cup Tag(\E i \in 1..L : e.layers[i].k = "dense" /\ e.layers[i].named, "layer-specific-types")
      \cup Tag(\E i \in 1..L : e.layers[i].k = "dense" /\ Len(e.layers[i].B.v) = 0, "no-bias"))

XStep(s, e) ==
  CASE e.ev = "Export" -> JExport(s, e)
    [] e.ev = "Lstm" -> JLstm(s, e)
    [] OTHER -> EStep(s, e)
=============================================================================
