-------------------------------- MODULE Convert --------------------------------
(***************************************************************************)
(* The model converters (C22).  A source model is a sequence of layers; the *)
(* network file a sequence of operations.  For each of the three sources    *)
(* the specification gives the operations a layer sequence must become, and *)
(* what each operation must hold; the converters as state machines walking  *)
(* the source are in ConvertMC.                                             *)
(***************************************************************************)
EXTENDS Export

Transpose(K) ==   \* K: rows x cols
  [k \in 1..(K.sh[1] * K.sh[2]) |-> K.v[((k - 1) % K.sh[1]) * K.sh[2] + ((k - 1) \div K.sh[1]) + 1]]
Holds(n, sh, v) == n.hasv /\ n.sh = sh /\ n.vsh = sh /\ n.v = v
Zeros(k) == [i \in 1..k |-> D0]
OrZero(b, k) == IF Len(b.v) = 0 THEN Zeros(k) ELSE b.v

(* ------------------------------- Keras ----------------------------------- *)
KSupported == {"dense", "lstm", "conv2d", "flatten", "maxpooling2d"}
KDropped == {"input", "inputlayer", "output", "dropout"}
FloatAct(a) == CASE a = "linear" -> "LINEAR_F" [] a = "relu" -> "RELU_F" [] a = "tanh" -> "TANH_F" [] a = "sigmoid" -> "SIGMOID_F"
                 [] a = "softmax" -> "SOFTMAX_F" [] a = "relu6" -> "RELU6_F" [] OTHER -> "?"
KOps(l) == CASE l.k = "dense" -> <<"FULLY_CONNECTED_F", l.act>>
             [] l.k = "lstm" -> <<"LSTM_F">>
             [] l.k = "conv2d" -> <<"CONV_2D_F", FloatAct(l.act)>>
             [] l.k = "flatten" -> <<"FLATTEN">>
             [] l.k = "maxpooling2d" -> <<"MAXPOOLING_2D_F">>
             [] OTHER -> <<>>
KAccepted(ls) == \A i \in 1..Len(ls) : ls[i].k \in KSupported \cup KDropped
RECURSIVE KFile(_)
KFile(ls) == IF ls = <<>> THEN <<>> ELSE KOps(Head(ls)) \o KFile(Tail(ls))
KPos(ls, i) == 1 + Len(KFile(SubSeq(ls, 1, i - 1)))

KDense(e, l, p) ==
  LET o == e.ops[p] IN
  IF Len(o.in) # 2 THEN {"nodes of a dense operation"} ELSE
  If(Holds(o.in[1], <<l.W.sh[2], l.W.sh[1]>>, Transpose(l.W)), "dense kernel")
  \cup If(Holds(o.in[2], <<l.W.sh[2]>>, OrZero(l.B, l.W.sh[2])), "dense bias")
  \cup If(o.name = l.name, "layer name")
KLstm(e, l, p) ==
  LET o == e.ops[p]  u == l.W.sh[2] \div 4
      Full(nm) == {i \in 1..Len(o.in) : o.in[i].nm = nm}
      Has(nm, sh, v) == \E i \in Full(nm) : Holds(o.in[i], sh, v) IN
  If(Has("kernel/complete", <<l.W.sh[2], l.W.sh[1]>>, Transpose(l.W)), "recurrent layer kernel")
  \cup If(Has("recurrent_kernel/complete", <<l.R.sh[2], l.R.sh[1]>>, Transpose(l.R)), "recurrent layer recurrent kernel")
  \cup If(Has("bias/complete", <<l.W.sh[2]>>, OrZero(l.B, l.W.sh[2])), "recurrent layer bias")
  \cup If(o.at.units = <<u>> /\ o.at.ret = <<l.ret>> /\ o.at.steps = <<l.steps>>, "recurrent layer attributes")
KConv(e, l, p) ==
  LET o == e.ops[p] IN
  IF Len(o.in) # 2 THEN {"nodes of a convolution"} ELSE
  If(Holds(o.in[1], l.W.sh, l.W.v), "convolution kernel")
  \cup If(Holds(o.in[2], <<l.W.sh[4]>>, OrZero(l.B, l.W.sh[4])), "convolution bias")
  \cup If(o.at.strides = l.strides /\ o.at.pad = <<l.pad>>, "convolution attributes")
KPool(e, l, p) ==
  LET o == e.ops[p] IN If(o.at.strides = l.strides /\ o.at.pad = <<l.pad>> /\ o.at.pool = l.pool, "pooling attributes")

JKeras(s, e) ==
  LET L == Len(e.layers)  kinds == [k \in 1..Len(e.ops) |-> e.ops[k].ty] IN
  IF ~KAccepted(e.layers) THEN V(s, If(e.raised, "unsupported layer is reported"), {"KerasUnsupported"})
  ELSE IF e.raised THEN V(s, {"keras conversion raises"}, {})
  ELSE IF kinds # KFile(e.layers) THEN V(s, {"operations of the converted keras model"}, {})
  ELSE V(s, UNION {CASE e.layers[i].k = "dense" -> KDense(e, e.layers[i], KPos(e.layers, i))
                     [] e.layers[i].k = "lstm" -> KLstm(e, e.layers[i], KPos(e.layers, i))
                     [] e.layers[i].k = "conv2d" -> KConv(e, e.layers[i], KPos(e.layers, i))
                     [] e.layers[i].k = "maxpooling2d" -> KPool(e, e.layers[i], KPos(e.layers, i))
                     [] OTHER -> {} : i \in 1..L}
            \cup If(e.count = Len(e.ops) /\ e.engine = "keras", "header of the converted keras model"),
         {"Keras"} \cup UNION {Tag(TRUE, "keras-" \o e.layers[i].k) : i \in 1..L} \cup Tag(L = 0, "keras-empty")
         \cup Tag(\E i \in 1..L : e.layers[i].k \in {"dense", "conv2d", "lstm"} /\ Len(e.layers[i].B.v) = 0, "keras-no-bias")
         \cup Tag(\E i \in 1..L : e.layers[i].k = "dense" /\ e.layers[i].W.sh[1] # e.layers[i].W.sh[2], "keras-rectangular"))

(* ------------------------------- ONNX ------------------------------------ *)
(* Dequantize, Tanh, Quantize in a row are one table; every other operation  *)
(* stays one operation                                                       *)
OSupported == {"Tanh", "Softmax", "QuantizeLinear", "DequantizeLinear", "QLinearAdd", "QLinearMatMul", "QLinearSigmoid"}
Triple == <<"DequantizeLinear", "Tanh", "QuantizeLinear">>
Fused(ns, i) == i + 2 <= Len(ns) /\ [k \in 1..3 |-> ns[i + k - 1].k] = Triple
RECURSIVE OGroups(_, _)
OGroups(ns, i) == IF i > Len(ns) THEN <<>>
                  ELSE IF Fused(ns, i) THEN <<<<i, i + 1, i + 2>>>> \o OGroups(ns, i + 3)
                  ELSE <<<<i>>>> \o OGroups(ns, i + 1)
OName(ns, g) == IF Len(g) = 3 THEN "TanhLUT" ELSE IF ns[g[1]].k = "QLinearSigmoid" THEN "SigmoidLUT" ELSE ns[g[1]].k
S8 == [signed |-> TRUE, bits |-> 8]
QEq(n, q) == n.q /\ DEq(n.s, q.s) /\ DEq(n.z, q.z)
TableOk(f, n, i, o, t) ==
  n.ln > 0 /\ LutOk(FALSE, f, [s |-> i.s, z |-> i.z, t |-> t, lv |-> n.lv, li |-> n.li, ln |-> n.ln, loff |-> n.loff], [s |-> o.s, z |-> o.z, t |-> t])
(* a tensor that is not a constant: the name and the feature size of the source *)
Edge(n, x) == n.nm = x.nm /\ (n.sh = x.sh \/ n.sh = <<x.sh[2]>>)
OBad(e, g, o) ==
  LET a == e.nodes[g[1]] IN
  IF Len(g) = 3 THEN If(Len(o.in) = 1 /\ TableOk("tanh", o.in[1], a.q[1], e.nodes[g[3]].q[1], U8), "hyperbolic tangent table")
  ELSE CASE a.k \in {"QuantizeLinear", "DequantizeLinear"} -> If(Len(o.in) = 1 /\ QEq(o.in[1], a.q[1]), "parameters of a quantisation operation")
         [] a.k \in {"QLinearAdd", "QLinearMatMul"} ->
              IF Len(o.in) # 3 THEN {"nodes of an integer operation"} ELSE
              If(\A k \in 1..3 : QEq(o.in[k], a.q[k]), "parameters of an integer operation")
              \cup If(IF a.k = "QLinearAdd" THEN Holds(o.in[2], a.W.sh, a.W.v) ELSE Holds(o.in[2], <<a.W.sh[2], a.W.sh[1]>>, Transpose(a.W)), "constant of an integer operation")
         [] a.k = "QLinearSigmoid" -> If(Len(o.in) = 1 /\ QEq(o.in[1], a.q[1]) /\ TableOk("sigmoid", o.in[1], a.q[1], a.q[2], U8), "logistic table")
         [] OTHER -> If(Len(o.in) = 1 /\ Len(o.out) = 1 /\ Edge(o.in[1], a.x) /\ Edge(o.out[1], a.y), "tensors of a float operation")
JOnnx(s, e) ==
  LET gs == OGroups(e.nodes, 1) IN
  IF \E i \in 1..Len(e.nodes) : e.nodes[i].k \notin OSupported THEN V(s, If(e.raised, "unsupported layer is reported"), {"OnnxUnsupported"})
  ELSE IF e.raised THEN V(s, {"onnx conversion raises"}, {})
  ELSE IF [k \in 1..Len(e.ops) |-> e.ops[k].ty] # [k \in 1..Len(gs) |-> OName(e.nodes, gs[k])] THEN V(s, {"operations of the converted onnx model"}, {})
  ELSE V(s, UNION {OBad(e, gs[k], e.ops[k]) : k \in 1..Len(gs)}
            \cup If(Len(e.inputs) = Len(e.srcin) /\ \A k \in 1..Len(e.inputs) : Edge(e.inputs[k], e.srcin[k]), "inputs of the converted onnx model")
            \cup If(Len(e.outputs) = Len(e.srcout) /\ \A k \in 1..Len(e.outputs) : Edge(e.outputs[k], e.srcout[k]), "outputs of the converted onnx model"),
         {"Onnx"} \cup Tag(\E k \in 1..Len(gs) : Len(gs[k]) = 3, "onnx-fused") \cup UNION {Tag(TRUE, "onnx-" \o e.nodes[i].k) : i \in 1..Len(e.nodes)}
         \cup Tag(Len(e.nodes) = 0, "onnx-empty")
         \cup Tag(\E i \in 1..Len(e.nodes) : e.nodes[i].k = "Tanh" /\ ~\E k \in 1..Len(gs) : Len(gs[k]) = 3 /\ gs[k][2] = i, "onnx-tanh-alone"))

(* ------------------------------- TFLite ---------------------------------- *)
TName(k) == CASE k = "TANH" -> "TANHLUT" [] k = "LOGISTIC" -> "SIGMOIDLUT" [] OTHER -> k
TNode(n, t) == /\ n.nm = t.nm /\ n.dt = t.dt /\ n.sh = t.sh /\ (n.q <=> t.q) /\ (t.q => DEq(n.s, t.s) /\ DEq(n.z, t.z))
               /\ (n.hasv <=> t.hasv) /\ (t.hasv => n.v = t.v /\ n.vsh = t.sh)
TBad(e, a, o) ==
  If(Len(o.in) = Len(a.in) /\ \A k \in 1..Len(o.in) : TNode(o.in[k], e.tensors[a.in[k]]), "input tensors of an operation")
  \cup If(Len(o.out) = Len(a.out) /\ \A k \in 1..Len(o.out) : TNode(o.out[k], e.tensors[a.out[k]]), "output tensors of an operation")
  \cup (IF a.k \notin {"TANH", "LOGISTIC"} \/ Len(o.in) = 0 THEN {} ELSE
        If(TableOk(IF a.k = "TANH" THEN "tanh" ELSE "sigmoid", o.in[1], e.tensors[a.in[1]], e.tensors[a.out[1]], S8), "table of an activation"))
JTflite(s, e) ==
  IF e.raised THEN V(s, {"tflite conversion raises"}, {})
  ELSE IF [k \in 1..Len(e.ops) |-> e.ops[k].ty] # [k \in 1..Len(e.nodes) |-> TName(e.nodes[k].k)] THEN V(s, {"operations of the converted tflite model"}, {})
  ELSE V(s, UNION {TBad(e, e.nodes[k], e.ops[k]) : k \in 1..Len(e.ops)}
            \cup If(Len(e.inputs) = Len(e.srcin) /\ \A k \in 1..Len(e.inputs) : TNode(e.inputs[k], e.tensors[e.srcin[k]]), "inputs of the converted tflite model")
            \cup If(Len(e.outputs) = Len(e.srcout) /\ \A k \in 1..Len(e.outputs) : TNode(e.outputs[k], e.tensors[e.srcout[k]]), "outputs of the converted tflite model")
            \cup If(e.count = Len(e.ops) /\ e.engine = "TFLITE", "header of the converted tflite model"),
         {"Tflite"} \cup UNION {Tag(TRUE, "tflite-" \o e.nodes[k].k) : k \in 1..Len(e.nodes)} \cup Tag(Len(e.nodes) = 0, "tflite-empty"))

CvStep(s, e) ==
  CASE e.ev = "Keras" -> JKeras(s, e)
    [] e.ev = "Onnx" -> JOnnx(s, e)
    [] e.ev = "Tflite" -> JTflite(s, e)
    [] e.ev = "Exception" -> V(s, {"unexpected error " \o e.what}, {})
=============================================================================
