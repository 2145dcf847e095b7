"""C12: networks (spec/Engine.tla JLoad, JInfer; NetworkMC.tla)."""
import copy
from ecommon import *
import netgen


def describe(net):
    eng = net["engine"].upper()
    i, o = net["input"][0], net["output"][0]
    return {"eng": eng, "ops": [enc_op(p) for p in net["graph"]], "hasin": i is not None, "hasout": o is not None,
            "inp": {"s": D((i or {}).get("scale") or 1.0), "z": D((i or {}).get("zero_point") or 0)},
            "quant": bool(net["graph"]) and net["graph"][0]["op_type"].upper() in ("QUANTIZE", "QUANTIZELINEAR")}


def load_event(net, file=None):
    if file:
        with open(file, "w") as f:
            json.dump(net, f)
        ok, n = attempt(lambda: SequentialNetwork.from_json_file(file))
    else:
        ok, n = attempt(lambda: SequentialNetwork(load(net)))
    return {"ev": "Load", **describe(net), "loaded": ok}, (n if ok else None)


def infer_event(n, net, x, chain, as_list=False, spoil=False, kw=None):
    d = describe(net)
    before = A(x)
    arg = x.tolist() if as_list else x
    ok, y = attempt(lambda: n.infer(arg, **(kw or {})))
    e = {"ev": "Infer", "x": before, "ok": ok, "y": ERR, "first": ERR, "inter": [], "direct": [], "after": before}
    if not ok:
        return e
    okr, inter = attempt(lambda: list(n._intermediate_results) if hasattr(n, "_intermediate_results") else None)
    if not okr:
        return {**e, "ok": False}
    # the same layers applied one after the other, outside the network
    v = np.array(x)
    if not d["quant"]:
        from itcl_quantization import Quantization
        v = Quantization("int8").quantize(v, net["input"][0]["zero_point"] or 0, net["input"][0]["scale"] or 1)
    first, direct = v, []
    for layer in chain:
        v = layer.infer(v)
        direct.append(A(v))
    e.update(y=A(y), first=A(first), inter=direct if inter is None else [A(i) for i in inter], direct=direct, after=A(np.array(arg)))
    if spoil:        # the caller works on in the arrays it was given
        for a in [y, *(inter or [])]:
            if isinstance(a, np.ndarray) and a.flags.writeable and a.dtype.kind in "iuf":
                a[...] = a[...] // 2 + 1
    return e


def run(ctx):
    rec = Rec()
    rng = ctx.rng
    g = ctx.gen("NetworkMC", dict(MaxLen=4 if ctx.thorough else 3, Xs={0, 1}), spec_name="Spec", inv=["Composition", "Functional", "Traced", "Complete", "OnlyValid"], post="Emit", workers=4)["h"]
    ctx.mc("NetworkMC", dict(MaxLen=5, Xs={0, 1, 2}), spec_name="Spec", inv=["Composition", "Functional", "Traced", "Complete", "OnlyValid"], workers=8)
    if len(g) > 400:
        g = rng.sample(g, 400)

    def shape(net, d):
        if any(o["op_type"] == "LSTM" for o in net["graph"]):
            return rng.choice([(1, 3, d), (2, 2, d), (1, 1, d), (3, 5, d)])
        return rng.choice([(d,), (1, d), (2, d), (3, d)])

    def fresh(kind):
        d = rng.choice([1, 2, 4])
        r = rng.random()
        onnx = kind == "oper" and rng.random() < .4
        if kind == "b" or kind == "noout" or onnx:
            net = netgen.random_net(rng, "ONNX", d)
        else:
            net = netgen.random_net(rng, "TFLITE", d, depth=rng.choice([None] * 12 + [9, 17]), quant=r < 0.6, lstm=rng.random() < 0.25)
            if 0.6 < r < 0.7:      # only later layers are (de)quantisation layers
                k = [k for k, o in enumerate(net["graph"]) if o["op_type"] != "DEQUANTIZE"][:rng.choice([1, 1, 2])]
                net["graph"] = [net["graph"][j] for j in k]
                last = net["graph"][-1]["outputs"][0]
                net["graph"].append(op("DEQUANTIZE", [node(last["scale"], last["zero_point"])], [node(None, None, "float32")], rng.choice(["dequantize", "Dequant_1"])))
                if rng.random() < 0.3:
                    net["graph"].append(op("QUANTIZE", [node(None, None, "float32")], [node(0.05, 3, "int8")], "quantize_1"))
            if r > 0.8:        # a first layer which hands its input on: the quantised input itself is recorded
                net["graph"].insert(0, op("SOFTMAX", [node(0.1, 0)], [node(0.1, 0)], "softmax_first"))
        if kind == "eng":
            net["engine"] = rng.choice(["other", "TFLITE2", "", "TF", "ONN", "tensorflow", "TFLITEONNX", "none"])
        elif kind == "oper":
            bad = rng.choice(["CONV_2D", "FULLY", "FULLYCONNECTED", "TANHLUTX", "", "MAX_POOL", "GELU", "QUANT", "RELU6X", "FULLY-CONNECTED"]) if not onnx else rng.choice(["Conv", "Gemm", "MatMul", "QLinearConv", "QLinearMat", "QLinearAddX", "", "LeakyRelu", "MaxPool", "Quantize", "SoftmaxLUT", "ReluLUT", "QLinearSoftmax", "QuantizeLin", "FULLY_CONNECTED"])
            k = rng.randint(0, len(net["graph"]))
            like = rng.choice(net["graph"]) if rng.random() < .3 else table_op(rng, "TANHLUT") if rng.random() < .5 else op(bad, [node(0.1, 0)], [node(0.1, 0)], "mystery")
            net["graph"].insert(k, {**copy.deepcopy(like), "op_type": bad, "name": "mystery"})
        elif kind == "noin":
            net["input"] = [None]
        elif kind == "noout":
            net["output"] = [None]
        return net, d

    for h in g:
        def f(emit):
            n = net = chain = None
            xs, c = {}, 0
            for what, kind, v in h:
                if what == "load":
                    net, d = fresh(kind)
                    c += 1
                    e, n = load_event(net, f"{ctx.scratch}/net.json" if rng.random() < 0.3 else None)
                    emit(e)
                    xs = {}
                    if n is not None and kind in ("a", "b"):
                        chain = [builder(net["engine"].upper())(load(o)) for o in net["graph"]]
                elif n is not None and kind in ("a", "b"):
                    if v not in xs:
                        sh = shape(net, d)
                        x = ctx.np.normal(size=sh) * rng.choice([0.5, 2.0])
                        xs[v] = np.round(3 * x).astype(rng.choice([np.int64, np.int8])) if rng.random() < .15 else x.astype(rng.choice([np.float32, np.float64]))
                    emit(infer_event(n, net, xs[v], chain, rng.random() < 0.2, rng.random() < .5, {k: True for k in ('isBatch', 'verbose') if rng.random() < .1}))
        rec.scenario(f)
    for _ in range(400 if ctx.thorough else 120):        # a network with an operation the engine does not know is never loaded
        rec.scenario(lambda emit: emit(load_event(fresh("oper")[0])[0]))
    for _ in range(600 if ctx.thorough else 251):        # longer histories on several networks at once
        def f(emit):
            kind = rng.choice(["a", "b"])
            net, d = fresh(kind)
            e, n = load_event(net)
            emit(e)
            if n is None:
                return
            mk = lambda: [builder(net["engine"].upper())(load(o)) for o in net["graph"]]
            chain = mk()
            other, d2 = fresh(rng.choice(["a", "b"]))
            other = SequentialNetwork(load(other))
            xs, last = [ctx.np.normal(size=shape(net, d)) * 2 for _ in range(4)], None
            xs[0] = np.round(xs[0]).astype(rng.choice([np.int64, np.int32, np.float64]))
            for _ in range(rng.choice([3, 6])):
                if rng.random() < 0.4:
                    attempt(lambda: other.infer(ctx.np.normal(size=shape(other.schema, d2))))
                if rng.random() < 0.15:
                    attempt(lambda: n.infer(ctx.np.normal(size=(1, d + 1))))        # a rejected inference leaves no trace
                last = rng.choice(xs) if last is None or rng.random() < .6 else last
                emit(infer_event(n, net, last, chain if rng.random() < 0.5 else mk(), rng.random() < 0.2, rng.random() < .5, {k: True for k in ('isBatch', 'verbose') if rng.random() < .1}))
        rec.scenario(f)
    ctx.validate("EngineTrace", rec.scenarios, step="EStep", start="NoNet")
