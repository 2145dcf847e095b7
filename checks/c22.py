"""C22: the model converters (spec/Convert.tla, ConvertMC.tla)."""
import importlib.util, json, os, sys, types
import numpy as np
import repo
from vlib import D, A, attempt, Rec, quiet, REPO
repo.use("keras2json", "onnx2json", "tflite2json")
import keras_stub as ks  # noqa: E402
import misc_stub as ms  # noqa: E402

_cwd = os.getcwd()
os.chdir(os.path.join(REPO, "model_converters", "onnx2json"))        # its settings are read from the working directory
try:
    _sp = importlib.util.spec_from_file_location("onnx_2json", "2json.py")
    o2j = importlib.util.module_from_spec(_sp)
    with quiet():
        _sp.loader.exec_module(o2j)
finally:
    os.chdir(_cwd)
with quiet():
    import keras2json  # noqa: E402
    import itcl_tflite2json  # noqa: E402
    from itcl_tflite2json import _tflite2json  # noqa: E402
    _sp = importlib.util.spec_from_file_location("keras_main", os.path.join(REPO, "model_converters", "keras2json", "_main.py"))
    k2j_main = importlib.util.module_from_spec(_sp)
    _sp.loader.exec_module(k2j_main)


def folder(ctx, ext, key, model, main):
    """the command-line entry: converts every model of a folder (relative to the working directory) next to itself"""
    d = os.path.join(ctx.scratch, "run")
    rel = "models" if ext == "h5" else "../models"
    os.makedirs(d, exist_ok=True)
    m = os.path.normpath(os.path.join(d, rel))
    os.makedirs(m, exist_ok=True)
    for f in os.listdir(m):
        os.unlink(os.path.join(m, f))
    with open(f"{m}/net.{ext}", "w") as f:
        f.write(key)
    ks.MODELS[f"{rel}/net.{ext}"] = model
    cwd = os.getcwd()
    os.chdir(d)
    try:
        with quiet():
            main()
        with open(f"{m}/net.json") as f:
            return json.load(f)
    finally:
        os.chdir(cwd)

NOA = {"sh": [], "v": [], "ty": "f"}
ACTS = ["linear", "relu", "tanh", "sigmoid", "softmax"]


def enc(n):
    """a node of the network file"""
    t = n.get("tensor") or {}
    v = t.get("tensor")
    a = np.asarray(v) if v is not None else None
    bad = a is not None and a.dtype == object
    sh = t.get("shape")
    sh = [sh] if isinstance(sh, int) else list(sh or [])
    L = n.get("LUT") or {}
    tab = L.get("LUT") or []
    m = len(tab)
    return {"hasv": v is not None and not bad, "sh": [int(x) for x in sh], "vsh": [] if a is None or bad else list(a.shape), "v": [] if a is None or bad else A(a)["v"], "nm": str(t.get("name") or ""), "dt": str(t.get("dtype") or ""),
            "q": n.get("scale") is not None and n.get("zero_point") is not None, "s": D(n.get("scale") if n.get("scale") is not None else 1.0), "z": D(n.get("zero_point") or 0),
            "ln": m, "li": list(range(m)), "lv": [int(x) for x in tab], "loff": D(L.get("offset") or 0)}


def thin(n, rng, k=12):
    m = n["ln"]
    if m > k:
        n["li"] = sorted({0, 1, m // 2, m - 2, m - 1, *rng.sample(range(m), k)})
        n["lv"] = [n["lv"][i] for i in n["li"]]
    return n


def att(o, k):
    return list(((o.get("attributes") or {}).get(k) or {}).get("value") or [])


def enc_op(o, rng):
    return {"ty": o["op_type"], "name": str(o.get("name")), "in": [thin(enc(n), rng) for n in o["inputs"]], "out": [thin(enc(n), rng) for n in o["outputs"]],
            "at": {"units": att(o, "units"), "ret": att(o, "return_sequences"), "steps": att(o, "steps"), "strides": att(o, "strides"), "pad": att(o, "padding"), "pool": att(o, "pool_size")}}


# ------------------------------------------------------------------- keras
BAD = ["BatchNormalization", "GRU", "Reshape", "Activation", "Embedding", "Conv2DTranspose", "DepthwiseConv2D", "SeparableConv2D", "EinsumDense", "GlobalMaxPooling2D", "ConvLSTM2D"]


def bad_layer(name, npr):
    c = getattr(ks, name)
    if name in ("Conv2DTranspose", "DepthwiseConv2D", "SeparableConv2D"):
        return c(kernel=npr.normal(size=(2, 2, 3, 3)), bias=npr.normal(size=3), activation="relu")
    if name == "EinsumDense":
        return c(kernel=npr.normal(size=(2, 3)), bias=npr.normal(size=3), activation="relu")
    if name == "ConvLSTM2D":
        return c(kernel=npr.normal(size=(2, 8)), recurrent=npr.normal(size=(2, 8)), bias=npr.normal(size=8), batch_input_shape=(None, 3, 4, 4, 2))
    if name == "Activation":
        return c("relu")
    return c()


def keras_layer(k, ctx):
    rng, npr = ctx.rng, ctx.np
    r = {"k": k, "act": "", "name": "", "W": NOA, "R": NOA, "B": NOA, "ret": False, "steps": 0, "strides": [], "pad": 0, "pool": []}
    if k == "bad":
        return bad_layer(rng.choice(BAD), npr), dict(r, k="unsupported")
    if k == "dense":
        i, o = rng.choice([1, 2, 3, 5]), rng.choice([1, 2, 3, 4])
        b = npr.normal(size=o) if rng.random() < .6 else None
        a = rng.choice(ACTS + (["hard_sigmoid", "elu", "my_relu_v2", "Mish"] if rng.random() < .3 else []))
        fn = a if a in ACTS else (lambda v: v)
        if a not in ACTS: fn.__name__ = a       # any function the user has
        lay = ks.Dense(kernel=npr.normal(size=(i, o)), bias=b, activation=fn, name=f"d{rng.randrange(10**6)}")
    elif k == "lstm":
        u, d = rng.choice([1, 2, 3]), rng.choice([1, 2, 4])
        b = npr.normal(size=4 * u) if rng.random() < .7 else None
        steps = rng.choice([1, 3, 8])
        ret = rng.random() < .5
        lay = ks.LSTM(kernel=npr.normal(size=(d, 4 * u)), recurrent=npr.normal(size=(u, 4 * u)), bias=b, return_sequences=ret, batch_input_shape=(None, steps, d))
        a = ""
        r.update(ret=ret, steps=steps, R=A(lay.get_weights()[1]))
    elif k == "conv2d":
        sh = (rng.choice([1, 2, 3]), rng.choice([1, 2, 3]), rng.choice([1, 2, 3]), rng.choice([1, 2, 4]))
        b = npr.normal(size=sh[3]) if rng.random() < .7 else None
        a = rng.choice(ACTS + ["relu6"])
        st, pad = (rng.choice([1, 2]), rng.choice([1, 2, 3])), rng.choice(["valid", "same"])
        lay = ks.Conv2D(kernel=npr.normal(size=sh), bias=b, activation=a, strides=st, padding=pad)
        r.update(strides=list(st), pad=int(pad == "same"))
    elif k == "maxpooling2d":
        st, pad, pool = (rng.choice([1, 2]), rng.choice([1, 2, 3])), rng.choice(["valid", "same"]), (rng.choice([1, 2]), rng.choice([2, 3]))
        lay = ks.MaxPooling2D(pool_size=pool, strides=st, padding=pad)
        r.update(strides=list(st), pad=int(pad == "same"), pool=list(pool))
        return lay, r
    else:
        return {"flatten": ks.Flatten, "dropout": ks.Dropout, "inputlayer": ks.InputLayer}[k](), r
    w = lay.get_weights()
    r.update(W=A(w[0]), act=a, name=lay.name)
    if b is not None:
        r["B"] = A(w[-1])
    return lay, r


def keras_run(ctx, m, emit):
    made = [keras_layer(k, ctx) for k in m]
    model = ks.Sequential([l for l, _ in made])
    if ctx.rng.random() < .2:
        ok, net = attempt(lambda: folder(ctx, "h5", "", model, k2j_main._main))
    else:
        ok, net = attempt(lambda: json.loads(json.dumps(keras2json.convert(model))))
    e = {"ev": "Keras", "layers": [r for _, r in made], "raised": not ok, "ops": [], "count": 0, "engine": ""}
    if ok:
        e.update(ops=[enc_op(o, ctx.rng) for o in net["graph"]], count=net["operators"], engine=net["engine"])
    emit(e)


# -------------------------------------------------------------------- onnx
NS = types.SimpleNamespace


def info(nm, dims):
    return NS(name=nm, type=NS(tensor_type=NS(shape=NS(dim=[NS(dim_value=d) for d in dims]))))


def onnx_run(ctx, m, emit):
    rng, npr = ctx.rng, ctx.np
    inits, nodes, vinfo, recs = [], [], [], []
    used = set()

    def fresh():
        while True:
            n = f"t{rng.randrange(10**6)}"
            if n not in used:
                used.add(n)
                return n

    def q():
        s, z = float(np.float32(npr.uniform(.001, .2))), rng.choice([0, 128, 255, rng.randrange(256)])
        a, b = fresh(), fresh()
        inits.append(NS(name=a, float_data=[s], int32_data=[], raw_data=b"", dims=[]))
        inits.append(NS(name=b, float_data=[], int32_data=[z], raw_data=b"", dims=[]))
        return {"s": D(s), "z": D(z)}, a, b

    width = rng.choice([1, 2, 3, 5])
    cur = (fresh(), [1, width])
    first = cur
    for k in m:
        y = (fresh(), [1, rng.choice([1, 2, 3, 4]) if k == "QLinearMatMul" else cur[1][1]])
        r = {"k": "Relu" if k == "bad" else k, "q": [], "W": NOA, "x": {"nm": cur[0], "sh": cur[1]}, "y": {"nm": y[0], "sh": y[1]}}
        ins = [cur[0]]
        if k in ("QuantizeLinear", "DequantizeLinear"):
            p, a, b = q(); ins += [a, b]; r["q"] = [p]
        elif k in ("QLinearAdd", "QLinearMatMul"):
            W = npr.integers(0, 256, size=(cur[1][1], y[1][1]) if k == "QLinearMatMul" else (y[1][1],)).astype(np.uint8)
            p1, a1, b1 = q(); p2, a2, b2 = q(); p3, a3, b3 = q()
            w = fresh()
            inits.append(NS(name=w, float_data=[], int32_data=[], raw_data=W.tobytes(), dims=list(W.shape)))
            ins += [a1, b1, w, a2, b2, a3, b3]
            r.update(q=[p1, p2, p3], W=A(W))
        elif k == "QLinearSigmoid":
            p1, a1, b1 = q(); p2, a2, b2 = q()
            ins += [a1, b1, a2, b2]; r["q"] = [p1, p2]
        nodes.append(NS(op_type=r["k"], input=ins, output=[y[0]], name=fresh()))
        recs.append(r)
        vinfo.append(info(*y))
        cur = y
    if vinfo:
        vinfo.pop()                              # the last tensor is the network output
    rng.shuffle(inits)
    if rng.random() < .5:
        rng.shuffle(vinfo)
    gi, go = [info(*first)], [info(*cur)]
    if not m:
        go = [info("other", [1, width])]
        cur = ("other", [1, width])
    extra = []
    if m and rng.random() < .25:                 # inputs that no operation uses
        extra = [(fresh(), [1, rng.choice([1, 2, 3])]) for _ in range(rng.choice([1, 2]))]
        gi += [info(*t) for t in extra]
    model = NS(ir_version=7, graph=NS(node=nodes, initializer=inits, value_info=vinfo, input=gi, output=go))

    def go_():
        with quiet():
            return json.loads(json.dumps(o2j.model2json(model)))
    ok, net = attempt(go_)
    e = {"ev": "Onnx", "nodes": recs, "raised": not ok, "ops": [], "inputs": [], "outputs": [], "srcin": [{"nm": t[0], "sh": t[1]} for t in [first] + extra], "srcout": [{"nm": cur[0], "sh": cur[1]}]}
    if ok:
        e.update(ops=[enc_op(o, rng) for o in net["graph"]], inputs=[enc(n) for n in net["input"]], outputs=[enc(n) for n in net["output"]])
    emit(e)


# ------------------------------------------------------------------ tflite
TT = {"FLOAT32": np.float32, "INT32": np.int32, "INT8": np.int8, "INT16": np.int16, "UINT8": np.uint8}


def tfl_run(ctx, m, emit):
    rng, npr = ctx.rng, ctx.np
    ts = []

    table = any(k in ("TANH", "LOGISTIC") for k in m)
    act = "INT8" if table else rng.choice(["INT8", "INT8", "UINT8", "INT16", "INT32"])

    def tensor(dt, shape, value=None, quant=True):
        s = float(np.float32(npr.uniform(.0005, .2))) if quant else None
        i = np.iinfo(TT.get(dt, np.int8) if dt != "FLOAT32" else np.int8)
        lo, hi = max(i.min, -2 ** 20), min(i.max, 2 ** 20)
        z = rng.choice([0, lo, hi, rng.randrange(lo, hi + 1)]) if quant else None
        ts.append({"nm": f"n{len(ts)}_{rng.randrange(10**5)}", "type": getattr(ms.TensorType, dt), "dt": dt, "shape": list(shape), "value": value, "s": s, "z": z, "noq": not quant and rng.random() < .5})
        return len(ts) - 1

    ops = []
    w = rng.choice([1, 2, 3, 5])
    cur = tensor(*(("FLOAT32", [1, w], None, False) if m and m[0] == "QUANTIZE" else (act, [1, w])))
    first = cur
    for k in m:
        o = w
        ins = [cur]
        if k == "FULLY_CONNECTED":
            o = rng.choice([1, 2, 3, 4])
            ins.append(tensor("INT8", [o, w], npr.integers(-128, 128, size=(o, w)).astype(np.int8)))
            if rng.random() < .8:
                ins.append(tensor("INT32", [o], npr.integers(-10**5, 10**5, size=o).astype(np.int32)))
        elif k == "ADD":
            i = np.iinfo(TT[act])
            ins.append(tensor(act, [1, w], npr.integers(max(i.min, -2 ** 30), min(i.max, 2 ** 30) + 1, size=(1, w)).astype(TT[act])))
        out = tensor("FLOAT32", [1, o], None, False) if k == "DEQUANTIZE" else tensor(act, [1, o])
        ops.append({"code": getattr(ms.BuiltinOperator, k), "in": ins, "out": [out]})
        cur, w = out, o
    model = ms.TflModel(ts, ops, [first], [cur])
    src, dst = f"{ctx.scratch}/m.tflite", f"{ctx.scratch}/m.json"
    key = f"tfl-{rng.randrange(10**9)}"
    with open(src, "w") as f:
        f.write(key)
    ms.MODELS[key] = model
    ks.MODELS[src] = model
    if os.path.exists(dst):
        os.unlink(dst)

    def go():
        if rng.random() < .25:
            return folder(ctx, "tflite", key, model, _tflite2json.main)
        with quiet():
            itcl_tflite2json.convert(src, dst)
        return json.load(open(dst))
    ok, net = attempt(go)
    del ms.MODELS[key]
    e = {"ev": "Tflite", "raised": not ok, "nodes": [{"k": k, "in": [i + 1 for i in o["in"]], "out": [i + 1 for i in o["out"]]} for k, o in zip(m, ops)],
         "tensors": [{"nm": t["nm"], "dt": t["dt"], "sh": t["shape"], "q": t["s"] is not None, "s": D(t["s"] or 1.0), "z": D(t["z"] or 0), "hasv": t["value"] is not None,
                      "v": A(t["value"])["v"] if t["value"] is not None else []} for t in ts],
         "ops": [], "inputs": [], "outputs": [], "srcin": [first + 1], "srcout": [cur + 1], "count": 0, "engine": ""}
    if ok:
        e.update(ops=[enc_op(o, rng) for o in net["graph"]], inputs=[enc(n) for n in net["input"]], outputs=[enc(n) for n in net["output"]], count=net["operators"], engine=net["engine"])
    emit(e)


def run(ctx):
    rec = Rec()
    rng = ctx.rng
    inv = ["Whole", "Refused", "Covered", "Positions"]
    km = ctx.gen("ConvertMC", dict(MaxLen=3, Kind="keras"), spec_name="Spec", inv=inv, post="Emit", workers=4)["m"]
    om = ctx.gen("ConvertMC", dict(MaxLen=4 if ctx.thorough else 3, Kind="onnx"), spec_name="Spec", inv=inv, post="Emit", workers=4)["m"]
    ctx.mc("ConvertMC", dict(MaxLen=6 if ctx.thorough else 5, Kind="onnx"), spec_name="Spec", inv=inv, workers=8)
    for m in km:
        rec.scenario(lambda emit: keras_run(ctx, m, emit))
    for b in BAD:                       # every unsupported layer on its own
        for _ in range(3):
            rec.scenario(lambda emit: keras_run(ctx, ["dense", "bad"], emit))
    kk = ["dense", "lstm", "conv2d", "flatten", "maxpooling2d", "dropout", "inputlayer"]
    for _ in range(600 if ctx.thorough else 336):
        rec.scenario(lambda emit: keras_run(ctx, [rng.choice(kk) for _ in range(rng.choice([1, 4, 8]))], emit))
    for m in om:
        rec.scenario(lambda emit: onnx_run(ctx, m, emit))
    ok_ = ["DequantizeLinear", "Tanh", "QuantizeLinear", "QLinearMatMul", "QLinearAdd", "QLinearSigmoid", "Softmax"]
    for _ in range(600 if ctx.thorough else 336):
        m = []
        for _ in range(rng.choice([1, 3, 6])):
            m += rng.choice([ok_[:3], [rng.choice(ok_)], ["QLinearMatMul", "QLinearAdd"]])
        rec.scenario(lambda emit: onnx_run(ctx, m, emit))
    tk = ["QUANTIZE", "FULLY_CONNECTED", "TANH", "LOGISTIC", "RELU", "SOFTMAX", "ADD", "RESHAPE", "DEQUANTIZE"]
    for k in tk:
        rec.scenario(lambda emit: tfl_run(ctx, [k], emit))
    for _ in range(1500 if ctx.thorough else 630):
        body = [rng.choice(tk[1:8]) for _ in range(rng.choice([0, 1, 3, 6]))]
        rec.scenario(lambda emit: tfl_run(ctx, (["QUANTIZE"] if rng.random() < .5 else []) + body + (["DEQUANTIZE"] if rng.random() < .5 else []), emit))
    ctx.validate("ConvertTrace", rec.scenarios, step="CvStep", start="NoNet")
    ctx.assumptions += ["Keras, ONNX and TFLite models are built with the stand-ins of harness/stubs (none of these libraries is installed)", "ONNX models are 8-bit unsigned and TFLite activations 8-bit signed, chains of operations"]
