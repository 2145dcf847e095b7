"""C21: the exported network (spec/Export.tla, ExportMC.tla, with Engine.tla and Lstm.tla for its execution)."""
from ecommon import *
from vlib import quiet
repo.use("quantizer")
import keras_stub as ks
from c12 import load_event, infer_event
from c13 import lstm_event
from itcl_quantizer.tensor_extractor.keras.keras_builder import build  # noqa: E402
from itcl_quantizer.config.models.keras import QuantizerCfg, KerasDenseCfg, QuantizeCfg, ParamEqualizerCfg, RoundingMinimaCfg, RoundingAnnealerCfg  # noqa: E402

NOA = {"sh": [], "v": [], "ty": "f"}


def enc_x(n, rng, k=10):
    e = enc_node(n, {})
    t = n.get("tensor") or {}
    L = n.get("LUT")
    tab = (L or {}).get("LUT") or []
    m = len(tab)
    idx = list(range(m)) if m <= k else sorted({0, 1, m // 2 - 1, m // 2, m - 2, m - 1, *rng.sample(range(m), k)})
    e.update(q=n.get("scale") is not None and n.get("zero_point") is not None, hasv=t.get("tensor") is not None, sh=[int(v) for v in t.get("shape") or []],
             lut=[], ln=m, li=idx, lv=[int(tab[i]) for i in idx], loff=D((L or {}).get("offset") or 0))
    return e


def enc_ops(graph, rng):
    out = []
    for o in graph:
        a = o.get("attributes") or {}
        out.append({"ty": o["op_type"], "up": o["op_type"].upper(), "in": [enc_x(n, rng) for n in o["inputs"]], "out": [enc_x(n, rng) for n in o["outputs"]],
                    "seq": bool((a.get("return_sequences") or {}).get("value", [False])[0]), "cells": int((a.get("n_cells") or {}).get("value", [0])[0])})
    return out


class Unknown(ks.Layer):
    pass


def make(ctx, m, cfg_kw):
    """(keras model, input, layer records, configuration) for a model structure"""
    rng, npr = ctx.rng, ctx.np
    rec = any(l["k"] in ("seq", "last") for l in m)
    d = rng.randint(1, 4)
    n = rng.choice([2, 6, 15])
    x = npr.normal(size=(n, rng.choice([1, 2, 4]), d) if rec else (n, d)) * rng.choice([0.2, 1, 1, 8])
    x = x.astype(rng.choice([np.float32, np.float64]))
    dense = cfg_kw["dense"]
    layers, recs, spec, v = [], [], {}, np.array(x)
    m = [dict(l, act="relu6") if l["act"] == "relu" and rng.random() < .4 else l for l in m]
    for i, l in enumerate(m):
        k = l["k"]
        r = {"k": k, "act": l["act"], "K": NOA, "R": NOA, "B": NOA, "kt": enc_t("int8"), "bt": enc_t("int32"), "bat": enc_t("int8"), "at": enc_t("int8"), "units": 0, "ret": False, "named": False, "pmax": D(0), "pmin": D(0)}
        if k == "dense":
            u = rng.randint(1, 4)
            K = npr.normal(size=(d, u)) * 10.0 ** rng.uniform(-1, .6)
            if rng.random() < .3: K = K * 10.0 ** -npr.uniform(0, 4, size=K.shape)      # weights of many magnitudes
            if l["act"] == "relu6" and rng.random() < .6: K = K * 20
            if rng.random() < .1: K = np.abs(K) * rng.choice([-1, 1])
            B = None if rng.random() < .25 else npr.normal(size=u) * rng.choice([0, .3, 2])
            lay = ks.Dense(kernel=K, bias=B, activation=l["act"], name=f"layer_{i}")
            c = dense
            if rng.random() < .3:
                c = spec[lay.name] = dtypes(rng)
                r["named"] = True
            w = lay.get_weights()
            if v is not None and v.ndim == 2:
                pre = np.asarray(ks.Dense(kernel=w[0], bias=w[1] if len(w) > 1 else None).call(v))
                r.update(pmax=D(float(pre.max())), pmin=D(float(pre.min())))
            r.update(K=A(w[0]), B=A(w[1]) if len(w) > 1 else NOA, kt=enc_t(c.kernel_dtype), bt=enc_t(c.bias_dtype), bat=enc_t(c.bias_add_dtype), at=enc_t(c.activation_dtype), units=u)
            d = u
        elif k in ("seq", "last"):
            u = rng.randint(1, 2)
            lay = ks.LSTM(kernel=npr.normal(size=(d, 4 * u)) * (10.0 ** -npr.uniform(0, 3, size=(d, 4 * u)) if rng.random() < .3 else 1), recurrent=npr.normal(size=(u, 4 * u)), bias=npr.normal(size=4 * u) * .3, return_sequences=k == "seq", name=f"layer_{i}")
            w = lay.get_weights()
            r.update(k="lstm", K=A(w[0]), R=A(w[1]), B=A(w[2]), units=u, ret=k == "seq")
            d = u
        elif k == "dropout":
            lay = ks.Dropout(0.3, name=f"layer_{i}")
        elif k == "input":
            lay = ks.InputLayer(name=f"layer_{i}")
        else:
            lay = rng.choice([Unknown, ks.Flatten, ks.BatchNormalization, ks.GRU, ks.Embedding, ks.Reshape])(name=f"layer_{i}")
        v = None if l["act"] == "softmax" else np.asarray(lay(v)) if v is not None and k in ("dense", "seq", "last") else v
        layers.append(lay)
        recs.append(r)
    return ks.Sequential(layers), x, recs, spec


KT = ["int8", "int8", "int8", "int4", "int3", "int6", "INT8", "int12", "int16"]
BT = ["int32", "int32", "int16"]
AT = ["int8", "int8", "int8", "int4", "uint8", "int6"]


def dtypes(rng, wide=False):
    if rng.random() < .3:
        return KerasDenseCfg(kernel_symmetric=rng.random() < .5)
    at = AT + (["int12"] if wide else [])
    return KerasDenseCfg(kernel_dtype=rng.choice(KT), bias_dtype=rng.choice(BT), bias_add_dtype=rng.choice(at), activation_dtype=rng.choice(at), kernel_symmetric=rng.random() < .5)


def model_run(ctx, m, opt, emit, infers=1):
    rng, npr = ctx.rng, ctx.np
    inq = rng.choice(["int8", "int8", "int8", "int4", "uint8"])
    kw = dict(dense=dtypes(rng, rng.random() < .1))
    model, x, recs, spec = make(ctx, m, kw)
    has_rec = any(r["k"] == "lstm" for r in recs)
    cfg = QuantizerCfg(quantize=QuantizeCfg(dtype=inq), specific_layers=spec, **kw)
    loss = None
    if opt:
        ref = np.asarray(model(x)) if all(r["k"] != "bad" for r in recs) else 0
        def loss(net):
            return float(np.mean((np.asarray(net.infer(x)) - ref) ** 2))
        if opt in ("params", "both"):
            cfg.param_equalizer = ParamEqualizerCfg(max_retries=rng.choice([1, 4]))
        if opt in ("round", "both"):
            cfg.ada_round_net = rng.choice([RoundingMinimaCfg(max_retries=3), RoundingAnnealerCfg(steps=10, t_min=.1, t_max=5, updates=1, max_retries=2)])
    ks.MODELS["m"] = model
    out = f"{ctx.scratch}/exported.json"
    if os.path.exists(out):
        os.unlink(out)

    def go():
        with quiet():
            return build("m", out, x, loss, cfg)
    ok, net = attempt(go)
    e = {"ev": "Export", "layers": recs, "inq": enc_t(inq), "raised": not ok, "opt": bool(opt), "ops": [], "nops": 0, "eng": "", "same": True}
    if not ok:
        emit(e)
        return
    okr, file = attempt(lambda: json.load(open(out)))
    if not okr:
        emit({"ev": "Exception", "what": f"no readable network file: {file}"})
        return
    ret = load(net.as_json())
    e.update(ops=enc_ops(file["graph"], rng), nops=file["operators"], eng=file["engine"].upper(), same=ret["graph"] == file["graph"])
    emit(e)
    if len(recs) == 0 or any(r["k"] == "bad" for r in recs) or not infers:
        return
    for g in file["graph"]:          # a recurrent layer needs batches; others take any shape
        pass
    ev, n = load_event(file, f"{ctx.scratch}/net.json")
    emit(ev)
    if n is None:
        return
    chain = [builder("TFLITE")(load(o)) for o in file["graph"]]
    for _ in range(infers):
        sh = (rng.choice([1, 2, 3]),) + x.shape[1:]
        xi = npr.normal(size=sh) * np.abs(x).max() * rng.choice([.3, .6, 2])
        if rng.random() < .3:
            xi = np.array(x[rng.sample(range(len(x)), min(2, len(x)))])
        iev = infer_event(n, file, xi, chain)
        emit(iev)
        if has_rec and iev["ok"]:
            v = np.array(xi)
            for o, layer in zip(file["graph"], chain):
                if o["op_type"].upper() == "LSTM":
                    emit(lstm_event(o, np.asarray(v), bool(o["attributes"]["return_sequences"]["value"][0])))
                v = layer.infer(v)


import os  # noqa: E402


def run(ctx):
    rec = Rec()
    rng = ctx.rng
    ms = ctx.gen("ExportMC", dict(MaxLen=3), spec_name="Spec", inv=["Written", "Chained", "Refused", "Positions"], post="Emit", workers=4)["m"]
    ctx.mc("ExportMC", dict(MaxLen=5 if ctx.thorough else 4), spec_name="Spec", inv=["Written", "Chained", "Refused", "Positions"], workers=6)
    for m in ms:
        big = len(m) == 3 and not ctx.thorough
        if big and rng.random() < .6:
            continue
        rec.scenario(lambda emit: model_run(ctx, m, None, emit, 1 if rng.random() < .5 else 0))
    pick = [m for m in ms if m and all(l["k"] != "bad" for l in m) and any(l["k"] not in ("dropout", "input") for l in m)]
    for _ in range(400 if ctx.thorough else 80):
        m = rng.choice(pick)
        if rng.random() < .4:      # longer models
            dd = [l for l in m if l["k"] not in ("seq", "last")]
            m = m + [rng.choice([{"k": "dense", "act": a} for a in ("linear", "relu", "tanh", "sigmoid")]) for _ in range(3)] if m[-1]["k"] != "seq" else m
        rec.scenario(lambda emit: model_run(ctx, m, rng.choice(["params", "round", "both"]), emit, 1))
    for _ in range(600 if ctx.thorough else 80):
        m = [rng.choice([{"k": "dense", "act": a} for a in ("linear", "relu", "tanh", "sigmoid", "softmax")]) for _ in range(rng.choice([2, 4, 6]))]
        rec.scenario(lambda emit: model_run(ctx, m, None, emit, 2))
    for _ in range(20 if ctx.thorough else 6):       # long models
        m = [rng.choice([{"k": "dense", "act": a} for a in ("linear", "relu", "tanh", "sigmoid")]) for _ in range(rng.choice([9, 17, 33]))]
        rec.scenario(lambda emit: model_run(ctx, m, None, emit, 1))
    ctx.validate("ExportTrace", rec.scenarios, step="XStep", start="NoNet")
    ctx.assumptions += ["Keras models are built with the numpy stand-in of harness/stubs (TensorFlow is not installed)", "types of up to 12 bits for table inputs"]
