"""C24: activation and (de)quantisation layers (spec/Engine.tla, Transc.tla)."""
from ecommon import *


def sweep(rng, sg, b, n):
    lo, hi = gens.bounds(sg, b)
    if hi - lo < n:
        return np.arange(lo, hi + 1)
    k = sorted({lo, hi, lo + 1, hi - 1, 0 if sg else lo} | {rng.randint(lo, hi) for _ in range(n)})
    return np.array(k)


def run(ctx):
    rec = Rec()
    rng = ctx.rng
    ctx.mc("TranscTest", init="Init", next="Next", inv=["OK"], workers=4)
    N = 500 if ctx.thorough else 251
    kinds = ["TANH", "LOGISTIC", "RELU", "QUANTIZE", "DEQUANTIZE", "SOFTMAX", "QuantizeLinear", "DequantizeLinear", "QLinearSigmoid", "Softmax", "Tanh"]
    for ki, kind in enumerate(kinds):
        eng = "TFLITE" if kind.isupper() else "ONNX"
        for k in range(N):
            exact = rng.random() < 0.4
            s, s2 = pscale(rng, exact), pscale(rng, exact)
            if rng.random() < 0.15:
                s = rng.choice([2.0, 8.0, 1e-4])
            sg, b = (True, 8) if eng == "TFLITE" else (False, 8)
            z = zp(rng, sg, b)
            if kind in ("TANH", "LOGISTIC", "SOFTMAX"):
                o = op(kind, [node(s, z)], [node(1 / 128 if kind == "TANH" else 1 / 256, 0 if kind == "TANH" else -128)])
                x = sweep(rng, sg, b, 40)
            elif kind == "RELU":
                o = op(kind, [node(s, z)], [node(s * rng.choice([0.5, 1, 2, 0.37]), zp(rng, sg, b))])
                x = sweep(rng, sg, b, 60)
            elif kind == "QUANTIZE":
                t = rng.choice([(True, 8), (False, 8), (True, 16), (True, 4), (False, 16), (True, 32), (True, 12)])
                z = zp(rng, *t)
                o = op(kind, [node(None, None, "float32")], [node(s, z, gens.tname(*t))])
                x = np.array(sorted(gens.reals(rng, s, z, *t, 12)))
            elif kind == "DEQUANTIZE":
                t = rng.choice([(True, 8), (False, 8), (True, 16), (True, 32)])
                o = op(kind, [node(s, zp(rng, *t), gens.tname(*t))], [node(None, None, "float32")])
                x = sweep(rng, *t, 30)
                sg, b = t
            elif kind == "QuantizeLinear":
                o = op(kind, [node(s, z, "uint8")], [])
                x = np.array(sorted(gens.reals(rng, s, z, sg, b, 12)))
            elif kind == "DequantizeLinear":
                o = op(kind, [node(s, z, "uint8")], [])
                x = sweep(rng, sg, b, 30)
            elif kind == "QLinearSigmoid":
                o = op(kind, [node(s, z, "uint8"), node(rng.choice([1 / 256, 1 / 255, 0.01, 2.0 ** -9]), rng.choice([0, 0, 10, 128, 255]), "uint8")], [])
                x = sweep(rng, sg, b, 40)
            else:
                o = op(kind, [], [])
                c = rng.choice([0.1, 1.0, 5.0, 30.0, 200.0] + ([800.0, 5000.0] if kind == "Softmax" else []))
                x = np.array([rng.uniform(-c, c) for _ in range(rng.choice([1, 2, 5, 10]))])
                if rng.random() < 0.3:
                    x = x + rng.choice([-1000, 1000, 700, 50])
                if rng.random() < 0.3:
                    x = np.round(x)
                if kind == "Softmax":
                    x = np.clip(x, -1e4, 1e4)
            def f(emit):
                layer = builder(eng)(load(o))
                y = cast(rng, x, sg, b) if kind not in ("QUANTIZE", "QuantizeLinear", "Softmax", "Tanh") else x.copy()
                emit(layer_event(eng, o, y, layer))
                # a batch of several rows
                rows = rng.choice([2, 3])
                cols = rng.choice([1, 2, 4])
                zz = np.array([rng.choice(list(x)) for _ in range(rows * cols)]).reshape(rows, cols)
                if kind == "Softmax":
                    zz = zz + np.arange(rows).reshape(-1, 1) * rng.choice([0, 3, 900])
                if rng.random() < .06:
                    big = many(rng, zz)
                    emit(rows_event(rng, eng, o, cast(rng, big, sg, b) if kind not in ("QUANTIZE", "QuantizeLinear", "Softmax", "Tanh") else big, layer))
                emit(layer_event(eng, o, cast(rng, zz, sg, b) if kind not in ("QUANTIZE", "QuantizeLinear", "Softmax", "Tanh") else zz, layer))
            rec.scenario(f)
    ctx.validate("EngineTrace", rec.scenarios, step="EStep", start="NoNet")
    ctx.assumptions += ["activation functions are computed by the specification (relative error 2^-43); half a step plus 2^-9 step is allowed for binary32 evaluation", "TensorFlow's sigmoid is replaced by a numpy stand-in"]
