"""C28: measures of quantisation quality (spec/Quality.tla, QualityMC.tla)."""
import math
from qcommon import *
from vlib import quiet
repo.use("quantizer")
from itcl_quantizer.quantizer.distributions.distribution import Distribution  # noqa: E402
from itcl_quantizer.quantizer.metrics import noise as nz  # noqa: E402
from itcl_quantizer.util.collisions import calc_collisions  # noqa: E402


def collide(f, q, eps):
    f0, q0 = A(f), A(q)
    ok, n = attempt(lambda: calc_collisions(f, q, eps))
    ok = bool(ok and float(n) == int(n))
    return {"ev": "Collide", "ok": ok, "n": int(n) if ok else 0, "f": f0, "q": q0, "eps": eps, "same": A(f) == f0 and A(q) == q0}


def pair(name, fn, p, q):
    p0, q0 = A(p), A(q)
    with np.errstate(all="ignore"):
        ok, r = attempt(lambda: float(fn(p, q)))
    return {"ev": name, "ok": bool(ok), "r": D(r) if ok else D(0), "p": p0, "q": q0, "same": A(p) == p0 and A(q) == q0}


def hist(rng, npr, n, zeros):
    """a histogram: counts or shares, some bins empty"""
    h = npr.integers(1, rng.choice([3, 50, 10 ** 6]), size=n).astype(np.float64)
    if zeros:
        h[npr.random(n) < .4] = 0
        if not h.any(): h[rng.randrange(n)] = 2
    return h / h.sum() if rng.random() < .7 else h


def compare(d1, d2, norm):
    h1, h2 = list(d1.get_histogram()), list(d2.get_histogram())
    ok, r = attempt(lambda: float(d1.compare(d2, nz.mse, norm=norm)))
    return {"ev": "Compare", "ok": bool(ok), "r": D(r) if ok else D(0), "norm": norm, "h1": [int(v) for v in h1], "h2": [int(v) for v in h2], "same": h1 == list(d1.get_histogram()) and h2 == list(d2.get_histogram())}


def normal(d):
    h = list(d.get_histogram())
    ok, v = attempt(d.normalize)
    return {"ev": "Normal", "ok": bool(ok), "h": [int(x) for x in h], "v": A(v) if ok else ERR, "same": h == list(d.get_histogram())}


def layer(ctx):
    import keras_stub as ks
    from itcl_quantizer.tensor_extractor.keras.layers import Dequantize, KerasDense, KerasInput
    from itcl_quantizer.tensor_extractor.abstract_layer import QuantizationResult
    rng, npr = ctx.rng, ctx.np
    nin, nout, rows = rng.randint(1, 4), rng.randint(1, 4), rng.choice([1, 2, 3, 5])
    x = npr.normal(size=(rows, nin)).astype(np.float32)
    if rng.random() < .5: x = np.round(x * 4) / 4
    K = npr.normal(size=(nin, nout)) * rng.choice([1, 20])
    if rng.random() < .6: K = np.round(K * 64) / 64
    K.flat[0] *= rng.choice([1, 1, 30])
    lay = ks.Dense(kernel=K, bias=npr.normal(size=nout), activation=rng.choice(["linear", "relu", "tanh", "sigmoid"]))
    eps = rng.choice([0, 2, 3])
    kw = dict(kernel_dtype=rng.choice(["int8", "int4"]), bias_add_dtype=rng.choice(["int8", "int4"]), activation_dtype=rng.choice(["int8", "int4"]))

    def go():
        ki = KerasInput(Quantization("int8"))
        with quiet():
            kd = KerasDense(lay, kernel_symmetric=rng.random() < .5, **kw)
            r = kd.quantize(ki.quantize(QuantizationResult(x, None, None, ki)))
            pol = lambda f, q: calc_collisions(f, q, eps)
            i = ki.quantize(QuantizationResult(x, None, None, ki))
            out = Dequantize()
            o = out.quantize(r)
            others = [(len(l.calc_collisions(v, pol)), int(l.sum_collisions(v, pol))) for l, v in ((ki, i), (out, o))]
            return r, kd.calc_collisions(r, pol), kd.sum_collisions(r, pol), others
    ok, v = attempt(go)
    e = {"ev": "LayerCollide", "ok": bool(ok), "eps": eps, "names": [], "tensors": [], "sum": 0, "others": []}
    if ok:
        r, c, s, others = v
        e["others"] = [list(v) for v in others]
        nodes = [r.operators[0].inputs[1], r.operators[0].outputs[0]] + ([r.operators[1].outputs[0]] if len(r.operators) > 1 else [])
        e["names"] = list(c)
        e["sum"] = int(s)
        e["tensors"] = [{"name": n.name, "rows": 0 if i == 0 else rows, "f": A(n.fp_tensor), "q": A(n.quantized), "n": int(c.get(n.name, -1))} for i, n in enumerate(nodes)]
    return e


def run(ctx):
    rec = Rec()
    rng, npr = ctx.rng, ctx.np
    inv = ["ZeroIffInjective", "NotOne", "Repeats", "Gibbs", "LogAll"]
    g = ctx.gen("QualityMC", dict(Top=3, MaxN=3, Steps={1, 2, 4}), init="QInit", next="QNext", inv=inv, post="Emit", workers=8)
    ctx.mc("QualityMC", dict(Top=5, MaxN=4 if ctx.thorough else 3, Steps={1, 2, 4}), init="QInit", next="QNext", inv=inv if ctx.thorough else inv[:3], props=["Grows"], workers=8)
    for xs in g["xs"]:
        for st in g["steps"]:
            f = np.array(xs, dtype=rng.choice([np.float32, np.float64]))
            u = 10.0 ** -rng.choice([0, 1, 3])
            rec.one(collide(f * u, (np.array(xs) // st).astype(rng.choice([np.int8, np.int32, np.int64])), rng.choice([0, 3])))
    for _ in range(3000 if ctx.thorough else 1200):
        n = rng.choice([0, 1, 2, 3, 5, 8, 13, 24] * 6 + [70, 260])
        eps = rng.choice([0, 0, 1, 2, 3, 5, 7])
        dt = np.float64 if eps > 3 else rng.choice([np.float32, np.float64])
        k = npr.integers(-(2 ** rng.choice([1, 3, 6])), 2 ** rng.choice([1, 3, 6]) + 1, size=n)
        f = (k + (npr.uniform(-.3, .3, size=n) if rng.random() < .6 else 0)) * 10.0 ** -(eps or rng.choice([0, 2, rng.uniform(0, 14)]))
        q = np.clip(np.floor_divide(k, rng.choice([1, 1, 2, 5, 16])), -128, 127) if rng.random() < .7 else npr.integers(-3, 4, size=n)
        f, q = f.astype(dt), q.astype(rng.choice([np.int8, np.int32, np.int64]))
        if n in (8, 24) and rng.random() < .6:
            f, q = f.reshape(2, -1, 2), q.reshape(2, -1, 2)
        rec.one(collide(f, q, eps))
    for _ in range(300 if ctx.thorough else 120):
        rec.one(layer(ctx))
    for _ in range(1500 if ctx.thorough else 600):
        n = rng.choice([1, 2, 3, 8, 16] * 6 + [64, 200])
        p, q = hist(rng, npr, n, rng.random() < .4), hist(rng, npr, n, rng.random() < .2)
        if rng.random() < .15: q = p.copy()
        if rng.random() < .25:                       # shares far below the stand-in for an empty bin
            q[rng.randrange(n)] = 10.0 ** -rng.uniform(10, 40)
            if rng.random() < .5: p[rng.randrange(n)] = 10.0 ** -rng.uniform(10, 40)
        if rng.random() < .05: p, q = p * 1e-12, q * 1e-12
        rec.one(pair("Kl", nz.kl_divergence, p, q))
        rec.one(pair("Mse", nz.mse, p, q))
        if (q > 0).all(): rec.one(pair("Cross", nz.cross_entropy, p, q))
    for _ in range(500 if ctx.thorough else 240):
        n, b = rng.choice([1, 5, 40]), rng.choice([1, 2, 7, 16])
        d1 = Distribution(npr.normal(size=n), b)
        d2 = Distribution(npr.normal(size=rng.choice([n, 30])), bins=d1.get_bin_edges()) if rng.random() < .5 else Distribution(npr.normal(size=rng.choice([n, 30])), b)
        rec.one(normal(d1))
        if sum(d2.get_histogram()): rec.one(compare(d1, d2, rng.random() < .6))
    ctx.validate("QualityTrace", rec.scenarios, step="YStep")
    ctx.assumptions += ["rounding to a number of decimals judged away from ties (2^-8 of a unit); empty bins stand for bins of 1e-10 as documented in the code"]
