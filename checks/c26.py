"""C26: trimming optimisers (spec/Trim.tla, TrimMC.tla)."""
from qcommon import *
from c15 import samples
from vlib import quiet
repo.use("quantizer")
from itcl_quantizer.quantizer.distributions.distribution import Distribution  # noqa: E402
from itcl_quantizer.quantizer.metrics.noise import mse  # noqa: E402
from itcl_quantizer.optimizers import FixedPercentOptimizer, MinMaxOptimizer, ScipyOptimizer  # noqa: E402
from itcl_quantizer.optimizers.kl_div_optimizer import KLDivergenceOptimizer  # noqa: E402

Q8 = Quantization("int8")


def view(d):
    return list(d.get_histogram()), list(d.get_bin_edges()), d.get_min(), d.get_max(), d.quantize(Q8)


def noise(f, d, t):
    s, z = t.quantize()
    back = Q8.dequantize(Q8.quantize(np.sort(f), z, s), z, s)
    return float(d.compare(Distribution(back, bins=d.get_bin_edges()), mse))


def trim_event(kind, a, bins, make, p=0.0, levels=0, kbins=0):
    f = np.asarray(a).reshape(-1)
    d = Distribution(a, bins)
    before = view(d)
    with quiet():
        ok, t = attempt(lambda: make().trim(d))
    e = {"ev": "Trim", "ok": False, "kind": kind, "p": D(float(p)), "x": A(f), "f32": f.dtype == np.float32, "omin": D(before[2]), "omax": D(before[3]),
         "same": view(d) == before and bool(np.array_equal(f, np.asarray(a).reshape(-1))), "const": bool((f == f[0]).all()), "s0": D(float(before[4][0])),
         "levels": levels, "w": D((float(f.max()) - float(f.min())) / kbins if kbins else 0)}
    if not ok:
        return e

    def read():
        v = view(t)
        return {"min": D(v[2]), "max": D(v[3]), "counts": [int(c) for c in v[0]], "edges": A(v[1]), "s": D(float(v[4][0])), "z": D(v[4][1]), "ok": True}
    ok, v = attempt(read)
    if ok:
        e.update(v)
        if kind == "search":
            ok, n = attempt(lambda: (noise(f, d, d), noise(f, d, t)))
            e["noise0"], e["noise"], e["ok"] = D(n[0] if ok else 0), D(n[1] if ok else 0), bool(ok)
    return e


def reduce_event(h, B, T):
    with quiet():
        ok, r = attempt(lambda: list(KLDivergenceOptimizer(B, T).reduce([int(v) for v in h])))
    return {"ev": "Reduce", "ok": bool(ok), "h": [int(v) for v in h], "out": [D(float(v)) for v in r] if ok else [], "group": -(-B // T)}


def choice_event(f, B, T):
    with quiet():
        ok, t = attempt(lambda: KLDivergenceOptimizer(B, T).trim(Distribution(f, 7)))
    return {"ev": "Choice", "ok": bool(ok), "h": [int(c) for c in Distribution(f, B).get_histogram()], "levels": T, "group": -(-B // T), "kept": len(t) if ok else 0}


def layer_event(ctx, p):
    import keras_stub as ks
    from itcl_quantizer.tensor_extractor.keras.layers import KerasDense, KerasInput
    from itcl_quantizer.tensor_extractor.abstract_layer import QuantizationResult
    rng, npr = ctx.rng, ctx.np
    nin, nout = rng.randint(2, 6), rng.randint(2, 6)
    x = npr.normal(size=(4, nin)).astype(np.float32)
    K = npr.normal(size=(nin, nout)) * rng.choice([1, .1, 20])
    K.flat[rng.randrange(K.size)] *= rng.choice([1, 50])
    lay = ks.Dense(kernel=K, bias=npr.normal(size=nout))
    K = np.asarray(lay.get_weights()[0])
    sym = rng.random() < .5

    def go(opt):
        ki = KerasInput(Quantization("int8"))
        with quiet():
            r = KerasDense(lay, kernel_symmetric=sym, kernel_optimizer=opt).quantize(ki.quantize(QuantizationResult(x, None, None, ki)))
        return r.operators[0].inputs[1]
    ok, n = attempt(lambda: go(FixedPercentOptimizer(p)))
    ok0, n0 = attempt(lambda: go(MinMaxOptimizer()))
    e = {"ev": "TrimLayer", "ok": bool(ok and ok0), "p": D(float(p)), "x": A(np.asarray(K).T), "s": D(1), "z": D(0), "q": A([]), "s0": D(1)}
    if e["ok"]:
        e.update(s=D(float(n.scale)), z=D(n.zero_point), q=A(n.quantized), s0=D(float(n0.scale)))
    return e


def resolvable(f, bins):
    eps = float(np.finfo(f.dtype).eps) if f.dtype.kind == "f" else 1e-16
    return (float(f.max() - f.min()) or 1.0) / bins >= 64 * eps * float(np.abs(f).max())


def run(ctx):
    rec = Rec()
    rng = ctx.rng
    inv = ["TrimOk", "Inside", "NoShare"]
    g = ctx.gen("TrimMC", dict(Top=3, MaxN=4, Eighths={0, 1, 2, 3}), init="TInit", next="TNext", inv=inv, post="Emit", workers=4)
    if ctx.thorough:
        ctx.mc("TrimMC", dict(Top=4, MaxN=7, Eighths={0, 1, 2, 3}), init="TInit", next="TNext", inv=inv, workers=8)
    for xs in g["xs"]:
        f = np.array(xs, dtype=np.float64) - rng.choice([0, 0, 2, 5])
        for k in g["ps"]:
            for bins in ((1, 3, 5) if ctx.thorough else (rng.choice([1, 3, 5]),)):
                rec.one(trim_event("share", f, bins, lambda: FixedPercentOptimizer(k / 8), k / 8))
        B, T = rng.choice([(8, 2), (8, 4), (12, 5)])
        rec.one(trim_event("entropy", f, rng.choice([4, 16]), lambda: KLDivergenceOptimizer(B, T), levels=T, kbins=B) if f.min() < f.max() else
                trim_event("minmax", f, 4, MinMaxOptimizer))
    for _ in range(2500 if ctx.thorough else 960):
        a = samples(rng, ctx.np)
        if a.size > 120: a = a.reshape(-1)[:60]
        f = np.asarray(a).reshape(-1)
        bins = rng.choice([1, 2, 3, 7, 16, 512])
        if not resolvable(f, max(bins, 512)): continue
        kind = rng.choice(["share"] * 5 + ["minmax", "entropy", "entropy"])
        if kind == "entropy" and f.min() == f.max(): kind = "share"
        if kind == "share":
            p = rng.choice([0, .01, .05, .1, .25, .4, rng.random() * .49])
            rec.one(trim_event(kind, a, bins, lambda: FixedPercentOptimizer(p), p))
        elif kind == "minmax":
            rec.one(trim_event(kind, a, bins, MinMaxOptimizer))
        else:
            B, T = rng.choice([(8, 2), (64, 16), (16, 4), (40, 16), (256, 128)])
            rec.one(trim_event(kind, a, bins, lambda: KLDivergenceOptimizer(B, T), levels=T, kbins=B))
    for _ in range(400 if ctx.thorough else 180):
        B, T = rng.choice([(8, 2), (8, 4), (12, 4), (16, 4), (16, 8), (15, 4), (24, 8)])
        n = rng.choice([3, 10, 40, 90])
        f = rng.choice([ctx.np.normal, ctx.np.laplace, ctx.np.standard_cauchy, ctx.np.random])(size=n)
        if rng.random() < .5: f = np.concatenate([f, [f.max() + (f.max() - f.min()) * rng.choice([.2, 1, 3])]])
        rec.one(choice_event(f, B, T))
    # heavy tails: the case trimming is for
    for _ in range(300 if ctx.thorough else 180):
        n = rng.choice([20, 60, 100])
        f = ctx.np.standard_cauchy(size=n) * 10.0 ** rng.uniform(-2, 2)
        if not resolvable(f, 512): continue
        p = rng.choice([.01, .05, .1, .2])
        rec.one(trim_event("share", f, rng.choice([16, 512]), lambda: FixedPercentOptimizer(p), p))
        rec.one(trim_event("entropy", f, 512, lambda: KLDivergenceOptimizer(128, 32), levels=32, kbins=128))
    for _ in range(60 if ctx.thorough else 30):
        f = ctx.np.normal(size=40) * rng.choice([3, 40]) + rng.choice([0, 0, 20])
        f[0] *= rng.choice([1, 4])
        rec.one(trim_event("search", f, rng.choice([16, 64]), lambda: ScipyOptimizer(Quantization("int8"), mse, "Nelder-Mead")))
    for _ in range(600 if ctx.thorough else 450):
        B, T = rng.choice([(8, 2), (8, 4), (12, 3), (12, 5), (16, 16), (30, 7)])
        rec.one(reduce_event([rng.choice([0, 0, 1, 2, 5, 1000]) for _ in range(B)], B, T))
    for _ in range(200 if ctx.thorough else 90):
        rec.one(layer_event(ctx, rng.choice([.02, .05, .1, .2])))
    ctx.validate("TrimTrace", rec.scenarios, step="TStep")
    ctx.assumptions += ["sample magnitudes from 1e-9 to 1e9; shares below one half; search-based trimming by Nelder-Mead with the mean square noise; the candidate entropy trimming chooses is judged for up to 24 bins"]
