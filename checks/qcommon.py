"""Drivers for the quantisation primitives (C01, C02, C03, C07)."""
import copy
import numpy as np
import repo, gens
from vlib import D, A, ERR, attempt, Rec

repo.use("core")
from itcl_quantization.quantization.operators import Quantization  # noqa: E402


def T(signed, bits):
    return {"signed": signed, "bits": bits}


def arr(ok, v):
    return A(v) if ok else ERR


def some(rng, x, out, k=24):
    """large arrays are judged on a selection of their elements (the ends and random ones); a wrong shape stays visible"""
    x, out = np.asarray(x), np.asarray(out)
    n = x.size
    idx = np.array(sorted({0, 1, n // 2, n - 2, n - 1} | {rng.randrange(n) for _ in range(k)}))
    pick = lambda v: np.asarray(v).reshape(-1)[idx]
    return pick, (A(pick(out)) if out.shape == x.shape else A(out.reshape(-1)[:2].reshape(1, -1)))


def big_array(rng, one, n=None):
    """many elements, in any memory order"""
    n = n or rng.choice([257, 1025, 4097, 10001, 70001])
    base = np.array([one() for _ in range(40)])
    a = base[np.array([rng.randrange(40) for _ in range(n)])]
    k = rng.random()
    return a if k < .4 else a[:n // 6 * 6].reshape(-1, 6).T if k < .6 else a[:n // 6 * 6].reshape(2, -1, 3) if k < .8 else a[::-1]


def ev_quantize(signed, bits, dtype, zp, s, data):
    before = A(data)
    ok, r = attempt(lambda: Quantization(dtype).quantize(data, zp, s))
    return {"ev": "Quantize", "t": T(signed, bits), "zp": D(int(zp)), "s": D(float(s)), "x": before, "after": A(data), "out": arr(ok, r)}


def random_quantize(ctx, rec, n, types=gens.TYPES):
    rng = ctx.rng
    for _ in range(n):
        sg, b = rng.choice(types)
        s, zp = gens.scale(rng), gens.zeropoint(rng, sg, b, wide=True)
        sh = gens.shapes(rng)
        k = int(np.prod(sh)) if sh else 1
        a = np.array(gens.reals(rng, s, zp, sg, b, k), dtype=np.float64).reshape(sh)
        if rng.random() < 0.1:
            a = np.clip(a, -3e38, 3e38).astype(np.float32)      # finite in the narrower type too
        if rng.random() < 0.08:
            a = np.round(np.clip(a, -1e6, 1e6)).astype(np.int64)
        if rng.random() < 0.12:         # narrow inputs of any kind
            dt = rng.choice([np.float16, np.int8, np.uint8, np.int16, np.uint16, np.int32, np.bool_, np.longdouble])
            a = a.astype(np.float64)
            a = np.clip(a, -6e4, 6e4).astype(dt) if dt is np.float16 else a if dt is np.longdouble else \
                (a > 0) if dt is np.bool_ else np.round(np.clip(a, np.iinfo(dt).min, np.iinfo(dt).max)).astype(dt)
        data = gens.container(rng, a) if sh else rng.choice([a, float(a), a[()]])
        if rng.random() < 0.15:
            s = np.float64(s)
        if rng.random() < 0.15:
            zp = np.int64(zp)
        rec.one(ev_quantize(sg, b, gens.tspell(rng, sg, b), zp, s, data))


def big_quantize(ctx, rec, n, types=gens.TYPES):
    rng = ctx.rng
    for _ in range(n):
        sg, b = rng.choice(types)
        s, zp = gens.scale(rng), gens.zeropoint(rng, sg, b, wide=True)
        a = big_array(rng, lambda: gens.reals(rng, s, zp, sg, b, 1)[0])
        before = a.copy()
        ok, r = attempt(lambda: Quantization(gens.tspell(rng, sg, b)).quantize(a, zp, s))
        pick, out = some(rng, before, r if ok else 0)
        rec.one({"ev": "Quantize", "t": T(sg, b), "zp": D(int(zp)), "s": D(float(s)), "x": A(pick(before)), "after": A(pick(a)), "out": out if ok else ERR})


def replay_model_grid(ctx, rec):
    """(B) every case of the exhaustive model, through the code"""
    groups = ctx.gen("QuantizerMC", dict(AMax=20, BMax=6, ZMax=3, MaxBits=3), init="MInit", next="MNext",
                     inv=["InRange", "RelationIsFunction", "PolicyRelation", "BaseExists", "RoundTrip", "HalfStep"], props=["Monotone"],
                     post="Emit", workers=4)
    for g in groups:
        yield g["signed"], g["bits"], g["b"] / 8, g["z"], np.arange(-g["amax"], g["amax"] + 1) / 8
