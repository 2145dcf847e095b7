"""C05: reduced lookup tables are lossless (spec/Lut.tla, LutMC.tla)."""
import json
import numpy as np
import repo
from vlib import attempt, Rec

repo.use("core")
from itcl_quantization.quantization.lut import ReducedLUT  # noqa: E402
from itcl_quantization.quantization.operators import Quantization  # noqa: E402

BAD = [2_000_000_000]


def seq(fn):
    ok, r = attempt(lambda: [int(x) for x in fn()], timeout=20)
    return r if ok else BAD


def reduce_event(tab, depth, asym, minr=0):
    given = list(tab)
    ok, r = attempt(ReducedLUT, given, depth, minr, asym)
    e = dict(ev="Reduce", tab=list(tab), depth=depth, asym=asym, built=ok)
    if not ok:
        return e
    n = len(tab)
    e["reads"] = seq(lambda: [r[i] for i in range(n)])
    e["iter"] = seq(lambda: list(r))
    e["after"] = seq(lambda: given)
    doc = None
    ok, doc = attempt(r.serialize)
    load = lambda d: ReducedLUT.deserialize(d)  # noqa: E731
    for name, f in (("l", lambda: load(doc)), ("j", lambda: load(json.loads(json.dumps(doc))))):
        ok2, o = attempt(f)
        ok2 = ok and ok2
        if ok2 and name == "j":     # a second generation
            ok2, o = attempt(lambda: load(json.loads(json.dumps(o.serialize()))))
        e["r" + name] = seq(lambda: [o[i] for i in range(n)]) if ok2 else BAD
        e["it" + name] = seq(lambda: list(o)) if ok2 else BAD
    e["reads2"] = seq(lambda: [r[i] for i in reversed(range(n))][::-1])
    return e


def run(ctx):
    rec = Rec()
    rng = ctx.rng
    cases = ctx.gen("LutMC", dict(N=6 if ctx.thorough else 5, K=2, DepMax=3), spec_name="Spec", inv=["Lossless", "DepthBound", "NoGrowth"], post="Emit", workers=4)
    for c in cases:
        rec.one(reduce_event(c["tab"], c["depth"], c["asym"]))
    import math
    fns = [math.tanh, lambda x: 1 / (1 + math.exp(-max(-700, min(700, x)))), lambda x: max(0, x), lambda x: 0.0, lambda x: x, lambda x: abs(x), lambda x: 1.0 if x > 0 else -1.0]
    for _ in range(1500 if ctx.thorough else 1050):
        if rng.random() < 0.5:
            q = Quantization(rng.choice(["int8", "uint8", "int4", "uint6"]))
            ok, tab = attempt(q.create_LUT, rng.choice(fns), rng.choice([0.05, 0.1, 1.0, 0.01, 3.0]), rng.randrange(-128, 256), rng.choice([1 / 128, 1 / 255, 0.1]), rng.randrange(-128, 128))
            if not ok:
                tab = [0]
        else:
            tab = []
            for _ in range(rng.randrange(1, 12)):
                tab += [rng.randrange(-128, 128)] * rng.choice([1, 1, 2, 3, 8, 30] + [300] * (rng.random() < 0.2))
            if rng.random() < 0.3:
                tab = tab + tab[::-1]
        rec.one(reduce_event([int(v) for v in tab], rng.choice([0, 1, 2, 3, 5, 8, 20, 300]), rng.random() < 0.5, rng.choice([0, 1, 5])))
    # long tables: runs of thousands of equal entries at the ends (saturated 16-bit activations)
    for _ in range(12 if ctx.thorough else 9):
        q = Quantization(rng.choice(["int16", "uint16"]))
        ok, tab = attempt(q.create_LUT, rng.choice(fns), rng.choice([0.0005, 0.01, 1.0]), rng.randrange(-3000, 3000), rng.choice([1 / 128, 1 / 32768, 0.1]), rng.randrange(-128, 128))
        if ok:
            rec.one(reduce_event([int(v) for v in tab], rng.choice([1, 2, 5]), rng.random() < 0.5))
    ctx.validate("LutTrace", rec.scenarios, step="LStep")
