from qcommon import *


def run(ctx):
    rec = Rec()
    rng = ctx.rng
    for sg, b, s, z, xs in replay_model_grid(ctx, rec):
        def f(emit):
            q = Quantization(gens.tname(sg, b))
            lo, hi = gens.bounds(sg, b)
            ints = np.arange(lo, hi + 1)
            d = q.dequantize(ints, z, s)
            emit({"ev": "Dequantize", "t": T(sg, b), "zp": D(z), "s": D(s), "q": A(ints), "after": A(ints), "out": A(d)})
            emit({"ev": "RoundTrip", "t": T(sg, b), "zp": D(z), "s": D(s), "q": A(ints), "back": A(q.quantize(d, z, s))})
            o = q.quantize(xs, z, s)
            emit({"ev": "Reconstruct", "t": T(sg, b), "zp": D(z), "s": D(s), "x": A(xs), "out": A(o), "back": A(q.dequantize(o, z, s))})
        rec.scenario(f)
    for _ in range(4000 if ctx.thorough else 3780):
        sg, b = rng.choice(gens.TYPES)
        s, zp = gens.scale(rng), gens.zeropoint(rng, sg, b, wide=True)
        lo, hi = gens.bounds(sg, b)

        def f(emit):
            q = Quantization(gens.tspell(rng, sg, b))
            sh = gens.shapes(rng)
            k = int(np.prod(sh)) if sh else 1
            ints = np.array([rng.choice([lo, hi, lo + 1, hi - 1, rng.randint(lo, hi), rng.randint(lo, hi)]) for _ in range(k)], dtype=np.int64).reshape(sh)
            data = gens.container(rng, ints)
            if hasattr(data, "dtype"):
                data = data.astype(rng.choice([np.int64, gens.NP.get((sg, b), np.int64), np.int32 if hi < 2 ** 31 else np.int64]))
            before = A(data)
            ok, d = attempt(q.dequantize, data, zp, s)
            emit({"ev": "Dequantize", "t": T(sg, b), "zp": D(zp), "s": D(s), "q": before, "after": A(data), "out": arr(ok, d)})
            ok, back = attempt(lambda: q.quantize(d, zp, s))
            emit({"ev": "RoundTrip", "t": T(sg, b), "zp": D(zp), "s": D(s), "q": before, "back": arr(ok, back)})
            xs = np.array(sorted(gens.reals(rng, s, zp, sg, b, 10)))
            ok1, o = attempt(q.quantize, xs, zp, s)
            ok2, bk = attempt(lambda: q.dequantize(o, zp, s))
            emit({"ev": "Reconstruct", "t": T(sg, b), "zp": D(zp), "s": D(s), "x": A(xs), "out": arr(ok1, o), "back": arr(ok2, bk)})
        rec.scenario(f)
    for _ in range(200 if ctx.thorough else 108):
        def f(emit):
            sg, b = rng.choice(gens.TYPES)
            s, zp = gens.scale(rng), gens.zeropoint(rng, sg, b)
            lo, hi = gens.bounds(sg, b)
            q = Quantization(gens.tspell(rng, sg, b))
            a = big_array(rng, lambda: rng.choice([lo, hi, lo + 1, hi - 1, rng.randint(lo, hi)])).astype(np.int64)
            before = a.copy()
            ok, d = attempt(q.dequantize, a, zp, s)
            pick, out = some(rng, before, d if ok else 0)
            emit({"ev": "Dequantize", "t": T(sg, b), "zp": D(zp), "s": D(s), "q": A(pick(before)), "after": A(pick(a)), "out": out if ok else ERR})
            ok, back = attempt(lambda: q.quantize(d, zp, s))
            pick, out = some(rng, before, back if ok else 0)
            emit({"ev": "RoundTrip", "t": T(sg, b), "zp": D(zp), "s": D(s), "q": A(pick(before)), "back": out if ok else ERR})
        rec.scenario(f)
    ctx.validate("QuantizerTrace", rec.scenarios, step="QStep")
    ctx.assumptions += ["binary64 rounding: relative slack 2^-50 in reconstruction, 2^-44 in the half-step bound"]
