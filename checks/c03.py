from qcommon import *
repo.use("quantizer")
from itcl_quantizer.equalizers.adaround.irounding_policy import get_base_rounding  # noqa: E402


def policy_event(sg, b, dtype, zp, s, a, pol):
    x, p = A(a), A(pol)
    ok, r = attempt(lambda: Quantization(dtype).quantize(a, zp, s, rounding_policy=pol))
    return {"ev": "Policy", "t": T(sg, b), "zp": D(int(zp)), "s": D(float(s)), "x": x, "after": A(a), "pol": p, "polafter": A(pol), "out": arr(ok, r)}


def run(ctx):
    rec = Rec()
    rng = ctx.rng
    for sg, b, s, z, xs in replay_model_grid(ctx, rec):
        for pol in (np.zeros(len(xs), dtype=int), np.ones(len(xs), dtype=int), np.array([rng.randint(0, 1) for _ in xs])):
            rec.one(policy_event(sg, b, gens.tname(sg, b), z, s, xs, pol))
    for _ in range(5000 if ctx.thorough else 2400):
        sg, b = rng.choice(gens.TYPES)
        s, zp = gens.scale(rng), gens.zeropoint(rng, sg, b, wide=True)
        sh = rng.choice([(1,), (4,), (7,), (2, 3), (3, 2), (2, 2, 2), (1, 5), (6, 1)])
        k = int(np.prod(sh))
        a = np.array(gens.reals(rng, s, zp, sg, b, k)).reshape(sh)
        a = np.clip(a, -1e9, 1e9)
        dt = rng.choice([np.int64, np.float64, np.int8, np.int32, bool]) if rng.random() < 0.5 else np.int64
        m = rng.random() if sh != (1,) else 0
        if m < 0.6:
            pol = np.array([rng.randint(0, 1) for _ in range(k)]).astype(dt if dt is not bool else np.int64).reshape(sh)
        else:
            while True:
                bad = rng.choice([(2,), (3,), (5,), (9,), (3, 2), (2, 3), (4, 4), (2, 2, 3), (0,), sh + (3,), (k + 1,)])
                try:
                    np.broadcast_shapes(sh, bad)
                except ValueError:
                    break
            pol = np.array([rng.randint(0, 1) for _ in range(int(np.prod(bad)))]).reshape(bad)
        rec.one(policy_event(sg, b, gens.tspell(rng, sg, b), zp, s, a, pol))
        if m < 0.6:
            def f(emit):
                if rng.random() < .3:
                    x = a.astype(np.float32)
                elif rng.random() < .15:
                    x = np.round(a).astype(np.int64)
                else:
                    x = a
                base = get_base_rounding(x, s)
                ok, r = attempt(lambda: Quantization(gens.tname(sg, b)).quantize(x, zp, s, rounding_policy=base))
                emit({"ev": "Base", "t": T(sg, b), "zp": D(zp), "s": D(s), "x": A(x), "pol": A(base), "out": arr(ok, r)})
            rec.scenario(f)
    for _ in range(160 if ctx.thorough else 50):        # many elements; both arrays in any memory order
        sg, b = rng.choice(gens.TYPES)
        s, zp = gens.scale(rng), gens.zeropoint(rng, sg, b)
        a = np.clip(big_array(rng, lambda: gens.reals(rng, s, zp, sg, b, 1)[0]), -1e9, 1e9)
        pol = np.array([rng.randint(0, 1) for _ in range(a.size)]).reshape(a.shape[::-1]).T if rng.random() < .5 else np.array([rng.randint(0, 1) for _ in range(a.size)]).reshape(a.shape)
        x0, p0 = a.copy(), pol.copy()
        ok, r = attempt(lambda: Quantization(gens.tspell(rng, sg, b)).quantize(a, zp, s, rounding_policy=pol))
        pick, out = some(rng, x0, r if ok else 0)
        rec.one({"ev": "Policy", "t": T(sg, b), "zp": D(int(zp)), "s": D(float(s)), "x": A(pick(x0)), "after": A(pick(a)), "pol": A(pick(p0)), "polafter": A(pick(pol)), "out": out if ok else ERR})
    ctx.validate("QuantizerTrace", rec.scenarios, step="QStep")
    ctx.assumptions += ["a policy is 'of the data's shape' when shapes are equal and 'does not fit' when they cannot be broadcast together"]
