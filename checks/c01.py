from qcommon import *


def run(ctx):
    rec = Rec()
    for sg, b, s, z, xs in replay_model_grid(ctx, rec):
        rec.one(ev_quantize(sg, b, gens.tname(sg, b), z, s, xs))
    random_quantize(ctx, rec, 8000 if ctx.thorough else 6480)
    big_quantize(ctx, rec, 200 if ctx.thorough else 108)
    # the same quantiser object used repeatedly gives the same answers (no hidden state)
    rng = ctx.rng
    for _ in range(20):
        sg, b = rng.choice(gens.TYPES[:6])
        q = Quantization(gens.tname(sg, b))

        def use(emit):
            for _ in range(8):
                s, zp = gens.scale(rng), gens.zeropoint(rng, sg, b)
                a = np.array(gens.reals(rng, s, zp, sg, b, 5))
                before = A(a)
                ok, r = attempt(q.quantize, a, zp, s)
                emit({"ev": "Quantize", "t": T(sg, b), "zp": D(zp), "s": D(s), "x": before, "after": A(a), "out": arr(ok, r)})
        rec.scenario(use)
    ctx.validate("QuantizerTrace", rec.scenarios, step="QStep")
    ctx.assumptions += ["binary64 rounding: relative slack 2^-46 unless the scale is a power of two and operands are short (then exact)",
                        "types of up to 32 bits"]
