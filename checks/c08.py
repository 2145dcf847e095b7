"""C08: fully connected layers (spec/Engine.tla FCRel, FCMC.tla)."""
from ecommon import *


def run(ctx):
    rec = Rec()
    rng = ctx.rng
    # (A)+(B) every small layer of the model
    cases = ctx.gen("FCMC", dict(Wide=ctx.thorough), spec_name="Spec", init=None, inv=["FitsRelation", "Unique"], post="Emit", workers=4)
    for c in cases:
        o = op("FULLY_CONNECTED", [node(2.0 ** -4, c["iz"], "int8"), node(2.0 ** -3, 0, "int8", [c["w"]]), node(2.0 ** -7, 0, "int32", [c["b"]])], [node(2.0 ** (-7 + c["sh"]), c["oz"], "int8")])
        rec.one(layer_event("TFLITE", o, np.array(c["x"], dtype=rng.choice([np.int8, np.int64]))))
    # deep accumulators (2^24 .. 2^31) whose low bits reach a 16- or 32-bit output
    for _ in range(600 if ctx.thorough else 336):
        d, u = rng.choice([(1, 1), (2, 1), (1, 3), (3, 2), (8, 2)])
        in_t, w_t = rng.choice([((True, 16), (True, 16)), ((True, 16), (True, 8)), ((True, 8), (True, 8))])
        o = fc(rng, d, u, exact=True, in_t=in_t, w_t=w_t, out_t=rng.choice([(True, 16), (True, 32), (True, 32)]), wzp=0)
        i, w, b = o["inputs"]
        lim = max(1, 2 ** 30 // (2 ** in_t[1] * d))      # |sum of products| < 2^30
        w["tensor"]["tensor"] = np.clip(np.array(w["tensor"]["tensor"]), -lim, lim).tolist()
        b["tensor"]["tensor"] = [rng.randint(-2 ** 30, 2 ** 30) for _ in range(u)]
        o["outputs"][0]["scale"] = i["scale"] * w["scale"] * 2.0 ** (rng.choice([0, 0, 1, 3, 7]) if o["outputs"][0]["tensor"]["dtype"] == "int32" else rng.choice([13, 15, 16]))
        layer = build_layer(load(o))
        for sh in ((d,), (rng.choice([1, 2, 3]), d)):
            rec.one(layer_event("TFLITE", o, cast(rng, ints(rng, *in_t, sh), *in_t), layer))
    # the largest sums the declared types allow: beyond 2^32, with multipliers of any mantissa
    for _ in range(200 if ctx.thorough else 125):
        d, u = rng.choice([(8, 1), (16, 2), (40, 1), (5, 3)])
        in_t, w_t = rng.choice([((True, 16), (True, 16)), ((False, 16), (True, 16))])
        o = fc(rng, d, u, exact=rng.random() < .3, in_t=in_t, w_t=w_t, out_t=rng.choice([(True, 16), (True, 32)]), wzp=0)
        i, w, b = o["inputs"]
        w["tensor"]["tensor"] = [[rng.choice([32767, -32767, -32768, rng.randint(-32768, 32767)]) if rng.random() < .3 else rng.choice([32767, 32766, 30000]) for _ in range(d)] for _ in range(u)]
        o["outputs"][0]["scale"] = i["scale"] * w["scale"] * 2.0 ** rng.randint(1, 19) * rng.choice([1, 1.37, 1.9])
        layer = build_layer(load(o))
        lo, hi = gens.bounds(*in_t)
        for sh in ((d,), (2, d)):
            x = np.full(sh, rng.choice([lo, hi])) if rng.random() < .6 else ints(rng, *in_t, sh)
            rec.one(layer_event("TFLITE", o, cast(rng, x, *in_t), layer))
    # small multipliers: the accumulator exactly on a tie, one below and one above
    for _ in range(300 if ctx.thorough else 251):
        d = rng.choice([1, 2, 4])
        out_t = rng.choice([(True, 8), (True, 16), (False, 8), (True, 4)])
        o = fc(rng, d, 6, exact=True, out_t=out_t, wzp=0)
        i, w, b = o["inputs"]
        x = ints(rng, True, 8, (d,))
        k = rng.randint(1, 19)
        out = o["outputs"][0]
        out["scale"] = i["scale"] * w["scale"] * 2.0 ** k
        lo, hi = gens.bounds(*out_t)
        acc = np.array(w["tensor"]["tensor"]) @ (x - i["zero_point"])
        bias = []
        for j, dlt in enumerate((0, 0, 0, -1, 1, rng.choice([-1, 1]))):
            r = rng.randint(lo, hi) - out["zero_point"]
            bias.append(max(-2 ** 31, min(2 ** 31 - 1, int((2 * r + 1) * 2 ** (k - 1) + dlt - acc[j]))))
        b["tensor"]["tensor"] = bias
        layer = build_layer(load(o))
        rec.one(layer_event("TFLITE", o, cast(rng, x, True, 8), layer))
        rec.one(layer_event("TFLITE", o, cast(rng, np.stack([x, x]), True, 8), layer))
    # multipliers next to a power of two: the mantissa may round up to the next one
    for _ in range(200 if ctx.thorough else 168):
        d, u = rng.choice([(1, 2), (4, 3)])
        o = fc(rng, d, u, exact=True, wzp=0)
        i, w, b = o["inputs"]
        out = o["outputs"][0]
        f = rng.choice([1 - 2.0 ** -33, 1 - 2.0 ** -40, 1 - 2.0 ** -32, 1 - 2.0 ** -31, 1 + 2.0 ** -33, 1 - 2.0 ** -53])
        rng.choice([i, w])["scale"] *= f
        if rng.random() < .3:
            out["scale"] = i["scale"] * w["scale"] * 2.0 ** rng.choice([0, 1, -1, 3])
            out["scale"] /= f
        layer = build_layer(load(o))
        rec.one(layer_event("TFLITE", o, cast(rng, ints(rng, True, 8, (3, d)), True, 8), layer))
    for _ in range(4000 if ctx.thorough else 2100):
        d, u = rng.choice([(1, 1), (2, 3), (4, 4), (8, 5), (3, 1), (1, 7), (16, 8), (40, 3), (64, 2)] + ([(200, 2), (784, 1)] if rng.random() < 0.05 else []))
        in_t = rng.choice([(True, 8)] * 4 + [(False, 8), (True, 16), (True, 4)])
        w_t = rng.choice([(True, 8)] * 4 + [(True, 16), (True, 4), (True, 7)])
        o = fc(rng, d, u, in_t=in_t, w_t=w_t)

        def f(emit):
            layer = build_layer(load(o))
            for _ in range(2):
                sh = rng.choice([(d,), (d,), (1, d), (2, d), (4, d)])
                x = cast(rng, ints(rng, *in_t, sh), *in_t)
                if rng.random() < 0.2:
                    x = np.asfortranarray(x)
                emit(layer_event("TFLITE", o, x, layer))
        rec.scenario(f)
    for _ in range(120 if ctx.thorough else 62):        # long batches
        d, u = rng.choice([(1, 1), (2, 3), (8, 5), (16, 2)])
        o = fc(rng, d, u)
        rec.one(rows_event(rng, "TFLITE", o, many(rng, cast(rng, ints(rng, True, 8, (12, d)), True, 8))))
    for _ in range(30 if ctx.thorough else 16):         # wide layers
        d, u = rng.choice([(130, 2), (300, 1), (2, 129), (1, 300), (520, 1), (33, 33)])
        o = fc(rng, d, u)
        rec.one(layer_event("TFLITE", o, cast(rng, ints(rng, True, 8, (2, d)), True, 8)))
    ctx.validate("EngineTrace", rec.scenarios, step="EStep", start="NoNet")
    ctx.assumptions += ["multipliers from 1e-6 up to 2^29 (smaller ones are flushed to zero by design)", "the multiplier is represented with relative error 2^-31 (slack 2^-30); exact when all scales are powers of two"]
