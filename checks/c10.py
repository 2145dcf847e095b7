"""C10: quantised matrix product and addition of the second engine (spec/Engine.tla QMMRel, QAddRel)."""
from ecommon import *


def run(ctx):
    rec = Rec()
    rng = ctx.rng
    for c in ctx.gen("QLinMC", dict(Wide=ctx.thorough), spec_name="Spec", inv=["AddFits", "AddUnique", "MulFits"], post="Emit", workers=4):
        o = op("QLinearAdd", [node(2.0 ** -c["ka"], c["iz"], "uint8"), node(2.0 ** -c["kb"], c["bz"], "uint8", [c["b"]]), node(2.0 ** -c["ko"], c["oz"], "uint8")], [])
        rec.one(layer_event("ONNX", o, np.array([c["a"]], dtype=rng.choice([np.uint8, np.int64]))))
        o = op("QLinearMatMul", [node(2.0 ** -c["ka"], c["iz"], "uint8"), node(2.0 ** -c["kb"], c["bz"], "uint8", [[c["b"], c["a"]]]), node(2.0 ** -c["ko"] * 2, c["oz"], "uint8")], [])
        rec.one(layer_event("ONNX", o, np.array([c["a"], c["b"]], dtype=rng.choice([np.uint8, np.int64]))))
    for _ in range(4000 if ctx.thorough else 900):
        if rng.random() < 0.5:
            sh, bsh = rng.choice([((4,), (4,)), ((3, 4), (4,)), ((3, 4), (1,)), ((2, 2, 3), (3,)), ((2, 2, 3), (2, 3)), ((1, 5), (5,)), ((5,), (2, 5)), ((2, 3), (2, 3)), ((1,), (6,))])
            o = qadd(rng, bsh)
        else:
            d, u = rng.choice([(1, 1), (2, 3), (4, 4), (8, 5), (16, 3), (32, 2)])
            sh = rng.choice([(d,), (1, d), (3, d), (2, 2, d)])
            o = qmm(rng, d, u)

        def f(emit):
            layer = build_operator(load(o))
            for _ in range(2):
                emit(layer_event("ONNX", o, cast(rng, ints(rng, False, 8, sh), False, 8), layer))
        rec.scenario(f)
    for _ in range(120 if ctx.thorough else 45):        # long batches, wide operands
        d, u = rng.choice([(1, 1), (4, 3), (8, 2), (70, 1), (1, 70), (2, 129)])
        if rng.random() < .5:
            rec.one(rows_event(rng, "ONNX", qmm(rng, d, u), many(rng, cast(rng, ints(rng, False, 8, (9, d)), False, 8))))
        else:
            d = max(d, u)
            rec.one(rows_event(rng, "ONNX", qadd(rng, (d,)), many(rng, cast(rng, ints(rng, False, 8, (9, d)), False, 8))))
    # deep products: the integer sums pass 2^24 and the output still shows their low bits
    for k in range(60 if ctx.thorough else 28):
        d, u = rng.choice([(300, 2), (600, 1), (1000, 1), (1500, 1)])
        o = qmm(rng, d, u, exact=True)
        i, w, out = o["inputs"]
        t = enc_t(w["tensor"]["dtype"])
        i["zero_point"] = rng.choice([0, 0, 255])
        w["zero_point"], hi = rng.choice([(0, 255), (128, 255), (255, 0)]) if not t["signed"] else rng.choice([(0, 127), (0, -128), (-128, 127)])
        w["tensor"]["tensor"] = [[hi if rng.random() < .9 else rng.choice([hi // 2, hi]) for _ in range(d)] for _ in range(u)]
        x = np.array([(255 - i["zero_point"]) if rng.random() < .95 else rng.randint(0, 255) for _ in range(d)])
        acc = int(((np.array(w["tensor"]["tensor"][0]) - w["zero_point"]) * (x - i["zero_point"])).sum())
        # one output step is 2^e products, so that the rounding depends on the sum's last bits
        e = max(1, abs(acc).bit_length() - 7)
        out["scale"] = i["scale"] * w["scale"] * 2.0 ** e
        out["zero_point"] = 0 if acc >= 0 else 255
        layer = build_operator(load(o))
        # steer the sum onto a half step and next to it by changing the first entries
        half = 1 << (e - 1)
        for target in (half, half - 1, half + 1):
            y = x.copy()
            a, j = acc, 0
            ws = np.array(w["tensor"]["tensor"][0]) - w["zero_point"]
            while j < d and ((a - target) % (1 << e)):
                miss = (target - a) % (1 << e)
                step = int(ws[j])
                best = min(range(256), key=lambda v: ((target - (a + step * (v - int(y[j])))) % (1 << e)))
                a += step * (best - int(y[j]))
                y[j] = best
                j += 1
            rec.one(layer_event("ONNX", o, cast(rng, y, False, 8), layer))
    ctx.validate("EngineTrace", rec.scenarios, step="EStep", start="NoNet")
    ctx.assumptions += ["binary64 evaluation of the rescaling: relative slack 2^-46, none with power-of-two scales"]
