"""C09: integer-only multiplier (spec/Engine.tla JScale, ScaleMC.tla)."""
from ecommon import *
from itcl_inference_engine.util.floating import FloatingIntegerApprox  # noqa: E402


def event(m, xs, intonly, dtype=np.int64):
    xs = sorted(xs)
    arr = np.array(xs, dtype=dtype)

    def go():
        f = FloatingIntegerApprox(m, integer_only=intonly)
        one = [f * int(v) for v in xs]
        return one, f * arr
    ok, r = attempt(go)
    return {"ev": "Scale", "m": D(float(m)), "x": [D(v) for v in xs], "intonly": intonly, "ok": ok, "one": [D(v) for v in r[0]] if ok else [],
            "arr": A(r[1])["v"] if ok else [], "dt": np.dtype(dtype).name}


def run(ctx):
    rec = Rec()
    rng = ctx.rng
    for c in ctx.gen("ScaleMC", dict(QBits=4, XMax=40, EMax=6), spec_name="Spec", inv=["Nearest", "Zero"], props=["Monotone"], post="Emit", workers=4):
        m = c["q"] * 2.0 ** -c["e"] * c["sg"]
        rec.one(event(m, range(-c["xmax"], c["xmax"] + 1, 3), True))
    for _ in range(4000 if ctx.thorough else 3780):
        k = rng.random()
        if k < 0.2:
            m = rng.choice([1, 3, 5, 7, 1.5, 0.75, 0.999755859375, 255, 0.501953125]) * 2.0 ** -rng.randrange(0, 24)
        elif k < 0.3:
            m = 2.0 ** rng.randrange(-31, 16)
        elif k < 0.4:
            m = (1 - 2.0 ** -rng.choice([20, 30, 31, 32, 33, 40, 52])) * 2.0 ** rng.randrange(-10, 5)
        elif k < 0.5:
            m = rng.choice([0.0, 2.0 ** -33, 2.0 ** -40, 1e-12, 2.0 ** -32 * 0.9, 1e-9, 3e-10])
        else:
            m = rng.uniform(0.5, 1) * 2.0 ** rng.randrange(-25, 12)
        if rng.random() < 0.2:
            m = -m
        dt = rng.choice([np.int64] * 3 + [np.int32, np.int32, np.int8, np.int16, np.uint8])
        lo, hi = np.iinfo(dt).min, np.iinfo(dt).max
        lo, hi = max(lo, -2 ** 31), min(hi, 2 ** 31 - 1)
        xs = {0, lo, hi} | {rng.randint(lo, hi) for _ in range(4)} | {max(lo, min(hi, rng.randint(-200, 200))) for _ in range(4)}
        if k < 0.3 and m:       # exact halves
            xs |= {max(lo, min(hi, int(j / abs(m)))) for j in (0.5, 1.5, 2.5, -0.5, -1.5, -2.5, 7.5) if abs(j / m) < 2 ** 31}
        if abs(m) < 2.0 ** -32:
            xs = {x for x in xs if abs(x) < 2 ** 31 - 1}
        rec.one(event(m, xs, rng.random() < 0.85, dt))
    ctx.validate("EngineTrace", rec.scenarios, step="EStep", start="NoNet")
    ctx.assumptions += ["integers of up to 32 bits, multipliers below 2^16 in magnitude"]
