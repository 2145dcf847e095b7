"""C06: typed integer arithmetic (spec/Typed.tla, TypedMC.tla)."""
import re
from qcommon import *
from itcl_quantization.quantization.operators import Dtype  # noqa: E402

ZERO = {"signed": True, "bits": 1}


def rtype(d):
    m = re.fullmatch(r"(u?)int(\d+)", str(d))
    return T(m.group(1) == "", int(m.group(2))) if m else ZERO


def undo(d):
    s, limbs, e = d
    v = sum(l << (12 * i) for i, l in enumerate(limbs))
    return s * v << e if e > 0 else s * v


def event(op, x, xt, y, yt):
    """x, y typed integers; returns the event and the result"""
    a, b = A(x.value), A(y.value if isinstance(y, Dtype) else y)
    ok, r = attempt(lambda: x + y if op == "add" else x - y if op == "sub" else x * y)
    e = {"ev": "Typed", "op": op, "a": a, "at": xt, "b": b, "bt": yt, "ok": ok, "aafter": A(x.value), "bafter": A(y.value if isinstance(y, Dtype) else y),
         "out": arr(ok, r.value if ok else None), "rt": ZERO, "rlo": D(0), "rhi": D(0)}
    if ok:
        ok2, z = attempt(lambda: (rtype(r), D(int(r.min())), D(int(r.max()))))
        if ok2:
            e["rt"], e["rlo"], e["rhi"] = z
    return e, (r if ok else None)


def make(rng, vals, t, scalar):
    n = gens.tname(t["signed"], t["bits"])
    v = vals[0] if scalar else np.array(vals, dtype=n)
    k = rng.random()
    if not scalar and k < 0.3:
        return Dtype(v)
    if not scalar and k < 0.4:
        return Dtype(v.astype(np.int64), n)
    if scalar and k < 0.2:
        return Dtype(np.dtype(n).type(v))
    return Dtype(v, n.upper() if k < 0.7 else n if k < 0.9 else np.dtype(n))


def run(ctx):
    rec = Rec()
    rng = ctx.rng
    cases = ctx.gen("TypedMC", dict(Widths={8, 16, 32}, Steps=2), spec_name="Spec", inv=["Exact", "Representable"], post="Emit", workers=4)
    for c in cases:
        def f(emit, c=c):
            e, _ = event(c["op"], make(rng, [undo(c["a"])], c["at"], True), c["at"], make(rng, [undo(c["b"])], c["bt"], True), c["bt"])
            emit(e)
        rec.scenario(f)
    # the same boundary pairs grouped into vectors
    groups = {}
    for c in cases:
        k = (c["op"], c["at"]["signed"], c["at"]["bits"], c["bt"]["bits"])
        groups.setdefault(k, []).append((undo(c["a"]), undo(c["b"])))
    for (op, sg, ab, bb), prs in groups.items():
        for _ in range(20 if ctx.thorough else 9):
            sel = [rng.choice(prs) for _ in range(rng.randrange(1, 6))]
            if op == "sub" and not sg:
                sel = [(max(a, b), min(a, b)) if max(a, b) < (1 << ab) and min(a, b) < (1 << bb) else (b, b) if b < (1 << ab) else (a, a) for a, b in sel]

            def f(emit):
                e, _ = event(op, make(rng, [a for a, _ in sel], T(sg, ab), False), T(sg, ab), make(rng, [b for _, b in sel], T(sg, bb), False), T(sg, bb))
                emit(e)
            rec.scenario(f)
    # chains of operations on random values
    for _ in range(3000 if ctx.thorough else 2700):
        sg = rng.random() < 0.7

        def f(emit):
            w = rng.choice([8, 16, 32])
            n = rng.choice([0, 0, 1, 3, 5, 0, 1, 3, 5, 80, 300])
            quiet_ = n > 5 and rng.random() < .7      # long vectors in which few elements are large

            def val(w):
                lo, hi = gens.bounds(sg, w)
                if quiet_ and rng.random() < .97: return rng.choice([0, 1, 2])
                return rng.choice([lo, hi, 0, 1, rng.randint(lo, hi), rng.randint(max(lo, -100), 100), rng.randint(lo, hi) // 2])
            xt = T(sg, w)
            x = make(rng, [val(w) for _ in range(n or 1)], xt, n == 0)
            for _ in range(rng.randrange(1, 5)):
                u = rng.choice([8, 16, 32])
                m = rng.choice([0, n]) if n else 0
                yt = T(sg, u)
                op = rng.choice(["add", "sub", "mul"])
                if op == "add" and rng.random() < 0.15:
                    y, yt = rng.randrange(0, 100), xt
                else:
                    y = make(rng, [val(u) for _ in range(m or 1)], yt, m == 0)
                e, r = event(op, x, xt, y, yt)
                emit(e)
                if r is None or e["rt"]["bits"] > 32 or e["rt"] == ZERO or e["rt"]["signed"] != sg:
                    return
                if not all(gens.bounds(sg, e["rt"]["bits"])[0] <= int(v) <= gens.bounds(sg, e["rt"]["bits"])[1] for v in np.ravel(r.value)):
                    return
                x, xt = r, e["rt"]
        rec.scenario(f)
    ctx.validate("TypedTrace", rec.scenarios, step="TStep")
    ctx.assumptions += ["scalars and one-dimensional vectors of up to 300 elements, equal signedness, results within twice the larger width (others are out of the property's domain)"]
