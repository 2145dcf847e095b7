from qcommon import *
from c15 import samples
repo.use("quantizer")
from itcl_quantizer.quantizer.distributions.distribution import Distribution  # noqa: E402


def hist_event(a, bins, d, ok, mul=None):
    some = lambda v: [v[j] for j in sorted({int(q) for q in np.linspace(0, len(v) - 1, 40)})] if len(v) > 40 else list(v)
    e = {"ev": "Hist", "ok": bool(ok), "x": A(a), "bins": bins, "counts": [], "edges": A([]), "min": D(0), "max": D(0), "got": []}
    if not ok:
        return e
    n = len(d)
    if mul is not None: e["mul"] = mul
    e["counts"], e["edges"] = [int(c) for c in d.get_histogram()], A(d.get_bin_edges())
    e["min"], e["max"] = D(d.get_min()), D(d.get_max())
    for k in sorted({0, n - 1, n // 2, n // 3, *[i for i, c in enumerate(e["counts"]) if c > 1][:6]}):
        b = d.get_bin(k)
        e["got"].append({"k": k + 1, "items": int(b.items), "n": len(b.items_in_bin), "v": [D(v) for v in some(b.items_in_bin)], "min": D(b.min), "max": D(b.max)})
    b = d.get_bin(-1)
    e["got"].append({"k": n, "items": int(b.items), "n": len(b.items_in_bin), "v": [D(v) for v in some(b.items_in_bin)], "min": D(b.min), "max": D(b.max)})
    return e


def bin_event(d, a, k, mul=None):
    """a bin picked by its number is the restriction to the interval of that bin"""
    b = d.get_bin(k)
    return slice_event(d, a, float(b.min), float(b.max), mul, get=lambda: d[k])


def slice_event(d, a, lo, hi, mul=None, get=None):
    before = (list(d.get_histogram()), list(d.get_bin_edges()), d.get_min(), d.get_max())
    ok, s = attempt(get or (lambda: d[lo:hi]))
    same = before == (list(d.get_histogram()), list(d.get_bin_edges()), d.get_min(), d.get_max())
    e = {"ev": "Slice", "ok": bool(ok), "x": A(a), "hasa": lo is not None, "hasb": hi is not None, "a": D(lo or 0), "b": D(hi or 0),
         "w": D(d.get_bin_size()), "f32": np.asarray(a).dtype == np.float32, "dmin": D(before[2]), "dmax": D(before[3]), "min": D(0), "max": D(0), "total": 0, "before": bool(same)}
    if mul is not None: e["mul"] = mul
    if ok:
        ok2, mm = attempt(lambda: (s.get_min(), s.get_max(), int(sum(s.get_histogram()))))
        e["ok"] = bool(ok2)
        if ok2:
            e["min"], e["max"], e["total"] = D(mm[0]), D(mm[1]), mm[2]
    return e, (s if ok else None)


def interval(rng, f):
    lo, hi = float(f.min()), float(f.max())
    r = (hi - lo) or 1.0
    pick = lambda: rng.choice([lo, hi, 0.0, float(rng.choice(f.tolist())), lo + r * rng.uniform(-0.3, 1.3), lo - r, hi + r, 6.0])
    a, b = sorted([pick(), pick()])
    k = rng.random()
    return (None, b) if k < 0.12 else (a, None) if k < 0.24 else (a, b)


def run(ctx):
    rec = Rec()
    rng = ctx.rng
    g = ctx.gen("HistMC", dict(NB=3, W=2, MaxN=3), init="HInit", next="HNext", inv=["HistOk", "SliceOk"], post="Emit", workers=4)
    if ctx.thorough:
        ctx.mc("HistMC", dict(NB=4, W=2, MaxN=4), init="HInit", next="HNext", inv=["HistOk", "SliceOk"], workers=8)
    for xs in g["xs"]:
        f = np.array(xs, dtype=np.float64)
        for bins in (1, 3):
            ok, d = attempt(Distribution, f, bins)
            rec.one(hist_event(f, bins, d, ok))
            if not ok: continue
            for lo in range(-1, g["top"] + 2):
                for hi in range(lo, g["top"] + 2):
                    if ctx.thorough or rng.random() < 0.12:
                        rec.one(slice_event(d, f, float(lo), float(hi))[0])
    for _ in range(3000 if ctx.thorough else 1260):
        a = samples(rng, ctx.np)
        if a.size > 120: a = a.reshape(-1)[:60]
        f = np.asarray(a).reshape(-1)
        bins = rng.choice([1, 2, 3, 7, 16, 512])
        eps = float(np.finfo(a.dtype).eps) if a.dtype.kind == "f" else 1e-16
        if (float(f.max() - f.min()) or 1.0) / bins < 64 * eps * float(np.abs(f).max()):
            continue        # bins narrower than the float type resolves

        def sc(emit):
            ok, d = attempt(Distribution, a.tolist() if rng.random() < .15 and a.dtype == np.float64 else a, bins)
            emit(hist_event(f, bins, d, ok))
            if not ok: return
            full = [k for k, c in enumerate(d.get_histogram()) if c]
            if full and rng.random() < .3:
                emit(bin_event(d, f, rng.choice(full))[0])
            for _ in range(3):
                lo, hi = interval(rng, f)
                e, s = slice_event(d, f, lo, hi)
                emit(e)
                # restrict again: the samples that survived for certain are those inside the first interval
                if s is not None and rng.random() < 0.5:
                    inside = f[(f >= (lo if lo is not None else -np.inf)) & (f <= (hi if hi is not None else np.inf))]
                    if inside.size:
                        lo2, hi2 = interval(rng, inside)
                        e2, _ = slice_event(s, inside, lo2, hi2)
                        emit(e2)
            if bins == 512: return
        rec.scenario(sc)
    # thousands of samples, recorded as distinct values with multiplicities
    for _ in range(60 if ctx.thorough else 24):
        n = rng.choice([3001, 4097, 6000, 12000, 70001, 140000])
        a = (ctx.np.integers(-60, 61, size=n) if rng.random() < .5 else np.round(ctx.np.normal(size=n) * 15)) * rng.choice([0.125, 0.5, 1.0])
        a[rng.randrange(n)], a[rng.randrange(n)] = a.max() + rng.choice([0, 3, 40]), a.min() - rng.choice([0, 3, 40])
        if rng.random() < .3: a = a.astype(np.float32)
        if rng.random() < .3: a = a[: n // 2 * 2].reshape(2, -1)
        u, c = np.unique(a, return_counts=True)
        bins, mul = rng.choice([1, 3, 7, 16]), [int(v) for v in c]

        def big(emit):
            ok, d = attempt(Distribution, a, bins)
            emit(hist_event(u, bins, d, ok, mul))
            for _ in range(2 if ok else 0):
                emit(slice_event(d, u, *interval(rng, u), mul)[0])
        rec.scenario(big)
    # the fused rectifier trims
    for _ in range(200 if ctx.thorough else 180):
        a = samples(rng, ctx.np) * 1.0
        f = np.asarray(a).reshape(-1)[:60]
        if (float(f.max() - f.min()) or 1.0) / 512 < 64 * float(np.finfo(f.dtype).eps) * float(np.abs(f).max()):
            continue
        d = Distribution(f)
        rec.one(slice_event(d, f, 0, None)[0])
        rec.one(slice_event(d, f, 0, 6)[0])
    ctx.validate("CalibTrace", rec.scenarios, step="CStep")
    ctx.assumptions += ["sample magnitudes from 1e-9 to 1e9, up to 60 recorded samples per distribution"]
