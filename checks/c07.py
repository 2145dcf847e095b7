from qcommon import *
from itcl_quantization.quantization.operators import GenericDtype  # noqa: E402


def ev_type(dtype, valid, sg=True, b=1):
    def build():
        g = GenericDtype(dtype)
        q = Quantization(dtype)
        h = GenericDtype(str(g))
        h2 = GenericDtype(q.dtype_str())
        return g, q, h, h2
    ok, r = attempt(build) if valid else attempt(GenericDtype, dtype)
    e = {"ev": "Type", "valid": valid, "t": T(sg, b), "raised": not ok, "name": repr(dtype)}
    if valid:
        z = [D(0)] * 6
        if ok:
            g, q, h, h2 = r
            ok2, z = attempt(lambda: [D(v) for v in (g.min(), g.max(), q.min_value(), q.max_value(), h.min() if h.min() == h2.min() else 10**9,
                                                     h.max() if h.max() == h2.max() else -10**9)])
            if not ok2:
                z = [D(0)] * 6
        e.update(zip(("lo", "hi", "qlo", "qhi", "lo2", "hi2"), z))
    return e


def run(ctx):
    rec = Rec()
    rng = ctx.rng
    replay_model_grid(ctx, rec).__next__()
    for b in list(range(1, 65)) + ([100, 128, 255] if not ctx.thorough else list(range(65, 300))):
        for sg in (True, False):
            n = gens.tname(sg, b)
            for sp in (n, n.upper(), n.capitalize(), "".join(rng.choice([c.upper(), c.lower()]) for c in n)):
                rec.one(ev_type(sp, True, sg, b))
    for (sg, b), t in list(gens.NP.items()) + [((True, 64), np.int64), ((False, 64), np.uint64)]:
        rec.one(ev_type(t, True, sg, b))
    bad = ["", " ", "int", "uint", "8", "int8 ", " int8", "int 8", "int-8", "8int", "int08", "int8.0", "int8a", "aint8", "uiint8", "sint8", "unt8", "integer8", "bool8",
           "int0", "uint0", "int8int8", "int8_t", "int8,", "int8\n", "\tint8", "intx8", "int8.", "u int8", "uint8uint8", "char8", "int8 16", "16int8", "int16 8",
           "bit8", "in8", "nt8", "string", "u8", "i8", "int_8", "INT 8", "uInt", "int+8", "int8+", "(int8)", "int8;", "int٨", "int1e1", "Int8x", "int00016", "uint-8", "complex64", "void8", "object", "longint16"]
    for x in bad:
        rec.one(ev_type(x, False))
    for x in (None, 5, 3.2, list, str, object(), np.float32, np.float64, [], ("int8",), b"int8"):
        rec.one(ev_type(x, False))
    for _ in range(4320 if ctx.thorough else 2160):
        n = gens.tname(rng.random() < 0.5, rng.choice([8, 16, 32, 4, 12]))
        i = rng.randrange(len(n) + 1)
        c = rng.choice(" _-.+*/xz@#;:%&")
        rec.one(ev_type(n[:i] + c + n[i:], False))
        i = rng.randrange(len(n) - 2)
        w = n[:i] + n[i + 1:]
        if not (w.startswith("int") and n.startswith("uint")) and not w[len(w.rstrip("0123456789")):] == "" and w.rstrip("0123456789") not in ("int", "uint"):
            rec.one(ev_type(w, False))
    ctx.validate("QuantizerTrace", rec.scenarios, step="QStep")
    ctx.assumptions += ["floating-point type names are outside the property (they denote no integer range)"]
