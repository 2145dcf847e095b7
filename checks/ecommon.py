"""Drivers for the inference engine (C08-C12, C24)."""
import random
import json, math, re
import numpy as np
import repo, gens
from vlib import D, A, I, ERR, attempt, Rec
repo.use("engine")
from itcl_quantization.quantization.lut import ReducedLUT  # noqa: E402
from itcl_inference_engine.layers.tflite.build_layer import build_layer  # noqa: E402
from itcl_inference_engine.layers.onnx.build_operator import build_operator  # noqa: E402
from itcl_inference_engine.network.sequential import SequentialNetwork  # noqa: E402


# ------------------------------------------------------------- file format
_names = random.Random(11)


def _name():
    """tensor names carry no meaning: any, also repeated or absent"""
    return _names.choice(["", "", "dense/Kernel", "lstm/Bias"]) or "".join(_names.choice("abxyz_/019") for _ in range(_names.choice([0, 1, 4])))


def node(s=None, z=None, dtype="int8", tensor=None, lut=None, shape=None):
    return {"tensor": {"tensor": None if tensor is None else np.asarray(tensor).tolist(), "shape": list(np.shape(tensor)) if tensor is not None else (shape or []), "dtype": dtype, "name": _name()},
            "zero_point": z, "scale": s, "LUT": lut}


def lut(table, lo, reduced=None):
    d = {"LUT": [int(v) for v in table], "offset": -lo, "reduced_LUT": None}
    if reduced:
        d["reduced_LUT"] = ReducedLUT(list(d["LUT"]), reduced[0], 0, reduced[1]).serialize()
    return d


def op(ty, ins, outs, name=None, attributes=None):
    return {"op_type": ty, "name": name or ty.lower(), "inputs": ins, "outputs": outs, "description": "", "attributes": attributes}


def network(engine, ops, inp=None, out=None):
    return {"ir_version": "1", "engine": engine, "generated_at": None, "operators": len(ops), "graph": ops, "input": [inp], "output": [out]}


# ------------------------------------------------------------ spec encoding
def enc_t(dtype):
    m = re.fullmatch(r"(u?)int(\d+)", str(dtype).lower())
    return {"signed": m.group(1) == "", "bits": int(m.group(2))} if m else {"signed": True, "bits": 8}


def enc_node(n, tables):
    if n is None:
        return {"s": D(1), "z": D(0), "t": enc_t("int8"), "v": {"sh": [], "v": [], "ty": "f"}, "lut": [], "off": 0}
    t = n.get("tensor") or {}
    arr = t.get("tensor")
    L = n.get("LUT")
    return {"s": D(1.0 if n.get("scale") is None else n["scale"]), "z": D(n.get("zero_point") or 0), "t": enc_t(t.get("dtype")),
            "v": A(arr) if arr is not None else {"sh": [], "v": [], "ty": "f"},
            "lut": tables.get(id(L), L["LUT"] or []) if L else [], "off": (L.get("offset") or 0) if L else 0}


def enc_op(o, tables=None):
    tables = tables or {}
    return {"ty": o["op_type"], "up": o["op_type"].upper(), "in": [enc_node(n, tables) for n in o["inputs"]], "out": [enc_node(n, tables) for n in o["outputs"]]}


def load(o):
    """as read from a file"""
    return json.loads(json.dumps(o))


def builder(eng):
    return build_layer if eng == "TFLITE" else build_operator


def layer_event(eng, o, x, layer=None, info=None):
    before = A(x)
    if layer is None:
        okb, layer = attempt(lambda: builder(eng)(load(o)))
        if not okb:
            return {"ev": "Layer", "eng": eng, "op": enc_op(o), "ok": False, "x": before, "y": ERR, "after": before}
    ok, y = attempt(lambda: layer.infer(x))
    e = {"ev": "Layer", "eng": eng, "op": enc_op(o), "ok": ok, "x": before, "y": A(y) if ok else ERR, "after": A(x)}
    if info:
        e["info"] = info
    return e


def rows_event(rng, eng, o, x, layer=None, k=4):
    """many rows at once: the layer answers them all, a selection (the ends and random ones) is judged"""
    n = len(x)
    r = sorted({0, n - 1, *[rng.randrange(n) for _ in range(k - 2)]})
    before = A(x[r])
    e = {"ev": "Layer", "eng": eng, "op": enc_op(o), "ok": False, "x": before, "y": ERR, "after": before}
    okb, layer = (True, layer) if layer is not None else attempt(lambda: builder(eng)(load(o)))
    if not okb:
        return e
    ok, y = attempt(lambda: layer.infer(x))
    if ok:
        y = np.asarray(y)
        e.update(ok=True, y=A(y[r]) if y.ndim and len(y) == n else A(y.reshape(-1)[:2].reshape(1, 1, 1, -1)), after=A(x[r]))
    return e


def many(rng, x):
    """rows of x repeated in random order to a long batch, in any memory order"""
    y = x[np.array([rng.randrange(len(x)) for _ in range(rng.choice([33, 65, 129, 257, 1025, 5000]))])]
    return np.asfortranarray(y) if rng.random() < .3 else y


# -------------------------------------------------------------- op generators
def pow2(rng, lo=-8, hi=0):
    return 2.0 ** rng.randint(lo, hi)


def pscale(rng, exact):
    return pow2(rng) if exact else rng.choice([rng.uniform(0.002, 0.1), rng.uniform(0.01, 1.0), 1 / 255, 0.05, 1 / 3])


def ints(rng, sg, b, sh):
    lo, hi = gens.bounds(sg, b)
    n = int(np.prod(sh)) if sh else 1
    m = rng.random()
    if m < 0.15:
        v = [rng.choice([lo, hi]) for _ in range(n)]
    elif m < 0.3:
        v = [rng.randint(max(lo, -3), min(hi, 3)) for _ in range(n)]
    else:
        v = [rng.randint(lo, hi) for _ in range(n)]
    return np.array(v, dtype=np.int64).reshape(sh)


def zp(rng, sg, b):
    lo, hi = gens.bounds(sg, b)
    return rng.choice([0 if lo <= 0 <= hi else lo, lo, hi, rng.randint(lo, hi), rng.randint(lo, hi)])


def fc(rng, d, u, exact=None, in_t=(True, 8), out_t=None, in_s=None, in_z=None, w_t=(True, 8), name=None, wzp=None):
    exact = rng.random() < 0.5 if exact is None else exact
    out_t = out_t or rng.choice([(True, 8), (True, 8), (False, 8), (True, 16), (True, 4)])
    i_s = in_s if in_s is not None else pscale(rng, exact)
    i_z = in_z if in_z is not None else zp(rng, *in_t)
    w_s = pscale(rng, exact)
    w_z = wzp if wzp is not None else (0 if rng.random() < 0.8 else rng.randint(-20, 20))
    w = ints(rng, *w_t, (u, d))
    spread = max(1.0, 2.0 ** (in_t[1] - 1) * 2.0 ** (w_t[1] - 1) * math.sqrt(d) / 4)
    k = rng.random()
    if k < 0.1:
        b = np.array([rng.choice([-2 ** 31, 2 ** 31 - 1, 0, rng.randint(-2 ** 31, 2 ** 31 - 1)]) for _ in range(u)])
        spread = 2.0 ** 31
    else:
        r = int(spread)
        b = np.array([rng.randint(-r, r) for _ in range(u)])
    width = float(2 ** out_t[1])
    o_s = i_s * w_s * spread / width * rng.choice([0.2, 1, 1, 2, 4])
    if exact:
        o_s = 2.0 ** round(math.log2(o_s))
    if rng.random() < 0.08:     # multiplier above one
        o_s = i_s * w_s / rng.choice([1, 2, 8, 1024])
    n_out = node(o_s, zp(rng, *out_t), gens.tname(*out_t))
    return op("FULLY_CONNECTED", [node(i_s, i_z, gens.tname(*in_t)), node(w_s, w_z, gens.tname(*w_t), w), node(i_s * w_s, 0, "int32", b)], [n_out], name)


def qadd(rng, sh, exact=None):
    exact = rng.random() < 0.5 if exact is None else exact
    i_s, b_s = pscale(rng, exact), pscale(rng, exact)
    o_s = pow2(rng, -6, 1) if exact else max(i_s, b_s) * rng.choice([0.5, 1, 2, 3.3])
    t = (False, 8) if rng.random() < 0.7 else (True, 8)
    return op("QLinearAdd", [node(i_s, zp(rng, False, 8), "uint8"), node(b_s, zp(rng, *t), gens.tname(*t), ints(rng, *t, sh)), node(o_s, zp(rng, False, 8), "uint8")], [])


def qmm(rng, d, u, exact=None):
    exact = rng.random() < 0.5 if exact is None else exact
    i_s, w_s = pscale(rng, exact), pscale(rng, exact)
    o_s = i_s * w_s * 128 * 128 * math.sqrt(d) / 256 * rng.choice([0.3, 1, 1, 2])
    if exact:
        o_s = 2.0 ** round(math.log2(o_s))
    t = (False, 8) if rng.random() < 0.7 else (True, 8)
    return op("QLinearMatMul", [node(i_s, zp(rng, False, 8), "uint8"), node(w_s, zp(rng, *t), gens.tname(*t), ints(rng, *t, (u, d))), node(o_s, zp(rng, False, 8), "uint8")], [])


def cast(rng, x, sg, b):
    """the same integers in one of the dtypes they come in"""
    c = [np.int64, np.int32, np.int64]
    if (sg, b) in gens.NP:
        c.append(gens.NP[(sg, b)])
    return x.astype(rng.choice(c))


def table_op(rng, name, sg=True, b=8, reduced=None, onnx=False):
    lo, hi = gens.bounds(sg, b)
    f = rng.choice([math.tanh, lambda v: 1 / (1 + math.exp(-v)), lambda v: max(0.0, v), lambda v: v])
    s = rng.choice([0.05, 0.02, 2.0 ** -5])
    t = [max(lo, min(hi, int(math.floor(f(q * s) * (hi - 1) + 0.5)))) for q in range(lo, hi + 1)]
    if rng.random() < 0.3:
        t = [rng.randint(lo, hi) for _ in t]
    n = node(s, 0, gens.tname(sg, b), None, lut(t, lo, reduced))
    return op(name, [n], [node(1 / 128, 0, gens.tname(sg, b))])
