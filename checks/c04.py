"""C04: lookup tables hold the right entry for every value, and table-driven layers answer with it."""
import json, math
from qcommon import *
from vlib import I
repo.use("engine")
from itcl_quantization.quantization.lut import ReducedLUT  # noqa: E402
from itcl_inference_engine.layers.common.lut import LUTActivation  # noqa: E402
from itcl_inference_engine.layers.tflite.build_layer import build_layer  # noqa: E402

SPECFN = {"id": lambda x: x, "neg": lambda x: -x, "abs": lambda x: abs(x), "relu": lambda x: max(0, x), "relu6": lambda x: min(6, max(0, x)), "sq": lambda x: x * x,
          "cube": lambda x: x * x * x, "clip1": lambda x: max(-1, min(1, x)), "step": lambda x: 0 if x < 0 else 1, "lin": lambda x: 3 * x - 1.25, "hsig": lambda x: max(0, min(1, x / 4 + 0.5))}
REF = {"tanh": math.tanh, "sigmoid": lambda x: 1 / (1 + math.exp(-max(-700, min(700, x)))), "np.tanh": lambda x: np.tanh(x), "exp": lambda x: math.exp(max(-50, min(20, x))), "sin": math.sin,
       "softsign": lambda x: x / (1 + abs(x)), "elu": lambda x: x if x > 0 else math.exp(x) - 1}


def table_event(name, sg, b, dt, i_s, i_z, o_s, o_z, some=None, ot=None):
    fn = SPECFN.get(name) or REF[name]
    ok, t = attempt(lambda: Quantization(dt).create_LUT(fn, i_s, i_z, o_s, o_z, **({"output_quantization": Quantization(gens.tname(*ot))} if ot else {})))
    lo, hi = gens.bounds(sg, b)
    idx = [i for i in (some or range(1, hi - lo + 2)) if ok and i <= len(t)]
    e = {"ev": "Table", "fn": name, "t": T(sg, b), "ot": T(*(ot or (sg, b))), "is": D(i_s), "iz": D(i_z), "os": D(o_s), "oz": D(o_z), "n": len(t) if ok else 0, "idx": idx,
         "lut": arr(ok, [t[i - 1] for i in idx] if ok else []), "ref": []}
    if name in REF:
        e["ref"] = [D(float(fn((lo + i - 1 - i_z) * i_s))) for i in idx]
    return e, t if ok else None


def lookup_event(layer_of, tab, lo, reduced, x):
    before = I(x)
    ok, out = attempt(lambda: layer_of().infer(x))
    return {"ev": "Lookup", "lut": [int(v) for v in tab], "lo": lo, "reduced": reduced, "x": before, "after": I(x), "ok": ok, "out": I(out) if ok else I([])}


def node(tab, lo, dtype, reduced):
    n = {"zero_point": 0, "scale": 0.1, "tensor": {"tensor": None, "shape": [], "dtype": dtype, "name": ""}, "LUT": {"LUT": list(tab), "offset": -lo, "reduced_LUT": None}}
    if reduced is not None:
        d, asym = reduced
        n["LUT"]["reduced_LUT"] = ReducedLUT(list(tab), d, 0, asym).serialize()
        n["LUT"]["LUT"] = None if asym else list(tab)
    return json.loads(json.dumps(n))


def run(ctx):
    rec = Rec()
    rng = ctx.rng
    for _ in replay_model_grid(ctx, rec):
        pass
    names = list(SPECFN) + list(REF)
    for k in range(1200 if ctx.thorough else 546):
        name = names[k % len(names)]
        sg, b = rng.choice([(True, 8), (False, 8), (True, 4), (False, 4), (True, 2), (True, 6), (False, 7), (False, 1)] + ([(True, 10), (True, 12)] if ctx.thorough else []))
        lo, hi = gens.bounds(sg, b)
        i_s = rng.choice([2.0 ** -rng.randrange(1, 8), rng.uniform(0.005, 0.2), 0.05, 1.0])
        o_s = rng.choice([2.0 ** -rng.randrange(0, 8), rng.uniform(0.005, 0.2), 1 / 128, 1 / 255])
        i_z, o_z = rng.choice([0, lo, hi, rng.randint(lo, hi)]), rng.choice([0, lo, hi, rng.randint(lo, hi)])
        e, tab = table_event(name, sg, b, gens.tspell(rng, sg, b), i_s, i_z, o_s, o_z)
        sc = [e]
        if tab is not None and len(tab) == hi - lo + 1:
            for reduced in (None, (rng.choice([1, 2, 3, 10]), rng.random() < 0.5)):
                n = node(tab, lo, gens.tname(sg, b), reduced)
                mk = rng.choice([lambda n=n: LUTActivation.from_node(n),
                                 lambda n=n: LUTActivation.from_model({"op_type": "X", "name": "", "inputs": [n], "outputs": []}),
                                 lambda n=n: build_layer({"op_type": rng.choice(["TANHLUT", "SIGMOIDLUT", "TanhLUT"]).upper(), "name": "", "inputs": [n], "outputs": [], "attributes": None})])
                allv = np.arange(lo, hi + 1)
                if rng.random() < 0.3 and (sg, b) in gens.NP:
                    allv = allv.astype(gens.NP[(sg, b)])
                sc.append(lookup_event(mk, tab, lo, reduced is not None, allv))
                sh = rng.choice([(1,), (3,), (2, 3), (1, 1, 4), (2, 2, 2), ()])
                x = np.array([rng.choice([lo, hi, 0 if sg else lo, rng.randint(lo, hi)]) for _ in range(int(np.prod(sh)) if sh else 1)]).reshape(sh)
                sc.append(lookup_event(mk, tab, lo, reduced is not None, x))
        rec.scenarios.append(sc)
    # entries of another, wider or narrower, type
    for _ in range(200 if ctx.thorough else 70):
        sg, b = rng.choice([(True, 8), (False, 8), (True, 4), (False, 4), (True, 6)])
        lo, hi = gens.bounds(sg, b)
        ot = rng.choice([(True, 32), (False, 32), (True, 16), (True, 24), (False, 16), (True, 4), (False, 8), (True, 8)])
        i_s, i_z = rng.choice([2.0 ** -rng.randrange(1, 8), rng.uniform(.005, .2), .1, 1 / 3]), rng.choice([0, lo, rng.randint(lo, hi)])
        rec.one(table_event(rng.choice(["id", "neg", "sq", "cube", "lin", "tanh", "exp", "abs"]), sg, b, gens.tspell(rng, sg, b), i_s, i_z, max(i_s, .01) * 2.0 ** -rng.choice([ot[1] - 4, ot[1] - 8, ot[1] // 2]), rng.choice([0, gens.bounds(*ot)[0], 5]), None, ot)[0])
    # wide tables of sharp functions
    for _ in range(40 if ctx.thorough else 22):
        sg, b = rng.random() < .5, rng.choice([9, 11, 12, 13, 14, 16])
        lo, hi = gens.bounds(sg, b)
        n = hi - lo + 1
        some = sorted({1, 2, n // 2, n // 2 + 1, n // 2 + 2, n - 1, n} | {rng.randint(1, n) for _ in range(60)})
        e, tab = table_event(rng.choice(["step", "abs", "clip1", "hsig", "relu6", "sq", "sin", "tanh", "sigmoid"]), sg, b, gens.tspell(rng, sg, b), rng.choice([1, .25, .05, 6.3]) * 2.0 ** -rng.randint(3, b - 2),
                             rng.choice([0, lo, rng.randint(lo, hi)]), rng.choice([2.0 ** -12, 1 / 32768, .001]), rng.choice([0, lo, rng.randint(-200, 200) if sg else rng.randint(0, 400)]), some)
        rec.one(e)
    # 16-bit tables: a sample of the entries; table-driven layers over the whole table
    for sg in (True, False) * (4 if ctx.thorough else 1):
        lo, hi = gens.bounds(sg, 16)
        name = rng.choice(names)
        some = sorted({1, 2, 32767, 32768, 32769, 32770, 65535, 65536} | {rng.randint(1, 65536) for _ in range(150)})
        i_s, o_s = rng.choice([2.0 ** -10, 0.0003, 0.001]), rng.choice([2.0 ** -12, 1 / 32768, 0.0005])
        e, tab = table_event(name, sg, 16, gens.tspell(rng, sg, 16), i_s, rng.choice([0, lo, rng.randint(-500, 500)]), o_s, rng.choice([0, lo, rng.randint(-500, 500)]), some)
        sc = [e]
        if tab is not None and len(tab) == 65536:
            for reduced in (None, (rng.choice([1, 2, 5]), False)):
                x = np.array([lo, hi, lo + 1, hi - 1, 0, 1, 32767] + [rng.randint(lo, hi) for _ in range(200)]).clip(lo, hi)
                if rng.random() < 0.5:
                    x = x.astype(gens.NP[(sg, 16)])
                n = node(tab, lo, gens.tname(sg, 16), reduced)
                sc.append(lookup_event(lambda n=n: LUTActivation.from_node(n), tab, lo, reduced is not None, x.reshape(-1, 9)))
        rec.scenarios.append(sc)
    ctx.validate("QuantizerTrace", rec.scenarios, step="QStep")
    ctx.assumptions += ["libm values of tanh/exp/sin are taken from Python's math module (slack 2^-42)", "empty arrays are not fed to table layers"]
