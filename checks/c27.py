"""C27: configurations (spec/Config.tla, ConfigMC.tla)."""
import json, os
from itertools import product
from scommon import *
from itcl_quantizer.config.models import keras as cm  # noqa: E402
from itcl_quantizer.tensor_extractor.keras import keras_builder as kb  # noqa: E402

KEYS = dict(act="activation_dtype", badd="bias_add_dtype", bias="bias_dtype", kern="kernel_dtype", sym="kernel_symmetric")
NOOPT = {"kind": "none", "tmin": D(0), "tmax": D(0), "updates": 0, "steps": 0, "retries": 0}


def enc_opt(o):
    if o is None:
        return NOOPT
    g = lambda n: getattr(o, n, 0)
    return {"kind": o.optimizer, "tmin": D(float(g("t_min"))), "tmax": D(float(g("t_max"))), "updates": int(g("updates")), "steps": int(g("steps")), "retries": int(g("max_retries"))}


def enc_dense(d):
    return {**{k: getattr(d, v) for k, v in KEYS.items()}, "depth": d.lut_cfg.reduced_depth, "opt": enc_opt(d.adaround_optimizer)}


def enc(c):
    return {"dense": enc_dense(c.dense), "quantize": c.quantize.dtype, "ada": enc_opt(c.ada_round_net), "param": -1 if c.param_equalizer is None else int(c.param_equalizer.max_retries),
            "spec": [{"name": n, "s": enc_dense(s)} for n, s in c.specific_layers.items()]}


# ------------------------------------------------------------------ descriptions (plain data) of what is asked for
def r_opt(rng, kinds=("none", "none", "base", "annealer")):
    k = rng.choice(kinds)
    o = dict(NOOPT, kind=k)
    if k != "none":
        o["retries"] = rng.choice([0, 1, 4])
    if k == "annealer":
        o.update(tmin=D(rng.choice([.1, .5])), tmax=D(rng.choice([1.0, 100.0, 25000.0, .05])), updates=rng.choice([1, 7]), steps=rng.choice([0, 3, 10]))
    return o


def und(d):
    return d[0] * sum(l * 4096 ** i for i, l in enumerate(d[1])) * 2.0 ** d[2]


def opt_dict(o):
    if o["kind"] == "none": return None
    if o["kind"] == "base": return {"optimizer": "base", "max_retries": o["retries"]}
    if o["kind"] == "qubo": return {"optimizer": "qubo"}
    return {"optimizer": "annealer", "t_min": und(o["tmin"]), "t_max": und(o["tmax"]), "updates": o["updates"], "steps": o["steps"], "max_retries": o["retries"]}


def r_dense(rng, some=True):
    full = {"act": rng.choice(["int8", "int4", "uint8"]), "badd": rng.choice(["int8", "int4", "uint8"]), "bias": rng.choice(["int32", "int16"]),
            "kern": rng.choice(["int8", "int4", "int16"]), "sym": rng.random() < .5}
    return {k: v for k, v in full.items() if not some or rng.random() < .5}


def dense_dict(s):
    return {KEYS[k]: v for k, v in s.items() if k in KEYS}


def full_dense(s):
    return {"act": "int8", "badd": "int8", "bias": "int32", "kern": "int8", "sym": False, "depth": 3, "opt": NOOPT, **s}


# some names begin with others, or differ only in case
LAYERS = ["a", "A", "b", "dense", "Dense", "dense_1", "dense_10", "block/b", "b.1"]


class World:
    """live configuration objects"""

    def __init__(self, ctx, emit):
        self.ctx, self.emit, self.live = ctx, emit, {}
        emit({"ev": "CStart"})

    def event(self, op, id, ok, **k):
        live = [{"id": i, "cfg": enc(c)} for i, c in self.live.items()]
        e = {"ev": "COp", "op": op, "id": id, "ok": bool(ok), "live": live, "over": {}, "from": 0, "name": "", "how": "", **k}
        e["over"] = {"_": 0, **e["over"]}      # never an empty record
        self.emit(e)

    def new(self, id, over=None, objects=False):
        over = over or {}
        kw = {}
        if "dense" in over: kw["dense"] = dense_dict(over["dense"])
        if "quantize" in over: kw["quantize"] = {"dtype": over["quantize"]}
        if "ada" in over: kw["ada_round_net"] = opt_dict(over["ada"])
        if "param" in over: kw["param_equalizer"] = None if over["param"] < 0 else {"max_retries": over["param"]}
        if "spec" in over: kw["specific_layers"] = {n: dense_dict(s) for n, s in over["spec"].items()}
        if objects:
            if "dense" in kw: kw["dense"] = cm.KerasDenseCfg(**kw["dense"])
            if "specific_layers" in kw: kw["specific_layers"] = {n: cm.KerasDenseCfg(**s) for n, s in kw["specific_layers"].items()}
        ok, c = attempt(lambda: cm.QuantizerCfg(**kw))
        if ok: self.live[id] = c
        o = dict(over)
        if "dense" in o: o["dense"] = full_dense(o["dense"])
        if "spec" in o: o["spec"] = [{"name": n, "s": full_dense(s)} for n, s in o["spec"].items()]
        self.event("new", id, ok, over=o)

    def set(self, id, over):
        def go():
            for k, v in over.items(): setattr(self.live[id].dense, KEYS[k], v)
        ok, _ = attempt(go)
        self.event("set", id, ok, over=over)

    def specific(self, id, name, over):
        def go(): self.live[id].specific_layers[name] = cm.KerasDenseCfg(**dense_dict(over))
        ok, _ = attempt(go)
        self.event("specific", id, ok, name=name, over=over)

    def preset(self, id):
        ok, _ = attempt(lambda: self.live[id].tflite())
        self.event("preset", id, ok)

    def load(self, id, frm, how):
        def go():
            d = self.live[frm].dict()
            d["specific_layers"] = {n: (s.dict() if hasattr(s, "dict") else s) for n, s in d["specific_layers"].items()}
            path = os.path.join(os.getcwd(), f"cfg.{how}")
            with open(path, "w") as f:
                f.write(json.dumps(d) if how == "json" else ydump(d))
            return cm.QuantizerCfg.from_json(path) if how == "json" else cm.QuantizerCfg.from_yml(path)
        ok, c = attempt(go)
        if ok: self.live[id] = c
        self.event("load", id, ok, **{"from": frm, "how": how})

    def build(self, id, loss):
        ctx, rng, npr = self.ctx, self.ctx.rng, self.ctx.np
        c = self.live[id]
        L = rng.choice([1, 2, 3])
        names = rng.sample(LAYERS, L)
        dims = [rng.randint(1, 3) for _ in range(L + 1)]
        lays = [ks.Dense(kernel=npr.normal(size=(dims[i], dims[i + 1])) * 10.0 ** rng.uniform(-1, .5), bias=npr.normal(size=dims[i + 1]), activation=rng.choice(["linear", "relu", "tanh", "sigmoid"]), name=names[i]) for i in range(L)]
        seq = [ks.InputLayer()] if rng.random() < .5 else []
        for lay in lays:
            seq += [lay] + ([ks.Dropout()] if rng.random() < .3 else [])
        ks.MODELS["m"] = ks.Sequential(seq)
        x = npr.normal(size=(3, dims[0])).astype(np.float32)
        n = [0]

        def lossf(net):
            n[0] += 1
            if n[0] > 3000: raise RuntimeError("the searches do not end")
            return 0.0
        with quiet():
            ok, net = attempt(lambda: kb.build("m", os.path.join(os.getcwd(), "out.json"), x, lossf if loss else None, cfg=c))
        e = {"ev": "CBuild", "id": id, "ok": bool(ok), "loss": bool(loss), "evals": n[0], "layers": [], "names": names, "qin": "", "cfg": enc(c)}
        if ok:
            ops = net.as_operators()
            e["qin"] = ops[0].outputs[0].quant.dtype_str()
            k = 0
            for i, o in enumerate(ops):
                j = o.as_json()
                if "FULLY" not in j["op_type"]: continue
                kern, bias, out = o.inputs[1], o.inputs[2], o.outputs[0]
                nxt = ops[i + 1] if i + 1 < len(ops) and ops[i + 1].as_json()["op_type"] in ("TANH", "LOGISTIC", "SIGMOID") else None
                nm = [x for x in names if kern.name.startswith(x + "/")]
                e["layers"].append({"name": nm[0] if nm else kern.name, "kern": kern.quant.dtype_str(), "bias": bias.quant.dtype_str(), "badd": out.quant.dtype_str(), "hasact": nxt is not None,
                                    "act": nxt.outputs[0].quant.dtype_str() if nxt else "", "kbits": int(tparse(kern.quant.dtype_str())["bits"]), "ks": D(float(kern.scale)), "kz": D(kern.zero_point),
                                    "kmax": D(float(np.abs(kern.fp_tensor).max())), "varied": len(set(np.asarray(kern.fp_tensor).flat)) > 1})
        self.emit(e)


def ydump(d, ind=0):
    out = ""
    for k, v in d.items():
        if isinstance(v, dict):
            out += " " * ind + f"{k}: {{}}\n" if not v else " " * ind + f"{k}:\n" + ydump(v, ind + 2)
        else:
            out += " " * ind + f"{k}: " + ("null" if v is None else "true" if v is True else "false" if v is False else str(v)) + "\n"
    return out


def history(ctx, ops, emit):
    """a history of the model, on real objects"""
    w = World(ctx, emit)
    w.new(1)
    w.new(2)
    for h in ops:
        i = h["id"]
        if h["op"] == "new": w.new(i)
        elif h["op"] == "set":
            w.set(i, {"sym": h["sym"]})
        elif h["op"] == "specific": w.specific(i, h["name"], {"sym": h["sym"], "kern": "int4"})
        elif h["op"] == "preset": w.preset(i)
        elif h["op"] == "load": w.load(i, h["from"], ctx.rng.choice(["json", "yml"]))


def random_history(ctx, emit):
    rng = ctx.rng
    w = World(ctx, emit)

    def over():
        o = {}
        if rng.random() < .6: o["dense"] = r_dense(rng)
        if rng.random() < .5: o["quantize"] = rng.choice(["int8", "int4", "uint8", "int16"])
        if rng.random() < .5: o["ada"] = r_opt(rng)
        if rng.random() < .5: o["param"] = rng.choice([-1, 0, 1, 5])
        if rng.random() < .6: o["spec"] = {n: r_dense(rng) for n in rng.sample(LAYERS + ["zz"], rng.randint(1, 4))}
        return o
    w.new(1, over(), rng.random() < .5)
    for _ in range(rng.randint(1, 4)):
        k, i = rng.choice(["new", "set", "specific", "preset", "load", "load"]), rng.choice(sorted(w.live) or [1])
        if i not in w.live: return
        if k == "new": w.new(rng.choice([1, 2, 3]), over(), rng.random() < .5)
        elif k == "set": w.set(i, r_dense(rng))
        elif k == "specific": w.specific(i, rng.choice(LAYERS + ["zz"]), r_dense(rng))
        elif k == "preset": w.preset(i)
        else: w.load(rng.choice([1, 2, 3]), i, rng.choice(["json", "yml"]))
    for i in sorted(w.live):
        if rng.random() < .7: w.build(i, rng.random() < .6)


def optimiser(ctx):
    rng = ctx.rng
    o = r_opt(rng, ("base", "annealer"))
    d = opt_dict(o)
    cls = cm.RoundingMinimaCfg if o["kind"] == "base" else cm.RoundingAnnealerCfg
    n = [0]

    def cost(_):
        n[0] += 1
        if n[0] > 3000: raise RuntimeError("the search does not end")
        return 0.0
    with quiet():
        ok, b = attempt(lambda: cls(**d).build())
        ok2 = ok and attempt(lambda: b.set_cost_fn(cost).set_initial_neigh([np.zeros((4, 5), dtype=int), np.zeros(4, dtype=int)]).optimize())[0]
    return {"ev": "COpt", "ok": bool(ok and ok2), "o": o, "evals": n[0], "tmin": D(float(b.Tmin)) if ok else D(0), "tmax": D(float(b.Tmax)) if ok else D(0)}


def run(ctx):
    rec = Rec()
    rng = ctx.rng
    random.seed(f"C27:{ctx.seed}")
    g = ctx.gen("ConfigMC", dict(MaxOps=3, Names={"a"}), init="MInit", next="MNext", inv=["PresetOk", "NoLeak"], post="Emit", workers=8)
    if ctx.thorough:
        ctx.mc("ConfigMC", dict(MaxOps=4, Names={"a", "b"}), init="MInit", next="MNext", inv=["PresetOk", "NoLeak"], workers=8)
    hs = list(product(g["ops"], repeat=2)) + [rng.choices(g["ops"], k=3) for _ in range(2000 if ctx.thorough else 810)]
    for h in hs:
        rec.scenario(lambda emit: history(ctx, h, emit))
    for _ in range(600 if ctx.thorough else 486):
        rec.scenario(lambda emit: random_history(ctx, emit))
    for _ in range(432 if ctx.thorough else 216):
        rec.one(optimiser(ctx))
    ctx.validate("ConfigTrace", rec.scenarios, step="ZStep", start="NoCfg")
    ctx.assumptions += ["pydantic and yaml are stand-ins: typed fields with defaults, nested construction, plain scalars", "layer-level rounding optimisation is not implemented by the repository and not configured"]
