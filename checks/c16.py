"""C16: tensor nodes (spec/Node.tla, NodeMC.tla)."""
from ncommon import *
import tensorflow as tf
from itcl_quantizer.tensor_extractor.keras.layers.activations import quantize_activation_node  # noqa: E402

FNS = {"id": lambda x: x, "neg": lambda x: -x, "relu": lambda x: np.maximum(x, 0), "clip1": lambda x: np.clip(x, -1, 1), "abs": np.abs, "hsig": lambda x: np.clip(x / 4 + .5, 0, 1), "sq": lambda x: x * x}


def sc(rng, exact):
    return 2.0 ** rng.randrange(-4, 2) if exact else gens.scale(rng)


def history(ctx, ops, emit):
    rng = ctx.rng
    sg, b = rng.choice([(True, 4), (True, 4), (False, 4), (True, 3), (True, 5), (True, 8), (True, 16), (True, 32), (False, 32)])
    exact = rng.random() < 0.6
    name = gens.tname(sg, b)
    s0, z0 = sc(rng, exact), gens.zeropoint(rng, sg, b)
    sh = rng.choice([(1,), (4,), (2, 3), (2, 2, 2), (3, 1), ()])
    tr = Track(emit)
    base = NodeTensorBase(s0, z0, "node/%d" % rng.randrange(99), Quantization(name))
    forms = rng.random() < .25
    if rng.random() < 0.15:
        node = base
    else:
        k = int(np.prod(sh)) if sh else 1
        x = np.clip(np.array(gens.reals(rng, s0, z0, sg, b, k)), -1e7, 1e7).reshape(sh)
        if rng.random() < .2: x = x.astype(np.float32).astype(np.float64)
        node = base.with_tensor(x)
    i = tr.new(node)
    out = None
    table = b <= 5 or (b == 8 and rng.random() < 0.15)
    if table:
        fname = rng.choice(sorted(FNS) + ["tanh", "sigmoid"])
        lo, hi = gens.bounds(sg, b)
        if fname in ("tanh", "sigmoid") or (rng.random() < 0.6 and isinstance(node, NodeTensorTensor)):
            kind = fname if fname in ("tanh", "sigmoid") else rng.choice(["tanh", "sigmoid"])
            fn = {"tanh": np.tanh, "sigmoid": tf.math.sigmoid}[kind]
            data = np.clip(ctx.np.normal(size=(5, 2)) * 3, -8, 8)
            box = {}

            def attach():
                box["op"], _ = quantize_activation_node(fn, kind.upper() if rng.random() < .5 else kind, data, Quantization(name), node)
                o = box["op"].outputs[0]
                return o.scale, o.zero_point
            if tr.lut(i, kind, fn, attach, out="next"):
                out = tr.new(box["op"].outputs[0])
        else:
            fn, os_, oz = FNS[fname], sc(rng, exact), gens.zeropoint(rng, sg, b)
            tr.lut(i, fname, fn, lambda: (node.with_lut(fn, os_, oz), (os_, oz))[1])
    tr.obs(i)
    tensor = isinstance(node, NodeTensorTensor)
    for op in ops:
        if op in ("update", "defer"):
            s = s0 if rng.random() < .1 else sc(rng, exact)
            z = gens.zeropoint(rng, sg, b)
            if forms: s, z = np.float64(s), np.int64(z)
            tr.update(i, s, z, op == "update")
        elif op == "reset_s": tr.reset(i, "ResetScale")
        elif op == "reset_z": tr.reset(i, "ResetZp")
        elif op == "reset_r" and tensor: tr.reset(i, "ResetRounding")
        elif op == "policy" and tensor:
            tr.policy(i, ctx.np.integers(0, 2, size=node.fp_tensor.shape))
        elif op == "badpolicy" and tensor:
            shp = node.fp_tensor.shape
            tr.policy(i, np.zeros(rng.choice([shp + (2,), (7,), (1, 1, 1, 1)]), dtype=int))
        elif op == "tablepolicy" and node.LUT is not None:
            tr.lut_policy(i, ctx.np.integers(0, 2, size=len(node.LUT)))
        elif op == "mutate":            # the caller's own array, changed and set again
            for ok, how, n in ((tensor, tr.policy, lambda: node.fp_tensor.shape), (node.LUT is not None, tr.lut_policy, lambda: len(node.LUT))):
                if ok:
                    pol = ctx.np.integers(0, 2, size=n())
                    how(i, pol)
                    tr.obs(i)
                    if pol.ndim: pol[...] = ctx.np.integers(0, 2, size=pol.shape)
                    how(i, pol)
        elif op in ("out", "outdefer") and out:
            tr.update(out, sc(rng, exact), gens.zeropoint(rng, sg, b), op == "out")
        elif op == "hook": tr.hook(i)
        elif op == "hooks":
            for _ in range(12): tr.hook(i)
        elif op == "keep": tr.keep(i)
        elif op == "restore": tr.restore(i)
        elif op == "flags": tr.flags(i, rng.random() < .5, rng.random() < .5, rng.random() < .3)
        else: continue
        tr.obs(i)
        if out and rng.random() < 0.4: tr.obs(out)


def run(ctx):
    rec = Rec()
    inv = ["Current", "OneStep", "OnlyDeferred"]
    g = ctx.gen("NodeMC", dict(MaxLen=3), spec_name="Spec", inv=inv, post="Emit", workers=4)["h"]
    ctx.mc("NodeMC", dict(MaxLen=6 if ctx.thorough else 4), spec_name="Spec", inv=inv, workers=8, view="View" if ctx.thorough else None)
    rng = ctx.rng
    g = [h for h in g]
    for h in (g if ctx.thorough else rng.sample(g, 300)):
        rec.scenario(lambda emit: history(ctx, h, emit))
    ops = ["update", "update", "defer", "reset_s", "reset_z", "policy", "badpolicy", "reset_r", "tablepolicy", "out", "outdefer", "hook", "hooks", "flags", "keep", "policy", "tablepolicy", "restore", "mutate"]
    for _ in range(600 if ctx.thorough else 270):
        rec.scenario(lambda emit: history(ctx, [rng.choice(ops) for _ in range(rng.randrange(4, 14))], emit))
    for _ in range(200 if ctx.thorough else 90):
        rec.scenario(lambda emit: history(ctx, ["keep", rng.choice(["policy", "tablepolicy"]), rng.choice(["tablepolicy", "update", "reset_s", "policy"]), "restore", "update", "hooks", "update"], emit))
    ctx.validate("NodeTrace", rec.scenarios, step="NStep", start="NoNode")
    ctx.assumptions += ["integers are claimed once requantised after a deferred update", "tables of types of up to 8 bits; tanh and sigmoid tables are judged against the recorded function values"]
