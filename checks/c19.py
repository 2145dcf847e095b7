"""C19: rounding optimisation (spec/Search.tla, RoundMC.tla)."""
from scommon import *
from itcl_quantizer.equalizers.adaround.annealer import RoundingAnnealer  # noqa: E402
from itcl_quantizer.equalizers.adaround import AdaroundNet  # noqa: E402
from itcl_quantizer.equalizers.adaround.adaround import AdaRound  # noqa: E402
from itcl_inference_engine.network.sequential import SequentialNetwork  # noqa: E402
from itcl_quantizer.config.models.keras import RoundingAnnealerCfg, RoundingMinimaCfg  # noqa: E402
from itcl_quantizer.tensor_extractor.keras.layers import KerasLSTM  # noqa: E402


def pols(neigh):
    return [I(p) for p in neigh]


class Watch:
    def __init__(self, emit, cap=3000):
        self.emit, self.on, self.count, self.cap = emit, False, 0, cap

    def wrap(self, opt, applied=None, cover=False, fresh=None):
        """record one optimiser: what it is given, every evaluation and what it returns"""
        w = self
        given = {}
        set_cost, set_neigh, optimize = opt.set_cost_fn, opt.set_initial_neigh, opt.optimize

        def cost_fn(fn):
            def g(neigh):
                v = fn(neigh)
                w.count += 1
                if w.count > w.cap:
                    raise RuntimeError("the optimisation does not end")
                if w.on:
                    w.emit({"ev": "REval", "pols": pols(neigh), "loss": D(v), "hasapplied": applied is not None, "applied": pols(applied(neigh)) if applied else [], "hasfresh": fresh is not None, "fresh": D(fresh() if fresh else 0)})
                return v
            set_cost(g)
            return opt

        def initial(neigh):
            given["neigh"] = list(neigh)
            w.emit({"ev": "RStart", "pols": pols(neigh)})
            set_neigh(neigh)
            return opt

        def run():
            w.on, w.count = True, 0
            ok, r = attempt(optimize)
            w.on = False
            w.ret = r
            w.given = given["neigh"]
            w.ok = bool(ok and isinstance(r, tuple) and len(r) == 2)
            w.end = {"ev": "REnd", "ok": w.ok, "pols": pols(r[0]) if w.ok else [], "hascost": w.ok, "cost": D(r[1] if w.ok else 0), "given": pols(given["neigh"]), "cover": cover}
            if not w.ok:
                w.finish(None, None)
                raise RuntimeError("optimiser failed")
            return r
        opt.set_cost_fn, opt.set_initial_neigh, opt.optimize = cost_fn, initial, run
        return opt

    def finish(self, applied, reloss):
        e = self.end
        e.update(hasapplied=applied is not None, applied=pols(applied) if applied is not None else [], hasre=reloss is not None, reloss=D(reloss if reloss is not None else 0))
        self.emit(e)
        self.end = None


def make(rng, steps=None, retries=None):
    k = rng.random()
    retries = rng.choice([0, 1, 5, 20]) if retries is None else retries
    if k < .25:
        return RoundingMinimaCfg(max_retries=retries).build()
    if k < .4:
        return RoundingAnnealerCfg(steps=steps or rng.choice([1, 3, 20]), max_retries=retries, t_min=.1, t_max=rng.choice([.1, 5, 25000])).build()
    return RoundingAnnealer(t_min=rng.choice([.01, .1]), t_max=rng.choice([.5, 100, 25000]), updates=0, steps=steps or rng.choice([1, 2, 5, 30]), max_retries=retries)


SHAPES = [(1,), (2,), (5,), (2, 2), (3, 2), (2, 3), (1, 4), (4, 1), (2, 1, 2), (2, 2, 2)]


def bare(ctx, emit, script=None, cover=False):
    """the optimiser alone on a cost function of the bits"""
    rng = ctx.rng
    shapes = [rng.choice(SHAPES) for _ in range(rng.choice([1, 1, 2, 3]))]
    neigh = [ctx.np.integers(0, 2, size=s) for s in shapes]
    w = Watch(emit)
    memo, off, unit = {}, rng.choice([0, 0, 0, -1, -3]), rng.choice([1, 1, 1, 2.0 ** -45, 2.0 ** 30])
    kind = "script" if script is not None else "flat" if cover else rng.choice(["count", "target", "random", "negative", "zero"])
    target = [ctx.np.integers(0, 2, size=s) for s in shapes]

    def cost(n):
        k = tuple(tuple(np.asarray(t).reshape(-1).tolist()) for t in n)
        if k not in memo:
            if kind == "script": memo[k] = float(script[len(memo)] + off) if len(memo) < len(script) else 50.0 + len(memo)
            elif kind == "flat": memo[k] = rng.choice([0.0, 1.0, -2.0]) if not memo else next(iter(memo.values()))
            elif kind == "count": memo[k] = float(sum(map(sum, k)))
            elif kind == "target": memo[k] = float(sum(np.sum(a != b) for a, b in zip(n, target)))
            elif kind == "random": memo[k] = rng.random()
            elif kind == "negative": memo[k] = rng.uniform(-5, 1)
            else: memo[k] = max(0.0, float(sum(map(sum, k))) - 2)
            if kind != "flat": memo[k] *= unit
        return memo[k]
    if cover:
        opt = RoundingAnnealer(t_min=.1, t_max=10, updates=0, steps=60 * max(int(np.prod(s)) for s in shapes), max_retries=5)
    else:
        opt = make(rng, steps=rng.choice([1, 2, 4]) if script is not None else None, retries=rng.choice([0, 1, 3]) if script is not None else None)
    w.wrap(opt, cover=cover)
    opt.set_cost_fn(cost)
    opt.set_initial_neigh(neigh)
    with quiet():
        r = opt.optimize()
    w.finish(None, cost(r[0]))


def direct(ctx, emit):
    """AdaRound on tensor nodes and tables"""
    rng = ctx.rng
    ops = []
    for _ in range(rng.choice([1, 2, 3])):
        s, z = gens.scale(rng), rng.choice([0, 0, 3, -8])
        base = NodeTensorBase(s, z, "n", Quantization("int4"))
        if rng.random() < .25:
            ops.append(base.with_lut(np.tanh, .125, 0).LUT)
        else:
            sh = rng.choice(SHAPES)
            ops.append(base.with_tensor((ctx.np.normal(size=sh) * 5 * s)))
    tgt = [ctx.np.normal(size=np.shape(o.rounding_policy)) for o in ops]

    def cost():
        return float(sum(np.sum(o.rounding_policy * t) for o, t in zip(ops, tgt)))
    w = Watch(emit)
    opt = w.wrap(make(rng), applied=lambda neigh: [o.rounding_policy for o in ops])
    with quiet():
        ret = AdaRound(opt, cost, None, None, None).round(ops)
    w.finish([o.rounding_policy for o in ret], cost())


def candidates(r):
    out = []
    for o in r.operators or []:
        out += [t for t in o.inputs if isinstance(t, NodeTensorTensor)]
        out += [t.LUT for t in o.inputs if t.LUT is not None]
    return out


def network(ctx, emit):
    """AdaroundNet on real quantised networks of dense layers, or with a recurrent layer"""
    rng = ctx.rng
    if rng.random() < .3:
        u, d, T_ = rng.choice([1, 2]), rng.choice([1, 2]), 2
        npr = ctx.np
        lay = ks.LSTM(kernel=npr.normal(size=(d, 4 * u)), recurrent=npr.normal(size=(u, 4 * u)) * .5, bias=npr.normal(size=4 * u) * .3)
        x = npr.normal(size=(3, T_, d)).astype(np.float32)
        ki = KerasInput(Quantization("int8"))
        res = [ki.quantize(QuantizationResult(x, None, None, ki))]
        with quiet():
            res.append(KerasLSTM(lay).quantize(res[-1]))
            res.append(Dequantize().quantize(res[-1]))
        ref = None
    else:
        res, model, x = dense_net(ctx, rows=2)
        ref = model(x)
    net = Network(res)
    kind = rng.choice(["mse", "coarse", "zero", "neg"])

    def raw(n):
        y = np.asarray(n.infer(x) if ref is None else [n.infer(v) for v in x], dtype=float)
        e = float(np.mean((y.reshape(ref.shape) - ref) ** 2)) if ref is not None else float(np.abs(y - .1).sum())
        return {"mse": e, "coarse": float(round(e, 2)), "zero": max(0.0, float(round(e, 3)) - .01), "neg": e - 1}[kind]
    w = Watch(emit)
    state = {"r": None}
    orig = {}
    for r in res:
        for c in candidates(r):
            orig[id(c)] = c

    def match(neigh):
        """the policies now applied to the tensors of the layer being optimised, in the optimiser's order"""
        return [next((c.rounding_policy for c in orig.values() if np.shape(c.rounding_policy) == np.shape(p) and np.array_equal(c.rounding_policy, p)), np.array([9])) for p in neigh]

    def fresh():
        return raw(SequentialNetwork(Network(res).as_json()))

    def factory():
        if getattr(w, "end", None):
            close()
        return w.wrap(make(rng, steps=rng.choice([1, 4, 10]), retries=rng.choice([0, 3, 8])), applied=match, fresh=fresh)

    def close():
        w.finish(match(w.ret[0]), fresh())
    with quiet():
        AdaroundNet(net, raw, factory).round()
        if getattr(w, "end", None):
            close()


def run(ctx):
    rec = Rec()
    rng = ctx.rng
    random.seed(f"C19:{ctx.seed}")
    inv = ["BestIsMin", "NoWorse", "EndsOnBest", "Binary"]
    k = dict(Costs={0, 1, 2}, Retries=1)
    g = ctx.gen("RoundMC", dict(k, Steps=1, MaxEvals=4), subst={"Sizes": "S1"}, spec_name="Spec", inv=inv, post="Emit", workers=4)["h"]
    ctx.mc("RoundMC", dict(k, Steps=2, MaxEvals=6 if ctx.thorough else 5), subst={"Sizes": "S2"}, spec_name="Spec", inv=inv, workers=8)
    for h in g:
        rec.scenario(lambda emit: bare(ctx, emit, script=h))
    for _ in range(1500 if ctx.thorough else 840):
        rec.scenario(lambda emit: bare(ctx, emit))
    for _ in range(210 if ctx.thorough else 105):
        rec.scenario(lambda emit: bare(ctx, emit, cover=True))
    for _ in range(400 if ctx.thorough else 294):
        rec.scenario(lambda emit: direct(ctx, emit))
    for _ in range(150 if ctx.thorough else 125):
        rec.scenario(lambda emit: network(ctx, emit))
    ctx.validate("SearchTrace", rec.scenarios, step="SStep", start="NoSearch")
    ctx.assumptions += ["cost functions are deterministic and finite", "that every element can be flipped is observed on long runs with a constant cost (missing one by chance has probability below 1e-20)"]
