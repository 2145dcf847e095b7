"""C18: parameter search (spec/Search.tla, SearchMC.tla)."""
from scommon import *
from itcl_inference_engine.network.sequential import SequentialNetwork  # noqa: E402
from itcl_quantizer.equalizers.param_equalizer.bfs_equalizer import BFSEqualizer  # noqa: E402
from itcl_quantizer.equalizers.param_equalizer.annealer import ParamEqAnnealer  # noqa: E402
from itcl_quantizer.equalizers.param_equalizer.param_equalizer import ParamEqualizerFullNet, ParamEqualizerNet  # noqa: E402


def pt(nodes):
    return [{"s": D(n.scale), "z": D(n.zero_point)} for n in nodes]


class Watch:
    """records one or more searches: evaluations are seen through the cost function, the rest through the public calls"""

    def __init__(self, emit, ctx, raw, data, fresh=None, p=0.2):
        self.emit, self.ctx, self.raw, self.data, self.fresh, self.p = emit, ctx, raw, data, fresh, p
        self.nodes, self.count = None, 0

    def loss(self, *net):
        v = self.raw(*net)
        self.count += 1
        if self.count > 2000:
            raise RuntimeError("the search does not end")
        if self.nodes is not None:
            d = self.data(False) if self.ctx.rng.random() < self.p else NONE
            f = self.fresh() if self.fresh and self.ctx.rng.random() < .3 else None
            self.emit({"ev": "SEval", "pt": pt(self.nodes), "loss": D(v), "hasfresh": f is not None, "fresh": D(f if f is not None else 0), **d})
        return v

    def factory(self, retries, reloss):
        watch = self
        rng = self.ctx.rng
        anneal = rng.random() < .4
        args = (rng.choice([.1, .1, .5]), rng.choice([.1, 10, 25000]), 10, rng.choice([0, 1, 3, 8, 20])) if anneal else (retries,)

        class Recorded(ParamEqAnnealer if anneal else BFSEqualizer):
            def set_initial_neigh(self, tensors):
                self.watched = list(tensors)
                return super().set_initial_neigh(tensors)

            def optimize(self):
                n = self.watched
                watch.emit({"ev": "SStart", "types": [tparse(t.quant.dtype_str()) for t in n], "pt": pt(n), "loss": D(reloss())})
                watch.nodes, watch.count = n, 0
                try:
                    ok, r = attempt(super().optimize)
                finally:
                    watch.nodes = None
                ret = ok and isinstance(r, tuple) and len(r) == 2
                watch.emit({"ev": "SEnd", "ok": ok, "pt": pt(n), "hascost": bool(ret), "cost": D(r[1] if ret else 0), "reloss": D(reloss()), **watch.data(True)})
                return r
        return lambda: Recorded(*args)


def key(nodes):
    return tuple((float(n.scale), int(n.zero_point)) for n in nodes)


def scripted(ctx, script, emit):
    """bare nodes; the i-th new point gets the i-th loss of the script"""
    rng = ctx.rng
    nodes = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        sg, b = rng.choice([(True, 8), (False, 8), (True, 4), (False, 2), (True, 16), (True, 32)])
        nd = NodeTensorBase(gens.scale(rng) * 10.0 ** rng.choice([-3, 0, 0, 3]), gens.zeropoint(rng, sg, b), "n", Quantization(gens.tname(sg, b)))
        if rng.random() < .7:
            nd = nd.with_tensor(np.clip(np.array(gens.reals(rng, nd.scale, nd.zero_point, sg, b, 3)), -1e7, 1e7))
        nodes.append(nd)
    memo = {}
    off, unit = rng.choice([0, 0, -1, 10]), rng.choice([1, 1, 1, 2.0 ** -45, 2.0 ** 30])

    def raw():
        k = key(nodes)
        if k not in memo:
            memo[k] = (float(script[len(memo)]) + off) * rng.choice([1, 1.0]) * unit if len(memo) < len(script) else (1000.0 + len(memo)) * unit
        return memo[k]

    def data(luts):
        return {"tensors": [{"s": D(n.scale), "z": D(n.zero_point), "t": tparse(n.quant.dtype_str()), "x": A(n.fp_tensor), "pol": A(n.rounding_policy), "q": A(n.quantized)}
                            for n in nodes if isinstance(n, NodeTensorTensor)], "bias": [], "luts": []}
    w = Watch(emit, ctx, raw, data, p=.5)
    opt = w.factory(rng.choice([0, 1, 2, 5]), raw)()
    with quiet():
        opt.set_cost_fn(w.loss).set_initial_neigh(nodes).optimize()


def network(ctx, emit):
    """the searches run on real quantised networks"""
    rng = ctx.rng
    res, model, x = dense_net(ctx, rec=rng.random() < .2)
    net = Network(res)
    ref = model(x)
    kind = rng.choice(["mse", "mse", "coarse", "params", "neg"])
    box = {}

    def raw(n=None):
        if kind == "params":
            return float(sum(abs(math.log(b.scale / 2)) + abs(b.zero_point - 3) for b in box.get("nodes", [])))
        y = np.stack([n.infer(v if x.ndim < 3 else v[None]) for v in x])
        e = float(np.mean((np.asarray(y, dtype=float).reshape(ref.shape) - ref) ** 2))
        if kind == "coarse": e = float(round(e, 2))
        if kind == "neg": e = -1.0 / (e + 1e-3)
        return e

    def fresh():
        return raw(SequentialNetwork(net.as_json()))
    w = Watch(emit, ctx, raw, lambda luts: derived(res, luts), fresh=fresh, p=.12)
    f = w.factory(rng.choice([0, 2, 6]), lambda: raw(net.as_sequential_network()))

    def factory():
        o = f()
        prev = o.set_initial_neigh

        def note(t):
            box["nodes"] = list(t)
            return prev(t)
        o.set_initial_neigh = note
        return o
    cls = rng.choice([ParamEqualizerFullNet, ParamEqualizerFullNet, ParamEqualizerNet])
    with quiet():
        cls(net, w.loss, factory).equalize()


import math  # noqa: E402


def run(ctx):
    rec = Rec()
    rng = ctx.rng
    random.seed(f"C18:{ctx.seed}")
    inv = ["BestIsMin", "NoWorse", "EndsOnBest", "InRange"]
    g = ctx.gen("SearchMC", dict(N=1, Smax=2, Zmax=2, Losses={0, 1, 2}, MaxRetries=1, MaxEvals=5), spec_name="Spec", inv=inv, post="Emit", workers=4)["h"]
    ctx.mc("SearchMC", dict(N=2, Smax=2, Zmax=2, Losses={0, 1, 2} if ctx.thorough else {0, 1}, MaxRetries=1, MaxEvals=5 if ctx.thorough else 4), spec_name="Spec", inv=inv, workers=8)
    ctx.mc("AnnealMC", dict(Points={0, 1, 2, 3}, Losses={0, 1, 2} if ctx.thorough else {0, 1}, Steps=5 if ctx.thorough else 4), spec_name="Spec", inv=["SeesNet", "BestIsMin", "NoWorse", "EndsOnBest"], workers=8)
    for h in g:
        rec.scenario(lambda emit: scripted(ctx, h, emit))
    for _ in range(1000 if ctx.thorough else 360):
        rec.scenario(lambda emit: scripted(ctx, [rng.choice([rng.randint(-2, 6), rng.random(), 0]) for _ in range(rng.randrange(1, 30))], emit))
    for _ in range(300 if ctx.thorough else 180):      # losses that overflow or are not a number
        rec.scenario(lambda emit: scripted(ctx, [rng.randint(-2, 6)] + [rng.choice([rng.randint(-3, 6), rng.random(), math.nan, math.inf]) for _ in range(rng.randrange(1, 20))], emit))
    for _ in range(400 if ctx.thorough else 150):
        rec.scenario(lambda emit: network(ctx, emit))
    ctx.validate("SearchTrace", rec.scenarios, step="SStep", start="NoSearch")
    ctx.assumptions += ["loss functions are deterministic and finite at the start (later losses may overflow or be no number; they are never the smallest)", "derived data is judged at a sample of the evaluated points and at the end of every search"]
