"""C17: bias scales of dense and recurrent layers (spec/Node.tla Link/bias, DenseMC.tla)."""
from ncommon import *
from vlib import quiet
import keras_stub as ks
from itcl_quantizer.tensor_extractor.keras.layers import KerasDense, KerasInput, KerasLSTM  # noqa: E402
from itcl_quantizer.tensor_extractor.abstract_layer import QuantizationResult  # noqa: E402
from itcl_quantizer.equalizers.param_equalizer.bfs_equalizer import BFSEqualizer  # noqa: E402


def chain(ctx, n, rec=False):
    """n real layers one after the other, quantised; dense ones, with rec also recurrent ones"""
    rng, npr = ctx.rng, ctx.np
    d = [rng.randint(1, 4) for _ in range(n + 1)]
    kinds = ["dense"] * n
    if rec:
        for k in rng.sample(range(n), rng.randint(1, n)): kinds[k] = "lstm"
    x = npr.normal(size=(rng.choice([1, 5, 12]), d[0])).astype(np.float32) * rng.choice([0.1, 1, 20])
    if rec: x = np.stack([x, x * .5, -x][:rng.choice([1, 2, 3])], 1)
    ki = KerasInput(Quantization("int8"))
    res = [ki.quantize(QuantizationResult(x, None, None, ki))]
    for k in range(n):
        if kinds[k] == "lstm":
            seq = "lstm" in kinds[k + 1:] or rng.random() < .5
            u = d[k + 1]
            lay = ks.LSTM(kernel=npr.normal(size=(d[k], 4 * u)) * 10.0 ** rng.uniform(-1.5, .5), recurrent=npr.normal(size=(u, 4 * u)), bias=npr.normal(size=4 * u) * rng.choice([0, .3, 3]), return_sequences=seq)
            res.append(KerasLSTM(lay).quantize(res[-1]))
            continue
        K = npr.normal(size=(d[k], d[k + 1])) * 10.0 ** rng.uniform(-1.5, .5)
        B = None if rng.random() < 0.2 else npr.normal(size=d[k + 1]) * rng.choice([0, .3, 3])
        lay = ks.Dense(kernel=K, bias=B, activation=rng.choice(["linear", "linear", "relu", "tanh", "sigmoid"]))
        res.append(KerasDense(lay, kernel_symmetric=rng.random() < .5, bias_dtype=rng.choice(["int32", "int32", "int16"])).quantize(res[-1]))
    return res


def gates(op):
    """(kernel, bias) pairs of a layer"""
    return [(op.inputs[1], op.inputs[2])] if len(op.inputs) < 9 else [(op.inputs[1 + g], op.inputs[9 + g]) for g in range(4)]


def track(emit, res, pick=0):
    """register all nodes; returns (tracker, name -> id, ids of all biases)"""
    tr = Track(emit)
    ids, byid, biases = {}, {}, []

    def reg(key, node):
        if id(node) not in byid:
            byid[id(node)] = tr.new(node)
        ids[key] = byid[id(node)]
        return ids[key]
    reg(("in", 0), res[0].out_node)
    for l, r in enumerate(res[1:], 1):
        op = r.operators[0]
        i = reg(("input", l), op.inputs[0])
        gs = gates(op)
        for g, (kn, bn) in enumerate(gs):
            k, b = reg((f"kernel{g}", l), kn), reg((f"bias{g}", l), bn)
            emit({"ev": "Link", "b": b, "i": i, "k": k})
            biases.append(b)
        g = pick % len(gs)
        ids["kernel", l], ids["bias", l] = ids[f"kernel{g}", l], ids[f"bias{g}", l]
        reg(("pre", l), op.outputs[0] if len(gs) == 1 else op.inputs[5 + g])
        reg(("out", l), r.out_node)
    return tr, ids, biases


def history(ctx, n, ops, emit, rec=False):
    rng = ctx.rng
    res = chain(ctx, n, rec)
    tr, ids, biases = track(emit, res, rng.randrange(4))
    for b in biases:
        tr.obs(b)
    for op, kind, l in ops:
        i = ids[kind, l]
        node = tr.nodes[i]
        s = node.scale * 2.0 ** rng.randrange(-3, 4) if rng.random() < .4 else gens.scale(rng) * rng.choice([.01, 1])
        lo, hi = node.quant.min_value(), node.quant.max_value()
        z = 0 if kind == "kernel" else rng.randint(int(lo), int(hi))
        if op == "reset":
            tr.reset(i, rng.choice(["ResetScale", "ResetScale", "ResetZp"]))
        elif op == "policy":
            tr.policy(ids["bias", l or 1], ctx.np.integers(0, 2, size=tr.nodes[ids["bias", l or 1]].fp_tensor.shape))
        elif op == "bias":
            tr.update(ids["bias", l or 1], s, 0)
            # a bias given its own scale is back to the product with the next change of its input or kernel
            k = ids["kernel", l or 1]
            tr.update(k, tr.nodes[k].scale * 1.5, 0)
        elif op == "hook":
            tr.hook(i)
        else:
            tr.update(i, s, z, op == "update")
        for b in biases:
            tr.obs(b)
        if op in ("update", "reset") and rng.random() < .3 and not tr.nodes[i].LUT:
            tr.obs(i)


def searched(ctx, emit):
    """after a real parameter search over the layers' nodes"""
    rng = ctx.rng
    n = rng.randint(1, 3)
    res = chain(ctx, n, rng.random() < .4)
    cnt = [0]

    def loss():
        cnt[0] += 1
        return rng.random()
    nodes = [nd for r in res[1:] for nd in [k for k, _ in gates(r.operators[0])] + [o.outputs[0] for o in r.operators]]
    opt = BFSEqualizer(rng.choice([0, 1, 3]))
    limit = rng.randint(3, 15)
    with quiet():
        opt.set_cost_fn(lambda: loss() if cnt[0] < limit else 5.0).set_initial_neigh(nodes).optimize()
    tr = Track(emit)
    for inp, kn, bnode in [(r.operators[0].inputs[0], *g) for r in res[1:] for g in gates(r.operators[0])]:
        i, k = NodeTensorBase(inp.scale, inp.zero_point, "i", inp.quant), NodeTensorBase(kn.scale, 0, "k", kn.quant)
        a, c = tr.new(i), tr.new(k)
        b = len(tr.nodes) + 1
        tr.nodes[b], tr.hooks[b], tr.upd[b] = bnode, ([], []), [0, 0]
        base = NodeTensorBase(bnode.scale, 0, bnode.name, bnode.quant).with_tensor(bnode.fp_tensor)
        emit({"ev": "New", "id": b, "s": D(bnode.scale), "z": D(0), "t": tparse(bnode.quant.dtype_str()), "tensor": True, "x": A(bnode.fp_tensor), "pol": A(base.rounding_policy),
              "q": A(base.quantized), "name": bnode.name})
        emit({"ev": "Link", "b": b, "i": a, "k": c})
        # what the bias must be after the last change of either scale
        emit({"ev": "Update", "id": c, "s": D(k.scale), "z": D(0), "req": True, "ok": True})
        emit({"ev": "KeepPolicy", "id": b, "pol": A(bnode.rounding_policy)})
        tr.obs(b)


def run(ctx):
    rec = Rec()
    rng = ctx.rng
    g = ctx.gen("DenseMC", dict(Layers=2, MaxLen=2, Scales={2, 3}), spec_name="Spec", inv=["Product"], post="Emit", workers=4)["h"]
    ctx.mc("DenseMC", dict(Layers=3, MaxLen=4 if ctx.thorough else 3, Scales={2, 3}), spec_name="Spec", inv=["Product"], workers=8)
    for h in (g if ctx.thorough else rng.sample(g, min(len(g), 110))):
        rec.scenario(lambda emit: history(ctx, 2, h, emit))
    for k in range(1000 if ctx.thorough else 210):
        n = rng.choice([1, 2, 3])
        kinds = [("in", 0)] + [(j, l) for l in range(1, n + 1) for j in ("kernel", "out", "kernel", "pre")]
        ops = [(rng.choice(["update", "update", "defer", "reset", "policy", "bias", "hook"]), *rng.choice(kinds)) for _ in range(rng.randrange(3, 9))]
        rec.scenario(lambda emit: history(ctx, n, ops, emit, k % 3 == 0))
    for _ in range(150 if ctx.thorough else 60):
        rec.scenario(lambda emit: searched(ctx, emit))
    ctx.validate("NodeTrace", rec.scenarios, step="NStep", start="NoNode")
    ctx.assumptions += ["the product of scales is judged up to binary64 rounding", "layers of up to 4 units, chains of up to 3 layers"]
