"""C13: the gate recurrence (spec/Lstm.tla JLstm): every intermediate tensor of every step against the ones it is computed from."""
from ecommon import *
import lstmgen
from itcl_inference_engine.layers.itclq.lstm import LSTM


def lstm_event(o, x, ret, layer=None):
    before = A(x)
    ok, layer = (True, layer) if layer is not None else attempt(lambda: build_layer(load(o)))
    e = {"ev": "Lstm", "op": enc_op(o), "ret": ret, "x": before, "ok": False, "y": ERR, "inter": {}, "after": before}
    if not ok:
        return e
    ok, y = attempt(lambda: layer.infer(x))
    if not ok:
        return e
    bc = lambda a: A(np.broadcast_to(np.asarray(a), (x.shape[0], np.shape(a)[-1])) if np.ndim(a) == 2 and np.shape(a)[0] == 1 else a)

    def inter():
        t = layer.intermediate_tensors
        return {"ba": [[bc(g) for g in st] for st in t.bias_add], "ra": [[bc(g) for g in st] for st in t.recurrent_add],
                "gate": [[bc(g) for g in st] for st in zip(t.input_gate_act, t.forget_gate_act, t.cell_gate_act, t.output_gate_act)],
                "cs": [bc(c) for c in t.cell_state], "ca": [bc(c) for c in t.cell_state_act], "hs": [bc(h) for h in t.hidden_state]}
    oki, it = attempt(inter)
    e.update(ok=oki, y=A(y), after=A(x), inter=it if oki else {})
    return e


def run(ctx):
    rec = Rec()
    rng = ctx.rng
    hist = ctx.gen("LstmMC", dict(MaxSteps=3, MaxCalls=1), spec_name="Spec", inv=["InRange", "Causal", "Restart", "Judged"], post="Emit", workers=4)
    ctx.mc("LstmMC", dict(MaxSteps=3, MaxCalls=2), spec_name="Spec", inv=["InRange", "Causal", "Restart", "Judged"], workers=4)
    for calls in hist:              # every sequence of the model, on small-type layers
        o = lstmgen.lstm_op(rng, 1, 1, True, True, small=True)
        def f(emit):
            layer = build_layer(load(o))
            for xs in calls:
                emit(lstm_event(o, np.array(xs, dtype=rng.choice([np.int8, np.int64])).reshape(1, -1, 1) * 2, True, layer))
        rec.scenario(f)
    for _ in range(1500 if ctx.thorough else 468):
        d, u = rng.choice([(1, 1), (1, 2), (2, 2), (3, 2), (2, 3)])
        n, T = rng.choice([(1, 1), (1, 3), (2, 2), (1, 5), (3, 2)])
        if rng.random() < .06:          # long sequences, many rows, many cells
            (d, u), (n, T) = rng.choice([((1, 1), (1, 40)), ((1, 2), (1, 17)), ((2, 9), (1, 3)), ((9, 1), (2, 2)), ((1, 1), (20, 2)), ((1, 17), (1, 1)), ((1, 1), (1, 70))])
        ret = rng.random() < 0.6
        o = lstmgen.lstm_op(rng, d, u, ret, wide=rng.random() < .15)

        def f(emit):
            layer = build_layer(load(o))
            for _ in range(rng.choice([1, 2])):
                x = lstmgen.lstm_inputs(rng, o, (n, T, d))
                dt = o["inputs"][0]["tensor"]["dtype"].lower()
                emit(lstm_event(o, x.astype(rng.choice([dt, np.int64, np.int32])) if dt.endswith("16") else cast(rng, x, True, 8), ret, layer))
        rec.scenario(f)
    ctx.validate("LstmTrace", rec.scenarios, step="LStep", start="NoLayer")
    ctx.assumptions += ["each requantisation may give either neighbouring integer (the code truncates); binary64 slack 2^-40", "the four recurrent sums share one integer type, as the quantiser writes them"]
