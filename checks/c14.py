"""C14: causality, restart and range of the recurrent layer (spec/Lstm.tla JCall: facts from earlier calls bind later ones)."""
from ecommon import *
import lstmgen


def call_event(layer, x, ret):
    before = A(x)
    ok, y = attempt(lambda: layer.infer(x))
    return {"ev": "LCall", "ok": ok, "x": before, "y": A(y) if ok else ERR, "ret": ret, "after": A(x)}


def net_call(net, x, ret):
    before = A(x)
    ok, y = attempt(lambda: net.infer(x))
    return {"ev": "LCall", "ok": ok, "x": before, "y": A(y) if ok else ERR, "ret": ret, "after": A(x)}


def layers_for(rng, d, u, small=False, as_net=False):
    o = lstmgen.lstm_op(rng, d, u, True, None, small=small, wide=not small and not as_net and rng.random() < .2)
    o2 = json.loads(json.dumps(o))
    o2["attributes"]["return_sequences"]["value"] = [False]
    t = enc_t(o["outputs"][0]["tensor"]["dtype"])

    def make(op_, ret):
        if not as_net:
            layer = build_layer(load(op_))
            return lambda x: call_event(layer, x, ret)
        n = SequentialNetwork(load(network("TFLITE", [op("QUANTIZE", [node(None, None, "float32")], [node(op_["inputs"][0]["scale"], op_["inputs"][0]["zero_point"])], "quantize"), op_], node(1.0, 0), node(1.0, 0))))
        return lambda x: net_call(n, x.astype(np.float64) * op_["inputs"][0]["scale"], ret)
    return {"ev": "LNew", "t": t}, make(o, True), make(o2, False), o


def run(ctx):
    rec = Rec()
    rng = ctx.rng
    ctx.mc("LstmMC", dict(MaxSteps=3, MaxCalls=2), spec_name="Spec", inv=["InRange", "Causal", "Restart", "Judged"], workers=4)
    hist = ctx.gen("LstmMC", dict(MaxSteps=2, MaxCalls=2), spec_name="Spec", inv=["InRange", "Causal", "Restart"], post="Emit", workers=4)
    rng.shuffle(hist)
    for calls in hist:              # every history of the model: calls on one pair of layers
        def f(emit):
            new, seqs, last, _ = layers_for(rng, 1, 1, True)
            emit(new)
            for xs in calls:
                x = np.array(xs, dtype=np.int64).reshape(1, -1, 1) * 2
                for g in rng.choice([[seqs], [last], [seqs, last]]):
                    emit(g(x.copy()))
        rec.scenario(f)
    for _ in range(1500 if ctx.thorough else 864):
        def f(emit):
            d, u = rng.choice([(1, 1), (1, 2), (2, 2), (3, 2), (2, 4)])
            new, seqs, last, o = layers_for(rng, d, u, as_net=rng.random() < 0.25)
            emit(new)
            pool = []
            for _ in range(rng.choice([3, 4, 6])):
                n, T = rng.choice([1, 1, 2, 3]), rng.choice([1, 2, 3, 5, 7])
                if rng.random() < .05:
                    n, T = rng.choice([(1, 33), (2, 20), (17, 2), (40, 1), (1, 65), (1, 100)])
                k = rng.random()
                if pool and k < 0.75:
                    x = rng.choice(pool)
                    m = rng.random()
                    if m < 0.3 and x.shape[1] > 1:              # a prefix
                        x = x[:, :rng.randint(1, x.shape[1] - 1)]
                    elif m < 0.55:                              # another future
                        cut = rng.randint(1, x.shape[1])
                        x = np.concatenate([x[:, :cut], lstmgen.lstm_inputs(rng, o, (x.shape[0], rng.randint(1, 3), d))], axis=1)
                    elif m < 0.75:                              # one row, or rows in another order
                        r = list(range(x.shape[0]))
                        rng.shuffle(r)
                        x = x[r[:rng.randint(1, len(r))]]
                else:
                    x = lstmgen.lstm_inputs(rng, o, (n, T, d))
                pool.append(x)
                for g in rng.choice([[seqs], [last], [seqs, last], [last, seqs]]):
                    dt = o["inputs"][0]["tensor"]["dtype"].lower()
                    emit(g((x.astype(rng.choice([dt, np.int64])) if dt.endswith("16") else cast(rng, x, True, 8)).copy()))
        rec.scenario(f)
    ctx.validate("LstmTrace", rec.scenarios, step="LStep", start="NoLayer")
