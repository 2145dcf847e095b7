from qcommon import *
repo.use("quantizer")
from itcl_quantizer.quantizer.distributions.distribution import Distribution  # noqa: E402

T16 = [(True, 8), (False, 8), (True, 16), (False, 16), (True, 4), (False, 4), (True, 2), (True, 7), (False, 12), (True, 12), (False, 3)]


def subset(a, k=24):
    """the recorded samples: all, or the extremes and an even selection"""
    f = np.asarray(a).reshape(-1)
    if f.size <= k:
        return f
    o = np.argsort(f, kind="stable")
    return f[o[np.unique(np.linspace(0, f.size - 1, k).astype(int))]]


def calib_event(sg, b, name, a, scale, zp, ok, forced, sym, src, after=None):
    x = subset(a)
    e = {"ev": "Calib", "t": T(sg, b), "ok": bool(ok), "forced": forced, "sym": sym, "src": src, "f32": np.asarray(a).dtype == np.float32,
         "x": A(x), "after": A(subset(after if after is not None else a)), "s": D(scale) if ok else D(0), "z": D(zp) if ok else D(0), "q0": D(0), "q": A([])}
    if ok and scale > 0 and np.isfinite(scale):
        q = Quantization(name)
        e["q0"] = D(int(q.quantize(np.array([0.0]), zp, scale)[0]))
        e["q"] = A(q.quantize(x, zp, scale))
    return e


def samples(rng, nprng):
    """sample sets: every sign pattern, constants, zeros, singles, tiny and huge, duplicated extremes, skewed"""
    k = rng.randrange(14)
    n = rng.choice([1, 1, 2, 3, 5, 17, 60, 300])
    mag = 10.0 ** rng.uniform(-6, 6)
    a = nprng.normal(size=n) * mag
    if k == 0: a = np.abs(a)
    elif k == 1: a = -np.abs(a)
    elif k == 2: a = np.full(n, rng.choice([0.0, mag, -mag, 1.0, -1.0, 0.5, 1e-9]))
    elif k == 3: a = np.zeros(n)
    elif k == 4: a = np.abs(a) + 1000 * mag
    elif k == 5: a = -np.abs(a) - 1000 * mag
    elif k == 6: a = np.concatenate([a, [a.max()] * 3, [a.min()] * 3])
    elif k == 7: a = np.concatenate([np.zeros(n), [mag]])
    elif k == 8: a = np.concatenate([np.full(n, -mag), [mag * 1e-3]])
    elif k == 9: a = nprng.integers(-40, 41, size=n) / 8.0
    elif k == 10: a = np.concatenate([[-mag], np.full(n, mag)])
    elif k == 11: a = nprng.exponential(size=n) * mag - 0.1 * mag
    if rng.random() < 0.03 and k != 2:      # many samples
        m = rng.choice([3000, 6000, 20000, 140000])
        a = np.concatenate([a, nprng.choice(a, size=m) * rng.choice([0, .5, 1])])
        nprng.shuffle(a)
    if rng.random() < 0.3:
        a = a.astype(np.float32)
    if rng.random() < 0.25 and a.size % 2 == 0:
        a = a.reshape(2, -1)
    return a


def calibrate(rng, a, sg, b, name, mode, bins, src):
    before = np.array(a, copy=True)
    q = Quantization(name)
    fs = float(10.0 ** rng.uniform(-6, 4)) if mode in ("scale", "both") else None
    kw = {"free": {}, "zero": dict(force_zp=0), "sym": dict(force_zp=0, symmetric=True), "scale": dict(force_s=fs), "both": dict(force_zp=0, force_s=fs)}[mode]
    arg = a.tolist() if rng.random() < 0.1 and a.dtype == np.float64 else a
    ok, r = attempt(lambda: (Distribution(arg, bins) if bins else Distribution(arg)).quantize(q, **kw))
    s, z = r if ok else (0, 0)
    return {**calib_event(sg, b, name, before, s, z, ok, mode not in ("free", "scale"), mode == "sym", src, after=a), "fs": [] if fs is None else [D(fs)]}


def modes(rng, sg, a):
    m = ["free", "free", "zero"] * 5 + ["scale", "both"]
    if sg: m += ["sym"] * 5
    return rng.choice(m)


def layer_events(ctx, rec, n):
    """parameters chosen by the layer quantisers themselves"""
    import keras_stub as ks, tensorflow as tf
    from itcl_quantizer.tensor_extractor.keras.layers import KerasDense, KerasInput
    from itcl_quantizer.tensor_extractor.abstract_layer import QuantizationResult
    rng, npr = ctx.rng, ctx.np
    acts = ["linear", "tanh", "sigmoid", "relu", "relu6", "softmax"]
    for i in range(n):
        def f(emit):
            nin, nout = rng.randint(1, 5), rng.randint(1, 5)
            x = (npr.normal(size=(rng.choice([1, 4, 30]) if rng.random() > .04 else rng.choice([1500, 5000]), nin)) * 10.0 ** rng.uniform(-3, 3)).astype(np.float32 if rng.random() < .5 else np.float64)
            if len(x) > 99: x[-3:] *= 5          # extremes among the last samples
            if rng.random() < 0.1: x = np.zeros_like(x)
            K = npr.normal(size=(nin, nout)) * 10.0 ** rng.uniform(-2, 2)
            if rng.random() < 0.15: K = np.abs(K) * rng.choice([-1, 1])
            if rng.random() < 0.1: K = np.zeros_like(K)
            B = npr.normal(size=nout) * rng.choice([0, 1, 100])
            act = rng.choice(acts)
            # keep |pre-activation| moderate so that exp() stays finite
            peak = np.abs(x @ K + B).max()
            if act == "relu6":
                B = B + rng.choice([0, 0, 8, 30])
            elif peak > 40: K, B = K * (40 / peak), B * (40 / peak)
            lay = ks.Dense(kernel=K, bias=B, activation=act)
            K = lay.get_weights()[0]
            sym = rng.random() < 0.5
            ki = KerasInput(Quantization("int8"))
            r0 = ki.quantize(QuantizationResult(x, None, None, ki))
            n0 = r0.out_node
            emit(calib_event(True, 8, "int8", x, n0.scale, n0.zero_point, True, False, False, "input-layer"))
            kd = KerasDense(lay, kernel_symmetric=sym)
            r1 = kd.quantize(r0)
            fc = r1.operators[0]
            emit(calib_event(True, 8, "int8", K, fc.inputs[1].scale, fc.inputs[1].zero_point, True, True, sym, "dense-kernel"))
            pre = np.asarray(ks.Dense(kernel=K, bias=B).call(x))
            if act in ("linear", "tanh", "sigmoid", "softmax"):
                emit(calib_event(True, 8, "int8", pre, fc.outputs[0].scale, fc.outputs[0].zero_point, True, False, False, "dense-output"))
            elif act == "relu6":
                emit(calib_event(True, 8, "int8", np.clip(pre, 0, 6), fc.outputs[0].scale, fc.outputs[0].zero_point, True, False, False, "dense-relu6-output"))
            else:
                emit(calib_event(True, 8, "int8", np.maximum(pre, 0), fc.outputs[0].scale, fc.outputs[0].zero_point, True, False, False, "dense-relu-output"))
            if len(r1.operators) > 1:
                o = r1.operators[1].outputs[0]
                emit(calib_event(True, 8, "int8", np.asarray(lay.call(x)), o.scale, o.zero_point, True, False, False, "activation-output"))
        rec.scenario(f)


def recurrent_states(lay, x):
    """the true float states of a recurrent layer: pre-activations, gates, cell and hidden states, each (T, n, units)"""
    K, R, B = [np.asarray(w, dtype=np.float64) for w in lay.get_weights()]
    n, T, u = x.shape[0], x.shape[1], R.shape[0]
    h = c = np.zeros((n, u))
    sg = lambda v: 1 / (1 + np.exp(-v))
    out = {k: [] for k in "zgcth"}
    for t in range(T):
        z = np.asarray(x[:, t], dtype=np.float64) @ K + h @ R + B
        i, f, g, o = sg(z[:, :u]), sg(z[:, u:2 * u]), np.tanh(z[:, 2 * u:3 * u]), sg(z[:, 3 * u:])
        c = f * c + i * g
        h = o * np.tanh(c)
        for k, v in zip("zgcth", (z, np.concatenate([i, f, g, o], 1), c, np.tanh(c), h)):
            out[k].append(v)
    return {k: np.array(v).astype(np.float32) for k, v in out.items()}


def recurrent_events(ctx, rec, n):
    """parameters chosen for a recurrent layer and for the layer behind it"""
    import keras_stub as ks
    from itcl_quantizer.tensor_extractor.keras.layers import KerasDense, KerasInput, KerasLSTM
    from itcl_quantizer.tensor_extractor.abstract_layer import QuantizationResult
    rng, npr = ctx.rng, ctx.np
    for k in range(n):
        def f(emit):
            d, u, T, b = rng.choice([1, 2, 3]), rng.choice([1, 2, 3]), rng.choice([1, 2, 3, 5]), rng.choice([1, 3, 8])
            if k % 10 == 0: d, u, T, b = rng.choice([(1, 1, 300, 1), (2, 2, 70, 2), (1, 1, 2, 300)])
            seq = rng.random() < .3
            x = (npr.normal(size=(b, T, d)) * rng.choice([.1, 1, 1, 4]) + rng.choice([0, 0, 1, -2])).astype(np.float32)
            if k % 10 == 0: x[0, 0] *= 9        # the extremes come first
            lay = ks.LSTM(kernel=npr.normal(size=(d, 4 * u)) * rng.choice([.2, 1, 2]), recurrent=npr.normal(size=(u, 4 * u)) * rng.choice([.1, 1]), bias=npr.normal(size=4 * u) * rng.choice([0, .3, 1]), return_sequences=seq)
            st = recurrent_states(lay, x)
            ki = KerasInput(Quantization("int8"))
            r0 = ki.quantize(QuantizationResult(x, None, None, ki))
            r1 = KerasLSTM(lay).quantize(r0)
            o = r1.operators[0]
            i = o.inputs
            ev = lambda a, nd, sym=False: emit(calib_event(True, 8, "int8", np.asarray(a, dtype=np.float32), nd.scale, nd.zero_point, True, sym, sym, "recurrent"))
            K, R = lay.get_weights()[:2]
            for g in range(4):
                sl = slice(g * u, (g + 1) * u)
                ev(K[:, sl], i[1 + g])
                ev(R[:, sl], i[5 + g])
                ev(st["z"][:, :, sl], i[17 + g])
                ev(st["z"][:, :, sl], i[22 + 2 * g])
                ev(st["g"][:, :, sl], i[23 + 2 * g])
            ev(st["c"], i[21], True)
            ev(st["c"], i[30], True)
            ev(st["t"], i[31])
            ev(st["h"], o.outputs[0])
            hid = np.swapaxes(st["h"], 0, 1) if seq else st["h"][-1]
            act = rng.choice(["linear", "tanh", "sigmoid"])
            W, B = npr.normal(size=(u, 3)) * rng.choice([1, 10]), npr.normal(size=3) * rng.choice([0, 1])
            kd = ks.Dense(kernel=W, bias=B, activation=act)
            r2 = KerasDense(kd).quantize(r1)
            pre = hid.astype(np.float64) @ W.astype(np.float32) + B.astype(np.float32)
            ev(pre, r2.operators[0].outputs[0])
            post = {"linear": lambda v: v, "tanh": np.tanh, "sigmoid": lambda v: 1 / (1 + np.exp(-v))}[act](pre)
            if len(r2.operators) > 1:
                ev(post, r2.operators[1].outputs[0])
            W2 = npr.normal(size=(3, 2))
            r3 = KerasDense(ks.Dense(kernel=W2, bias=np.zeros(2))).quantize(r2)
            ev(post @ W2.astype(np.float32), r3.operators[0].outputs[0])
        rec.scenario(f)


def run(ctx):
    rec = Rec()
    rng = ctx.rng
    cases = ctx.gen("CalibMC", dict(NMax=12, MaxBits=4 if ctx.thorough else 3), init="MInit", next="MNext",
                    inv=["InRange", "Free", "Forced", "ZeroExact"], post="Emit", workers=4)
    for c in cases:
        xs = np.arange(-c["a"], c["b"] + 1) / 4.0
        for sg, b in [(True, 2), (True, 3), (False, 2), (False, 3), (True, 8), (False, 8)]:
            for mode in ("free", "zero", "sym") if sg else ("free", "zero"):
                if not sg and mode != "free" and c["a"]:
                    continue
                if b == 8 and rng.random() < 0.5: continue
                rec.one(calibrate(rng, xs, sg, b, gens.tname(sg, b), mode, rng.choice([None, 1, 3]), "model-grid"))
    for _ in range(6000 if ctx.thorough else 3779):
        sg, b = rng.choice(T16)
        a = samples(rng, ctx.np)
        mode = modes(rng, sg, a)
        rec.one(calibrate(rng, a, sg, b, gens.tspell(rng, sg, b), mode, rng.choice([None, None, None, 1, 2, 7, 64, 2048]), "random"))
    layer_events(ctx, rec, 400 if ctx.thorough else 251)
    recurrent_events(ctx, rec, 200 if ctx.thorough else 105)
    ctx.validate("CalibTrace", rec.scenarios, step="CStep")
    ctx.assumptions += ["types of up to 16 bits, sample magnitudes from 1e-9 to 1e9; symmetric calibration of signed types; slack: evaluating x/s in the samples' own float type"]
