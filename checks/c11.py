"""C11: a sample's result does not depend on its batch (spec/Engine.tla JBatch)."""
from ecommon import *
import lstmgen


def batch_event(what, infer_of, X, rng, keepdim=False):
    """infer_of() -> callable on arrays with a leading batch axis"""
    n = X.shape[0]
    perm = list(range(n))
    rng.shuffle(perm)
    other = X.copy()

    def go():
        f = infer_of()
        whole = np.array(f(X.copy()))
        one = [np.array(f(X[i:i + 1].copy())) for i in range(n)]
        p = np.array(f(other[perm].copy()))
        return whole, one, p
    ok, r = attempt(go)
    e = {"ev": "Batch", "what": what, "ok": ok, "perm": [i + 1 for i in perm]}
    if ok:
        e.update(whole=A(r[0]), one=[A(o) for o in r[1]], permuted=A(r[2]))
    return e


def run(ctx):
    rec = Rec()
    rng = ctx.rng
    ctx.gen("BatchMC", dict(N=3, K=2), spec_name="Spec", inv=["RowWise"], post="Emit", workers=4)
    for _ in range(1500 if ctx.thorough else 1404):
        n = rng.choice([1, 2, 3, 5, 8] * 8 + [40, 130])
        kind = rng.choice(["FC", "FC", "QMM", "QADD", "LUT", "TANH", "LOGISTIC", "RELU", "Softmax", "Softmax", "SOFTMAX", "QSIG", "QUANTIZE", "DEQUANTIZE", "NET", "NET", "LSTM", "LSTM", "ONNXNET"])

        def f(emit):
            d = rng.choice([1, 2, 4, 6])
            eng = "TFLITE"
            X = cast(rng, ints(rng, True, 8, (n, d)), True, 8)
            if kind == "FC":
                o = fc(rng, d, rng.choice([1, 3, 5]))
            elif kind == "QMM":
                eng, o, X = "ONNX", qmm(rng, d, rng.choice([1, 3])), cast(rng, ints(rng, False, 8, (n, d)), False, 8)
            elif kind == "QADD":
                eng, o, X = "ONNX", qadd(rng, (d,)), cast(rng, ints(rng, False, 8, (n, d)), False, 8)
            elif kind == "LUT":
                o = table_op(rng, "TANHLUT", reduced=rng.choice([None, (2, True), (3, False)]))
            elif kind in ("TANH", "LOGISTIC", "SOFTMAX"):
                o = op(kind, [node(0.05, zp(rng, True, 8))], [node(1 / 128, 0)])
            elif kind == "RELU":
                o = op(kind, [node(0.05, zp(rng, True, 8))], [node(0.1, zp(rng, True, 8))])
            elif kind == "Softmax":
                eng, o, X = "ONNX", op(kind, [], []), ctx.np.normal(size=(n, d)) * rng.choice([1, 10, 100])
            elif kind == "QSIG":
                eng, o, X = "ONNX", op("QLinearSigmoid", [node(0.05, 128, "uint8"), node(1 / 256, 0, "uint8")], []), cast(rng, ints(rng, False, 8, (n, d)), False, 8)
            elif kind == "QUANTIZE":
                o, X = op(kind, [node(None, None, "float32")], [node(0.1, 3)]), ctx.np.normal(size=(n, d)) * 5
            elif kind == "DEQUANTIZE":
                o = op(kind, [node(0.1, 3)], [node(None, None, "float32")])
            elif kind == "LSTM":
                steps = rng.choice([1, 2, 4])
                o = lstmgen.lstm_op(rng, d, rng.choice([1, 2, 3]), rng.random() < 0.5, rng.random() < 0.5)
                X = ints(rng, True, 8, (n, steps, d))
            if kind in ("NET", "ONNXNET"):
                eng = "TFLITE" if kind == "NET" else "ONNX"
                net = random_net(rng, eng, d)
                X = ctx.np.normal(size=(n, d)) * 2
                emit(batch_event("network " + eng, lambda: SequentialNetwork(load(net)).infer, X, rng))
            else:
                emit(batch_event(kind, lambda: builder(eng)(load(o)).infer, X, rng))
        rec.scenario(f)
    ctx.validate("EngineTrace", rec.scenarios, step="EStep", start="NoNet")


def random_net(rng, eng, d):
    import netgen
    return netgen.random_net(rng, eng, d)
