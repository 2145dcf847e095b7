"""Recording optimisation runs (C18, C19)."""
import random
from ncommon import *
from vlib import quiet, I
import keras_stub as ks
from itcl_quantizer.tensor_extractor.keras.layers import KerasDense, KerasInput, KerasLSTM, Dequantize  # noqa: E402
from itcl_quantizer.tensor_extractor.abstract_layer import QuantizationResult  # noqa: E402
from itcl_quantizer.util.network import Network  # noqa: E402

REF = {"tanh": np.tanh, "sigmoid": lambda v: 1 / (1 + np.exp(-v))}


def dense_net(ctx, n=None, acts=("linear", "linear", "relu", "tanh", "sigmoid"), d=None, rows=None, rec=False):
    """real dense layers (with rec, the first is recurrent: the engine's dense layers take no sequences), quantised, with input and dequantisation; returns (results, float model function, samples)"""
    rng, npr = ctx.rng, ctx.np
    n = n or rng.choice([1, 2])
    d = d or [rng.randint(1, 3) for _ in range(n + 1)]
    x = npr.normal(size=(rows or rng.choice([2, 4]), d[0])).astype(np.float32) * rng.choice([0.2, 1, 20])
    at = 0 if rec else -1
    if rec: x = np.stack([x, x[::-1] * .5, -x][:rng.choice([1, 2, 3])], 1)
    ki = KerasInput(Quantization("int8"))
    res = [ki.quantize(QuantizationResult(x, None, None, ki))]
    lays = []
    for k in range(n):
        if k == at:
            u = d[k + 1]
            lay = ks.LSTM(kernel=npr.normal(size=(d[k], 4 * u)), recurrent=npr.normal(size=(u, 4 * u)), bias=npr.normal(size=4 * u) * rng.choice([0, .3]), return_sequences=False)
            lays.append(lay)
            res.append(KerasLSTM(lay).quantize(res[-1]))
            continue
        K = npr.normal(size=(d[k], d[k + 1])) * 10.0 ** rng.uniform(-1, .5)
        B = None if rng.random() < 0.2 else npr.normal(size=d[k + 1]) * rng.choice([0, .3, 3])
        lay = ks.Dense(kernel=K, bias=B, activation=rng.choice(acts))
        lays.append(lay)
        res.append(KerasDense(lay, kernel_symmetric=rng.random() < .5, bias_dtype=rng.choice(["int32", "int32", "int16"])).quantize(res[-1]))
    res.append(Dequantize().quantize(res[-1]))

    def model(v):
        for lay in lays:
            v = np.asarray(lay.call(v))
        return v
    return res, model, x


def derived(res, luts=True):
    """parameters and derived data of all dense layers"""
    ts, bs, us, seen = [], [], [], set()
    for r in res:
        for o in r.operators or []:
            if "FULLY" in o.as_json()["op_type"]:
                i, k, b = o.inputs[:3]
                bs.append({"s": D(b.scale), "z": D(b.zero_point), "si": D(i.scale), "sk": D(k.scale)})
            elif len(o.inputs) > 30:
                for g in range(4):
                    b = o.inputs[9 + g]
                    bs.append({"s": D(b.scale), "z": D(b.zero_point), "si": D(o.inputs[0].scale), "sk": D(o.inputs[1 + g].scale)})
            for nd in list(o.inputs) + list(o.outputs):
                if id(nd) in seen:
                    continue
                seen.add(id(nd))
                if isinstance(nd, NodeTensorTensor):
                    ts.append({"s": D(nd.scale), "z": D(nd.zero_point), "t": tparse(nd.quant.dtype_str()), "x": A(nd.fp_tensor), "pol": A(nd.rounding_policy), "q": A(nd.quantized)})
            tabs = []
            if luts and len(o.inputs) > 30:
                tabs = [(o.inputs[22 + 2 * k], o.inputs[23 + 2 * k], "tanh" if k in (2, 4) else "sigmoid") for k in range(5)]
            elif luts and o.inputs and o.inputs[0].LUT is not None and "FULLY" not in o.as_json()["op_type"]:
                tabs = [(o.inputs[0], o.outputs[0], "tanh" if "tanh" in o.as_json()["op_type"].lower() else "sigmoid")]
            for nd, out, fn in tabs:
                q = np.arange(nd.quant.min_value(), nd.quant.max_value() + 1)
                us.append({"t": tparse(nd.quant.dtype_str()), "s": D(nd.scale), "z": D(nd.zero_point), "fn": fn, "os": D(out.scale), "oz": D(out.zero_point), "pol": A(nd.LUT.rounding_policy),
                           "lut": enc_lut(nd.LUT), "ref": A(REF[fn]((q - nd.zero_point) * np.float64(nd.scale)))})
    return {"tensors": ts, "bias": bs, "luts": us}


NONE = {"tensors": [], "bias": [], "luts": []}
