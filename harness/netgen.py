"""Random network files for the engines: layers chained so that each records the parameters of the node it reads."""
import math
from ecommon import *


def random_net(rng, eng, d, depth=None, quant=True, lstm=False):
    depth = depth or rng.choice([1, 2, 3])
    ops = []
    if eng == "TFLITE":
        s, z, t = rng.choice([2.0 ** -5, 0.03]), rng.choice([0, -5, 10, -128]), (True, 8)
        if lstm:
            import lstmgen
            rec = lstmgen.lstm_op(rng, d, rng.choice([1, 2, 3]), False)
            while enc_t(rec["outputs"][0]["tensor"]["dtype"]) != {"signed": True, "bits": 8}:
                rec = lstmgen.lstm_op(rng, d, rng.choice([1, 2, 3]), False)
            s, z = rec["inputs"][0]["scale"], rec["inputs"][0]["zero_point"]
        inp = node(s, z, "int8")
        if quant:
            ops.append(op("QUANTIZE", [node(None, None, "float32")], [node(s, z, "int8")], "quantize_0"))
        if lstm:
            ops.append(rec)
            s, z = rec["outputs"][0]["scale"], rec["outputs"][0]["zero_point"]
            d = len(rec["inputs"][5]["tensor"]["tensor"])
        for k in range(depth):
            u = rng.choice([1, 2, 4, 5])
            o = fc(rng, d, u, in_t=t, out_t=(True, 8), in_s=s, in_z=z, name=f"dense_{k}", wzp=0)
            ops.append(o)
            s, z, d = o["outputs"][0]["scale"], o["outputs"][0]["zero_point"], u
            a = rng.choice(["TANHLUT", "SIGMOIDLUT", "RELU", "TANH", "LOGISTIC", None])
            if a == "RELU":
                s2, z2 = s * rng.choice([0.5, 1.0]), rng.choice([-128, 0])
                ops.append(op("RELU", [node(s, z)], [node(s2, z2)], f"relu_{k}"))
                s, z = s2, z2
            elif a in ("TANH", "LOGISTIC"):
                s2, z2 = (1 / 128, 0) if a == "TANH" else (1 / 256, -128)
                ops.append(op(a, [node(s, z)], [node(s2, z2)], f"{a.lower()}_{k}"))
                s, z = s2, z2
            elif a:
                o = table_op(rng, a, reduced=rng.choice([None, (2, True), (4, False)]))
                o["name"] = f"act_{k}"
                o["inputs"][0]["scale"], o["inputs"][0]["zero_point"] = s, z
                ops.append(o)
                s, z = 1 / 128, 0
        if rng.random() < 0.3:
            ops.append(op("SOFTMAX", [node(s, z)], [node(1 / 256, -128)], "softmax"))
        if rng.random() < 0.8:
            ops.append(op("DEQUANTIZE", [node(s, z)], [node(None, None, "float32")], "dequantize"))
        return network(rng.choice(["TFLITE", "tflite", "TfLite"]), ops, inp, node(s, z))
    s, z = rng.choice([2.0 ** -5, 0.03]), rng.choice([0, 128, 17])
    inp = node(s, z, "uint8")
    ops.append(op("QuantizeLinear", [node(s, z, "uint8")], [], "QuantizeLinear_0"))
    for k in range(depth):
        u = rng.choice([1, 2, 4])
        o = qmm(rng, d, u)
        o["inputs"][0]["scale"], o["inputs"][0]["zero_point"] = s, z
        o["inputs"][2]["scale"] = s * o["inputs"][1]["scale"] * 128 * 64
        ops.append(o)
        s, z, d = o["inputs"][2]["scale"], o["inputs"][2]["zero_point"], u
        if rng.random() < 0.7:
            o = qadd(rng, (u,))
            o["inputs"][0]["scale"], o["inputs"][0]["zero_point"] = s, z
            o["inputs"][2]["scale"] = s * 2
            ops.append(o)
            s, z = o["inputs"][2]["scale"], o["inputs"][2]["zero_point"]
        a = rng.choice(["QLinearSigmoid", "TanhLUT", "SigmoidLUT", None])
        if a == "QLinearSigmoid":
            ops.append(op(a, [node(s, z, "uint8"), node(1 / 256, 0, "uint8")], []))
            s, z = 1 / 256, 0
        elif a:
            ops.append(table_op(rng, a, False, 8, rng.choice([None, (2, True)])))
            s, z = 1 / 128, 0
    if rng.random() < 0.9:
        ops.append(op("DequantizeLinear", [node(s, z, "uint8")], []))
        if rng.random() < 0.6:
            ops.append(op(rng.choice(["Softmax", "Tanh"]), [], []))
    return network(rng.choice(["ONNX", "onnx", "Onnx"]), ops, inp, node(s, z, "uint8"))
