"""Drivers for tensor nodes (C16, C17)."""
import re
from qcommon import *
repo.use("quantizer")
from itcl_quantizer.tensor_extractor.tensor import NodeTensorBase, NodeTensorTensor  # noqa: E402

EMPTY = {"sh": [], "v": [], "ty": "i"}


def tparse(s):
    m = re.fullmatch(r"(u?)int(\d+)", str(s).lower())
    return T(not m.group(1), int(m.group(2))) if m else T(True, 1)


def enc_lut(l):
    return A(np.array([l[i] for i in range(len(l))])) if l is not None else ERR


def flags(node):
    """what the node leaves out of its description"""
    f = [getattr(node, a, None) for a in ("_exclude_batch_dimension", "_exclude_tensor", "_exclude_params")]
    if None in f:
        j = node.as_json()
        f = [len(j["tensor"]["shape"]) < np.ndim(node.fp_tensor), j["tensor"]["tensor"] is None, j["scale"] is None]
    return [bool(x) for x in f]


class Track:
    """drives nodes and records every operation and observation"""

    def __init__(self, emit):
        self.emit, self.nodes, self.hooks, self.upd = emit, {}, {}, {}
        self.fns = {}
        self.kept = {}
        emit({"ev": "Reset"})

    def new(self, node, name=None):
        i = len(self.nodes) + 1
        self.nodes[i] = node
        self.hooks[i] = ([], [])
        self.upd[i] = [0, 0]
        tensor = isinstance(node, NodeTensorTensor)
        self.emit({"ev": "New", "id": i, "s": D(node.scale), "z": D(node.zero_point), "t": tparse(node.quant.dtype_str()), "tensor": tensor,
                   "x": A(node.fp_tensor) if tensor else EMPTY, "pol": A(node.rounding_policy) if tensor else EMPTY,
                   "q": A(node.quantized) if tensor else EMPTY, "name": node.name})
        if tensor:
            exb, ext, exq = flags(node)
            self.emit({"ev": "Flags", "id": i, "exb": exb, "ext": ext, "exq": exq})
        return i

    def hook(self, i):
        h = {"calls": 0, "s": D(self.nodes[i].scale), "z": D(self.nodes[i].zero_point), "since": self.upd[i][0]}

        def f(n):
            h["calls"] += 1
            h["s"], h["z"] = D(n.scale), D(n.zero_point)
        r = {"calls": 0, "since": self.upd[i][1]}

        def g(n):
            r["calls"] += 1
        self.nodes[i].on_quant_param_update.append(f)
        self.nodes[i].on_requantize.append(g)
        self.hooks[i][0].append(h)
        self.hooks[i][1].append(r)

    def update(self, i, s, z, req=True):
        kw = {} if req else {"requantize": False}
        ok, _ = attempt(lambda: self.nodes[i].update_quant_parameters(s, z, **kw))
        self.upd[i][0] += 1
        self.upd[i][1] += 1 if req else 0
        self.emit({"ev": "Update", "id": i, "s": D(s), "z": D(z), "req": req, "ok": ok})

    def reset(self, i, what):
        fn = {"ResetScale": "reset_scale", "ResetZp": "reset_zp", "ResetRounding": "reset_rounding"}[what]
        ok, _ = attempt(lambda: getattr(self.nodes[i], fn)())
        if what != "ResetRounding":
            self.upd[i][0] += 1
            self.upd[i][1] += 1
        self.emit({"ev": what, "id": i, "ok": ok})

    def policy(self, i, pol):
        p = A(pol)
        ok, _ = attempt(lambda: setattr(self.nodes[i], "rounding_policy", pol))
        self.emit({"ev": "Policy", "id": i, "pol": p, "ok": ok})

    def keep(self, i):
        """remember the policies in force (the very objects the node hands out) and their values"""
        n = self.nodes[i]
        k = {}
        if isinstance(n, NodeTensorTensor): k["t"] = (n.rounding_policy, A(n.rounding_policy))
        if n.LUT is not None: k["l"] = (n.LUT.rounding_policy, A(n.LUT.rounding_policy))
        self.kept[i] = k

    def restore(self, i):
        """set the remembered policies again; what is expected is what they were when remembered"""
        k = self.kept.get(i, {})
        n = self.nodes[i]
        if "t" in k:
            ok, _ = attempt(lambda: setattr(n, "rounding_policy", k["t"][0]))
            self.emit({"ev": "Policy", "id": i, "pol": k["t"][1], "ok": ok})
        if "l" in k and n.LUT is not None:
            ok, _ = attempt(lambda: setattr(n.LUT, "rounding_policy", k["l"][0]))
            self.emit({"ev": "LutPolicy", "id": i, "pol": k["l"][1], "ok": ok})

    def ref(self, i):
        n = self.nodes[i]
        fn = self.fns.get(i)
        if fn is None or n.LUT is None:
            return EMPTY
        q = np.arange(n.quant.min_value(), n.quant.max_value() + 1)
        return A(np.asarray(fn((q - n.zero_point) * np.float64(n.scale)), dtype=np.float64))

    def lut(self, i, fname, fn, attach, out=0):
        """attach(): attaches the table to node i and returns (out scale, out zp)"""
        self.fns[i] = fn
        ok, o = attempt(attach)
        n = self.nodes[i]
        if not ok or n.LUT is None:
            self.emit({"ev": "Lut", "id": i, "fn": fname, "os": D(1), "oz": D(0), "pol": EMPTY, "out": 0, "ok": False, "lut": ERR, "lutref": EMPTY})
            return False
        if out == "next":
            out = len(self.nodes) + 1
        self.emit({"ev": "Lut", "id": i, "fn": fname, "os": D(o[0]), "oz": D(o[1]), "pol": A(n.LUT.rounding_policy), "out": out, "ok": True,
                   "lut": enc_lut(n.LUT), "lutref": self.ref(i)})
        return True

    def lut_policy(self, i, pol):
        ok, _ = attempt(lambda: setattr(self.nodes[i].LUT, "rounding_policy", pol))
        self.emit({"ev": "LutPolicy", "id": i, "pol": A(pol), "ok": ok})

    def flags(self, i, exb, ext, exq):
        n = self.nodes[i]
        if isinstance(n, NodeTensorTensor):
            n.exclude_batch_dimension(exb)
            n.exclude_tensor(ext)
        else:
            exb = ext = False
        n.exclude_quant_params(exq)
        self.emit({"ev": "Flags", "id": i, "exb": exb, "ext": ext, "exq": exq})

    def obs(self, i):
        n = self.nodes[i]
        tensor = isinstance(n, NodeTensorTensor)

        def read():
            j = n.as_json()
            jt = j["tensor"]
            jl = j["LUT"]
            return {"s": D(n.scale), "z": D(n.zero_point), "x": A(n.fp_tensor) if tensor else EMPTY, "q": A(n.quantized) if tensor else EMPTY, "v": A(n.dequantized) if tensor else EMPTY,
                    "calls": [[D(v), D(int(n.LUT(v)))] for v in sorted({n.quant.min_value(), n.quant.min_value() // 2, 0, n.quant.max_value()})] if n.LUT is not None else [],
                    "pol": A(n.rounding_policy) if tensor else EMPTY, "lut": enc_lut(n.LUT) if n.LUT is not None else ERR, "lutref": self.ref(i),
                    "hooks": [dict(h) for h in self.hooks[i][0]], "rhooks": [dict(h) for h in self.hooks[i][1]],
                    "j": {"s": D(j["scale"] if j["scale"] is not None else 0), "nos": j["scale"] is None, "z": D(j["zero_point"] if j["zero_point"] is not None else 0), "noz": j["zero_point"] is None,
                          "tensor": jt is not None, "dtype": tparse(jt["dtype"]) if jt else T(True, 1), "name": jt["name"] if jt else "", "shape": [int(v) for v in jt["shape"]] if jt else [],
                          "noq": bool(jt is None or jt["tensor"] is None), "q": A(np.array(jt["tensor"])) if jt and jt["tensor"] is not None else EMPTY,
                          "haslut": jl is not None, "lut": A(np.array(jl["LUT"])) if jl else ERR, "off": D(jl["offset"]) if jl else D(0)}}
        ok, r = attempt(read)
        self.emit({"ev": "Obs", "id": i, "ok": ok, **(r if ok else {})})
