"""Stand-ins for solver, messaging and model-file packages: dimod, neal, greedy, dwave, qiskit, paho, onnx, tflite, pandas."""
import itertools, os, sys, types
import numpy as np


class _Any:
    """Placeholder class for names that are imported but never exercised."""
    def __init__(self, *a, **k): pass
    def __call__(self, *a, **k): return self
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        return _Any()


class _Lenient(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        return type(n, (_Any,), {})


def _mod(name, **attrs):
    m = _Lenient(name)
    m.__dict__.update(attrs)
    m.__path__ = []
    sys.modules[name] = m
    return m


class BinaryQuadraticModel:
    """Q(x) = sum h_i x_i + sum J_ij x_i x_j + offset over binary x; variables in order of first occurrence."""
    log = []           # every problem built
    def __init__(self, linear=None, quadratic=None, offset=0.0, vartype="BINARY", *a, **k):
        self.h, self.J, self.offset = dict(linear or {}), dict(quadratic or {}), offset
        self.variables = []
        for v in itertools.chain(self.h, *self.J):
            if v not in self.variables: self.variables.append(v)
        BinaryQuadraticModel.log.append(self)
    def add_variable(self, v, bias=0.0):
        self.h[v] = self.h.get(v, 0.0) + bias
        if v not in self.variables: self.variables.append(v)
    add_linear = add_variable
    def add_interaction(self, u, v, bias):
        self.J[(u, v)] = self.J.get((u, v), 0.0) + bias
        for x in (u, v):
            if x not in self.variables: self.variables.append(x)
    add_quadratic = add_interaction
    def add_linear_from(self, h):
        for v, b in (h.items() if isinstance(h, dict) else h): self.add_variable(v, b)
    add_variables_from = add_linear_from
    def add_quadratic_from(self, J):
        for u, v, b in ([(u, v, b) for (u, v), b in J.items()] if isinstance(J, dict) else J): self.add_interaction(u, v, b)
    add_interactions_from = add_quadratic_from
    def add_offset(self, b): self.offset += b
    linear = property(lambda self: self.h)
    quadratic = property(lambda self: self.J)
    num_variables = property(lambda self: len(self.variables))
    num_interactions = property(lambda self: len(self.J))
    def __len__(self): return len(self.variables)
    @classmethod
    def from_qubo(cls, Q, offset=0.0): return cls({}, Q, offset, "BINARY")
    def energy(self, x):
        return self.offset + sum(c * x[i] for i, c in self.h.items()) + sum(c * x[i] * x[j] for (i, j), c in self.J.items())


class SampleSet:
    def __init__(self, variables, samples, energies):
        o = sorted(range(len(samples)), key=lambda i: energies[i])
        self.variables = list(variables)
        self.record = np.rec.array([(np.array(samples[i], dtype=np.int8), float(energies[i]), 1) for i in o],
                                   dtype=[("sample", np.int8, (len(variables),)), ("energy", float), ("num_occurrences", int)])
    @property
    def first(self):
        r = self.record[0]
        return types.SimpleNamespace(sample=dict(zip(self.variables, r.sample.tolist())), energy=float(r.energy))
    def samples(self): return iter([dict(zip(self.variables, r.sample.tolist())) for r in self.record])
    def data(self): return iter([types.SimpleNamespace(sample=dict(zip(self.variables, r.sample.tolist())), energy=float(r.energy)) for r in self.record])


class Exact:
    """Exhaustive sampler (up to 16 variables), best sample first."""
    forced = None
    def __init__(self, *a, **k): pass
    def sample(self, bqm, **k):
        n = len(bqm.variables)
        if Exact.forced is not None:
            s = [list(Exact.forced(bqm))]
        else:
            s = [list(x) for x in itertools.product((0, 1), repeat=n)] if n <= 16 else [[0] * n]
        return SampleSet(bqm.variables, s, [bqm.energy(dict(zip(bqm.variables, x))) for x in s])
    def sample_qubo(self, Q, **k): return self.sample(BinaryQuadraticModel({}, Q, 0.0))


class MQTTMessage:
    def __init__(self, topic="", payload=b""): self.topic, self.payload = topic, payload


MODELS = {}         # path -> ONNX model; content of the file -> TFLite model


class TensorType:
    FLOAT32, INT32, UINT8, INT8, INT16 = 0, 2, 3, 9, 7


class BuiltinOperator:
    ADD, CONV_2D, DEQUANTIZE, FULLY_CONNECTED, LOGISTIC, RELU, RESHAPE, SOFTMAX, TANH, QUANTIZE = 0, 3, 6, 9, 14, 19, 22, 25, 28, 114


class TflModel:
    """The accessors of the flatbuffer classes the converter calls, over plain data."""
    def __init__(self, tensors, ops, inputs, outputs):
        # tensors: dicts nm, type, shape, value (array or None), s, z (or None); ops: dicts code, in, out
        self.tensors, self.ops, self.ins, self.outs = tensors, ops, inputs, outputs
        self.codes = []
        for o in reversed(ops):
            if o["code"] not in self.codes: self.codes.append(o["code"])
    @staticmethod
    def GetRootAsModel(data, offset=0): return MODELS[bytes(data).decode()]
    GetRootAs = GetRootAsModel
    def Version(self): return 3
    def Subgraphs(self, i): return self
    def SubgraphsLength(self): return 1
    def Inputs(self, i): return self.ins[i]
    def InputsLength(self): return len(self.ins)
    def InputsAsNumpy(self): return np.array(self.ins, dtype=np.int32)
    def Outputs(self, i): return self.outs[i]
    def OutputsLength(self): return len(self.outs)
    def OutputsAsNumpy(self): return np.array(self.outs, dtype=np.int32)
    def Tensors(self, i): return _TflTensor(self, int(i))
    def TensorsLength(self): return len(self.tensors)
    def Operators(self, i): return _TflOp(self, self.ops[i])
    def OperatorsLength(self): return len(self.ops)
    def OperatorCodes(self, i): return types.SimpleNamespace(BuiltinCode=lambda: self.codes[i], DeprecatedBuiltinCode=lambda: self.codes[i])
    def OperatorCodesLength(self): return len(self.codes)
    def Buffers(self, i):
        v = None if i == 0 else self.tensors[i - 1]["value"]
        return types.SimpleNamespace(DataAsNumpy=lambda: 0 if v is None else np.frombuffer(v.tobytes(), np.uint8), DataLength=lambda: 0 if v is None else v.nbytes)
    # the interpreter's view: the same tensors under other indices
    def tensor_details(self):
        n = len(self.tensors)
        return [{"name": t["nm"], "index": (i * 7 + 3) % 1009, "shape": np.array(t["shape"]), "dtype": t["type"]} for i, t in reversed(list(enumerate(self.tensors)))]
    def get_tensor(self, i):
        for k, t in enumerate(self.tensors):
            if (k * 7 + 3) % 1009 == i: return np.array(t["value"])
        raise ValueError(i)


class _TflTensor:
    def __init__(self, m, i): self.m, self.i, self.t = m, i, m.tensors[i]
    def Name(self): return self.t["nm"].encode()
    def Type(self): return self.t["type"]
    def Buffer(self): return 0 if self.t["value"] is None else self.i + 1
    def ShapeAsNumpy(self): return np.array(self.t["shape"], dtype=np.int32)
    def Shape(self, j): return self.t["shape"][j]
    def ShapeLength(self): return len(self.t["shape"])
    def Quantization(self):
        t = self.t
        if t.get("noq"): return None
        arr = lambda v, d: 0 if v is None else np.array([v], dtype=d)
        return types.SimpleNamespace(ScaleAsNumpy=lambda: arr(t["s"], np.float32), ZeroPointAsNumpy=lambda: arr(t["z"], np.int64),
                                     ScaleLength=lambda: 0 if t["s"] is None else 1, ZeroPointLength=lambda: 0 if t["z"] is None else 1,
                                     Scale=lambda j: float(np.float32(t["s"])), ZeroPoint=lambda j: int(t["z"]))


class _TflOp:
    def __init__(self, m, o): self.m, self.o = m, o
    def OpcodeIndex(self): return self.m.codes.index(self.o["code"])
    def InputsAsNumpy(self): return np.array(self.o["in"], dtype=np.int32)
    def OutputsAsNumpy(self): return np.array(self.o["out"], dtype=np.int32)
    def InputsLength(self): return len(self.o["in"])
    def OutputsLength(self): return len(self.o["out"])
    def Inputs(self, i): return self.o["in"][i]
    def Outputs(self, i): return self.o["out"][i]


def install():
    if "dimod" in sys.modules: return
    _mod("dimod", BinaryQuadraticModel=BinaryQuadraticModel, BQM=BinaryQuadraticModel, BINARY="BINARY", SPIN="SPIN", ExactSolver=Exact, SampleSet=SampleSet)
    _mod("neal", SimulatedAnnealingSampler=Exact)
    _mod("greedy", SteepestDescentSolver=Exact, SteepestDescentSampler=Exact)
    s = _mod("dwave.system", DWaveSampler=Exact, EmbeddingComposite=Exact, LeapHybridSampler=Exact)
    _mod("dwave.samplers", SimulatedAnnealingSampler=Exact, SteepestDescentSolver=Exact)
    _mod("dwave", system=s)
    viz = types.ModuleType("qiskit.visualization"); viz.os = os; viz.__all__ = ["os"]
    q = _mod("qiskit", visualization=viz)
    sys.modules["qiskit.visualization"] = viz
    for n in ("qiskit.primitives", "qiskit_optimization", "qiskit_optimization.problems", "qiskit_optimization.algorithms",
              "qiskit_algorithms", "qiskit_algorithms.optimizers", "qiskit_aer", "qiskit.utils", "pandas", "sympy_stub"):
        _mod(n)
    c = _mod("paho.mqtt.client", Client=_Any, MQTTMessage=MQTTMessage)
    m = _mod("paho.mqtt", client=c); _mod("paho", mqtt=m)
    _mod("onnx", load=lambda p: MODELS[str(p)])
    _mod("tflite", Model=TflModel, Operator=_Any, Tensor=_Any, TensorType=TensorType, BuiltinOperator=BuiltinOperator)
