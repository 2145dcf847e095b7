"""Numpy stand-in for the part of Keras / TensorFlow the repository calls."""
import types, sys
import numpy as np


class T(np.ndarray):
    """Eager tensor: an array with .numpy()."""
    def numpy(self):
        return np.asarray(self)


def _t(x, dtype=np.float32):
    return np.asarray(x, dtype=dtype).view(T)


# --- activations ----------------------------------------------------------
def linear(x): return x
def relu(x, alpha=0.0, max_value=None, threshold=0): 
    x = np.asarray(x); y = np.maximum(x, np.asarray(0, x.dtype))
    return _t(y if max_value is None else np.minimum(y, max_value), y.dtype)
def relu6(x): return relu(x, max_value=6)
def sigmoid(x):
    x = np.asarray(x); d = x.dtype if x.dtype.kind == "f" else np.float32
    x = x.astype(np.float64)
    return _t(np.where(x >= 0, 1 / (1 + np.exp(-np.abs(x))), np.exp(-np.abs(x)) / (1 + np.exp(-np.abs(x)))), d)
def tanh(x):
    x = np.asarray(x); d = x.dtype if x.dtype.kind == "f" else np.float32
    return _t(np.tanh(x.astype(np.float64)), d)
def softmax(x, axis=-1):
    x = np.asarray(x); e = np.exp(x - x.max(axis=axis, keepdims=True))
    return _t(e / e.sum(axis=axis, keepdims=True), x.dtype)


_ACT = {f.__name__: f for f in (linear, relu, relu6, sigmoid, tanh, softmax)}


def get_activation(a):
    if a is None: return linear
    return _ACT[a] if isinstance(a, str) else a


# --- layers -----------------------------------------------------------------
class Layer:
    _n = 0
    def __init__(self, name=None, **kw):
        Layer._n += 1
        self.name = name or f"{type(self).__name__.lower()}_{Layer._n}"
        self._weights = []
        self._batch_input_shape = kw.get("batch_input_shape")
    def get_weights(self): return [np.array(w) for w in self._weights]
    def set_weights(self, w):
        w = [np.asarray(x, dtype=np.float32) for x in w]
        assert [x.shape for x in w] == [x.shape for x in self._weights], "weight shapes"
        self._weights = w
    @property
    def weights(self): return [_t(w) for w in self._weights]
    @property
    def input_shape(self): return self._batch_input_shape
    @property
    def batch_input_shape(self): return self._batch_input_shape
    dtype = "float32"
    def get_config(self): return {"name": self.name}
    def __call__(self, x, *a, **k): return self.call(x, *a, **k)
    def call(self, x): return _t(x)


class InputLayer(Layer): pass
class Input(Layer): pass
class Dropout(Layer):
    def __init__(self, rate=0.5, **kw): super().__init__(**kw); self.rate = rate
class Flatten(Layer):
    def call(self, x): x = np.asarray(x); return _t(x.reshape(len(x), -1))
class BatchNormalization(Layer): pass
class Embedding(Layer): pass
class GRU(Layer): pass
class Reshape(Layer): pass
class Activation(Layer):
    def __init__(self, activation, **kw): super().__init__(**kw); self.activation = get_activation(activation)
    def call(self, x): return _t(self.activation(x))


class Dense(Layer):
    """weights given explicitly: Dense(kernel=..., bias=... or None)"""
    def __init__(self, units=None, activation=None, use_bias=True, name=None, kernel=None, bias=None, **kw):
        super().__init__(name=name, **kw)
        self.activation = get_activation(activation)
        kernel = np.asarray(kernel, dtype=np.float32)
        self.units = kernel.shape[1]
        self.use_bias = bias is not None
        self._weights = [kernel] + ([np.asarray(bias, dtype=np.float32)] if bias is not None else [])
    @property
    def kernel(self): return _t(self._weights[0])
    @property
    def bias(self): return _t(self._weights[1]) if self.use_bias else None
    def get_config(self): return {"name": self.name, "units": self.units, "use_bias": self.use_bias,
                                  "activation": self.activation.__name__ if self.activation else "linear"}
    def call(self, x):
        y = np.asarray(x, dtype=np.float32) @ self._weights[0]
        if self.use_bias: y = y + self._weights[1]
        a = self.activation or linear
        return _t(a(y))


class Conv2D(Layer):
    def __init__(self, filters=None, kernel_size=None, strides=(1, 1), padding="valid", activation=None, kernel=None, bias=None, **kw):
        super().__init__(**kw)
        self.strides, self.padding, self.activation = tuple(strides), padding, get_activation(activation)
        self._weights = [np.asarray(kernel, dtype=np.float32)] + ([np.asarray(bias, dtype=np.float32)] if bias is not None else [])
        self.use_bias = bias is not None
        self.filters, self.kernel_size = self._weights[0].shape[-1], self._weights[0].shape[:2]
    @property
    def kernel(self): return _t(self._weights[0])
    @property
    def bias(self): return _t(self._weights[1]) if self.use_bias else None
    def get_config(self): return {"name": self.name, "filters": self.filters, "kernel_size": self.kernel_size, "strides": self.strides, "padding": self.padding,
                                  "use_bias": self.use_bias, "activation": self.activation.__name__ if hasattr(self.activation, "__name__") else "linear"}


# layers the repository does not support; class names contain those of supported ones
class Conv2DTranspose(Conv2D): pass
class DepthwiseConv2D(Conv2D): pass
class SeparableConv2D(Conv2D): pass
class EinsumDense(Dense): pass


class MaxPooling2D(Layer):
    def __init__(self, pool_size=(2, 2), strides=None, padding="valid", **kw):
        super().__init__(**kw)
        self.pool_size, self.strides, self.padding = tuple(pool_size), tuple(strides or pool_size), padding
    def get_config(self): return {"name": self.name, "pool_size": self.pool_size, "strides": self.strides, "padding": self.padding}


class GlobalMaxPooling2D(MaxPooling2D): pass


class LSTM(Layer):
    def __init__(self, units=None, return_sequences=False, kernel=None, recurrent=None, bias=None, **kw):
        super().__init__(**kw)
        self.units = int(np.asarray(recurrent).shape[0])
        self.return_sequences = return_sequences
        self._weights = [np.asarray(w, dtype=np.float32) for w in (kernel, recurrent, bias) if w is not None]
        self.use_bias = len(self._weights) > 2
    def get_config(self): return {"name": self.name, "units": self.units, "return_sequences": self.return_sequences, "use_bias": self.use_bias}
    def call(self, x):
        x = np.asarray(x, dtype=np.float32); K, R, b = (*self._weights, np.float32(0))[:3]; n = self.units
        h = c = np.zeros((x.shape[0], n), np.float32); hs = []
        for t in range(x.shape[1]):
            z = x[:, t] @ K + h @ R + b
            i, f, g, o = np.asarray(sigmoid(z[:, :n])), np.asarray(sigmoid(z[:, n:2*n])), np.asarray(tanh(z[:, 2*n:3*n])), np.asarray(sigmoid(z[:, 3*n:]))
            c = f * c + i * g; h = o * np.asarray(tanh(c)); hs.append(h)
        return _t(np.stack(hs, 1) if self.return_sequences else h)


class ConvLSTM2D(LSTM): pass


class Model:
    def __init__(self, layers=()): self.layers = list(layers)
    def __call__(self, x):
        for l in self.layers: x = l(x)
        return x
    def predict(self, x, **k): return np.asarray(self(x))


class Sequential(Model): pass


MODELS = {}


def load_model(path, *a, **k):
    return MODELS[str(path)]


def _mod(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    m.__path__ = []
    sys.modules[name] = m
    return m


def install():
    if "tensorflow" in sys.modules: return
    L = {c.__name__: c for c in (Layer, InputLayer, Input, Dropout, Flatten, BatchNormalization, Embedding, GRU, Reshape, Activation, Dense,
                                 Conv2D, MaxPooling2D, LSTM, Conv2DTranspose, DepthwiseConv2D, SeparableConv2D, EinsumDense, GlobalMaxPooling2D, ConvLSTM2D)}
    layers = _mod("tensorflow.keras.layers", **L)
    acts = _mod("tensorflow.keras.activations", get=get_activation, **_ACT)
    models = _mod("tensorflow.keras.models", load_model=load_model, Sequential=Sequential, Model=Model)
    ker = _mod("tensorflow.keras", layers=layers, activations=acts, models=models, Model=Model, Sequential=Sequential, Input=Input)
    f = lambda g: lambda *a, **k: _t(g(*[np.asarray(v) if isinstance(v, T) else v for v in a], **k))
    ops = dict(add=f(np.add), subtract=f(np.subtract), multiply=f(np.multiply), divide=f(np.divide), maximum=f(np.maximum), minimum=f(np.minimum), abs=f(np.abs), exp=f(np.exp),
               square=f(np.square), sqrt=f(np.sqrt), reduce_max=f(np.max), reduce_min=f(np.min), reduce_sum=f(np.sum), reduce_mean=f(np.mean))
    arr = dict(matmul=f(np.matmul), transpose=f(np.transpose), reshape=f(np.reshape), concat=f(lambda v, axis=0: np.concatenate(v, axis)), stack=f(lambda v, axis=0: np.stack(v, axis)),
               split=lambda v, n, axis=0: [_t(x) for x in np.split(np.asarray(v), n if isinstance(n, int) else np.cumsum(n)[:-1], axis)], zeros=lambda sh, dtype=None: _t(np.zeros(sh)),
               zeros_like=f(np.zeros_like), ones_like=f(np.ones_like), identity=lambda x, **k: _t(x), squeeze=f(np.squeeze), expand_dims=f(np.expand_dims),
               cast=lambda x, dtype: _t(x, np.dtype(dtype)), clip_by_value=f(np.clip), float64=np.float64, int32=np.int32, int8=np.int8, is_tensor=lambda x: isinstance(x, T))
    math_ = _mod("tensorflow.math", sigmoid=sigmoid, tanh=tanh, **ops)
    nn = _mod("tensorflow.nn", relu=relu, sigmoid=sigmoid, tanh=tanh, softmax=softmax, relu6=relu6)
    class Interpreter:
        def __init__(self, model_path=None, model_content=None, **k):
            self._d = MODELS[str(model_path)]
        def allocate_tensors(self): pass
        def get_tensor_details(self): return self._d.tensor_details()
        def get_tensor(self, i): return self._d.get_tensor(i)
    lite = _mod("tensorflow.lite", Interpreter=Interpreter)
    nn.bias_add = ops["add"]
    tf = _mod("tensorflow", **ops, **arr, keras=ker, math=math_, nn=nn, lite=lite, tanh=tanh, sigmoid=sigmoid, Tensor=T, float32=np.float32,
              convert_to_tensor=lambda x, dtype=None: _t(x), constant=lambda x, dtype=None: _t(x))
    for n in ("keras", "keras.layers", "keras.activations", "keras.models"):
        sys.modules.setdefault(n, sys.modules["tensorflow." + n])
