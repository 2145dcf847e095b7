"""C20: rounding as a binary quadratic problem (spec/Qubo.tla, QuboMC.tla)."""
import itertools, os
from fractions import Fraction as Fr
from scommon import *
import misc_stub
from misc_stub import Exact, BinaryQuadraticModel as BQM
from itcl_quantizer.equalizers.adaround import AdaroundNet  # noqa: E402
from itcl_quantizer.equalizers.adaround.qubo import QUBOAnnealer  # noqa: E402
from itcl_quantizer.config.models.keras import RoundingQUBOCfg  # noqa: E402


def clear(v, s, half):
    """floor (or nearest) of v/s, or None where it is numerically ambiguous"""
    q = Fr(float(v)) / Fr(float(s)) + (Fr(1, 2) if half else 0)
    f = q.numerator // q.denominator
    return None if min(q - f, f + 1 - q) < Fr(1, 500) else f


def layer_event(x, y, K, B, si, sk, sb, eps, act="linear"):
    xr = [[0 if float(v) == 0 else clear(v, si, True) for v in r] for r in x]
    fk = [[clear(v, sk, False) for v in r] for r in K]
    fb = [0 if float(v) == 0 and False else clear(v, Fr(float(si)) * Fr(float(sk)), False) for v in B]
    if any(v is None for r in xr + fk + [fb] for v in r):
        return None
    return {"ev": "QLayer", "n": len(x), "nin": len(K[0]), "nout": len(K), "act": act, "x": [[D(v) for v in r] for r in x], "y": [[D(v) for v in r] for r in y],
            "k": [[D(v) for v in r] for r in K], "b": [D(v) for v in B], "si": D(si), "sk": D(sk), "sb": D(sb), "xr": xr, "fk": fk, "fb": fb, "eps": eps}


def problem(bqm, x):
    pos = {v: i + 1 for i, v in enumerate(bqm.variables)}
    q = [{"i": pos[i], "j": pos[i], "c": D(float(c))} for i, c in bqm.h.items()] + [{"i": pos[i], "j": pos[j], "c": D(float(c))} for (i, j), c in bqm.J.items()]
    return {"q": [t for t in q if t["c"][0] != 0], "x": [int(v) for v in x]}


def native(a):
    a = np.asarray(a)
    return [native(r) for r in a] if a.ndim > 1 else [int(v) if float(v) in (0, 1) else 7 for v in a]


class Solver:
    """stands for the annealers: takes the given bits (per unit), or the exact minimum; remembers the problems"""
    def __init__(self, nout, bits=None):
        self.nout, self.bits, self.k = nout, bits, 0

    def __enter__(self):
        BQM.log.clear()
        self.sols = {}
        me = self

        def forced(bqm):
            if id(bqm) not in me.sols:      # the same problem may be given to several solvers
                me.sols[id(bqm)] = list(me.bits[me.k % me.nout])[:len(bqm.variables)] + [0] * max(0, len(bqm.variables) - len(me.bits[0]))
                me.k += 1
            return me.sols[id(bqm)]
        Exact.forced = forced if self.bits is not None else None
        return self

    def __exit__(self, *a):
        Exact.forced = None

    def groups(self):
        """problems of each complete formulation, in unit order; the last one decides"""
        ps = []
        for b in BQM.log:
            n = len(b.variables)
            x = self.sols.get(id(b)) if self.bits is not None else min(itertools.product((0, 1), repeat=n), key=lambda s: b.energy(dict(zip(b.variables, s))))
            if x is not None:
                ps.append(problem(b, x))
        if len(ps) % self.nout:
            return [ps]
        return [ps[i:i + self.nout] for i in range(0, len(ps), self.nout)]


def solve(emit, nout, bits, fn):
    with Solver(nout, bits) as s, quiet():
        ok, r = attempt(fn)
        ev = {"ev": "QSol", "ok": bool(ok), "kp": [], "bp": [], "best": bits is None, "groups": []}
        if ok:
            ev.update(kp=native(r[0]), bp=native(r[1]), groups=s.groups())
    emit(ev)


def assignments(ctx, nin, nout, count):
    """random bits per unit, then the complement of each: together every bit takes both values"""
    out = [[[0] * (nin + 1) for _ in range(nout)]]
    for _ in range(count):
        b = [[ctx.rng.randint(0, 1) for _ in range(nin + 1)] for _ in range(nout)]
        out += [b, [[1 - v for v in r] for r in b]]
    for l in range(nout):
        for i in range(nin + 1):
            out.append([[int((a, c) == (l, i)) for c in range(nin + 1)] for a in range(nout)])
    return out


# ------------------------------------------------------------- whole layers
def layer(ctx, emit, nin=None, nout=None, rows=None, act=None, kd="int4", x=None, K=None, B=0, count=3, net=False):
    rng, npr = ctx.rng, ctx.np
    for _ in range(60):
        nin_, nout_ = nin or rng.randint(1, 4), nout or rng.randint(1, 3)
        xx = x if x is not None else (npr.normal(size=(rows or rng.randint(2, 4), nin_)) * rng.choice([.2, 1, 9])).astype(rng.choice([np.float32, np.float64]))
        if x is None and rng.random() < .25:
            xx[:, rng.randrange(nin_)] = 0
        if x is None and rng.random() < .15:
            xx = np.abs(xx)
        KK = K if K is not None else npr.normal(size=(nin_, nout_)) * 10.0 ** rng.uniform(-1, 1)
        BB = B if K is not None else (None if rng.random() < .15 else npr.normal(size=nout_) * rng.choice([.05, .5, 4]))
        a = act or rng.choice(["linear", "linear", "linear", "relu", "tanh", "sigmoid"])
        ki = KerasInput(Quantization("int8"))
        lay = ks.Dense(kernel=KK, bias=BB, activation=a)
        with quiet():
            r0 = ki.quantize(QuantizationResult(xx, None, None, ki))
            kdl = KerasDense(lay, kernel_dtype=kd, kernel_symmetric=rng.random() < .6)
            res = kdl.quantize(r0)
        op = res.operators[0]
        i, k, b = op.inputs[:3]
        k.update_quant_parameters(float(k.scale) * rng.uniform(.9, 1.4), k.zero_point)     # no weight on a grid point
        if rng.random() < .3:
            i.update_quant_parameters(float(i.scale) * rng.uniform(1, 1.3), i.zero_point)
        w = lay.get_weights()
        KT = np.asarray(w[0]).T
        Bv = np.asarray(w[1]) if len(w) > 1 else np.zeros(len(KT))
        y = np.asarray(xx, dtype=np.float64) @ KT.T.astype(np.float64) + Bv
        if BB is None:
            fbs = [0] * len(KT)
            e = layer_event(xx, y, KT, np.full(len(KT), float(i.scale) * float(k.scale) / 2), i.scale, k.scale, b.scale, -17, a)
            if e:
                e["fb"] = fbs
        else:
            e = layer_event(xx, y, KT, Bv, i.scale, k.scale, b.scale, -17, a)
        if e:
            break
    else:
        return
    if np.max(np.abs(y)) == 0:
        return
    emit(e)
    nin_, nout_ = e["nin"], e["nout"]

    def run():
        if net:
            with_dq = [r0, res, Dequantize().quantize(res)]
            AdaroundNet(Network(with_dq), lambda _: 0.0, RoundingQUBOCfg().build).round()
        else:
            kdl.adaround(QUBOAnnealer, res, lambda: 0.0)
        return op.inputs[1].rounding_policy, op.inputs[2].rounding_policy
    for bits in assignments(ctx, nin_, nout_, count):
        solve(emit, nout_, bits, run)
    if nin_ <= 4:
        solve(emit, nout_, None, run)
    emit({"ev": "QEnd", "cover": True})


# ----------------------------------------------- the two formulations alone
def formulations():
    """the solver-independent entry points, where they still exist under their names"""
    out = {}
    try:
        from itcl_quantizer.equalizers.adaround.Calculationsint import ADAInt

        def cls(x, K, B, y, si, sk, sb):
            a = ADAInt(x, K, B, y, si, sk, sb)
            n, m = B.shape[0], x.shape[1]
            Rk, Rb = np.zeros((n, m)), np.zeros(n)
            for l in range(n):
                d1 = a.bterm1_calculation_subespacio({}, l)
                d2, bt2 = a.bterm2_calculation_subespacio({}, l)
                d2 = a.bterm2_calculation_repeticion(bt2, {}, l)
                d3 = a.bterm3_calculation_subespacio({}, l)
                d4, bt4 = a.bterm4_calculation_subespacio({}, l)
                d4 = a.bterm4_calculation_repeticion({}, bt4, l)
                r = a.quantum_annealing(a.unir_diccionarios(d1, d2, d3, d4, {}))
                Rk[l], Rb[l] = a.tensor_redondeo(r, Rk, Rb, l)
            return Rk, Rb
        out["class"] = cls
    except Exception:
        pass
    try:
        import itcl_quantizer.equalizers.adaround.qubocalculation as q

        def fns(x, K, B, y, si, sk, sb):
            n, m, N = B.shape[0], x.shape[1], x.shape[0]
            b1, b2, b3, b4 = np.zeros((N, m)), np.zeros((N, m * m)), np.zeros((N, 1)), np.zeros((N, m))
            Rk, Rb = np.zeros((n, m)), np.zeros(n)
            xr = q.Input_Round_Calculation(x, si)
            d = q.dterm_Calculation(B, K, xr, y, sk, si, sb)
            for l in range(n):
                d1 = q.Bterm1_Calculation_Subespacio({}, b1, xr, d, l, m, N, sk, si)
                if l == 0:
                    d2, Bt2 = q.Bterm2_Calculation_Subespacio({}, b2, xr, l, m, N, sk, si)
                    d4, Bt4 = q.Bterm4_Calculation_Subespacio({}, b4, xr, l, m, n, sb, si, sk, N)
                else:
                    d2 = q.Bterm_Calculation_Vuelta(Bt2, {}, m, l)
                    d4 = q.Bterm_Calculation_Vuelta4({}, Bt4, m, n, l)
                d3 = q.Bterm3_Calculation_Subespacio({}, b3, d, l, m, n, sb, si, sk, N)
                r = q.Quantum_annealing_simulator(q.Unir_Diccionarios(d1, d2, d3, d4, {}), l)
                Rk[l], Rb[l] = q.Tensor_Redondeo(r, Rk, Rb, l, m)
            return Rk, Rb
        out["functions"] = fns
    except Exception:
        pass
    ok = {}
    for k, f in out.items():        # a formulation whose signatures changed is reached through the layers only
        with Solver(1, [[0, 0]]), quiet():
            if attempt(f, np.ones((2, 1)), np.ones((1, 1)), np.ones(1), np.ones((2, 1)), .3, .3, .09)[0]:
                ok[k] = f
    return ok


def direct(ctx, emit, f, x, K, B, y, si, sk, sb, count=3):
    x, K, B, y = (np.asarray(v, dtype=np.float64) for v in (x, K, B, y))
    e = layer_event(x, y, K, B, si, sk, sb, -36)
    if not e:
        return
    emit(e)
    for bits in assignments(ctx, e["nin"], e["nout"], count):
        solve(emit, e["nout"], bits, lambda: f(x.copy(), K.copy(), B.copy(), y.copy(), si, sk, sb))
    if e["nin"] <= 4:
        solve(emit, e["nout"], None, lambda: f(x, K, B, y, si, sk, sb))
    emit({"ev": "QEnd", "cover": True})


def run(ctx):
    rec, rng, npr = Rec(), ctx.rng, ctx.np
    here = os.getcwd()
    os.chdir(ctx.scratch)       # the optimiser writes its matrices into the working directory
    try:
        g = ctx.gen("QuboMC", dict(N=1, In=2, Xmax=1, Ymax=1), spec_name="Spec", inv=["Encodes", "SameMin", "EveryBit"], post="Emit", workers=4)["h"]
        ctx.mc("QuboMC", dict(N=2, In=2, Xmax=1, Ymax=2 if ctx.thorough else 1), spec_name="Spec", inv=["Encodes", "SameMin", "EveryBit"], workers=8, label="QuboMC two samples")
        fs = formulations()
        for c in g:
            for f in fs.values():
                x, si, sk = np.array(c["xr"], dtype=float), .5, .25
                K, B = [[.05, -.3]], [.01]
                y = np.array([[v * si * sk + np.floor(B[0] / .125) * .125 + si * sk * (np.array(r) @ np.floor(np.array(K[0]) / sk))] for v, r in zip(c["d"], c["xr"])])
                rec.scenario(lambda emit: direct(ctx, emit, f, x * si, K, B, y, si, sk, si * sk, count=1))
        for _ in range(300 if ctx.thorough else 80):
            for f in fs.values():
                N, m, n = rng.randint(1, 4), rng.randint(1, 4), rng.randint(1, 3)
                si, sk = 2.0 ** rng.uniform(-9, 2), 2.0 ** rng.uniform(-9, 2)
                x, K = npr.normal(size=(N, m)) * si * rng.choice([1, 8, 100]), npr.normal(size=(n, m)) * sk * rng.choice([1, 5])
                if rng.random() < .3:
                    x[:, rng.randrange(m)] = 0
                B = npr.normal(size=n) * si * sk * rng.choice([1, 50])
                y = x @ K.T + B + (0 if rng.random() < .6 else npr.normal(size=(N, n)) * si * sk * 3)
                rec.scenario(lambda emit: direct(ctx, emit, f, x, K, B, y, si, sk, si * sk))
        for k in range(300 if ctx.thorough else 100):
            rec.scenario(lambda emit: layer(ctx, emit, kd=rng.choice(["int4", "int4", "int2", "int3", "int5"]), net=k % 3 == 0))
        for _ in range(20 if ctx.thorough else 4):
            rec.scenario(lambda emit: layer(ctx, emit, nin=rng.choice([6, 9]), nout=rng.choice([2, 4]), count=1))
            for f in fs.values():
                N, m, n = rng.randint(5, 9), rng.randint(5, 9), 5
                x, K, B = npr.normal(size=(N, m)), npr.normal(size=(n, m)), npr.normal(size=n)
                rec.scenario(lambda emit: direct(ctx, emit, f, x, K, B, x @ K.T + B, .037, .21, .037 * .21, count=1))
        for a in ("tanh", "sigmoid", "relu", "linear"):
            rec.scenario(lambda emit: layer(ctx, emit, act=a, nin=2, nout=2, rows=4))
    finally:
        os.chdir(here)
    ctx.validate("QuboTrace", rec.scenarios, step="QStep", start="None")
    ctx.assumptions += ["the annealers are replaced by a stand-in that returns a prescribed assignment or the exact minimum of the problem it is given",
                        "float32 layers are judged within 2^-17 of the squared magnitude of the terms, float64 formulations within 2^-36",
                        "samples, weights and biases on a rounding boundary (within 1/500 of a step) are not used"]
