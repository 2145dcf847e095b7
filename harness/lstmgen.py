"""Random quantised recurrent operations in the network file format."""
import math
from ecommon import *


def _table(rng, kind, t_in, s_in, z_in, s_out, z_out, t_out):
    lo, hi = gens.bounds(*t_in)
    olo, ohi = gens.bounds(*t_out)
    f = math.tanh if kind == "tanh" else (lambda v: 1 / (1 + math.exp(-max(-700, min(700, v)))))
    if rng.random() < 0.2:
        t = [rng.randint(olo, ohi) for _ in range(lo, hi + 1)]
    else:
        t = [max(olo, min(ohi, int(math.floor(f((q - z_in) * s_in) / s_out + z_out + 0.5)))) for q in range(lo, hi + 1)]
    return lut(t, lo, rng.choice([None, None, (2, True), (3, False)]))


def lstm_inputs(rng, o, shape):
    """integers of the operation's input type"""
    n = o["inputs"][0]["tensor"]["dtype"].lower()
    return ints(rng, not n.startswith("u"), int(n.lstrip("uint")), shape)


def lstm_op(rng, d, units, return_sequences=True, exact=None, small=False, wide=False):
    """small: 4-bit types everywhere but the bias; wide: 16-bit inputs or states, large biases"""
    exact = rng.random() < 0.4 if exact is None else exact
    b = 4 if small else 8
    t = (True, b)
    n = 2.0 ** (b - 1)
    p2 = lambda v: 2.0 ** round(math.log2(v)) if exact else v
    z = lambda: rng.choice([0, 0, rng.randint(-int(n), int(n) - 1)])
    tn = gens.tname(*t)
    i_s, i_z = p2(rng.choice([1 / n, 2.5 / n, 0.3 / n])), z()
    h_s, h_z = p2(rng.choice([1 / n, 1 / n, 0.7 / n, 0.2 / n])), z()
    h_t = rng.choice([t, t, t, (True, b - 2), (False, b)])
    if h_t[0] is False:
        h_z = rng.choice([0, int(n), 2 * int(n) - 1])
    if h_t == (True, b - 2):
        h_z = rng.choice([0, 1, -1])
        h_s *= 4
    i_t = t
    if wide:
        w = rng.choice(["i", "h", "ih", "b"])
        if "i" in w:
            i_t, i_s = rng.choice([(True, 16), (False, 16)]), i_s / 256
            i_z = rng.choice([0, *gens.bounds(*i_t), rng.randint(-100, 100) if i_t[0] else 300])
        if "h" in w:
            h_t, h_s = rng.choice([(True, 16), (False, 16), (True, 12)]), h_s / 64
            h_z = rng.choice([0, 77, 2047]) if h_t[1] == 12 else rng.choice([0, gens.bounds(*h_t)[1], 300])
    kern, rker, bias, badd, radd = [], [], [], [], []
    ra_t = rng.choice([t, t, t, (True, b + 2)])
    for _ in range(4):
        k_s, r_s = p2(rng.uniform(0.3, 2) / n), p2(rng.uniform(0.3, 2) / n)
        kern.append(node(k_s, rng.choice([0, 0, rng.randint(-3, 3)]), tn, ints(rng, *t, (d, units))))
        rker.append(node(r_s, rng.choice([0, 0, rng.randint(-3, 3)]), tn, ints(rng, *t, (units, units))))
        m = min(2 ** 31 - 1, n * n * (rng.choice([2, 1000, 1e5]) if wide else rng.choice([0.01, 0.5, 2])))
        bias.append(node(k_s * i_s, 0, "int32", np.array([rng.randint(-int(m), int(m)) for _ in range(units)])))
        badd.append(node(r_s * h_s, 0, "int32"))
        ra_s = p2(rng.choice([4.0, 8.0, 1.0]) / n)
        radd.append(node(ra_s, z(), gens.tname(*ra_t)))
    c_t = rng.choice([t, t, t, (True, b + 2), (True, b - 1)])
    c_s = p2(rng.choice([1.0, 3.0, 0.4]) / 2 ** (c_t[1] - 1))
    cell = node(c_s, rng.choice([0, 0, 0, rng.randint(-int(n / 4), int(n / 4))]), gens.tname(*c_t))
    gates = []
    for g in range(4):
        if g == 2:
            o_s, o_z, kind = p2(1 / n), rng.choice([0, 0, 3, -2]), "tanh"
        else:
            o_s, o_z, kind = p2(0.5 / n), rng.choice([-int(n), -int(n), -int(n) + 2]), "sigmoid"
        L = _table(rng, kind, ra_t, radd[g]["scale"], radd[g]["zero_point"], o_s, o_z, t)
        gates += [node(radd[g]["scale"], radd[g]["zero_point"], gens.tname(*ra_t), None, L), node(o_s, o_z, tn)]
    a_s, a_z = p2(1 / n), rng.choice([0, 0, 5 % int(n), -3])
    L = _table(rng, "tanh", c_t, c_s, cell["zero_point"], a_s, a_z, t)
    act = [node(c_s, cell["zero_point"], gens.tname(*c_t), None, L), node(a_s, a_z, tn)]
    hid = node(h_s, h_z, gens.tname(*h_t))
    return op("LSTM", [node(i_s, i_z, gens.tname(*i_t)), *kern, *rker, *bias, *badd, *radd, cell, *gates, *act], [hid], "lstm",
              {"return_sequences": {"value": [bool(return_sequences)], "dtype": "bool"}, "n_cells": {"value": [units], "dtype": "int"}})
