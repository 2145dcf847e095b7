"""Input generators shared by the drivers (seeded through Ctx.rng / Ctx.np)."""
import numpy as np

TYPES = [(True, 8), (False, 8), (True, 16), (False, 16), (True, 32), (True, 4), (False, 4), (True, 2), (True, 7), (False, 32), (False, 1), (True, 24)]
NP = {(True, 8): np.int8, (False, 8): np.uint8, (True, 16): np.int16, (False, 16): np.uint16, (True, 32): np.int32, (False, 32): np.uint32}


def tname(signed, bits):
    return ("int" if signed else "uint") + str(bits)


def bounds(signed, bits):
    return (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)


def tspell(rng, signed, bits):
    """one of the accepted spellings of a type"""
    c = [tname(signed, bits), tname(signed, bits).upper(), tname(signed, bits).capitalize()]
    if (signed, bits) in NP:
        c += [NP[(signed, bits)]] * 2
    return c[rng.randrange(len(c))]


def scale(rng):
    k = rng.random()
    if k < 0.35:
        return 2.0 ** rng.randrange(-12, 4)
    if k < 0.5:
        return rng.choice([3, 5, 7, 11, 25, 49, 57, 98, 107, 161, 999]) * 2.0 ** rng.randrange(-12, 2)
    if k < 0.6:
        return rng.choice([1e-6, 1e-4, 123.456, 9999.5, 1 / 255, 0.1, 1 / 3])
    return rng.uniform(1e-3, 2.0) * 10 ** rng.randrange(-3, 2)


def zeropoint(rng, signed, bits, wide=False):
    lo, hi = bounds(signed, bits)
    k = rng.random()
    if k < 0.25:
        return 0
    if k < 0.4:
        return lo
    if k < 0.55:
        return hi
    if wide and k < 0.65:
        return rng.choice([lo - rng.randrange(1, 40), hi + rng.randrange(1, 40)])
    return rng.randint(lo, hi) if hi - lo < 1 << 20 else rng.randint(-(1 << 16), 1 << 16) % (hi + 1)


def reals(rng, s, zp, signed, bits, n):
    """inputs around every boundary: ties, near ties, grid points, both saturation ends, far outside, generic"""
    lo, hi = bounds(signed, bits)
    out = []
    for _ in range(n):
        k = rng.random()
        q = rng.choice([lo, hi, lo + 1, hi - 1, zp, rng.randint(lo, hi), rng.randint(lo, hi), lo - rng.randrange(0, 5), hi + rng.randrange(0, 5)])
        if k < 0.25:
            x = (q - zp + 0.5) * s
        elif k < 0.4:
            x = (q - zp + 0.5 + rng.choice([-1, 1]) * rng.choice([1e-3, 1e-6, 1e-9])) * s
        elif k < 0.55:
            x = (q - zp) * s
        elif k < 0.65:
            x = (q - zp + rng.uniform(-0.5, 0.5)) * s
        elif k < 0.72:
            x = rng.choice([-1, 1]) * rng.choice([1e3, 1e6, 1e12, 1e30]) * s * max(1, hi)
        elif k < 0.78:
            x = rng.choice([0.0, -0.0, 1.0, -1.0, 0.5, -0.5, s, -s])
        else:
            x = rng.uniform((lo - 3 - zp) * s, (hi + 3 - zp) * s)
        out.append(float(x))
    return out


def shapes(rng):
    return rng.choice([(), (1,), (2,), (5,), (8,), (0,), (2, 3), (3, 1), (1, 4), (2, 2, 2), (4, 1, 2), (1, 1), (0, 3)])


def container(rng, a):
    """the same data as list / tuple / float32 / float64 / strided / read-only array"""
    k = rng.randrange(6)
    if k == 0:
        return a.tolist()
    if k == 1 and a.ndim == 1:
        return tuple(a.tolist())
    if k == 2:
        b = np.zeros(tuple(2 * d for d in a.shape)) if a.ndim else np.array(0.0)
        v = b[tuple(slice(None, None, 2) for _ in a.shape)] if a.ndim else b
        v[...] = a
        return v
    if k == 3:
        b = a.copy()
        b.setflags(write=False)
        return b
    return a.copy()
