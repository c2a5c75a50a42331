"""Kernels: a callable for the code under test, and the record of the same
kernel for the specification (K in spec/Kernels.tla)."""
import numpy as np

from . import enc


def r6(x):
    return float(np.rint(x * 1e6) / 1e6)


def poly(rng, deg, lm):
    """A polynomial of a degree, of moderate values on [0, lm]."""
    unit = r6(max(lm, .1))
    c = [r6(v) for v in rng.uniform(-1, 1, deg + 1) / (1 + np.arange(deg + 1) / 2)]
    if deg:
        c[-1] = r6(c[-1] + np.sign(c[-1] or 1) * .2)

    def f(x):
        t = np.asanyarray(x) / unit
        y = 0 * t
        for a in c[::-1]:
            y = y * t + a
        return y
    return f, dict(name="scaled poly", c=[enc.num(v) for v in c], unit=enc.num(unit)), deg


def smooth(rng, lm):
    """A kernel which an expansion of order 25 reproduces."""
    c = int(rng.integers(4))
    if c == 0:
        a, b = r6(rng.uniform(.1, 16 / lm)), r6(rng.uniform(.5, 2))
        return lambda x: b * np.exp(-a * x), dict(name="exp", a=enc.num(a), b=enc.num(b)), 25
    if c == 1:
        a = r6(rng.uniform(.1, 4 / lm))
        return lambda x: 1 / (1 + a * x), dict(name="rational", a=enc.num(a)), 25
    if c == 2:
        a = r6(rng.uniform(.1, 18 / lm))
        return lambda x: np.cos(a * x), dict(name="cos", a=enc.num(a)), 25
    s = r6(rng.uniform(.5, 12))
    return (lambda x: np.exp(-s * x / lm)), dict(name="heat", scale=enc.num(s), norm=enc.num(1)), 25


def bank(rng, nf, lm, maxdeg=6):
    """Callables, records, and the order at which all are reproduced."""
    ks = []
    for _ in range(nf):
        if rng.random() < .6:
            ks.append(poly(rng, int(rng.integers(0, maxdeg + 1)), lm))
        else:
            ks.append(smooth(rng, lm))
    return [k[0] for k in ks], [k[1] for k in ks], max(k[2] for k in ks)
