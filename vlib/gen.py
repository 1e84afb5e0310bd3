"""Strategies for JSON-able cases, and the numpy objects built from them."""
import math

import numpy as np
from hypothesis import strategies as st

PI = math.pi


def smooth(lo, hi, digits=7):
    """Arbitrary floats, without differences below 10^-digits (they would test
    the rounding of the oracle, and underflow)."""
    return st.floats(lo, hi, allow_nan=False, allow_subnormal=False).map(
        lambda v: min(max(round(v, digits), lo), hi))


def num(lo, hi):
    """Floats in [lo, hi]: whole numbers, eighths and arbitrary ones."""
    opts = [smooth(lo, hi)]
    a, b = math.ceil(lo*8), math.floor(hi*8)
    if b > a:
        opts.append(st.integers(a, b).map(lambda k: k/8.))
    a, b = math.ceil(lo), math.floor(hi)
    if b > a:
        opts.append(st.integers(a, b).map(float))
    return st.one_of(*opts)


def pos(lo, hi):
    """Like num, for strictly positive quantities with a sane lower limit."""
    return num(lo, hi).map(lambda v: max(v, lo))


def frac():
    return st.one_of(st.integers(0, 16).map(lambda k: k/16.), smooth(0., 1.))


def phi(lo=0., hi=2.*PI):
    """Angles, with multiples of pi/12 and the limits."""
    ks = [k*PI/12. for k in range(-24, 25) if lo <= k*PI/12. <= hi]
    return st.one_of(st.sampled_from([v for v in ks] + [lo, hi]),
                     smooth(lo, hi))


def theta():
    return phi(0., PI)


def seed():
    return st.integers(0, 2**31 - 1)


def field(dtypes=("f8", "f8", "f8", "f4", "i8"), orders=("C", "C", "F", "S"), signed=True):
    return st.fixed_dictionaries({
        "kind": st.sampled_from(["rng", "rng", "rng", "const", "ramp", "delta", "int"]),
        "seed": seed(),
        "scale": st.sampled_from([1., 1., 1., 1., 1e-3, 1e4, 1e-12, 1e12]),
        "dtype": st.sampled_from(list(dtypes)),
        "order": st.sampled_from(list(orders)),
        "signed": st.booleans() if signed else st.just(False),
    })


def make(spec, shape):
    """The array of a field spec."""
    shape = tuple(int(n) for n in np.atleast_1d(shape))
    rng = np.random.RandomState(spec["seed"])
    n = int(np.prod(shape))
    kind = spec["kind"]
    if kind == "rng":
        a = rng.uniform(-1. if spec["signed"] else 0.1, 1., n)
    elif kind == "const":
        a = np.full(n, rng.uniform(0.5, 2.))
    elif kind == "ramp":
        a = np.arange(1, n + 1)/float(max(n, 1))
    elif kind == "delta":
        a = np.zeros(n) if spec["signed"] else np.full(n, 0.125)
        a[rng.randint(n)] = 1.
    else:
        a = rng.randint(-9 if spec["signed"] else 1, 10, n).astype(float)
    scale = spec["scale"] if spec["dtype"] != "i8" else min(spec["scale"], 1e4)
    a = a*scale
    if spec["dtype"] == "i8":
        a = np.rint(a*(100. if scale <= 1. else 1.)/min(scale, 1.)).astype("int64")
        if not spec["signed"]:
            a = np.maximum(a, 1)
    else:
        a = a.astype(spec["dtype"])
    a = a.reshape(shape)
    if spec.get("zeros"):       # masked pixels
        a[np.random.RandomState(spec["seed"] ^ 77).uniform(size=shape) < spec["zeros"]] = 0
    return layout(a, spec["order"])


def layout(a, order):
    if order == "F":
        return np.asfortranarray(a)
    if order == "S":            # a strided view
        big = np.zeros(tuple(2*s for s in a.shape), dtype=a.dtype)
        v = big[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    return np.ascontiguousarray(a)


def weights(zeros=False):
    """A weight map: positive, or (zeros) with some masked pixels."""
    return st.fixed_dictionaries({
        "kind": st.sampled_from(["rng", "rng", "const", "ramp", "int"]),
        "seed": seed(),
        "scale": st.sampled_from([1., 1., 1., 10., 1e-2, 1e-12, 1e10]),
        "zeros": st.sampled_from([0., 0., 0., 0.3, 0.8]) if zeros else st.just(0.),
        "dtype": st.sampled_from(["f8", "f8", "f8", "i8"]),
        "order": st.sampled_from(["C", "C", "F", "S"]),
        "signed": st.just(False),
    })


def missing():
    """Missing values: where they are, and what marks them."""
    return st.fixed_dictionaries({
        "frac": st.sampled_from([0., 0.05, 0.2, 0.5, 0.8]), "seed": seed(),
        "mark": st.sampled_from(["nan", "nan", "nan", "inf", "-inf"])})


def spoil(spec, a):
    """A float copy of a with the missing values, and their mask."""
    r = np.random.RandomState(spec["seed"])
    bad = r.uniform(size=np.shape(a)) < spec["frac"]
    if not bad.any():
        bad.flat[r.randint(bad.size)] = True
    out = np.array(a, dtype=float)
    out[bad] = float(spec["mark"])
    return out, bad


def spoiled(spec, a):
    """Missing values which follow from a field spec."""
    k = spec["seed"] ^ 0x5a5a
    return spoil({"frac": [0., 0.1, 0.3][k % 3], "seed": k, "mark": ["nan", "nan", "inf", "-inf"][k//3 % 4]}, a)


def zoom():
    """Units of length."""
    return st.sampled_from([1., 1., 1., 1., 1., 1., 1e-9, 1e9])


def tol(spec, base=1e-9):
    """Relative tolerance, wider for single precision input."""
    return 2e-5 if spec["dtype"] == "f4" else base


def amp(a):
    a = np.asarray(a, dtype=float)
    return float(np.max(np.abs(a))) if a.size else 0.


def f64(a):
    return np.asarray(a, dtype=float)
