"""Generated sets of points, as arrays of several shapes and memory layouts and
as scalars."""
import numpy as np
from hypothesis import strategies as st

from . import gen

PI = gen.PI
SHAPES = ("flat", "flat", "row", "column", "cube", "F", "strided", "one")


def coord(big=50.):
    return st.one_of(gen.num(-big, big), st.sampled_from([0., -0., 1., -1., 1e-6, -1e-6, 1e5, -1e5]))


def shape():
    return st.sampled_from(SHAPES)


def cloud(dim, nmax=9, big=50.):
    return st.lists(st.lists(coord(big), min_size=dim, max_size=dim), min_size=1, max_size=nmax)


def arrange(a, shape):
    """1D values to an array of that shape (values in order)."""
    a = np.array(a)
    n = len(a)
    if shape == "row":
        return a.reshape(1, n)
    if shape == "column":
        return a.reshape(n, 1)
    if shape == "cube":
        return a.reshape((n//2, 1, 2) if n % 2 == 0 else (n, 1, 1))
    if shape == "F":
        return np.asfortranarray(a.reshape((2, n//2) if n % 2 == 0 else (1, n)))
    if shape == "strided":
        b = np.full(2*n, 7., dtype=a.dtype)
        b[::2] = a
        return b[::2]
    if shape == "one":
        return a[:1].copy()
    return a.copy()


def flat(a):
    return np.ravel(np.asarray(a), order="C")


def scalars(fn, *arrays):
    """fn applied to the scalars of flat arrays; a tuple of arrays."""
    out = []
    for vals in zip(*[flat(a) for a in arrays]):
        r = fn(*[float(v) for v in vals])
        out.append(r if isinstance(r, tuple) else (r,))
    return [np.array([float(r[k]) for r in out]) for k in range(len(out[0]))]


def agree(ctx, fn, arrays, what, atol=1e-12, angles=(), tols=None):
    """The array result of fn, checked against its results for scalars; tols
    gives outputs which lose digits their own tolerance, a function of the
    results for scalars."""
    got = fn(*arrays)
    got = got if isinstance(got, tuple) else (got,)
    for k, (g, s) in enumerate(zip(got, scalars(fn, *arrays))):
        ctx.shape(g, np.shape(arrays[0]), "%s of an array" % what)
        if k in angles:
            ctx.angle_close(flat(g), s, "%s of an array and of scalars" % what, atol=max(atol, 1e-12))
        else:
            tol = tols[k](s) if tols and k in tols else atol
            ctx.close(flat(g), s, "%s of an array and of scalars" % what, atol=tol, rtol=1e-12)
    return got


SIZES = (200, 300, 501, 1000, 1025, 2000, 4097, 8193)


def sizes(*more):
    """Lengths of large arrays."""
    return st.one_of(st.sampled_from(SIZES + tuple(more)), st.integers(100, 9000))


def chunked(fn, arrays, n=37):
    """The results of fn for large 1D arrays, found from short pieces of them."""
    N = len(arrays[0])
    out = [fn(*[a[i:i + n].copy() for a in arrays]) for i in range(0, N, n)]
    out = [o if isinstance(o, tuple) else (o,) for o in out]
    return [np.concatenate([np.atleast_1d(o[k]) for o in out]) for k in range(len(out[0]))]


def large(ctx, fn, arrays, what, two=False):
    """fn of large arrays and of their pieces: lists of 1D results."""
    args = arrays
    if two:                 # as images
        m = max(d for d in range(1, int(len(arrays[0])**0.5) + 1) if len(arrays[0]) % d == 0)
        args = [a.reshape(m, -1) for a in arrays]
    got = fn(*args)
    got = got if isinstance(got, tuple) else (got,)
    for g in got:
        ctx.shape(g, args[0].shape, "%s of %d points" % (what, len(arrays[0])))
    return [flat(g) for g in got], chunked(fn, arrays)
