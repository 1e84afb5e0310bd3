"""Oracles shared by the Monte Carlo remappings (C04, C07, C12).

The weights are observed from outside: remapping each unit field gives the
matrix W of effective weights, which is compared with the overlaps.
"""
import numpy as np

from . import gen
from .core import Violation

LOGP = 36.          # -log of the largest probability of a false alarm, per value


def matrix(remap, shape):
    """Effective weights, (number of output pixels, number of input pixels)."""
    n = int(np.prod(shape))
    cols = []
    for k in range(n):
        e = np.zeros(n)
        e[k] = 1.
        cols.append(np.asarray(remap(e.reshape(shape)), dtype=float).ravel())
    return np.stack(cols, axis=1)


def kl(p, q):
    """Relative entropy of coins, elementwise, with q in [0, 1]."""
    with np.errstate(all="ignore"):
        a = np.where(p > 0., p*np.log(p/q), 0.)
        b = np.where(p < 1., (1. - p)*np.log((1. - p)/(1. - q)), 0.)
    return a + b


def surprising(got, q, tol, n):
    """Where a frequency of n draws cannot come from probabilities in q +- tol
    (Chernoff bound)."""
    lo, hi = np.clip(q - tol, 0., 1.), np.clip(q + tol, 0., 1.)
    near = np.clip(got, lo, hi)
    n = np.broadcast_to(n, got.shape)
    with np.errstate(all="ignore"):
        d = kl(got, near)
    return (got != near) & (n*np.where(np.isnan(d), np.inf, d) > LOGP)


def enough(n, p):
    """A number of hits which is exceeded with overwhelming probability, out of
    n draws with probability p."""
    m = n*p
    return np.maximum(0., np.floor(m - np.sqrt(2.*LOGP*m)))


def check_field(ctx, spec_f, spec_w, shape, remap, W, oshape, fill, what):
    """remap(f, w) against the matrix of weights."""
    f = gen.make(spec_f, shape)
    f64 = gen.f64(f).ravel()
    amp, rel = gen.amp(f), gen.tol(spec_f)
    known = np.isfinite(W).all(axis=1)

    def fin(want):
        return np.where(known, want, fill).reshape(oshape)
    W0 = np.where(known[:, None], W, 0.)
    got = remap(f)
    ctx.close(got, fin(W0 @ f64), what, atol=rel*amp + 1e-300, rtol=0.)
    # range of the overlapped values
    has = W0 > 0.
    lo = np.where(has, f64[None, :], np.inf).min(axis=1)
    hi = np.where(has, f64[None, :], -np.inf).max(axis=1)
    g = np.asarray(got, dtype=float).ravel()[known]
    ctx.inside(g, lo[known], hi[known], what + " (range of the overlapped values)", tol=rel*amp)
    if spec_w is not None:
        w = gen.make(spec_w, shape)
        w64 = gen.f64(w).ravel()
        norm = W0 @ w64
        with np.errstate(all="ignore"):
            want = fin((W0 @ (w64*f64))/norm)
        got = np.array(remap(f, w=w), dtype=float)
        ctx.shape(got, oshape, "weighted " + what)
        masked = (known & (norm == 0.)).reshape(oshape)     # no weight at all: no mean
        got[masked] = want[masked] = 0.
        ctx.close(got, want, "weighted " + what, atol=10.*rel*amp + 1e-300, rtol=0.)
        ctx.label("weighted", "zero weights" if np.any(w64 == 0.) else "positive weights")
    g, bad = gen.spoiled(spec_f, f)
    hit = (known & (W0[:, bad.ravel()] > 0.).any(axis=1)).reshape(oshape)
    ctx.missing(remap(g), fin(W0 @ f64), hit, known.reshape(oshape) & ~hit, what + " with missing values", rel*amp + 1e-300)
    c = remap(np.full(shape, 2.5))
    ctx.close(c, fin(np.full(len(W), 2.5)), what + " of a constant", atol=1e-12)
    return f64


def check_rows(ctx, W, name):
    known = np.isfinite(W).all(axis=1)
    if np.isnan(W).any(axis=1).sum() != np.isnan(W).all(axis=1).sum():
        raise Violation("%s: pixels are undefined for some fields and not for others" % name)
    ctx.check(np.all(W[known] >= 0.), "%s: negative weights", name)
    s = W[known].sum(axis=1)
    ctx.check(np.all(np.abs(s - 1.) < 1e-9), "%s: the weights of a pixel sum to %r", name,
              float(s[np.argmax(np.abs(s - 1.))]) if s.size else 1.)
    return known


def check_mean(ctx, got, mean, width, hits, slack, what):
    """Means of at least `hits` samples of something with the given mean and
    range (Hoeffding's bound)."""
    got = np.asarray(got, dtype=float)
    tol = width*np.sqrt(LOGP/(2.*hits)) + slack
    bad = ~(np.abs(got - mean) <= tol)
    if np.any(bad):
        k = tuple(np.argwhere(bad)[0])
        raise Violation("%s: %d of %d values wrong; at %s got %r, expected %r +- %r"
                        % (what, int(bad.sum()), bad.size, [int(i) for i in k], float(got[k]),
                           float(mean[k]), float(tol[k])))
