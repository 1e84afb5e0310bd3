"""C02: 1D rebinning is the overlap-weighted mean for arbitrary bins."""
import numpy as np
from hypothesis import strategies as st

from vlib import bins, gen
from vlib.core import clause


def values(out, c):
    return out[0] if c["sigma"] is not None else out


def run(c, ctx):
    import magpie
    old, new, data, w, sigma = bins.arrays(c)
    kw = {}
    if w is not None:
        kw["w"] = w
        ctx.label("weighted")
    if sigma is not None:
        kw["sigma"] = sigma
    got = values(magpie.one_d.rebin_1d(old, data, new, **kw), c)
    want, _ = bins.reference(old, new, data, w)
    amp = gen.amp(data)
    rel = gen.tol(c["data"])
    bad = bins.masked(old, new, w)
    if w is not None and np.any(w == 0):
        ctx.label("zero weights")
    ctx.close(bins.drop(got, bad), bins.drop(want, bad), "rebinned values", atol=rel*amp, rtol=rel)
    ctx.label("data:%s weights:%s" % (data.dtype, None if w is None else w.dtype))
    part = bins.classify(ctx, old, new)
    ctx.label("edges:%s/%s" % (c["t1"], c["t2"]))
    ctx.mark(part and len(data) > 1)
    # unchanged bins give the data back
    same = values(magpie.one_d.rebin_1d(old, data, old, **kw), c)
    bad = np.zeros(len(data), bool) if w is None else w == 0
    ctx.close(bins.drop(same, bad), bins.drop(data, bad), "rebinning onto the same bins", atol=rel*amp, rtol=rel)


RULE = "at least two old bins, and a new bin that covers a part of an old bin only"


@clause("C02", "values", strategy=bins.case(), quick=2500, thorough=100000, shards=3, rule=RULE)
def values_small(c, ctx):
    run(c, ctx)


@clause("C02", "many_bins", strategy=bins.case(nmax=150), quick=300, thorough=8000, rule=RULE)
def values_many(c, ctx):
    run(c, ctx)


@clause("C02", "metamorphic", strategy=bins.case(), quick=1500, thorough=40000, rule=RULE)
def metamorphic(c, ctx):
    """Laws that hold for any weighting by overlap: scale and shift of the axis,
    linearity, weight rescaling, and merging new bins."""
    import magpie
    old, new, data, w, _ = bins.arrays(dict(c, sigma=None))
    old, new, data = gen.f64(old), gen.f64(new), gen.f64(data)
    kw = {} if w is None else {"w": gen.f64(w)}
    bad = bins.masked(old, new, w)

    g = magpie.one_d.rebin_1d

    def f(*a, **k):
        return np.where(bad, np.nan, g(*a, **k))
    base = f(old, data, new, **kw)
    amp = gen.amp(data)
    tol = dict(atol=1e-8*amp, rtol=0.)
    for k in (4., 2.**-40, 2.**40):
        ctx.close(f(k*old, data, k*new, **kw), base, "axis stretched by %g" % k, **tol)
    mirror = g(-old[::-1], data[::-1], -new[::-1], **({} if w is None else {"w": gen.f64(w)[::-1]}))
    ctx.close(np.where(bad, np.nan, mirror[::-1]), base, "mirrored axis", **tol)
    ctx.close(f(old, 2.*data + amp, new, **kw), 2.*base + amp, "linearity", **tol)
    if w is not None:
        for k in (8., 2.**-60, 2.**60):
            ctx.close(f(old, data, new, w=k*gen.f64(w)), base, "weights rescaled by %g" % k, **tol)
    else:
        ctx.close(f(old, data, new, w=np.full(len(data), 3.)), base, "uniform weights", **tol)
        # total over contiguous new bins inside the range
        l = bins.overlaps(old, new).sum(axis=1)
        whole = g(old, data, np.array([new[0], new[-1]]))
        if np.any(l > 0.):
            tot = np.nansum(np.where(l > 0., l*np.nan_to_num(base), 0.))
            ctx.close(tot, l.sum()*whole[0], "integral", atol=1e-8*amp*l.sum(), rtol=0.)
    ctx.mark(bins.classify(ctx, old, new) and len(data) > 1)


@clause("C02", "single_bin_weights", strategy=bins.case(), quick=2000, thorough=60000, rule=RULE)
def single(c, ctx):
    import magpie
    old, new, data, _, _ = bins.arrays(c)
    l = bins.overlaps(old, new)
    L = np.diff(gen.f64(old))
    for j in range(len(new) - 1):
        w = magpie.one_d.rebin_1d_single_bin_weights(old, new[j], new[j + 1])
        if l[j].sum() == 0.:
            ctx.check(np.all(np.isnan(w)), "weights of a bin without overlap: %r", w)
            continue
        ctx.shape(w, (len(old) - 1,), "weights")
        g = gen.f64(w)*L
        ctx.close(g/g.sum(), l[j]/l[j].sum(), "relative weights", atol=1e-9, rtol=0.)
    ctx.mark(bins.classify(ctx, old, new) and len(data) > 1)


@clause("C02", "large", strategy=bins.big(), quick=250, thorough=4000, shards=2,
        rule="a hundred old bins or more, and a new bin that covers a part of an old bin only")
def large(c, ctx):
    """Hundreds or thousands of bins."""
    import magpie
    old, new, data, w, sigma = bins.big_arrays(c)
    kw = {k: v for k, v in (("w", w), ("sigma", sigma)) if v is not None}
    out = magpie.one_d.rebin_1d(old, data, new, **kw)
    val, sig = out if sigma is not None else (out, None)
    wval, wsig = bins.reference(old, new, data, w, sigma)
    bad = bins.masked(old, new, w)
    # new bins which cover no more than rounding of the old range
    l = bins.overlaps(old, new)
    bad |= (l.sum(axis=1) < 1e-7*(old[-1] - old[0])/len(data)) & (l.sum(axis=1) > 0.)
    if w is not None:
        with np.errstate(all="ignore"):
            bad |= (l*w).sum(axis=1) < 1e-6*l.sum(axis=1)
    ctx.close(bins.drop(val, bad), bins.drop(wval, bad), "values of %d bins" % c["n"], atol=1e-7*np.max(np.abs(data)), rtol=0.)
    if sigma is not None:
        ctx.close(bins.drop(sig, bad), bins.drop(wsig, bad), "errors of %d bins" % c["n"], atol=1e-9, rtol=1e-6)
    ctx.label("n>256" if c["n"] > 256 else "n<=256", c["new"], c["grid"])
    ctx.mark(np.any((l > 0.) & (l < np.diff(old)[None, :]*(1. - 1e-9))))


@st.composite
def missing_case(draw):
    return {"bins": draw(bins.case()), "miss": draw(gen.missing()), "which": draw(st.sampled_from(["data", "data", "sigma"]))}


@clause("C02", "missing", strategy=missing_case(), quick=1500, thorough=40000,
        rule="some new bins overlap a missing value and others do not")
def missing(c, ctx):
    """Missing values spoil the new bins they overlap, and only those."""
    import magpie
    b = dict(c["bins"])
    if c["which"] == "sigma" and b["sigma"] is None:
        b["sigma"] = dict(b["data"], kind="ramp", signed=False, dtype="f8")
    old, new, data, w, sigma = bins.arrays(b)
    kw = {k: v for k, v in (("w", w), ("sigma", sigma)) if v is not None}
    base = magpie.one_d.rebin_1d(old, data, new, **kw)
    if c["which"] == "data":
        data, bad = gen.spoil(c["miss"], data)
        tol = gen.tol(b["data"])*gen.amp(data[~bad])
        i = 0
    else:
        kw["sigma"], bad = gen.spoil(c["miss"], sigma)
        tol = 1e-7*gen.amp(sigma)
        i = 1
    got = magpie.one_d.rebin_1d(old, data, new, **kw)
    if sigma is not None:
        got, base = got[i], base[i]
    if w is not None:
        bad = bad & (w != 0)
    l = bins.overlaps(old, new)
    hit = (l[:, bad] > 0.).any(axis=1)
    zero = np.zeros(len(l), bool) if w is None else ((l > 0.) & (w == 0)[None, :]).any(axis=1)
    none = bins.masked(old, new, w)
    ctx.missing(got, base, hit & ~none, ~hit & ~zero & ~none, "%s with missing values" % c["which"], tol + 1e-300)
    ctx.label(c["which"], c["miss"]["mark"], "weighted" if w is not None else "unweighted")
    ctx.mark(hit.any() and (~hit & (l.sum(axis=1) > 0.)).any())
