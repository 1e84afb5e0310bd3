"""C03: 1D rebinning propagates errors consistently."""
import numpy as np

from vlib import bins, gen
from vlib.core import clause

RULE = "at least two old bins, and a new bin that covers a part of an old bin only"


def run(c, ctx):
    import magpie
    f = magpie.one_d.rebin_1d
    old, new, data, w, sigma = bins.arrays(c)
    kw = {} if w is None else {"w": w}
    out = f(old, data, new, sigma=sigma, **kw)
    ctx.check(isinstance(out, tuple) and len(out) == 2, "values and errors must be returned")
    val, sig = out
    wval, wsig = bins.reference(old, new, data, w, sigma)
    amp, samp = gen.amp(data), gen.amp(sigma)
    rel = gen.tol(c["data"])
    bad = bins.masked(old, new, w)

    def ok(a, b=bad):
        return bins.drop(a, b)
    ctx.close(ok(sig), ok(wsig), "errors", atol=0., rtol=1e-8)
    ctx.close(ok(val), ok(wval), "values with errors", atol=rel*amp, rtol=rel)
    # asking for errors does not change the values
    alone = f(old, data, new, **kw)
    ctx.close(ok(val), ok(alone), "values with and without errors", atol=1e-12*amp, rtol=0.)
    # unchanged bins
    same = f(old, data, old, sigma=sigma, **kw)[1]
    none = np.zeros(len(data), bool) if w is None else w == 0
    ctx.close(ok(same, none), ok(sigma, none), "errors on the same bins", atol=0., rtol=1e-8)
    # scaling
    for k in (2., 2.**-50, 2.**50):
        ctx.close(ok(f(old, data, new, sigma=k*sigma, **kw)[1]), ok(k*gen.f64(sig)),
                  "errors rescaled by %g" % k, atol=0., rtol=1e-8)
    if w is not None:
        ctx.label("weighted", "zero weights" if np.any(w == 0) else "positive weights")
        for k in (4, 2.**-50, 2.**50):
            ctx.close(ok(f(old, data, new, sigma=sigma, w=k*w)[1]), ok(sig), "weights rescaled by %g" % k,
                      atol=0., rtol=1e-8)
    for k in (2.**-40, 2.**40):
        ctx.close(ok(f(k*gen.f64(old), data, k*gen.f64(new), sigma=sigma, **kw)[1]), ok(sig),
                  "errors with the axis stretched by %g" % k, atol=0., rtol=1e-8)
    part = bins.classify(ctx, old, new)
    ctx.label("edges:%s/%s" % (c["t1"], c["t2"]))
    ctx.mark(part and len(data) > 1)


@clause("C03", "errors", strategy=bins.case(sigma=True), quick=2500, thorough=80000, shards=3, rule=RULE)
def errors(c, ctx):
    run(c, ctx)


@clause("C03", "many_bins", strategy=bins.case(nmax=150, sigma=True), quick=300, thorough=8000, rule=RULE)
def errors_many(c, ctx):
    run(c, ctx)


@clause("C03", "large", strategy=bins.big(sigma=True), quick=250, thorough=4000, shards=2,
        rule="a hundred old bins or more, and a new bin that covers a part of an old bin only")
def large(c, ctx):
    """Hundreds or thousands of bins."""
    import magpie
    old, new, data, w, sigma = bins.big_arrays(c)
    kw = {k: v for k, v in (("w", w), ("sigma", sigma)) if v is not None}
    out = magpie.one_d.rebin_1d(old, data, new, **kw)
    val, sig = out if sigma is not None else (out, None)
    wval, wsig = bins.reference(old, new, data, w, sigma)
    bad = bins.masked(old, new, w)
    # new bins which cover no more than rounding of the old range
    l = bins.overlaps(old, new)
    bad |= (l.sum(axis=1) < 1e-7*(old[-1] - old[0])/len(data)) & (l.sum(axis=1) > 0.)
    if w is not None:
        with np.errstate(all="ignore"):
            bad |= (l*w).sum(axis=1) < 1e-6*l.sum(axis=1)
    ctx.close(bins.drop(val, bad), bins.drop(wval, bad), "values of %d bins" % c["n"], atol=1e-7*np.max(np.abs(data)), rtol=0.)
    if sigma is not None:
        ctx.close(bins.drop(sig, bad), bins.drop(wsig, bad), "errors of %d bins" % c["n"], atol=1e-9, rtol=1e-6)
    ctx.label("n>256" if c["n"] > 256 else "n<=256", c["new"], c["grid"])
    ctx.mark(np.any((l > 0.) & (l < np.diff(old)[None, :]*(1. - 1e-9))))
