"""C23: randoms from a distribution follow that distribution."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, stats
from vlib.core import clause

PI = np.pi


@st.composite
def density(draw, nmin=2, nmax=40, zeros=False):
    n = draw(st.one_of(*[st.integers(nmin, nmax)]*5, st.sampled_from([99, 100, 128, 257, 1000, 5000])))
    kind = draw(st.sampled_from(["rng", "rng", "ramp", "peak", "flat", "steps"]))
    rng = np.random.RandomState(draw(gen.seed()))
    t = (np.arange(n) + 0.5)/n
    p = {"rng": rng.uniform(0.05, 1., n), "ramp": 0.05 + t, "peak": 0.02 + np.exp(-(t - 0.4)**2/0.02),
         "flat": np.ones(n), "steps": np.where(t < 0.5, 1., 0.1)}[kind]
    if zeros and draw(st.booleans()):
        p = np.where(rng.uniform(size=n) < 0.4, 0., p)
        p[rng.randint(n)] = 1.
    z = draw(gen.zoom())
    if n > 1 and kind != "flat" and draw(st.integers(0, 3)) == 0:           # nearly empty bins, at the ends
        thin = draw(st.sampled_from([1e-2, 1e-3, 1e-4]))*p.mean()
        for k in draw(st.sampled_from([[0], [-1], [0, -1]])) if n > 2 else [0]:
            p[k] = thin
    return {"pdf": (p*draw(st.sampled_from([1., 1., 10., 1e-3, 1e4, 1e-13, 1e13]))).tolist(), "x0": z*draw(gen.num(-20., 20.)),
            "dx": z*draw(gen.pos(0.01, 3.)), "kind": kind, "rng": draw(gen.seed()),
            "dtype": draw(st.sampled_from(["f8", "f8", "f8", "f8", "i8", "i8", "u1", "i2", "u4"]))}


def arrays(c):
    p = np.array(c["pdf"])
    if c["dtype"] != "f8":
        # counts
        top = {"i8": 20., "u1": 200., "i2": 20000., "u4": 4e9}[c["dtype"]]
        p = np.maximum(np.rint(p*(top/p.max())), (p > 0.)).astype(c["dtype"])
    n = len(p)
    x = c["x0"] + c["dx"]*(np.arange(n) + 0.5)
    return x, p, c["x0"] + c["dx"]*np.arange(n + 1)


@clause("C23", "cumulative", strategy=density(zeros=True), quick=2500, thorough=60000,
        rule="a density that is not flat, with at least three bins")
def cumulative(c, ctx):
    from magpie import randoms
    x, p, e = arrays(c)
    X, C, P = randoms.pdf2cdf(x, p)
    t = 1e-12*(abs(c["x0"]) + c["dx"]*len(p))
    ctx.close(X, e, "bin edges", atol=1e-11*(abs(c["x0"]) + c["dx"]*len(p)), rtol=0.)
    f = gen.f64(p)
    want = np.append(0., np.cumsum(f))/np.sum(f)
    ctx.close(C, want, "cumulative distribution", atol=1e-12, rtol=0.)
    ctx.check(C[0] == 0. and C[-1] == 1., "it runs from %r to %r", C[0], C[-1])
    ctx.check(np.all(np.diff(C) >= 0.), "it decreases")
    ctx.close(P, f/(f.sum()*c["dx"]), "normalised density", atol=0., rtol=1e-9)
    ctx.close(np.sum(P)*c["dx"], 1., "integral of the normalised density", atol=0., rtol=1e-9)
    X2, C2 = randoms.pdf2cdf(x, p, return_normpdf=False)
    ctx.close(X2, X, "bin edges (alone)", atol=t, rtol=0.)
    ctx.close(C2, C, "cumulative distribution (alone)", atol=1e-15, rtol=0.)
    X3, C3, P3 = randoms.pdf2cdf(x, p, return_normpdf=True)
    ctx.close(P3, P, "normalised density (asked for)", atol=0.)
    ctx.label("zeros" if np.any(f == 0.) else "positive", c["kind"])
    ctx.mark(len(p) > 2 and np.ptp(f) > 0.)


sizes = st.sampled_from([6000]*14 + [20000]*6 + [0, 1, 7]*3 + [1000000])


def follows(ctx, r, e, C, size, what):
    ctx.shape(r, (size,), what)
    if not size:
        return
    span = e[-1] - e[0]
    ctx.check(np.all(np.isfinite(r)), "%s: not finite", what)
    ctx.inside(r, e[0], e[-1], what, tol=1e-9*(span + abs(e[0])))
    flat = np.flatnonzero(np.diff(C) == 0.)
    if len(flat):
        k = np.clip(np.searchsorted(e, r) - 1, 0, len(e) - 2)
        t = 1e-9*(span + abs(e[0]))
        bad = np.isin(k, flat) & (r > e[k] + t) & (r < e[k + 1] - t)
        ctx.check(not np.any(bad), "%s: %d of %d values where the density is zero, e.g. %r", what, int(bad.sum()), size,
                  float(r[bad][0]) if np.any(bad) else None)
        ctx.label("empty bins")
    if size < 200:
        return
    # no value is drawn twice, unless by the rounding of narrow bins
    live = np.diff(C) > 0.
    if np.min(np.diff(e)[live]) > 1e-5*max(abs(e[0]), abs(e[-1])):
        ties = size - len(np.unique(r))
        ctx.check(ties <= 3, "%s: %d of %d values are drawn more than once", what, ties, size)
        ctx.label("no ties")
    stats.uniform(ctx, np.clip(np.interp(r, e, C), 0., 1.), what, tol=1e-9)
    stats.independent(ctx, [np.clip(np.interp(r, e, C), 0., 1.)], what)


@clause("C23", "from_density", strategy=st.fixed_dictionaries({"d": density(zeros=True), "size": sizes, "rng": gen.seed()}),
        quick=800, thorough=20000, rule="at least 6000 draws from a density that is not flat")
def from_density(c, ctx):
    from magpie import randoms
    x, p, e = arrays(c["d"])
    C = np.append(0., np.cumsum(p))/np.sum(p)
    r = randoms.randoms_pdf(x, p, c["size"], kind="linear")
    follows(ctx, r, e, C, c["size"], "draws from a density")
    ctx.mark(c["size"] >= 6000 and np.ptp(gen.f64(p)) > 0.)


@st.composite
def cdf_case(draw):
    n = draw(st.integers(1, 20))
    rng = np.random.RandomState(draw(gen.seed()))
    steps = rng.uniform(0.05, 1., n)
    if n > 1 and draw(st.integers(0, 3)) == 0:          # nearly empty pieces, at the ends
        thin = draw(st.sampled_from([1e-2, 1e-3, 1e-4]))*steps.mean()
        for k in draw(st.sampled_from([[0], [-1], [0, -1]])) if n > 2 else [0]:
            steps[k] = thin
    if n > 1 and draw(st.integers(0, 2)) == 0:          # gaps
        keep = rng.randint(n)
        steps[(rng.uniform(size=n) < 0.4) & (np.arange(n) != keep)] = 0.
    z = draw(gen.zoom())
    return {"x": (z*np.cumsum(np.append(draw(gen.num(-20., 20.)), rng.uniform(0.05, 2., n)))).tolist(),
            "c": (np.cumsum(steps)/steps.sum()).tolist(), "size": draw(sizes), "rng": draw(gen.seed())}


@clause("C23", "from_cumulative", strategy=cdf_case(), quick=800, thorough=20000,
        rule="at least 6000 draws from a distribution of at least two pieces")
def from_cumulative(c, ctx):
    from magpie import randoms
    x, C = np.array(c["x"]), np.array([0.] + c["c"])
    C[C >= C[-1]] = 1.
    r = randoms.randoms_cdf(x, C, c["size"], kind="linear")
    follows(ctx, r, x, C, c["size"], "draws from a distribution")
    ctx.mark(c["size"] >= 6000 and len(x) > 2)


@st.composite
def smooth_case(draw):
    return {"n": draw(st.integers(8, 60)), "a": draw(st.floats(0., 0.5)), "k": draw(st.sampled_from([0.5, 1.])),
            "ph": draw(gen.phi()), "x0": draw(gen.num(-20., 20.)), "dx": draw(gen.pos(0.01, 3.)),
            "size": draw(st.sampled_from([6000, 20000, 5])), "rng": draw(gen.seed()),
            "how": draw(st.sampled_from(["default", "default", "cubic", "quadratic"])),
            "via": draw(st.sampled_from(["pdf", "cdf"]))}


@clause("C23", "smooth", strategy=smooth_case(), quick=600, thorough=15000,
        rule="at least 6000 draws from a density that is not flat")
def smooth(c, ctx):
    """The smoother interpolations, on densities that vary slowly: the share of
    the draws below each bin edge is the cumulative distribution."""
    from magpie import randoms
    n = c["n"]
    t = (np.arange(n) + 0.5)/n
    p = 1. + c["a"]*np.sin(2.*PI*c["k"]*t + c["ph"])
    x = c["x0"] + c["dx"]*(np.arange(n) + 0.5)
    e = c["x0"] + c["dx"]*np.arange(n + 1)
    C = np.append(0., np.cumsum(p))/np.sum(p)
    C[-1] = 1.
    kw = {} if c["how"] == "default" else {"kind": c["how"]}
    if c["via"] == "pdf":
        r = randoms.randoms_pdf(x, p, c["size"], **kw)
    else:
        r = randoms.randoms_cdf(e, C, c["size"], **kw)
    ctx.shape(r, (c["size"],), "draws")
    span = e[-1] - e[0]
    ctx.inside(r, e[0], e[-1], "draws", tol=1e-9*(span + abs(e[0])))
    if c["size"] < 200:
        return
    share = np.searchsorted(np.sort(r), e[1:-1])/c["size"]
    lim = stats.ks_limit(c["size"])
    ctx.check(np.all(np.abs(share - C[1:-1]) <= lim + 1e-6), "the share of draws below a bin edge is off by %.4f",
              float(np.abs(share - C[1:-1]).max()))
    # in between as well, where the density hardly changes within a bin
    u = np.interp(r, e, C)
    stats.uniform(ctx, np.clip(u, 0., 1.), "draws", tol=1e-9, bins=False) if n >= 20 else None
    ctx.label(c["how"], c["via"])
    ctx.mark(c["a"] > 0.01)
