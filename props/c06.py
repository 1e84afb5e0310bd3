"""C06: radial profiles are the masked azimuthal averages of polar data."""
import numpy as np
from hypothesis import strategies as st

from props import c04, c05, c09, c12
from vlib import gen
from vlib.core import clause

PI = np.pi


def profile(f, area, pixarea, sigma=None, w=None):
    """The (weighted) mean over the angular axis and its error."""
    w = np.ones(np.shape(f)) if w is None else gen.f64(w)
    f = np.where(w == 0., 0., gen.f64(f))
    W = w.sum(axis=0)
    with np.errstate(all="ignore"):
        mean = (f*w).sum(axis=0)/W
        if sigma is None:
            return mean
        s = np.where(w == 0., 0., gen.f64(sigma))
        return mean, np.sqrt((pixarea/area*(w*s)**2).sum(axis=0))/np.abs(W)


@st.composite
def wmap(draw):
    """Weights, sometimes with zeros."""
    w = draw(gen.weights())
    w["zeros"] = draw(st.sampled_from([0., 0., 0.3, 0.8]))
    return w


def make_w(spec, shape):
    w = gen.make(spec, shape)
    if spec["zeros"]:
        z = np.random.RandomState(spec["seed"] ^ 77).uniform(size=shape) < spec["zeros"]
        w[z] = 0
    return w


def data(draw):
    return {"f": draw(gen.field()), "sigma": draw(st.one_of(st.none(), gen.field(signed=False))),
            "w": draw(st.one_of(st.none(), wmap()))}


@st.composite
def plain(draw):
    c = data(draw)
    c.update({"np": draw(st.integers(1, 12)), "nr": draw(st.integers(1, 12)),
              "area": draw(gen.seed()), "pixarea": draw(gen.pos(0.01, 10.))})
    return c


def compare(ctx, c, call, shape, area, pixarea, extra=None, ignore=None):
    f = gen.make(c["f"], shape).astype(float) if extra is not None else gen.make(c["f"], shape)
    sigma = None if c["sigma"] is None else gen.make(c["sigma"], shape)
    w = None if c["w"] is None else make_w(c["w"], shape)
    if extra is not None:
        f[~extra] = np.nan                 # what remapping gives outside
    args = [(n, a, np.copy(a)) for n, a in (("f", f), ("sigma", sigma), ("w", w)) if a is not None]
    kw = {}
    if sigma is not None:
        kw["sigma"] = sigma
    if w is not None:
        kw["w"] = w
    got = call(f, **kw)
    for n, a, b in args:
        ctx.check(a.dtype == b.dtype and a.tobytes() == b.tobytes(), "%s was modified", n)
    we = w
    if extra is not None and not extra.all():
        we = np.where(extra, 1. if w is None else gen.f64(w), 0.)
    want = profile(f, area, pixarea, sigma, we)
    skip = np.zeros(shape[1], bool) if ignore is None else ignore
    amp = gen.amp(np.where(np.isnan(f), 0., gen.f64(f)))
    wmax = 1. if we is None or not np.any(we) else float(np.max(we)/np.min(np.where(we > 0., we, np.inf)))

    def check(g, v, what, a, rel):
        ctx.shape(g, (shape[1],), what)
        ctx.close(np.where(skip, 0., g), np.where(skip, 0., v), what,
                  atol=rel*a*max(1., wmax) + 1e-300, rtol=max(1e-9, rel))
    rel = gen.tol(c["f"], 1e-11)
    if sigma is None:
        check(got, want, "profile", amp, rel)
    else:
        ctx.check(isinstance(got, tuple) and len(got) == 2, "two arrays expected, got %r", type(got))
        check(got[0], want[0], "profile", amp, rel)
        check(got[1], want[1], "errors of the profile", 1e-30, gen.tol(c["sigma"], 1e-10))
        ctx.label("with errors")
    if w is not None:
        ctx.label("with weights", "zero weights" if np.any(w == 0) else "positive weights")
    return want


@clause("C06", "mean", strategy=plain(), quick=3000, thorough=100000, shards=1,
        rule="several angular pixels and data which are not constant")
def mean(c, ctx):
    import magpie.polar as mp
    shape = (c["np"], c["nr"])
    area = np.random.RandomState(c["area"]).uniform(0.1, 2., shape)
    compare(ctx, c, lambda f, **kw: mp.polar2radial(f, area, c["pixarea"], **kw), shape, area, c["pixarea"])
    ctx.mark(c["np"] > 1 and np.ptp(gen.f64(gen.make(c["f"], shape))) > 0.)


@st.composite
def edges(draw):
    n = draw(st.integers(1, 12))
    r = [draw(st.one_of(st.just(0.), gen.num(0., 5.)))]
    for _ in range(n):
        r.append(r[-1] + draw(gen.pos(0.01, 3.)))
    p0 = draw(st.one_of(st.just(0.), gen.phi(0., 1.9*PI)))
    p1 = draw(st.one_of(st.just(2.*PI), gen.phi(p0 + 0.01, 2.*PI)))
    z = draw(gen.zoom())
    r = [v*z for v in r]
    return {"r": r, "p": [p0, p1, draw(st.integers(1, 12))], "f": draw(gen.field()),
            "sigma": draw(st.one_of(st.none(), gen.field(signed=False))),
            "dx": z*draw(gen.pos(0.1, 4.)), "dy": z*draw(gen.pos(0.1, 4.)), "x0": z*draw(gen.num(-5., 5.)),
            "nx": draw(st.integers(1, 9)), "ny": draw(st.integers(1, 9))}


@clause("C06", "areas_and_cumulative", strategy=edges(), quick=3000, thorough=100000, shards=1,
        rule="at least two rings")
def areas(c, ctx):
    import magpie.polar as mp
    r = np.array(c["r"])
    p = np.linspace(*c["p"][:2], c["p"][2] + 1)
    a = mp.get_polar_area2d(r, p)
    want = 0.5*(r[1:]**2 - r[:-1]**2)[None, :]*np.diff(p)[:, None]
    ctx.close(a, want, "areas", atol=1e-12*r[-1]**2)
    ctx.close(np.sum(a), 0.5*(r[-1]**2 - r[0]**2)*(c["p"][1] - c["p"][0]), "total area", atol=1e-10*r[-1]**2)
    x = c["x0"] + c["dx"]*np.arange(c["nx"] + 1)
    y = c["x0"] + c["dy"]*np.arange(c["ny"] + 1)
    ctx.close(mp.get_pixarea(x, y), c["dx"]*c["dy"], "pixel area", atol=0., rtol=1e-9)
    n = len(r) - 1
    f = gen.make(c["f"], n)
    ring = PI*(r[1:]**2 - r[:-1]**2)
    want = np.zeros(n + 1)
    for i in range(n):
        want[i + 1] = want[i] + ring[i]*float(f[i])
    tol = gen.tol(c["f"], 1e-11)*gen.amp(f)*PI*r[-1]**2 + 1e-300
    if c["sigma"] is None:
        got = mp.cumulative_radial(r, f)
    else:
        s = gen.make(c["sigma"], n)
        got = mp.cumulative_radial(r, f, sigma=s)
        ctx.check(isinstance(got, tuple) and len(got) == 2, "two arrays expected, got %r", type(got))
        got, err = got
        ctx.close(err, np.concatenate([[0.], np.sqrt(np.cumsum((ring*gen.f64(s))**2))]),
                  "cumulative errors", atol=1e-300, rtol=gen.tol(c["sigma"], 1e-9))
        ctx.label("with errors")
    ctx.check(np.shape(got) == (n + 1,) and got[0] == 0., "the cumulative profile does not start at 0")
    ctx.close(got, want, "cumulative profile", atol=tol, rtol=0.)
    ctx.mark(n > 1)


# ------------------------------------------------------------ missing values
@st.composite
def missing_case(draw):
    c = draw(plain())
    c["miss"] = draw(gen.missing())
    c["miss2"] = draw(gen.missing())
    return c


@clause("C06", "missing", strategy=missing_case(), quick=1500, thorough=40000,
        rule="some rings have a missing value and others do not")
def missing(c, ctx):
    """Missing values spoil the rings they are in (and the cumulative profile
    from there on), and no others."""
    import magpie.polar as mp
    shape = (c["np"], c["nr"])
    area = np.random.RandomState(c["area"]).uniform(0.1, 2., shape)
    f0 = gen.f64(gen.make(c["f"], shape))
    f, bad = gen.spoil(c["miss"], f0)
    s0 = None if c["sigma"] is None else gen.f64(gen.make(c["sigma"], shape))
    w = None if c["w"] is None else gen.f64(make_w(c["w"], shape))
    live = np.ones(shape, bool) if w is None else w != 0.
    kw = {} if w is None else {"w": w}
    with np.errstate(all="ignore"):
        a, b = mp.polar2radial(f, area, c["pixarea"], **kw), mp.polar2radial(f0, area, c["pixarea"], **kw)
        # what a missing value without weight does is left open
        ctx.missing(a, b, (bad & live).any(axis=0), ~bad.any(axis=0), "profile", 1e-9*gen.amp(f0) + 1e-300)
        if s0 is not None:
            s, sbad = gen.spoil(c["miss2"], s0)
            a2, e = mp.polar2radial(f, area, c["pixarea"], sigma=s, **kw)
            _, e0 = mp.polar2radial(f0, area, c["pixarea"], sigma=s0, **kw)
            ctx.close(a2, a, "profile with errors", atol=0., rtol=0.)
            ctx.missing(e, e0, (sbad & live).any(axis=0), ~sbad.any(axis=0), "errors of the profile",
                        1e-9*gen.amp(s0) + 1e-300)
        r = np.linspace(0.5, 3., c["nr"] + 1)
        g, gbad = f[0], np.concatenate([[False], np.cumsum(bad[0]) > 0])
        ctx.missing(mp.cumulative_radial(r, g), mp.cumulative_radial(r, f0[0]), gbad, ~gbad, "cumulative profile",
                    1e-9*gen.amp(f0)*30. + 1e-300)
        if s0 is not None:
            ebad = np.concatenate([[False], np.cumsum(sbad[0]) > 0])
            ctx.missing(mp.cumulative_radial(r, g, sigma=s[0])[1], mp.cumulative_radial(r, f0[0], sigma=s0[0])[1],
                        ebad, ~ebad, "errors of the cumulative profile", 1e-9*gen.amp(s0)*30. + 1e-300)
    ctx.mark((bad & live).any() and not bad.any(axis=0).all())


@st.composite
def method(draw, case):
    c = draw(case)
    c["f"] = draw(gen.field())
    c["extra"] = {"sigma": draw(st.one_of(st.none(), gen.field(signed=False))),
                  "w": draw(st.one_of(st.none(), wmap()))}
    c["first"] = draw(st.sampled_from(["nothing", "mask", "remap"]))
    return c


def spec(c):
    return {"f": c["f"], "sigma": c["extra"]["sigma"], "w": c["extra"]["w"]}


@clause("C06", "dense_ring", strategy=method(c05.case(7, 6, 5, 4)), quick=1200, thorough=40000, shards=1,
        rule="some pixels are wholly inside the box and some are not")
def dense_ring(c, ctx):
    o = c05.setup(c)
    b = c["box"]
    one = c05.reference(c, np.ones((b["ny"], b["nx"])))
    inside, amb = one[1] > 1. - 1e-9, (one[0] < 1. - 1e-9) & (one[1] > 1. - 1e-9)
    shape = inside.shape
    re, pe = c04.redges(dict(c, log=None)), c04.pedges(c)
    area = 0.5*(re[1:]**2 - re[:-1]**2)[None, :]*np.diff(pe)[:, None]
    pixarea = (b["x1"] - b["x0"])*(b["y1"] - b["y0"])/b["nx"]/b["ny"]
    if c["first"] == "mask":
        o.get_mask_in_bound(verbose=False)
    elif c["first"] == "remap":
        o.remap(np.ones((b["ny"], b["nx"])), verbose=False)
    compare(ctx, spec(c), o.polar2radial, shape, area, pixarea, extra=inside, ignore=amb.any(axis=0))
    ctx.label("all inside" if inside.all() else "mixed" if inside.any() else "none inside")
    ctx.mark(inside.any() and not inside.all())


@clause("C06", "monte_carlo_ring", strategy=method(c04.case(6, 5, 5, (200, 500))), quick=400,
        thorough=20000, shards=2,
        rule="some pixels lie inside the box and some wholly outside")
def mc_ring(c, ctx):
    o = c04.setup(c)
    b = c["box"]
    o.get_weights(mc_size=c["size"], verbose=False)
    P = c04.overlaps(c, 60)
    inside = 1. - P[:, -1]
    shape = (c["ang"]["np"], c["rad"]["nr"])
    inside = inside.reshape(shape)
    yes = inside > 0.3
    # a corner which the quadrature misses may be hit
    amb = ~yes & ((inside > 0.) | np.array([[any(c04.touches(c, i, j, k) for k in range(b["nx"]*b["ny"]))
                                             if inside[i, j] == 0. else True
                                             for j in range(shape[1])] for i in range(shape[0])]))
    re, pe = c04.redges(c), c04.pedges(c)
    area = 0.5*(re[1:]**2 - re[:-1]**2)[None, :]*np.diff(pe)[:, None]
    pixarea = (b["x1"] - b["x0"])*(b["y1"] - b["y0"])/b["nx"]/b["ny"]
    if c["first"] == "mask":
        o.get_mask_in_bound(verbose=False)
    compare(ctx, spec(c), o.polar2radial, shape, area, pixarea, extra=yes | amb, ignore=amb.any(axis=0))
    ctx.label("all inside" if yes.all() else "mixed" if yes.any() else "none inside",
              "log" if c["log"] is not None else "linear")
    ctx.mark(yes.any() and not (yes | amb).all())


def cap_areas(c):
    import healpy as hp
    k = c["cap"]
    ae = np.linspace(k["a0"], k["a1"], k["na"] + 1)
    a = (np.cos(ae[:-1]) - np.cos(ae[1:]))*(k["b1"] - k["b0"])/k["nb"]
    return np.broadcast_to(a, (k["nb"], k["na"])), hp.nside2pixarea(c["nside"])


@clause("C06", "dense_cap", strategy=method(c09.case(6, 6, 2, 8)), quick=700, thorough=20000, shards=1,
        rule="several angular pixels and data which are not constant")
def dense_cap(c, ctx):
    o = c09.setup(c)
    area, pixarea = cap_areas(c)
    compare(ctx, spec(c), o.polar2radial, area.shape, area, pixarea)
    ctx.mark(area.shape[0] > 1 and np.ptp(gen.f64(gen.make(c["f"], area.shape))) > 0.)


@clause("C06", "monte_carlo_cap", strategy=method(c12.ring(4, (50,))), quick=500, thorough=20000,
        shards=1, rule="several angular pixels and data which are not constant")
def mc_cap(c, ctx):
    o = c12.setup_ring(c)
    if c["first"] != "nothing":
        o.get_weights(mc_size=c["size"], verbose=False)
    area, pixarea = cap_areas(c)
    compare(ctx, spec(c), o.polar2radial, area.shape, area, pixarea)
    ctx.mark(area.shape[0] > 1 and np.ptp(gen.f64(gen.make(c["f"], area.shape))) > 0.)
