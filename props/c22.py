"""C22: random points fill exactly the requested region, uniformly."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, geom, hpx, stats
from vlib.core import clause
from props import c17, c18

PI = np.pi
N = 8000
sizes = st.one_of(st.just(N), st.just(N), st.just(N), st.integers(0, 40), st.sampled_from([60000, 60000, 140001]))


def span(lo, hi, least=1e-3, most=None):
    """[a, b] with b >= a (sometimes b = a)."""
    @st.composite
    def f(draw):
        a = draw(st.one_of(gen.num(lo, hi), st.just(lo)))
        kind = draw(st.sampled_from(["any", "any", "any", "all", "none", "thin", "sliver"]))
        top = hi if most is None else most
        if kind == "none":
            return [a, a]
        if kind == "all":
            return [a, top] if top > a else [lo, top]
        if kind == "sliver":
            return [a, a + 5e-4] if a + 5e-4 <= top else [top - 5e-4, top]
        if kind == "thin":
            return [a, min(top, a + least*10)]
        return [a, min(top, a + draw(gen.pos(least, hi - lo)))]
    return f()


def sample(ctx, u, size, what, tol):
    """Each u is None (a degenerate range, checked before) or the position in the range."""
    if size < 200:
        for v in u:
            if v is not None and size:
                ctx.inside(v, 0., 1., what, tol=tol)
        return
    for k, v in enumerate(u):
        if v is not None:
            stats.uniform(ctx, v, "%s, coordinate %d" % (what, k), tol=tol)
            ctx.check(len(np.unique(v)) >= 0.98*len(v), "%s, coordinate %d: %d points have only %d values", what, k,
                      len(v), len(np.unique(v)))
    full = [np.clip(v, 0., 1.) for v in u if v is not None]
    if full:
        stats.independent(ctx, full, what)


def place(ctx, x, lo, hi, what, f=lambda v: v, tol=1e-13):
    """Positions of x within [lo, hi] by the measure f (None if lo = hi)."""
    ctx.check(np.all(np.isfinite(x)), "%s: not finite", what)
    big = max(abs(lo), abs(hi), 1e-300)
    ctx.inside(x, lo, hi, what, tol=tol*big)
    if lo == hi:
        return None
    return (f(x) - f(lo))/(f(hi) - f(lo))


RULE = "at least 2000 points and a region that is not the default"


@st.composite
def cart_case(draw, dim):
    return {"rng": draw(gen.seed()), "size": draw(sizes), "default": draw(st.integers(0, 6)) == 0,
            "ax": [draw(span(-30., 30.)) for _ in range(dim)]}


def cart(c, ctx, dim):
    from magpie import randoms
    n, ax = c["size"], c["ax"]
    if c["default"]:
        ax, kw = [[0., 1.]]*dim, {}
    elif dim == 1:
        kw = {"xmin": ax[0][0], "xmax": ax[0][1]}
    else:
        kw = {"mins": [a[0] for a in ax], "maxs": [a[1] for a in ax]}
    out = {1: randoms.randoms_1d, 2: randoms.randoms_2d, 3: randoms.randoms_3d}[dim](n, **kw)
    out = [out] if dim == 1 else list(out)
    ctx.check(len(out) == dim, "%d coordinates", len(out))
    us = []
    for x, (lo, hi) in zip(out, ax):
        ctx.shape(x, (n,), "points")
        us.append(place(ctx, x, lo, hi, "points"))
    sample(ctx, us, n, "points", 1e-9)
    ctx.mark(n >= 2000 and not c["default"] and any(u is not None for u in us))


@clause("C22", "interval", strategy=cart_case(1), quick=450, thorough=8000, rule=RULE)
def interval(c, ctx):
    cart(c, ctx, 1)


@clause("C22", "rectangle", strategy=cart_case(2), quick=450, thorough=8000, rule=RULE)
def rectangle(c, ctx):
    cart(c, ctx, 2)


@clause("C22", "cuboid", strategy=cart_case(3), quick=450, thorough=8000, rule=RULE)
def cuboid(c, ctx):
    cart(c, ctx, 3)


@st.composite
def region(draw):
    return {"rng": draw(gen.seed()), "size": draw(sizes), "default": draw(st.integers(0, 6)) == 0,
            "r": draw(span(0., 20., 0.01)), "p": draw(span(0., 2.*PI, 0.01)), "t": draw(span(0., PI, 0.01))}


def ends(c, key):
    if c["default"]:
        return {"r": [0., 1.], "p": [0., 2.*PI], "t": [0., PI]}[key]
    return c[key]


@clause("C22", "ring_segment", strategy=region(), quick=500, thorough=8000, rule=RULE)
def ring_segment(c, ctx):
    from magpie import randoms
    n, r, p = c["size"], ends(c, "r"), ends(c, "p")
    kw = {} if c["default"] else {"r_min": r[0], "r_max": r[1], "phi_min": p[0], "phi_max": p[1]}
    R, F = randoms.randoms_polar(n, **kw)
    ctx.shape(R, (n,), "radii")
    ctx.shape(F, (n,), "angles")
    us = [place(ctx, R, r[0], r[1], "radii", lambda v: v**2), place(ctx, F, p[0], p[1], "angles")]
    sample(ctx, us, n, "ring segment", 1e-6)
    ctx.mark(n >= 2000 and not c["default"] and all(u is not None for u in us))


@clause("C22", "shell_radius", strategy=region(), quick=450, thorough=8000, rule=RULE)
def shell_radius(c, ctx):
    from magpie import randoms
    n, r = c["size"], ends(c, "r")
    kw = {} if c["default"] else {"r_min": r[0], "r_max": r[1]}
    R = randoms.randoms_sphere_r(n, **kw)
    ctx.shape(R, (n,), "radii")
    us = [place(ctx, R, r[0], r[1], "radii", lambda v: v**3)]
    sample(ctx, us, n, "shell radius", 1e-6)
    ctx.mark(n >= 2000 and not c["default"] and all(u is not None for u in us))


def colat(ctx, T, t, what):
    # arccos loses half of the digits at the poles
    ctx.check(np.all(np.isfinite(T)), "%s: not finite", what)
    ctx.inside(T, t[0], t[1], what, tol=5e-8)
    if t[0] == t[1]:
        return None
    d = np.cos(t[0]) - np.cos(t[1])
    return (np.cos(t[0]) - np.cos(T))/d


@clause("C22", "shell_segment", strategy=region(), quick=500, thorough=8000, rule=RULE)
def shell_segment(c, ctx):
    from magpie import randoms
    n, r, p, t = c["size"], ends(c, "r"), ends(c, "p"), ends(c, "t")
    kw = {} if c["default"] else {"r_min": r[0], "r_max": r[1], "phi_min": p[0], "phi_max": p[1],
                                  "theta_min": t[0], "theta_max": t[1]}
    R, F, T = randoms.randoms_sphere(n, **kw)
    for v in (R, F, T):
        ctx.shape(v, (n,), "points")
    us = [place(ctx, R, r[0], r[1], "radii", lambda v: v**3), place(ctx, F, p[0], p[1], "longitudes"),
          colat(ctx, T, t, "colatitudes")]
    sample(ctx, us, n, "shell segment", 1e-6)
    ctx.mark(n >= 2000 and not c["default"] and all(u is not None for u in us))


@clause("C22", "sphere_patch", strategy=region(), quick=500, thorough=8000, rule=RULE)
def sphere_patch(c, ctx):
    from magpie import randoms
    n, p, t = c["size"], ends(c, "p"), ends(c, "t")
    kw = {} if c["default"] else {"phi_min": p[0], "phi_max": p[1], "theta_min": t[0], "theta_max": t[1]}
    F, T = randoms.randoms_usphere(n, **kw)
    for v in (F, T):
        ctx.shape(v, (n,), "points")
    us = [place(ctx, F, p[0], p[1], "longitudes"), colat(ctx, T, t, "colatitudes")]
    sample(ctx, us, n, "patch of the sphere", 1e-6)
    ctx.mark(n >= 2000 and not c["default"] and all(u is not None for u in us))


@st.composite
def pixel_case(draw):
    n = draw(st.one_of(st.integers(1, 12), st.integers(0, 10).map(lambda k: 2**k)))
    return {"rng": draw(gen.seed()), "size": draw(sizes), "nside": n,
            "pix": draw(st.one_of(c17.pixel(n), c18.corner(n)))}


@clause("C22", "healpix_pixel", strategy=pixel_case(), quick=600, thorough=12000, shards=2,
        rule="at least 2000 points and a resolution above 1")
def healpix_pixel(c, ctx):
    import healpy as hp
    from magpie import randoms
    m, n, p = c["size"], c["nside"], c["pix"]
    F, T = randoms.randoms_healpix_pixel(m, p, n)
    ctx.shape(F, (m,), "longitudes")
    ctx.shape(T, (m,), "colatitudes")
    if not m:
        return
    ctx.check(np.all(np.isfinite(F)) and np.all(np.isfinite(T)), "not finite")
    ctx.inside(T, 0., PI, "colatitudes")
    ctx.inside(F, -1e-6, 2.*PI + 1e-6, "longitudes")
    v = geom.vec(F, T)
    got = hp.vec2pix(n, *v.T)
    off = got != p
    if np.any(off):
        near = geom.pix_candidates(n, v[off], 1e-7)
        ctx.check(np.all(np.any(near == p, axis=0)), "nside %d pixel %d: a point lies in pixel %r", n, p,
                  int(got[off][0]))
        ctx.check(off.sum() <= 3, "nside %d pixel %d: %d points lie on the border", n, p, int(off.sum()))
    d = PI/(4.*n)
    xp, yp = hpx.center_plane(p, n)
    X, Y = hpx.plane(F % (2.*PI), T)
    dx = (X - xp + PI) % (2.*PI) - PI
    dy = Y - yp
    a, b = (dx + dy)/d, (dy - dx)/d
    ok = (np.abs(a) <= 1. + 1e-6) & (np.abs(b) <= 1. + 1e-6)
    ctx.check((~ok).sum() <= 3, "nside %d pixel %d: %d points are off the diamond", n, p, int((~ok).sum()))
    us = [(np.clip(a[ok], -1., 1.) + 1.)/2., (np.clip(b[ok], -1., 1.) + 1.)/2.]
    sample(ctx, us, int(ok.sum()), "points in the pixel", 1e-6)
    i, _ = hpx.ring_of(p, n)
    ctx.label("cap" if i < n or i > 3*n else "belt")
    ctx.mark(m >= 2000 and n > 1)


@st.composite
def repeat_case(draw):
    return {"rng": draw(gen.seed()), "which": draw(st.integers(0, 7)), "size": draw(st.integers(5, 50))}


@clause("C22", "independent_calls", strategy=repeat_case(), quick=300, thorough=3000, rule="any call (all are)")
def independent_calls(c, ctx):
    """Successive calls give different points, prefixes are not shared."""
    from magpie import randoms
    n = c["size"]
    f = [lambda: [randoms.randoms_1d(n)], lambda: randoms.randoms_2d(n), lambda: randoms.randoms_3d(n),
         lambda: randoms.randoms_polar(n), lambda: [randoms.randoms_sphere_r(n)],
         lambda: randoms.randoms_sphere(n), lambda: randoms.randoms_usphere(n),
         lambda: randoms.randoms_healpix_pixel(n, 5, 4)][c["which"]]
    a, b = f(), f()
    for u, v in zip(a, b):
        ctx.check(not np.any(u == v), "two calls give the same values")
        ctx.check(len(np.unique(u)) == n, "a call repeats values")
    ctx.mark()


@st.composite
def small_case(draw):
    return {"rng": draw(gen.seed()), "which": draw(st.integers(0, 7)), "size": draw(st.integers(1, 4)),
            "r": draw(span(0., 20., 0.1)), "p": draw(span(0., 2.*PI, 0.1)), "t": draw(span(0., PI, 0.1)),
            "nside": draw(st.sampled_from([1, 2, 3, 4])), "pix": draw(st.integers(0, 11))}


@clause("C22", "small_calls", strategy=small_case(), quick=250, thorough=3000, shards=2,
        rule="a region with two or more coordinates, none degenerate")
def small_calls(c, ctx):
    """Points from many calls for a few points each are as uniform and independent as those of a single call."""
    from magpie import randoms
    n, m = c["size"], 1500//c["size"] + 1
    r, p, t, k = c["r"], c["p"], c["t"], c["which"]
    nside, pix = c["nside"], c["pix"]*c["nside"]**2
    f = [lambda: [randoms.randoms_1d(n, xmin=r[0], xmax=r[1])],
         lambda: randoms.randoms_2d(n, mins=[r[0], p[0]], maxs=[r[1], p[1]]),
         lambda: randoms.randoms_3d(n, mins=[r[0], p[0], t[0]], maxs=[r[1], p[1], t[1]]),
         lambda: randoms.randoms_polar(n, r_min=r[0], r_max=r[1], phi_min=p[0], phi_max=p[1]),
         lambda: [randoms.randoms_sphere_r(n, r_min=r[0], r_max=r[1])],
         lambda: randoms.randoms_sphere(n, r_min=r[0], r_max=r[1], phi_min=p[0], phi_max=p[1],
                                        theta_min=t[0], theta_max=t[1]),
         lambda: randoms.randoms_usphere(n, phi_min=p[0], phi_max=p[1], theta_min=t[0], theta_max=t[1]),
         lambda: randoms.randoms_healpix_pixel(n, pix, nside)][k]
    calls = [f() for _ in range(m)]
    x = [np.concatenate([a[i] for a in calls]) for i in range(len(calls[0]))]
    for v in x:
        ctx.shape(v, (n*m,), "points")
    P2, P3 = (lambda v: v**2), (lambda v: v**3)
    if k == 7:
        d = PI/(4.*nside)
        xp, yp = hpx.center_plane(pix, nside)
        X, Y = hpx.plane(x[0] % (2.*PI), x[1])
        dx = (X - xp + PI) % (2.*PI) - PI
        us = [np.clip(((dx + s*(Y - yp))*s/d + 1.)/2., 0., 1.) for s in (1., -1.)]
    else:
        us = {0: lambda: [place(ctx, x[0], *r, "points")],
              1: lambda: [place(ctx, x[0], *r, "points"), place(ctx, x[1], *p, "points")],
              2: lambda: [place(ctx, x[0], *r, "points"), place(ctx, x[1], *p, "points"),
                          place(ctx, x[2], *t, "points")],
              3: lambda: [place(ctx, x[0], *r, "radii", P2), place(ctx, x[1], *p, "angles")],
              4: lambda: [place(ctx, x[0], *r, "radii", P3)],
              5: lambda: [place(ctx, x[0], *r, "radii", P3), place(ctx, x[1], *p, "longitudes"),
                          colat(ctx, x[2], t, "colatitudes")],
              6: lambda: [place(ctx, x[0], *p, "longitudes"), colat(ctx, x[1], t, "colatitudes")]}[k]()
    sample(ctx, us, n*m, "points of many calls", 1e-6)
    ctx.mark(len(us) > 1 and all(u is not None for u in us))


@st.composite
def millions_case(draw):
    lo = draw(gen.pos(0.3, 2.))
    r = [lo, lo*(1. + draw(st.sampled_from([0.01, 0.03, 0.05, 0.1, 0.2, 0.5, 3.])))]
    t0 = draw(gen.num(0., 3.))
    t = [t0, min(PI, t0 + draw(st.sampled_from([0.01, 0.03, 0.1, 0.3, 1., 3.])))]
    return {"rng": draw(gen.seed()), "which": draw(st.integers(0, 4)), "r": r, "t": t,
            "p": draw(span(0., 2.*PI, 0.1).filter(lambda v: v[1] > v[0])),
            "size": draw(st.sampled_from([1000000, 3000000, 3000000]))}


@clause("C22", "millions", strategy=millions_case(), quick=45, thorough=800, shards=4, budget=60.,
        rule="a thin region (within half of its radius or colatitude)")
def millions(c, ctx):
    """Millions of points, which show the density within thin regions."""
    from magpie import randoms
    n, r, p, t, k = c["size"], c["r"], c["p"], c["t"], c["which"]
    if k == 0:
        x = randoms.randoms_sphere_r(n, r_min=r[0], r_max=r[1])
        us = [place(ctx, x, *r, "radii", lambda v: v**3)]
    elif k == 1:
        x = randoms.randoms_polar(n, r_min=r[0], r_max=r[1], phi_min=p[0], phi_max=p[1])
        us = [place(ctx, x[0], *r, "radii", lambda v: v**2), place(ctx, x[1], *p, "angles")]
    elif k == 2:
        x = randoms.randoms_sphere(n, r_min=r[0], r_max=r[1], phi_min=p[0], phi_max=p[1],
                                   theta_min=t[0], theta_max=t[1])
        us = [place(ctx, x[0], *r, "radii", lambda v: v**3), place(ctx, x[1], *p, "longitudes"),
              colat(ctx, x[2], t, "colatitudes")]
    elif k == 3:
        x = randoms.randoms_usphere(n, phi_min=p[0], phi_max=p[1], theta_min=t[0], theta_max=t[1])
        us = [place(ctx, x[0], *p, "longitudes"), colat(ctx, x[1], t, "colatitudes")]
    else:
        x = randoms.randoms_1d(n, xmin=r[0], xmax=r[1])
        us = [place(ctx, x, *r, "points")]
    sample(ctx, us, n, "millions of points", 1e-6)
    ctx.mark(k != 4 and (r[1] < 1.6*r[0] or t[1] < 1.6*t[0]))
