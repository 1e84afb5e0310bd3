"""C14: coordinate conversions are exact, ranged and mutually inverse."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, points
from vlib.core import clause

PI = np.pi
TWO = 2.*PI


@st.composite
def case(draw, dim):
    pts = draw(points.cloud(dim))
    center = draw(st.one_of(st.none(), st.just([0.]*dim), st.lists(points.coord(10.), min_size=dim, max_size=dim)))
    c = center or [0.]*dim
    if draw(st.booleans()):             # points which coincide with the centre along some axes
        mask = draw(st.lists(st.integers(0, 2**dim - 1), min_size=len(pts), max_size=len(pts)))
        pts = [[c[k] if (m >> k) & 1 else p[k] for k in range(dim)] for p, m in zip(pts, mask)]
    dtype = draw(st.sampled_from(["f8", "f8", "f8", "i8", "i4", "i4"]))
    if dtype == "f8":
        if center is not None and draw(st.integers(0, 4)) == 0:     # far from the origin
            far = draw(st.sampled_from([1e3, -1e6, 1e9]))
            center = [v + far for v in center]
            pts = [[v + far for v in p] for p in pts]
        z = draw(gen.zoom())
        pts = [[v*z for v in p] for p in pts]
        center = center and [v*z for v in center]
    elif dtype == "i4":                 # squares that do not fit into the type
        k = draw(st.sampled_from([1., 300., 20000.]))
        pts = [[float(np.rint(v*k)) for v in p] for p in pts]
        if max(abs(v) for p in pts for v in p) > 1e9:
            pts = [[float(np.clip(v, -1e9, 1e9)) for v in p] for p in pts]
        if center is not None and draw(st.booleans()):
            center = [int(np.rint(v*k)) for v in center]
    return {"pts": pts, "center": center, "shape": draw(points.shape()), "dtype": dtype}


def arrays(c, dim):
    a = np.array(c["pts"], dtype=float)
    if c["dtype"] != "f8":
        a = np.rint(a).astype(c["dtype"])
    out = [points.arrange(a[:, k], c["shape"]) for k in range(dim)]
    return out, [points.flat(v).astype(float) for v in out]


def spread(*lengths):
    """Tolerances of two computations of places, of lengths of this order."""
    tol = 2e-14*sum(float(np.max(np.abs(v))) for v in lengths) + 1e-300
    return {k: lambda s: tol for k in range(3)}


def kw(c):
    return {} if c["center"] is None else {"center": c["center"]}


@clause("C14", "polar", strategy=case(2), quick=2500, thorough=100000,
        rule="a point away from the centre and not on the axes")
def polar(c, ctx):
    from magpie import coords
    (x, y), (fx, fy) = arrays(c, 2)
    cx, cy = c["center"] or (0., 0.)
    r, p = points.agree(ctx, lambda a, b: coords.cart2polar(a, b, **kw(c)), (x, y), "cart2polar", angles=(1,))
    dx, dy = fx - cx, fy - cy
    want = np.hypot(dx, dy)
    ctx.close(points.flat(r), want, "radius", atol=0., rtol=1e-14)
    ctx.inside(p, 0., TWO, "azimuth", tol=1e-15)
    ctx.angle_close(points.flat(p), np.arctan2(dy, dx), "azimuth", atol=1e-14)
    at0 = want == 0.
    ctx.close(points.flat(p)[at0] % PI, np.zeros(at0.sum()), "azimuth of the centre", atol=0.)
    x2, y2 = points.agree(ctx, lambda a, b: coords.polar2cart(a, b, **kw(c)), (r, p), "polar2cart",
                          tols=spread(r, cx, cy))
    ctx.shape(x2, np.shape(x), "x")
    tol = 1e-14*(want + abs(cx) + abs(cy))
    ctx.close(points.flat(x2), fx, "x back", atol=tol, rtol=0.)
    ctx.close(points.flat(y2), fy, "y back", atol=tol, rtol=0.)
    ctx.label("centre" if np.any(at0) else "no centre", "shape:" + c["shape"],
              *["quadrant %d" % k for k in set((np.floor(np.arctan2(dy, dx)/(PI/2.)) % 4).astype(int))])
    ctx.mark(np.any((dx != 0.) & (dy != 0.)))


@st.composite
def polar_case(draw, dim):
    n = draw(st.integers(1, 8))
    z = draw(gen.zoom())
    return {"r": [z*draw(gen.pos(1e-3, 50.)) for _ in range(n)],
            "phi": [draw(gen.phi()) for _ in range(n)],
            "theta": [draw(gen.theta()) for _ in range(n)],
            "center": draw(st.one_of(st.none(), st.lists(points.coord(10.).map(lambda v: v*z), min_size=dim, max_size=dim))),
            "shape": draw(points.shape())}


@clause("C14", "polar_back", strategy=polar_case(2), quick=2000, thorough=60000,
        rule="an azimuth that is not a multiple of a quarter turn")
def polar_back(c, ctx):
    from magpie import coords
    r, p = (points.arrange(c[k], c["shape"]) for k in ("r", "phi"))
    fr, fp = points.flat(r), points.flat(p)
    cx, cy = c["center"] or (0., 0.)
    x, y = points.agree(ctx, lambda a, b: coords.polar2cart(a, b, **kw(c)), (r, p), "polar2cart",
                        tols=spread(r, cx, cy))
    sc = fr + abs(cx) + abs(cy)
    ctx.close(points.flat(x), cx + fr*np.cos(fp), "x", atol=1e-14*sc, rtol=0.)
    ctx.close(points.flat(y), cy + fr*np.sin(fp), "y", atol=1e-14*sc, rtol=0.)
    r2, p2 = coords.cart2polar(x, y, **kw(c))
    ctx.close(points.flat(r2), fr, "radius back", atol=1e-13*sc, rtol=0.)
    ctx.angle_close(points.flat(p2), fp, "azimuth back", atol=1e-13*np.max(sc/fr))
    ctx.mark(np.any(np.abs(fp/(PI/2.) - np.rint(fp/(PI/2.))) > 1e-6))


def theta_tol(t, scale):
    s = np.maximum(np.abs(np.sin(t)), 2e-8)
    return 1e-13 + 2e-15*scale/s


@clause("C14", "sphere", strategy=case(3), quick=2500, thorough=100000, shards=2,
        rule="a point away from the centre with three different coordinates from it")
def sphere(c, ctx):
    from magpie import coords
    (x, y, z), (fx, fy, fz) = arrays(c, 3)
    cx, cy, cz = c["center"] or (0., 0., 0.)
    r, p, t = points.agree(ctx, lambda a, b, d: coords.cart2sphere(a, b, d, **kw(c)), (x, y, z),
                           "cart2sphere", angles=(1,), tols={2: lambda s: 2.*theta_tol(s, 1.)})
    dx, dy, dz = fx - cx, fy - cy, fz - cz
    rho = np.hypot(dx, dy)
    want = np.hypot(rho, dz)
    ctx.close(points.flat(r), want, "radius", atol=0., rtol=1e-14)
    ctx.inside(p, 0., TWO, "longitude", tol=1e-15)
    ctx.inside(t, 0., PI, "colatitude")
    ctx.angle_close(points.flat(p), np.arctan2(dy, dx), "longitude", atol=1e-14)
    wt = np.arctan2(rho, dz)
    at0 = want == 0.
    ctx.close(np.where(at0, 0., points.flat(t)), np.where(at0, 0., wt), "colatitude",
              atol=theta_tol(wt, 1.), rtol=0.)
    ctx.close(points.flat(t)[at0], np.zeros(at0.sum()), "colatitude of the centre", atol=0.)
    x2, y2, z2 = points.agree(ctx, lambda a, b, d: coords.sphere2cart(a, b, d, **kw(c)), (r, p, t), "sphere2cart",
                               tols=spread(r, cx, cy, cz))
    tol = 1.5e-7*want + 1e-14*(abs(cx) + abs(cy) + abs(cz))
    good = np.abs(rho) > 1e-3*want
    tol = np.where(good, 1e-12*want + 1e-14*(abs(cx) + abs(cy) + abs(cz)), tol)
    for g, w, name in ((x2, fx, "x"), (y2, fy, "y"), (z2, fz, "z")):
        ctx.close(points.flat(g), w, name + " back", atol=tol, rtol=0.)
    ctx.label("centre" if np.any(at0) else "no centre", "pole" if np.any((rho == 0.) & ~at0) else "no pole",
              "shape:" + c["shape"])
    ctx.mark(np.any((dx != 0.) & (dy != 0.) & (dz != 0.) & (np.abs(dx) != np.abs(dy)) & (np.abs(dy) != np.abs(dz))))


@clause("C14", "sphere_back", strategy=polar_case(3), quick=2000, thorough=60000, shards=2,
        rule="a direction away from the poles")
def sphere_back(c, ctx):
    from magpie import coords
    r, p, t = (points.arrange(c[k], c["shape"]) for k in ("r", "phi", "theta"))
    fr, fp, ft = points.flat(r), points.flat(p), points.flat(t)
    cx, cy, cz = c["center"] or (0., 0., 0.)
    x, y, z = points.agree(ctx, lambda a, b, d: coords.sphere2cart(a, b, d, **kw(c)), (r, p, t), "sphere2cart",
                            tols=spread(r, cx, cy, cz))
    off = abs(cx) + abs(cy) + abs(cz)
    tol = 1e-14*(fr + off)
    ctx.close(points.flat(x), cx + fr*np.cos(fp)*np.sin(ft), "x", atol=tol, rtol=0.)
    ctx.close(points.flat(y), cy + fr*np.sin(fp)*np.sin(ft), "y", atol=tol, rtol=0.)
    ctx.close(points.flat(z), cz + fr*np.cos(ft), "z", atol=tol, rtol=0.)
    # one radius for all points, as the callers use it
    xs, ys, zs = coords.sphere2cart(fr[0], p, t, **kw(c))
    ctx.close(points.flat(xs), cx + fr[0]*np.cos(fp)*np.sin(ft), "x (one radius)", atol=1e-14*(fr[0] + off), rtol=0.)
    r2, p2, t2 = coords.cart2sphere(x, y, z, **kw(c))
    sc = (fr + off)/fr
    ctx.close(points.flat(r2), fr, "radius back", atol=1e-13*(fr + off), rtol=0.)
    ctx.close(points.flat(t2), ft, "colatitude back", atol=2.*theta_tol(ft, sc), rtol=0.)
    s = np.sin(ft)
    good = s > 1e-6
    ctx.angle_close(points.flat(p2)[good], fp[good], "longitude back",
                    atol=1e-13 + 1e-14*np.max(sc[good]/s[good], initial=0.))
    ctx.label("pole" if np.any(~good) else "no pole")
    ctx.mark(np.any(good))


@st.composite
def ortho_case(draw):
    n = draw(st.integers(1, 8))
    r = draw(st.one_of(st.none(), st.just(1.), gen.pos(1e-2, 40.), gen.pos(1., 9.).map(lambda v: v*1e-9),
                       gen.pos(1., 9.).map(lambda v: v*1e9)))
    R = r or 1.
    pts = []
    for _ in range(n):
        kind = draw(st.sampled_from(["any", "any", "in", "limb", "pyth"]))
        if kind == "any":
            pts.append([R*draw(gen.num(-2., 2.)), R*draw(gen.num(-2., 2.))])
        elif kind == "in":
            q, a = draw(gen.frac()), draw(gen.phi())
            pts.append([float(R*q*np.cos(a)), float(R*q*np.sin(a))])
        elif kind == "limb":
            a = draw(gen.phi())
            pts.append([float(R*np.cos(a)), float(R*np.sin(a))])
        else:
            pts.append([0.6*R, -0.8*R])
    return {"pts": pts, "r": r, "shape": draw(points.shape()),
            "fill": draw(st.sampled_from([None, None, 0., -1., 1e30]))}


@clause("C14", "ortho", strategy=ortho_case(), quick=2500, thorough=100000,
        rule="a point on the disc and one off it")
def ortho(c, ctx):
    from magpie import coords
    a = np.array(c["pts"])
    x, y = points.arrange(a[:, 0], c["shape"]), points.arrange(a[:, 1], c["shape"])
    k = {}
    if c["r"] is not None:
        k["r"] = c["r"]
    if c["fill"] is not None:
        k["fill_value"] = c["fill"]
    R = c["r"] or 1.
    fill = np.nan if c["fill"] is None else c["fill"]
    z = coords.ortho2cart(x, y, **k)
    ctx.shape(z, x.shape, "depths")
    zs, = points.scalars(lambda u, v: coords.ortho2cart(u, v, **k), x, y)
    z, x, y = points.flat(z), points.flat(x), points.flat(y)
    q = (x*x + y*y)/R**2
    limb = np.abs(q - 1.) < 1e-13           # (where rounding decides)
    ctx.close(z[~limb], zs[~limb], "ortho2cart of an array and of scalars", atol=1e-9*R, rtol=1e-9)
    on, off = (q < 1.) & ~limb, (q > 1.) & ~limb
    ctx.close(z[on], R*np.sqrt(1. - q[on]), "depth", atol=1e-14*R/np.sqrt(1. - q[on]), rtol=1e-13)
    ctx.check(np.all(z[on] > 0.), "the depth is not positive: %r", z[on])
    ctx.close(z[off], np.full(off.sum(), fill), "outside the disc", atol=0.)
    zl = z[limb]
    ctx.check(np.all((np.abs(zl) <= 1e-6*R) | (zl == fill) | (np.isnan(zl) & np.isnan(fill))),
              "depth on the limb: %r", zl)
    ctx.label("limb" if np.any(limb) else "no limb")
    ctx.mark(np.any(on) and np.any(off))


@st.composite
def area_case(draw):
    p0 = draw(gen.phi(0., 1.99*PI))
    t0 = draw(gen.phi(0., 0.99*PI))
    kp, kt = draw(gen.frac()), draw(gen.frac())
    return {"p0": p0, "p1": TWO if kp == 1. else min(TWO, p0 + max(kp, 1e-3)*(TWO - p0)),
            "t0": t0, "t1": PI if kt == 1. else min(PI, t0 + max(kt, 1e-3)*(PI - t0)),
            "up": draw(gen.frac()), "ut": draw(gen.frac()), "n": draw(st.integers(1, 5))}


@clause("C14", "area", strategy=area_case(), quick=2000, thorough=60000,
        rule="a rectangle that is a proper part of the sphere, cut inside")
def area(c, ctx):
    from magpie import coords
    f = coords.usphere_area
    p0, p1, t0, t1 = c["p0"], c["p1"], c["t0"], c["t1"]
    got = f(p0, p1, t0, t1)
    # the difference of cosines without cancellation
    want = (p1 - p0)*2.*np.sin((t1 + t0)/2.)*np.sin((t1 - t0)/2.)
    ctx.close(got, want, "solid angle", atol=1e-14, rtol=1e-11)
    ctx.close(f(0., TWO, 0., PI), 4.*PI, "whole sphere", rtol=1e-14)
    pm, tm = p0 + c["up"]*(p1 - p0), t0 + c["ut"]*(t1 - t0)
    if p0 < pm < p1:
        ctx.close(f(p0, pm, t0, t1) + f(pm, p1, t0, t1), got, "two parts in longitude", atol=1e-13)
    if t0 < tm < t1:
        ctx.close(f(p0, p1, t0, tm) + f(p0, p1, tm, t1), got, "two parts in colatitude", atol=1e-13)
    ctx.close(f(p0, p1, PI - t1, PI - t0) if 0. <= PI - t1 and PI - t0 <= PI else got, got, "mirrored", atol=1e-13)
    ctx.mark(p0 < pm < p1 and t0 < tm < t1)


@st.composite
def lat_case(draw):
    return {"a": draw(st.lists(st.one_of(gen.theta(), gen.num(0., PI)), min_size=1, max_size=8)),
            "shape": draw(points.shape())}


@clause("C14", "latitude", strategy=lat_case(), quick=1500, thorough=30000,
        rule="a direction off the equator and the poles")
def latitude(c, ctx):
    from magpie import coords
    t = points.arrange(c["a"], c["shape"])
    lat, = points.agree(ctx, coords.sphere2lonlat, (t,), "sphere2lonlat")
    ft = points.flat(t)
    ctx.close(np.sin(points.flat(lat)), np.cos(ft), "latitude", atol=1e-15)
    ctx.inside(lat, -PI/2., PI/2., "latitude", tol=1e-15)
    back, = points.agree(ctx, coords.lonlat2sphere, (lat,), "lonlat2sphere")
    ctx.close(points.flat(back), ft, "colatitude back", atol=1e-15)
    lat2 = points.flat(lat)
    t2 = coords.lonlat2sphere(lat)
    ctx.close(points.flat(coords.sphere2lonlat(t2)), lat2, "latitude back", atol=1e-15)
    ctx.inside(t2, 0., PI, "colatitude", tol=1e-15)
    ctx.mark(np.any((np.abs(ft - PI/2.) > 1e-3) & (ft > 1e-3) & (ft < PI - 1e-3)))


@st.composite
def large_case(draw):
    return {"n": draw(points.sizes(70000)), "rng": draw(gen.seed()), "two": draw(st.booleans()),
            "fn": draw(st.sampled_from(["cart2polar", "polar2cart", "cart2sphere", "sphere2cart", "ortho2cart",
                                        "sphere2lonlat", "lonlat2sphere"])),
            "center": draw(st.booleans()), "zeros": draw(st.booleans())}


@clause("C14", "large_arrays", strategy=large_case(), quick=400, thorough=8000, shards=2,
        rule="hundreds of points or more (all are)")
def large_arrays(c, ctx):
    """Many points at once are converted as few are."""
    from magpie import coords
    rng = np.random.RandomState(c["rng"])
    n, name = c["n"], c["fn"]
    x, y, z = rng.uniform(-3., 3., (3, n))
    if c["zeros"]:
        for v in (x, y, z):
            v[rng.uniform(size=n) < 0.1] = 0.
    r, p, t = np.abs(x), TWO*rng.uniform(size=n), PI*rng.uniform(size=n)
    args = {"cart2polar": (x, y), "polar2cart": (r, p), "cart2sphere": (x, y, z), "sphere2cart": (r, p, t),
            "ortho2cart": (0.4*x, 0.4*y), "sphere2lonlat": (t,), "lonlat2sphere": (t - PI/2.,)}[name]
    k = {}
    if c["center"] and name in ("cart2polar", "polar2cart", "cart2sphere", "sphere2cart"):
        k["center"] = [0.5, -0.25] if "polar" in name else [0.5, -0.25, 1.]
    got, want = points.large(ctx, lambda *a: getattr(coords, name)(*a, **k), args, name, c["two"])
    for g, w in zip(got, want):
        ctx.close(g, w, "%s of %d points and of few" % (name, n), atol=1e-7 if name in ("cart2sphere", "ortho2cart") else 1e-12,
                  rtol=1e-12)
    ctx.label(name, "n>2^15" if n > 2**15 else "n>=2^10" if n >= 1024 else "n<2^10")
    ctx.mark()
