"""C16: the HEALPix plane projection and its inverse agree everywhere."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, geom, hpx, points
from vlib.core import clause

PI = np.pi
H = PI/2.
ZB = float(np.arccos(2./3.))          # border of the polar caps


@st.composite
def direction(draw):
    kind = draw(st.sampled_from(["any", "any", "any", "north", "south", "belt", "border", "pole", "nearpole"]))
    phi = draw(st.one_of(gen.phi(), st.sampled_from([0., H, PI, 3*H, 4*H, PI/4., 7*PI/4.])))
    if kind == "north":
        t = draw(gen.frac())*ZB
    elif kind == "south":
        t = PI - draw(gen.frac())*ZB
    elif kind == "belt":
        t = ZB + draw(gen.frac())*(PI - 2.*ZB)
    elif kind == "border":
        t = draw(st.sampled_from([ZB, PI - ZB, H])) + draw(st.sampled_from([0., 0., 1e-9, -1e-9, 1e-4, -1e-4]))
    elif kind == "pole":
        t = draw(st.sampled_from([0., PI]))
    elif kind == "nearpole":
        t = draw(st.sampled_from([1e-7, 1e-5, 1e-3, PI - 1e-7, PI - 1e-5, PI - 1e-3]))
    else:
        t = draw(gen.theta())
    return [phi, float(t)]


def zone(t):
    z = np.cos(t)
    return np.where(z > 2./3., "north", np.where(z < -2./3., "south", "belt"))


def polar_distance(t):
    return np.maximum(np.minimum(t, PI - t), 1e-8)


def both(ctx, fn, a, b, what, tol):
    """The two results of an array, and the same for scalars."""
    out = fn(a, b)
    ctx.check(isinstance(out, tuple) and len(out) == 2, "%s returns %r", what, type(out))
    for o in out:
        ctx.shape(o, a.shape, what)
    sc = points.scalars(fn, a, b)
    for o, s, n in zip(out, sc, ("first", "second")):
        ctx.close(o, s, "%s coordinate of %s, array and scalar" % (n, what), atol=tol, rtol=1e-13)
    return out


def inverse_tol(y):
    """What rounding does to the angles of places of that height."""
    q = np.maximum(2. - 4.*np.abs(y)/PI, 1e-8)      # 0 at the poles
    return 1e-13 + 4e-15/q + np.where(q < 2e-8, 10., 0.)


dirs = st.fixed_dictionaries({"pts": st.lists(direction(), min_size=1, max_size=10),
                              "strided": st.booleans()})


def columns(c):
    a = np.array(c["pts"])
    s = "strided" if c["strided"] else "flat"
    return points.arrange(a[:, 0], s), points.arrange(a[:, 1], s)


@clause("C16", "forward", strategy=dirs, quick=2500, thorough=100000, shards=2,
        rule="a direction inside a polar cap, off the middles of the facets")
def forward(c, ctx):
    from magpie import coords
    p, t = columns(c)
    x, y = both(ctx, coords.healpix_ang2xy, p, t, "healpix_ang2xy", 1e-14 + 4e-15/polar_distance(t))
    wx, wy = hpx.plane(p, t)
    # on the border of two facets of a cap both are right
    k = np.rint(p/H)
    edge = np.abs(p - k*H) < 1e-12
    err = 1e-14 + 1e-15/polar_distance(t)
    x2, _ = hpx.plane(k*H + 1e-9, t)
    x1, _ = hpx.plane(np.maximum(k*H - 1e-9, 0.), t)
    alt = np.minimum(np.abs(x - x1), np.abs(x - x2)) < 1e-8
    wx = np.where(edge & alt, x, wx)
    ctx.angle_close(x, wx, "x", atol=float(np.max(err)))
    ctx.close(y, wy, "y", atol=err, rtol=0.)
    q = np.floor(p/H + 1e-12) % 4
    inner = (np.abs(np.cos(t)) > 2./3.) & ~edge
    ctx.check(np.all(np.floor(x/H)[inner] % 4 == q[inner]), "the quadrant changes: %r to %r", p, x)
    for z in set(zone(t)):
        ctx.label("zone:" + str(z))
    ctx.mark(np.any(inner & (np.abs(np.sin(4.*p)) > 1e-3)))


@clause("C16", "sphere_and_back", strategy=dirs, quick=2500, thorough=100000, shards=2,
        rule="a direction inside a polar cap, off the middles of the facets")
def sphere_and_back(c, ctx):
    from magpie import coords
    p, t = columns(c)
    x, y = coords.healpix_ang2xy(p, t)
    p2, t2 = both(ctx, coords.healpix_xy2ang, np.asarray(x), np.asarray(y), "healpix_xy2ang", inverse_tol(y))
    ctx.inside(t2, 0., PI, "colatitude")
    d = geom.separation(geom.vec(p2, t2), geom.vec(p, t))
    lim = np.where(polar_distance(t) > 1e-3, 1e-12, 1e-7)
    ctx.check(np.all(d <= lim), "the direction %r comes back as %r",
              c["pts"][int(np.argmax(d - lim))], [float(p2[np.argmax(d - lim)]), float(t2[np.argmax(d - lim)])])
    inner = polar_distance(t) > 1e-6
    ctx.angle_close(p2[inner], p[inner], "longitude", atol=1e-8)
    # scalars all the way
    for k in range(min(3, len(p))):
        a = coords.healpix_xy2ang(*coords.healpix_ang2xy(float(p[k]), float(t[k])))
        ctx.check(geom.separation(geom.vec(*a), geom.vec(p[k], t[k])) < 1e-7, "scalar %r comes back as %r",
                  c["pts"][k], a)
    ctx.mark(np.any((np.abs(np.cos(t)) > 2./3.) & (np.abs(np.sin(4.*p)) > 1e-3)))


@st.composite
def place(draw):
    kind = draw(st.sampled_from(["belt", "cap", "cap", "cap", "border", "edge", "pole"]))
    k = draw(st.integers(0, 3))
    u = draw(st.one_of(st.integers(-8, 8).map(lambda i: i/8.), gen.smooth(-1., 1.)))
    s = draw(st.sampled_from([1., -1.]))
    if kind == "belt":
        return [draw(gen.phi(0., 6.28)), draw(gen.num(-1., 1.))*PI/4.]
    if kind == "border":
        return [draw(gen.phi(0., 6.28)), s*PI/4.]
    if kind == "pole":
        return [(k + 0.5)*H, s*H]
    if kind == "edge":
        u = draw(st.sampled_from([-1., 1.]))*(1. - 1e-6)
    q = max(draw(gen.frac()), 1e-6)
    return [(k + 0.5)*H + u*q*PI/4.*(1. - 1e-9), s*PI/4.*(2. - q)]


places = st.fixed_dictionaries({"pts": st.lists(place(), min_size=1, max_size=10), "strided": st.booleans()})


@clause("C16", "plane_and_back", strategy=places, quick=2500, thorough=100000, shards=2,
        rule="a place inside a polar facet, off its middle and off the pole")
def plane_and_back(c, ctx):
    from magpie import coords
    x, y = columns(c)
    p, t = both(ctx, coords.healpix_xy2ang, x, y, "healpix_xy2ang", inverse_tol(y))
    ctx.inside(t, 0., PI, "colatitude")
    w = hpx.sky(x, y)
    d = geom.separation(geom.vec(p, t), w)
    q = 2. - 4.*np.abs(y)/PI
    # facet borders of a cap meet the next facet on the sphere
    lim = np.where(q > 1e-2, 1e-12, 1e-7)
    ctx.check(np.all(d <= lim), "the place %r goes to %r", c["pts"][int(np.argmax(d - lim))],
              [float(p[np.argmax(d - lim)]), float(t[np.argmax(d - lim)])])
    x2, y2 = coords.healpix_ang2xy(p, t)
    ctx.close(y2, y, "y back", atol=np.where(q > 1e-2, 1e-12, 3e-8), rtol=0.)
    mid = (np.floor(x/H) + 0.5)*H
    cap = np.abs(y) > PI/4.
    with np.errstate(all="ignore"):
        edge = cap & (np.abs(np.abs(x - mid)/(q*PI/4.) - 1.) < 1e-5)
        ok = ~edge & (q > 1e-9)
    ctx.angle_close(x2[ok], x[ok], "x back", atol=1e-7)
    fine = ok & (q > 1e-2)
    ctx.angle_close(x2[fine], x[fine], "x back", atol=1e-11)
    ctx.label("pole" if np.any(q < 1e-9) else "no pole", "edge" if np.any(edge) else "no edge")
    ctx.mark(np.any(cap & ok & (np.abs(x - mid) > 1e-3)))


@clause("C16", "symmetry", strategy=dirs, quick=2000, thorough=60000,
        rule="a direction inside a polar cap")
def symmetry(c, ctx):
    """Mirror images, quarter turns."""
    from magpie import coords
    p, t = columns(c)
    f, g = coords.healpix_ang2xy, coords.healpix_xy2ang
    x, y = f(p, t)
    x2, y2 = f(p, PI - t)
    err = 1e-14 + 2e-15/polar_distance(t)
    ctx.close(y2, -np.asarray(y), "mirrored y", atol=err, rtol=0.)
    ctx.close(x2, x, "mirrored x", atol=err, rtol=0.)
    a, b = g(np.asarray(x), np.asarray(y)), g(np.asarray(x), -np.asarray(y))
    ctx.close(b[0], a[0], "mirrored longitude", atol=1e-12)
    ctx.close(b[1], PI - a[1], "mirrored colatitude", atol=1e-7)
    edge = np.abs(p/H - np.rint(p/H)) < 1e-9
    low = (p < 3*H) & ~edge
    x3, y3 = f(p[low] + H, t[low])
    ctx.close(x3, np.asarray(x)[low] + H, "x a quarter turn on", atol=1e-12 + err[low], rtol=0.)
    ctx.close(y3, np.asarray(y)[low], "y a quarter turn on", atol=err[low], rtol=0.)
    off = low & (polar_distance(t) > 1e-6)
    r = g(np.asarray(x)[off] + H, np.asarray(y)[off])
    ctx.close(r[0], a[0][off] + H, "longitude a quarter turn on", atol=1e-8)
    ctx.close(r[1], a[1][off], "colatitude a quarter turn on", atol=1e-12)
    ctx.mark(np.any(np.abs(np.cos(t)) > 2./3.) and np.any(low))


@st.composite
def rect(draw):
    k = draw(st.integers(0, 3))
    cap = draw(st.sampled_from(["belt", "north", "south"]))
    u = sorted([draw(st.floats(0.01, 0.99)), draw(st.floats(0.01, 0.99))])
    v = sorted([draw(st.floats(0.01, 0.99)), draw(st.floats(0.01, 0.99))])
    if u[1] - u[0] < 1e-2:
        u = [0.25, 0.75]
    if v[1] - v[0] < 1e-2:
        v = [0.25, 0.75]
    return {"k": k, "cap": cap, "u": u, "v": v}


@clause("C16", "area", strategy=rect(), quick=1500, thorough=40000,
        rule="a rectangle of longitude and height inside a zone and a quadrant (all are)")
def area(c, ctx):
    """Rectangles in (phi, z) become trapezia, of 3 pi / 8 their area."""
    from magpie import coords
    p0, p1 = [(c["k"] + u)*H for u in c["u"]]
    if c["cap"] == "belt":
        z0, z1 = [2./3.*(2.*v - 1.) for v in c["v"]]
    else:
        z0, z1 = [2./3. + v/3. for v in c["v"]]
        if c["cap"] == "south":
            z0, z1 = -z1, -z0
    p = np.array([p0, p1, p1, p0])
    t = np.arccos(np.array([z0, z0, z1, z1]))
    x, y = coords.healpix_ang2xy(p, t)
    a = 0.5*np.sum(x*np.roll(y, -1) - np.roll(x, -1)*y)
    ctx.close(a, 3.*PI/8.*(p1 - p0)*(z1 - z0), "area in the plane", atol=1e-13, rtol=1e-10)
    # the inverse, on a parallelogram of the plane around the same place
    xm, ym, e = float(np.mean(x)), float(np.mean(y)), 1e-5
    X, Y = np.array([xm - e, xm + e, xm, xm]), np.array([ym, ym, ym - e, ym + e])
    P, T = coords.healpix_xy2ang(X, Y)
    Z = np.cos(T)
    jac = ((P[1] - P[0])*(Z[3] - Z[2]) - (P[3] - P[2])*(Z[1] - Z[0]))/(4.*e*e)
    ctx.close(jac, 8./(3.*PI), "area on the sphere", atol=0., rtol=1e-4)
    ctx.label(c["cap"])
    ctx.mark()


@clause("C16", "large_arrays", strategy=st.fixed_dictionaries({"n": points.sizes(70000), "rng": gen.seed(), "cap": st.booleans()}),
        quick=200, thorough=4000, rule="hundreds of directions or more (all are)")
def large_arrays(c, ctx):
    """Many directions at once are projected as few are."""
    from magpie import coords
    rng = np.random.RandomState(c["rng"])
    n = c["n"]
    p, z = 4.*H*rng.uniform(size=n), rng.uniform(-1., 1., n)
    if c["cap"]:
        z = np.where(rng.uniform(size=n) < 0.8, np.sign(z)*(1. - np.abs(z)/3.), z)
    t = np.arccos(z)
    (x, y), want = points.large(ctx, coords.healpix_ang2xy, (p, t), "healpix_ang2xy")
    ctx.close(x, want[0], "x of %d directions and of few" % n, atol=1e-10)
    ctx.close(y, want[1], "y of %d directions and of few" % n, atol=1e-10)
    wx, wy = hpx.plane(p, t)
    ctx.close(y, wy, "y of %d directions" % n, atol=1e-10)
    off = np.abs(p/H - np.rint(p/H)) > 1e-9
    ctx.close(x[off], wx[off], "x of %d directions" % n, atol=1e-10)
    (p2, t2), want = points.large(ctx, coords.healpix_xy2ang, (x, y), "healpix_xy2ang")
    ctx.close(p2, want[0], "longitude of %d places and of few" % n, atol=1e-7)
    ctx.close(t2, want[1], "colatitude of %d places and of few" % n, atol=1e-7)
    d = geom.separation(geom.vec(p2, t2), geom.vec(p, t))
    ctx.check(np.all(d < 1e-7), "%d directions come back %.3g away", n, float(d.max()))
    ctx.label("n>2^15" if n > 2**15 else "n>=2^10" if n >= 1024 else "n<2^10")
    ctx.mark()
