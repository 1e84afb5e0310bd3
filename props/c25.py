"""C25: the perspective view is a central projection and can be reversed."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, geom
from vlib.core import Skip, clause

PI = np.pi


@st.composite
def view(draw):
    cam = [draw(gen.num(-20., 20.)) for _ in range(3)]
    d = [draw(st.one_of(gen.num(-10., 10.), st.just(0.))) for _ in range(3)]
    if draw(st.integers(0, 5)) == 0:        # straight up or down
        d = [0., 0., draw(st.sampled_from([1., -2.]))]
    # no directions within rounding of the horizontal plane or of the vertical
    h = float(np.hypot(d[0], d[1]))
    tilt = draw(st.sampled_from([None]*8 + [1e-2, -1e-3, 1e-4, -1e-5, 9e-7, -4e-7, 1e-8]))     # almost level, almost upright
    if tilt is not None and h > 0.1:
        if draw(st.booleans()):
            d[2] = tilt*h
        else:
            d[0], d[1], d[2] = d[0]*abs(tilt), d[1]*abs(tilt), np.sign(tilt)*h
        h = float(np.hypot(d[0], d[1]))
    if abs(d[2]) < 1e-9*max(h, 1e-3):
        d[2] = 0.
    if h < 1e-6*abs(d[2]):
        d[0] = d[1] = 0.
    if d == [0., 0., 0.]:
        d = [1., 0., 0.]
    if max(abs(v) for v in d) < 1e-2:
        d = [v*1e3 for v in d]
    point = [float(a + b) for a, b in zip(cam, d)]
    for k in range(3):
        if d[k] == 0.:
            point[k] = cam[k]
    z = draw(gen.zoom())
    cam, point = [z*v for v in cam], [z*v for v in point]
    return {"cam": cam, "point": point, "display": draw(st.one_of(st.just(1.), gen.pos(0.05, 20.), gen.pos(0.05, 20.).map(
                lambda v: v*z), st.sampled_from([1e-9, 1e-3, 1e6]))),
            "spin": draw(st.one_of(st.none(), st.just(0.), gen.phi())),
            "type": draw(st.sampled_from(["list", "list", "array", "tuple"]))}


@st.composite
def case(draw):
    n = draw(st.integers(1, 8))
    return {"v": draw(view()), "rng": draw(gen.seed()), "n": n, "wide": draw(st.sampled_from([0.01, 0.3, 1., 5.])),
            "axis": draw(st.booleans()), "reuse": draw(st.integers(0, 3)) == 0}


def setup(v, o=None):
    import magpie.densegrid as dg
    o = dg.PointOfView() if o is None else o
    cast = {"list": list, "array": np.array, "tuple": tuple}[v["type"]]
    kw = {} if v["spin"] is None else {"spin": v["spin"]}
    o.setup(cast(v["cam"]), cast(v["point"]), v["display"], **kw)
    return o


def matrix(v):
    """Camera frame: depth, and the two image directions."""
    d = np.subtract(v["point"], v["cam"])
    r = np.sqrt(d @ d)
    th = np.arctan2(np.hypot(d[0], d[1]), d[2])
    ph = np.arctan2(d[1], d[0])
    M = geom.ry(PI/2. - th) @ geom.rz(-ph)
    return geom.rx(v["spin"] or 0.) @ M, r


def cloud(c, most=5.):
    """Points in front of the camera, at most about 80 degrees off the axis."""
    M, r = matrix(c["v"])
    rng = np.random.RandomState(c["rng"])
    depth = r*rng.uniform(0.05, 3., c["n"])
    uv = rng.normal(size=(c["n"], 2))*c["wide"]
    uv *= np.minimum(1., most/np.maximum(np.sqrt((uv**2).sum(axis=1)), 1e-9))[:, None]
    if c["axis"]:
        uv[0] = 0.
    e = depth[:, None]*np.concatenate([np.ones((c["n"], 1)), uv], axis=1)
    return np.asarray(c["v"]["cam"]) + e @ M, M          # (M^T e)


def image(c, P, M):
    d = P - np.asarray(c["v"]["cam"])
    e = d @ M.T
    f = c["v"]["display"]/e[:, 0]
    dist = np.sqrt((d**2).sum(axis=1))
    return e[:, 1]*f, e[:, 2]*f, dist, e


def image_tol(c, e, d, dist):
    """The directions carry 1e-8 close to the vertical, and (when the view is
    spun) close to the axis; otherwise rounding."""
    off = 1e-14*np.max(np.abs(c["v"]["cam"]))/dist
    loose = np.hypot(d[:, 0], d[:, 1]) < 1e-3*dist
    if c["v"]["spin"]:
        loose |= np.hypot(e[:, 1], e[:, 2]) < 1e-3*dist
    loose |= np.abs(e[:, 2])/dist > 0.9999
    # and so does the direction of the view
    a = np.subtract(c["v"]["point"], c["v"]["cam"])
    h = np.hypot(a[0], a[1])/np.sqrt(a @ a)
    return np.where(loose, 1e-7, 1e-11) + off + (1e-15/h if h > 0. else 0.)


@clause("C25", "projection", strategy=case(), quick=2500, thorough=80000, shards=2,
        rule="a point off the axis, with a view that is neither along the x axis nor unspun")
def projection(c, ctx):
    o = setup(c["v"])
    if c["reuse"]:                      # a later setup replaces an earlier one
        other = dict(c["v"], cam=[1., 2., 3.], point=[0., 5., 4.], spin=1., display=3.)
        o = setup(c["v"], setup(other))
    P, M = cloud(c)
    wx, wy, wd, e = image(c, P, M)
    D = c["v"]["display"]
    tol = image_tol(c, e, P - np.asarray(c["v"]["cam"]), wd)*D*(wd/e[:, 0])**2*4.
    bx, by, dist = o.transform(P[:, 0].copy(), P[:, 1].copy(), P[:, 2].copy())
    ctx.close(dist, wd, "distance", atol=0., rtol=1e-9)
    ctx.close(bx, wx, "image x", atol=tol, rtol=0.)
    ctx.close(by, wy, "image y", atol=tol, rtol=0.)
    for k in range(min(3, c["n"])):
        s = o.transform(*[float(v) for v in P[k]])
        ctx.check(all(np.ndim(v) == 0 for v in s), "the image of a scalar point is %r", s)
        ctx.close(s[:2], [wx[k], wy[k]], "image of a scalar point", atol=tol[k], rtol=0.)
        ctx.close(s[2], wd[k], "distance of a scalar point", atol=0., rtol=1e-9)
    # the target stands in the middle
    t = o.transform(*[np.array([v]) for v in c["v"]["point"]])
    ctx.close([t[0][0], t[1][0]], [0., 0.], "image of the target", atol=2e-7*D, rtol=0.)
    ctx.close(t[2][0], matrix(c["v"])[1], "distance of the target", atol=0., rtol=1e-9)
    ctx.label("spun" if c["v"]["spin"] else "not spun", "reused" if c["reuse"] else "fresh",
              "vertical" if c["v"]["point"][:2] == c["v"]["cam"][:2] else
              "horizontal" if c["v"]["point"][2] == c["v"]["cam"][2] else "oblique")
    ctx.mark(np.any(np.hypot(e[:, 1], e[:, 2]) > 1e-2*wd) and bool(c["v"]["spin"])
             and abs(M[0][0]) < 0.999)


@clause("C25", "grazing", strategy=case(), quick=1000, thorough=30000,
        rule="a point more than 84 degrees off the axis")
def grazing(c, ctx):
    """Points almost beside the camera."""
    o = setup(c["v"])
    P, M = cloud(dict(c, wide=100.*c["wide"]), 1000.)
    wx, wy, wd, e = image(c, P, M)
    tol = image_tol(c, e, P - np.asarray(c["v"]["cam"]), wd)*c["v"]["display"]*(wd/e[:, 0])**2*4.
    bx, by, dist = o.transform(P[:, 0].copy(), P[:, 1].copy(), P[:, 2].copy())
    ctx.close(dist, wd, "distance", atol=0., rtol=1e-9)
    ctx.close(bx, wx, "image x", atol=tol, rtol=0.)
    ctx.close(by, wy, "image y", atol=tol, rtol=0.)
    ctx.mark(np.any(wd > 10.*e[:, 0]))


@clause("C25", "laws", strategy=case(), quick=1500, thorough=40000,
        rule="a point off the axis")
def laws(c, ctx):
    """Lines of sight, display distance and spin."""
    v = c["v"]
    o = setup(v)
    P, M = cloud(c)
    wx, wy, wd, e = image(c, P, M)
    cam = np.asarray(v["cam"])
    cols = lambda A: [A[:, k].copy() for k in range(3)]
    a = o.transform(*cols(P))
    amp = np.maximum(v["display"], np.hypot(wx, wy))*(wd/e[:, 0])**2
    k = 0.25 + 3.*np.random.RandomState(c["rng"]).uniform(size=c["n"])
    b = o.transform(*cols(cam + k[:, None]*(P - cam)))
    ctx.close(b[0], a[0], "x of points on one line of sight", atol=3e-7*amp, rtol=0.)
    ctx.close(b[1], a[1], "y of points on one line of sight", atol=3e-7*amp, rtol=0.)
    ctx.close(b[2], k*np.asarray(a[2]), "distance along a line of sight", atol=0., rtol=1e-8)
    q = setup(dict(v, display=2.5*v["display"])).transform(*cols(P))
    ctx.close(q[0], 2.5*np.asarray(a[0]), "x with a farther display", atol=1e-6*amp, rtol=0.)
    ctx.close(q[1], 2.5*np.asarray(a[1]), "y with a farther display", atol=1e-6*amp, rtol=0.)
    ctx.close(q[2], a[2], "distance with a farther display", atol=0., rtol=1e-9)
    s = setup(dict(v, spin=None)).transform(*cols(P))
    al = v["spin"] or 0.
    ctx.close(a[0], np.cos(al)*np.asarray(s[0]) - np.sin(al)*np.asarray(s[1]), "x spun", atol=1e-6*amp, rtol=0.)
    ctx.close(a[1], np.sin(al)*np.asarray(s[0]) + np.cos(al)*np.asarray(s[1]), "y spun", atol=1e-6*amp, rtol=0.)
    ctx.mark(np.any(np.hypot(e[:, 1], e[:, 2]) > 1e-2*wd))


@clause("C25", "reverse", strategy=case(), quick=2500, thorough=80000, shards=2,
        rule="a point off the axis, in a spun view")
def reverse(c, ctx):
    v = c["v"]
    o = setup(v)
    P, M = cloud(c)
    wx, wy, wd, e = image(c, P, M)
    tol = 2e-7*wd + 1e-13*np.max(np.abs(v["cam"]))
    x, y, z = o.reverse(wx.copy(), wy.copy(), wd.copy())
    for g, w, n in ((x, P[:, 0], "x"), (y, P[:, 1], "y"), (z, P[:, 2], "z")):
        ctx.close(g, w, n + " of the reverse", atol=tol, rtol=0.)
    x, y, z = o.reverse(*o.transform(*[P[:, k].copy() for k in range(3)]))
    for g, w, n in ((x, P[:, 0], "x"), (y, P[:, 1], "y"), (z, P[:, 2], "z")):
        ctx.close(g, w, n + " back", atol=3*tol, rtol=0.)
    s = o.reverse(float(wx[0]), float(wy[0]), float(wd[0]))
    ctx.close(s, P[0], "reverse of a scalar point", atol=tol[0], rtol=0.)
    ctx.mark(np.any(np.hypot(e[:, 1], e[:, 2]) > 1e-2*wd) and bool(v["spin"]))
