"""C19: HEALPix pixel boundaries are the true pixel outlines."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, geom, hpx
from vlib.core import clause
from props import c17, c18

PI = np.pi


@st.composite
def case(draw, nmax=2**16, pow2=False):
    if pow2:
        n = 2**draw(st.integers(0, 12))
    else:
        n = min(nmax, draw(st.one_of(st.integers(1, 20), st.integers(0, 16).map(lambda k: 2**k), st.integers(1, 5000))))
    return {"nside": n, "pix": draw(st.one_of(c17.pixel(n), c18.corner(n))),
            "steps": draw(st.one_of(st.integers(1, 60), st.integers(1, 60), st.integers(60, 400), st.sampled_from([4, 8, 20, 40, 200, 1001]))),
            "default": draw(st.integers(0, 7)) == 0}


def curve(name, c, **kw):
    import magpie.pixel as mp
    f = getattr(mp, name)
    if not c["default"]:
        kw["steps"] = c["steps"]
    return f(c["pix"], c["nside"], **kw)


RULE = "a resolution above 1, a pixel in a polar cap or on its border, and at least two points per side"
TOP, BOT, ALL = "healpix_boundary_top", "healpix_boundary_bot", "healpix_boundary"


def side(ctx, x, y, corners, d, what):
    """The points of a part of the outline, with the corners it must pass in order."""
    at = []
    for cx, cy in corners:
        hit = np.where((np.abs(x - cx) < 1e-9*d) & (np.abs(y - cy) < 1e-9*d))[0]
        ctx.check(hit.size > 0, "%s does not pass the corner (%r, %r)", what, cx, cy)
        at.append((hit.min(), hit.max()))
    ctx.check(at[0][0] == 0, "%s does not start at its corner", what)
    ctx.check(at[-1][1] == len(x) - 1, "%s does not end at its corner", what)
    # the way from corner to corner is straight and in order, the first and the
    # last corner may be the same
    pos = [0] + [a[0] for a in at[1:-1]] + [len(x) - 1]
    ctx.check(all(u < v for u, v in zip(pos[:-1], pos[1:])), "%s passes the corners out of order", what)
    for (cx, cy), (ex, ey), u, v in zip(corners[:-1], corners[1:], pos[:-1], pos[1:]):
        s = ((x[u:v + 1] - cx)*(ex - cx) + (y[u:v + 1] - cy)*(ey - cy))/((ex - cx)**2 + (ey - cy)**2)
        off = np.abs((x[u:v + 1] - cx)*(ey - cy) - (y[u:v + 1] - cy)*(ex - cx))/d**2
        ctx.check(np.all(off < 1e-8), "%s leaves the side of the diamond", what)
        ctx.check(np.all(np.diff(s) >= -1e-9) and s.min() > -1e-9 and s.max() < 1. + 1e-9,
                  "%s does not run along the side in order", what)
    return pos


def single(c, ctx, ends, d):
    """The exported single sides, in order of x."""
    import magpie.pixel as mp
    for name in sorted(ends):
        f = getattr(mp, "_healpix_" + name, None)
        if f is None:
            continue
        a, b = ends[name]
        m = max(2, c["steps"])
        for rev in (False, True):
            try:
                x, y = f(c["pix"], c["nside"], steps=m, reverse=rev)
            except TypeError:           # an internal function, whose arguments may change
                continue
            q, r = (b, a) if rev else (a, b)
            s = np.linspace(0., 1., m)
            ctx.close(x, q[0] + s*(r[0] - q[0]), "x of " + name, atol=1e-8*d, rtol=0.)
            ctx.close(y, q[1] + s*(r[1] - q[1]), "y of " + name, atol=1e-8*d, rtol=0.)


def scale(c, x, y):
    """Rounding of the plane coordinates in units of the pixel."""
    return max(1., 1e-16*7./(PI/(4.*c["nside"])))


@clause("C19", "sides", strategy=case(), quick=2500, thorough=60000, shards=2, rule=RULE)
def sides(c, ctx):
    n, p = c["nside"], c["pix"]
    d = PI/(4.*n)
    xp, yp = hpx.center_plane(p, n)
    steps = {TOP: 20, BOT: 20, ALL: 40}
    W, N, E, S = (xp - d, yp), (xp, yp + d), (xp + d, yp), (xp, yp - d)
    path = {TOP: [W, N, E], BOT: [W, S, E], ALL: [W, N, E, S, W]}
    for name in (TOP, BOT, ALL):
        m = steps[name] if c["default"] else c["steps"]
        x, y = curve(name, c)
        ctx.shape(x, (m,), name + ": x")
        ctx.shape(y, (m,), name + ": y")
        r = (np.abs(x - xp) + np.abs(y - yp))/d
        ctx.close(r, np.ones(m), name + ": distance from the centre of the diamond", atol=1e-8, rtol=0.)
        if name == TOP:
            ctx.check(np.all(y >= yp - 1e-8*d), "the top side reaches below the centre")
        if name == BOT:
            ctx.check(np.all(y <= yp + 1e-8*d), "the bottom side reaches above the centre")
        if m >= 2*len(path[name]) - 2:
            pos = side(ctx, x, y, path[name], d, name)
            q = m//4 if name == ALL else m//2
            if q > 1:
                ctx.check(np.abs(np.diff(x)).max() <= d/(q - 1)*(1. + 1e-7), "%s has a gap of %.3g sides", name,
                          np.abs(np.diff(x)).max()/d)
        a, b = curve(name, c, reverse=True)
        ctx.check(np.array_equal(a, x[::-1]) and np.array_equal(b, y[::-1]), "%s is not reversed exactly", name)
        a, b = curve(name, c, reverse=False)
        ctx.check(np.array_equal(a, x) and np.array_equal(b, y), "%s differs without reversing", name)
    single(c, ctx, {"top_left": (W, N), "top_right": (N, E), "bot_left": (W, S), "bot_right": (S, E)}, d)
    i, _ = hpx.ring_of(p, n)
    ctx.label("north" if i < n else "south" if i > 3*n else "border" if i in (n, 3*n) else "belt",
              "steps%%4=%d" % (c["steps"] % 4))
    ctx.mark(n > 1 and (i <= n or i >= 3*n) and c["steps"] >= 8)


@clause("C19", "sphere", strategy=case(pow2=True), quick=1500, thorough=40000, shards=2, rule=RULE)
def sphere(c, ctx):
    """The same number of points per side as healpy, on the sphere."""
    import healpy as hp
    from magpie import coords
    n, p = c["nside"], c["pix"]
    k = max(1, c["steps"]//4 - 1)
    x, y = curve(ALL, {"pix": p, "nside": n, "default": False, "steps": 4*(k + 1)})
    f, t = coords.healpix_xy2ang(x, y)
    got = geom.vec(f, t)
    want = hp.boundaries(n, p, step=k).T
    d = geom.separation(got[:, None, :], want[None, :, :])
    tol = 1e-7 + 1e-12/n
    ctx.check(np.all(d.min(axis=1) < tol), "nside %d pixel %d: a point lies %.3g from the standard boundary", n, p,
              float(d.min(axis=1).max()))
    ctx.check(np.all(d.min(axis=0) < tol), "nside %d pixel %d: a point of the standard boundary is missing", n, p)
    i, _ = hpx.ring_of(p, n)
    ctx.mark(n > 1 and (i <= n or i >= 3*n) and k > 1)


@clause("C19", "inside", strategy=case(2**14), quick=1500, thorough=40000, shards=2, rule=RULE)
def inside(c, ctx):
    """The outline as a polygon of the plane holds exactly the directions of the pixel."""
    import healpy as hp
    n, p = c["nside"], c["pix"]
    m = max(8, c["steps"])
    x, y = curve(ALL, {"pix": p, "nside": n, "default": False, "steps": m})
    rng = np.random.RandomState(p % 2**31)
    v0 = hpx.vectors([p], n)[0]
    w = v0 + rng.normal(size=(60, 3))*rng.choice([0.3, 0.8, 3.], (60, 1))/n
    w /= np.sqrt((w**2).sum(axis=1))[:, None]
    pix = hp.vec2pix(n, *w.T)
    phi = np.arctan2(w[:, 1], w[:, 0]) % (2.*PI)
    X, Y = hpx.plane(phi, np.arctan2(np.hypot(w[:, 0], w[:, 1]), w[:, 2]))
    d = PI/(4.*n)
    inn = np.zeros(len(w), dtype=bool)
    near = np.zeros(len(w), dtype=bool)
    for turn in (-2.*PI, 0., 2.*PI):
        a, b = polygon(X + turn, Y, x, y)
        inn |= a
        near |= b < 1e-6*d
    # directions next to a pole or to a border of the caps are decided by rounding
    use = ~near
    bad = use & (inn != (pix == p))
    ctx.check(not np.any(bad), "nside %d pixel %d: the direction (%r, %r) of pixel %d is %s the outline", n, p,
              float(phi[np.argmax(bad)]), float(np.arccos(w[np.argmax(bad), 2])), int(pix[np.argmax(bad)]),
              "inside" if inn[np.argmax(bad)] else "outside")
    i, _ = hpx.ring_of(p, n)
    ctx.mark(n > 1 and (i <= n or i >= 3*n) and np.any(inn & use) and np.any(~inn & use))


def polygon(X, Y, x, y):
    """Point in polygon, and distance from it."""
    x2, y2 = np.roll(x, -1), np.roll(y, -1)
    P, Q = X[:, None], Y[:, None]
    with np.errstate(all="ignore"):
        cross = ((y > Q) != (y2 > Q)) & (P < (x2 - x)*(Q - y)/(y2 - y) + x)
    L = (x2 - x)**2 + (y2 - y)**2
    L = np.where(L == 0., 1., L)
    s = np.clip(((P - x)*(x2 - x) + (Q - y)*(y2 - y))/L, 0., 1.)
    dist = np.hypot(P - x - s*(x2 - x), Q - y - s*(y2 - y)).min(axis=1)
    return cross.sum(axis=1) % 2 == 1, dist
