"""C21: shape outlines lie on the shape and cover it completely."""
import itertools

import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.core import clause

PI = np.pi


def steps(unit, nmax=12):
    return st.one_of(st.none(), st.integers(1, nmax).map(lambda k: unit*k))


def along(x, y, corners, scale):
    """Position of points on a closed polygon: whole numbers at the corners
    (NaN off the polygon); both ends for the first corner."""
    out = np.full(len(x), np.nan)
    alt = np.full(len(x), np.nan)
    for k, (a, b) in enumerate(zip(corners, corners[1:] + corners[:1])):
        d = np.subtract(b, a)
        L = np.hypot(*d)
        s = ((x - a[0])*d[0] + (y - a[1])*d[1])/L**2
        off = np.hypot(x - a[0] - s*d[0], y - a[1] - s*d[1])
        on = (off < 1e-9*scale) & (s > -1e-9) & (s < 1. + 1e-9)
        v = np.where(np.isnan(out), k + s, out)
        alt = np.where(on, k + s, alt)
        out = np.where(on, v, out)
    return out, alt


def outline(ctx, x, y, corners, m, what):
    """In order round the polygon, every corner, even spacing on each side."""
    ctx.shape(x, (m,), what + ": x")
    ctx.shape(y, (m,), what + ": y")
    scale = max(np.hypot(*np.subtract(a, b)) for a in corners for b in corners)
    u, v = along(x, y, corners, scale)
    ctx.check(not np.any(np.isnan(u)), "%s: %d points are off the outline", what, int(np.isnan(u).sum()))
    # the first corner stands at both 0 and 4
    pos = u.copy()
    last = -1e-6
    for k in range(m):
        ok = [q for q in (u[k], v[k]) if q >= last - 1e-6]
        ctx.check(ok, "%s: point %d goes back", what, k)
        pos[k] = min(ok)
        last = pos[k]
    for k, cn in enumerate(corners):
        hit = np.hypot(x - cn[0], y - cn[1]) < 1e-9*scale
        ctx.check(np.any(hit), "%s misses the corner %r", what, cn)
    q = m//4
    if q > 1:
        ctx.check(np.hypot(x[-1] - x[0], y[-1] - y[0]) < 1e-9*scale, "%s is not closed", what)
        ctx.check(np.diff(pos).max() <= 1./(q - 1)*(1. + 1e-6), "%s has a gap", what)


@st.composite
def rect(draw):
    x0, y0 = draw(gen.num(-20., 20.)), draw(gen.num(-20., 20.))
    z = draw(gen.zoom())
    return {"x0": z*x0, "x1": z*(x0 + draw(gen.pos(0.05, 30.))), "y0": z*y0, "y1": z*(y0 + draw(gen.pos(0.05, 30.))),
            "steps": draw(steps(4, 30))}


@clause("C21", "rectangle", strategy=rect(), quick=1500, thorough=40000, rule="at least two points per side")
def rectangle(c, ctx):
    from magpie import pixel
    kw = {} if c["steps"] is None else {"steps": c["steps"]}
    m = c["steps"] or 40
    x, y = pixel.get_square(c["x0"], c["x1"], c["y0"], c["y1"], **kw)
    cn = [(c["x0"], c["y0"]), (c["x1"], c["y0"]), (c["x1"], c["y1"]), (c["x0"], c["y1"])]
    outline(ctx, x, y, cn, m, "rectangle")
    ctx.label("steps:%s" % ("default" if c["steps"] is None else "4" if m == 4 else "more"))
    ctx.mark(m > 4)


@st.composite
def arc_case(draw):
    p0 = draw(gen.phi(-2.*PI, 2.*PI))
    z = draw(gen.zoom())
    return {"r": z*draw(gen.pos(0.01, 50.)), "p0": p0,
            "p1": p0 + draw(st.one_of(gen.pos(0.05, 2.*PI), st.sampled_from([2.*PI, 2.*PI, PI, 3.*PI, 4.*PI]),
                                      gen.num(-7., -0.05))),
            "center": draw(st.one_of(st.none(), st.lists(gen.num(-20., 20.).map(lambda v: v*z), min_size=2, max_size=2))),
            "steps": draw(st.one_of(st.none(), st.integers(1, 90))), "full": draw(st.booleans())}


@clause("C21", "arc", strategy=arc_case(), quick=1500, thorough=40000, rule="at least three points")
def arc(c, ctx):
    from magpie import pixel
    kw = {} if c["steps"] is None else {"steps": c["steps"]}
    m = c["steps"] or 10
    p0, p1 = (0., 2.*PI) if c["full"] else (c["p0"], c["p1"])
    if not c["full"]:
        kw.update(phimin=p0, phimax=p1)
    if c["center"] is not None:
        kw["center"] = c["center"]
    cx, cy = c["center"] or (0., 0.)
    x, y = pixel.get_arc(c["r"], **kw)
    t = p0 + (p1 - p0)*np.arange(m)/max(m - 1., 1.)
    tol = 1e-13*(c["r"] + abs(cx) + abs(cy))
    ctx.close(x, cx + c["r"]*np.cos(t), "x", atol=tol, rtol=0.)
    ctx.close(y, cy + c["r"]*np.sin(t), "y", atol=tol, rtol=0.)
    ctx.label("circle" if c["full"] else "arc")
    ctx.mark(m > 2)


@st.composite
def disc_case(draw):
    p0 = draw(gen.phi(0., 6.))
    z = draw(gen.zoom())
    r0 = z*draw(st.one_of(st.just(0.), gen.pos(0.05, 20.)))
    return {"r0": r0, "r1": r0 + z*draw(gen.pos(0.05, 20.)), "p0": p0,
            "p1": p0 + draw(st.one_of(gen.pos(0.05, 6.), st.just(2.*PI))),
            "center": draw(st.one_of(st.none(), st.lists(gen.num(-20., 20.).map(lambda v: v*z), min_size=2, max_size=2))),
            "steps": draw(steps(4, 30)), "default": draw(st.integers(0, 5)) == 0}


@clause("C21", "disc", strategy=disc_case(), quick=1500, thorough=40000, rule="at least two points per side")
def disc(c, ctx):
    from magpie import pixel
    kw = {} if c["steps"] is None else {"steps": c["steps"]}
    m = c["steps"] or 40
    r0, r1, p0, p1 = (0., 1., 0., 2.*PI) if c["default"] else (c["r0"], c["r1"], c["p0"], c["p1"])
    if not c["default"]:
        kw.update(rmin=r0, rmax=r1, phimin=p0, phimax=p1)
    if c["center"] is not None:
        kw["center"] = c["center"]
    cx, cy = c["center"] or (0., 0.)
    x, y = pixel.get_disc(**kw)
    ctx.shape(x, (m,), "x")
    ctx.shape(y, (m,), "y")
    q = m//4
    s = np.arange(q)/max(q - 1., 1.)
    # the segment's four sides, each from corner to corner
    want = [(r0 + (r1 - r0)*s, np.full(q, p0)), (np.full(q, r1), p0 + (p1 - p0)*s),
            (r1 + (r0 - r1)*s, np.full(q, p1)), (np.full(q, r0), p1 + (p0 - p1)*s)]
    tol = 1e-12*(r1 + abs(cx) + abs(cy))
    for k, (r, p) in enumerate(want):
        gx, gy = x[k*q:(k + 1)*q], y[k*q:(k + 1)*q]
        if k in (1, 3):
            ctx.close(np.hypot(gx - cx, gy - cy), r, "radius along side %d" % k, atol=tol, rtol=0.)
        ctx.close(gx, cx + r*np.cos(p), "x of side %d" % k, atol=tol, rtol=0.)
        ctx.close(gy, cy + r*np.sin(p), "y of side %d" % k, atol=tol, rtol=0.)
    ctx.label("ring" if r0 > 0. else "from the centre")
    ctx.mark(m > 4)


@st.composite
def box_case(draw):
    lo = [draw(gen.num(-20., 20.)) for _ in range(3)]
    hi = [a + draw(gen.pos(0.05, 20.)) for a in lo]
    # where the viewpoint is along each axis
    side = draw(st.lists(st.sampled_from([-1, 0, 1]), min_size=3, max_size=3).filter(any))
    view = []
    for a, b, s in zip(lo, hi, side):
        if s == 0:
            view.append(a + (b - a)*draw(st.floats(0.01, 0.99)))
        else:
            d = draw(gen.pos(0.01, 40.))
            view.append(a - d if s < 0 else b + d)
    z = draw(gen.zoom())
    lo, hi, view = ([z*v for v in w] for w in (lo, hi, view))
    return {"lo": lo, "hi": hi, "view": view, "origin": draw(st.integers(0, 3)) == 0, "corners": draw(st.booleans()),
            "steps": draw(st.one_of(st.none(), st.integers(2, 15).map(lambda k: 12*k)))}


@clause("C21", "box", strategy=box_case(), quick=2000, thorough=60000,
        rule="a viewpoint from which an edge is hidden")
def box(c, ctx):
    from magpie import pixel
    lo, hi, view = c["lo"], c["hi"], list(c["view"])
    if c["origin"] and not all(a < 0. < b for a, b in zip(lo, hi)) and all(a != 0. and b != 0. for a, b in zip(lo, hi)):
        view = [0., 0., 0.]
        near = {}
    else:
        near = {"center": view}
    kw = {} if c["steps"] is None else {"steps": c["steps"]}
    m = (c["steps"] or 120)//12
    args = (lo[0], hi[0], lo[1], hi[1], lo[2], hi[2])
    edges = []          # (axis, side of the other two axes)
    for ax in range(3):
        o = [k for k in range(3) if k != ax]
        for s in itertools.product((0, 1), repeat=2):
            edges.append((ax, tuple(zip(o, s))))
    span = max(b - a for a, b in zip(lo, hi))
    tol = 1e-11*(span + max(map(abs, lo)))

    def found(out, what):
        x, y, z = (np.asarray(v) for v in out)
        ctx.check(x.shape == y.shape == z.shape and x.ndim == 2 and x.shape[1] == m,
                  "%s: shapes %s %s %s", what, x.shape, y.shape, z.shape)
        got = set()
        for row in np.stack([x, y, z], axis=-1):
            ext = np.ptp(row, axis=0)
            ax = int(np.argmax(ext))
            want = lo[ax] + (hi[ax] - lo[ax])*np.arange(m)/(m - 1.)
            w = row[:, ax] if row[0, ax] <= row[-1, ax] else row[::-1, ax]
            ctx.close(w, want, what + ": points along an edge", atol=tol, rtol=0.)
            key = []
            for k in range(3):
                if k == ax:
                    continue
                on0, on1 = np.all(np.abs(row[:, k] - lo[k]) < tol), np.all(np.abs(row[:, k] - hi[k]) < tol)
                ctx.check(on0 or on1, "%s: a line is not an edge of the box", what)
                key.append((k, 0 if on0 else 1))
            e = (ax, tuple(key))
            ctx.check(e not in got, "%s: the edge %r is drawn twice", what, e)
            got.add(e)
        return got
    if c["corners"]:        # one point per line
        out = [np.asarray(v) for v in pixel.get_box(*args, steps=12)]
        for v in out:
            ctx.shape(v, (12, 1), "box of 12 points")
        P = np.stack(out, axis=-1).reshape(-1, 3)
        at = sum(((np.abs(P[:, k] - lo[k]) < tol) | (np.abs(P[:, k] - hi[k]) < tol)).astype(int) for k in range(3))
        ctx.check(np.all(at >= 2), "box of 12 points: a point is on no edge")
        for k in range(3):
            ctx.inside(P[:, k], lo[k], hi[k], "box of 12 points", tol=tol)
    every = found(pixel.get_box(*args, **kw), "box")
    ctx.check(every == set(edges), "edges missing: %r", set(edges) - every)
    every = found(pixel.get_box(*args, return_nearest=False, center=view, **kw), "box")
    ctx.check(every == set(edges), "edges missing: %r", set(edges) - every)

    def front(k, s):        # the viewpoint is on the outer side of the face
        return view[k] < lo[k] if s == 0 else view[k] > hi[k]
    want = {e for e in edges if any(front(k, s) for k, s in e[1])}
    got = found(pixel.get_box(*args, return_nearest=True, **near, **kw), "nearest lines")
    ctx.check(got == want, "from %r, box %r to %r: visible edges missing %r, hidden edges drawn %r", view, lo, hi,
              sorted(want - got), sorted(got - want))
    ctx.label("%d faces visible" % sum(front(k, s) for k in range(3) for s in (0, 1)))
    ctx.mark(len(want) < 12)
