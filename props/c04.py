"""C04: Monte Carlo box-to-ring remapping samples the right pixels."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, mc, rings
from vlib.core import clause

PI = np.pi


@st.composite
def case(draw, nmax=5, npmax=4, nrmax=4, sizes=(200, 500, 1000)):
    b = draw(rings.box(nmax))
    log = draw(st.sampled_from([None, None, True, False]))
    c = {"box": b, "ang": draw(rings.angles(npmax)), "rad": draw(rings.radii(b, nrmax, log is not None)),
         "log": log, "center": draw(rings.center_in(b)), "shift": draw(rings.shift()),
         "size": draw(st.sampled_from(list(sizes))),
         "f": draw(gen.field()), "w": draw(st.one_of(st.none(), gen.weights(zeros=True))),
         "rng": draw(gen.seed()), "args": draw(st.sampled_from(["all", "all", "all", "defaults"]))}
    if c["args"] == "defaults":
        c["ang"] = {"p0": 0., "p1": 2.*PI, "np": c["ang"]["np"], "full": True}
        c["center"], c["shift"] = [0., 0.], 0.
    return c


def setup(c, obj=None):
    import magpie.montecarlo as mcm
    o = mcm.Box2Ring() if obj is None else obj
    b, a, r = c["box"], c["ang"], c["rad"]
    o.setup_box(b["x0"], b["x1"], b["nx"], b["y0"], b["y1"], b["ny"])
    kw = {}
    if c["args"] != "defaults":
        kw = dict(pmin=a["p0"], pmax=a["p1"], center=c["center"], phi_shift=c["shift"])
    if c["log"] is None:
        o.setup_polar_lin(r["r0"], r["r1"], r["nr"], a["np"], **kw)
    else:
        if c["args"] != "defaults" or not c["log"]:
            kw["addzero"] = c["log"]
        o.setup_polar_log(r["r0"], r["r1"], r["nr"], a["np"], **kw)
    return o


def redges(c):
    r = c["rad"]
    if c["log"] is None:
        return r["r0"] + (r["r1"] - r["r0"])*np.arange(r["nr"] + 1)/float(r["nr"])
    if c["log"]:
        return np.concatenate([[0.], np.geomspace(r["r0"], r["r1"], r["nr"])])
    return np.geomspace(r["r0"], r["r1"], r["nr"] + 1)


def pedges(c):
    a = c["ang"]
    return a["p0"] + (a["p1"] - a["p0"])*np.arange(a["np"] + 1)/float(a["np"])


def overlaps(c, m=160):
    """Fractions of each polar pixel inside each box pixel: exact in angle,
    midpoint rule in r^2."""
    b = c["box"]
    re, pe = redges(c), pedges(c) + c["shift"]
    xe = b["x0"] + (b["x1"] - b["x0"])*np.arange(b["nx"] + 1)/b["nx"] - c["center"][0]
    ye = b["y0"] + (b["y1"] - b["y0"])*np.arange(b["ny"] + 1)/b["ny"] - c["center"][1]
    nr, npp = len(re) - 1, len(pe) - 1
    t = (np.arange(m) + 0.5)/m
    r = np.sqrt(re[:-1, None]**2 + (re[1:, None]**2 - re[:-1, None]**2)*t[None, :])     # nr, m
    with np.errstate(all="ignore"):
        ax = np.arccos(xe/r[..., None])
        ay = np.arcsin(ye/r[..., None])
    cross = np.concatenate([ax, -ax, ay, PI - ay], axis=-1)                               # nr, m, K
    out = np.zeros((npp, nr, b["ny"]*b["nx"] + 1))
    for i in range(npp):
        p0, p1 = pe[i], pe[i + 1]
        q = p0 + (cross - p0) % (2.*PI)
        q = np.where(np.isnan(q), p1, np.clip(q, p0, p1))
        q = np.concatenate([q, np.full(q.shape[:2] + (2,), p0)], axis=-1)
        q[..., -1] = p1
        q.sort(axis=-1)
        d = np.diff(q, axis=-1)/(p1 - p0)/m
        mid = 0.5*(q[..., 1:] + q[..., :-1])
        x, y = r[..., None]*np.cos(mid), r[..., None]*np.sin(mid)
        ix = np.searchsorted(xe, x, side="right") - 1
        iy = np.searchsorted(ye, y, side="right") - 1
        ok = (ix >= 0) & (ix < b["nx"]) & (iy >= 0) & (iy < b["ny"])
        k = np.where(ok, iy*b["nx"] + ix, b["nx"]*b["ny"])
        for j in range(nr):
            out[i, j] = np.bincount(k[j].ravel(), weights=d[j].ravel(), minlength=b["nx"]*b["ny"] + 1)
    return out.reshape(npp*nr, -1)


def clip(poly, n, eps):
    """Part of the convex polygon with n . x >= -eps."""
    out = []
    for i in range(len(poly)):
        a, b = poly[i], poly[(i + 1) % len(poly)]
        da, db = a @ n + eps, b @ n + eps
        if da >= 0.:
            out.append(a)
        if da*db < 0.:
            out.append(a + (b - a)*(da/(da - db)))
    return out


def mindist(poly):
    """Smallest distance of a convex polygon from the origin."""
    inside, best = True, np.inf
    for i in range(len(poly)):
        a, b = poly[i], poly[(i + 1) % len(poly)]
        e = b - a
        L2 = e @ e
        s = 0. if L2 == 0. else min(1., max(0., -(a @ e)/L2))
        best = min(best, float(np.hypot(*(a + s*e))))
        if a[0]*b[1] - a[1]*b[0] < 0.:
            inside = False
    return 0. if inside and len(poly) > 2 else best


def touches(c, i, j, k):
    """Whether polar pixel (i, j) and box pixel k have common points, within
    a small margin."""
    b = c["box"]
    re, pe = redges(c), pedges(c) + c["shift"]
    iy, ix = divmod(k, b["nx"])
    dx, dy = (b["x1"] - b["x0"])/b["nx"], (b["y1"] - b["y0"])/b["ny"]
    x0, y0 = b["x0"] + ix*dx - c["center"][0], b["y0"] + iy*dy - c["center"][1]
    eps = 1e-9*(abs(x0) + abs(y0) + dx + dy + re[-1] + abs(c["center"][0]) + abs(c["center"][1])
                + abs(b["x0"]) + abs(b["x1"]) + abs(b["y0"]) + abs(b["y1"]))
    x0, y0, dx, dy = x0 - eps, y0 - eps, dx + 2.*eps, dy + 2.*eps
    rect = [np.array(v) for v in ((x0, y0), (x0 + dx, y0), (x0 + dx, y0 + dy), (x0, y0 + dy))]
    nw = int(np.ceil((pe[i + 1] - pe[i])/(PI/2.) - 1e-9))
    cuts = np.linspace(pe[i], pe[i + 1], max(nw, 1) + 1)
    for a0, a1 in zip(cuts[:-1], cuts[1:]):
        poly = clip(rect, np.array([-np.sin(a0), np.cos(a0)]), eps)
        poly = clip(poly, np.array([np.sin(a1), -np.cos(a1)]), eps) if poly else poly
        if not poly:
            continue
        if mindist(poly) <= re[j + 1] + eps and max(np.hypot(*v) for v in poly) >= re[j] - eps:
            return True
    return False


def check_weights(c, ctx, W, tol=4e-3):
    b = c["box"]
    P = overlaps(c)
    inside = 1. - P[:, -1]
    known = mc.check_rows(ctx, W, "remap")
    nr = len(redges(c)) - 1
    npix = b["nx"]*b["ny"]
    # NaN exactly where nothing is inside
    hits = mc.enough(c["size"], np.maximum(inside - tol, 0.))
    ctx.check(np.all(known[hits > 0]), "a polar pixel of which %r lies inside the box is NaN",
              float(inside[(hits > 0) & ~known].max()) if np.any((hits > 0) & ~known) else 0.)
    for row in np.flatnonzero(known):
        i, j = divmod(row, nr)
        for k in np.flatnonzero((W[row] > 0.) & (P[row, :-1] == 0.)):
            ctx.check(touches(c, i, j, k), "polar pixel [%d, %d] takes from box pixel [%d, %d], which it "
                      "does not overlap", i, j, k//b["nx"], k % b["nx"])
    with np.errstate(all="ignore"):
        q = P[:, :-1]/inside[:, None]
    use = known & (hits > 20.)
    if np.any(use):
        t = np.minimum(0.5, tol/inside[use])[:, None]*np.ones((1, npix))
        bad = mc.surprising(W[use], q[use], t, hits[use][:, None])
        if np.any(bad):
            a = np.argwhere(bad)[0]
            row = np.flatnonzero(use)[a[0]]
            ctx.check(False, "polar pixel [%d, %d] takes %r from box pixel [%d, %d]; the overlap is %r "
                      "(%d samples)", row//nr, row % nr, float(W[row, a[1]]), a[1]//b["nx"],
                      a[1] % b["nx"], float(q[row, a[1]]), c["size"])
    return inside, known, use, q


def run(c, ctx):
    o = setup(c)
    b = c["box"]
    shape = (b["ny"], b["nx"])
    oshape = (c["ang"]["np"], c["rad"]["nr"])
    o.get_weights(mc_size=c["size"], verbose=False)

    def remap(f, w=None):
        return o.remap(f, w=w, verbose=False)
    W = mc.matrix(remap, shape)
    ctx.check(W.shape[0] == oshape[0]*oshape[1], "%d polar pixels, expected %r", W.shape[0], oshape)
    inside, known, use, q = check_weights(c, ctx, W)
    f = mc.check_field(ctx, c["f"], c["w"], shape, remap, W, oshape, np.nan, "remapped field")
    o.get_mask_in_bound(verbose=False)
    ctx.close(o.mask_in_bound, known.astype(float).reshape(oshape), "in-bounds mask", atol=1e-9, rtol=0.)
    ctx.label("log" if c["log"] is not None else "linear", "rotated" if c["shift"] else "unrotated",
              "all inside" if np.all(inside > 1. - 1e-9) else
              "some outside" if np.any(inside == 0.) else "partly outside")
    ctx.mark(np.any(use & (np.nanmax(np.where(np.isnan(q), 0., q), axis=1) < 0.99)) and np.ptp(f) > 0.)


RULE = ("some polar pixel overlaps several box pixels and has enough samples to test its weights, and "
        "the field is not constant")


@clause("C04", "weights", strategy=case(), quick=700, thorough=20000, shards=6, rule=RULE)
def small(c, ctx):
    run(c, ctx)


@clause("C04", "convergence", strategy=case(4, 3, 3, (20000, 60000)), quick=70, thorough=2500, shards=2,
        rule=RULE)
def large(c, ctx):
    run(c, ctx)


@st.composite
def many(draw):
    c = draw(case(5, 12, 12, (200, 400)))
    top = draw(st.sampled_from([30, 70, 150, 300]))
    c["box"].update({"nx": draw(st.integers(6, top)), "ny": draw(st.integers(6, top))})
    return c


@clause("C04", "large", strategy=many(), quick=150, thorough=3000, shards=3,
        rule="some polar pixel that covers a part of the box only lies inside the box")
def many_pixels(c, ctx):
    """Fine boxes: the mean position of the box pixels that a polar pixel takes from."""
    o = setup(c)
    b = c["box"]
    n = {"x": b["nx"], "y": b["ny"]}
    o.get_weights(mc_size=c["size"], verbose=False)
    index = dict(zip("yx", np.meshgrid(np.arange(b["ny"]), np.arange(b["nx"]), indexing="ij")))
    got = {a: np.asarray(o.remap(index[a], verbose=False), dtype=float) for a in "xy"}
    re, pe = redges(c), pedges(c) + c["shift"]
    m = 48
    t = (np.arange(m) + 0.5)/m
    r = np.sqrt(re[:-1, None]**2 + (re[1:, None]**2 - re[:-1, None]**2)*t)[None, :, :, None]
    ph = (pe[:-1, None] + (pe[1:, None] - pe[:-1, None])*t)[:, None, None, :]
    # reach of a cell of this sampling
    h = np.maximum(np.max(np.diff(r, axis=2), axis=(2, 3)), 0.) if m > 1 else 0.
    h = h + (re[1:]*np.diff(pe)[0]/m)[None, :] + np.max(r[:, :, 0], axis=-1) - re[:-1]
    pos = {"x": c["center"][0] + r*np.cos(ph), "y": c["center"][1] + r*np.sin(ph)}
    u = {a: (pos[a] - b[a + "0"])/(b[a + "1"] - b[a + "0"])*n[a] for a in "xy"}      # pixels
    ok = np.ones(u["x"].shape, bool)
    for a in "xy":
        ok &= (u[a] >= 0.) & (u[a] < n[a])
    inside = ok.mean(axis=(2, 3))
    full = inside == 1.
    hits = np.where(full, c["size"], mc.enough(c["size"], np.maximum(inside - 0.1, 0.)))
    use = hits > 20.
    for a in "xy":
        ctx.shape(got[a], inside.shape, "remapped positions")
        d = (b[a + "1"] - b[a + "0"])/n[a]
        v = np.where(ok, u[a], np.nan)
        lo = np.where(ok, u[a], np.inf).min(axis=(2, 3))
        hi = np.where(ok, u[a], -np.inf).max(axis=(2, 3))
        with np.errstate(all="ignore"):
            mean = np.where(ok, v, 0.).sum(axis=(2, 3))/ok.sum(axis=(2, 3)) - 0.5
        width = np.where(use, hi - lo, 0.) + 2.*h/d + 1.
        slack = 0.75 + np.where(full, 0.03, 0.12)*width
        mc.check_mean(ctx, np.where(use, got[a], 0.), np.where(use, mean, 0.), width,
                      np.maximum(hits, 1.), slack, "mean %s index of the box pixels taken from" % a)
    ctx.check(np.all(np.isfinite(got["x"][use])), "polar pixels inside the box are NaN")
    ctx.mark(np.any(use & (np.where(ok, u["x"], np.inf).min(axis=(2, 3)) > 3.)))
