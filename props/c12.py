"""C12: Monte Carlo sphere remapping samples the right map pixels."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, geom, hpx, mc, sphere
from vlib.core import clause

PI = np.pi


@st.composite
def ring(draw, nsmax=4, sizes=(200, 500, 1000)):
    c = {"nside": draw(sphere.nside(nsmax)), "cap": draw(sphere.cap(4, 4)),
         "center": draw(sphere.center()), "spin": draw(sphere.spin()),
         "size": draw(st.sampled_from(list(sizes))), "rng": draw(gen.seed()),
         "f": draw(gen.field()), "w": draw(st.one_of(st.none(), gen.weights(zeros=True))),
         "args": draw(st.sampled_from(["all", "all", "all", "defaults"]))}
    if c["args"] == "defaults":
        c["cap"].update({"b0": 0., "b1": 2.*PI, "full": True})
        c["center"], c["spin"] = [0., 0.], 0.
    return c


def setup_ring(c, obj=None):
    import magpie.montecarlo as mcm
    o = mcm.Heal2Ring() if obj is None else obj
    k = c["cap"]
    o.setup_map(c["nside"])
    if c["args"] == "defaults":
        o.setup_polar_cap(k["a0"], k["a1"], k["na"], k["nb"])
    else:
        o.setup_polar_cap(k["a0"], k["a1"], k["na"], k["nb"], beta_min=k["b0"], beta_max=k["b1"],
                          center=c["center"], beta_shift=c["spin"])
    return o


@st.composite
def box(draw, nsmax=4, sizes=(200, 500, 1000)):
    c = {"nside": draw(sphere.nside(nsmax)), "box": draw(sphere.lonlat(4)),
         "center": draw(sphere.center()), "spin": draw(sphere.spin()),
         "size": draw(st.sampled_from(list(sizes))), "rng": draw(gen.seed()),
         "f": draw(gen.field()), "w": draw(st.one_of(st.none(), gen.weights(zeros=True))),
         "args": draw(st.sampled_from(["all", "all", "all", "defaults"]))}
    if c["args"] == "defaults":
        c["box"].update({"yl": None, "ny": None})
        c["center"], c["spin"] = [0., 0.], 0.
    return c


def setup_box(c, obj=None):
    import magpie.montecarlo as mcm
    o = mcm.Heal2Polar() if obj is None else obj
    k = c["box"]
    o.setup_map(c["nside"])
    if c["args"] == "defaults":
        o.setup_box(k["xl"], k["nx"])
    else:
        o.setup_box(k["xl"], k["nx"], center=c["center"], alpha=c["spin"], y_length=k["yl"],
                    y_grid=k["ny"])
    return o


def ring_cells(c):
    """[(phi0, phi1, theta0, theta1)] in row order, shape and matrix."""
    k = c["cap"]
    ae = sphere.edges(k["a0"], k["a1"], k["na"])
    be = sphere.edges(k["b0"], k["b1"], k["nb"])
    cells = [(be[i], be[i + 1], ae[j], ae[j + 1]) for i in range(k["nb"]) for j in range(k["na"])]
    return cells, (k["nb"], k["na"]), sphere.cap_matrix(c["center"], c["spin"])


def box_cells(c):
    xl, nx, yl, ny = sphere.box_lengths(c["box"])
    xe = sphere.edges(-xl/2., xl/2., nx)
    ye = sphere.edges(-yl/2., yl/2., ny)
    cells = [(xe[j], xe[j + 1], PI/2. - ye[i + 1], PI/2. - ye[i]) for i in range(ny) for j in range(nx)]
    return cells, (ny, nx), sphere.box_matrix(c["center"], c["spin"])


def grid_points(cell, m):
    """m x m equal-area points of a longitude-latitude cell."""
    t = (np.arange(m) + 0.5)/m
    p = cell[0] + (cell[1] - cell[0])*t
    z = np.cos(cell[2]) + (np.cos(cell[3]) - np.cos(cell[2]))*t
    p, z = np.meshgrid(p, z)
    s = np.sqrt(np.maximum(1. - z**2, 0.))
    return np.stack([s*np.cos(p), s*np.sin(p), z], axis=-1).reshape(-1, 3)


def near_cell(v, cell):
    """Upper limit of nothing: a lower limit of the angle between the directions
    v and the cell (zero inside)."""
    th = np.arctan2(np.hypot(v[:, 0], v[:, 1]), v[:, 2])
    dt = np.maximum(np.maximum(cell[2] - th, th - cell[3]), 0.)
    p = (np.arctan2(v[:, 1], v[:, 0]) - cell[0]) % (2.*PI)
    w = cell[1] - cell[0]
    dp = np.where(p <= w, 0., np.minimum(p - w, 2.*PI - p))
    # distance from the bounding meridian (a great semicircle)
    dm = np.where(dp >= PI/2., np.minimum(th, PI - th), np.arcsin(np.minimum(1., np.sin(th)*np.sin(dp))))
    dm = np.where(dp == 0., 0., dm)
    return np.maximum(dt, dm)


def run(c, ctx, setup, cells_of, tol, m):
    import healpy as hp
    o = setup(c)
    ns = c["nside"]
    npix = 12*ns*ns
    cells, oshape, M = cells_of(c)
    o.get_weights(mc_size=c["size"], verbose=False)

    def remap(f, w=None):
        return o.remap(f, w=w, verbose=False)
    W = mc.matrix(remap, (npix,))
    ctx.check(W.shape[0] == len(cells), "%d pixels, expected %d", W.shape[0], len(cells))
    ctx.check(np.all(np.isfinite(W)), "undefined pixels")
    mc.check_rows(ctx, W, "remap")
    q = np.zeros(W.shape)
    for row, cell in enumerate(cells):
        v = geom.apply(M, grid_points(cell, m))
        q[row] = np.bincount(hp.vec2pix(ns, v[:, 0], v[:, 1], v[:, 2]), minlength=npix)/len(v)
        miss = np.flatnonzero((W[row] > 0.) & (q[row] == 0.))
        if len(miss):
            u = hpx.fill(miss, ns, 16)
            d = near_cell(geom.apply(M.T, u), cell).reshape(len(miss), 256).min(axis=1)
            far = d > hp.max_pixrad(ns*16)*1.05 + 1e-6
            ctx.check(not far.any(), "grid pixel %r takes from map pixel %d, which it does not overlap",
                      [row//oshape[1], row % oshape[1]], int(miss[np.argmax(far)]))
    bad = mc.surprising(W, q, tol, c["size"])
    if np.any(bad):
        a = np.argwhere(bad)[0]
        ctx.check(False, "grid pixel %r takes %r from map pixel %d; the overlap is %r (%d samples)",
                  [int(a[0])//oshape[1], int(a[0]) % oshape[1]], float(W[tuple(a)]), int(a[1]),
                  float(q[tuple(a)]), c["size"])
    f = mc.check_field(ctx, c["f"], c["w"], (npix,), remap, W, oshape, np.nan, "remapped map")
    ctx.label("nside:%d" % ns, "spun" if c["spin"] else "not spun")
    ctx.mark(np.any(q.max(axis=1) < 0.99) and np.ptp(f) > 0.)


RULE = "some grid pixel overlaps several map pixels and the map is not constant"


@clause("C12", "ring_weights", strategy=ring(), quick=400, thorough=12000, shards=3, rule=RULE)
def ring_small(c, ctx):
    run(c, ctx, setup_ring, ring_cells, 0.02, 64)


@clause("C12", "ring_convergence", strategy=ring(1, (20000,)), quick=30, thorough=1000, shards=1,
        rule=RULE)
def ring_large(c, ctx):
    run(c, ctx, setup_ring, ring_cells, 0.01, 200)


@clause("C12", "box_weights", strategy=box(), quick=400, thorough=12000, shards=3, rule=RULE)
def box_small(c, ctx):
    run(c, ctx, setup_box, box_cells, 0.02, 64)


@clause("C12", "box_convergence", strategy=box(1, (20000,)), quick=30, thorough=1000, shards=1,
        rule=RULE)
def box_large(c, ctx):
    run(c, ctx, setup_box, box_cells, 0.01, 200)


def run_large(c, ctx, setup, cells_of):
    """Fine maps: the mean direction of the map pixels that a grid pixel takes from."""
    import healpy as hp
    o = setup(c)
    ns = c["nside"]
    npix = 12*ns*ns
    cells, oshape, M = cells_of(c)
    o.get_weights(mc_size=c["size"], verbose=False)
    rad = hp.max_pixrad(ns)
    v = np.stack([geom.apply(M, grid_points(cell, 40)) for cell in cells])      # cells, points, 3
    mean, width = v.mean(axis=1), np.ptp(v, axis=1)
    maps = np.stack(hp.pix2vec(ns, np.arange(npix)))
    for k in range(3):
        got = o.remap(maps[k], verbose=False)
        ctx.shape(got, oshape, "remapped map")
        w = width[:, k]*1.06 + 2.*rad
        mc.check_mean(ctx, np.ravel(got), mean[:, k], w, np.full(len(w), float(c["size"])), 1.1*rad + 0.01*w,
                      "mean %s of the map pixels taken from" % "xyz"[k])
    f = gen.make(c["f"], npix)
    w = np.random.RandomState(c["f"]["seed"]).uniform(0.5, 1.5, npix)
    a, b = o.remap(gen.f64(f)*w, verbose=False), o.remap(w, verbose=False)
    ctx.close(o.remap(f, w=w, verbose=False), a/b, "weighted remapped map", atol=1e-4*gen.amp(f)
              if c["f"]["dtype"] == "f4" else 1e-9*gen.amp(f), rtol=0.)
    ctx.label("nside:%d" % ns)
    ctx.mark(np.any(width < 1.))


LARGE = "some grid pixel covers a part of the sphere only"


@st.composite
def larger(draw, base):
    c = draw(base)
    c["nside"] = draw(st.sampled_from([8, 16, 32, 64, 128, 256, 12, 24, 100]))
    return c


@clause("C12", "ring_large", strategy=larger(ring(1, (200, 400, 2500))), quick=60, thorough=2000, shards=2, rule=LARGE)
def ring_fine(c, ctx):
    run_large(c, ctx, setup_ring, ring_cells)


@clause("C12", "box_large", strategy=larger(box(1, (200, 400, 2500))), quick=60, thorough=2000, shards=2, rule=LARGE)
def box_fine(c, ctx):
    run_large(c, ctx, setup_box, box_cells)
