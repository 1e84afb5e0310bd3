"""C07: Monte Carlo cube-to-shell remapping samples the right voxels."""
import numpy as np
from hypothesis import strategies as st

from vlib import cubes, gen, geom, hpx, mc
from vlib.core import clause


@st.composite
def case(draw, nmax=3, nrmax=3, nsides=(1, 1, 2), sizes=(200, 500, 1000)):
    cu = draw(cubes.cube(nmax, (1e8,)))
    log = draw(st.sampled_from([None, None, True, False]))
    c = {"cube": cu, "rad": draw(cubes.radii(cu, nrmax, log is not None)), "log": log,
         "center": draw(cubes.center_in(cu)), "nside": draw(st.sampled_from(list(nsides))),
         "size": draw(st.sampled_from(list(sizes))),
         "f": draw(gen.field()), "w": draw(st.one_of(st.none(), gen.weights(zeros=True))),
         "rng": draw(gen.seed()), "args": draw(st.sampled_from(["all", "all", "all", "defaults"]))}
    if c["args"] == "defaults":
        c["center"] = [0., 0., 0.]
        c["size"] = 100
    return c


def setup(c, obj=None):
    import magpie.montecarlo as mcm
    o = mcm.Cube2Shell() if obj is None else obj
    k, r = c["cube"], c["rad"]
    o.setup_cube(k["x"][0], k["x"][1], k["x"][2], k["y"][0], k["y"][1], k["y"][2],
                 k["z"][0], k["z"][1], k["z"][2])
    kw = {} if c["args"] == "defaults" else dict(center=c["center"])
    if c["log"] is None:
        o.setup_polar_lin(r["r0"], r["r1"], r["nr"], c["nside"], **kw)
    else:
        if c["args"] != "defaults" or not c["log"]:
            kw["addzero"] = c["log"]
        o.setup_polar_log(r["r0"], r["r1"], r["nr"], c["nside"], **kw)
    return o


def get_weights(o, c):
    if c["args"] == "defaults":
        o.get_weights(verbose=False)
    else:
        o.get_weights(mc_size=c["size"], verbose=False)


def redges(c):
    from props.c04 import redges as f
    return f(c)


def points(c):
    """Deterministic well spread points of each pixel-shell, (nr, npix, n, 3),
    relative to the centre, and how far the closest of them may be (nr)."""
    import healpy as hp
    ns = c["nside"]
    nf, n = ns*64, 4096
    v = np.stack(hp.pix2vec(nf, np.arange(12*nf*nf), nest=True), axis=-1)
    v = v.reshape(12*ns*ns, n, 3)[hp.ring2nest(ns, np.arange(12*ns*ns))]
    # radii: bit reversal of the position along the curve
    i = np.arange(n)
    t = (sum(((i >> b) & 1) << (11 - b) for b in range(12)) + 0.5)/n
    re = redges(c)
    r = np.cbrt(re[:-1, None]**3 + (re[1:, None]**3 - re[:-1, None]**3)*t)      # nr, n
    p = v[None, :, :, :]*r[:, None, :, None]
    # blocks of 16 x 16 directions have one radius in each of 256 layers
    s = np.cbrt(re[:-1, None]**3 + (re[1:, None]**3 - re[:-1, None]**3)*np.linspace(0., 1., 257))
    reach = np.max(np.diff(s, axis=1), axis=1) + 2.1*re[1:]*hp.max_pixrad(ns*4)
    return p, reach


def run(c, ctx, tol):
    import healpy as hp
    o = setup(c)
    k = c["cube"]
    n = [k[a][2] for a in "xyz"]
    shape = (n[1], n[0], n[2])
    nr, npix = c["rad"]["nr"], 12*c["nside"]**2
    get_weights(o, c)

    def remap(f, w=None):
        return o.remap(f, w=w, verbose=False)
    W = mc.matrix(remap, shape)
    ctx.check(W.shape[0] == nr*npix, "%d values, expected %d", W.shape[0], nr*npix)
    # wholly outside: marked as unseen, whatever the field
    unseen = np.all(W == hp.UNSEEN, axis=1)
    ctx.check(np.array_equal(unseen, np.any(W == hp.UNSEEN, axis=1)) and np.all(np.isfinite(W)),
              "pixels are unseen for some fields and not for others")
    W = np.where(unseen[:, None], np.nan, W)
    known = mc.check_rows(ctx, W, "remap")
    P, reach = points(c)
    nv = n[0]*n[1]*n[2]
    q = np.zeros((nr*npix, nv + 1))
    X = P + np.array(c["center"])
    lo = np.array([k[a][0] for a in "xyz"])
    d = np.array([(k[a][1] - k[a][0])/k[a][2] for a in "xyz"])
    cell = np.floor((X - lo)/d).astype(int)
    ok = np.all((cell >= 0) & (cell < np.array(n)), axis=-1)
    idx = np.where(ok, (cell[..., 1]*n[0] + cell[..., 0])*n[2] + cell[..., 2], nv)
    idx = idx.reshape(nr*npix, -1)
    for row in range(nr*npix):
        q[row] = np.bincount(idx[row], minlength=nv + 1)/idx.shape[1]
    inside = 1. - q[:, -1]
    hits = mc.enough(c["size"], np.maximum(inside - tol, 0.))
    ctx.check(np.all(known[hits > 0]), "a pixel of which %r lies inside the cube is unseen",
              float(inside[(hits > 0) & ~known].max()) if np.any((hits > 0) & ~known) else 0.)
    Xf = X.reshape(nr*npix, -1, 3)
    for row in np.flatnonzero(known):
        for v in np.flatnonzero((W[row] > 0.) & (q[row, :-1] == 0.)):
            iy, rest = divmod(v, n[0]*n[2])
            ix, iz = divmod(rest, n[2])
            a = lo + d*np.array([ix, iy, iz])
            gap = np.maximum(np.maximum(a - Xf[row], Xf[row] - (a + d)), 0.)
            near = np.sqrt((gap**2).sum(axis=-1).min())
            ctx.check(near <= reach[row//npix], "shell %d pixel %d takes from voxel [%d, %d, %d], which "
                      "it does not overlap", row//npix, row % npix, iy, ix, iz)
    use = known & (hits > 20.)
    with np.errstate(all="ignore"):
        p = q[:, :-1]/inside[:, None]
    if np.any(use):
        t = np.minimum(0.5, tol/inside[use])[:, None]*np.ones((1, nv))
        bad = mc.surprising(W[use], p[use], t, hits[use][:, None])
        if np.any(bad):
            a = np.argwhere(bad)[0]
            row = np.flatnonzero(use)[a[0]]
            ctx.check(False, "shell %d pixel %d takes %r from voxel number %d; the overlap is %r "
                      "(%d samples)", row//npix, row % npix, float(W[row, a[1]]), int(a[1]),
                      float(p[row, a[1]]), c["size"])
    f = mc.check_field(ctx, c["f"], c["w"], shape, remap, W, (nr, npix), hp.UNSEEN, "remapped field")
    ctx.label("log" if c["log"] is not None else "linear", "nside:%d" % c["nside"],
              "all inside" if np.all(inside > 1. - 1e-9) else
              "some outside" if np.any(inside == 0.) else "partly outside")
    ctx.mark(np.any(use & (np.max(np.where(np.isnan(p), 0., p), axis=1) < 0.99)) and np.ptp(f) > 0.)


RULE = ("some pixel of a shell overlaps several voxels and has enough samples to test its weights, and "
        "the field is not constant")


@clause("C07", "weights", strategy=case(), quick=250, thorough=8000, shards=6, rule=RULE)
def small(c, ctx):
    run(c, ctx, 0.025)


@clause("C07", "convergence", strategy=case(3, 2, (1,), (10000, 30000)), quick=50, thorough=1500,
        shards=2, rule=RULE)
def large(c, ctx):
    run(c, ctx, 0.02)


@st.composite
def many(draw):
    c = draw(case(3, 3, (1, 2, 2, 4, 3), (100, 300)))
    top = draw(st.sampled_from([10, 40, 70]))
    for a in "xyz":
        c["cube"][a][2] = draw(st.integers(4, top))
    if draw(st.integers(0, 1)) == 0:
        # one axis with very many
        a = draw(st.sampled_from("xyz"))
        for b in "xyz":
            c["cube"][b][2] = draw(st.integers(1, 6))
        c["cube"][a][2] = draw(st.sampled_from([140, 300, 600, 40000]))
    return c


@clause("C07", "large", strategy=many(), quick=80, thorough=1500, shards=3,
        rule="some pixel of a shell lies inside the cube")
def many_voxels(c, ctx):
    """Fine cubes: the mean position of the voxels that a pixel takes from."""
    import healpy as hp
    o = setup(c)
    k = c["cube"]
    n = {a: k[a][2] for a in "xyz"}
    nr, npix = c["rad"]["nr"], 12*c["nside"]**2
    get_weights(o, c)
    index = dict(zip("yxz", np.meshgrid(np.arange(n["y"]), np.arange(n["x"]), np.arange(n["z"]), indexing="ij")))
    m, nk = 16, 12
    v = hpx.fill(range(npix), c["nside"], m).reshape(npix, m*m, 3)
    re = redges(c)
    r = np.cbrt(re[:-1, None]**3 + (re[1:, None]**3 - re[:-1, None]**3)*((np.arange(nk) + 0.5)/nk))
    # the same direction comes with several radii
    pos = r[:, None, None, :, None]*v[None, :, :, None, :]
    pos = pos.reshape(nr, npix, m*m*nk, 3) + np.array(c["center"])
    u = {a: (pos[..., i] - k[a][0])/(k[a][1] - k[a][0])*n[a] for i, a in enumerate("xyz")}
    ok = np.ones(pos.shape[:-1], bool)
    for a in "xyz":
        ok &= (u[a] >= 0.) & (u[a] < n[a])
    inside = ok.mean(axis=2)
    full = inside == 1.
    hits = np.where(full, c["size"], mc.enough(c["size"], np.maximum(inside - 0.1, 0.)))
    use = hits > 20.
    gap = re[1:]*hp.max_pixrad(c["nside"])/m*2. + np.max(np.diff(np.cbrt(
        re[:-1, None]**3 + (re[1:, None]**3 - re[:-1, None]**3)*np.linspace(0., 1., nk + 1)), axis=1), axis=1)
    for a in "xyz":
        got = np.asarray(o.remap(index[a], verbose=False), dtype=float)
        ctx.shape(got, inside.shape, "remapped positions")
        d = (k[a][1] - k[a][0])/n[a]
        lo = np.where(ok, u[a], np.inf).min(axis=2)
        hi = np.where(ok, u[a], -np.inf).max(axis=2)
        with np.errstate(all="ignore"):
            mean = np.where(ok, u[a], 0.).sum(axis=2)/ok.sum(axis=2) - 0.5
        width = np.where(use, hi - lo, 0.) + 2.*(gap/d)[:, None] + 1.
        slack = 0.75 + np.where(full, 0.03, 0.12)*width
        mc.check_mean(ctx, np.where(use, got, 0.), np.where(use, mean, 0.), width, np.maximum(hits, 1.), slack,
                      "mean %s index of the voxels taken from" % a)
    ctx.mark(np.any(use))
