"""C11: orthographic projection; image and coordinates agree."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, geom, sphere
from vlib.core import clause

PI = np.pi


@st.composite
def grid(draw, nmax=8):
    r = draw(st.one_of(st.just(1.), gen.pos(0.25, 4.), st.sampled_from([100., 0.01])))
    return {"r": r, "xl": r*draw(st.one_of(st.just(2.), gen.pos(0.25, 3.))),
            "nx": draw(st.integers(1, nmax)),
            "yl": draw(st.one_of(st.none(), gen.pos(0.25, 3.).map(lambda v: v*r))),
            "ny": draw(st.one_of(st.none(), st.integers(1, nmax)))}


@st.composite
def case(draw, nmax=8, rmax=4, nsmax=16):
    c = {"nside": draw(sphere.nside(nsmax)), "box": draw(grid(nmax)), "center": draw(sphere.center()),
         "rx": draw(st.integers(1, rmax)), "ry": draw(st.integers(1, rmax)),
         "f": draw(gen.field()), "w": draw(st.one_of(st.none(), gen.weights(zeros=True))),
         "args": draw(st.sampled_from(["all", "all", "all", "defaults"]))}
    if c["args"] == "defaults":
        k = c["box"]
        k.update({"xl": k["xl"]/k["r"], "r": 1., "yl": None, "ny": None})
        c["center"], c["rx"], c["ry"] = [0., 0.], 2, 2
    return c


def setup(c, obj=None):
    import magpie.densegrid as dg
    o = dg.Heal2Ortho() if obj is None else obj
    k = c["box"]
    o.setup_map(c["nside"])
    if c["args"] == "defaults":
        o.setup_box(k["xl"], k["nx"])
    else:
        o.setup_box(k["xl"], k["nx"], center=c["center"], y_length=k["yl"], y_grid=k["ny"],
                    rebin_x=c["rx"], rebin_y=c["ry"], radius=k["r"])
    return o


def screen(center):
    """Takes (x, y, z) of the image (z towards the viewer) to the sky."""
    return geom.rz(center[0]) @ geom.ry(center[1]) @ geom.rz(-3.*PI/2.)


def image(c, ctx):
    o = setup(c)
    k = c["box"]
    nx = k["nx"]
    ny = k["ny"] if k["ny"] is not None else nx
    yl = k["yl"] if k["yl"] is not None else k["xl"]
    xe = sphere.edges(-k["xl"]/2., k["xl"]/2., nx*c["rx"])
    ye = sphere.edges(-yl/2., yl/2., ny*c["ry"])
    y, x = np.meshgrid(sphere.mids(ye), sphere.mids(xe), indexing="ij")
    y0, x0 = np.meshgrid(sphere.mids(sphere.edges(-yl/2., yl/2., ny)),
                         sphere.mids(sphere.edges(-k["xl"]/2., k["xl"]/2., nx)), indexing="ij")
    ctx.close(o.x2d, x0, "x2d", atol=1e-12*k["xl"])
    ctx.close(o.y2d, y0, "y2d", atol=1e-12*yl)
    r2 = k["r"]**2
    q = (x**2 + y**2)/r2
    valid, limb = q < 1., np.abs(q - 1.) < 1e-9
    z = np.sqrt(np.maximum(1. - q, 0.))
    v = geom.apply(screen(c["center"]), np.stack([x/k["r"], y/k["r"], z], axis=-1))
    v /= np.sqrt((v**2).sum(axis=-1))[..., None]
    pix = geom.pix_candidates(c["nside"], v)
    # close to the limb the depth is ill-conditioned: a few more directions
    q0 = (x0**2 + y0**2)/r2
    shape, sub = (ny, nx), (c["ry"], c["rx"])

    def anyof(a):
        return a.reshape(ny, sub[0], nx, sub[1]).any(axis=(1, 3))
    on = q0 < 1.
    skip = anyof(limb) | (np.abs(q0 - 1.) < 1e-9) | (on & ~anyof(valid))
    npix = 12*c["nside"]**2
    f = gen.make(c["f"], npix)
    f64 = gen.f64(f)
    amp, rel = gen.amp(f), gen.tol(c["f"])

    def mean(a):
        lo, hi = geom.bracket(a[pix])
        lo, hi = geom.block_mean(np.where(valid, lo, 0.), np.where(valid, hi, 0.),
                                 valid.astype(float), shape, sub)
        return np.where(on, lo, np.nan), np.where(on, hi, np.nan)

    def compare(got, lo, hi, tol, what):
        got = np.array(got, dtype=float)
        ctx.shape(got, shape, what)
        got[skip], lo, hi = 0., np.where(skip, 0., lo), np.where(skip, 0., hi)
        geom.within(ctx, got, lo, hi, tol, what)
    lo, hi = mean(f64)
    compare(o.remap(f), lo, hi, rel*amp + 1e-300, "image")
    g, bad = gen.spoiled(c["f"], f)
    miss = mean(bad.astype(float))
    with np.errstate(all="ignore"):
        ctx.missing(o.remap(g), lo, (miss[0] > 0.) & ~skip, (miss[1] == 0.) & (lo == hi) & ~skip,
                    "image with missing values", rel*amp + 1e-300)
    if c["w"] is not None:
        w = gen.make(c["w"], npix)
        w64 = gen.f64(w)
        d = mean(w64)
        lo2, hi2 = geom.ratio_bounds(mean(f64*w64), d)
        skip = skip | (d[0] == 0.)      # no weight at all: no mean
        compare(o.remap(f, w=w, verbose=False), lo2, hi2, rel*amp*10. + 1e-300, "weighted image")
        ctx.label("weighted", "zero weights" if np.any(w64 == 0.) else "positive weights")
    use = on & ~skip
    ctx.label("partly off the disc" if np.any(~on) else "all on the disc",
              "mixed pixels" if np.any(use & ~anyof(valid) | use & anyof(~valid)) else "no mixed pixels",
              "unit radius" if k["r"] == 1. else "other radius")
    ctx.mark(np.any(use) and np.mean(hi[use] > lo[use]) < 0.3 and np.ptp(f64) > 0.)


RULE = ("the map is not constant and less than 30% of the pixels on the disc are decided by rounding")


@clause("C11", "image", strategy=case(), quick=1200, thorough=40000, shards=4, rule=RULE)
def small(c, ctx):
    image(c, ctx)


@clause("C11", "image_large", strategy=case(20, 5, 256), quick=80, thorough=3000, shards=2, rule=RULE)
def large(c, ctx):
    image(c, ctx)


@st.composite
def points(draw):
    c = draw(case(4, 2, 2))
    n = draw(st.integers(1, 12))
    kind = draw(st.sampled_from(["array", "array", "scalar"]))
    return {"setup": c, "kind": kind,
            "p": [[draw(gen.phi()), draw(gen.theta())] for _ in range(n)]}


@clause("C11", "transform", strategy=points(), quick=2000, thorough=60000, shards=2,
        rule="some of the points are on the near and some on the far hemisphere")
def transform(c, ctx):
    o = setup(c["setup"])
    r = c["setup"]["box"]["r"]
    p = np.array(c["p"])
    v = geom.apply(screen(c["setup"]["center"]).T, geom.vec(p[:, 0], p[:, 1]))
    if c["kind"] == "scalar":
        got = [o.transform(float(a), float(b)) for a, b in p]
        for g in got:
            ctx.check(np.ndim(g[0]) == 0 and np.ndim(g[1]) == 0, "scalars give %r", g)
        x, y = np.array(got, dtype=float).T
    else:
        x, y = o.transform(p[:, 0].copy(), p[:, 1].copy())
        ctx.shape(x, (len(p),), "x")
        ctx.shape(y, (len(p),), "y")
    x, y = np.asarray(x, float)/r, np.asarray(y, float)/r
    limb = np.abs(v[:, 2]) < 1e-7
    near = v[:, 2] > 0.
    for g, w, name in ((x, v[:, 0], "x"), (y, v[:, 1], "y")):
        ok = np.where(limb, np.isnan(g) | (np.abs(g - w) < 1e-6),
                      np.where(near, np.abs(g - w) < 1e-6, np.isnan(g)))
        if not ok.all():
            i = int(np.argmin(ok))
            ctx.check(False, "%s of point %r: %r, expected %r (radius units)", name, c["p"][i],
                      float(g[i]), float(w[i]) if near[i] else None)
    ctx.label(c["kind"], "unit radius" if r == 1. else "other radius")
    ctx.mark(np.any(near & ~limb) and np.any(~near & ~limb))


@st.composite
def pixel_case(draw):
    return {"setup": draw(case(9, 1, 64))}


@clause("C11", "consistency", strategy=pixel_case(), quick=400, thorough=20000, shards=2,
        rule="some pixel centres are on the disc and decided without rounding")
def consistency(c, ctx):
    """The image of a map of pixel numbers, against transform of the sky position."""
    import healpy as hp
    s = dict(c["setup"], rx=1, ry=1)
    if s["args"] == "defaults":
        s["args"] = "all"
    o = setup(s)
    ns = s["nside"]
    img = np.asarray(o.remap(np.arange(12*ns**2)), dtype=float)
    # any sky position in the near hemisphere lands in the pixel that shows it
    k = s["box"]
    on = np.argwhere(np.isfinite(img))
    if len(on) == 0:
        return
    pix = img[on[:, 0], on[:, 1]]
    ctx.check(np.all(np.abs(pix - np.rint(pix)) < 1e-6), "image of pixel numbers is not a pixel number")
    pix = np.rint(pix).astype(int)
    X, Y = o.x2d[on[:, 0], on[:, 1]], o.y2d[on[:, 0], on[:, 1]]
    # the centre of the screen pixel and the sky pixel shown there are closer than the pixel radius
    t, p = hp.pix2ang(ns, pix)
    x, y = o.transform(p, t)
    near = np.isfinite(x)
    d = np.sqrt((x - X)**2 + (y - Y)**2)/k["r"]
    rmax = hp.max_pixrad(ns)
    ctx.check(np.all(d[near] <= rmax + 1e-6), "a pixel appears %r (radii) from where it is shown, "
              "which is more than its size", float(np.max(d[near])) if near.any() else 0.)
    ctx.mark(near.any())
