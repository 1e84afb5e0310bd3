"""C05: dense-grid box-to-ring remapping is the area-weighted subgrid mean."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, geom, rings
from vlib.core import clause


@st.composite
def case(draw, nmax=9, npmax=8, nrmax=6, rmax=5):
    b = draw(rings.box(nmax))
    c = {"box": b, "ang": draw(rings.angles(npmax)), "rad": draw(rings.radii(b, nrmax)),
         "center": draw(rings.center_in(b)),
         "rebin_r": draw(st.integers(1, rmax)), "rebin_p": draw(st.integers(1, rmax)),
         "shift": draw(rings.shift()),
         "f": draw(gen.field()), "w": draw(st.one_of(st.none(), gen.weights(zeros=True))),
         "args": draw(st.sampled_from(["all", "all", "defaults"]))}
    if c["args"] == "defaults":
        c["ang"] = {"p0": 0., "p1": 2.*gen.PI, "np": c["ang"]["np"], "full": True}
        c["center"], c["rebin_r"], c["rebin_p"], c["shift"] = [0., 0.], 2, 2, 0.
    return c


def setup(c, obj=None):
    import magpie.densegrid as dg
    o = dg.Box2Ring() if obj is None else obj
    b, a, r = c["box"], c["ang"], c["rad"]
    o.setup_box(b["x0"], b["x1"], b["nx"], b["y0"], b["y1"], b["ny"])
    if c["args"] == "defaults":
        o.setup_polar(r["r0"], r["r1"], r["nr"], a["np"])
    else:
        o.setup_polar(r["r0"], r["r1"], r["nr"], a["np"], pmin=a["p0"], pmax=a["p1"],
                      center=c["center"], rebin_r=c["rebin_r"], rebin_p=c["rebin_p"],
                      phi_shift=c["shift"])
    return o


def reference(c, f):
    """Bounds of the subgrid mean of f (indexed [y, x])."""
    b, a, rd = c["box"], c["ang"], c["rad"]
    nr, npp = rd["nr"], a["np"]
    kr, kp = c["rebin_r"], c["rebin_p"]
    re = rd["r0"] + (rd["r1"] - rd["r0"])*np.arange(kr*nr + 1)/(kr*nr)
    pe = a["p0"] + (a["p1"] - a["p0"])*np.arange(kp*npp + 1)/(kp*npp)
    r = 0.5*(re[1:] + re[:-1])[None, :]
    p = 0.5*(pe[1:] + pe[:-1])[:, None] + c["shift"]
    x = c["center"][0] + r*np.cos(p)
    y = c["center"][1] + r*np.sin(p)
    dx, dy = (b["x1"] - b["x0"])/b["nx"], (b["y1"] - b["y0"])/b["ny"]
    scale = max(abs(v) for v in (b["x0"], b["x1"], b["y0"], b["y1"], rd["r1"],
                                 c["center"][0], c["center"][1]))
    ix = geom.cell_candidates(x, b["x0"], dx, b["nx"], scale)
    iy = geom.cell_candidates(y, b["y0"], dy, b["ny"], scale)
    f = gen.f64(f)
    vals = []
    for i in ix:
        for j in iy:
            ok = (i >= 0) & (j >= 0)
            vals.append(np.where(ok, f[np.maximum(j, 0), np.maximum(i, 0)], 0.))
    lo, hi = geom.bracket(np.stack(vals))
    area = np.broadcast_to((re[1:]**2 - re[:-1]**2)[None, :], lo.shape)
    return geom.block_mean(lo, hi, area, (npp, nr), (kp, kr))


def run(c, ctx):
    o = setup(c)
    b = c["box"]
    shape = (b["ny"], b["nx"])
    f = gen.make(c["f"], shape)
    w = None if c["w"] is None else gen.make(c["w"], shape)
    amp = gen.amp(f)
    rel = gen.tol(c["f"])
    lo, hi = reference(c, f)
    geom.within(ctx, o.remap(f, verbose=False), lo, hi, rel*amp + 1e-300, "remapped field")
    amb = float(np.mean(hi - lo > 0.))
    ctx.label("ambiguous" if amb > 0. else "unambiguous",
              "rebin r==p" if c["rebin_r"] == c["rebin_p"] else "rebin r!=p",
              "full" if c["ang"]["full"] else "partial",
              "rotated" if c["shift"] else "unrotated")
    one = reference(c, np.ones(shape))
    if w is not None:
        n = reference(c, gen.f64(f)*gen.f64(w))
        d = reference(c, w)
        good = d[0] > 0.
        lo2, hi2 = geom.ratio_bounds(n, d)
        got = np.asarray(o.remap(f, w=w, verbose=False), dtype=float)
        ctx.shape(got, lo2.shape, "weighted remapped field")
        if np.any(good):
            geom.within(ctx, np.where(good, got, 0.), np.where(good, lo2, 0.), np.where(good, hi2, 0.),
                        rel*amp*10. + 1e-300, "weighted remapped field")
            ctx.label("weighted", "zero weights" if np.any(w == 0) else "positive weights")
    g, bad = gen.spoiled(c["f"], f)
    miss = reference(c, bad)
    ctx.missing(o.remap(g, verbose=False), lo, miss[0] > 0., (miss[1] == 0.) & (lo == hi),
                "remapped field with missing values", rel*amp + 1e-300)
    o.get_mask_in_bound(verbose=False)
    geom.within(ctx, o.mask_in_bound, one[0], one[1], 1e-9, "in-bounds mask")
    if np.any((one[0] > 0) & (one[1] < 1)):
        ctx.label("partly outside")
    ctx.mark(amb < 0.2 and np.any(one[0] > 0.) and b["nx"]*b["ny"] > 1
             and np.ptp(gen.f64(f)) > 0.)


RULE = ("a box of several pixels that the grid overlaps, a field that is not constant, and less than "
        "20% of the pixels decided by rounding")


@clause("C05", "subgrid_mean", strategy=case(), quick=1500, thorough=60000, shards=5, rule=RULE)
def small(c, ctx):
    run(c, ctx)


@clause("C05", "large", strategy=case(40, 40, 30, 6), quick=150, thorough=4000, shards=2, rule=RULE)
def large(c, ctx):
    run(c, ctx)


@clause("C05", "fine", strategy=case(12, 3, 3, 40), quick=250, thorough=6000, shards=2, rule=RULE)
def fine(c, ctx):
    """Many subpixels: a pixel is covered, or out of bounds, in any proportion."""
    run(c, ctx)
