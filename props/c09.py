"""C09: dense-grid sphere-to-polar-cap remapping is the area-weighted mean."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, geom, sphere
from vlib.core import clause


@st.composite
def case(draw, namax=6, nbmax=6, rmax=4, nsmax=16):
    c = {"nside": draw(sphere.nside(nsmax)), "cap": draw(sphere.cap(namax, nbmax)),
         "center": draw(sphere.center()), "spin": draw(sphere.spin()),
         "ra": draw(st.integers(1, rmax)), "rb": draw(st.integers(1, rmax)),
         "f": draw(gen.field()), "w": draw(st.one_of(st.none(), gen.weights(zeros=True))),
         "args": draw(st.sampled_from(["all", "all", "all", "defaults"]))}
    if c["args"] == "defaults":
        c["cap"].update({"b0": 0., "b1": 2.*gen.PI, "full": True})
        c["center"], c["spin"], c["ra"], c["rb"] = [0., 0.], 0., 2, 2
    return c


def setup(c, obj=None):
    import magpie.densegrid as dg
    o = dg.Heal2Ring() if obj is None else obj
    k = c["cap"]
    o.setup_map(c["nside"])
    if c["args"] == "defaults":
        o.setup_polar_cap(k["a0"], k["a1"], k["na"], k["nb"])
    else:
        o.setup_polar_cap(k["a0"], k["a1"], k["na"], k["nb"], beta_min=k["b0"], beta_max=k["b1"],
                          center=c["center"], beta_shift=c["spin"],
                          rebin_alpha=c["ra"], rebin_beta=c["rb"])
    return o


def subgrid(c):
    k = c["cap"]
    ae = sphere.edges(k["a0"], k["a1"], k["na"]*c["ra"])
    be = sphere.edges(k["b0"], k["b1"], k["nb"]*c["rb"])
    b, a = np.meshgrid(sphere.mids(be), sphere.mids(ae), indexing="ij")
    v = geom.apply(sphere.cap_matrix(c["center"], c["spin"]), geom.vec(b, a))
    area = np.broadcast_to((np.cos(ae[:-1]) - np.cos(ae[1:]))[None, :], b.shape)
    return v, area, (k["nb"], k["na"]), (c["rb"], c["ra"])


def compare(c, ctx, o, v, area, shape, sub):
    npix = 12*c["nside"]**2
    f = gen.make(c["f"], npix)
    pix = geom.pix_candidates(c["nside"], v)
    f64 = gen.f64(f)
    amp, rel = gen.amp(f), gen.tol(c["f"])

    def mean(a):
        lo, hi = geom.bracket(a[pix])
        return geom.block_mean(lo, hi, area, shape, sub)
    lo, hi = mean(f64)
    geom.within(ctx, o.remap(f), lo, hi, rel*amp + 1e-300, "remapped map")
    g, bad = gen.spoiled(c["f"], f)
    miss = mean(bad.astype(float))
    ctx.missing(o.remap(g), lo, miss[0] > 0., (miss[1] == 0.) & (lo == hi),
                "remapped map with missing values", rel*amp + 1e-300)
    if c["w"] is not None:
        w = gen.make(c["w"], npix)
        w64 = gen.f64(w)
        d = mean(w64)
        lo2, hi2 = geom.ratio_bounds(mean(f64*w64), d)
        got = np.array(o.remap(f, w=w, verbose=False), dtype=float)
        ctx.shape(got, lo2.shape, "weighted remapped map")
        masked = ~(d[0] > 0.)           # no weight at all: no mean
        got[masked] = lo2[masked] = hi2[masked] = 0.
        geom.within(ctx, got, lo2, hi2, rel*amp*10. + 1e-300, "weighted remapped map")
        ctx.label("weighted", "zero weights" if np.any(w64 == 0.) else "positive weights")
    amb = float(np.mean(hi > lo))
    ctx.label("nside:%d" % c["nside"], "ambiguous" if amb else "unambiguous",
              "spun" if c["spin"] else "not spun", "defaults" if c["args"] == "defaults" else "all",
              "sub %s" % ("equal" if sub[0] == sub[1] else "unequal"))
    ctx.mark(amb < 0.3 and np.ptp(f64) > 0.)


def run(c, ctx):
    o = setup(c)
    compare(c, ctx, o, *subgrid(c))


RULE = ("the map is not constant and less than 30% of the grid pixels are decided by rounding")


@clause("C09", "subgrid_mean", strategy=case(), quick=1500, thorough=40000, shards=5, rule=RULE)
def small(c, ctx):
    run(c, ctx)


@clause("C09", "large", strategy=case(16, 16, 5, 256), quick=100, thorough=3000, shards=3, rule=RULE)
def large(c, ctx):
    run(c, ctx)
