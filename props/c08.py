"""C08: dense-grid cube-to-shell remapping is the volume-weighted mean."""
import numpy as np
from hypothesis import strategies as st

from vlib import cubes, gen, geom
from vlib.core import clause


@st.composite
def images(draw):
    a = draw(st.sampled_from([0, 0, 0, 0, -1, -1, -2, -3]))
    b = draw(st.sampled_from([0, 0, 0, 0, 1, 1, 2, 3]))
    return [a, b]


@st.composite
def case(draw, nmax=6, nrmax=3):
    cu = draw(cubes.cube(nmax, (1e8,)))
    per = draw(st.booleans())
    c = {"cube": cu, "rad": draw(cubes.radii(cu, nrmax)), "center": draw(cubes.center_in(cu)),
         "nside": draw(st.sampled_from([1, 1, 2, 4])),
         "rebin_shell": draw(st.sampled_from([1, 2, 2, 4])),
         "rebin_r": draw(st.integers(1, 4)),
         "px": draw(images()) if per else [0, 0],
         "py": draw(images()) if per else [0, 0],
         "pz": draw(images()) if per else [0, 0],
         "f": draw(gen.field()), "args": draw(st.sampled_from(["all", "all", "all", "defaults"]))}
    if c["args"] == "defaults":
        c.update({"center": [0., 0., 0.], "rebin_shell": 2, "rebin_r": 2,
                  "px": [0, 0], "py": [0, 0], "pz": [0, 0]})
    return c


def setup(c, obj=None):
    import magpie.densegrid as dg
    o = dg.Cube2Shell() if obj is None else obj
    k, r = c["cube"], c["rad"]
    o.setup_cube(k["x"][0], k["x"][1], k["x"][2], k["y"][0], k["y"][1], k["y"][2],
                 k["z"][0], k["z"][1], k["z"][2])
    if c["args"] == "defaults":
        o.setup_polar(r["r0"], r["r1"], r["nr"], c["nside"])
    else:
        o.setup_polar(r["r0"], r["r1"], r["nr"], c["nside"], center=c["center"],
                      rebin_shell=c["rebin_shell"], rebin_r=c["rebin_r"],
                      periodicx=c["px"], periodicy=c["py"], periodicz=c["pz"])
    return o


def axis_values(pos, spec, per):
    """Candidate cells of the positions along one axis (two, leading)."""
    lo, hi, n = spec
    L = hi - lo
    scale = max(abs(lo), abs(hi), np.max(np.abs(pos)), L*(max(abs(per[0]), abs(per[1])) + 1))
    d = L/n
    eps = 1e-12*max(1., scale/d)
    t = (pos - lo)/d
    out = []
    for s in (-eps, eps):
        cell = np.floor(t + s).astype(int)
        image = -(cell//n)                  # shift which brings it into the cube
        ok = (image >= per[0]) & (image <= per[1])
        out.append(np.where(ok, cell % n, -1))
    return out


def reference(c, f):
    import healpy as hp
    nside, ks, kr = c["nside"], c["rebin_shell"], c["rebin_r"]
    nf = nside*ks
    rd = c["rad"]
    re = rd["r0"] + (rd["r1"] - rd["r0"])*np.arange(kr*rd["nr"] + 1)/(kr*rd["nr"])
    rm = 0.5*(re[1:] + re[:-1])
    v = np.stack(hp.pix2vec(nf, np.arange(12*nf**2)), axis=-1)
    f = gen.f64(f)
    cand = []
    for a, k, p in (("x", 0, "px"), ("y", 1, "py"), ("z", 2, "pz")):
        cand.append(axis_values(c["center"][k] + rm[:, None]*v[None, :, k], c["cube"][a], c[p]))
    vals = []
    for i in cand[0]:
        for j in cand[1]:
            for k in cand[2]:
                ok = (i >= 0) & (j >= 0) & (k >= 0)
                vals.append(np.where(ok, f[np.maximum(j, 0), np.maximum(i, 0), np.maximum(k, 0)], 0.))
    lo, hi = geom.bracket(np.stack(vals))
    parent = hp.nest2ring(nside, hp.ring2nest(nf, np.arange(12*nf**2))//ks**2)
    vol = re[1:]**3 - re[:-1]**3

    def down(a):
        m = np.zeros((len(rm), 12*nside**2))
        for s in range(len(rm)):
            m[s] = np.bincount(parent, weights=a[s], minlength=12*nside**2)/ks**2
        m = (m*vol[:, None]).reshape(rd["nr"], kr, -1).sum(axis=1)
        return m/vol.reshape(rd["nr"], kr).sum(axis=1)[:, None]
    return down(lo), down(hi), float(np.mean(hi > lo))


def run(c, ctx):
    o = setup(c)
    k = c["cube"]
    f = gen.make(c["f"], (k["y"][2], k["x"][2], k["z"][2]))
    lo, hi, amb = reference(c, f)
    amp = gen.amp(f)
    geom.within(ctx, o.remap(f, verbose=False), lo, hi, gen.tol(c["f"])*amp + 1e-300, "remapped field")
    n_img = int(np.prod([c[p][1] - c[p][0] + 1 for p in ("px", "py", "pz")]))
    ctx.label("ambiguous" if amb else "unambiguous", "images:%s" % min(n_img, 5),
              "nside:%d" % c["nside"], "rebin_shell:%d" % c["rebin_shell"],
              "rebin_r:%d" % c["rebin_r"])
    ctx.mark(amb < 0.2 and np.any(lo != 0.) and np.ptp(gen.f64(f)) > 0.)


@clause("C08", "subgrid_mean", strategy=case(), quick=500, thorough=20000, shards=6, budget=30.,
        rule="the grid overlaps the cube, the field is not constant, and less than 20% of the points "
             "are decided by rounding")
def small(c, ctx):
    run(c, ctx)


@st.composite
def fine(draw):
    c = draw(case(6, 2))
    top = draw(st.sampled_from([12, 30, 60]))
    for a in "xyz":
        c["cube"][a][2] = draw(st.integers(2, top))
    c["nside"] = draw(st.sampled_from([2, 4, 8, 16]))
    return c


@clause("C08", "large", strategy=fine(), quick=60, thorough=1500, shards=3, budget=30.,
        rule="the grid overlaps the cube, the field is not constant, and less than 20% of the points "
             "are decided by rounding")
def large(c, ctx):
    """Fine cubes and shells of thousands of pixels."""
    run(c, ctx)
