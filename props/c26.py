"""C26: calculations never modify their inputs.

A table of every public function and method, each with a builder of arguments.
For generated arguments, in several memory layouts, the call must leave the
arguments, the default arguments of the whole package and all earlier results as
they were, and give the same result when it is repeated, with fresh copies and
with read-only arguments.
"""
import copy
import inspect
import pkgutil

import numpy as np
from hypothesis import strategies as st

from props import c04, c05, c07, c08, c09, c10, c11, c12
from props.c13 import equal, spoil
from vlib import gen
from vlib.core import Skip, clause

PI = np.pi
TWO = 2.*PI
TABLE = {}          # name -> (builder, random)


def entry(name, random=False):
    def deco(fn):
        TABLE[name] = (fn, random)
        return fn
    return deco


class R:
    """Draws the arguments of one call."""

    def __init__(self, seed, n, opt):
        self.r = np.random.RandomState(seed)
        self.n = n
        self.opt = opt

    def a(self, lo=-3., hi=3., shape=None):
        v = np.round(self.r.uniform(lo, hi, self.n if shape is None else shape), 6)
        if self.r.randint(3) == 0:          # the ends of the range, and its middle
            w = self.r.uniform(size=v.shape)
            v = np.where(w < 0.15, lo, np.where(w < 0.3, hi, np.where(w < 0.45, 0.5*(lo + hi), v)))
        return v

    def center(self):
        """A direction, also on the borders of its range."""
        return [self.pick(self.u(0., 6.), self.u(0., 6.), 0., PI, TWO, PI/2.),
                self.pick(self.u(0.6, 2.5), self.u(0.6, 2.5), PI/2., 0., PI)]

    def u(self, lo=0., hi=1.):
        return round(float(self.r.uniform(lo, hi)), 6)

    def i(self, lo, hi):
        return int(self.r.randint(lo, hi + 1))

    def edges(self, n, lo=0., step=1.):
        return lo + np.concatenate([[0.], np.cumsum(self.r.uniform(0.1, 1., n)*step)])

    def pick(self, *vals):
        return vals[self.r.randint(len(vals))]


def m():
    import magpie
    return magpie


# --------------------------------------------------------------- coordinates
@entry("cart2polar")
def _(r):
    kw = {"center": [r.u(), r.u()]} if r.opt else {}
    return m().coords.cart2polar, [r.a(), r.a()], kw


@entry("polar2cart")
def _(r):
    kw = {"center": [r.u(), r.u()]} if r.opt else {}
    return m().coords.polar2cart, [r.a(0., 3.), r.a(0., TWO)], kw


@entry("cart2sphere")
def _(r):
    kw = {"center": [r.u(), r.u(), r.u()]} if r.opt else {}
    return m().coords.cart2sphere, [r.a(), r.a(), r.a()], kw


@entry("sphere2cart")
def _(r):
    kw = {"center": [r.u(), r.u(), r.u()]} if r.opt else {}
    return m().coords.sphere2cart, [r.a(0., 3.), r.a(0., TWO), r.a(0., PI)], kw


@entry("ortho2cart")
def _(r):
    kw = {"r": 1.5, "fill_value": 0.} if r.opt else {}
    return m().coords.ortho2cart, [r.a(-1.2, 1.2), r.a(-1.2, 1.2)], kw


@entry("healpix_xy2ang")
def _(r):
    phi, theta = r.a(0., TWO), r.a(0., PI)
    x, y = m().coords.healpix_ang2xy(phi, theta)
    return m().coords.healpix_xy2ang, [x, y], {}


@entry("healpix_ang2xy")
def _(r):
    return m().coords.healpix_ang2xy, [r.a(0., TWO), r.a(0., PI)], {}


@entry("rotate_polar")
def _(r):
    return m().coords.rotate_polar, [r.a(0., TWO), r.u(0.1, 6.2)], {}


@entry("rotate_polar_grid")
def _(r):
    na, nr = r.i(2, 7), r.i(1, 5)
    full = r.pick(True, True, False)
    e = np.linspace(0., TWO if full else r.u(1., 6.), na + 1)
    return m().coords.rotate_polar_grid, [e, r.a(shape=(na, nr)), r.u(0.05, 6.2)], {}


@entry("usphere_rotate")
def _(r):
    kw = {"phi_start": r.u(0., 6.), "theta_start": r.u(0.1, 3.)} if r.opt else {}
    return m().coords.usphere_rotate, [r.a(0., TWO), r.a(0., PI), r.u(0., 6.), r.u(0.1, 3.)], kw


@entry("usphere_phi_shift")
def _(r):
    return m().coords.usphere_phi_shift, [r.a(0., TWO), r.u(-6., 6.)], {}


@entry("usphere_shift")
def _(r):
    return m().coords.usphere_shift, [r.a(0., TWO), r.a(0., PI), r.u(0., 6.), r.u(0.1, 3.),
                                      r.u(0., 6.), r.u(0.1, 3.)], {}


@entry("usphere_spin")
def _(r):
    return m().coords.usphere_spin, [r.a(0., TWO), r.a(0., PI), r.u(0., 6.), r.u(0.1, 3.), r.u(0., 6.)], {}


@entry("sphere2lonlat")
def _(r):
    return m().coords.sphere2lonlat, [r.a(0., PI)], {}


@entry("lonlat2sphere")
def _(r):
    return m().coords.lonlat2sphere, [r.a(-PI/2., PI/2.)], {}


# --------------------------------------------------------------------- grids
@entry("xedges2mid")
def _(r):
    return m().grids.xedges2mid, [r.edges(r.i(1, 8))], {}


@entry("xmid2edges")
def _(r):
    return m().grids.xmid2edges, [0.5 + 1.*np.arange(r.i(2, 8))], {}


@entry("grid2d")
def _(r):
    kw = {"mins": [r.u(), r.pick(None, 0.5)], "return1d": True} if r.opt else {}
    return m().grids.grid2d, [[r.u(1., 3.), r.u(1., 3.)], [r.i(1, 5), r.i(1, 5)]], kw


@entry("grid3d")
def _(r):
    kw = {"mins": [r.u(), r.pick(None, 0.5), 0.], "return1d": True} if r.opt else {}
    return m().grids.grid3d, [[r.u(1., 3.), r.u(1., 3.), 2.], [r.i(1, 4), r.i(1, 4), r.i(1, 4)]], kw


@entry("grid1d")
def _(r):
    return m().grids.grid1d, [r.u(1., 3.), r.i(1, 6)], {"xmin": r.u(), "return_edges": True} if r.opt else {}


@entry("polargrid")
def _(r):
    return m().grids.polargrid, [r.i(1, 5), r.i(1, 5)], {"return1d": True} if r.opt else {}


@entry("polarEA_grid")
def _(r):
    return m().grids.polarEA_grid, [r.i(1, 5)], {"rmax": r.u(0.5, 2.), "base_nphi": r.i(1, 5)} if r.opt else {}


# -------------------------------------------------------------------- one_d
def bins(r):
    e = r.edges(r.i(2, 9))
    new = r.pick(e.copy(), np.linspace(e[0] - 0.3, e[-1] + 0.4, r.i(2, 7)),
                 np.linspace(e[0], e[-1], r.i(2, 7)), r.edges(r.i(1, 4), 0.2))
    return e, new


@entry("rebin_1d")
def _(r):
    e, new = bins(r)
    n = len(e) - 1
    kw = {}
    if r.opt:
        kw["w"] = r.a(0.5, 2., n)
    if r.pick(True, False):
        kw["sigma"] = r.a(0.1, 1., n)
    return m().one_d.rebin_1d, [e, r.a(shape=n), new], kw


@entry("rebin_1d_single_bin_weights")
def _(r):
    e, new = bins(r)
    from magpie.one_d.one_d import rebin_1d_single_bin_weights
    return rebin_1d_single_bin_weights, [e, float(new[0]), float(new[1])], {}


# -------------------------------------------------------------------- pixels
def pixels(r):
    nside = r.pick(1, 2, 3, 4, 8)
    return nside, r.r.randint(0, 12*nside**2, r.n)


@entry("healpix_pix2ij")
def _(r):
    nside, p = pixels(r)
    return m().pixel.healpix_pix2ij, [p, nside], {}


@entry("healpix_ij2pix")
def _(r):
    nside, p = pixels(r)
    i, j = m().pixel.healpix_pix2ij(p, nside)
    return m().pixel.healpix_ij2pix, [i, j, nside], {}


@entry("healpix_pix2xy")
def _(r):
    nside, p = pixels(r)
    return m().pixel.healpix_pix2xy, [p, nside], {}


@entry("healpix_i2id")
def _(r):
    nside, p = pixels(r)
    return m().pixel.healpix_i2id, [m().pixel.healpix_pix2ij(p, nside)[0], nside], {}


@entry("healpix_j2jd")
def _(r):
    nside, p = pixels(r)
    i, j = m().pixel.healpix_pix2ij(p, nside)
    return m().pixel.healpix_j2jd, [i, j, nside], {}


@entry("healpix_ij2xy")
def _(r):
    nside, p = pixels(r)
    i, j = m().pixel.healpix_pix2ij(p, nside)
    return m().pixel.healpix_ij2xy, [i, j, nside], {}


@entry("healpix_ijd2ijs")
def _(r):
    nside, p = pixels(r)
    i, j = m().pixel.healpix_pix2ij(p, nside)
    return m().pixel.healpix_ijd2ijs, [m().pixel.healpix_i2id(i, nside), m().pixel.healpix_j2jd(i, j, nside),
                                       nside], {}


@entry("healpix_ijs2ijd")
def _(r):
    nside, p = pixels(r)
    i, j = m().pixel.healpix_pix2ij(p, nside)
    s = m().pixel.healpix_ijd2ijs(m().pixel.healpix_i2id(i, nside), m().pixel.healpix_j2jd(i, j, nside), nside)
    return m().pixel.healpix_ijs2ijd, [s[0], s[1], nside], {}


@entry("healpix_boundary")
def _(r):
    nside, p = pixels(r)
    name = r.pick("healpix_boundary", "healpix_boundary_top", "healpix_boundary_bot")
    return getattr(m().pixel, name), [int(p[0]), nside], {"steps": 8*r.i(1, 4), "reverse": r.pick(True, False)}


@entry("get_arc")
def _(r):
    return m().pixel.get_arc, [r.u(0.5, 2.)], {"center": [r.u(), r.u()], "steps": r.i(2, 9)} if r.opt else {}


@entry("get_disc")
def _(r):
    return m().pixel.get_disc, [], {"center": [r.u(), r.u()], "rmin": 0.3, "steps": 4*r.i(1, 9)} if r.opt else {}


@entry("get_box")
def _(r):
    kw = {"steps": 12*r.i(1, 4), "return_nearest": r.pick(True, False),
          "center": [r.u(-2., 2.), r.u(-2., 2.), r.u(-2., 2.)]} if r.opt else {}
    return m().pixel.get_box, [0., 1., -1., 1., 0.5, 2.], kw


# --------------------------------------------------------------------- polar
@entry("get_polar_area2d")
def _(r):
    return m().polar.get_polar_area2d, [r.edges(r.i(1, 6)), np.linspace(0., r.u(1., 6.), r.i(2, 7))], {}


@entry("get_pixarea")
def _(r):
    return m().polar.get_pixarea, [np.linspace(0., 2., r.i(2, 7)), np.linspace(0., 3., r.i(2, 7))], {}


@entry("polar2radial")
def _(r):
    s = (r.i(1, 6), r.i(1, 6))
    kw = {}
    if r.opt:
        kw["w"] = r.a(0.5, 2., s)
    if r.pick(True, False):
        kw["sigma"] = r.a(0.1, 1., s)
    return m().polar.polar2radial, [r.a(shape=s), r.a(0.5, 2., s), r.u(0.1, 1.)], kw


@entry("cumulative_radial")
def _(r):
    n = r.i(1, 7)
    return m().polar.cumulative_radial, [r.edges(n), r.a(shape=n)], {"sigma": r.a(0.1, 1., n)} if r.opt else {}


# ------------------------------------------------------------------- randoms
@entry("randoms_2d", random=True)
def _(r):
    return m().randoms.randoms_2d, [r.i(1, 9)], {"mins": [0., -1.], "maxs": [2., 1.]} if r.opt else {}


@entry("randoms_3d", random=True)
def _(r):
    return m().randoms.randoms_3d, [r.i(1, 9)], {"mins": [0., -1., 0.], "maxs": [2., 1., 1.]} if r.opt else {}


def pdf(r):
    n = r.i(5, 12)
    return np.linspace(0.5, 3., n), r.a(0.5, 1., n)


@entry("pdf2cdf")
def _(r):
    x, p = pdf(r)
    return m().randoms.pdf2cdf, [x, p], {"return_normpdf": r.pick(True, False)} if r.opt else {}


@entry("randoms_cdf", random=True)
def _(r):
    x, c = m().randoms.pdf2cdf(*pdf(r), return_normpdf=False)
    return m().randoms.randoms_cdf, [x, c, r.i(1, 20)], {"kind": "linear"} if r.opt else {}


@entry("randoms_pdf", random=True)
def _(r):
    x, p = pdf(r)
    return m().randoms.randoms_pdf, [x, p, r.i(1, 20)], {"kind": "linear"} if r.opt else {}


@entry("shuffle", random=True)
def _(r):
    return m().randoms.shuffle, [r.a()], {}


@entry("random_draw", random=True)
def _(r):
    return m().randoms.random_draw, [r.a(shape=r.n + 1), r.i(1, r.n)], {}


@entry("random_prob_draw", random=True)
def _(r):
    return m().randoms.random_prob_draw, [r.a(shape=r.n + 1), r.a(0.1, 1., r.n + 1)], \
        {"size": r.i(1, r.n)} if r.opt else {}


@entry("stochastic_integer_weights", random=True)
def _(r):
    return m().randoms.stochastic_integer_weights, [r.a(0., 3.)], {}


@entry("stochastic_binary_weights", random=True)
def _(r):
    return m().randoms.stochastic_binary_weights, [r.a(0., 3.)], {}


# --------------------------------------------------------------------- remap
@entry("grid2grid1D")
def _(r):
    kw = {"origin": r.u(), "originout": r.u(), "boxsizeout": r.u(0.5, 3.)} if r.opt else {}
    return m().remap.grid2grid1D, [r.a(shape=r.i(1, 8)), r.u(1., 3.), r.i(1, 6)], kw


@entry("grid2grid2D")
def _(r):
    kw = {"origin": [r.u(), r.u()], "originout": [r.u(), 0.], "boxsizeout": [r.u(0.5, 3.), 1.]} if r.opt else {}
    return m().remap.grid2grid2D, [r.a(shape=(r.i(1, 6), r.i(1, 6))),
                                   r.pick(2., [r.u(1., 3.), r.u(1., 3.)]),
                                   r.pick(3, [r.i(1, 5), r.i(1, 5)])], kw


@entry("grid2grid3D")
def _(r):
    kw = {"origin": [r.u(), r.u(), 0.], "originout": [r.u(), 0., 0.1],
          "boxsizeout": [r.u(0.5, 3.), 1., 2.]} if r.opt else {}
    return m().remap.grid2grid3D, [r.a(shape=(r.i(1, 4), r.i(1, 4), r.i(1, 4))),
                                   r.pick(2., [r.u(1., 3.), r.u(1., 3.), 1.5]),
                                   r.pick(3, [r.i(1, 4), r.i(1, 4), 2])], kw


# ------------------------------------------------------------------- objects
BOX = {"x0": -2., "x1": 2., "nx": 4, "y0": -1., "y1": 2., "ny": 3}


def rings(r, cls):
    full = r.pick(True, False)
    c = {"box": dict(BOX), "ang": {"p0": 0. if full else 0.3, "p1": TWO if full else 4., "np": r.i(2, 5)},
         "rad": {"r0": r.pick(0., 0.2), "r1": r.pick(1.4, 1.4, 3., 6.), "nr": r.i(1, 4)}}
    if cls == "dense":
        import magpie.densegrid as dg
        o = dg.Box2Ring()
    else:
        import magpie.montecarlo as mc
        o = mc.Box2Ring()
    cen = [r.u(-0.5, 0.5), r.u(-0.5, 0.5)]
    b, a, k = c["box"], c["ang"], c["rad"]
    o.setup_box(b["x0"], b["x1"], b["nx"], b["y0"], b["y1"], b["ny"])
    if cls == "dense":
        o.setup_polar(k["r0"], k["r1"], k["nr"], a["np"], pmin=a["p0"], pmax=a["p1"], center=cen,
                      rebin_r=r.i(1, 3), rebin_p=r.i(1, 3), phi_shift=r.u(0., 6.))
    else:
        o.setup_polar_lin(k["r0"], k["r1"], k["nr"], a["np"], pmin=a["p0"], pmax=a["p1"], center=cen)
        np.random.seed(5)
        o.get_weights(mc_size=60, verbose=False)
    return o, (a["np"], k["nr"])


def caps(r, cls):
    full = r.pick(True, False)
    if cls == "dense":
        import magpie.densegrid as dg
        o = dg.Heal2Ring()
    else:
        import magpie.montecarlo as mc
        o = mc.Heal2Ring()
    o.setup_map(2)
    na, nb = r.i(1, 4), r.i(2, 5)
    o.setup_polar_cap(r.pick(0., 0.2), 1.4, na, nb, beta_min=0. if full else 0.3, beta_max=TWO if full else 4.,
                      center=r.center(), beta_shift=r.u(0., 6.))
    if cls == "mc":
        np.random.seed(5)
        o.get_weights(mc_size=60, verbose=False)
    return o, (nb, na)


def heal(r, cls):
    if cls == "ortho":
        import magpie.densegrid as dg
        o = dg.Heal2Ortho()
    elif cls == "dense":
        import magpie.densegrid as dg
        o = dg.Heal2Polar()
    else:
        import magpie.montecarlo as mc
        o = mc.Heal2Polar()
    o.setup_map(2)
    o.setup_box(0.8, r.i(1, 4), center=r.center(), y_length=0.6, y_grid=r.i(1, 4))
    if cls == "mc":
        np.random.seed(5)
        o.get_weights(mc_size=60, verbose=False)
    return o


def shells(r, cls):
    if cls == "dense":
        import magpie.densegrid as dg
        o = dg.Cube2Shell()
    else:
        import magpie.montecarlo as mc
        o = mc.Cube2Shell()
    o.setup_cube(-1., 1., 3, -1.5, 1., 2, 0., 2., 2)
    cen = [r.u(-0.3, 0.3), 0., 1.]
    if cls == "dense":
        o.setup_polar(0., 0.9, r.i(1, 2), 1, center=cen, rebin_shell=2, rebin_r=r.pick(1, 2))
    else:
        o.setup_polar_lin(0., 0.9, r.i(1, 2), 1, center=cen)
        np.random.seed(5)
        o.get_weights(mc_size=20, verbose=False)
    return o


def methods(label, make, shape_in, kinds):
    for cls in kinds:
        @entry("%s remap (%s)" % (label, cls))
        def _(r, cls=cls):
            o = make(r, cls)
            o = o[0] if isinstance(o, tuple) else o
            kw = {"verbose": False}
            if r.opt and not (label == "Cube2Shell" and cls == "dense"):
                kw["w"] = r.a(0.5, 2., shape_in)
            return o.remap, [r.a(shape=shape_in)], kw


methods("Box2Ring", rings, (3, 4), ("dense", "mc"))
methods("Heal2Ring", caps, (48,), ("dense", "mc"))
methods("Heal2Polar", heal, (48,), ("dense", "mc"))
methods("Heal2Ortho", heal, (48,), ("ortho",))
methods("Cube2Shell", shells, (2, 3, 2), ("dense", "mc"))

for _label, _make in (("Box2Ring", rings), ("Heal2Ring", caps)):
    for _cls in ("dense", "mc"):
        @entry("%s rotate_polar (%s)" % (_label, _cls))
        def _(r, make=_make, cls=_cls):
            o, s = make(r, cls)
            return o.rotate_polar, [r.a(shape=s), r.u(0.1, 6.)], {}

        @entry("%s polar2radial (%s)" % (_label, _cls))
        def _(r, make=_make, cls=_cls):
            o, s = make(r, cls)
            kw = {}
            if r.opt:
                kw["w"] = r.a(0.5, 2., s)
            if r.pick(True, False):
                kw["sigma"] = r.a(0.1, 1., s)
            return o.polar2radial, [r.a(shape=s)], kw


@entry("Heal2Ortho transform")
def _(r):
    return heal(r, "ortho").transform, [r.a(0., TWO), r.a(0., PI)], {}


def pov(r):
    import magpie.densegrid as dg
    o = dg.PointOfView()
    o.setup([r.u(), r.u(), r.u()], [2. + r.u(), 2. + r.u(), r.u()], r.u(0.5, 2.), spin=r.pick(0., 1.))
    return o


@entry("PointOfView transform")
def _(r):
    return pov(r).transform, [r.a(), r.a(), r.a()], {}


@entry("PointOfView reverse")
def _(r):
    return pov(r).reverse, [r.a(-1., 1.), r.a(-1., 1.), r.a(0.5, 3.)], {}


def use(o):
    """Uses an object that has been set up, in all ways."""
    v = np.linspace(0.2, 1.1, 4)
    if hasattr(o, "reverse"):
        return o.transform(v, v[::-1], v**2), o.reverse(v, -v, v)
    out = []
    if hasattr(o, "get_weights"):
        np.random.seed(9)
        o.get_weights(mc_size=20, verbose=False)
    shape = 48 if hasattr(o, "setup_map") else (2, 3, 2) if hasattr(o, "setup_cube") else (2, 3)
    f = np.arange(1., 1. + np.prod(shape)).reshape(shape)
    out.append(o.remap(f, verbose=False))
    if hasattr(o, "get_mask_in_bound"):
        o.get_mask_in_bound(verbose=False)
        out.append(np.array(o.mask_in_bound))
    if hasattr(o, "polar2radial"):
        g = np.arange(1., 7.).reshape(3, 2)
        out += [o.rotate_polar(g, 1.), o.polar2radial(g)]
    if hasattr(o, "setup_map") and hasattr(o, "transform"):
        out += list(o.transform(v, v[::-1]))
    return tuple(out)


# --------------------------------------------------------------------- plots
def drawn(ax):
    """What has been drawn, as arrays."""
    out = [np.array(l.get_xydata(), dtype=float) for l in ax.lines]
    out += [np.ma.filled(np.ma.array(i.get_array(), dtype=float), np.nan) for i in ax.images]
    out += [np.array(i.get_extent(), dtype=float) for i in ax.images]
    out += [np.array(t.get_position() + (t.get_rotation(),), dtype=float) for t in ax.texts]
    out += ["|".join(t.get_text() for t in ax.texts), np.array(ax.get_xlim() + ax.get_ylim()),
            np.array(ax.get_xticks(), dtype=float), "|".join(t.get_text() for t in ax.get_xticklabels())]
    return tuple(out)


def axes():
    from matplotlib.backends.backend_agg import FigureCanvasAgg
    from matplotlib.figure import Figure
    f = Figure()
    FigureCanvasAgg(f)
    return f.add_subplot()


def plot_entry(name, build):
    @entry(name)
    def _(r):
        method, args, kw = build(r)
        if hasattr(method, "__self__"):
            o = method.__self__.heal2ortho

            def call(*a, **k):
                ax = axes()
                method(*a, ax=ax, **k)
                v = np.linspace(0.2, 1.1, 4)
                return drawn(ax), o.transform(v, v[::-1]), np.array(o.xedges), np.array(o.yedges), tuple(o.center)
        else:
            def call(*a, **k):
                ax = axes()
                method(*a, ax=ax, **k)
                return drawn(ax)
        return call, args, kw


def shapes_():
    from magpie.plots import shapes
    return shapes


def ortho_(r):
    from magpie.plots.ortho import PlotOrtho
    return PlotOrtho(heal(r, "ortho"))


plot_entry("setup plot_box", lambda r: (shapes_().plot_box, [0., r.u(0.5, 2.), r.u(-1., 0.), r.u(1., 2.)],
                                        {"divisions": r.i(1, 9)} if r.opt else {}))
plot_entry("setup plot_circle", lambda r: (shapes_().plot_circle, [],
                                           {"radius": r.pick(r.u(0.5, 2.), 50., 1e6, 1e-3),
                                            "center": [r.u(), r.u(-2., 0.)], "length": r.i(2, 50)}))


def _imshow(r):
    f = r.a(shape=(r.i(1, 5), r.i(1, 5)))
    f[r.r.uniform(size=f.shape) < r.pick(0., 0.3)] = np.nan
    return ortho_(r).imshow, [f], {}


plot_entry("PlotOrtho imshow (ortho)", _imshow)
plot_entry("setup PlotOrtho plot_grid", lambda r: (
    ortho_(r).plot_grid, [], {"dtheta": r.pick(20., 45., 90.), "dphi": r.pick(None, 30., 90.), "zeropoint": [r.u(), r.u()],
                              "shift": [r.u(), r.u()]} if r.opt else {}))
plot_entry("setup PlotOrtho plot_labels", lambda r: (
    ortho_(r).plot_labels, [], {"dtheta": r.pick(20., 45.), "dphi": r.pick(None, 30.), "zeropoint": [r.u(0., 6.), r.u(0.5, 2.5)],
                                "shift": [r.u(0., 9.), r.u(0., 9.)], "onsphere": r.pick(True, True, False),
                                "lonlat": r.pick(True, False), "userotation": r.pick(True, False)} if r.opt else {}))
plot_entry("setup PlotOrtho plot_polar_box", lambda r: (
    ortho_(r).plot_polar_box, [r.u(0., 1.), r.u(1., 3.), r.u(0., 0.5), r.u(0.6, 1.5)],
    {"lonlat": r.pick(True, False), "divisions": r.i(1, 9)} if r.opt else {}))
plot_entry("setup PlotOrtho finalize", lambda r: (
    ortho_(r).finalize, [], {"insphere": r.pick(True, False), "outeredge": r.pick(True, True, False),
                             "edgecenter": [r.u(-1e-3, 1e-3), r.u()], "edgelength": r.i(2, 50)} if r.opt else {}))


def setup_entry(name, make, second, *args, **kw):
    """Setting up an object leaves the lists given to it as they are; the result
    is a remapped field."""
    @entry(name)
    def _(r):
        def call(*a, **k):
            o = make(r)
            getattr(o, second)(*a, **k)
            return use(o)
        k = copy.deepcopy(kw)
        if name.startswith(("setup Heal",)):
            k["center"] = r.center()
            for a in ("alpha", "beta_shift"):
                if a in k:
                    k[a] = r.pick(k[a], 0., PI, TWO if a == "alpha" else 0.)
        elif "center" in k:
            k["center"] = [r.pick(v, r.u(), 0., 1., -0.5, 2.) for v in k["center"]]
        for p in ("periodicx", "periodicy", "periodicz"):
            if p in k:
                k[p] = r.pick([0, 0], [1, 0], [0, 1], [1, 1])
        return call, list(copy.deepcopy(args)), k


def _dense(name, first, *args):
    def make(r):
        import magpie.densegrid as dg
        o = getattr(dg, name)()
        if first:
            getattr(o, first)(*args)
        return o
    return make


def _mc(name, first, *args):
    def make(r):
        import magpie.montecarlo as mc
        o = getattr(mc, name)()
        getattr(o, first)(*args)
        return o
    return make


setup_entry("setup Box2Ring (dense)", _dense("Box2Ring", "setup_box", 0., 2., 3, 0., 1., 2), "setup_polar",
            0., 1., 2, 3, center=[0.5, 0.5], phi_shift=0.3)
setup_entry("setup Box2Ring (mc lin)", _mc("Box2Ring", "setup_box", 0., 2., 3, 0., 1., 2), "setup_polar_lin",
            0., 1., 2, 3, center=[0.5, 0.5])
setup_entry("setup Box2Ring (mc log)", _mc("Box2Ring", "setup_box", 0., 2., 3, 0., 1., 2), "setup_polar_log",
            0.1, 1., 2, 3, center=[0.5, 0.5])
setup_entry("setup Cube2Shell (dense)", _dense("Cube2Shell", "setup_cube", 0., 2., 3, 0., 1., 2, 0., 1., 2),
            "setup_polar", 0., 1., 2, 1, center=[0.5, 0.5, 0.1], periodicx=[1, 0], periodicy=[0, 1],
            periodicz=[1, 1])
setup_entry("setup Cube2Shell (mc)", _mc("Cube2Shell", "setup_cube", 0., 2., 3, 0., 1., 2, 0., 1., 2),
            "setup_polar_lin", 0., 1., 2, 1, center=[0.5, 0.5, 0.1])
setup_entry("setup Heal2Ring (dense)", _dense("Heal2Ring", "setup_map", 2), "setup_polar_cap", 0., 1., 2, 3,
            center=[0.5, 1.3], beta_shift=0.4)
setup_entry("setup Heal2Ring (mc)", _mc("Heal2Ring", "setup_map", 2), "setup_polar_cap", 0., 1., 2, 3,
            center=[0.5, 1.3], beta_shift=0.4)
setup_entry("setup Heal2Polar (dense)", _dense("Heal2Polar", "setup_map", 2), "setup_box", 1., 3,
            center=[0.5, 1.3], alpha=0.4)
setup_entry("setup Heal2Polar (mc)", _mc("Heal2Polar", "setup_map", 2), "setup_box", 1., 3,
            center=[0.5, 1.3], alpha=0.4)
setup_entry("setup Heal2Ortho", _dense("Heal2Ortho", "setup_map", 2), "setup_box", 1., 3, center=[0.5, 1.3])
setup_entry("setup PointOfView", _dense("PointOfView", None), "setup", [0., 1., 2.], [1., 1., 3.], 1., spin=0.4)


# ------------------------------------------------------------------ the check
def functions():
    """All functions of the package with their default arguments."""
    import importlib
    import magpie
    out = []
    for info in pkgutil.walk_packages(magpie.__path__, "magpie."):
        if ".src" in info.name:
            continue
        try:
            mod = importlib.import_module(info.name)
        except ImportError:
            continue
        for obj in vars(mod).values():
            if inspect.isfunction(obj) and obj.__module__.startswith("magpie"):
                out.append(obj)
            elif inspect.isclass(obj) and obj.__module__.startswith("magpie"):
                out += [f for f in vars(obj).values() if inspect.isfunction(f)]
    return [f for f in dict.fromkeys(out) if f.__defaults__ or f.__kwdefaults__]


FUNCTIONS = []
FIRST = {}


def defaults():
    if not FUNCTIONS:
        FUNCTIONS.extend(functions())
        for f in FUNCTIONS:
            FIRST[f] = repr((f.__defaults__, f.__kwdefaults__))
    return FUNCTIONS


def layout(a, how):
    if how == "reversed":
        return a[::-1].copy()[::-1]
    if how == "base":               # a view into the middle of a larger array
        big = np.full(tuple(s + 2 for s in a.shape), 3, dtype=a.dtype)
        v = big[tuple(slice(1, -1) for _ in a.shape)]
        v[...] = a
        return v
    return gen.layout(np.array(a), how)


def dress(args, hows, k0=0):
    out, bases = [], []
    for k, a in enumerate(args):
        if isinstance(a, np.ndarray):
            v = layout(a, hows[(k + k0) % len(hows)])
            out.append(v)
            b = v if v.base is None else v.base
            bases.append(b)
        else:
            out.append(copy.deepcopy(a))
    return out, bases


def same(a, b):
    """Bit for bit, in type as well."""
    if isinstance(a, np.ndarray):
        return (isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape
                and a.tobytes() == b.tobytes())
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


@st.composite
def case(draw, names):
    return {"fn": draw(st.sampled_from(names)), "seed": draw(gen.seed()), "n": draw(st.one_of(st.integers(1, 7), st.integers(1, 7), st.sampled_from([40, 300, 1500]))),
            "seq": draw(st.sampled_from(["list", "list", "array", "tuple"])),
            "nan": draw(st.sampled_from([None, None, None, "nan", "unseen", "zero"])),
            "opt": draw(st.booleans()), "seed2": draw(gen.seed()),
            "how": draw(st.lists(st.sampled_from(["C", "C", "F", "S", "reversed", "base"]), min_size=3, max_size=3)),
            "lock": draw(st.booleans()), "cast": draw(st.sampled_from([False, False, False, True])), "alias": draw(st.sampled_from([False, False, True]))}


def call(c, ctx):
    for f in defaults():
        ctx.check(repr((f.__defaults__, f.__kwdefaults__)) == FIRST[f],
                  "the default arguments of %s were changed before this case", f.__qualname__)
    build, rnd = TABLE[c["fn"]]
    fn, args, kw = build(R(c["seed"], c["n"], c["opt"]))
    names = sorted(kw)
    raw = args + [kw[k] for k in names]
    if c["seq"] != "list":          # short vectors as arrays or tuples
        for k in range(len(raw)):
            if isinstance(raw[k], list) and raw[k] and all(isinstance(v, (int, float)) for v in raw[k]) \
                    and (k >= len(args) or c["fn"].startswith(("setup", "PointOfView"))):
                raw[k] = np.array(raw[k]) if c["seq"] == "array" else tuple(raw[k])
    if c["nan"] and ("remap (" in c["fn"] or c["fn"] in ("rebin_1d", "polar2radial", "rotate_polar_grid")):
        k = 1 if c["fn"] in ("rebin_1d", "rotate_polar_grid") else 0
        bad = np.random.RandomState(c["seed"]).uniform(size=raw[k].shape) < 0.3
        raw[k] = np.where(bad, {"nan": np.nan, "unseen": -1.6375e30, "zero": 0.}[c["nan"]], raw[k])
    if c["cast"] and not c["nan"]:
        # whole numbers: data as integers, and indices as floats
        for k in INTS.get(c["fn"], ()) if "remap" not in c["fn"] and not c["fn"].startswith("grid2grid") else (0,):
            raw[k] = np.rint(raw[k]*10.).astype("int64")
        if c["fn"] in INDICES:
            raw = [a.astype(float) if isinstance(a, np.ndarray) else a for a in raw]
    if c["alias"]:
        # the same array for several arguments
        seen = {}
        for k, a in enumerate(raw):
            if isinstance(a, np.ndarray) and a.dtype.kind == "f":
                key = a.shape
                if key in seen and c["fn"] not in NOALIAS:
                    raw[k] = raw[seen[key]]
                seen.setdefault(key, k)
    vals, bases = dress(raw, c["how"])
    if c["alias"]:
        for k, a in enumerate(raw):
            for j in range(k):
                if isinstance(a, np.ndarray) and raw[j] is a:
                    vals[k] = vals[j]
    if c["lock"]:
        for v in vals:
            if isinstance(v, np.ndarray):
                v.flags.writeable = False
    before = [copy.deepcopy(v) for v in vals]
    bcopy = [b.copy() for b in bases]
    flags = [v.flags.writeable for v in vals if isinstance(v, np.ndarray)]
    n = len(args)

    def run(vs):
        np.random.seed(c["seed"] % 2**32)
        return fn(*vs[:n], **dict(zip(names, vs[n:])))

    def unchanged(when):
        for k, (v, b) in enumerate(zip(vals, before)):
            ctx.check(same(v, b), "%s: argument %s was changed %s", c["fn"],
                      k if k < n else names[k - n], when)
        for x, y in zip(bases, bcopy):
            ctx.check(x.tobytes() == y.tobytes(), "%s: memory next to an argument was changed %s", c["fn"], when)
        ctx.check(flags == [v.flags.writeable for v in vals if isinstance(v, np.ndarray)],
                  "%s: the write flag of an argument was changed", c["fn"])
        for f in defaults():
            ctx.check(repr((f.__defaults__, f.__kwdefaults__)) == FIRST[f],
                      "the default arguments of %s were changed", f.__qualname__)
    # what the call gives for untouched, contiguous, unshared copies
    want = run([copy.deepcopy(a) if not isinstance(a, np.ndarray) else np.array(a, order="C") for a in raw])
    kept = copy.deepcopy(want)
    got = run(vals)
    unchanged("by the call")
    ctx.check(equal(got, want), "%s depends on the memory layout of its arguments (%s%s%s)", c["fn"],
              "/".join(c["how"]), ", read-only" if c["lock"] else "", ", shared" if c["alias"] else "")
    gcopy = copy.deepcopy(got)
    again = run(vals)
    unchanged("by repeating the call")
    ctx.check(equal(again, gcopy), "%s: repeating the call gives another result", c["fn"])
    # a call with other values, of the same function
    fn2, args2, kw2 = build(R(c["seed2"], c["n"], c["opt"]))
    fn2(*args2, **kw2)
    # and on the same object
    if inspect.ismethod(fn):
        other = [v if not isinstance(v, np.ndarray) else np.array(v)[::-1].copy() for v in vals]
        if "rotate" not in c["fn"]:
            other = [v*0.5 if isinstance(v, np.ndarray) else v for v in other]
        run(other)
    for x in (want, got, again):
        ctx.check(equal(x, kept), "%s: an earlier result was changed by a later call", c["fn"])
    unchanged("by a later call")
    # the caller uses the memory of its results for something else
    for x in (want, got, again):
        spoil(x, [v for v in vals + raw if isinstance(v, np.ndarray)])
    ctx.check(equal(run(vals), gcopy), "%s: repeating the call after its earlier results were overwritten "
              "gives another result", c["fn"])
    unchanged("by a later call")
    ctx.label(c["fn"], "layout %s" % "/".join(sorted(set(c["how"]))), "read-only" if c["lock"] else "writable",
              "shared" if c["alias"] else "unshared", "cast" if c["cast"] else "not cast", "random" if rnd else "deterministic")
    ctx.mark(any(isinstance(v, (np.ndarray, list)) for v in vals))


# arguments which cannot be exchanged for one another
NOALIAS = {"healpix_xy2ang", "randoms_cdf", "randoms_pdf", "pdf2cdf", "healpix_ijd2ijs", "rebin_1d", "ortho2cart",
           "random_prob_draw", "cumulative_radial"}
# arguments which may be whole numbers, and functions of pixels and their indices
INTS = {"cart2polar": (0, 1), "cart2sphere": (0, 1, 2), "rotate_polar_grid": (1,), "rebin_1d": (1,), "polar2radial": (0,),
        "cumulative_radial": (1,), "shuffle": (0,), "random_draw": (0,), "random_prob_draw": (0,),
        "stochastic_integer_weights": (0,), "stochastic_binary_weights": (0,), "pdf2cdf": (1,), "ortho2cart": (0, 1)}
INDICES = {"healpix_pix2ij", "healpix_ij2pix", "healpix_pix2xy", "healpix_i2id", "healpix_j2jd", "healpix_ij2xy",
           "healpix_ijd2ijs", "healpix_ijs2ijd"}
RULE = "the call is given at least one array or list"
OBJ = [n for n in TABLE if "(" in n or n.startswith(("Heal2Ortho", "PointOfView", "setup"))]
FTN = [n for n in TABLE if n.startswith("grid2grid")]
PURE = [n for n in TABLE if n not in OBJ and n not in FTN]


@clause("C26", "functions", strategy=case(PURE), quick=4000, thorough=80000, shards=4, rule=RULE)
def functions_(c, ctx):
    call(c, ctx)


@clause("C26", "methods", strategy=case(OBJ), quick=1200, thorough=30000, shards=3, rule=RULE)
def methods_(c, ctx):
    call(c, ctx)


@clause("C26", "fortran", strategy=case(FTN), quick=1500, thorough=30000, shards=1, fortran="plain", rule=RULE)
def fortran_(c, ctx):
    call(c, ctx)
