"""C30: plot helpers draw the geometry they are given."""
import re

import numpy as np
from hypothesis import strategies as st

from props import c11
from vlib import gen, geom
from vlib.core import clause

PI = np.pi


class Axes:
    """A figure with two axes: the one to draw on, and another which has to stay empty."""

    def __init__(self, given):
        import matplotlib
        matplotlib.use("Agg")
        import matplotlib.pyplot as plt
        plt.close("all")
        self.plt = plt
        self.fig, (a, b) = plt.subplots(1, 2)
        self.given = given
        self.ax, self.other = a, b
        plt.sca(b if given else a)
        self.kw = {"ax": a} if given else {}
        self.before = self.state(b)

    @staticmethod
    def state(ax):
        return (len(ax.lines), len(ax.images), len(ax.texts), len(ax.patches), len(ax.collections), ax.get_xlim(),
                ax.get_ylim(), ax.axison, tuple(ax.get_xticks()), tuple(ax.get_yticks()))

    def close(self, ctx):
        ctx.check(len(self.plt.get_fignums()) == 1, "%d figures, one was open before", len(self.plt.get_fignums()))
        ctx.check(len(self.fig.axes) == 2, "%d axes, two were there before", len(self.fig.axes))
        ctx.check(self.state(self.other) == self.before, "the %s axis was changed",
                  "current" if self.given else "other")
        self.plt.close("all")


STYLES = [{}, {"color": "r", "linewidth": 3.}, {"color": "#00aa11", "linestyle": ":"}, {"alpha": 0.25}]


def style(ctx, line, kw):
    import matplotlib.colors as mc
    if "color" in kw:
        ctx.check(mc.same_color(line.get_color(), kw["color"]), "colour %r, asked for %r", line.get_color(), kw["color"])
    if "linestyle" in kw:
        ctx.check(line.get_linestyle() == kw["linestyle"], "line style %r, asked for %r", line.get_linestyle(),
                  kw["linestyle"])
    if "linewidth" in kw:
        ctx.check(line.get_linewidth() == kw["linewidth"], "line width %r, asked for %r", line.get_linewidth(),
                  kw["linewidth"])
    if "alpha" in kw:
        ctx.check(line.get_alpha() == kw["alpha"], "alpha %r, asked for %r", line.get_alpha(), kw["alpha"])


def only_line(ctx, a, kw):
    ctx.check(len(a.ax.lines) == 1, "%d lines were drawn", len(a.ax.lines))
    style(ctx, a.ax.lines[0], kw)
    return np.array(a.ax.lines[0].get_xydata(), dtype=float)


def rectangle(x0, x1, y0, y1, n):
    """The points of an outline with n points on each side."""
    s = np.linspace(0., 1., n)
    x = np.concatenate([x0 + (x1 - x0)*s, np.full(n, x1), x1 + (x0 - x1)*s, np.full(n, x0)])
    y = np.concatenate([np.full(n, y0), y0 + (y1 - y0)*s, np.full(n, y1), y1 + (y0 - y1)*s])
    return np.stack([x, y], axis=-1)


def same_points(ctx, got, want, tol, what):
    """The same points, as a closed line, whatever its start and direction."""
    ctx.check(len(got) == len(want), "%s: %d points, expected %d", what, len(got), len(want))
    from scipy.spatial import cKDTree
    ctx.check(np.all(np.isfinite(got)), "%s: a point is not finite", what)
    off, short = cKDTree(want).query(got)[0].max(), cKDTree(got).query(want)[0].max()
    ctx.check(off <= tol, "%s: a point is %r away from the shape", what, float(off))
    ctx.check(short <= tol, "%s: the shape is %r away from the line", what, float(short))
    ctx.check(np.abs(got[0] - got[-1]).max() <= tol, "%s: not closed, from %r to %r", what, got[0].tolist(),
              got[-1].tolist())
    step = np.sqrt(((got[1:] - got[:-1])**2).sum(axis=-1)).max()
    lim = np.sqrt(((want[1:] - want[:-1])**2).sum(axis=-1)).max()
    ctx.check(step <= lim + 2.*tol, "%s: neighbouring points are %r apart, expected at most %r", what, float(step),
              float(lim))


@st.composite
def shape_case(draw):
    k = draw(st.sampled_from(["box", "circle"]))
    c = {"kind": k, "given": draw(st.booleans()), "style": draw(st.integers(0, len(STYLES) - 1)),
         "n": draw(st.one_of(st.none(), st.integers(2, 30), st.integers(2, 30), st.sampled_from([150, 400, 1500, 3000])))}
    x0, y0 = draw(gen.num(-5., 5.)), draw(gen.num(-5., 5.))
    c["z"] = z = draw(gen.zoom())
    if k == "box":
        c["box"] = [z*x0, z*(x0 + draw(gen.pos(0.1, 5.))), z*y0, z*(y0 + draw(gen.pos(0.1, 5.)))]
    else:
        c["circle"] = [z*draw(gen.pos(0.1, 5.)), z*x0, z*y0]
        c["defaults"] = draw(st.integers(0, 7)) == 0
    return c


@clause("C30", "shapes", strategy=shape_case(), quick=250, thorough=6000, shards=2,
        rule="the outline has more than two points a side (a circle: more than four)")
def shapes(c, ctx):
    from magpie.plots import shapes as s
    a = Axes(c["given"])
    kw = STYLES[c["style"]]
    if c["kind"] == "box":
        n = 100 if c["n"] is None else c["n"]
        s.plot_box(*c["box"], **({} if c["n"] is None else {"divisions": n}), **a.kw, **kw)
        same_points(ctx, only_line(ctx, a, kw), rectangle(*c["box"], n), 1e-12*20.*c["z"], "box")
        ctx.mark(n > 2)
    else:
        r, x, y = c["circle"]
        if c["defaults"]:
            r, x, y, c["z"] = 1., 0., 0., 1.
            s.plot_circle(**a.kw, **kw)
            n = 1000
        else:
            n = 1000 if c["n"] is None else c["n"] + 2
            s.plot_circle(r, [x, y], **({} if c["n"] is None else {"length": n}), **a.kw, **kw)
        p = 2.*PI*np.arange(n)/(n - 1.)
        same_points(ctx, only_line(ctx, a, kw), np.stack([x + r*np.cos(p), y + r*np.sin(p)], axis=-1),
                    1e-12*20.*c["z"], "circle")
        ctx.mark(n > 4)
    a.close(ctx)
    ctx.label(c["kind"], "given axis" if c["given"] else "current axis", "default density" if c["n"] is None else "density")


# ------------------------------------------------------------ orthographic
@st.composite
def ortho_case(draw):
    return {"setup": draw(c11.case(4, 1, 1)), "given": draw(st.booleans()),
            "style": draw(st.integers(0, len(STYLES) - 1))}


def plotter(c):
    from magpie.plots.ortho import PlotOrtho
    o = c11.setup(c["setup"])
    return o, PlotOrtho(o), c["setup"]["box"]["r"]


def limits(s):
    k = s["box"]
    yl = k["yl"] if k["yl"] is not None else k["xl"]
    return [-k["xl"]/2., k["xl"]/2., -yl/2., yl/2.]


def project(s, phi, theta):
    """(x, y, depth) of sky positions, in units of the radius."""
    return geom.apply(c11.screen(s["center"]).T, geom.vec(np.asarray(phi, float), np.asarray(theta, float)))


def same_curve(got, v, r):
    """Whether a line is the projection of the points v, hidden ones left out."""
    if got.shape != (len(v), 2):
        return False
    g = got/r
    nan = np.isnan(g)
    limb = np.abs(v[:, 2]) < 1e-6
    near = v[:, 2] > 0.
    with np.errstate(invalid="ignore"):
        there = (np.abs(g - v[:, :2]) < 1e-6).all(axis=1)
    gone = nan.any(axis=1)
    return bool(np.where(limb, there | gone, np.where(near, there, gone)).all())


STEPS = [15., 22.5, 7.5, 30., 45., 60., 90., 10., 20., 22.5, 18., 180., 11.25]


@st.composite
def grid_case(draw):
    c = draw(ortho_case())
    c["dtheta"] = draw(st.one_of(st.none(), st.sampled_from(STEPS)))
    c["dphi"] = draw(st.one_of(st.none(), st.sampled_from(STEPS + [360., 120.])))
    return c


@clause("C30", "grid", strategy=grid_case(), quick=100, thorough=3000, shards=2,
        rule="part of the grid is visible and part hidden")
def grid(c, ctx):
    a = Axes(c["given"])
    o, p, r = plotter(c)
    kw = {k: v for k, v in STYLES[c["style"]].items()}
    args = {k: c[k] for k in ("dtheta", "dphi") if c[k] is not None}
    p.plot_grid(**args, **a.kw, **kw)
    dt = 15. if c["dtheta"] is None else c["dtheta"]
    dp = dt if c["dphi"] is None else c["dphi"]
    lines = [np.array(q.get_xydata(), dtype=float) for q in a.ax.lines]
    for q in a.ax.lines:
        style(ctx, q, dict({"color": "k", "linestyle": "--"}, **kw))
    want = [(dp*i, None) for i in range(int(round(360./dp)))] + [(None, dt*i) for i in range(int(round(180./dt)))]
    ctx.check(len(lines) == len(want), "%d lines for steps of %r and %r, expected %d", len(lines), dt, dp, len(want))
    free = list(range(len(lines)))
    seen = hidden = False
    for i, (ph, th) in enumerate(want):
        s = np.linspace(0., 1., 100)
        if th is None:
            v = project(c["setup"], np.full(100, np.deg2rad(ph)), PI*s)
        else:
            v = project(c["setup"], 2.*PI*s, np.full(100, np.deg2rad(th)))
        seen, hidden = seen or (v[:, 2] > 1e-6).any(), hidden or (v[:, 2] < -1e-6).any()
        order = sorted(free, key=lambda k: k != i)
        hit = [k for k in order if same_curve(lines[k], v, r) or same_curve(lines[k], v[::-1], r)][:1]
        ctx.check(hit, "no line follows %s of %r degrees", "the meridian" if th is None else "the parallel",
                  ph if th is None else th)
        free.remove(hit[0])
    a.close(ctx)
    ctx.label("given axis" if c["given"] else "current axis", "one step" if c["dphi"] is None else "two steps")
    ctx.mark(seen and hidden)


@st.composite
def polar_case(draw):
    c = draw(ortho_case())
    p0, t0 = draw(gen.phi(0., 1.9*PI)), draw(gen.num(0., 3.))
    c["box"] = [p0, min(2.*PI, p0 + draw(gen.pos(0.05, 2.*PI))), t0, min(PI, t0 + draw(gen.pos(0.05, PI)))]
    c["n"] = draw(st.one_of(st.none(), st.integers(2, 30), st.integers(2, 30), st.integers(2, 30), st.sampled_from([150, 300])))
    c["lonlat"] = draw(st.sampled_from([None, False, True, True]))
    return c


@clause("C30", "polar_box", strategy=polar_case(), quick=200, thorough=5000, shards=2,
        rule="part of the outline is visible and the outline has more than two points a side")
def polar_box(c, ctx):
    a = Axes(c["given"])
    o, p, r = plotter(c)
    kw = STYLES[c["style"]]
    b = list(c["box"])
    args = {}
    if c["lonlat"] is not None:
        args["lonlat"] = c["lonlat"]
    n = 100 if c["n"] is None else c["n"]
    if c["n"] is not None:
        args["divisions"] = n
    if c["lonlat"]:
        p.plot_polar_box(b[0], b[1], PI/2. - b[3], PI/2. - b[2], **args, **a.kw, **kw)
    else:
        p.plot_polar_box(*b, **args, **a.kw, **kw)
    got = only_line(ctx, a, kw)
    w = rectangle(*b, n)
    v = project(c["setup"], w[:, 0], w[:, 1])
    ctx.check(len(got) == len(v), "%d points, expected %d", len(got), len(v))
    roll = [same_curve(got, q, r) for q in (v, v[::-1])]
    if not any(roll):
        # any start on the outline will do (the end points of the sides appear twice)
        roll = [same_curve(got, np.roll(q, -k*n, axis=0), r) for q in (v, v[::-1]) for k in range(4)]
    ctx.check(any(roll), "the line is not the projection of the outline %r", b)
    a.close(ctx)
    ctx.label("given axis" if c["given"] else "current axis", "lonlat" if c["lonlat"] else "phi, theta",
              "partly hidden" if (v[:, 2] > 1e-6).any() and (v[:, 2] < -1e-6).any() else "all or nothing visible")
    ctx.mark((v[:, 2] > 1e-6).any() and n > 2)


@st.composite
def image_case(draw):
    c = draw(ortho_case())
    c["seed"], c["cb"] = draw(gen.seed()), draw(st.sampled_from([None, True, False]))
    c["cmap"], c["nan"] = draw(st.sampled_from([None, "plasma", "hot"])), draw(st.booleans())
    c["inside"], c["edge"] = draw(st.sampled_from([None, True, False])), draw(st.sampled_from([None, True, False]))
    c["at"] = draw(st.one_of(st.none(), st.tuples(gen.num(-1., 1.), gen.num(-1., 1.)).map(list)))
    c["length"] = draw(st.one_of(st.none(), st.integers(5, 40)))
    c["lw"] = draw(st.one_of(st.none(), st.sampled_from([1., 3.])))
    c["col"] = draw(st.one_of(st.none(), st.sampled_from(["r", "#00aa11"])))
    c["first"] = draw(st.booleans())
    c["vm"] = draw(st.sampled_from([None, [0.2, 0.8]]))
    return c


@clause("C30", "image", strategy=image_case(), quick=150, thorough=4000, shards=2,
        rule="the image has more than one row and more than one column")
def image(c, ctx):
    """The image, and the limits and the outer edge of the finished plot."""
    import matplotlib
    a = Axes(c["given"])
    o, p, r = plotter(c)
    k = c["setup"]["box"]
    lim = limits(c["setup"])
    rng = np.random.default_rng(c["seed"])
    m = rng.random((k["ny"] if k["ny"] is not None else k["nx"], k["nx"]))
    if c["nan"]:
        m[rng.random(m.shape) < 0.2] = np.nan
    keep = m.copy()

    def show():
        args = {}
        if c["cb"] is not None:
            args["returncb"] = c["cb"]
        if c["cmap"] is not None:
            args["cmap"] = matplotlib.colormaps[c["cmap"]]
        if c["vm"] is not None:
            args["vmin"], args["vmax"] = c["vm"]
        cb = p.imshow(m, **args, **a.kw)
        ctx.check(len(a.ax.images) == 1, "%d images were drawn", len(a.ax.images))
        im = a.ax.images[0]
        ctx.check(cb is im if c["cb"] else cb is None, "imshow returns %r", cb)
        ctx.untouched(m, keep, "the image data")
        ctx.close(np.ma.filled(np.ma.asarray(im.get_array(), dtype=float), np.nan), keep, "image", atol=0.)
        x0, x1, y0, y1 = im.get_extent()
        ctx.close([x0, x1], lim[:2], "horizontal extent", atol=1e-12*r)
        ctx.close([y0, y1] if im.origin == "lower" else [y1, y0], lim[2:], "vertical extent, from the first row",
                  atol=1e-12*r)
        ctx.check(im.get_cmap().name == (c["cmap"] or "viridis"), "colour map %r", im.get_cmap().name)
        if c["vm"] is not None:
            ctx.check(tuple(im.get_clim()) == tuple(c["vm"]), "colour limits %r", im.get_clim())

    def finish():
        args = {}
        for name, key in (("insphere", "inside"), ("outeredge", "edge"), ("edgecenter", "at"), ("edgelength", "length"),
                          ("edgelinewidth", "lw"), ("edgecolor", "col")):
            if c[key] is not None:
                args[name] = c[key]
        p.finalize(**args, **a.kw)
        if c["edge"] is False:
            ctx.check(len(a.ax.lines) == 0, "%d lines without an outer edge", len(a.ax.lines))
        else:
            got = only_line(ctx, a, {"color": c["col"] or "k", "linewidth": c["lw"] or 10.})
            n = c["length"] or 1000
            x, y = c["at"] or [0., 0.]
            t = 2.*PI*np.arange(n)/(n - 1.)
            same_points(ctx, got, np.stack([x + r*np.cos(t), y + r*np.sin(t)], axis=-1), 1e-12*(r + 2.), "outer edge")

    def view():
        xl = lim[:2] if c["inside"] is False else lim[1::-1]
        ctx.close(a.ax.get_xlim(), xl, "horizontal limits", atol=1e-12*r)
        ctx.close(a.ax.get_ylim(), lim[2:], "vertical limits", atol=1e-12*r)
        ctx.check(not a.ax.axison, "the axis is still on")
    if c["first"]:
        show()
        finish()
        view()
    else:
        finish()
        view()
        show()
    a.close(ctx)
    ctx.label("given axis" if c["given"] else "current axis", "from outside" if c["inside"] is False else "from inside",
              "no edge" if c["edge"] is False else "edge", "not square" if m.shape[0] != m.shape[1] else "square")
    ctx.mark(min(m.shape) > 1)


# ------------------------------------------------------------------- labels
@st.composite
def label_case(draw):
    c = draw(ortho_case())
    c["dtheta"] = draw(st.one_of(st.none(), st.sampled_from(STEPS)))
    c["dphi"] = draw(st.one_of(st.none(), st.sampled_from(STEPS + [360., 120.])))
    c["decimals"] = draw(st.sampled_from([None, 1, 2, 0, 1, 2]))
    c["lonlat"] = draw(st.sampled_from([None, False, True]))
    c["zero"] = draw(st.one_of(st.none(), st.tuples(gen.phi(0., 2.*PI), gen.num(0.05, 3.)).map(list)))
    c["shift"] = draw(st.one_of(st.none(), st.tuples(gen.num(-10., 10.), gen.num(-5., 5.)).map(list)))
    c["turn"] = draw(st.sampled_from([None, False, True]))
    c["ha"] = draw(st.sampled_from([None, "center", "right"]))
    c["va"] = draw(st.sampled_from([None, "bottom", "center"]))
    c["kw"] = draw(st.sampled_from([{}, {"fontsize": 7.}, {"color": "r"}]))
    return c


def number(ctx, text):
    t = re.sub(r"[\$\s{}]|\\circ|\^|°", "", text)
    try:
        return float(t)
    except ValueError:
        ctx.check(False, "the label %r names no number of degrees", text)


@clause("C30", "labels", strategy=label_case(), quick=250, thorough=6000, shards=2,
        rule="some labels are shown and some left out")
def labels(c, ctx):
    import matplotlib.colors as mc
    a = Axes(c["given"])
    o, p, r = plotter(c)
    args = {"onsphere": True}
    for name, key in (("dtheta", "dtheta"), ("dphi", "dphi"), ("decimals", "decimals"), ("lonlat", "lonlat"),
                      ("zeropoint", "zero"), ("shift", "shift"), ("userotation", "turn"), ("ha", "ha"), ("va", "va")):
        if c[key] is not None:
            args[name] = list(c[key]) if isinstance(c[key], list) else c[key]
    p.plot_labels(**args, **c["kw"], **a.kw)
    dt = 15. if c["dtheta"] is None else c["dtheta"]
    dp = dt if c["dphi"] is None else c["dphi"]
    zp, zt = c["zero"] or [0., PI/2.]
    sp, stt = np.deg2rad(c["shift"] or [0., 0.])
    dec = c["decimals"] or 0
    want = []                                      # name, phi, theta
    for i in range(int(round(360./dp))):
        want.append((dp*i, np.deg2rad(dp*i) - sp, zt))
    for i in range(1, int(round(180./dt))):
        want.append((90. - dt*i if c["lonlat"] else dt*i, zp, np.deg2rad(dt*i) - stt))
    lim = np.array(limits(c["setup"]))/r
    tol = 1e-6
    must, may = [], []
    for name, ph, th in want:
        x, y, z = project(c["setup"], ph, th)
        d = min(x - lim[0], lim[1] - x, y - lim[2], lim[3] - y)
        if z > tol and d > tol:
            must.append((name, x, y))
        elif z > -tol and d > -tol:
            may.append((name, x, y))
    texts = list(a.ax.texts)
    got = [(number(ctx, t.get_text()),) + tuple(np.array(t.get_position(), dtype=float)/r) for t in texts]
    half = 0.5*10.**-dec + 1e-9
    pole = project(c["setup"], 0., 0.)

    def fits(g, w):
        return abs(g[0] - w[0]) <= half and abs(g[1] - w[1]) < tol and abs(g[2] - w[2]) < tol
    left = list(range(len(got)))
    for w in must:
        hit = [i for i in left if fits(got[i], w)]
        ctx.check(hit, "no label for %r degrees at (%r, %r)", w[0], float(w[1]), float(w[2]))
        left.remove(hit[0])
        t = texts[hit[0]]
        if c["turn"]:
            dx, dy = w[1] - pole[0], w[2] - pole[1]
            if np.hypot(dx, dy) > 1e-3:            # also if the pole itself is hidden
                want_r = 270. - np.rad2deg(np.arctan2(dy, dx))
                d = (t.get_rotation() - want_r + 180.) % 360. - 180.
                ctx.check(abs(d) < 1e-3, "the label of %r is turned by %r, expected %r", w[0], t.get_rotation(), want_r)
        else:
            ctx.check(t.get_rotation() == 0., "the label of %r is turned by %r", w[0], t.get_rotation())
        ctx.check(t.get_ha() == (c["ha"] or "left") and t.get_va() == (c["va"] or "top"), "alignment %r, %r",
                  t.get_ha(), t.get_va())
        if "fontsize" in c["kw"]:
            ctx.check(t.get_fontsize() == c["kw"]["fontsize"], "font size %r", t.get_fontsize())
        if "color" in c["kw"]:
            ctx.check(mc.same_color(t.get_color(), c["kw"]["color"]), "colour %r", t.get_color())
    for i in left:
        ctx.check(any(fits(got[i], w) for w in may), "the label %r stands at (%r, %r) for no reason",
                  texts[i].get_text(), got[i][1], got[i][2])
    ctx.check(len(a.ax.lines) == 0, "labels drew %d lines", len(a.ax.lines))
    a.close(ctx)
    ctx.label("given axis" if c["given"] else "current axis", "shifted" if c["shift"] else "not shifted",
              "turned" if c["turn"] else "not turned", "latitude" if c["lonlat"] else "colatitude", "decimals %d" % dec)
    ctx.mark(0 < len(must) < len(want))


@st.composite
def edge_case(draw):
    c = draw(ortho_case())
    k = c["setup"]["box"]
    if draw(st.booleans()):                        # the whole box inside the disc
        c["setup"]["args"] = "all"
        k["xl"], k["yl"] = k["r"]*draw(gen.pos(0.25, 1.4)), k["r"]*draw(gen.pos(0.25, 1.4))
    c["dtheta"] = draw(st.one_of(st.none(), st.sampled_from(STEPS)))
    c["dphi"] = draw(st.one_of(st.none(), st.sampled_from(STEPS + [360., 120.])))
    c["n"] = draw(st.one_of(st.none(), st.integers(50, 300)))
    c["kw"] = draw(st.sampled_from([{}, {"fontsize": 7.}]))
    return c


@clause("C30", "edge_labels", strategy=edge_case(), quick=250, thorough=6000, shards=2,
        rule="a grid line meets one of the two labelled edges")
def edge_labels(c, ctx):
    """The labels on the edges: where the edge of the box meets a grid line, which they name."""
    a = Axes(c["given"])
    o, p, r = plotter(c)
    args = {}
    for name, key in (("dtheta", "dtheta"), ("dphi", "dphi"), ("interpaxis", "n")):
        if c[key] is not None:
            args[name] = c[key]
    p.plot_labels(**args, **c["kw"], **a.kw)
    dt = 15. if c["dtheta"] is None else c["dtheta"]
    dp = dt if c["dphi"] is None else c["dphi"]
    n = c["n"] or 100
    x0, x1, y0, y1 = np.array(limits(c["setup"]))/r
    m = c11.screen(c["setup"]["center"])

    def sky(x, y):
        q = x**2 + y**2
        v = geom.apply(m, np.stack([x, y, np.sqrt(np.maximum(1. - q, 0.))], axis=-1))
        lat = np.rad2deg(np.arctan2(v[..., 2], np.hypot(v[..., 0], v[..., 1])))
        lon = np.rad2deg(np.arctan2(v[..., 1], v[..., 0])) % 360.
        return lon, lat, q
    must_any = False
    ctx.check(len(a.ax.texts) == 0 and len(a.ax.lines) == 0, "labels on the edges drew on the image")
    for name, lo, hi, ticks, texts, values, at in (
            ("bottom", x0, x1, a.ax.get_xticks(), a.ax.get_xticklabels(), [dp*i for i in range(int(round(360./dp)))],
             lambda s: sky(s, np.full(np.shape(s), y0))),
            ("right", y0, y1, a.ax.get_yticks(), a.ax.get_yticklabels(),
             [90. - dt*i for i in range(1, int(round(180./dt)))], lambda s: sky(np.full(np.shape(s), x1), s))):
        lonlat = 0 if name == "bottom" else 1
        ticks = np.array(ticks, dtype=float)/r
        ctx.check(len(ticks) == len(texts), "%s edge: %d ticks, %d labels", name, len(ticks), len(texts))
        got = [(float(t), number(ctx, q.get_text())) for t, q in zip(ticks, texts)]
        for q in texts:
            if "fontsize" in c["kw"]:
                ctx.check(q.get_fontsize() == c["kw"]["fontsize"], "font size %r", q.get_fontsize())
        s = np.linspace(lo, hi, n)
        h = (hi - lo)/(n - 1.)
        lon, lat, q = at(s)
        on, limb = q < 1., np.abs(q - 1.) < 1e-6
        val = (lon, lat)[lonlat]

        def off(v, g):
            d = v - g
            return d if lonlat == 1 else (d + 180.) % 360. - 180.
        pole = np.abs(lat) > 89.9
        for g in values:
            d = off(val, g)
            for i in np.flatnonzero(d[1:]*d[:-1] < 0.):
                if not (on[i] and on[i + 1]) or limb[i] or limb[i + 1] or pole[i] or pole[i + 1]:
                    continue
                if max(abs(d[i]), abs(d[i + 1])) > 40. or min(abs(d[i]), abs(d[i + 1])) < 1e-6:
                    continue
                must_any = True
                ctx.check(any(s[i] - 1e-9 <= t <= s[i + 1] + 1e-9 and abs(off(w, g)) <= 0.5 + 1e-6 for t, w in got),
                          "%s edge: no label where %r degrees is reached, between %r and %r (%r)", name, g, float(s[i]),
                          float(s[i + 1]), got)
        for t, w in got:
            ctx.check(lo - 1e-9 <= t <= hi + 1e-9, "%s edge: a label at %r, outside the edge", name, t)
            near = np.clip(np.array([t - h, t, t + h]), lo, hi)
            l3, b3, q3 = at(near)
            if np.any(q3 > 1. - 1e-9) and not np.all(q3 > 1. + 1e-6):
                continue
            ctx.check(not np.all(q3 > 1.), "%s edge: a label at %r, off the sphere", name, t)
            if np.any(np.abs(b3) > 89.) or np.abs(off((l3, b3)[lonlat][1:], (l3, b3)[lonlat][:-1])).max() > 40.:
                continue                           # too close to a pole for so few points along the edge
            ok = False
            for g in values:
                if abs(off(w, g)) > 0.5 + 1e-6:
                    continue
                d = off((l3, b3)[lonlat], g)
                ok = ok or (d.min() < 1e-5 and d.max() > -1e-5 and np.abs(d).max() < 90.)
            ctx.check(ok, "%s edge: the label %r stands at %r, where the sphere is at %r", name, w, t,
                      float((l3, b3)[lonlat][1]))
    a.close(ctx)
    ctx.label("given axis" if c["given"] else "current axis", "lines on the edges" if must_any else "no line on the edges")
    ctx.mark(must_any)
