"""C28: invalid setups and arguments are rejected, valid ones are accepted.

A table of targets. Each gives a call with generated valid arguments, the ways in
which one argument can be made invalid by a generated amount, and the end points
of the documented ranges.
"""
import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.core import Violation, clause

PI = np.pi
TWO = 2.*PI
TARGETS = {}


def target(name):
    def deco(fn):
        TARGETS[name] = fn
        return fn
    return deco


class R:
    def __init__(self, seed):
        self.r = np.random.RandomState(seed)

    def u(self, lo=0., hi=1.):
        return round(float(self.r.uniform(lo, hi)), 5)

    def i(self, lo, hi):
        return int(self.r.randint(lo, hi + 1))

    def pick(self, *v):
        return v[self.r.randint(len(v))]

    def a(self, shape, lo=0.1, hi=1.):
        return self.r.uniform(lo, hi, shape)


class Spec:
    """call(**kw), valid arguments, ways to spoil them, end points."""

    def __init__(self, call, kw, bad, ends):
        self.call, self.kw, self.bad, self.ends = call, kw, bad, ends


def cls(kind, name):
    if kind == "dense":
        import magpie.densegrid as m
    else:
        import magpie.montecarlo as m
    return getattr(m, name)()


LATE = [False]


def finish(o, shape, kind, size=3):
    """Takes an object that was set up through to its results."""
    LATE[0] = True
    if kind == "mc":
        o.get_weights(mc_size=size, verbose=False)
    out = np.asarray(o.remap(np.ones(shape), verbose=False), dtype=float)
    if out.size == 0:
        raise Violation("the accepted setup gives an empty result")
    return out


# ------------------------------------------------------------ ranges, shared
def radial(r, log=False):
    r0 = r.u(0.01, 1.)
    kw = {"rmin": r0, "rmax": r0 + r.u(0.05, 1.), "numr": r.i(1 if not log else 2, 4)}
    bad = {"rmin negative": lambda k, e: dict(k, rmin=-e),
           "rmin = rmax": lambda k, e: dict(k, rmin=k["rmax"]),
           "rmin > rmax": lambda k, e: dict(k, rmin=k["rmax"] + e),
           "numr = 0": lambda k, e: dict(k, numr=0),
           "numr < 0": lambda k, e: dict(k, numr=-1)}
    ends = {} if log else {"rmin = 0": lambda k: dict(k, rmin=0.)}
    ends["numr = 1"] = lambda k: dict(k, numr=1)
    if log:
        bad["rmin = 0"] = lambda k, e: dict(k, rmin=0.)
        ends.pop("numr = 1")
    return kw, bad, ends


def angular(r, lo, hi, num):
    a = r.u(0., 5.)
    kw = {lo: a, hi: a + r.u(0.1, 1.2), num: r.i(1, 4)}
    bad = {"%s negative" % lo: lambda k, e: dict(k, **{lo: -e}),
           "%s = 2pi" % lo: lambda k, e: dict(k, **{lo: TWO, hi: TWO + e}),
           "%s = %s" % (lo, hi): lambda k, e: dict(k, **{lo: k[hi]}),
           "%s > %s" % (lo, hi): lambda k, e: dict(k, **{hi: max(k[lo] - e, 1e-12), lo: max(k[lo], 0.1)}),
           "%s > 2pi" % hi: lambda k, e: dict(k, **{hi: TWO + e}),
           "both negative": lambda k, e: dict(k, **{lo: -e - 1., hi: -e}),
           "%s = 0" % hi: lambda k, e: dict(k, **{hi: 0., lo: 0.}),
           "%s = 0" % num: lambda k, e: dict(k, **{num: 0}),
           "%s < 0" % num: lambda k, e: dict(k, **{num: -2})}
    ends = {"%s = 0" % lo: lambda k: dict(k, **{lo: 0.}),
            "%s = 2pi" % hi: lambda k: dict(k, **{hi: TWO}),
            "full circle": lambda k: dict(k, **{lo: 0., hi: TWO}),
            "%s = 1" % num: lambda k: dict(k, **{num: 1})}
    return kw, bad, ends


def center(r, n, sphere=False):
    if not sphere:
        kw = {"center": [r.u(-1., 1.) for _ in range(n)]}
    else:
        kw = {"center": [r.u(0., 6.), r.u(0.2, 2.9)]}
    bad = {"center too long": lambda k, e: dict(k, center=list(k["center"]) + [0.]),
           "center two too long": lambda k, e: dict(k, center=list(k["center"]) + [0., 0.]),
           "center much too long": lambda k, e: dict(k, center=list(k["center"])*3),
           "center too short": lambda k, e: dict(k, center=list(k["center"])[:-1]),
           "center empty": lambda k, e: dict(k, center=[])}
    ends = {}
    if sphere:
        bad["center phi negative"] = lambda k, e: dict(k, center=[-e, k["center"][1]])
        bad["center phi > 2pi"] = lambda k, e: dict(k, center=[TWO + e, k["center"][1]])
        bad["center theta negative"] = lambda k, e: dict(k, center=[k["center"][0], -e])
        bad["center theta > pi"] = lambda k, e: dict(k, center=[k["center"][0], PI + e])
        ends["center at phi = 0"] = lambda k: dict(k, center=[0., k["center"][1]])
        ends["center at phi = 2pi"] = lambda k: dict(k, center=[TWO, k["center"][1]])
        ends["center at the north pole"] = lambda k: dict(k, center=[k["center"][0], 0.])
        ends["center at the south pole"] = lambda k: dict(k, center=[k["center"][0], PI])
        ends["center at the corner"] = lambda k: dict(k, center=[TWO, PI])
    return kw, bad, ends


def factors(r, *names):
    kw = {n: r.i(1, 3) for n in names}
    bad, ends = {}, {}
    for n in names:
        bad["%s = 0" % n] = lambda k, e, n=n: dict(k, **{n: 0})
        bad["%s < 0" % n] = lambda k, e, n=n: dict(k, **{n: -1})
        ends["%s = 1" % n] = lambda k, n=n: dict(k, **{n: 1})
    return kw, bad, ends


def join(call, *parts):
    kw, bad, ends = {}, {}, {}
    for a, b, c in parts:
        kw.update(a)
        bad.update(b)
        ends.update(c)
    return Spec(call, kw, bad, ends)


# ------------------------------------------------------------------- setups
BOX = (-2., 2., 3, -2., 2., 2)
CUBE = (-2., 2., 3, -2., 2., 2, -2., 2., 2)


def ring_target(kind, method):
    log = method.endswith("log")

    @target("Box2Ring (%s) %s" % (kind, method))
    def _(r):
        zero = r.pick(True, False)

        def call(**kw):
            o = cls(kind, "Box2Ring")
            o.setup_box(*BOX)
            if log:
                kw["addzero"] = zero
            getattr(o, method)(**kw)
            return finish(o, (2, 3), kind)
        parts = [radial(r, log), angular(r, "pmin", "pmax", "nump"), center(r, 2)]
        if kind == "dense":
            parts.append(factors(r, "rebin_r", "rebin_p"))
        return join(call, *parts)


ring_target("dense", "setup_polar")
ring_target("mc", "setup_polar_lin")
ring_target("mc", "setup_polar_log")


def shell_target(kind, method):
    log = method.endswith("log")

    @target("Cube2Shell (%s) %s" % (kind, method))
    def _(r):
        zero = r.pick(True, False)

        def call(**kw):
            o = cls(kind, "Cube2Shell")
            o.setup_cube(*CUBE)
            if log:
                kw["addzero"] = zero
            getattr(o, method)(**kw)
            return finish(o, (2, 3, 2), kind)
        ns = ({"nside": 1}, {"nside = 0": lambda k, e: dict(k, nside=0),
                             "nside < 0": lambda k, e: dict(k, nside=-1)},
              {"nside = 2": lambda k: dict(k, nside=2)})
        parts = [radial(r, log), ns, center(r, 3)]
        if kind == "dense":
            f = factors(r, "rebin_shell", "rebin_r")
            f[0]["rebin_shell"] = r.pick(1, 2, 4)
            parts.append(f)
        return join(call, *parts)


shell_target("dense", "setup_polar")
shell_target("mc", "setup_polar_lin")
shell_target("mc", "setup_polar_log")


def grids(kind, name, method, axes, after):
    @target("%s (%s) %s" % (name, kind, method))
    def _(r):
        def call(**kw):
            o = cls(kind, name)
            getattr(o, method)(*[v for a in axes for v in (-2., 2., kw["num" + a])])
            after(o)
            return finish(o, tuple(kw["num" + a] for a in ("yxz" if "z" in axes else "yx")), kind)
        kw = {"num" + a: r.i(1, 4) for a in axes}
        bad, ends = {}, {}
        for a in axes:
            bad["num%s = 0" % a] = lambda k, e, a=a: dict(k, **{"num" + a: 0})
            bad["num%s < 0" % a] = lambda k, e, a=a: dict(k, **{"num" + a: -1})
            ends["num%s = 1" % a] = lambda k, a=a: dict(k, **{"num" + a: 1})
        return Spec(call, kw, bad, ends)


grids("dense", "Box2Ring", "setup_box", "xy", lambda o: o.setup_polar(0., 1., 2, 3))
grids("mc", "Box2Ring", "setup_box", "xy", lambda o: o.setup_polar_lin(0., 1., 2, 3))
grids("dense", "Cube2Shell", "setup_cube", "xyz", lambda o: o.setup_polar(0., 1., 2, 1))
grids("mc", "Cube2Shell", "setup_cube", "xyz", lambda o: o.setup_polar_lin(0., 1., 2, 1))


def cap_target(kind):
    @target("Heal2Ring (%s) setup_polar_cap" % kind)
    def _(r):
        def call(**kw):
            o = cls(kind, "Heal2Ring")
            o.setup_map(2)
            o.setup_polar_cap(**kw)
            return finish(o, 48, kind)
        a = r.u(0.1, 2.)
        al = ({"alpha_min": a, "alpha_max": a + r.u(0.05, 1.), "num_alpha": r.i(1, 3)},
              {"alpha_min negative": lambda k, e: dict(k, alpha_min=-e),
               "alpha_min = alpha_max": lambda k, e: dict(k, alpha_min=k["alpha_max"]),
               "alpha_min > alpha_max": lambda k, e: dict(k, alpha_min=k["alpha_max"] + e),
               "alpha_max > pi": lambda k, e: dict(k, alpha_max=PI + e),
               "num_alpha = 0": lambda k, e: dict(k, num_alpha=0),
               "num_alpha < 0": lambda k, e: dict(k, num_alpha=-1)},
              {"alpha_min = 0": lambda k: dict(k, alpha_min=0.),
               "alpha_max = pi": lambda k: dict(k, alpha_max=PI),
               "whole sphere": lambda k: dict(k, alpha_min=0., alpha_max=PI, num_alpha=1),
               "num_alpha = 1": lambda k: dict(k, num_alpha=1)})
        sh = ({"beta_shift": r.u(0.1, 6.)},
              {"beta_shift negative": lambda k, e: dict(k, beta_shift=-e),
               "beta_shift > 2pi": lambda k, e: dict(k, beta_shift=TWO + e)},
              {"beta_shift = 0": lambda k: dict(k, beta_shift=0.),
               "beta_shift = 2pi": lambda k: dict(k, beta_shift=TWO)})
        parts = [al, angular(r, "beta_min", "beta_max", "num_beta"), center(r, 2, True), sh]
        if kind == "dense":
            parts.append(factors(r, "rebin_alpha", "rebin_beta"))
        return join(call, *parts)


cap_target("dense")
cap_target("mc")


def lonlat_target(kind):
    @target("Heal2Polar (%s) setup_box" % kind)
    def _(r):
        def call(**kw):
            o = cls(kind, "Heal2Polar")
            o.setup_map(2)
            o.setup_box(**kw)
            return finish(o, 48, kind)
        ln = ({"x_length": r.u(0.1, 6.), "x_grid": r.i(1, 3), "y_length": r.u(0.1, 3.), "y_grid": r.i(1, 3)},
              {"x_length negative": lambda k, e: dict(k, x_length=-e),
               "x_length > 2pi": lambda k, e: dict(k, x_length=TWO + e),
               "y_length negative": lambda k, e: dict(k, y_length=-e),
               "y_length > pi": lambda k, e: dict(k, y_length=PI + e),
               "x_grid = 0": lambda k, e: dict(k, x_grid=0),
               "x_grid < 0": lambda k, e: dict(k, x_grid=-1),
               "y_grid = 0": lambda k, e: dict(k, y_grid=0),
               "y_grid < 0": lambda k, e: dict(k, y_grid=-1)},
              {"x_length = 2pi": lambda k: dict(k, x_length=TWO),
               "y_length = pi": lambda k: dict(k, y_length=PI),
               "whole sphere": lambda k: dict(k, x_length=TWO, y_length=PI),
               "default y": lambda k: dict(k, y_length=None, y_grid=None),
               "default y of the whole sphere": lambda k: dict(k, x_length=TWO, y_length=None, y_grid=None),
               "one pixel": lambda k: dict(k, x_grid=1, y_grid=1)})
        sh = ({"alpha": r.u(0.1, 6.)},
              {"alpha negative": lambda k, e: dict(k, alpha=-e),
               "alpha > 2pi": lambda k, e: dict(k, alpha=TWO + e)},
              {"alpha = 0": lambda k: dict(k, alpha=0.), "alpha = 2pi": lambda k: dict(k, alpha=TWO)})
        parts = [ln, center(r, 2, True), sh]
        if kind == "dense":
            parts.append(factors(r, "rebin_x", "rebin_y"))
        return join(call, *parts)


lonlat_target("dense")
lonlat_target("mc")


@target("Heal2Ortho setup_box")
def _(r):
    def call(**kw):
        o = cls("dense", "Heal2Ortho")
        o.setup_map(2)
        o.setup_box(**kw)
        return finish(o, 48, "dense")
    ln = ({"x_length": r.u(0.1, 3.), "x_grid": r.i(1, 3), "y_length": r.u(0.1, 3.), "y_grid": r.i(1, 3)},
          {"x_length negative": lambda k, e: dict(k, x_length=-e),
           "y_length negative": lambda k, e: dict(k, y_length=-e),
           "x_grid = 0": lambda k, e: dict(k, x_grid=0),
           "x_grid < 0": lambda k, e: dict(k, x_grid=-1),
           "y_grid = 0": lambda k, e: dict(k, y_grid=0),
           "y_grid < 0": lambda k, e: dict(k, y_grid=-1)},
          {"default y": lambda k: dict(k, y_length=None, y_grid=None),
           "beyond the sphere": lambda k: dict(k, x_length=5., y_length=2.),
           "one pixel": lambda k: dict(k, x_grid=1, y_grid=1)})
    return join(call, ln, center(r, 2, True), factors(r, "rebin_x", "rebin_y"))


def map_target(kind, name):
    @target("%s (%s) setup_map" % (name, kind))
    def _(r):
        def call(nside):
            o = cls(kind, name)
            o.setup_map(nside)
            if name == "Heal2Ring":
                o.setup_polar_cap(0., 1., 2, 3)
            else:
                o.setup_box(1., 2)
            return finish(o, 12*nside**2, kind)
        return Spec(call, {"nside": r.pick(1, 2, 4, 8)},
                    {"nside = 0": lambda k, e: {"nside": 0}, "nside < 0": lambda k, e: {"nside": -2},
                     "nside fractional": lambda k, e: {"nside": k["nside"] + 0.5}},
                    {"nside = 1": lambda k: {"nside": 1}})


for _k, _n in (("dense", "Heal2Ring"), ("mc", "Heal2Ring"), ("dense", "Heal2Polar"), ("mc", "Heal2Polar"),
               ("dense", "Heal2Ortho")):
    map_target(_k, _n)


# ------------------------------------------------------- objects in use
def ready(kind, name, r):
    """An object that is set up, the shape of its input and of its result."""
    o = cls(kind, name)
    if name == "Box2Ring":
        o.setup_box(*BOX)
        na, nr = r.i(1, 4), r.i(1, 4)
        (o.setup_polar if kind == "dense" else o.setup_polar_lin)(0.1, r.pick(1., 3.), nr, na)
        return o, (2, 3), (na, nr)
    if name == "Cube2Shell":
        o.setup_cube(*CUBE)
        (o.setup_polar if kind == "dense" else o.setup_polar_lin)(0., 1., 2, 1)
        return o, (2, 3, 2), None
    o.setup_map(2)
    if name == "Heal2Ring":
        na, nr = r.i(1, 4), r.i(1, 4)
        o.setup_polar_cap(0., 1., nr, na)
        return o, (48,), (na, nr)
    o.setup_box(1., r.i(1, 3))
    return o, (48,), None


def others(shape):
    """Shapes that do not match, and could pass unnoticed."""
    out = {}
    for k in range(len(shape)):
        s = list(shape)
        s[k] += 1
        out["longer on axis %d" % k] = tuple(s)
        if shape[k] > 1:
            s = list(shape)
            s[k] -= 1
            out["shorter on axis %d" % k] = tuple(s)
        if len(shape) > 1:
            s = list(shape)
            s[k] = 1
            if tuple(s) != tuple(shape):
                out["single on axis %d" % k] = tuple(s)
    if len(shape) > 1:
        if shape[::-1] != tuple(shape):
            out["transposed"] = shape[::-1]
        out["flattened"] = (int(np.prod(shape)),)
        out["lower dimensional"] = shape[1:]
    else:
        out["of a higher nside"] = (shape[0]*4,)
        out["of a lower nside"] = (shape[0]//4,)
    return {k: v for k, v in out.items() if v != tuple(shape)}


def remap_target(kind, name):
    @target("%s (%s) remap" % (name, kind))
    def _(r):
        o, shape, _ = ready(kind, name, r)
        if kind == "mc":
            o.get_weights(mc_size=4, verbose=False)

        def call(**kw):
            return o.remap(verbose=False, **kw)
        weighted = not (name == "Cube2Shell" and kind == "dense") and r.pick(True, False)
        kw = {"f": r.a(shape)}
        bad = {}
        for k, s in others(shape).items():
            bad["f " + k] = lambda v, e, s=s: dict(v, f=np.ones(s))
        if weighted:
            kw["w"] = r.a(shape)
            for k, s in others(shape).items():
                bad["w " + k] = lambda v, e, s=s: dict(v, w=np.ones(s))
                bad["f and w " + k] = lambda v, e, s=s: dict(v, f=np.ones(s), w=np.ones(s))
        return Spec(call, kw, bad, {})

    if kind == "mc":
        @target("%s (mc) get_weights" % name)
        def _(r):
            o, shape, _ = ready(kind, name, r)

            def call(mc_size):
                o.get_weights(mc_size=mc_size, verbose=False)
                return o.remap(np.ones(shape), verbose=False)
            return Spec(call, {"mc_size": r.i(2, 20)},
                        {"mc_size = %d" % n: lambda k, e, n=n: {"mc_size": n} for n in (1, 0, -1, -10)},
                        {"mc_size = 2": lambda k: {"mc_size": 2}})


for _n in ("Box2Ring", "Cube2Shell", "Heal2Ring", "Heal2Polar"):
    remap_target("dense", _n)
    remap_target("mc", _n)
remap_target("dense", "Heal2Ortho")


def polar_target(kind, name):
    @target("%s (%s) polar2radial" % (name, kind))
    def _(r):
        o, _, s = ready(kind, name, r)
        if kind == "mc":
            o.get_weights(mc_size=20, verbose=False)
        kw = {"f_polar": r.a(s)}
        for n in ("sigma", "w"):
            if r.pick(True, False):
                kw[n] = r.a(s)
        bad = {}
        for n in kw:
            for k, t in others(s).items():
                bad["%s %s" % (n, k)] = lambda v, e, n=n, t=t: dict(v, **{n: np.ones(t)})
        return Spec(lambda **k: o.polar2radial(**k), kw, bad, {})

    @target("%s (%s) rotate_polar" % (name, kind))
    def _(r):
        o, _, s = ready(kind, name, r)
        bad = {"shift = 0": lambda v, e: dict(v, shift=0.), "shift < 0": lambda v, e: dict(v, shift=-e),
               "shift = 2pi": lambda v, e: dict(v, shift=TWO), "shift > 2pi": lambda v, e: dict(v, shift=TWO + e)}
        for k, t in others(s).items():
            bad["f_polar " + k] = lambda v, e, t=t: dict(v, f=np.ones(t))
        return Spec(lambda f, shift: o.rotate_polar(f, shift), {"f": r.a(s), "shift": r.u(0.1, 6.)}, bad,
                    {"just above 0": lambda v: dict(v, shift=1e-9),
                     "just below 2pi": lambda v: dict(v, shift=TWO - 1e-9)})


for _n in ("Box2Ring", "Heal2Ring"):
    for _k in ("dense", "mc"):
        polar_target(_k, _n)


# ----------------------------------------------------------------- functions
def outside(name, lo, hi):
    """A closed range of one argument."""
    bad = {}
    if lo is not None:
        bad["%s too small" % name] = lambda k, e: dict(k, **{name: lo - e})
    if hi is not None:
        bad["%s too large" % name] = lambda k, e: dict(k, **{name: hi + e})
    ends = {"%s = %.3g" % (name, lo): lambda k: dict(k, **{name: lo}),
            "%s = %.3g" % (name, hi): lambda k: dict(k, **{name: hi})}
    return bad, ends


def coords():
    from magpie import coords as c
    return c


@target("rotate_polar")
def _(r):
    return Spec(lambda phi, rotate: coords().rotate_polar(phi, rotate),
                {"phi": r.pick(r.a(4, 0., 6.), r.u(0., 6.)), "rotate": r.u(0.1, 6.)},
                {"rotate = 0": lambda k, e: dict(k, rotate=0.), "rotate < 0": lambda k, e: dict(k, rotate=-e),
                 "rotate = 2pi": lambda k, e: dict(k, rotate=TWO),
                 "rotate > 2pi": lambda k, e: dict(k, rotate=TWO + e)},
                {"just above 0": lambda k: dict(k, rotate=1e-9),
                 "just below 2pi": lambda k: dict(k, rotate=TWO - 1e-9)})


@target("rotate_polar_grid")
def _(r):
    n = r.i(1, 5)
    return Spec(lambda e, f, shift: coords().rotate_polar_grid(e, f, shift),
                {"e": np.linspace(0., TWO, n + 1), "f": r.a((n, 2)), "shift": r.u(0.1, 6.)},
                {"shift = 0": lambda k, e: dict(k, shift=0.), "shift < 0": lambda k, e: dict(k, shift=-e),
                 "shift = 2pi": lambda k, e: dict(k, shift=TWO), "shift > 2pi": lambda k, e: dict(k, shift=TWO + e)},
                {"just above 0": lambda k: dict(k, shift=1e-9),
                 "just below 2pi": lambda k: dict(k, shift=TWO - 1e-9)})


def points(r):
    if r.pick(True, False):
        return r.u(0., 6.), r.u(0.1, 3.)
    return r.a(3, 0., 6.), r.a(3, 0.1, 3.)


def angles(r, *names):
    bad, ends, kw = {}, {}, {}
    for n in names:
        hi = PI if n.startswith("theta") else TWO
        kw[n] = r.u(0.1, hi - 0.1)
        b, e = outside(n, 0., hi)
        bad.update(b)
        ends.update(e)
    return kw, bad, ends


@target("usphere_rotate")
def _(r):
    p, t = points(r)
    kw, bad, ends = angles(r, "phi_end", "theta_end", "phi_start", "theta_start")
    bad["same points"] = lambda k, e: dict(k, phi_end=k["phi_start"], theta_end=k["theta_start"])
    ends["same longitude"] = lambda k: dict(k, phi_end=k["phi_start"])
    ends["same colatitude"] = lambda k: dict(k, theta_end=k["theta_start"])
    return Spec(lambda **k: coords().usphere_rotate(p, t, **k), kw, bad, ends)


@target("usphere_shift")
def _(r):
    p, t = points(r)
    kw, bad, ends = angles(r, "phi_start", "theta_start", "phi_end", "theta_end")
    ends["same points"] = lambda k: dict(k, phi_end=k["phi_start"], theta_end=k["theta_start"])
    ends["same longitude"] = lambda k: dict(k, phi_end=k["phi_start"])
    return Spec(lambda **k: coords().usphere_shift(p, t, **k), kw, bad, ends)


@target("usphere_spin")
def _(r):
    p, t = points(r)
    kw, bad, ends = angles(r, "phi_center", "theta_center", "alpha")
    return Spec(lambda **k: coords().usphere_spin(p, t, **k), kw, bad, ends)


@target("usphere_phi_shift")
def _(r):
    p, _ = points(r)
    bad, ends = outside("dphi", -TWO, TWO)
    ends["dphi = 0"] = lambda k: dict(k, dphi=0.)
    return Spec(lambda dphi: coords().usphere_phi_shift(p, dphi), {"dphi": r.u(-6., 6.)}, bad, ends)


@target("usphere_area")
def _(r):
    a, b = r.u(0.1, 3.), r.u(0.1, 1.5)
    return Spec(lambda **k: coords().usphere_area(**k),
                {"phi_min": a, "phi_max": a + r.u(0.1, 3.), "theta_min": b, "theta_max": b + r.u(0.1, 1.5)},
                {"phi_min negative": lambda k, e: dict(k, phi_min=-e),
                 "phi_min = 2pi": lambda k, e: dict(k, phi_min=TWO),
                 "phi_min > 2pi": lambda k, e: dict(k, phi_min=TWO + e),
                 "phi_max = 0": lambda k, e: dict(k, phi_max=0.),
                 "phi_max negative": lambda k, e: dict(k, phi_max=-e),
                 "phi_max > 2pi": lambda k, e: dict(k, phi_max=TWO + e),
                 "phi_max = phi_min": lambda k, e: dict(k, phi_max=k["phi_min"]),
                 "theta_min negative": lambda k, e: dict(k, theta_min=-e),
                 "theta_min = pi": lambda k, e: dict(k, theta_min=PI),
                 "theta_min > pi": lambda k, e: dict(k, theta_min=PI + e),
                 "theta_max = 0": lambda k, e: dict(k, theta_max=0.),
                 "theta_max negative": lambda k, e: dict(k, theta_max=-e),
                 "theta_max > pi": lambda k, e: dict(k, theta_max=PI + e),
                 "theta_max = theta_min": lambda k, e: dict(k, theta_max=k["theta_min"])},
                {"phi_min = 0": lambda k: dict(k, phi_min=0.), "phi_max = 2pi": lambda k: dict(k, phi_max=TWO),
                 "theta_min = 0": lambda k: dict(k, theta_min=0.), "theta_max = pi": lambda k: dict(k, theta_max=PI),
                 "whole sphere": lambda k: dict(phi_min=0., phi_max=TWO, theta_min=0., theta_max=PI)})


@target("rebin_1d")
def _(r):
    n = r.pick(r.i(2, 7), r.i(2, 7), r.i(60, 250))
    e = np.cumsum(r.a(n + 1))
    m = r.pick(r.i(2, 5), r.i(2, 5), r.i(60, 250))
    new = e[0] + np.cumsum(r.a(m + 1)) - 0.3
    kw = {"bin_edges": e, "data": r.a(n), "new_bin_edges": new}
    for k in ("w", "sigma"):
        if r.pick(True, False):
            kw[k] = r.a(n)
    bad = {}
    for k in ("data", "w", "sigma"):
        if k in kw:
            bad["%s too long" % k] = lambda v, e, k=k: dict(v, **{k: np.append(v[k], 1.)})
            bad["%s too short" % k] = lambda v, e, k=k: dict(v, **{k: v[k][:-1]})
            bad["%s like the edges" % k] = lambda v, e, k=k: dict(v, **{k: np.ones(len(v["bin_edges"]))})
    bad["too few edges"] = lambda v, e: dict(v, bin_edges=v["bin_edges"][:-1])

    def swap(a, e):
        a = np.array(a)
        k = r.pick(int(e*7919), r.i(0, 1000), r.i(-3, 3)) % (len(a) - 1)
        a[[k, k + 1]] = a[[k + 1, k]]
        return a
    for k in ("bin_edges", "new_bin_edges"):
        bad["%s with two edges exchanged" % k] = lambda v, e, k=k: dict(v, **{k: swap(v[k], e)})
        bad["%s reversed" % k] = lambda v, e, k=k: dict(v, **{k: v[k][::-1]})
        bad["%s falling at the end" % k] = lambda v, e, k=k: dict(
            v, **{k: np.append(v[k][:-1], v[k][-2] - min(e, 1.))})
        bad["%s falling at the start" % k] = lambda v, e, k=k: dict(
            v, **{k: np.append(v[k][1] + min(e, 1.), v[k][1:])})
    from magpie.one_d import rebin_1d
    return Spec(lambda **k: rebin_1d(**k), kw, bad,
                {"single new bin": lambda v: dict(v, new_bin_edges=v["new_bin_edges"][:2]),
                 "same bins": lambda v: dict(v, new_bin_edges=v["bin_edges"].copy()),
                 "integers": lambda v: dict(v, new_bin_edges=np.arange(4))})


def randoms():
    from magpie import randoms as m
    return m


@target("randoms_cdf")
def _(r):
    n = r.i(5, 12)
    c = np.linspace(0., 1., n)**r.pick(1., 1.5)
    kind = r.pick("linear", "cubic")

    def with_(a, k, v):
        a = np.array(a)
        a[k] = v
        return a
    return Spec(lambda x, cdf: randoms().randoms_cdf(x, cdf, 5, kind=kind), {"x": np.linspace(0., 2., n), "cdf": c},
                {"cdf starting above 0": lambda k, e: dict(k, cdf=with_(k["cdf"], 0, min(e, k["cdf"][1]/2.))),
                 "cdf starting below 0": lambda k, e: dict(k, cdf=with_(k["cdf"], 0, -e)),
                 "cdf ending below 1": lambda k, e: dict(k, cdf=with_(k["cdf"], -1, max(1. - e, (1. + k["cdf"][-2])/2.))),
                 "cdf ending above 1": lambda k, e: dict(k, cdf=with_(k["cdf"], -1, 1. + e))}, {})


@target("random_draw")
def _(r):
    n = r.i(2, 9)
    return Spec(lambda sample, size: randoms().random_draw(sample, size), {"sample": r.a(n), "size": r.i(1, n - 1)},
                {"size = len": lambda k, e: dict(k, size=len(k["sample"])),
                 "size > len": lambda k, e: dict(k, size=len(k["sample"]) + 1 + int(e))},
                {"size = len - 1": lambda k: dict(k, size=len(k["sample"]) - 1),
                 "size = 1": lambda k: dict(k, size=1)})


@target("random_prob_draw")
def _(r):
    n = r.i(2, 9)

    def spoil(p, e, v):
        p = np.array(p)
        p[int(e*7919) % len(p)] = v
        return p
    return Spec(lambda sample, prob, size: randoms().random_prob_draw(sample, prob, size=size),
                {"sample": r.a(n), "prob": r.a(n), "size": r.i(1, n - 1)},
                {"size = len": lambda k, e: dict(k, size=len(k["sample"])),
                 "size > len": lambda k, e: dict(k, size=len(k["sample"]) + 1 + int(e)),
                 "probability 0": lambda k, e: dict(k, prob=spoil(k["prob"], e, 0.)),
                 "probability negative": lambda k, e: dict(k, prob=spoil(k["prob"], e, -e))},
                {"size = len - 1": lambda k: dict(k, size=len(k["sample"]) - 1),
                 "without size": lambda k: dict(k, size=None),
                 "zeros without size": lambda k: dict(k, size=None, prob=np.zeros(len(k["prob"]))),
                 "probability 1": lambda k: dict(k, prob=np.ones(len(k["prob"])))})


def steps_target(name, args, unit):
    @target(name)
    def _(r):
        from magpie import pixel
        bad = {"steps = 0": lambda k, e: {"steps": 0}, "steps < 0": lambda k, e: {"steps": -unit}}
        for d in range(1, unit):
            bad["steps = %d mod %d" % (d, unit)] = lambda k, e, d=d: {"steps": k["steps"] + d}
        return Spec(lambda steps: getattr(pixel, name)(*args, steps=steps), {"steps": unit*r.i(1, 9)}, bad,
                    {"steps = %d" % unit: lambda k: {"steps": unit}})


steps_target("get_square", (0., 1., 0., 2.), 4)
steps_target("get_disc", (0.2, 1.), 4)
steps_target("get_box", (0., 1., 0., 2., 0., 1.), 12)


# ------------------------------------------------------------------ the check
EPS = (1e-9, 1e-4, 0.01, 0.5, 1., 3.3, 10.)


@st.composite
def case(draw, names):
    return {"t": draw(st.sampled_from(names)), "seed": draw(gen.seed()), "rng": draw(gen.seed()),
            "bad": draw(st.integers(0, 10**6)), "end": draw(st.one_of(st.none(), st.integers(0, 10**6))),
            "eps": draw(st.sampled_from(EPS))}


def accepted(call, kw, what):
    try:
        return call(**kw)
    except Violation:
        raise
    except Exception as e:
        raise Violation("%s was rejected: %s: %s" % (what, type(e).__name__, e))


# the Monte Carlo sphere grids use their centre and spin when the weights are calculated
DEFERRED = ("center phi", "center theta", "beta_shift", "alpha negative", "alpha > 2pi")


def rejected(call, kw, what, late=False):
    LATE[0] = False
    try:
        call(**kw)
    except Violation:
        pass            # an empty result instead of an error
    except Exception:
        if late or not LATE[0]:
            return
        raise Violation("%s was accepted by the setup, and only fails later" % what)
    raise Violation("%s was accepted" % what)


def show(kw):
    return ", ".join("%s=%s" % (k, "array%s" % (v.shape,) if isinstance(v, np.ndarray) and v.ndim > 1
                                else np.array2string(v, precision=4) if isinstance(v, np.ndarray) else v)
                     for k, v in kw.items())


def run(c, ctx):
    s = TARGETS[c["t"]](R(c["seed"]))
    kw = s.kw
    accepted(s.call, dict(kw), "%s: valid arguments (%s)" % (c["t"], show(kw)))
    if c["end"] is not None and s.ends:
        name = sorted(s.ends)[c["end"] % len(s.ends)]
        end = s.ends[name](dict(kw))
        accepted(s.call, dict(end), "%s: the end point '%s' (%s)" % (c["t"], name, show(end)))
        ctx.label("end point")
    name = sorted(s.bad)[c["bad"] % len(s.bad)]
    bad = s.bad[name](dict(kw), c["eps"])
    rejected(s.call, dict(bad), "%s: '%s' (%s)" % (c["t"], name, show(bad)),
             late=c["t"].startswith("Heal2") and "(mc)" in c["t"] and name.startswith(DEFERRED))
    ctx.label("%s" % c["t"])
    ctx.mark()


RULE = "an invalid call, next to the valid one that differs from it in one argument"
FN = [n for n in TARGETS if "(" not in n and "Heal" not in n]
OBJ = [n for n in TARGETS if n not in FN]


@clause("C28", "functions", strategy=case(FN), quick=4000, thorough=60000, shards=2, rule=RULE)
def functions(c, ctx):
    run(c, ctx)


@clause("C28", "objects", strategy=case(OBJ), quick=2500, thorough=40000, shards=5, rule=RULE)
def objects(c, ctx):
    run(c, ctx)


def every(tier):
    """Each rule of the table, with each amount."""
    import itertools
    for t in sorted(TARGETS):
        s = TARGETS[t](R(1))
        for k, j in itertools.product(range(len(s.bad)), range(len(EPS) if tier == "thorough" else 2)):
            yield {"t": t, "seed": 1, "rng": 1, "bad": k, "end": k, "eps": EPS[(j*3 + k) % len(EPS)]}


@clause("C28", "table", enum=every, shards=1, rule=RULE)
def table(c, ctx):
    run(c, ctx)
