"""C27: rotating polar data rotates the data."""
import numpy as np
from hypothesis import strategies as st

from props import c04, c05, c09, c12
from vlib import gen
from vlib.core import clause

PI = np.pi
TWO = 2.*PI


@st.composite
def shift(draw, dp, n):
    """An angle strictly between 0 and 2 pi, and the number of pixels if whole."""
    whole = [k for k in range(1, max(int(np.ceil(TWO/dp)) + 1, 2)) if k*dp < TWO*(1. - 1e-12)]
    if whole and draw(st.sampled_from([True, True, False])):
        k = draw(st.sampled_from(whole))
        return {"pixels": k, "angle": k*dp, "exact": draw(st.booleans())}
    v = draw(st.one_of(gen.smooth(1e-3, TWO - 1e-3), gen.phi(0.1, 6.2),
                       gen.smooth(1e-4, min(dp, 6.28)), st.sampled_from([1e-6, TWO - 1e-6])))
    return {"pixels": None, "angle": v, "exact": False}


def angle_of(s, lo, hi, n):
    """The rotation angle, computed in one of two ways that round differently."""
    if s["pixels"] is None:
        return s["angle"]
    if s["exact"]:
        v = s["pixels"]*(hi - lo)/n
        return v if v < TWO else s["angle"]
    return s["angle"]


def reference(f, span, q):
    """Hat-function interpolation between angular pixels, q pixels further on."""
    f = gen.f64(f)
    n = len(f)
    full = abs(span - TWO) < 1e-9
    j = np.arange(-2*n - 1, 3*n + 2) if full else np.arange(n)
    h = np.clip(1. - np.abs(np.arange(n)[:, None] + q - j[None, :]), 0., None)
    return h @ f[j % n]


def verify(ctx, rotate, f, lo, hi, s, rel):
    n = len(f)
    span = hi - lo
    dp = span/n
    full = abs(span - TWO) < 1e-9
    a = angle_of(s, lo, hi, n)
    copy = np.array(f, order="K")
    got = rotate(f, a)
    amp = gen.amp(f)
    tol = rel*amp + 1e-300
    ctx.check(np.array_equal(f, copy), "the data were changed by rotating them")
    ctx.close(got, reference(f, span, a/dp), "rotated data", atol=tol, rtol=0.)
    f64 = gen.f64(f)
    if full:
        ctx.close(np.sum(gen.f64(got), axis=0), f64.sum(axis=0), "sum over the full circle",
                  atol=tol*n, rtol=0.)
        ctx.inside(gen.f64(got), f64.min(axis=0), f64.max(axis=0), "rotated data", tol=tol)
    if s["pixels"] is not None:
        k = s["pixels"]
        if full:
            want = f64[(np.arange(n) + k) % n]
        else:
            want = np.zeros(f64.shape)
            if k < n:
                want[:n - k] = f64[k:]
        ctx.close(got, want, "data rotated by %d of %d pixels" % (k, n), atol=tol, rtol=0.)
        if full and 0 < k < n:
            back = rotate(got, (n - k)*dp)
            ctx.close(back, f64, "data rotated by %d and %d pixels" % (k, n - k), atol=4.*tol, rtol=0.)
            ctx.label("undone")
        ctx.label("whole pixels")
    else:
        ctx.label("fraction of a pixel", "less than a pixel" if a < dp else "more than a pixel")
    ctx.label("full circle" if full else "partial circle", "one angle" if n == 1 else "angles",
              "beyond the grid" if not full and a >= span else "within the grid")
    ctx.mark(n > 1 and float(np.max(np.ptp(f64, axis=0))) > 0.)


@st.composite
def case(draw, nmax=9):
    n = draw(st.integers(1, nmax))
    if draw(st.sampled_from([True, True, False])):
        lo = draw(st.sampled_from([0., 0., 0., -PI, 0.7]))
        hi = lo + TWO
    else:
        lo = draw(gen.phi(0., 1.9*PI))
        hi = lo + min(draw(gen.pos(0.125, 6.)), 6.)
    return {"n": n, "nr": draw(st.integers(1, 5)), "lo": lo, "hi": hi, "f": draw(gen.field()),
            "shift": draw(shift((hi - lo)/n, n)), "how": draw(st.sampled_from(["linspace", "steps", "strided"]))}


RULE = "at least two angular pixels, with data that vary over angle"


def grid(c, ctx):
    from magpie import coords
    n, lo, hi = c["n"], c["lo"], c["hi"]
    e = np.linspace(lo, hi, n + 1) if c["how"] != "steps" else lo + (hi - lo)/n*np.arange(n + 1)
    if c["how"] == "strided":
        e = gen.layout(e, "S")
    f = gen.make(c["f"], (n, c["nr"]))
    e0 = np.array(e)
    verify(ctx, lambda g, a: coords.rotate_polar_grid(e, g, a), f, lo, hi, c["shift"], gen.tol(c["f"], 1e-12*max(n, 10)))
    ctx.check(np.array_equal(e, e0), "the edges were changed")


@clause("C27", "grid", strategy=case(), quick=3500, thorough=150000, shards=3, rule=RULE)
def small(c, ctx):
    grid(c, ctx)


@clause("C27", "large", strategy=case(200), quick=400, thorough=10000, shards=1, rule=RULE)
def large(c, ctx):
    grid(c, ctx)


KINDS = {"Box2Ring (dense)": (lambda: c05.case(4, 8, 5, 2), c05.setup),
         "Box2Ring (mc)": (lambda: c04.case(4, 6, 4, (20,)), c04.setup),
         "Heal2Ring (dense)": (lambda: c09.case(5, 7, 2, 2), c09.setup),
         "Heal2Ring (mc)": (lambda: c12.ring(2, (20,)), c12.setup_ring)}


@st.composite
def object_case(draw):
    kind = draw(st.sampled_from(sorted(KINDS)))
    c = draw(KINDS[kind][0]())
    a = c["ang"] if "ang" in c else c["cap"]
    lo, hi, n = (a["p0"], a["p1"], a["np"]) if "ang" in c else (a["b0"], a["b1"], a["nb"])
    if abs(hi - lo - TWO) < 1e-2:
        hi = TWO
        lo = 0.
        if "ang" in c:
            a["p0"], a["p1"] = lo, hi
        else:
            a["b0"], a["b1"] = lo, hi
    return {"kind": kind, "conf": c, "f": draw(gen.field()), "lo": lo, "hi": hi, "n": n,
            "shift": draw(shift((hi - lo)/n, n))}


@clause("C27", "objects", strategy=object_case(), quick=1800, thorough=60000, shards=3, rule=RULE)
def objects(c, ctx):
    conf = c["conf"]
    o = KINDS[c["kind"]][1](conf)
    nr = conf["rad"]["nr"] if "rad" in conf else conf["cap"]["na"]
    if c["kind"] == "Box2Ring (mc)":
        nr = len(c04.redges(conf)) - 1
    f = gen.make(c["f"], (c["n"], nr))
    verify(ctx, o.rotate_polar, f, c["lo"], c["hi"], c["shift"], gen.tol(c["f"], 1e-11))
    ctx.label(c["kind"])
