"""C01: Cartesian-to-Cartesian remapping is exact and conservative."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.core import clause


def overlap_matrix(o1, L1, n1, o2, L2, n2):
    """Fraction of output pixel j (row) covered by input pixel i."""
    d1, d2 = L1/float(n1), L2/float(n2)
    lo1 = o1 + d1*np.arange(n1)
    hi1 = o1 + d1*(np.arange(n1) + 1.)
    lo2 = o2 + d2*np.arange(n2)
    hi2 = o2 + d2*(np.arange(n2) + 1.)
    ov = np.minimum(hi2[:, None], hi1[None, :]) - np.maximum(lo2[:, None], lo1[None, :])
    return np.clip(ov, 0., None)/d2


@st.composite
def axis(draw, nmax, mmax):
    """One axis: input grid and output grid, with every kind of alignment."""
    n1 = draw(st.integers(1, nmax))
    n2 = draw(st.integers(1, mmax))
    L1 = draw(gen.pos(0.25, 50.))
    o1 = draw(st.one_of(st.just(0.), gen.num(-30., 30.)))
    kind = draw(st.sampled_from(["same", "free", "cells", "nested", "disjoint", "touch",
                                 "contains", "pixel", "shift"]))
    d1 = L1/n1
    if kind == "same":
        o2, L2 = o1, L1
    elif kind == "cells":        # edges aligned with the input grid's
        a = draw(st.integers(-n1, n1))
        b = draw(st.integers(1, 2*n1))
        o2, L2 = o1 + a*d1, b*d1
    elif kind == "nested":
        f, g = sorted([draw(gen.frac()), draw(gen.frac())])
        if g - f < 1e-3:
            f, g = 0.25, 0.75
        o2, L2 = o1 + f*L1, (g - f)*L1
    elif kind == "disjoint":
        L2 = draw(gen.pos(0.25, 50.))
        gap = draw(gen.pos(0.125, 10.))
        o2 = o1 + L1 + gap if draw(st.booleans()) else o1 - L2 - gap
    elif kind == "touch":
        L2 = draw(gen.pos(0.25, 50.))
        o2 = o1 + L1 if draw(st.booleans()) else o1 - L2
    elif kind == "contains":
        a, b = draw(gen.pos(0.01, 20.)), draw(gen.pos(0.01, 20.))
        o2, L2 = o1 - a, L1 + a + b
    elif kind == "pixel":        # inside a single input pixel
        k = draw(st.integers(0, n1 - 1))
        f = draw(st.sampled_from([0., 0.125, 0.25, 0.5]))
        o2, L2 = o1 + (k + f)*d1, 0.5*d1
    elif kind == "shift":
        o2, L2 = o1 + draw(gen.num(-2., 2.))*d1, L1
    else:
        o2 = o1 + draw(gen.num(-30., 30.))
        L2 = draw(gen.pos(0.25, 50.))
    return {"n1": n1, "n2": n2, "o1": o1, "L1": L1, "o2": o2, "L2": L2, "kind": kind}


def case(nd, nmax, mmax):
    def build(draw):
        axes = [draw(axis(nmax, mmax)) for _ in range(nd)]
        # scalar arguments need equal values along the axes
        style = {}
        for k, keys in (("L", ("L1",)), ("N", ("n2",)), ("o1", ("o1",)),
                        ("o2", ("o2",)), ("L2", ("L2",))):
            style[k] = draw(st.sampled_from(["list", "list", "scalar", "omit"]
                                            if k in ("o1", "o2", "L2")
                                            else ["list", "list", "scalar"]))
        if style["L"] == "scalar":
            for a in axes:
                a["L1"] = axes[0]["L1"]
        if style["N"] == "scalar":
            for a in axes:
                a["n2"] = axes[0]["n2"]
        for k in ("o1", "o2"):
            if style[k] == "scalar":
                for a in axes:
                    a[k] = axes[0][k]
            elif style[k] == "omit":
                for a in axes:
                    a[k] = 0.
        if style["L2"] == "scalar":
            for a in axes:
                a["L2"] = axes[0]["L2"]
        elif style["L2"] == "omit":
            for a in axes:
                a["L2"] = a["L1"]
        z = draw(gen.zoom())
        for a in axes:
            for k in ("o1", "L1", "o2", "L2"):
                a[k] *= z
        return {"axes": axes, "style": style,
                "seq": draw(st.sampled_from(["list", "tuple", "array"])),
                "f": draw(gen.field())}
    return st.composite(lambda draw: build(draw))()


def vec(vals, how, seq):
    if how == "scalar":
        return vals[0]
    if seq == "tuple":
        return tuple(vals)
    if seq == "array":
        return np.array(vals)
    return list(vals)


def run_nd(c, ctx, nd):
    import magpie
    fn = [magpie.remap.grid2grid1D, magpie.remap.grid2grid2D, magpie.remap.grid2grid3D][nd - 1]
    ax, stl, seq = c["axes"], c["style"], c["seq"]
    f = gen.make(c["f"], [a["n1"] for a in ax])
    mats = [overlap_matrix(a["o1"], a["L1"], a["n1"], a["o2"], a["L2"], a["n2"]) for a in ax]
    want = gen.f64(f)
    for k, m in enumerate(mats):
        want = np.moveaxis(np.tensordot(m, want, axes=(1, k)), 0, k)
    kw = {}
    if nd == 1:
        stl = {k: ("scalar" if v == "list" else v) for k, v in stl.items()}
    if stl["o1"] != "omit":
        kw["origin"] = vec([a["o1"] for a in ax], stl["o1"], seq)
    if stl["o2"] != "omit":
        kw["originout"] = vec([a["o2"] for a in ax], stl["o2"], seq)
    if stl["L2"] != "omit":
        kw["boxsizeout"] = vec([a["L2"] for a in ax], stl["L2"], seq)
    got = fn(f, vec([a["L1"] for a in ax], stl["L"], seq),
             vec([a["n2"] for a in ax], stl["N"], seq if seq != "array" else "list"), **kw)
    ctx.shape(got, [a["n2"] for a in ax], "output grid")
    for a in ax:
        ctx.label("axis:" + a["kind"])
    for k in ("o1", "o2", "L2", "L", "N"):
        ctx.label("%s:%s" % (k, stl[k]))
    # rounding of the edges: eps * |edge| / pixel width, amplified by the field
    noise = 1e-14*max((abs(a["o1"]) + abs(a["o2"]) + a["L1"] + a["L2"])
                      / min(a["L1"]/a["n1"], a["L2"]/a["n2"]) for a in ax)
    scale = gen.amp(f)
    tol = max(1e-9, 20.*noise)*scale + 1e-300
    ctx.close(got, want, "remapped field", atol=tol, rtol=0.)
    # conservation, identity and range follow; they are cheap to state
    covers = all(a["o2"] <= a["o1"] + 1e-12*a["L1"] and
                 a["o2"] + a["L2"] >= a["o1"] + a["L1"]*(1. - 1e-12) for a in ax)
    v1 = np.prod([a["L1"]/a["n1"] for a in ax])
    v2 = np.prod([a["L2"]/a["n2"] for a in ax])
    if covers:
        ctx.label("covers")
        ctx.close(np.sum(gen.f64(got))*v2, np.sum(gen.f64(f))*v1, "integral of the field",
                  atol=tol*v2*got.size + tol*v1*f.size, rtol=0.)
    same = all(a["o1"] == a["o2"] and a["L1"] == a["L2"] and a["n1"] == a["n2"] for a in ax)
    if same:
        ctx.label("identity")
        ctx.close(got, gen.f64(f), "identity", atol=tol, rtol=0.)
    inside = np.ones((), dtype=bool)
    for m in mats:
        inside = np.multiply.outer(inside, m.sum(axis=1) > 1. - 1e-9)
    if np.any(inside):
        ctx.inside(got[inside], gen.f64(f).min(), gen.f64(f).max(), "range of the field", tol=tol)
    ctx.mark(np.any(want != 0.) and not same and any(
        np.any((m > 1e-6) & (m < 1. - 1e-6)) for m in mats))


for _nd, _n, _m, _q, _t in ((1, 12, 12, 4000, 60000), (2, 6, 6, 2000, 30000), (3, 4, 4, 1000, 15000)):
    for _fl in ("plain", "checked"):
        def _run(c, ctx, nd=_nd):
            run_nd(c, ctx, nd)
        clause("C01", "exact_%dd_%s" % (_nd, _fl),
               strategy=case(_nd, _n, _m), quick=_q if _fl == "plain" else _q//2, thorough=_t,
               fortran=_fl, budget=60.,
               rule="the output grid overlaps the input grid, differs from it, and at least one "
                    "pixel is partially covered")(_run)


# ------------------------------------------------------------- large grids
@st.composite
def big(draw):
    nd = draw(st.sampled_from([1, 1, 2, 2, 3, 3]))
    top = draw(st.sampled_from({1: [3000], 2: [60, 60, 200], 3: [12, 30]}[nd]))
    # many pixels in the input, and few in the output
    fine = {1: 100000, 2: 400, 3: 50}[nd] if draw(st.integers(0, 3)) == 0 else None
    axes = []
    for _ in range(nd):
        n1, n2 = draw(st.integers(1, top)), draw(st.integers(1, top))
        if fine is not None:
            n1, n2 = draw(st.integers(fine//2, fine)), draw(st.integers(1, {1: 20, 2: 20, 3: 16}[nd]))
        L1 = draw(gen.pos(0.5, 2000.))
        o1 = draw(gen.num(-1000., 1000.))
        if fine is not None:
            o1 = draw(gen.frac())*L1        # so that rounding hides nothing
        k = draw(st.sampled_from(["same", "cells", "free"]))
        if k == "same":
            o2, L2 = o1, L1
        elif k == "cells":
            a, b = sorted([draw(st.integers(0, n1)), draw(st.integers(0, n1))])
            b = max(b, a + 1)
            o2, L2 = o1 + a*L1/n1, (b - a)*L1/n1
        else:
            o2, L2 = o1 + draw(gen.frac())*L1, L1*draw(gen.pos(0.0625, 3.))
        if fine is not None and draw(st.booleans()):
            # few input pixels in each output pixel
            k, L2 = "free", L1/n1*n2*draw(gen.pos(0.3, 3.))
            o2 = o1 + draw(gen.frac())*max(L1 - L2, 0.)
        axes.append({"n1": n1, "n2": n2, "o1": o1, "L1": L1, "o2": o2, "L2": L2, "kind": k})
    return {"axes": axes, "style": {k: "list" for k in ("L", "N", "o1", "o2", "L2")},
            "seq": "list", "f": draw(gen.field(dtypes=("f8",)))}


@clause("C01", "large", strategy=big(), quick=300, thorough=6000, fortran="plain", budget=40.,
        rule="hundreds to thousands of pixels per axis; non-trivial as for exact_*")
def large(c, ctx):
    run_nd(c, ctx, len(c["axes"]))


# ---------------------------------------------------------- missing values
def missing_case(nd, nmax):
    base = case(nd, nmax, nmax)
    return st.fixed_dictionaries({"case": base, "miss": gen.missing()})


def touches(a):
    """Which input pixels an output pixel of this axis surely overlaps, and
    which it surely does not."""
    d1, d2 = a["L1"]/a["n1"], a["L2"]/a["n2"]
    lo1, lo2 = a["o1"] + d1*np.arange(a["n1"]), a["o2"] + d2*np.arange(a["n2"])
    ov = np.minimum(lo2[:, None] + d2, lo1[None, :] + d1) - np.maximum(lo2[:, None], lo1[None, :])
    noise = 1e-13*(abs(a["o1"]) + abs(a["o2"]) + a["L1"] + a["L2"])
    sure, none = ov > 1e-6*min(d1, d2) + noise, ov < -noise
    if a["n1"] == a["n2"] and a["o1"] == a["o2"] and a["L1"] == a["L2"]:
        sure = np.eye(a["n1"], dtype=bool)
        none = ~sure
    elif all(float(v*64).is_integer() and abs(v) < 2**30 for v in (a["o1"], a["o2"], d1, d2)):
        sure, none = ov > 0., ov <= 0.          # nothing is rounded
    return sure, none


def missing_nd(c, ctx, nd):
    """Missing values spoil the output pixels they overlap, and only those."""
    import magpie
    fn = [magpie.remap.grid2grid1D, magpie.remap.grid2grid2D, magpie.remap.grid2grid3D][nd - 1]
    ax = c["case"]["axes"]
    f = gen.make(c["case"]["f"], [a["n1"] for a in ax])
    g, bad = gen.spoil(c["miss"], f)

    def call(f):
        def arg(k):
            return ax[0][k] if nd == 1 else [a[k] for a in ax]
        return np.asarray(fn(f, arg("L1"), arg("n2"), origin=arg("o1"), boxsizeout=arg("L2"), originout=arg("o2")))
    hit, near = bad.astype(int), bad.astype(int)
    for k, a in enumerate(ax):
        sure, none = touches(a)
        hit = np.moveaxis(np.tensordot(sure.astype(int), hit, axes=(1, k)), 0, k)
        near = np.moveaxis(np.tensordot((~none).astype(int), near, axes=(1, k)), 0, k)
    ctx.missing(call(g), call(gen.f64(f)), hit > 0, near == 0, "remapped field with missing values",
                1e-9*gen.amp(f) + 1e-300)
    for a in ax:
        ctx.label("axis:" + a["kind"])
    ctx.label(c["miss"]["mark"])
    ctx.mark(np.any(hit > 0) and np.any(near == 0))


for _nd, _n, _q, _t in ((1, 12, 1500, 30000), (2, 6, 800, 15000), (3, 4, 500, 8000)):
    def _run(c, ctx, nd=_nd):
        missing_nd(c, ctx, nd)
    clause("C01", "missing_%dd" % _nd, strategy=missing_case(_nd, _n), quick=_q, thorough=_t, fortran="plain",
           budget=40., rule="some output pixels overlap a missing value and others do not")(_run)
