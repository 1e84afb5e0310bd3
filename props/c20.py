"""C20: grids have the documented edges, centres, order and areas."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.core import clause

PI = np.pi


def edges(lo, length, n):
    return lo + length*(np.arange(n + 1)/float(n))


def mids(lo, length, n):
    return lo + length*((np.arange(n) + 0.5)/n)


@st.composite
def axis(draw, nmax=20):
    z = draw(gen.zoom())
    lo = draw(st.one_of(st.none(), gen.num(-20., 20.)))
    return {"l": z*draw(st.one_of(gen.pos(0.01, 50.), st.just(1.), st.just(1e5))),
            "n": draw(st.one_of(st.integers(1, nmax), st.integers(1, nmax), st.integers(1, 10*nmax))) if nmax >= 60
            else draw(st.integers(1, nmax)),
            "lo": None if lo is None else z*lo}


@st.composite
def case(draw, dim, nmax):
    ax = [draw(axis(nmax)) for _ in range(dim)]
    ls, ns = draw(st.booleans()), draw(st.booleans())
    if ls:
        for a in ax:
            a["l"] = ax[0]["l"]
    if ns:
        for a in ax:
            a["n"] = ax[0]["n"]
    lo = draw(st.sampled_from(["given", "given", "absent"]))
    if lo == "absent":
        for a in ax:
            a["lo"] = None
    return {"ax": ax, "ls": ls, "ns": ns, "absent": lo == "absent",
            "type": draw(st.sampled_from(["list", "tuple", "array", "npint"])), "flag": draw(st.booleans())}


def tol(a):
    return 1e-13*(abs(a["lo"] or 0.) + a["l"])


@clause("C20", "axis", strategy=case(1, 200), quick=2000, thorough=50000,
        rule="more than one pixel and a minimum other than zero")
def one_axis(c, ctx):
    from magpie import grids
    a = c["ax"][0]
    lo = a["lo"] or 0.
    n = np.int64(a["n"]) if c["type"] == "npint" else a["n"]
    kw = {} if c["absent"] else {"xmin": a["lo"]}
    t = tol(a)
    e = grids.get_xedges(a["l"], n, **kw)
    ctx.close(e, edges(lo, a["l"], a["n"]), "edges", atol=t, rtol=0.)
    ctx.check(e[0] == lo, "the first edge is %r", e[0])
    m = grids.xedges2mid(e)
    ctx.close(m, mids(lo, a["l"], a["n"]), "centres", atol=t, rtol=0.)
    ctx.check(np.all(np.diff(e) > 0.), "edges do not increase")
    g = grids.grid1d(a["l"], n, **kw)
    ctx.close(g, m, "grid1d", atol=t, rtol=0.)
    out = grids.grid1d(a["l"], n, return_edges=True, **kw)
    ctx.check(isinstance(out, tuple) and len(out) == 2, "grid1d with edges returns %r", type(out))
    ctx.close(out[0], m, "grid1d centres", atol=t, rtol=0.)
    ctx.close(out[1], edges(lo, a["l"], a["n"]), "grid1d edges", atol=t, rtol=0.)
    ctx.mark(a["n"] > 1 and lo != 0.)


@st.composite
def uneven(draw):
    n = draw(st.integers(2, 30))
    e = np.cumsum([draw(gen.num(-5., 5.))] + [draw(gen.pos(0.01, 3.)) for _ in range(n)])*draw(gen.zoom())
    return {"e": e.tolist()}


@clause("C20", "uneven_edges", strategy=uneven(), quick=800, thorough=20000, rule="any edges (all are)")
def uneven_edges(c, ctx):
    from magpie import grids
    e = np.array(c["e"])
    ctx.close(grids.xedges2mid(e), [(u + v)/2. for u, v in zip(e[:-1], e[1:])], "centres", atol=1e-13*np.max(np.abs(e)), rtol=1e-14)
    ctx.mark()


@clause("C20", "edges_from_centres", strategy=case(1, 60), quick=1500, thorough=40000,
        rule="at least two centres")
def edges_from_centres(c, ctx):
    from magpie import grids
    a = dict(c["ax"][0])
    a["n"] += 1
    lo = a["lo"] or 0.
    m = mids(lo, a["l"], a["n"])
    copy = m.copy()
    got = grids.xmid2edges(m)
    ctx.untouched(m, copy, "the array of centres")
    ctx.shape(got, (a["n"] + 1,), "edges")
    dx = a["l"]/a["n"]
    t = 1e-11*(abs(lo) + a["l"])
    known = np.append(m - dx, m[-1] + dx)
    if np.all(np.abs(got - known) <= t):
        # the listed finding: offsets of a whole pixel instead of half of one
        ctx.label("finding:xmid2edges")
    else:
        ctx.close(got, edges(lo, a["l"], a["n"]), "edges from centres", atol=t, rtol=0.)
        ctx.close(grids.xedges2mid(got), m, "centres back", atol=t, rtol=0.)
    ctx.mark()


def grid(c, ctx, dim):
    from magpie import grids
    ax = c["ax"]
    cast = {"list": list, "tuple": tuple, "array": np.array, "npint": list}[c["type"]]
    lengths = ax[0]["l"] if c["ls"] else cast([a["l"] for a in ax])
    num = [a["n"] for a in ax]
    if c["type"] == "npint":
        num = [np.int64(n) for n in num]
    num = num[0] if c["ns"] else cast(num)
    kw = {} if c["absent"] else {"mins": [a["lo"] for a in ax]}
    f = grids.grid2d if dim == 2 else grids.grid3d
    shape = tuple(a["n"] for a in ax)
    want = [mids(a["lo"] or 0., a["l"], a["n"]) for a in ax]
    out = f(lengths, num, **kw)
    out1 = f(lengths, num, return1d=True, **kw)
    ctx.check(len(out) == dim and len(out1) == 2*dim, "%d and %d results", len(out), len(out1))
    for k in range(dim):
        t = tol(ax[k])
        w = np.broadcast_to(want[k].reshape([-1 if i == k else 1 for i in range(dim)]), shape)
        ctx.close(out[k], w, "coordinates %d" % k, atol=t, rtol=0.)
        ctx.close(out1[k], w, "coordinates %d (with 1D)" % k, atol=t, rtol=0.)
        ctx.close(out1[dim + k], want[k], "1D coordinates %d" % k, atol=t, rtol=0.)
    ctx.label("lengths " + ("scalar" if c["ls"] else c["type"]), "minima " + ("absent" if c["absent"] else "given"))
    ctx.mark(len(set(shape)) > 1 or len({a["lo"] for a in ax}) > 1)


@clause("C20", "grid2d", strategy=case(2, 12), quick=1500, thorough=40000, rule="axes that differ")
def grid2(c, ctx):
    grid(c, ctx, 2)


@clause("C20", "grid3d", strategy=case(3, 7), quick=1500, thorough=40000, rule="axes that differ")
def grid3(c, ctx):
    grid(c, ctx, 3)


@st.composite
def polar_case(draw):
    z = draw(gen.zoom())
    r0 = z*draw(st.one_of(st.just(0.), gen.pos(0.05, 10.)))
    p0 = draw(st.one_of(st.just(0.), gen.phi(0., 6.), gen.num(-7., 6.)))
    num = st.one_of(st.integers(1, 12), st.integers(1, 12), st.integers(1, 300))
    return {"nr": draw(num), "np": draw(num), "r0": r0,
            "r1": r0 + z*draw(gen.pos(0.05, 10.)), "p0": p0,
            "p1": draw(st.one_of(st.just(2.*PI), gen.phi().map(lambda v: max(v, p0 + 0.1)))),
            "default": draw(st.booleans())}


@clause("C20", "polar", strategy=polar_case(), quick=1500, thorough=40000,
        rule="different numbers of radial and angular pixels")
def polar(c, ctx):
    from magpie import grids
    kw = {} if c["default"] else {"rmin": c["r0"], "rmax": c["r1"], "phimin": c["p0"], "phimax": c["p1"]}
    r0, r1, p0, p1 = (0., 1., 0., 2.*PI) if c["default"] else (c["r0"], c["r1"], c["p0"], c["p1"])
    r, p = mids(r0, r1 - r0, c["nr"]), mids(p0, p1 - p0, c["np"])
    shape = (c["nr"], c["np"])
    out = grids.polargrid(c["nr"], c["np"], **kw)
    ctx.check(len(out) == 2, "%d results", len(out))
    one = grids.polargrid(c["nr"], c["np"], return1d=True, **kw)
    ctx.check(len(one) == 4, "%d results with 1D", len(one))
    for o in (out, one):
        ctx.close(o[0], np.broadcast_to(r[:, None], shape), "radii", atol=1e-12*r1, rtol=0.)
        ctx.close(o[1], np.broadcast_to(p[None, :], shape), "angles", atol=1e-12, rtol=0.)
    ctx.close(one[2], r, "radial centres", atol=1e-12*r1, rtol=0.)
    ctx.close(one[3], p, "angular centres", atol=1e-12, rtol=0.)
    ctx.mark(c["nr"] != c["np"])


ea = st.fixed_dictionaries({"nr": st.one_of(st.integers(1, 14), st.integers(1, 14), st.integers(1, 60)), "rmax": st.one_of(st.none(), gen.pos(0.05, 50.), st.sampled_from([3e-9, 2.5e9])),
                            "base": st.one_of(st.none(), st.integers(1, 9))})


@clause("C20", "equal_area", strategy=ea, quick=1500, thorough=30000,
        rule="more than one ring and a base or radius other than the default")
def equal_area(c, ctx):
    from magpie import grids
    nr = c["nr"]
    rmax, base = c["rmax"] or 1., c["base"] or 4
    kr = {} if c["rmax"] is None else {"rmax": c["rmax"]}
    kb = {} if c["base"] is None else {"base_nphi": c["base"]}
    r, p = grids.polarEA_grid(nr, **kr, **kb)
    n = grids.polarEA_npix(nr, **kb)
    a = grids.polarEA_area(nr, **kr, **kb)
    ctx.check(n == base*nr**2, "number of pixels %r, expected %d", n, base*nr**2)
    ctx.shape(r, (n,), "radii")
    ctx.shape(p, (n,), "angles")
    ctx.close(n*a, PI*rmax**2, "total area", atol=0., rtol=1e-12)
    at = 0
    for i in range(nr):
        m = base*(2*i + 1)
        r0, r1 = rmax*i/nr, rmax*(i + 1)/nr
        ctx.close(r[at:at + m], np.full(m, (r0 + r1)/2.), "radii of ring %d" % i, atol=0., rtol=1e-12)
        ctx.close(p[at:at + m], mids(0., 2.*PI, m), "angles of ring %d" % i, atol=1e-12)
        ctx.close(PI*(r1**2 - r0**2)/m, a, "pixel area in ring %d" % i, atol=0., rtol=1e-10)
        at += m
    for k in (nr*1000, nr*100003):
        ctx.check(grids.polarEA_npix(k, **kb) == base*k**2, "number of pixels of %d rings: %r", k, grids.polarEA_npix(k, **kb))
        ctx.close(grids.polarEA_area(k, **kr, **kb), PI*rmax**2/k**2/base, "pixel area of %d rings" % k, atol=0., rtol=1e-12)
    ctx.mark(nr > 1 and (c["rmax"] is not None or c["base"] is not None))
