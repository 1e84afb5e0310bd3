"""Generator and reference for rebinning (C02, C03)."""
import numpy as np
from hypothesis import strategies as st

from . import gen


@st.composite
def edges(draw, nmin=1, nmax=12):
    """Increasing edges; returns (list, 'int'|'float')."""
    n = draw(st.integers(nmin, nmax))
    kind = draw(st.sampled_from(["uniform", "int", "quarter", "free"]))
    if kind == "uniform":
        lo = draw(gen.num(-20., 20.))
        d = draw(gen.pos(0.0625, 5.))
        return [lo + d*i for i in range(n + 1)], "float"
    if kind == "int":
        lo = draw(st.integers(-20, 20))
        steps = draw(st.lists(st.integers(1, 6), min_size=n, max_size=n))
        out = [lo]
        for s in steps:
            out.append(out[-1] + s)
        return out, "int"
    lo = draw(gen.num(-20., 20.))
    if kind == "quarter":
        steps = [k/4. for k in draw(st.lists(st.integers(1, 20), min_size=n, max_size=n))]
    else:
        steps = draw(st.lists(gen.smooth(0.01, 8.), min_size=n, max_size=n))
    out = [lo]
    for s in steps:
        out.append(out[-1] + s)
    return out, "float"


@st.composite
def new_edges(draw, old, isint):
    """New edges with shared, interior and outside positions."""
    m = draw(st.integers(1, 10))
    how = draw(st.sampled_from(["same", "mixed", "mixed", "mixed", "mixed", "outside", "within"]))
    if how == "same":
        return list(old), ("int" if isint else "float")
    if how == "within":                 # all inside a single old bin
        i = draw(st.integers(0, len(old) - 2))
        d = old[i + 1] - old[i]
        v = sorted({old[i] + d*draw(st.integers(1, 31))/32. for _ in range(m + 1)})
        return (v if len(v) > 1 else [old[i] + d/4., old[i] + d/2.]), "float"
    span = old[-1] - old[0]
    out = set()
    allint = draw(st.booleans()) and isint
    for _ in range(m + 1):
        k = draw(st.sampled_from(["edge", "edge", "inside", "inside", "below", "above"]
                                 if how == "mixed" else ["below", "below", "above", "first", "last"]))
        if k == "edge":
            v = draw(st.sampled_from(old))
        elif k == "first":
            v = old[0]
        elif k == "last":
            v = old[-1]
        elif k == "inside":
            i = draw(st.integers(0, len(old) - 2))
            v = old[i] + draw(gen.frac())*(old[i + 1] - old[i])
        elif k == "below":
            v = old[0] - draw(gen.pos(0.0625, 2.))*span
        else:
            v = old[-1] + draw(gen.pos(0.0625, 2.))*span
        if allint:
            v = int(round(v))
        out.add(v)
    out = sorted(out)
    if len(out) < 2:
        out.append(out[-1] + 1)
    return out, ("int" if allint else "float")


@st.composite
def case(draw, nmax=12, sigma=False):
    old, t1 = draw(edges(1, nmax))
    new, t2 = draw(new_edges(old, t1 == "int"))
    zoom = 1.
    if t1 == t2 == "float":             # other units
        zoom = draw(st.sampled_from([1., 1., 1., 1., 1e-3, 1e3, 1e-10, 1e-6, 1e8]))
    return {"old": [zoom*v for v in old], "t1": t1, "new": [zoom*v for v in new], "t2": t2,
            "layout": draw(st.sampled_from(["C", "C", "S"])),
            "data": draw(gen.field()),
            "w": draw(st.one_of(st.none(), gen.weights(zeros=True))),
            "sigma": draw(st.one_of(st.none(), gen.weights())) if not sigma
            else draw(st.one_of(gen.weights(), gen.weights(zeros=True)))}


def arrays(c):
    old = np.array(c["old"], dtype="int64" if c["t1"] == "int" else "float64")
    new = np.array(c["new"], dtype="int64" if c["t2"] == "int" else "float64")
    old, new = gen.layout(old, c["layout"]), gen.layout(new, c["layout"])
    n = len(old) - 1
    data = gen.make(c["data"], n)
    w = None if c["w"] is None else gen.make(c["w"], n)
    s = None if c["sigma"] is None else gen.make(c["sigma"], n)
    return old, new, data, w, s


@st.composite
def big(draw, sigma=False):
    """Hundreds or thousands of bins."""
    n = draw(st.one_of(st.sampled_from([128, 256, 257, 300, 512, 1000, 1025, 4096]), st.integers(100, 3000)))
    m = draw(st.one_of(st.integers(1, 40), st.integers(1, 40), st.just(n), st.integers(100, 700)))
    return {"n": n, "m": min(m, 700), "rng": draw(gen.seed()), "grid": draw(st.sampled_from(["even", "free", "int"])),
            "new": draw(st.sampled_from(["free", "free", "shared", "wide", "few"])),
            "zoom": draw(gen.zoom()), "w": draw(st.sampled_from([None, "pos", "zeros"])),
            "sigma": True if sigma else draw(st.booleans()), "zeros": draw(st.booleans())}


def big_arrays(c):
    r = np.random.RandomState(c["rng"])
    n, m = c["n"], c["m"]
    if c["grid"] == "int":
        old = np.cumsum(r.randint(1, 5, n + 1)).astype(float)
    elif c["grid"] == "even":
        old = np.linspace(-3., 8., n + 1)
    else:
        old = np.cumsum(r.uniform(0.05, 1., n + 1))
    L = old[-1] - old[0]
    if c["new"] == "shared":
        new = np.unique(np.append(r.choice(old, min(m, n)), old[[0, -1]]))
    elif c["new"] == "wide":
        new = old[0] + L*np.linspace(-0.3, 1.3, m + 1)
    elif c["new"] == "few":
        new = old[0] + L*np.array([0.01, 0.6, 0.99])
    else:
        new = np.unique(old[0] + L*r.uniform(0., 1., m + 1))
    data = r.uniform(-1., 1., n)*r.choice([1., 5.])
    w = None if c["w"] is None else r.uniform(0.1, 2., n)
    if c["w"] == "zeros":
        w[r.uniform(size=n) < 0.3] = 0.
    s = r.uniform(0.1, 2., n) if c["sigma"] else None
    if c["sigma"] and c["zeros"]:
        s[r.uniform(size=n) < 0.3] = 0.
    return c["zoom"]*old, c["zoom"]*new, data, w, s


def overlaps(old, new):
    """l[j, i]: length of new bin j inside old bin i."""
    o, n = gen.f64(old), gen.f64(new)
    l = np.minimum(n[1:, None], o[None, 1:]) - np.maximum(n[:-1, None], o[None, :-1])
    return np.clip(l, 0., None)


def reference(old, new, data, w=None, sigma=None):
    l = overlaps(old, new)
    d = gen.f64(data)
    ww = np.ones(len(d)) if w is None else gen.f64(w)
    norm = (l*ww).sum(axis=1)
    with np.errstate(all="ignore"):
        val = np.where(norm > 0., (l*ww*d).sum(axis=1)/norm, np.nan)
        sig = None
        if sigma is not None:
            L = np.diff(gen.f64(old))
            var = (L*l*(ww*gen.f64(sigma))**2).sum(axis=1)/norm**2
            sig = np.where(norm > 0., np.sqrt(var), np.nan)
    return val, sig


def masked(old, new, w):
    """New bins in which every overlapping bin has no weight: no mean is defined."""
    l = overlaps(old, new)
    if w is None:
        return np.zeros(len(l), bool)
    return (l.sum(axis=1) > 0.) & ((l*gen.f64(w)).sum(axis=1) == 0.)


def drop(a, bad):
    a = np.array(a, dtype=float)
    if a.shape == bad.shape:
        a[bad] = 0.
    return a


def classify(ctx, old, new):
    l = overlaps(old, new)
    o, n = gen.f64(old), gen.f64(new)
    for j in range(len(n) - 1):
        cnt = int((l[j] > 0.).sum())
        inside = int(((o >= n[j]) & (o <= n[j + 1])).sum())
        ctx.label("bins:%d" % min(cnt, 3), "edges in bin:%d" % min(inside, 3))
        if cnt == 0:
            ctx.label("no overlap")
        if n[j] < o[0] < n[j + 1] or n[j] < o[-1] < n[j + 1]:
            ctx.label("crosses the range")
        if n[j] in o or n[j + 1] in o:
            ctx.label("shared edge")
    part = (l > 0.) & (l < np.diff(o)[None, :])
    return bool(np.any(part))
