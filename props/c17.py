"""C17: HEALPix pixel indexing agrees with the standard ring scheme."""
import numpy as np
from hypothesis import strategies as st

from vlib import geom, hpx, points
from vlib.core import clause

PI = np.pi


def resolution(nmax=2**29):
    opts = [st.integers(1, 40), st.integers(0, 29).map(lambda k: 2**k),
            st.integers(1, 10**4), st.integers(1, 2**29),
            st.integers(0, 27).map(lambda k: 3*2**k)]
    return st.one_of(*opts).map(lambda n: min(n, nmax))


@st.composite
def pixel(draw, n):
    kind = draw(st.sampled_from(["any", "any", "ring", "ring", "facet", "border", "end"]))
    if kind == "any":
        return draw(st.integers(0, 12*n*n - 1))
    if kind == "end":
        return draw(st.sampled_from([0, 1, 2, 3, 12*n*n - 1, 12*n*n - 2, 12*n*n - 4]))
    if kind == "border":
        i = draw(st.sampled_from([1, n - 1, n, n + 1, 2*n - 1, 2*n, 2*n + 1, 3*n - 1, 3*n, 3*n + 1, 4*n - 1]))
        i = min(max(i, 1), 4*n - 1)
    else:
        i = draw(st.integers(1, 4*n - 1))
    start, length, _ = hpx.ring_start(i, n)
    if kind == "facet":
        m = draw(st.integers(0, 4))*(length//4) + draw(st.integers(-1, 1))
    else:
        m = draw(st.sampled_from([-1, 0, 1, length - 1, length]))
    return min(max(start + m, 0), 12*n*n - 1)


@st.composite
def case(draw, nmax=2**29):
    n = draw(resolution(nmax))
    return {"nside": n, "pix": draw(st.lists(pixel(n), min_size=1, max_size=12))}


def facts(ctx, n, pix):
    ctx.label("nside:%s" % ("1" if n == 1 else "even" if n % 2 == 0 else "odd"),
              "nside<2^%d" % (n.bit_length()))
    caps = [hpx.ring_of(p, n)[0] for p in pix]
    ctx.label(*["north" if i < n else "south" if i > 3*n else "border" if i in (n, 3*n) else "belt" for i in caps])
    ctx.mark(n > 1 and any(i < n or i > 3*n for i in caps))


RULE = "a resolution above 1 and a pixel inside a polar cap"


def rings(c, ctx):
    from magpie import pixel as mp
    n, pix = c["nside"], c["pix"]
    p = np.array(pix, dtype="int64")
    want = [hpx.ring_of(q, n) for q in pix]
    i, j = mp.healpix_pix2ij(p, n)
    ctx.shape(i, p.shape, "ring indices")
    ctx.shape(j, p.shape, "in-ring indices")
    back = mp.healpix_ij2pix(np.asarray(i), np.asarray(j), n)
    ctx.shape(back, p.shape, "pixels back")
    for k, q in enumerate(pix):
        ctx.check((int(i[k]), int(j[k])) == want[k] and i[k] == int(i[k]) and j[k] == int(j[k]),
                  "nside %d pixel %d: ring (%r, %r), expected %r", n, q, i[k], j[k], want[k])
        ctx.check(back[k] == q and int(back[k]) == q, "nside %d pixel %d comes back as %r", n, q, back[k])
        a, b = mp.healpix_pix2ij(q, n)
        ctx.check((a, b) == want[k], "nside %d pixel %d (scalar): ring (%r, %r), expected %r", n, q, a, b, want[k])
        r = mp.healpix_ij2pix(a, b, n)
        ctx.check(r == q, "nside %d pixel %d (scalar) comes back as %r", n, q, r)
    facts(ctx, n, pix)


@clause("C17", "rings", strategy=case(), quick=2500, thorough=100000, shards=2, tshards=3, rule=RULE)
def rings_any(c, ctx):
    rings(c, ctx)


def placed(c, ctx):
    import healpy as hp
    from magpie import coords, pixel as mp
    n, pix = c["nside"], c["pix"]
    p = np.array(pix, dtype="int64")
    x, y = mp.healpix_pix2xy(p, n)
    ctx.shape(x, p.shape, "x")
    ctx.shape(y, p.shape, "y")
    i, j = mp.healpix_pix2ij(p, n)
    x2, y2 = mp.healpix_ij2xy(i, j, n)
    ctx.close(x2, x, "x from ring indices", atol=1e-14, rtol=0.)
    ctx.close(y2, y, "y from ring indices", atol=1e-14, rtol=0.)
    for k, q in enumerate(pix):
        wx, wy = hpx.center_plane(q, n)
        # (the position in exact halves of a pixel)
        ctx.close(x[k]*4*n/PI, wx*4*n/PI, "x of pixel %d at nside %d" % (q, n), atol=1e-6, rtol=4e-16)
        ctx.close(y[k]*4*n/PI, wy*4*n/PI, "y of pixel %d at nside %d" % (q, n), atol=1e-6, rtol=4e-16)
        a, b = mp.healpix_pix2xy(q, n)
        ctx.close([a, b], [x[k], y[k]], "place of pixel %d at nside %d (scalar)" % (q, n), atol=1e-15)
    w = hpx.vectors(p, n)
    d = geom.separation(hpx.sky(x, y), w)
    ctx.check(np.all(d < 1e-3/n + 1e-14*np.sqrt(n)), "nside %d pixel %d is off its centre by %.3g pixels", n,
              pix[int(np.argmax(d))], float(d.max()*n))
    f, t = coords.healpix_xy2ang(x, y)
    d = geom.separation(geom.vec(f, t), w)
    lim = np.where(np.abs(w[:, 2]) > 1. - 1e-6, 1e-7, 1e-11)
    ctx.check(np.all(d <= lim), "nside %d pixel %d: its plane position projects %.3g from its centre", n,
              pix[int(np.argmax(d - lim))], float(d[int(np.argmax(d - lim))]))
    f0, t0 = coords.healpix_xy2ang(*mp.healpix_pix2xy(pix[0], n))
    ctx.check(geom.separation(geom.vec(f0, t0), w[0]) <= lim[0], "nside %d pixel %d (scalar) is off its centre",
              n, pix[0])
    if n <= 2**13 and hp.isnsideok(n, nest=True):
        g = hp.vec2pix(n, *geom.vec(f, t).T)
        ctx.check(np.all(g == p), "nside %d: the centres of %r lie in %r", n, pix, g)
    facts(ctx, n, pix)


@clause("C17", "centres", strategy=case(2**25), quick=2000, thorough=60000, shards=2, tshards=3, rule=RULE)
def centres(c, ctx):
    placed(c, ctx)


def starred(mp, n, p):
    i, j = mp.healpix_pix2ij(p, n)
    d, e = mp.healpix_i2id(i, n), mp.healpix_j2jd(i, j, n)
    a, b = mp.healpix_ijd2ijs(d, e, n)
    return d, e, a, b


def pairs(c, ctx):
    from magpie import pixel as mp
    n, pix = c["nside"], c["pix"]
    p = np.array(sorted(set(pix)), dtype="int64")
    d, e, a, b = starred(mp, n, p)
    for v, name in ((d, "i'"), (e, "j'"), (a, "i*"), (b, "j*")):
        ctx.shape(v, p.shape, name)
    for v, name in ((a, "i*"), (b, "j*")):
        ctx.check(np.all(np.asarray(v) == np.rint(v)), "%s is not whole: %r", name, v)
    ctx.check(len(set(zip(a.tolist(), b.tolist()))) == len(p), "nside %d: pixels share a rotated index pair", n)
    d2, e2 = mp.healpix_ijs2ijd(np.asarray(a), np.asarray(b), n)
    ctx.check(np.array_equal(d2, d) and np.array_equal(e2, e),
              "nside %d pixels %r: (%r, %r) come back as (%r, %r)", n, p.tolist(), d, e, d2, e2)
    a2, b2 = mp.healpix_ijd2ijs(d2, e2, n)
    ctx.check(np.array_equal(a2, a) and np.array_equal(b2, b), "rotated pairs do not come back")
    # the pair of plane coordinates in units of the pixel's half diagonal, up to the offset
    x, y = np.array([hpx.center_plane(int(q), n) for q in p]).T
    X, Y = x*2.*n/PI, y*2.*n/PI
    ctx.close(np.asarray(e) - e[0], X - X[0], "j' steps", atol=1e-5, rtol=0.)
    ctx.close(np.asarray(d) - d[0], Y - Y[0], "i' steps", atol=1e-5, rtol=0.)
    for k in range(min(4, len(p))):
        i, j = mp.healpix_pix2ij(int(p[k]), n)
        ctx.check(mp.healpix_i2id(i, n) == d[k] and mp.healpix_j2jd(i, j, n) == e[k],
                  "nside %d pixel %d: scalar and array differ", n, int(p[k]))
        s = mp.healpix_ijd2ijs(np.float64(d[k]), np.float64(e[k]), n)
        ctx.check((s[0], s[1]) == (a[k], b[k]), "nside %d pixel %d: scalar pair %r", n, int(p[k]), s)
        r = mp.healpix_ijs2ijd(s[0], s[1], n)
        ctx.check((r[0], r[1]) == (d[k], e[k]), "nside %d pixel %d: scalar pair back %r", n, int(p[k]), r)
    facts(ctx, n, p.tolist())


@clause("C17", "rotated_pairs", strategy=case(2**29), quick=2000, thorough=60000, shards=2, tshards=3, rule=RULE)
def rotated(c, ctx):
    pairs(c, ctx)


def whole(tier):
    for n in range(1, 13 if tier != "thorough" else 41):
        for what in ("rings", "centres", "pairs"):
            yield {"nside": n, "what": what}
    if tier == "thorough":
        for n in (48, 64, 97, 128):
            for what in ("rings", "centres", "pairs"):
                yield {"nside": n, "what": what}


@clause("C17", "whole_maps", enum=whole, budget=200., tbudget=3600., shards=2, tshards=4,
        rule="every pixel of the map (resolution above 1)")
def whole_maps(c, ctx):
    case = {"nside": c["nside"], "pix": list(range(12*c["nside"]**2))}
    {"rings": rings, "centres": placed, "pairs": pairs}[c["what"]](case, ctx)


@st.composite
def run_case(draw):
    n = draw(resolution(2**25))
    m = draw(points.sizes(33000, 40000, 40000, 70000, 70000, 131073))
    p = draw(pixel(n))
    return {"nside": n, "m": min(m, 12*n*n), "start": p, "how": draw(st.sampled_from(["run", "run", "spread", "shuffled"])),
            "rng": draw(st.integers(0, 2**31 - 1))}


def ring_table(p, n):
    """Rings and positions along them of many pixels, in exact integers."""
    i = np.array([hpx.ring_of(int(p.min()), n)[0], hpx.ring_of(int(p.max()), n)[0]])
    k = np.arange(i[0], i[1] + 1, dtype="int64")
    south = 4*n - k
    start = np.where(k < n, 2*k*(k - 1), np.where(k <= 3*n, 2*n*(n - 1) + 4*n*(k - n), 12*n*n - 2*south*(south + 1)))
    w = np.searchsorted(start, p, side="right") - 1
    return k[w], p - start[w] + 1


@clause("C17", "large_arrays", strategy=run_case(), quick=250, thorough=5000, shards=2,
        rule="more than a hundred pixels, at a resolution above 1")
def large_arrays(c, ctx):
    """Many pixels at once are treated as few are."""
    from magpie import pixel as mp
    n, m = c["nside"], c["m"]
    total = 12*n*n
    rng = np.random.RandomState(c["rng"])
    if c["how"] == "spread":
        p = (np.arange(m, dtype="int64")*(total//m)) % total
        if n > 20000:
            p = np.sort(rng.randint(0, total, m))
    else:
        p = min(c["start"], total - m) + np.arange(m, dtype="int64")
    if c["how"] == "shuffled":
        p = p[rng.permutation(m)]
    what = "of %d pixels at nside %d" % (m, n)
    (i, j), few = points.large(ctx, lambda q: mp.healpix_pix2ij(q, n), (p,), "healpix_pix2ij")
    ctx.check(np.array_equal(i, few[0]) and np.array_equal(j, few[1]), "ring indices %s differ from those of few", what)
    if n <= 2**21 and (c["how"] != "spread" or n <= 20000):
        wi, wj = ring_table(p, n)
        ctx.check(np.array_equal(i, wi) and np.array_equal(j, wj), "ring indices %s: %d are wrong", what,
                  int(np.sum((i != wi) | (j != wj))))
    back = np.asarray(mp.healpix_ij2pix(i, j, n))
    ctx.check(back.shape == p.shape and np.array_equal(back, p), "ring indices %s: %d come back differently", what,
              int(np.sum(back != p)))
    (x, y), few = points.large(ctx, lambda q: mp.healpix_pix2xy(q, n), (p,), "healpix_pix2xy")
    ctx.close(x, few[0], "x %s and of few" % what, atol=1e-14, rtol=0.)
    ctx.close(y, few[1], "y %s and of few" % what, atol=1e-14, rtol=0.)
    x2, y2 = mp.healpix_ij2xy(i, j, n)
    ctx.close(x2, x, "x %s from ring indices" % what, atol=1e-14)
    ctx.close(y2, y, "y %s from ring indices" % what, atol=1e-14)
    d, e, a, b = starred(mp, n, p)
    for v in (d, e, a, b):
        ctx.shape(v, p.shape, "rotated indices " + what)
    for s in (slice(0, 40), slice(m//2, m//2 + 40), slice(m - 40, m)):
        few = starred(mp, n, p[s].copy())
        for g, w in zip((d, e, a, b), few):
            ctx.check(np.array_equal(g[s], w), "rotated indices %s differ from those of few", what)
    d2, e2 = mp.healpix_ijs2ijd(np.asarray(a), np.asarray(b), n)
    ctx.check(np.array_equal(d2, d) and np.array_equal(e2, e), "rotated indices %s do not come back", what)
    ctx.check(len(np.unique(np.stack([a, b]), axis=1).T) == len(np.unique(p)), "pixels %s share a rotated index pair", what)
    ctx.label(c["how"], "m>2^15" if m > 2**15 else "m>=2^10" if m >= 1024 else "m<2^10")
    ctx.mark(n > 1 and m > 100)
