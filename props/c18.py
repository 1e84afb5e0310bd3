"""C18: HEALPix neighbours are exactly the touching pixels."""
import numpy as np
from hypothesis import strategies as st

from vlib import hpx
from vlib.core import clause
from props import c17


def star(n, p):
    """Rotated index pairs of pixels."""
    from magpie import pixel as mp
    _, _, a, b = c17.starred(mp, n, np.asarray(p, dtype="int64"))
    return [(int(u), int(v)) for u, v in zip(a, b)]


def neighbours(ctx, n, pair):
    from magpie import pixel as mp
    a, b = mp.healpix_ijs_neighbours(pair[0], pair[1], n)
    a, b = np.asarray(a), np.asarray(b)
    ctx.check(a.shape == b.shape and a.ndim == 1, "neighbours have shapes %s, %s", a.shape, b.shape)
    ctx.check(np.all(a == np.rint(a)) and np.all(b == np.rint(b)), "neighbour indices are not whole")
    out = [(int(u), int(v)) for u, v in zip(a, b)]
    ctx.check(len(set(out)) == len(out), "nside %d pair %r: a neighbour is listed twice: %r", n, pair, out)
    return out


@st.composite
def case(draw):
    n = draw(st.one_of(st.integers(1, 40), st.integers(0, 16).map(lambda k: 2**k), st.integers(1, 2**16),
                       st.integers(17, 29).map(lambda k: 2**k)))
    return {"nside": n, "pix": draw(st.one_of(c17.pixel(n), corner(n)))}


@st.composite
def corner(draw, n):
    """Pixels along the borders of the base pixels."""
    i = draw(st.integers(1, 4*n - 1))
    start, length, _ = hpx.ring_start(i, n)
    m = min(i, 4*n - i)
    if m >= n:                      # belt: near the lines x +- y = const
        t = draw(st.integers(0, 3))*n + draw(st.sampled_from([1, -1]))*((i - 2*n)//2) + draw(st.integers(-2, 2))
        t += draw(st.sampled_from([0, n//2]))
    else:
        t = draw(st.integers(0, 4))*m + draw(st.integers(-2, 1))
    return start + t % length


@clause("C18", "touching", strategy=case(), quick=2500, thorough=60000, shards=3, tshards=4,
        rule="a pixel on the border of a base pixel or in a polar cap (resolution above 1)")
def touching(c, ctx):
    n, p = c["nside"], c["pix"]
    if n > 2**16:                   # (beyond the precision of that search)
        import healpy as hp
        want = sorted(int(v) for v in hp.get_all_neighbours(n, p) if v >= 0)
    else:
        want = sorted(hpx.touching(p, n))
    me = star(n, [p])[0]
    got = neighbours(ctx, n, me)
    ctx.check(me not in got, "nside %d pixel %d is its own neighbour", n, p)
    pairs = dict(zip(star(n, want), want))
    extra, missing = [g for g in got if g not in pairs], [q for k, q in pairs.items() if k not in got]
    ctx.check(not extra and not missing, "nside %d pixel %d %r: touching pixels %r, missing %r, not touching %r",
              n, p, me, want, missing, extra)
    # numpy integers are what the conversions return
    again = neighbours(ctx, n, (np.int64(me[0]), np.int64(me[1])))
    ctx.check(again == got, "the neighbours depend on the type of the indices")
    for k in got:
        ctx.check(me in neighbours(ctx, n, k), "nside %d: %r has the neighbour %r, but not the reverse", n, me, k)
    i, _ = hpx.ring_of(p, n)
    ctx.label("%d neighbours" % len(got), "cap" if i < n or i > 3*n else "belt",
              "power of two" if n & (n - 1) == 0 else "other")
    ctx.mark(n > 1 and (i <= n or i >= 3*n or len(got) == 7 or _border(p, n)))


def _border(p, n):
    x, y = hpx.center_plane(p, n)
    u = [(x + s*y)*2./np.pi*n for s in (1., -1.)]      # base pixel borders at multiples of n (offset n/2)
    d = [abs((v - n/2.) % n) for v in u]
    return any(min(v, n - v) < 1. for v in d)


def maps(tier):
    for n in list(range(1, 11)) + ([16] if tier != "thorough" else list(range(11, 40)) + [64]):
        yield {"nside": n}


@clause("C18", "whole_maps", enum=maps, budget=200., tbudget=3600., shards=3, tshards=4,
        rule="every pixel of the map (resolution above 1)")
def whole_maps(c, ctx):
    n = c["nside"]
    pix = np.arange(12*n*n)
    st_ = star(n, pix)
    back = {k: q for q, k in enumerate(st_)}
    ctx.check(len(back) == len(pix), "nside %d: index pairs are shared", n)
    table = []
    for q in range(len(pix)):
        got = neighbours(ctx, n, st_[q])
        for k in got:
            ctx.check(k in back, "nside %d pixel %d: the neighbour %r is no pixel of the map", n, q, k)
        table.append({back[k] for k in got})
        ctx.check(q not in table[-1], "nside %d pixel %d is its own neighbour", n, q)
    for q, s in enumerate(table):
        for k in s:
            ctx.check(q in table[k], "nside %d: %d has the neighbour %d, but not the reverse", n, q, k)
    counts = sorted({v: sum(len(s) == v for s in table) for v in {len(s) for s in table}}.items())
    want = [(6, 12)] if n == 1 else [(7, 24), (8, 12*n*n - 24)]
    ctx.check(counts == want, "nside %d: pixels by number of neighbours %r, expected %r", n, counts, want)
    if n & (n - 1) == 0:
        import healpy as hp
        ref = hp.get_all_neighbours(n, pix).T
        for q in range(len(pix)):
            w = set(int(v) for v in ref[q] if v >= 0)
            ctx.check(w == table[q], "nside %d pixel %d: neighbours %r, expected %r", n, q, sorted(table[q]), sorted(w))
    else:
        for q in range(0, len(pix), max(1, len(pix)//200)):
            ctx.check(hpx.touching(q, n) == table[q], "nside %d pixel %d: neighbours %r", n, q, sorted(table[q]))
    ctx.mark(n > 1)
