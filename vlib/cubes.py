"""Generators shared by the cube remappings (C07, C08, C13)."""
from hypothesis import strategies as st

from . import gen


@st.composite
def cube(draw, nmax=6, very=()):
    out = {}
    kind = draw(st.sampled_from(["cube", "cuboid", "cuboid"]))
    L0 = draw(gen.pos(1., 40.))
    z = draw(gen.zoom())
    far = draw(st.sampled_from([0., 0., 0., 0., 5e3, -5e3] + list(very)))
    for a in "xyz":
        L = L0 if kind == "cube" else draw(gen.pos(0.5, 40.))
        lo = draw(st.one_of(st.just(-L/2.), st.just(0.), gen.num(-20., 20.)))
        lo = lo + far if a != "y" else lo - far
        out[a] = [z*lo, z*(lo + L), draw(st.integers(1, nmax))]
    return out


@st.composite
def center_in(draw, c):
    kind = draw(st.sampled_from(["middle", "inside", "inside", "corner", "outside", "zero"]))
    if kind == "zero":
        return [0., 0., 0.]
    out = []
    for a in "xyz":
        lo, hi, _ = c[a]
        L = hi - lo
        if kind == "middle":
            out.append(lo + 0.5*L)
        elif kind == "corner":
            out.append(draw(st.sampled_from([lo, hi])))
        else:
            s = 1. if kind == "inside" else 2.
            out.append(lo + L*(0.5 + s*(draw(gen.frac()) - 0.5)))
    return out


@st.composite
def radii(draw, c, nmax=4, log=False):
    size = max(c[a][1] - c[a][0] for a in "xyz")
    r0 = draw(st.one_of(st.just(0.), gen.num(0., 1.).map(lambda v: v*0.5*size)))
    if log:
        r0 = max(r0, 0.01*size)
    return {"r0": r0, "r1": r0 + size*draw(gen.pos(0.05, 0.9)),
            "nr": draw(st.integers(2 if log else 1, nmax))}
