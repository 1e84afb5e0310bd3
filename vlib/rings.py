"""Generators shared by the ring remappings (C04, C05, C06, C13, C27)."""
from hypothesis import strategies as st

from . import gen

PI = gen.PI


@st.composite
def box(draw, nmax=9):
    nx, ny = draw(st.integers(1, nmax)), draw(st.integers(1, nmax))
    lx, ly = draw(gen.pos(0.5, 40.)), draw(gen.pos(0.5, 40.))
    if draw(st.booleans()):
        x0, y0 = -lx/2., -ly/2.
    else:
        x0, y0 = draw(gen.num(-20., 20.)), draw(gen.num(-20., 20.))
        far = draw(st.sampled_from([0., 0., 0., 0., 5e3, -5e3]))
        x0, y0 = x0 + far, y0 - far
    z = draw(gen.zoom())
    return {"x0": z*x0, "x1": z*(x0 + lx), "nx": nx, "y0": z*y0, "y1": z*(y0 + ly), "ny": ny}


@st.composite
def angles(draw, nmax=8):
    kind = draw(st.sampled_from(["full", "full", "partial", "upto", "from"]))
    p0, p1 = 0., 2.*PI
    if kind in ("partial", "from"):
        p0 = draw(gen.phi(0., 1.9*PI))
    if kind in ("partial", "upto"):
        p1 = min(2.*PI, p0 + draw(gen.pos(0.125, 2.*PI - p0 if 2.*PI - p0 > 0.125 else 0.125)))
    return {"p0": p0, "p1": p1, "np": draw(st.integers(1, nmax)), "full": p0 == 0. and p1 == 2.*PI}


@st.composite
def center_in(draw, b):
    kind = draw(st.sampled_from(["middle", "inside", "inside", "corner", "outside", "zero"]))
    lx, ly = b["x1"] - b["x0"], b["y1"] - b["y0"]
    if kind == "middle":
        return [b["x0"] + 0.5*lx, b["y0"] + 0.5*ly]
    if kind == "corner":
        return [b["x0"], b["y1"]]
    if kind == "zero":
        return [0., 0.]
    a = 1. if kind == "inside" else 2.
    return [b["x0"] + lx*(0.5 + a*(draw(gen.frac()) - 0.5)),
            b["y0"] + ly*(0.5 + a*(draw(gen.frac()) - 0.5))]


@st.composite
def radii(draw, b, nmax=6, log=False):
    """Radial range in units of the box."""
    size = max(b["x1"] - b["x0"], b["y1"] - b["y0"])
    r0 = draw(st.one_of(st.just(0.), st.just(0.), gen.num(0., 1.).map(lambda v: v*0.5*size)))
    if log:
        r0 = max(r0, 0.01*size)
    dr = size*draw(gen.pos(0.05, 0.9))
    return {"r0": r0, "r1": r0 + dr, "nr": draw(st.integers(2 if log else 1, nmax))}


def shift():
    return st.one_of(st.just(0.), gen.phi())
