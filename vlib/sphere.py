"""Generators and reference grids of the sphere remappings (C09-C13)."""
import numpy as np
from hypothesis import strategies as st

from . import gen, geom

PI = gen.PI


def nside(nmax=16):
    """Resolutions; maps in ring order need not have a power of two."""
    return st.sampled_from([n for n in (1, 2, 2, 4, 4, 8, 16, 32, 64, 3, 6, 12, 48, 128, 256, 256, 200) if n <= nmax])


@st.composite
def center(draw):
    kind = draw(st.sampled_from(["any", "any", "any", "pole", "equator", "origin", "axis"]))
    if kind == "axis":          # quarter turns
        return [draw(st.sampled_from([0., PI/2., PI, 1.5*PI, 2.*PI])), draw(st.sampled_from([PI/2., PI/2., 0., PI]))]
    if kind == "origin":
        return [0., 0.]
    if kind == "pole":
        return [draw(gen.phi()), draw(st.sampled_from([0., PI]))]
    if kind == "equator":
        return [draw(gen.phi()), PI/2.]
    # no colatitudes within rounding of each other or of the poles
    t = draw(gen.theta())
    return [draw(gen.phi()), t if t == 0. or t == PI or 1e-4 < t < PI - 1e-4 else 0.5]


def spin():
    return st.one_of(st.just(0.), gen.phi(), gen.phi(), st.sampled_from([PI/2., PI, 1.5*PI, 2.*PI]))


@st.composite
def cap(draw, namax=6, nbmax=6):
    a0 = draw(st.one_of(st.just(0.), gen.num(0., 2.9)))
    kind = draw(st.sampled_from(["any", "any", "sphere"]))
    a1 = PI if kind == "sphere" else min(PI, a0 + draw(gen.pos(0.05, 1.5)))
    b0, b1 = 0., 2.*PI
    kind = draw(st.sampled_from(["full", "full", "partial", "upto", "from"]))
    if kind in ("partial", "from"):
        b0 = draw(gen.phi(0., 1.9*PI))
    if kind in ("partial", "upto"):
        b1 = min(2.*PI, b0 + draw(gen.pos(0.125, max(0.125, 2.*PI - b0))))
    return {"a0": a0, "a1": a1, "na": draw(st.integers(1, namax)),
            "b0": b0, "b1": b1, "nb": draw(st.integers(1, nbmax)),
            "full": b0 == 0. and b1 == 2.*PI}


@st.composite
def lonlat(draw, nmax=7):
    xl = draw(st.one_of(st.just(2.*PI), st.just(PI), gen.pos(0.05, 2.*PI)))
    return {"xl": xl, "nx": draw(st.integers(1, nmax)),
            "yl": draw(st.one_of(st.none(), st.just(PI), gen.pos(0.05, PI))),
            "ny": draw(st.one_of(st.none(), st.integers(1, nmax)))}


def cap_matrix(center, spin):
    """Spin about the north pole, then carry it to the centre."""
    return geom.rz(center[0]) @ geom.ry(center[1]) @ geom.rz(spin)


def box_matrix(center, spin):
    """Spin about (phi, theta) = (0, pi/2), then carry it to the centre."""
    return geom.rz(center[0]) @ geom.ry(center[1] - PI/2.) @ geom.rx(spin)


def box_lengths(b):
    yl = b["yl"] if b["yl"] is not None else min(b["xl"], PI)
    ny = b["ny"] if b["ny"] is not None else b["nx"]
    return b["xl"], b["nx"], yl, ny


def edges(lo, hi, n):
    return lo + (hi - lo)*np.arange(n + 1)/float(n)


def mids(e):
    return 0.5*(e[1:] + e[:-1])


def sample_map(ns, f, v, eps=2e-7):
    """Bounds of the map at directions v."""
    pix = geom.pix_candidates(ns, v, eps)
    return geom.bracket(gen.f64(f)[pix])

