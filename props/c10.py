"""C10: dense-grid sphere-to-box remapping is the area-weighted mean."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, geom, sphere
from vlib.core import clause

from props import c09


@st.composite
def case(draw, nmax=7, rmax=4, nsmax=16):
    c = {"nside": draw(sphere.nside(nsmax)), "box": draw(sphere.lonlat(nmax)),
         "center": draw(sphere.center()), "spin": draw(sphere.spin()),
         "rx": draw(st.integers(1, rmax)), "ry": draw(st.integers(1, rmax)),
         "f": draw(gen.field()), "w": draw(st.one_of(st.none(), gen.weights(zeros=True))),
         "args": draw(st.sampled_from(["all", "all", "all", "defaults"]))}
    if c["args"] == "defaults":
        c["box"].update({"yl": None, "ny": None})
        c["center"], c["spin"], c["rx"], c["ry"] = [0., 0.], 0., 2, 2
    return c


def setup(c, obj=None):
    import magpie.densegrid as dg
    o = dg.Heal2Polar() if obj is None else obj
    k = c["box"]
    o.setup_map(c["nside"])
    if c["args"] == "defaults":
        o.setup_box(k["xl"], k["nx"])
    else:
        o.setup_box(k["xl"], k["nx"], center=c["center"], alpha=c["spin"], y_length=k["yl"],
                    y_grid=k["ny"], rebin_x=c["rx"], rebin_y=c["ry"])
    return o


def subgrid(c):
    xl, nx, yl, ny = sphere.box_lengths(c["box"])
    xe = sphere.edges(-xl/2., xl/2., nx*c["rx"])
    ye = sphere.edges(-yl/2., yl/2., ny*c["ry"])
    y, x = np.meshgrid(sphere.mids(ye), sphere.mids(xe), indexing="ij")
    v = geom.apply(sphere.box_matrix(c["center"], c["spin"]), geom.vec(x, np.pi/2. - y))
    area = np.broadcast_to((np.sin(ye[1:]) - np.sin(ye[:-1]))[:, None], y.shape)
    return v, area, (ny, nx), (c["ry"], c["rx"])


def run(c, ctx):
    o = setup(c)
    c09.compare(c, ctx, o, *subgrid(c))
    k = c["box"]
    ctx.label("y_length default" if k["yl"] is None else "y_length given",
              "y_grid default" if k["ny"] is None else "y_grid given")
    if k["yl"] is None and k["xl"] > np.pi:
        ctx.label("y_length capped")
    # the grid is centred on the origin of the box coordinates
    xl, nx, yl, ny = sphere.box_lengths(k)
    X, Y = np.meshgrid(sphere.mids(sphere.edges(-xl/2., xl/2., nx)),
                       sphere.mids(sphere.edges(-yl/2., yl/2., ny)))
    ctx.close(o.x2d, X, "x2d")
    ctx.close(o.y2d, Y, "y2d")


@clause("C10", "subgrid_mean", strategy=case(), quick=1500, thorough=40000, shards=5, rule=c09.RULE)
def small(c, ctx):
    run(c, ctx)


@clause("C10", "large", strategy=case(16, 5, 256), quick=100, thorough=3000, shards=3, rule=c09.RULE)
def large(c, ctx):
    run(c, ctx)
