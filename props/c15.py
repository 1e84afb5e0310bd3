"""C15: rotations of the sphere are rigid and do what they say."""
import numpy as np
from hypothesis import assume, strategies as st

from vlib import gen, geom, points
from vlib.core import Skip, clause

PI = np.pi
TWO = 2.*PI


@st.composite
def direction(draw):
    kind = draw(st.sampled_from(["any", "any", "any", "any", "pole", "equator", "meridian"]))
    if kind == "pole":
        return [draw(gen.phi()), draw(st.sampled_from([0., PI]))]
    if kind == "equator":
        return [draw(gen.phi()), PI/2.]
    if kind == "meridian":
        return [draw(st.sampled_from([0., TWO, PI])), draw(gen.theta())]
    t = draw(gen.theta())
    return [draw(gen.phi()), t if t in (0., PI) or 1e-4 < t < PI - 1e-4 else 0.5]


@st.composite
def cloud(draw, *special):
    pts = draw(st.lists(direction(), min_size=1, max_size=8))
    for s in special:
        pts.append(list(s))
        pts.append([(s[0] + PI) % TWO, PI - s[1]])
    return pts


@st.composite
def pair(draw):
    a, b = draw(direction()), draw(direction())
    kind = draw(st.sampled_from(["any", "any", "any", "meridian", "near", "parallel", "tiny"]))
    if kind == "meridian":
        b[0] = a[0]
        if draw(st.booleans()):
            a[1], b[1] = (0., PI) if draw(st.booleans()) else (PI, 0.)
    if kind == "parallel":
        b[1] = a[1]
    if kind == "tiny":
        d = 10.**-draw(st.integers(3, 8))
        b = [min(TWO, a[0] + d*draw(st.sampled_from([0., 1., 2.]))),
             min(PI, max(0., a[1] + d*draw(st.sampled_from([-1., 0., 1.]))))]
    if kind == "near":
        b = [min(TWO, a[0] + draw(gen.pos(1e-3, 0.1))), min(PI, max(0., a[1] + draw(gen.num(-0.1, 0.1))))]
    return a, b


def tol(t, extra=0.):
    """Angular distance at which results with colatitude t must agree."""
    return np.where(np.sin(t) > 1e-3, 2e-11, 1e-7) + extra


def result(ctx, out, n, what):
    p, t = out
    ctx.shape(p, (n,), what + ": longitudes")
    ctx.shape(t, (n,), what + ": colatitudes")
    ctx.check(np.all(np.isfinite(p)) and np.all(np.isfinite(t)), "%s is not finite: %r %r", what, p, t)
    ctx.inside(p, 0., TWO, what + ": longitude", tol=1e-15)
    ctx.inside(t, 0., PI, what + ": colatitude")
    return geom.vec(p, t)


def near(sep):
    """The plane through two directions this far apart is known to rounding over sep."""
    return 2e-15/sep if sep > 0. else 0.


def compare(ctx, out, M, p, t, what, pole=None, extra=0.):
    got = result(ctx, out, len(p), what)
    want = geom.apply(M, geom.vec(p, t))
    d = geom.separation(got, want)
    wt = np.arctan2(np.hypot(want[:, 0], want[:, 1]), want[:, 2])
    lim = tol(wt, extra)
    if pole is not None:        # it goes through the pole, where colatitudes carry 1e-8
        lim = np.where(np.abs(geom.vec(p, t) @ pole) > 1. - 1e-6, 1e-7, lim)
    bad = d > lim
    if np.any(bad):
        k = int(np.argmax(bad))
        ctx.check(False, "%s takes (%r, %r) to (%r, %r), %.3g from %r", what, float(p[k]), float(t[k]),
                  float(out[0][k]), float(out[1][k]), float(d[k]),
                  [float(np.arctan2(want[k, 1], want[k, 0]) % TWO), float(wt[k])])
    return got


def singles(ctx, fn, p, t, out, what):
    """Scalars give the same."""
    for k in range(min(len(p), 4)):
        a, b = fn(float(p[k]), float(t[k]))
        ctx.check(np.ndim(a) == 0 and np.ndim(b) == 0, "%s of scalars: %r", what, a)
        d = geom.separation(geom.vec(a, b), geom.vec(out[0][k], out[1][k]))
        ctx.check(d < 1e-7, "%s of scalars differs by %.3g from that of an array", what, float(d))


def rigid(ctx, p, t, got, what):
    """Distances and orientation of the cloud are kept."""
    v = geom.vec(p, t)
    i, j = np.triu_indices(len(p), 1)
    ctx.close(geom.separation(got[i], got[j]), geom.separation(v[i], v[j]), what + ": distances", atol=3e-7, rtol=0.)
    if len(p) > 2:
        k = np.arange(len(p) - 2)
        def triple(w):
            return (w[k]*np.cross(w[k + 1], w[k + 2])).sum(axis=1)
        ctx.close(triple(got), triple(v), what + ": orientation", atol=1e-6, rtol=0.)


@st.composite
def rotate_case(draw):
    a, b = draw(pair())
    return {"a": a, "b": b, "pts": draw(cloud(a, b)), "default": draw(st.integers(0, 5)) == 0}


@clause("C15", "rotate", strategy=rotate_case(), quick=2000, thorough=60000, shards=3,
        rule="start and end neither the same nor opposite")
def rotate(c, ctx):
    from magpie import coords
    a, b = c["a"], c["b"]
    kw = {"phi_start": a[0], "theta_start": a[1]}
    if c["default"]:
        a, kw = [0., 0.], {}
    if a == b:
        raise Skip
    u, v = geom.vec(*a), geom.vec(*b)
    sep = geom.separation(u, v)
    along = a[0] == b[0] and a[1] != b[1]
    if sep < 1e-10 or sep > PI - 1e-4:
        if not along or sep < 1e-10:
            raise Skip
    if along:           # also between opposite poles, along the meridian
        M = geom.about(np.array([-np.sin(a[0]), np.cos(a[0]), 0.]), b[1] - a[1])
    else:
        M = geom.about(np.cross(u, v), sep)
    p, t = np.array(c["pts"]).T.copy()
    fn = lambda x, y: coords.usphere_rotate(x, y, b[0], b[1], **kw)
    out = fn(p, t)
    got = compare(ctx, out, M, p, t, "rotating %r to %r" % (a, b), extra=near(sep))
    rigid(ctx, p, t, got, "rotation")
    singles(ctx, fn, p, t, out, "rotation")
    end = coords.usphere_rotate(a[0], a[1], b[0], b[1], **kw)
    ctx.check(geom.separation(geom.vec(*end), v) < 1e-7, "the start %r goes to %r instead of %r", a, end, b)
    if not along or sep < PI - 1e-4:
        n = np.cross(u, v)
        n /= np.sqrt(n @ n)
        axis = [float(np.arctan2(n[1], n[0]) % TWO), float(np.arccos(n[2]))]
        fixed = coords.usphere_rotate(axis[0], axis[1], b[0], b[1], **kw)
        ctx.check(geom.separation(geom.vec(*fixed), n) < 2e-7, "the axis %r moves to %r", axis, fixed)
        ctx.mark()
    back = coords.usphere_rotate(out[0], out[1], a[0], a[1], phi_start=b[0], theta_start=b[1])
    d = geom.separation(geom.vec(*back), geom.vec(p, t))
    ctx.check(np.all(d < 2e-7), "rotating back misses by %.3g", float(d.max()))
    ctx.label("along a meridian" if along else "oblique", "tiny" if sep < 1e-3 else "not tiny",
              "pole" if 0. in (np.sin(a[1]), np.sin(b[1])) or PI in (a[1], b[1]) or 0. in (a[1], b[1]) else "no pole")


@st.composite
def shift_case(draw):
    a, b = draw(pair())
    if draw(st.integers(0, 9)) == 0:
        b = list(a)
    return {"a": a, "b": b, "pts": draw(cloud(a, b))}


@clause("C15", "shift", strategy=shift_case(), quick=2000, thorough=60000, shards=3,
        rule="start and end differ in longitude and in colatitude")
def shift(c, ctx):
    from magpie import coords
    a, b = c["a"], c["b"]
    if a[1] != b[1] and abs(a[1] - b[1]) < 1e-10:
        raise Skip
    p, t = np.array(c["pts"]).T.copy()
    fn = lambda x, y: coords.usphere_shift(x, y, a[0], a[1], b[0], b[1])
    out = fn(p, t)
    got = compare(ctx, out, geom.shift_matrix(a[0], a[1], b[0], b[1]), p, t, "shifting %r to %r" % (a, b),
                  extra=near(abs(a[1] - b[1])))
    rigid(ctx, p, t, got, "shift")
    singles(ctx, fn, p, t, out, "shift")
    back = coords.usphere_shift(out[0], out[1], b[0], b[1], a[0], a[1])
    d = geom.separation(geom.vec(*back), geom.vec(p, t))
    ctx.check(np.all(d < 2e-7), "shifting back misses by %.3g", float(d.max()))
    ctx.label("same" if a == b else "moved", "one latitude" if a[1] == b[1] else "two latitudes")
    ctx.mark(a[0] != b[0] and a[1] != b[1])


@st.composite
def spin_case(draw):
    a = draw(direction())
    return {"a": a, "alpha": draw(gen.phi()), "beta": draw(gen.phi()), "pts": draw(cloud(a))}


@clause("C15", "spin", strategy=spin_case(), quick=2000, thorough=60000, shards=3,
        rule="a centre off the poles and an angle which is no multiple of a half turn")
def spin(c, ctx):
    from magpie import coords
    a, al = c["a"], c["alpha"]
    p, t = np.array(c["pts"]).T.copy()
    fn = lambda x, y: coords.usphere_spin(x, y, a[0], a[1], al)
    out = fn(p, t)
    got = compare(ctx, out, geom.about(geom.vec(*a), al), p, t, "spinning about %r by %r" % (a, al),
                  pole=geom.vec(*a))
    rigid(ctx, p, t, got, "spin")
    singles(ctx, fn, p, t, out, "spin")
    back = coords.usphere_spin(out[0], out[1], a[0], a[1], TWO - al)
    d = geom.separation(geom.vec(*back), geom.vec(p, t))
    ctx.check(np.all(d < 2e-7), "the complementary spin misses by %.3g", float(d.max()))
    two = coords.usphere_spin(out[0], out[1], a[0], a[1], c["beta"])
    one = coords.usphere_spin(p, t, a[0], a[1], min((al + c["beta"]) % TWO, TWO))
    d = geom.separation(geom.vec(*two), geom.vec(*one))
    ctx.check(np.all(d < 3e-7), "two spins differ from their sum by %.3g", float(d.max()))
    ctx.mark(1e-3 < a[1] < PI - 1e-3 and abs(np.sin(al)) > 1e-3)


@st.composite
def phi_case(draw):
    n = draw(st.integers(1, 9))
    d = draw(st.one_of(gen.phi(-TWO, TWO), st.sampled_from([0., TWO, -TWO, PI, -PI, 1e-12, -1e-12])))
    pts = [draw(st.one_of(gen.phi(), st.just(min(TWO, max(0., -d))), st.just(min(TWO, max(0., TWO - d)))))
           for _ in range(n)]
    return {"phi": pts, "d": d, "shape": draw(points.shape())}


@clause("C15", "phi_shift", strategy=phi_case(), quick=2500, thorough=60000,
        rule="a shift by an angle that takes some longitude beyond the range and others not")
def phi_shift(c, ctx):
    from magpie import coords
    p = points.arrange(c["phi"], c["shape"])
    d = c["d"]
    copy = p.copy()
    out, = points.agree(ctx, lambda x: coords.usphere_phi_shift(x, d), (p,), "longitude shift", angles=(0,))
    ctx.close(p, copy, "the input after the shift", atol=0.)
    ctx.inside(out, 0., TWO, "longitude", tol=1e-15)
    ctx.angle_close(points.flat(out), points.flat(p) + d, "shifted longitude", atol=1e-14)
    for back in (-d, TWO - d if d > 0. else -TWO - d):
        ctx.angle_close(points.flat(coords.usphere_phi_shift(out, back)), points.flat(p), "shift back", atol=2e-14)
    s = points.flat(p) + d
    ctx.label("shape:" + c["shape"])
    ctx.mark(np.any((s > TWO) | (s < 0.)) and np.any((s <= TWO) & (s >= 0.)))


@st.composite
def polar_case(draw):
    n = draw(st.integers(1, 9))
    d = draw(gen.phi().map(lambda v: v if 0. < v < TWO else 1.))
    return {"phi": [draw(st.one_of(gen.phi(), st.just(TWO - d))) for _ in range(n)],
            "d": d, "shape": draw(points.shape())}


@clause("C15", "rotate_polar", strategy=polar_case(), quick=2500, thorough=60000,
        rule="a rotation that takes some angle beyond the range and others not")
def rotate_polar(c, ctx):
    from magpie import coords
    p = points.arrange(c["phi"], c["shape"])
    d = c["d"]
    out, = points.agree(ctx, lambda x: coords.rotate_polar(x, d), (p,), "polar rotation", angles=(0,))
    ctx.inside(out, 0., TWO, "angle", tol=1e-15)
    ctx.angle_close(points.flat(out), points.flat(p) + d, "rotated angle", atol=1e-14)
    if 0. < TWO - d < TWO:
        ctx.angle_close(points.flat(coords.rotate_polar(out, TWO - d)), points.flat(p), "rotated back", atol=2e-14)
    s = points.flat(p) + d
    ctx.mark(np.any(s >= TWO) and np.any(s < TWO))


@st.composite
def large_case(draw):
    return {"n": draw(st.one_of(*[points.sizes()]*11, st.sampled_from([20011, 33000, 70001]))), "rng": draw(gen.seed()),
            "fn": draw(st.sampled_from(["rotate", "shift", "spin", "phi_shift", "rotate_polar"])),
            "a": draw(direction()), "b": draw(direction()), "alpha": draw(gen.phi()), "two": draw(st.booleans())}


@clause("C15", "large_arrays", strategy=large_case(), quick=300, thorough=6000, shards=2,
        rule="hundreds of points or more (all are)")
def large_arrays(c, ctx):
    """Many points at once move as few do."""
    from magpie import coords
    rng = np.random.RandomState(c["rng"])
    a, b, al, name = c["a"], c["b"], c["alpha"], c["fn"]
    n = c["n"]
    p, t = TWO*rng.uniform(size=n), np.arccos(rng.uniform(-1., 1., n))
    sep = geom.separation(geom.vec(*a), geom.vec(*b))
    if name == "rotate" and not 1e-9 < sep < PI - 1e-3 or name == "shift" and 0. < abs(a[1] - b[1]) < 1e-9:
        raise Skip
    if name in ("phi_shift", "rotate_polar"):
        if name == "rotate_polar" and not 0. < al < TWO:
            raise Skip
        fn = {"phi_shift": lambda x: coords.usphere_phi_shift(x, al), "rotate_polar": lambda x: coords.rotate_polar(x, al)}[name]
        got, want = points.large(ctx, fn, (p,), name, c["two"])
        ctx.angle_close(got[0], p + al, "%s of %d angles" % (name, n), atol=1e-13)
        ctx.angle_close(got[0], want[0], "%s of %d angles and of few" % (name, n), atol=1e-13)
    else:
        fn = {"rotate": lambda x, y: coords.usphere_rotate(x, y, b[0], b[1], phi_start=a[0], theta_start=a[1]),
              "shift": lambda x, y: coords.usphere_shift(x, y, a[0], a[1], b[0], b[1]),
              "spin": lambda x, y: coords.usphere_spin(x, y, a[0], a[1], al)}[name]
        got, want = points.large(ctx, fn, (p, t), name)
        d = geom.separation(geom.vec(*got), geom.vec(*want))
        ctx.check(np.all(d < 2e-7), "%s of %d points and of few differ by %.3g", name, n, float(d.max()))
        d = geom.separation(geom.vec(*got)[1:], geom.vec(*got)[:-1]) - geom.separation(geom.vec(p, t)[1:], geom.vec(p, t)[:-1])
        ctx.check(np.all(np.abs(d) < 3e-7), "%s of %d points changes distances by %.3g", name, n, float(np.abs(d).max()))
    ctx.label(name, "n>=2^10" if n >= 1024 else "n<2^10")
    ctx.mark()
