"""C13: remapping objects can be reused; results depend on the current setup.

Histories of operations on two objects of one class, each observation being
compared with a fresh object taken straight to the current setup.
"""
import copy

import numpy as np
from hypothesis import strategies as st

from props import c04, c05, c07, c08, c09, c10, c11, c12
from vlib import gen
from vlib.pristine import Server
from vlib.core import HarnessError, canon, clause

PI = np.pi


class Only:
    """Passes on the calls of some methods of an object, and drops the rest."""

    def __init__(self, obj, names):
        self._obj, self._names = obj, names

    def __getattr__(self, name):
        if name in self._names:
            return getattr(self._obj, name)
        return lambda *a, **k: None


def field(shape, seed):
    return np.random.RandomState(seed).uniform(-1., 1., shape)


def weight(shape, seed):
    return np.random.RandomState(seed + 1).uniform(0.5, 2., shape)


# ------------------------------------------------------------------ adapters
class Adapter:
    first = ()                      # methods of the first and second half of the setup
    second = ()
    mc = False
    observe = ("remap", "remap_w", "remap_missing")

    def run_setup(self, o, c, names):
        self.module_setup(c, Only(o, names))

    def weights(self, o, c, seed):
        np.random.seed(seed)
        o.get_weights(mc_size=int(c["size"]), verbose=False)

    def call(self, o, name, c, seed):
        np.random.seed(seed % 2**32)
        if name == "remap":
            return o.remap(field(self.shape(c), seed), verbose=False)
        if name == "remap_w":
            return o.remap(field(self.shape(c), seed), w=weight(self.shape(c), seed), verbose=False)
        if name == "remap_missing":
            return o.remap(gen.spoil({"frac": [0., 0.2, 0.6][seed % 3], "seed": seed, "mark": ["nan", "nan", "inf"][seed//3 % 3]},
                                     field(self.shape(c), seed))[0], verbose=False)
        if name == "mask":
            o.get_mask_in_bound(verbose=False)
            return o.mask_in_bound
        if name == "rotate":
            return o.rotate_polar(field(self.oshape(c), seed), 0.1 + (seed % 100)/20.)
        if name == "profile":
            return o.polar2radial(field(self.oshape(c), seed))
        if name == "profile_all":
            s = self.oshape(c)
            return o.polar2radial(field(s, seed), sigma=weight(s, seed + 5), w=weight(s, seed + 9))
        raise KeyError(name)


class BoxDense(Adapter):
    first, second = ("setup_box",), ("setup_polar",)
    observe = ("remap", "remap_w", "remap_missing", "mask", "rotate", "profile", "profile_all")
    parts = ("box",)
    strategy = staticmethod(lambda: c05.case(4, 3, 3, 2))

    def make(self):
        import magpie.densegrid as dg
        return dg.Box2Ring()

    def module_setup(self, c, o):
        c05.setup(c, o)

    def shape(self, c):
        return (c["box"]["ny"], c["box"]["nx"])

    def oshape(self, c):
        return (c["ang"]["np"], c["rad"]["nr"])


class BoxMC(BoxDense):
    second = ("setup_polar_lin", "setup_polar_log")
    mc = True
    strategy = staticmethod(lambda: c04.case(4, 3, 3, (20, 60)))

    def make(self):
        import magpie.montecarlo as m
        return m.Box2Ring()

    def module_setup(self, c, o):
        c04.setup(c, o)


class CapDense(Adapter):
    first, second = ("setup_map",), ("setup_polar_cap",)
    observe = ("remap", "remap_w", "remap_missing", "rotate", "profile", "profile_all")
    parts = ("nside",)
    strategy = staticmethod(lambda: c09.case(3, 3, 2, 4))

    def make(self):
        import magpie.densegrid as dg
        return dg.Heal2Ring()

    def module_setup(self, c, o):
        c09.setup(c, o)

    def shape(self, c):
        return (12*c["nside"]**2,)

    def oshape(self, c):
        return (c["cap"]["nb"], c["cap"]["na"])


class CapMC(CapDense):
    mc = True
    strategy = staticmethod(lambda: c12.ring(4, (20, 60)))

    def make(self):
        import magpie.montecarlo as m
        return m.Heal2Ring()

    def module_setup(self, c, o):
        c12.setup_ring(c, o)


class LonLatDense(Adapter):
    first, second = ("setup_map",), ("setup_box",)
    parts = ("nside",)
    strategy = staticmethod(lambda: c10.case(3, 2, 4))

    def make(self):
        import magpie.densegrid as dg
        return dg.Heal2Polar()

    def module_setup(self, c, o):
        c10.setup(c, o)

    def shape(self, c):
        return (12*c["nside"]**2,)


class LonLatMC(LonLatDense):
    mc = True
    strategy = staticmethod(lambda: c12.box(4, (20, 60)))

    def make(self):
        import magpie.montecarlo as m
        return m.Heal2Polar()

    def module_setup(self, c, o):
        c12.setup_box(c, o)


class Ortho(LonLatDense):
    observe = ("remap", "remap", "remap_w", "remap_missing", "transform")
    strategy = staticmethod(lambda: c11.case(4, 2, 4))

    def make(self):
        import magpie.densegrid as dg
        return dg.Heal2Ortho()

    def module_setup(self, c, o):
        c11.setup(c, o)

    def call(self, o, name, c, seed):
        if name == "transform":
            r = np.random.RandomState(seed)
            return o.transform(r.uniform(0., 2.*PI, 5), r.uniform(0., PI, 5))
        return Adapter.call(self, o, name, c, seed)


class ShellDense(Adapter):
    first, second = ("setup_cube",), ("setup_polar",)
    parts = ("cube",)
    observe = ("remap", "remap", "remap_missing")
    strategy = staticmethod(lambda: c08.case(3))

    def make(self):
        import magpie.densegrid as dg
        return dg.Cube2Shell()

    def module_setup(self, c, o):
        c08.setup(c, o)

    def shape(self, c):
        k = c["cube"]
        return (k["y"][2], k["x"][2], k["z"][2])


class ShellMC(ShellDense):
    second = ("setup_polar_lin", "setup_polar_log")
    observe = ("remap", "remap_w", "remap_missing")
    mc = True
    strategy = staticmethod(lambda: c07.case(3, 2, (1,), (10, 30)))

    def make(self):
        import magpie.montecarlo as m
        return m.Cube2Shell()

    def module_setup(self, c, o):
        c07.setup(c, o)


@st.composite
def view(draw):
    cam = [draw(gen.num(-5., 5.)) for _ in range(3)]
    d = [draw(gen.num(0.5, 3.))*draw(st.sampled_from([-1., 1.])) for _ in range(3)]
    return {"camera": cam, "point": [a + b for a, b in zip(cam, d)], "display": draw(gen.pos(0.1, 5.)),
            "spin": draw(st.one_of(st.just(0.), gen.phi()))}


class View(Adapter):
    first, second = ("setup",), ()
    parts = ()
    observe = ("transform", "reverse")
    strategy = staticmethod(view)

    def make(self):
        import magpie.densegrid as dg
        return dg.PointOfView()

    def module_setup(self, c, o):
        o.setup(list(c["camera"]), list(c["point"]), c["display"], spin=c["spin"])

    def call(self, o, name, c, seed):
        r = np.random.RandomState(seed)
        a = [r.uniform(-4., 4., 5) for _ in range(3)]
        if name == "transform":
            return o.transform(*a)
        return o.reverse(a[0], a[1], np.abs(a[2]) + 0.5)


ADAPTERS = {a.__name__: a() for a in (BoxDense, BoxMC, CapDense, CapMC, LonLatDense, LonLatMC, Ortho,
                                      ShellDense, ShellMC, View)}
COUNTS = (("rad", "nr"), ("ang", "np"), ("cap", "na"), ("cap", "nb"), ("box", "nx"), ("box", "ny"))


def leaves(c, path=()):
    """Paths of the numbers and flags of a configuration."""
    out = []
    for k, v in (c.items() if isinstance(c, dict) else enumerate(c)):
        if isinstance(v, (dict, list)):
            out += leaves(v, path + (k,))
        elif isinstance(v, (int, float)) and k not in ("nside", "size", "full"):
            out.append(path + (k,))
    return out


def neighbour(ad, c, which, how):
    """The configuration with a single number changed, None if it is refused."""
    new = copy.deepcopy(c)
    paths = leaves(new)
    path = paths[which % len(paths)]
    box = holder(new, path)
    v = box[path[-1]]
    if isinstance(v, bool):
        box[path[-1]] = not v
    elif isinstance(v, int):
        box[path[-1]] = max(0, v + (1 if how > 0 else -1))
    else:
        box[path[-1]] = v*(1. + 0.2*how) if v else 0.1*abs(how)
    return accepted(ad, new)


def holder(c, path):
    for k in path[:-1]:
        c = c[k]
    return c


AXES = ((("x0", "y0"), ("x1", "y1"), ("nx", "ny")), (("px", "py"),), (("px", "pz"),), (("py", "pz"),),
        (("x", "y"),), (("x", "z"),), (("y", "z"),), (("rebin_r", "rebin_p"),), (("nr", "np"),), (("na", "nb"),),
        (("rebin_shell", "rebin_r"),))


def swapped(ad, c, which):
    """The configuration with two axes exchanged, or two of its whole numbers or coordinates."""
    new = copy.deepcopy(c)
    named, found = [], []
    for d in [new] + [v for v in new.values() if isinstance(v, dict)]:
        named += [(d, g) for g in AXES if all(a in d and b in d and d[a] != d[b] for a, b in g)]
        found += [(v, ((i, j),)) for v in d.values() if isinstance(v, list) and not isinstance(v[0], (list, str))
                  for i in range(len(v)) for j in range(i) if v[i] != v[j] and not (d is new.get("cube"))]
    found = named if named and (which % 2 or not found) else found
    if not found:
        return None
    d, g = found[which//2 % len(found)]
    for a, b in g:
        d[a], d[b] = d[b], d[a]
    return accepted(ad, new)


def accepted(ad, new):
    b, k = new.get("box", {}), new.get("cube", {})
    if "x0" in b and not (b["x0"] < b["x1"] and b["y0"] < b["y1"] and min(b["nx"], b["ny"]) > 0):
        return None
    if k and not all(k[a][0] < k[a][1] and k[a][2] > 0 for a in "xyz"):
        return None
    if "nside" in new and len(new.get("center", ())) == 2:
        # the Monte Carlo grids reject these only when their weights are calculated
        if not (0. <= new["center"][0] <= 2.*np.pi and 0. <= new["center"][1] <= np.pi):
            return None
        if not 0. <= new.get("spin", 0.) <= 2.*np.pi:
            return None
    try:
        ad.module_setup(new, ad.make())
    except Exception:
        return None
    return new


@st.composite
def history(draw, name):
    ad = ADAPTERS[name]
    n = draw(st.integers(1, 3))
    pool = [draw(ad.strategy()) for _ in range(n)]
    for c in pool:
        for k in ("f", "w", "rng"):
            c.pop(k, None)
    kind = draw(st.sampled_from(["apart", "counts", "near", "near"]))
    if kind == "near" and name == "ShellDense" and n > 1 and draw(st.booleans()):
        # periodic along some of the axes only
        images = draw(st.permutations([draw(st.sampled_from([[0, 1], [-1, 0], [-1, 1], [0, 2]])), [0, 0],
                                       draw(st.sampled_from([[0, 0], [0, 1], [-1, 1]]))]))
        pool[0].update({"px": images[0], "py": images[1], "pz": images[2], "args": "all"})
    if kind == "near":
        # setups that differ from the first in a single number, or by two that are exchanged
        for k in range(1, n):
            if draw(st.booleans()):
                new = swapped(ad, pool[0], draw(st.integers(0, 59)))
            else:
                new = neighbour(ad, pool[0], draw(st.integers(0, 60)),
                                draw(st.sampled_from([-4., -1., -0.1, 0.1, 1., 4.])))
            pool[k] = pool[0] if new is None else new
    if kind == "counts":
        # the same numbers of pixels, so that nothing fails by its shape
        for c in pool[1:]:
            for a, b in COUNTS:
                if a in c and isinstance(c[a], dict) and b in c[a]:
                    c[a][b] = pool[0][a][b]
            if "nside" in c:
                c["nside"] = pool[0]["nside"]
            for a in "xyz":
                if "cube" in c:
                    c["cube"][a][2] = pool[0]["cube"][a][2]
    ops = []
    if kind == "near" and n > 1 and draw(st.booleans()):
        # straight from one to the other
        ops = [["obs", 0, draw(st.sampled_from(ad.observe)), draw(st.integers(0, 10**6))],
               ["redo", 0, 1, draw(st.integers(0, 1)), draw(st.integers(0, 10**6))],
               ["obs", 0, draw(st.sampled_from(ad.observe)), draw(st.integers(0, 10**6))]]
    kinds = ["first", "second", "obs", "obs", "obs", "obs", "redo", "clean"] + (["weights"]*3 if ad.mc else [])
    for _ in range(draw(st.integers(3, 14))):
        kind = draw(st.sampled_from(kinds))
        who = draw(st.sampled_from([0, 0, 0, 0, 1]))
        if kind in ("first", "second"):
            ops.append([kind, who, draw(st.integers(0, n - 1))])
        elif kind == "redo":
            ops.append([kind, who, draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1)),
                        draw(st.integers(0, 10**6))])
        elif kind == "weights":
            ops.append([kind, who, draw(st.integers(0, 10**6))])
        elif kind == "obs":
            ops.append([kind, who, draw(st.sampled_from(ad.observe)), draw(st.integers(0, 10**6))])
        else:
            ops.append([kind, who])
    return {"cls": name, "pool": pool, "ops": ops, "start": [draw(st.sampled_from([True]*7 + [False])), draw(st.booleans())]}


def merged(ad, pool, a, b):
    """The configuration with the first half of pool[a] and the second of pool[b]."""
    c = copy.deepcopy(pool[b])
    for p in ad.parts:
        c[p] = copy.deepcopy(pool[a][p])
    if not ad.second:
        c = copy.deepcopy(pool[a])
    return c


def equal(a, b):
    """The same values (in any nesting of tuples)."""
    if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
        return (isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and len(a) == len(b)
                and all(equal(x, y) for x, y in zip(a, b)))
    if a is None or b is None:
        return a is None and b is None
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype == object or b.dtype == object:
        return a.shape == b.shape and all(equal(x, y) for x, y in zip(a.ravel(), b.ravel()))
    if a.dtype.kind in "US" or b.dtype.kind in "US":
        return a.shape == b.shape and bool(np.all(a == b))
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=1e-13, equal_nan=True)


def spoil(result, keep=()):
    """Overwrites the arrays of a result (but none that shares memory with keep)."""
    for a in result if isinstance(result, (tuple, list)) else [result]:
        if isinstance(a, (tuple, list)):
            spoil(a, keep)
        elif isinstance(a, np.ndarray) and a.flags.writeable and a.dtype.kind in "fiu" \
                and not any(isinstance(k, np.ndarray) and np.may_share_memory(a, k) for k in keep):
            a[...] = 77


def attempt(fn):
    try:
        return True, fn()
    except Exception as e:
        return False, type(e).__name__


SERVER = []


def pristine(request):
    """Results of a fresh object in a process which has not used the package yet."""
    name, conf, wseed, calls = request
    import warnings
    warnings.simplefilter("ignore")
    ad = ADAPTERS[name]
    out = []
    fresh = ad.make()
    ad.module_setup(conf, fresh)
    if wseed is not None:
        ad.weights(fresh, conf, wseed)
    with np.errstate(all="ignore"):
        for op, seed in calls:
            out.append(attempt(lambda: ad.call(fresh, op, conf, seed)))
    return ("ok", out)


def run(c, ctx):
    if not SERVER:
        SERVER.append(Server(pristine))
    ad = ADAPTERS[c["cls"]]
    asked = {}
    pool = c["pool"]
    objs = [ad.make(), ad.make()]
    state = [{"a": None, "b": None, "w": None, "n": 0} for _ in objs]
    kept = []
    compared = histories = 0

    def cfg(s):
        return merged(ad, pool, s["a"], s["b"])

    def ready(s):
        return s["a"] is not None and (s["b"] is not None or not ad.second)

    def setup(who, half, k):
        s, o = state[who], objs[who]
        if half == "second" and (s["a"] is None or not ad.second):
            return
        s["a" if half == "first" else "b"] = k
        if s["b"] is None and not ad.second:
            s["b"] = 0
        base = merged(ad, pool, s["a"], s["b"] if s["b"] is not None else s["a"])
        ad.run_setup(o, base, ad.first if half == "first" else ad.second)
        s["w"] = None
        s["n"] += 1
    for who in (0, 1):
        if c["start"][who]:
            setup(who, "first", 0)
            setup(who, "second", 0)
            if ad.mc:
                state[who]["w"] = 12345
                ad.weights(objs[who], cfg(state[who]), 12345)
    for op in c["ops"]:
        kind, who = op[0], op[1]
        s, o = state[who], objs[who]
        if kind in ("first", "second"):
            setup(who, kind, op[2])
        elif kind == "redo":
            setup(who, "first", op[2])
            setup(who, "second", op[3])
            if ad.mc:
                ad.weights(o, cfg(s), op[4])
                s["w"] = op[4]
        elif kind == "weights":
            if ready(s):
                ad.weights(o, cfg(s), op[2])
                s["w"] = op[2]
                s["n"] += 1
        elif kind == "clean":
            o.clean()
            new = ad.make()
            # other leftovers count when they change a result
            for key in sorted(k for k in vars(new) if not k.startswith("_")):
                ctx.check(key in vars(o) and equal(vars(o)[key], vars(new)[key]),
                          "clean() leaves %s different from a new object", key)
            state[who] = {"a": None, "b": None, "w": None, "n": s["n"] + 1}
        elif ready(s):
            conf = cfg(s)
            ok, got = attempt(lambda: ad.call(o, op[2], conf, op[3]))
            fresh = ad.make()
            ad.module_setup(conf, fresh)
            if s["w"] is not None:
                ad.weights(fresh, conf, s["w"])
            ok2, want = attempt(lambda: ad.call(fresh, op[2], conf, op[3]))
            ctx.check(ok == ok2, "%s %s, but on a fresh object with the same setup it %s", op[2],
                      "works" if ok else "fails (%s)" % got, "works" if ok2 else "fails (%s)" % want)
            if ok:
                ctx.check(equal(got, want), "%s differs from the result of a fresh object with the same "
                          "setup", op[2])
                was = copy.deepcopy(got)
                key = canon([conf, s["w"]])
                asked.setdefault(key, (conf, s["w"], []))[2].append((op[2], op[3], was))
                if op[2] != "mask" and op[3] % 3 == 0:
                    spoil(got)          # the caller uses its memory for something else
                    ctx.label("results overwritten by the caller")
                else:
                    kept.append((op[2], got, was))
                compared += 1
                histories += s["n"] > (3 if ad.mc else 2)
                ctx.label(op[2])
            else:
                ctx.label("rejected without weights")
            s["n"] += 1
    for conf, w, calls in list(asked.values())[-2:]:
        answer = SERVER[0].ask((c["cls"], conf, w, [k[:2] for k in calls]))
        if answer is None or answer[0] != "ok":
            raise HarnessError("pristine process: %s" % (answer,))
        for (op, seed, got), (ok, want) in zip(calls, answer[1]):
            ctx.check(ok and equal(got, want), "%s differs from the result of a fresh object in a new "
                      "process", op)
    for name, got, was in kept:
        ctx.check(equal(got, was), "an earlier result of %s was changed by a later call", name)
    ctx.mark(compared > 0 and histories > 0)


RULE = "some result was compared after a history of more than one setup or calculation"


def register(name, quick, thorough):
    @clause("C13", name, strategy=history(name), quick=quick, thorough=thorough, shards=3 if name == "ShellDense" else 1, tshards=2,
            rule=RULE)
    def fn(c, ctx):
        run(c, ctx)


for _n, _q in (("BoxDense", 1200), ("BoxMC", 500), ("CapDense", 800), ("CapMC", 400), ("LonLatDense", 800),
               ("LonLatMC", 400), ("Ortho", 800), ("ShellDense", 400), ("ShellMC", 400), ("View", 800)):
    register(_n, _q, _q*20)
