"""C29: progress reports are complete and monotone."""
import contextlib
import io
import re

import numpy as np
from hypothesis import strategies as st

from props import c04, c05, c07, c08, c09, c10, c11, c12
from props.c13 import equal
from vlib import gen
from vlib.core import clause


def parse(ctx, line, opt, n):
    """One refresh: (filled, percentage, index)."""
    text = line
    e = opt["explanation"]
    if e is not None:
        ctx.check(text.startswith(e), "refresh %r does not start with the explanation %r", line, e)
        text = text[len(e):]
        ctx.check(re.match(r"\s*:\s*", text), "refresh %r has no separator after the explanation", line)
        text = re.sub(r"^\s*:\s*", "", text, count=1)
    left = opt["left"] if opt["left"] is not None else opt["edges"]
    right = opt["right"] if opt["right"] is not None else opt["edges"]
    ctx.check(text.startswith(left), "refresh %r: the bar does not open with %r", line, left)
    text = text[len(left):]
    bar = text[:opt["length"]]
    k = len(bar) - len(bar.lstrip(opt["done"]))
    ctx.check(len(bar) == opt["length"] and bar == opt["done"]*k + opt["undone"]*(opt["length"] - k),
              "refresh %r: the bar %r is not %d markers, done and then undone", line, bar, opt["length"])
    text = text[opt["length"]:]
    ctx.check(text.startswith(right), "refresh %r: the bar does not close with %r", line, right)
    text = text[len(right):]
    m = re.match(r"^\s*(\d+)%\s*(?:\[(\d+)/(\d+)\])?\s*$", text)
    ctx.check(m is not None, "refresh %r: no percentage in %r", line, text)
    i = None if m.group(2) is None else int(m.group(2))
    if opt["indexing"]:
        ctx.check(i is not None and int(m.group(3)) == n, "refresh %r does not give the index of %d", line, n)
    else:
        ctx.check(i is None, "refresh %r gives an index that was not asked for", line)
    return k, int(m.group(1)), i


def verify(ctx, chunks, opt, n):
    """chunks: what was written in each step of the loop."""
    out = "".join(chunks)
    ctx.check(out.count("\n") == 1 and out.endswith("\n"), "%d newlines, the last character being %r",
              out.count("\n"), out[-1:])
    ctx.check(chunks[-1] != "", "nothing is written at the end")
    last = (-1, -1)
    steps = 0
    for i, c in enumerate(chunks):
        if c == "":
            continue
        steps += 1
        ctx.check(c.startswith("\r"), "step %d does not return to the start of the line: %r", i, c)
        for line in c.rstrip("\n").split("\r")[1:]:
            k, p, idx = parse(ctx, line, opt, n)
            done = (i + 1.)/n
            ctx.check(abs(k - done*opt["length"]) < 1. + 1e-9, "step %d of %d: %d of %d markers are filled",
                      i + 1, n, k, opt["length"])
            ctx.check(abs(p - 100.*done) < 1. + 1e-9, "step %d of %d: %d%%", i + 1, n, p)
            ctx.check(p < 100 or i == n - 1, "step %d of %d is already at 100%%", i + 1, n)
            ctx.check(k < opt["length"] or i == n - 1 or opt["length"] == 0,
                      "step %d of %d has a full bar", i + 1, n)
            ctx.check(k >= last[0] and p >= last[1], "step %d of %d goes back from %r to %r", i + 1, n, last, (k, p))
            ctx.check(idx is None or idx == i + 1, "step %d gives index %r", i + 1, idx)
            last = (k, p)
    ctx.check(last == (opt["length"], 100), "the bar ends with %d of %d markers and %d%%", last[0],
              opt["length"], last[1])
    return steps


MARKS = [("#", "_"), ("=", "-"), ("*", "."), ("@", "~")]
EDGES = ["|", "[", "<>", ""]


@st.composite
def bar_case(draw, nmax=400):
    n = draw(st.one_of(st.integers(1, 12), st.integers(1, nmax), st.sampled_from([49, 50, 51, 99, 100, 101, 29, 57, 58])))
    return {"n": n, "plain": draw(st.sampled_from([True, False, False])),
            "explanation": draw(st.sampled_from([None, "", "Remapping", "step two", "100 x"])),
            "indexing": draw(st.booleans()),
            "refresh": draw(st.one_of(st.integers(1, 12), st.integers(1, 2*nmax), st.just(n), st.just(n + 1))),
            "marks": draw(st.integers(0, len(MARKS) - 1)), "edges": draw(st.sampled_from(EDGES)),
            "left": draw(st.sampled_from([None, None, "(", "{{"])),
            "right": draw(st.sampled_from([None, None, ")", "}}"])),
            "length": draw(st.one_of(st.integers(1, 12), st.integers(1, 120), st.just(50)))}


@clause("C29", "bar", strategy=bar_case(), quick=2500, thorough=60000, shards=2,
        rule="a loop of more than one step")
def bar(c, ctx):
    from magpie import utils
    n = c["n"]
    if c["plain"]:
        kw = {}
        opt = {"explanation": None, "indexing": False, "edges": "|", "left": None, "right": None, "done": "#",
               "undone": "_", "length": 50}
        refresh = 50
        if c["indexing"]:
            kw["explanation"] = opt["explanation"] = "Working"
    else:
        d, u = MARKS[c["marks"]]
        opt = {"explanation": c["explanation"], "indexing": c["indexing"], "edges": c["edges"], "left": c["left"],
               "right": c["right"], "done": d, "undone": u, "length": c["length"]}
        kw = {"explanation": c["explanation"], "indexing": c["indexing"], "num_refresh": c["refresh"],
              "marker_done": d, "marker_undone": u, "bar_edges": c["edges"], "bar_edge_left": c["left"],
              "bar_edge_right": c["right"], "bar_length": c["length"]}
        refresh = c["refresh"]
    chunks = []
    for i in range(n):
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            utils.progress_bar(i, n, **kw)
        chunks.append(buf.getvalue())
    steps = verify(ctx, chunks, opt, n)
    lo = min(refresh, n)
    ctx.check(lo <= steps <= 2*lo + 1, "%d refreshes over %d steps, for %d asked for", steps, n, refresh)
    ctx.label("every step" if steps == n else "some steps", "default" if c["plain"] else "options",
              "indexed" if opt["indexing"] else "not indexed")
    ctx.mark(n > 1)


class Steps(io.TextIOBase):
    """Collects what is written in each step."""

    def __init__(self, n):
        self.chunks, self.i = [""]*n, 0

    def write(self, text):
        self.chunks[self.i] += text
        return len(text)


def long_loops(tier):
    runs = [(3000, 50), (10007, 7), (65537, 50), (100001, 50), (131072, 1000), (200000, 50), (333333, 3)]
    if tier == "thorough":
        runs += [(1000000, 50), (2000003, 20000)]
    for i, (n, r) in enumerate(runs):
        yield {"n": n, "indexing": i % 2 == 0, "refresh": r}


@clause("C29", "long_loop", enum=long_loops, budget=100., rule="a loop of more than a thousand steps (all are)")
def long_loop(c, ctx):
    from magpie import utils
    n = c["n"]
    out = Steps(n)
    with contextlib.redirect_stdout(out):
        for i in range(n):
            out.i = i
            utils.progress_bar(i, n, explanation="Long", indexing=c["indexing"], num_refresh=c["refresh"])
    opt = {"explanation": "Long", "indexing": c["indexing"], "edges": "|", "left": None, "right": None, "done": "#",
           "undone": "_", "length": 50}
    steps = verify(ctx, out.chunks, opt, n)
    ctx.check(c["refresh"] <= steps <= 2*c["refresh"] + 1, "%d refreshes over %d steps, for %d asked for", steps, n,
              c["refresh"])
    ctx.mark()


# ----------------------------------------------------------- verbose objects
KINDS = {
    "Box2Ring (mc)": (lambda: c04.case(4, 6, 4, (20,)), c04.setup),
    "Box2Ring (dense)": (lambda: c05.case(4, 6, 4, 2), c05.setup),
    "Cube2Shell (mc)": (lambda: c07.case(3, 5, (1,), (10,)), c07.setup),
    "Cube2Shell (dense)": (lambda: c08.case(3, 6), c08.setup),
    "Heal2Ring (dense)": (lambda: c09.case(4, 4, 2, 2), c09.setup),
    "Heal2Polar (dense)": (lambda: c10.case(4, 2, 2), c10.setup),
    "Heal2Ortho": (lambda: c11.case(4, 2, 2), c11.setup),
    "Heal2Ring (mc)": (lambda: c12.ring(2, (20,)), c12.setup_ring),
    "Heal2Polar (mc)": (lambda: c12.box(2, (20,)), c12.setup_box),
}


@st.composite
def object_case(draw):
    k = draw(st.sampled_from(sorted(KINDS)))
    return {"kind": k, "conf": draw(KINDS[k][0]()), "seed": draw(gen.seed()), "weighted": draw(st.booleans())}


def shape_of(c):
    k = c["conf"]
    if "box" in k and "x0" in k["box"]:
        return (k["box"]["ny"], k["box"]["nx"])
    if "cube" in k:
        return (k["cube"]["y"][2], k["cube"]["x"][2], k["cube"]["z"][2])
    return (12*k["nside"]**2,)


def reports(ctx, text, what):
    """Complete reports of loops in a text that may hold messages as well."""
    count = 0
    for line in text.split("\n"):
        parts = [p for p in line.split("\r") if "%" in p]
        if not parts:
            continue
        pct = [int(re.search(r"(\d+)%", p).group(1)) for p in parts]
        full = re.search(r"\|(.*)\|", parts[-1])
        ctx.check(all(a <= b for a, b in zip(pct, pct[1:])), "%s: the percentages %r go back", what, pct)
        ctx.check(pct[-1] == 100, "%s: the report ends at %d%%", what, pct[-1])
        ctx.check(full is not None and "_" not in full.group(1), "%s: the bar is not filled at the end: %r",
                  what, parts[-1])
        ctx.check(100 not in pct or set(pct[pct.index(100):]) == {100}, "%s: goes on after 100%%", what)
        count += 1
    return count


@clause("C29", "verbose", strategy=object_case(), quick=700, thorough=12000, shards=3,
        rule="a calculation that reports progress")
def verbose(c, ctx):
    setup = KINDS[c["kind"]][1]
    shape = shape_of(c)
    rng = np.random.RandomState(c["seed"])
    f = rng.uniform(-1., 1., shape)
    kw = {}
    if c["weighted"] and c["kind"] != "Cube2Shell (dense)":
        kw["w"] = rng.uniform(0.5, 2., shape)
    results, texts = [], []
    for loud in (False, True):
        o = setup(c["conf"])
        out, said = [], []

        def record(fn, *a, **k):
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                r = fn(*a, verbose=loud, **k)
            said.append((fn.__name__, buf.getvalue()))
            return r
        np.random.seed(c["seed"] % 2**32)
        if hasattr(o, "get_weights"):
            record(o.get_weights, mc_size=10)
        out.append(record(o.remap, f, **kw))
        if hasattr(o, "get_mask_in_bound"):
            record(o.get_mask_in_bound)
            out.append(np.array(o.mask_in_bound))
        if hasattr(o, "polar2radial"):
            out.append(record(o.polar2radial, np.nan_to_num(out[0])))
        results.append(out)
        texts.append(said)
    for name, t in texts[0]:
        ctx.check(t == "", "%s %s prints %r without being verbose", c["kind"], name, t[:80])
    for a, b in zip(*results):
        ctx.check(equal(a, b), "%s: the results depend on verbose", c["kind"])
    loops = 0
    for name, t in texts[1]:
        k = reports(ctx, t, "%s %s" % (c["kind"], name))
        if "(mc)" in c["kind"] and name in ("get_weights", "remap") or c["kind"] == "Cube2Shell (dense)" and name == "remap":
            ctx.check(k == 1, "%s %s: %d reports of progress instead of one", c["kind"], name, k)
        loops += k
    ctx.label(c["kind"])
    ctx.mark(loops > 0)


# ---------------------------------------------------------------- monotonicity
@st.composite
def seq(draw):
    kind = draw(st.sampled_from(["float", "int", "sorted", "sorted", "swap", "equal", "step"]))
    n = draw(st.one_of(st.integers(0, 9), st.integers(0, 9), st.integers(10, 40), st.sampled_from([100, 300, 1000])))
    if n > 40:
        # long and out of order in a single place, or not at all
        v = list(range(n)) if kind == "int" else [0.5*k for k in range(n)]
        if draw(st.booleans()):
            k = draw(st.one_of(st.integers(0, n - 2), st.sampled_from([0, 1, n - 3, n - 2])))
            v[k], v[k + 1] = v[k + 1], v[k]
        return {"v": v, "how": draw(st.sampled_from(["array", "list", "strided", "tuple"]))}
    if kind == "int":
        v = draw(st.lists(st.integers(-5, 5), min_size=n, max_size=n))
    else:
        v = draw(st.lists(st.floats(-1e6, 1e6, allow_subnormal=False), min_size=n, max_size=n))
    if kind in ("sorted", "swap", "step"):
        v = sorted(v)
    if kind == "swap" and n > 1:
        k = draw(st.integers(0, n - 2))
        v[k], v[k + 1] = v[k + 1], v[k]
    if kind == "equal" and n:
        v = [v[0]]*n
    if kind == "step" and n > 1:
        k = draw(st.integers(1, n - 1))
        v[k] = float(np.nextafter(v[k - 1], draw(st.sampled_from([-np.inf, np.inf]))))
    return {"v": v, "how": draw(st.sampled_from(["array", "list", "strided", "tuple"]))}


@clause("C29", "monotonic", strategy=seq(), quick=3000, thorough=60000, rule="at least two values")
def monotonic(c, ctx):
    from magpie import utils
    v = c["v"]
    a = {"array": np.array, "list": list, "tuple": tuple,
         "strided": lambda x: gen.layout(np.array(x), "S")}[c["how"]](v)
    want = all(v[i] <= v[i + 1] for i in range(len(v) - 1))
    got = utils.is_pos_monotonic(a)
    ctx.check(bool(got) == want, "%r is%s called non-decreasing", v, "" if got else " not")
    ctx.label("non-decreasing" if want else "decreasing somewhere", "ties" if len(set(v)) < len(v) else "distinct")
    ctx.mark(len(v) > 1)
