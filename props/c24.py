"""C24: subsamples draw from the sample, and stochastic weights are unbiased."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, points, stats
from vlib.core import clause

T = 1500        # repetitions


def sample_of(c):
    n = c["n"]
    a = 100 + 3*np.arange(n)
    if c["kind"] == "float":
        return a + 0.25
    if c["kind"] == "rows":
        return np.stack([a, a + 1], axis=1)
    if c["kind"] == "repeats":
        return a//6
    if c["kind"] == "strided":
        return np.repeat(a, 2)[::2]
    if c["kind"] == "text":
        return np.array(["s%d" % v for v in a])
    return a


KINDS = ("int", "int", "float", "rows", "repeats", "strided", "text")


def keys(s):
    """Elements as hashable values."""
    return [tuple(v.tolist()) if np.ndim(v) else v.item() if hasattr(v, "item") else v for v in s]


def subset(ctx, out, s, what):
    """Every element belongs to the sample, no more often than there."""
    have = {}
    for k in keys(s):
        have[k] = have.get(k, 0) + 1
    for k in keys(out):
        ctx.check(have.get(k, 0) > 0, "%s: %r does not belong to the sample, or too often", what, k)
        have[k] -= 1
    ctx.check(np.asarray(out).dtype == s.dtype, "%s: the type changes from %s to %s", what, s.dtype, np.asarray(out).dtype)


base = {"n": st.integers(2, 60), "kind": st.sampled_from(KINDS), "rng": gen.seed()}


@clause("C24", "shuffle", strategy=st.fixed_dictionaries(dict(base, n=st.integers(0, 60))), quick=1500, thorough=40000,
        rule="at least three elements")
def shuffle(c, ctx):
    from magpie import randoms
    s = sample_of(c)
    copy = s.copy()
    out = randoms.shuffle(s)
    ctx.check(np.array_equal(s, copy), "the sample was modified")
    ctx.shape(out, s.shape, "shuffle")
    subset(ctx, out, s, "shuffle")
    if c["n"] > 20 and c["kind"] != "repeats":
        ctx.check(not np.array_equal(out, s), "%d elements stay in order", c["n"])
    ctx.mark(c["n"] > 2)


@clause("C24", "draw", strategy=st.fixed_dictionaries(dict(base, k=gen.frac())), quick=1500, thorough=40000,
        rule="a proper subset of at least two elements")
def draw(c, ctx):
    from magpie import randoms
    s = sample_of(c)
    copy = s.copy()
    k = min(int(c["k"]*c["n"]), c["n"] - 1)
    out = randoms.random_draw(s, k)
    ctx.check(np.array_equal(s, copy), "the sample was modified")
    ctx.shape(out, (k,) + s.shape[1:], "draw")
    subset(ctx, out, s, "draw")
    prob = np.random.RandomState(c["rng"]).uniform(0.1, 1., c["n"])
    pc = prob.copy()
    out = randoms.random_prob_draw(s, prob, size=k)
    ctx.check(np.array_equal(s, copy) and np.array_equal(prob, pc), "the arguments were modified")
    ctx.shape(out, (k,) + s.shape[1:], "probabilistic draw of a given size")
    subset(ctx, out, s, "probabilistic draw of a given size")
    out = randoms.random_prob_draw(s, prob)
    subset(ctx, out, s, "probabilistic draw")
    ctx.check(len(randoms.random_prob_draw(s, np.zeros(c["n"]))) == 0, "elements of probability 0 are kept")
    ctx.check(len(randoms.random_prob_draw(s, np.ones(c["n"]))) == c["n"], "elements of probability 1 are lost")
    mix = np.where(prob < 0.5, 0., 1.)
    out = randoms.random_prob_draw(s, mix)
    ctx.check(sorted(map(str, keys(out))) == sorted(map(str, keys(s[mix == 1.]))), "not the elements of probability 1")
    ctx.mark(2 <= k < c["n"])


def table(n, T, fn):
    """Counts of element i at place k (elements not drawn are not counted)."""
    m = np.zeros((n, n), dtype=int)
    pair = np.zeros((n, n), dtype=int)
    for _ in range(T):
        out = fn()
        m[out, np.arange(len(out))] += 1
        pair[np.ix_(out, out)] += 1
    return m, pair


stat = {"n": st.integers(2, 9), "k": st.integers(1, 8), "rng": gen.seed()}


@clause("C24", "shuffle_rates", strategy=st.fixed_dictionaries(stat), quick=60, thorough=1500, shards=2,
        rule="at least three elements, %d repetitions" % T)
def shuffle_rates(c, ctx):
    from magpie import randoms
    n = c["n"]
    s = np.arange(n)
    m, _ = table(n, T, lambda: randoms.shuffle(s))
    for i in range(n):
        for k in range(n):
            stats.rate(ctx, m[i, k], T, 1./n, "element %d at place %d of a shuffle" % (i, k))
    if n == 3:
        seen = {}
        for _ in range(T):
            o = tuple(randoms.shuffle(s).tolist())
            seen[o] = seen.get(o, 0) + 1
        ctx.check(len(seen) == 6, "only %d orders", len(seen))
        for o in seen:
            stats.rate(ctx, seen[o], T, 1./6., "the order %r" % (o,))
    ctx.mark(n > 2)


@clause("C24", "draw_rates", strategy=st.fixed_dictionaries(stat), quick=60, thorough=1500, shards=2,
        rule="a proper subset, %d repetitions" % T)
def draw_rates(c, ctx):
    from magpie import randoms
    n, k = c["n"], min(c["k"], c["n"] - 1)
    s = np.arange(n)
    for fn, what in ((lambda: randoms.random_draw(s, k), "draw"),
                     (lambda: randoms.random_prob_draw(s, np.full(n, 0.4), size=k), "draw with equal probabilities")):
        m, pair = table(n, T, fn)
        for i in range(n):
            stats.rate(ctx, m[i].sum(), T, k/n, "element %d in a %s" % (i, what))
            for q in range(k):
                stats.rate(ctx, m[i, q], T, 1./n, "element %d at place %d of a %s" % (i, q, what))
            for j in range(i):
                stats.rate(ctx, pair[i, j], T, k*(k - 1.)/(n*(n - 1.)), "elements %d and %d in a %s" % (i, j, what))
    ctx.mark()


@clause("C24", "long_samples", strategy=st.fixed_dictionaries(
    {"n": st.one_of(st.integers(10, 150), st.sampled_from([32, 33, 64, 65, 100, 128, 129, 256, 300])),
     "k": st.floats(0.02, 0.98), "rng": gen.seed(), "places": st.lists(st.floats(0., 0.999), min_size=3, max_size=3)}),
        quick=60, thorough=1500, shards=2, rule="all (600 repetitions)")
def long_samples(c, ctx):
    """In long samples too, each element may come anywhere, and neighbours part."""
    from magpie import randoms
    n = c["n"]
    s = np.arange(n)
    k = min(max(int(c["k"]*n), 1), n - 1)
    fns = {"shuffle": (lambda: randoms.shuffle(s), n), "draw": (lambda: randoms.random_draw(s, k), k),
           "draw with equal probabilities": (lambda: randoms.random_prob_draw(s, np.full(n, 0.3), size=k), k),
           "draw by probability": (lambda: randoms.random_prob_draw(s, np.full(n, 0.6)), None)}
    for what, (fn, m) in fns.items():
        reps = 600
        hit = np.zeros(n)
        rows = []
        for _ in range(reps):
            o = fn()
            rows.append(o)
            hit[o] += 1
        p = m/n if m is not None else 0.6
        for e in (0, 1, n - 2, n - 1) + tuple(int(v*n) for v in c["places"]):
            stats.rate(ctx, hit[e], reps, p, "element %d of %d in a %s" % (e, n, what))
        if m is None:
            continue
        rows = np.array(rows)
        for q in {0, m - 1, m//2} | {int(v*m) for v in c["places"]}:
            col = rows[:, q]
            # places and elements by thirds, and each element at its own place
            for t in range(3):
                lo, hi = t*n//3, (t + 1)*n//3
                stats.rate(ctx, np.sum((col >= lo) & (col < hi)), reps, (hi - lo)/n,
                           "elements %d to %d at place %d of a %s of %d" % (lo, hi - 1, q, what, n))
            e = n - 1 if q == m - 1 else q
            stats.rate(ctx, np.sum(col == e), reps, 1./n, "element %d at place %d of a %s of %d" % (e, q, what, n))
        ctx.check(np.array_equal(np.sort(rows, axis=1)[:, 1:] > np.sort(rows, axis=1)[:, :-1],
                                 np.ones((reps, m - 1), bool)), "a %s repeats elements", what)
        follow = np.sum(rows[:, 1:] == rows[:, :-1] + 1)
        stats_lim = 8.*np.sqrt(reps*max(m - 1, 1)/n) + 40.
        ctx.check(abs(follow - reps*(m - 1)/n) <= stats_lim + 8.*np.sqrt(follow), "%d pairs of a %s of %d follow each other as in the sample",
                  follow, what, n)
        ctx.check(len({tuple(r) for r in rows.tolist()}) > 1 or m*n < 4, "every %s is the same", what)
    ctx.mark()


@clause("C24", "large_samples", strategy=st.fixed_dictionaries(
    {"n": st.one_of(st.integers(300, 6000), st.sampled_from([1000, 1024, 2048, 4096, 5000, 10000, 20001, 70000])),
     "k": st.one_of(st.floats(0.05, 0.95), st.sampled_from([0.5, 0.9, 1.])), "parts": st.integers(2, 7),
     "kind": st.sampled_from(KINDS), "rng": gen.seed()}),
        quick=80, thorough=2500, shards=2, rule="all")
def large_samples(c, ctx):
    """One subsample of a large sample: every part of the sample is spread over
    every part of the subsample."""
    from magpie import randoms
    n = c["n"]
    k = min(max(int(c["k"]*n), 50), n - 1)
    s = sample_of(c)
    copy = s.copy()
    ident = np.arange(n)
    fns = {"shuffle": (lambda a: randoms.shuffle(a), n), "draw": (lambda a: randoms.random_draw(a, k), k),
           "draw with equal probabilities": (lambda a: randoms.random_prob_draw(a, np.full(n, 0.3), size=k), k),
           "draw by probability": (lambda a: randoms.random_prob_draw(a, np.full(n, 0.6)), None)}
    cut = [q*n//c["parts"] for q in range(c["parts"] + 1)]
    for what, (fn, m) in fns.items():
        o = np.asarray(fn(ident))
        if n <= 6000:
            v = fn(s)
            if m is not None:
                ctx.shape(v, (m,) + s.shape[1:], what)
            subset(ctx, v, s, what)
        ctx.check(np.array_equal(s, copy), "the sample was modified")
        if m is not None:
            ctx.shape(o, (m,), what)
        m = len(o)
        ctx.check(len(np.unique(o)) == m, "a %s of %d repeats elements", what, n)
        lim = np.sqrt(stats.LOG*m/2.)
        for a, b in zip(cut[:-1], cut[1:]):         # parts of the sample in the subsample
            tot = int(np.sum((o >= a) & (o < b)))
            p = (b - a)/n
            ctx.check(abs(tot - m*p) <= lim, "elements %d to %d of %d make up %d of the %d elements of a %s",
                      a, b - 1, n, tot, m, what)
            for u in range(c["parts"]):             # ... and in its parts
                x, y = u*m//c["parts"], (u + 1)*m//c["parts"]
                got = int(np.sum((o[x:y] >= a) & (o[x:y] < b)))
                # given the number of elements, their places are random
                q = tot/m
                ctx.check(abs(got - (y - x)*q) <= np.sqrt(stats.LOG*(y - x)/2.),
                          "elements %d to %d of %d: %d of them at places %d to %d of a %s of %d", a, b - 1, n, got, x, y - 1,
                          what, m)
        if m > 100:
            d = np.diff(o.astype(float))
            follow = int(np.sum(d == 1.))
            ctx.check(follow <= 30 + 0.02*m, "%d pairs of a %s of %d follow each other as in the sample", follow, what, n)
            up = int(np.sum(d > 0.))
            # the number of ascents of a random order has variance (m + 1)/12
            ctx.check(abs(up - 0.5*(m - 1)) <= np.sqrt(2.*stats.LOG*(m + 1.)/12.)*1.5 + 10., "%d ascents in a %s of %d elements",
                      up, what, m)
            ctx.check(np.mean(np.abs(d)) > 0.2*n, "neighbours in a %s of %d are %g apart on average", what, n, np.mean(np.abs(d)))
    ctx.label(c["kind"])
    ctx.mark()


@clause("C24", "prob_draw_rates", strategy=st.fixed_dictionaries(
    {"n": st.integers(2, 7), "p": st.lists(st.one_of(gen.frac(), st.floats(0., 1.)), min_size=7, max_size=7),
     "scalar": st.booleans(), "rng": gen.seed()}), quick=60, thorough=1500, shards=2,
    rule="probabilities strictly between 0 and 1 that differ, %d repetitions" % T)
def prob_draw_rates(c, ctx):
    from magpie import randoms
    n = c["n"]
    p = np.array(c["p"][:n])
    arg = p
    if c["scalar"]:
        p[:] = p[0]
        arg = float(p[0])
    s = np.arange(n)
    m, pair = table(n, T, lambda: randoms.random_prob_draw(s, arg))
    for i in range(n):
        stats.rate(ctx, m[i].sum(), T, p[i], "element %d of probability %g" % (i, p[i]))
        for j in range(i):
            stats.rate(ctx, pair[i, j], T, p[i]*p[j], "elements %d and %d together" % (i, j))
    # the order of what is kept is random
    a, b = (int(v) for v in np.argsort(p)[-2:])
    both, first = 0, 0
    for _ in range(T):
        o = randoms.random_prob_draw(s, arg).tolist()
        if a in o and b in o:
            both += 1
            first += o.index(a) < o.index(b)
    if both > 50:
        stats.rate(ctx, first, both, 0.5, "order of two kept elements")
    ctx.mark(np.any((p > 0.01) & (p < 0.99)) and np.ptp(p) > 0.01)


@clause("C24", "sized_prob_draw", strategy=st.fixed_dictionaries(
    {"n": st.integers(60, 400), "f": st.floats(0.02, 0.15), "ratio": st.sampled_from([2., 3., 5.]),
     "share": st.sampled_from([0.3, 0.5]), "scale": st.sampled_from([1., 0.3, 1e-3]), "rng": gen.seed()}),
    quick=60, thorough=1500, rule="two classes of elements (all are)")
def sized_prob_draw(c, ctx):
    """With a given size, elements are drawn in proportion to their probability
    (as long as few are drawn)."""
    from magpie import randoms
    n = c["n"]
    k = max(2, int(c["f"]*n))
    prob = np.where(np.arange(n) < c["share"]*n, 1., 1./c["ratio"])*c["scale"]
    s = np.arange(n)
    reps = max(100, 20000//n)
    hit = np.zeros(n, dtype=int)
    for _ in range(reps):
        o = randoms.random_prob_draw(s, prob, size=k)
        ctx.check(len(np.unique(o)) == k, "an element is drawn twice")
        hit[o] += 1
    hi = prob == prob.max()
    got = hit[hi].sum()/float(reps*k)
    want = prob[hi].sum()/prob.sum()
    lim = np.sqrt(stats.LOG/(2.*reps)) if k == 1 else np.sqrt(stats.LOG/(2.*reps*k))*1.5
    ctx.check(abs(got - want) <= lim + 0.03, "the more probable elements make up %.3f of the draws, expected %.3f",
              got, want)
    ctx.mark()


@st.composite
def weight_case(draw):
    one = st.one_of(gen.num(0., 6.), st.sampled_from([0., 1., 2., 0.5, 1e-9, 0.999]))
    if draw(st.integers(0, 2)) == 0:
        one = st.one_of(one, gen.num(-6., 6.), gen.num(-300., 300.),
                        st.sampled_from([2.**31 + 0.5, 2.**31 - 0.5, 1e6 + 0.25, 3e9, 1e12 + 0.125, -1e10, -0.5, -1.]))
    return {"w": draw(st.lists(one, min_size=1, max_size=8)),
            "rng": draw(gen.seed()), "shape": draw(points.shape()),
            "dtype": draw(st.sampled_from(["f8", "f8", "f4", "i8"]))}


@clause("C24", "integer_weights", strategy=weight_case(), quick=1000, thorough=30000,
        rule="a weight that is not whole")
def integer_weights(c, ctx):
    from magpie import randoms
    w = np.array(c["w"]).astype(c["dtype"])
    a = points.arrange(w, c["shape"])
    copy = a.copy()
    for f, name, top in ((randoms.stochastic_integer_weights, "integer", None),
                         (randoms.stochastic_binary_weights, "binary", 1.)):
        out = f(a)
        ctx.check(np.array_equal(a, copy), "the weights were modified")
        ctx.shape(out, a.shape, name + " weights")
        lo, hi = np.floor(gen.f64(a)), np.ceil(gen.f64(a))
        if top is not None:
            lo, hi = np.minimum(lo, top), np.minimum(hi, top)
        # (negative weights are not claimed to become 0 or 1)
        skip = (gen.f64(a) < 0.) if top is not None else np.zeros(a.shape, dtype=bool)
        ctx.check(np.all((out == lo) | (out == hi) | skip), "%s weights of %r: %r", name, a, out)
        for v in w[:3]:
            v = int(v) if c["dtype"] == "i8" else float(v)
            o = f(v)
            ctx.check(np.ndim(o) == 0, "%s weight of a scalar: %r", name, o)
            l, h = np.floor(v), np.ceil(v)
            if top is not None:
                if v < 0.:
                    continue
                l, h = min(l, top), min(h, top)
            ctx.check(o in (l, h), "%s weight of %r: %r", name, v, o)
    ctx.label(c["dtype"], "shape:" + c["shape"])
    ctx.mark(np.any(w != np.rint(w)))


@clause("C24", "weight_means", strategy=st.fixed_dictionaries(
    {"w": st.lists(st.one_of(gen.num(0., 4.), gen.frac(), gen.num(-4., 4.),
                             st.sampled_from([1e6 + 0.25, 2.**31 + 0.5, 3e9 + 0.75, 1e12 + 0.125, -1e6 + 0.25, 70000.3])),
                   min_size=1, max_size=6), "rng": gen.seed(),
     "scalar": st.booleans(), "two": st.booleans()}), quick=250, thorough=6000,
    rule="a weight that is not whole")
def weight_means(c, ctx):
    from magpie import randoms
    w = np.array(c["w"])
    n = 6000
    for f, name, cap in ((randoms.stochastic_integer_weights, "integer", None),
                         (randoms.stochastic_binary_weights, "binary", 1.)):
        if c["scalar"]:
            v = float(w[0])
            out = np.array([[f(v) for _ in range(1500)]])
            want = w[:1]
        else:
            a = np.repeat(w[:, None], n, axis=1)
            out = f(a if c["two"] else a.ravel()).reshape(a.shape)
            want = w
        for o, v in zip(out, want):
            p = v - np.floor(v)
            if cap is not None and v < 0.:
                continue            # not claimed to become 0 or 1
            if cap is not None:
                p = min(v, cap) if v < cap else 0.
                ctx.check(v < cap or np.all(o == 1.), "binary weights of %r: not 1", v)
                if v >= cap:
                    continue
            up = int(np.sum(o == np.floor(v) + 1.))
            if p == 0.:
                ctx.check(np.all(o == v), "%s weights of the whole weight %r change it", name, v)
            stats.rate(ctx, up, len(o), p, "%s weights of %r rounded up" % (name, v))
        if not c["scalar"] and len(want) > 1:
            # elements of an array are rounded independently
            u = out - np.floor(w)[:, None]
            p = w - np.floor(w)
            if cap is None:
                for i in range(1, len(w)):
                    stats.mean(ctx, (u[0] - p[0])*(u[i] - p[i]), 0., -1., 1., "correlation of two weights")
    ctx.mark(np.any(w != np.rint(w)))


@clause("C24", "rare_elements", strategy=st.fixed_dictionaries(
    {"n": st.integers(200, 1200), "share": st.sampled_from([0.05, 0.1, 0.3]), "ratio": st.sampled_from([20., 100., 300., 1000.]),
     "scale": st.sampled_from([1., 0.3, 1e-3, 1e-8]), "order": st.booleans(), "rng": gen.seed()}),
    quick=40, thorough=1000, rule="two classes of elements (all are)")
def rare_elements(c, ctx):
    """Few draws of a given size, of which very few are of elements that are much less probable."""
    from magpie import randoms
    n, ratio = c["n"], c["ratio"]
    top = max(4, int(c["share"]*n))
    prob = np.where(np.arange(n) < top, 1., 1./ratio)*c["scale"]
    s = np.arange(n)
    if c["order"]:
        p = np.random.RandomState(c["rng"]).permutation(n)
        prob, s = prob[p], s[p]
    k = max(1, top//20)
    rate = (n - top)/ratio/(top + (n - top)/ratio)
    reps = int(min(15000, max(1000, 400/(rate*k))))
    count = 0
    for _ in range(reps):
        count += int(np.sum(randoms.random_prob_draw(s, prob, size=k) >= top))
    want = reps*k*rate
    lim = stats.bernstein(reps*k, rate, stats.P) + 2.5*want*k/top
    ctx.check(abs(count - want) <= lim, "%d of %d draws are of the less probable elements, expected %.1f +- %.1f",
              count, reps*k, want, lim)
    ctx.mark()
