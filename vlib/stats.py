"""Statistical oracles with proven false alarm probabilities.

Each test alone rejects the right distribution with a probability below 1e-13
(Dvoretzky-Kiefer-Wolfowitz, Hoeffding and Bernstein inequalities), so that a run
of a million tests gives a false alarm with a probability below 1e-7. (Runs use
fixed seeds, so a run on the unchanged tree gives the same result every time.)"""
import numpy as np

P = 1e-13
LOG = np.log(2./P)


def ks_limit(n):
    return np.sqrt(LOG/(2.*n))


def uniform(ctx, u, what, tol=0., bins=True):
    """The sample u follows the uniform distribution on [0, 1]."""
    u = np.sort(np.asarray(u, dtype=float))
    n = len(u)
    ctx.check(np.all(np.isfinite(u)), "%s: not finite", what)
    ctx.check(u[0] >= -tol and u[-1] <= 1. + tol, "%s: from %r to %r of the range", what, float(u[0]), float(u[-1]))
    k = np.arange(n)
    d = max(np.max(u - k/n), np.max((k + 1.)/n - u))
    ctx.check(d <= ks_limit(n), "%s: the distribution differs from the uniform one by %.4f (%d values, limit %.4f)",
              what, d, n, ks_limit(n))
    edge = LOG/n
    if edge < 0.5:
        ctx.check(u[0] <= edge + tol and u[-1] >= 1. - edge - tol,
                  "%s: only from %r to %r of the range is reached by %d values", what, float(u[0]), float(u[-1]), n)
    if bins and n >= 2000:
        m = 20
        c = np.bincount(np.clip((u*m).astype(int), 0, m - 1), minlength=m)
        p = 1./m
        dev = bernstein(n, p, P/m)
        ctx.check(np.all(np.abs(c - n*p) <= dev + 1.), "%s: %r values in twentieths of the range (expected %g +- %g)",
                  what, c.tolist(), n*p, dev)


def bernstein(n, p, prob):
    """Largest deviation of a binomial count, but for that probability."""
    L = np.log(2./prob)
    v = n*p*(1. - p)
    return L/3. + np.sqrt(L*L/9. + 2.*L*v)


def rate(ctx, count, n, p, what):
    """A count of n independent events of probability p."""
    dev = bernstein(n, p, P)
    ctx.check(abs(count - n*p) <= dev, "%s: %d of %d, expected %.1f +- %.1f", what, count, n, n*p, dev)


def poisson_binomial(ctx, count, p, what):
    """A count of independent events with probabilities p."""
    p = np.asarray(p, dtype=float)
    L = LOG
    dev = L/3. + np.sqrt(L*L/9. + 2.*L*np.sum(p*(1. - p)))
    ctx.check(abs(count - p.sum()) <= dev + 1e-9, "%s: %d, expected %.1f +- %.1f", what, count, p.sum(), dev)


def mean(ctx, x, want, lo, hi, what):
    """The mean of values known to lie in [lo, hi] (Hoeffding)."""
    x = np.asarray(x, dtype=float)
    t = (hi - lo)*np.sqrt(LOG/(2.*x.size))
    ctx.check(abs(x.mean() - want) <= t + 1e-12*abs(want), "%s: the mean is %r, expected %r +- %r", what,
              float(x.mean()), float(want), float(t))


def independent(ctx, us, what):
    """Pairs of uniform variables have no (rank) correlation, along themselves
    (successive values) and among each other."""
    n = len(us[0])
    t = np.sqrt(2.*LOG/n)
    for i in range(len(us)):
        a = 2.*us[i] - 1.
        if n > 100:
            r = float(np.mean(a[1::2][:n//2]*a[::2][:n//2]))
            lim = np.sqrt(2.*LOG/(n//2))
            ctx.check(abs(r) <= lim, "%s: successive values of coordinate %d correlate (%.4f)", what, i, r)
        for j in range(i + 1, len(us)):
            b = 2.*us[j] - 1.
            r = float(np.mean(a*b))
            ctx.check(abs(r) <= t, "%s: coordinates %d and %d correlate (%.4f, limit %.4f)", what, i, j, r, t)
            # and no other dependence that shows in the quarters
            q = float(np.mean(np.cos(2.*np.pi*us[i])*np.cos(2.*np.pi*us[j])))
            ctx.check(abs(q) <= t, "%s: coordinates %d and %d depend on each other (%.4f)", what, i, j, q)
            if n >= 20:
                # nor the same values in another order
                A = np.sort(us[i])
                for B in (np.sort(us[j]), np.sort(1. - us[j])):
                    ctx.check(np.mean(np.abs(A - B) < 1e-7) < 0.5, "%s: coordinates %d and %d are the same values",
                              what, i, j)
