"""The property-based testing framework: clauses, the Hypothesis driver, the
per-run counters, and replay."""
import hashlib
import json
import math
import os
import time
import traceback

import numpy as np


class Violation(AssertionError):
    """The property does not hold on this case."""


class HarnessError(Exception):
    """The harness itself is wrong; never a violation."""


class Skip(Exception):
    """The case is outside the domain of the property (counted)."""


CLAUSES = {}          # property -> [Clause]


class Clause:
    def __init__(self, prop, name, fn, strategy=None, enum=None, quick=200,
                 thorough=3000, shards=1, tshards=None, budget=60., tbudget=600.,
                 fortran=None, rule=""):
        self.prop = prop
        self.name = name
        self.fn = fn
        self.strategy = strategy
        self.enum = enum
        self.quick = quick
        self.thorough = thorough
        self.shards = shards
        self.tshards = tshards or max(shards, 2 if enum is None else 1)
        self.budget = budget
        self.tbudget = tbudget
        self.fortran = fortran
        self.rule = rule


def clause(prop, name, strategy=None, **kw):
    """Registers fn(case, ctx) as one clause of a property. The strategy yields
    plain JSON-able values, so that a case can be replayed from a file."""
    def deco(fn):
        CLAUSES.setdefault(prop, []).append(
            Clause(prop, name, fn, strategy=strategy, **kw))
        return fn
    return deco


def _fmt(v):
    a = np.asarray(v)
    if a.size <= 12:
        return np.array2string(a, precision=10).replace("\n", " ")
    return "array%s" % (a.shape,)


class Ctx:
    """Collects what a single evaluation reports."""

    def __init__(self):
        self.labels = set()
        self.nontrivial = False

    # bookkeeping
    def label(self, *names):
        for n in names:
            self.labels.add(str(n))

    def mark(self, cond=True):
        """Calls the case non-trivial."""
        if cond:
            self.nontrivial = True

    # oracles
    def check(self, cond, msg, *args):
        if not bool(cond):
            raise Violation(msg % args if args else msg)

    def shape(self, got, want, what):
        if tuple(np.shape(got)) != tuple(want):
            raise Violation("%s: shape %s, expected %s"
                            % (what, np.shape(got), tuple(want)))

    def close(self, got, want, what, atol=1e-10, rtol=1e-9, nan=True):
        """Elementwise agreement; with nan=True NaNs must agree as well."""
        try:
            g = np.asarray(got, dtype=float)
        except (TypeError, ValueError):
            raise Violation("%s: not numeric: %r" % (what, type(got)))
        w = np.asarray(want, dtype=float)
        if g.shape != w.shape:
            raise Violation("%s: shape %s, expected %s"
                            % (what, g.shape, w.shape))
        tol = np.asarray(atol + rtol*np.abs(np.where(np.isfinite(w), w, 0.)))
        with np.errstate(all="ignore"):
            ok = np.abs(g - w) <= tol
        ok |= (g == w)
        if nan:
            ok |= np.isnan(g) & np.isnan(w)
        if not np.all(ok):
            bad = np.argwhere(~np.atleast_1d(ok))
            k = tuple(bad[0])
            raise Violation(
                "%s: %d of %d values differ; at %s got %r, expected %r"
                % (what, len(bad), ok.size, [int(i) for i in k],
                   float(np.atleast_1d(g)[k]), float(np.atleast_1d(w)[k])))

    def missing(self, got, finite, bad, clean, what, atol):
        """A field with missing (not finite) values: outputs that overlap them
        are not finite, outputs that do not are those of the finite field."""
        g = np.asarray(got, dtype=float)
        if g.shape != np.shape(bad):
            raise Violation("%s: shape %s, expected %s" % (what, g.shape, np.shape(bad)))
        if np.isfinite(g[bad]).any():
            raise Violation("%s: %d of %d outputs that overlap missing values are finite, e.g. at %s"
                            % (what, int(np.isfinite(g[bad]).sum()), int(bad.sum()),
                               np.argwhere(bad & np.isfinite(g))[0].tolist()))
        self.close(np.where(clean, g, 0.), np.where(clean, finite, 0.),
                   what + " (outputs without missing values)", atol=atol, rtol=0.)

    def angle_close(self, got, want, what, atol=1e-9):
        """Agreement of angles modulo 2 pi."""
        g = np.asarray(got, dtype=float)
        w = np.asarray(want, dtype=float)
        if g.shape != w.shape:
            raise Violation("%s: shape %s, expected %s" % (what, g.shape, w.shape))
        d = np.abs((g - w + np.pi) % (2.*np.pi) - np.pi)
        if not np.all(d <= atol):
            k = int(np.argmax(np.where(np.isnan(d), np.inf, d)))
            raise Violation("%s: angles differ by %r; got %r, expected %r"
                            % (what, float(np.ravel(d)[k]),
                               float(np.ravel(g)[k]), float(np.ravel(w)[k])))

    def inside(self, got, lo, hi, what, tol=0.):
        g = np.asarray(got, dtype=float)
        if not np.all((g >= np.asarray(lo) - tol) & (g <= np.asarray(hi) + tol)):
            bad = g[~((g >= np.asarray(lo) - tol) & (g <= np.asarray(hi) + tol))]
            raise Violation("%s: %d values outside the allowed range, e.g. %r"
                            % (what, bad.size, float(np.ravel(bad)[0])))

    def raises(self, fn, what):
        """The call must be rejected with an AssertionError or ValueError."""
        try:
            fn()
        except (AssertionError, ValueError) as e:
            if isinstance(e, Violation):
                raise
            return
        except Exception as e:      # rejected, but as an accident
            raise Violation("%s: failed with %s instead of being rejected: %s"
                            % (what, type(e).__name__, e))
        raise Violation("%s: was accepted" % what)

    def untouched(self, arr, copy, what):
        same = (arr.dtype == copy.dtype and arr.shape == copy.shape
                and arr.tobytes() == copy.tobytes())
        if not same:
            raise Violation("%s was modified" % what)


def canon(case):
    return json.dumps(case, sort_keys=True)


def case_hash(case):
    return hashlib.sha256(canon(case).encode()).hexdigest()[:16]


def describe(exc):
    if isinstance(exc, Violation):
        return str(exc)
    tb = traceback.extract_tb(exc.__traceback__)
    where = ""
    for fr in reversed(tb):
        if "/magpie/" in fr.filename:
            where = " at %s:%d" % (fr.filename, fr.lineno)
            break
    return "%s: %s%s" % (type(exc).__name__, exc, where)


class Recorder:
    """Counts what one worker evaluated."""

    def __init__(self, journal=None):
        self.evaluations = 0
        self.skipped = 0
        self.hashes = set()
        self.labels = {}
        self.samples = []
        self.failure = None         # (case, message)
        self.counting = True
        self.journal = journal

    def evaluate(self, cl, case):
        if self.journal is not None:
            self.journal.seek(0)
            self.journal.truncate()
            self.journal.write(canon(case))
            self.journal.flush()
        ctx = Ctx()
        try:
            run_case(cl, case, ctx)
        except Skip:
            if self.counting:
                self.skipped += 1
            return
        except HarnessError:
            raise
        except Exception as e:
            self.failure = (case, describe(e))
            raise
        finally:
            if self.journal is not None:
                self.journal.seek(0)
                self.journal.truncate()
                self.journal.flush()
        if not self.counting:
            return
        self.evaluations += 1
        for n in ctx.labels:
            self.labels[n] = self.labels.get(n, 0) + 1
        if ctx.nontrivial:
            self.hashes.add(case_hash(case))
            # spread the samples over the run
            n = len(self.hashes)
            if len(self.samples) < 3 or (n & (n - 1)) == 0 and len(self.samples) < 8:
                text = canon(case)
                self.samples.append(case if len(text) < 1500 else text[:1500])


def run_case(cl, case, ctx):
    import warnings
    seed = 0
    if isinstance(case, dict):
        seed = int(case.get("rng", 0)) & 0xffffffff
    np.random.seed(seed)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        cl.fn(case, ctx)


def run_clause(cl, tier, seed, shard, journal=None):
    """Runs one shard of a clause; returns a JSON-able result."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = 25

    rec = Recorder(journal)
    t0 = time.monotonic()
    quick = tier != "thorough"
    budget = cl.budget if quick else cl.tbudget
    limit = t0 + budget
    cut = [False]
    result_failure = None

    if cl.enum is not None:
        cases = cl.enum(tier)
        nsh = cl.shards if quick else cl.tshards
        for i, case in enumerate(cases):
            if i % nsh != shard:
                continue
            if time.monotonic() > limit:
                cut[0] = True
                break
            try:
                rec.evaluate(cl, case)
            except HarnessError:
                raise
            except Exception:
                result_failure = rec.failure
                break
    else:
        n = cl.quick if quick else cl.thorough
        strat = cl.strategy() if callable(cl.strategy) else cl.strategy
        digest = hashlib.sha256(("%s/%s/%d/%d" % (cl.prop, cl.name, seed, shard)).encode()).digest()
        hseed = int.from_bytes(digest[:6], "big")

        @hypothesis.seed(hseed)
        @settings(max_examples=n, deadline=None, database=None,
                  suppress_health_check=list(HealthCheck),
                  phases=[Phase.generate, Phase.shrink],
                  report_multiple_bugs=False, print_blob=False)
        @hypothesis.given(strat)
        def test(case):
            if rec.failure is None and time.monotonic() > limit:
                cut[0] = True
                return
            try:
                rec.evaluate(cl, case)
            except HarnessError:
                raise
            except Exception:
                rec.counting = False
                raise

        try:
            test()
        except HarnessError:
            raise
        except Exception as e:
            if rec.failure is None:
                raise HarnessError("generation failed: %s: %s"
                                   % (type(e).__name__, e)) from e
            result_failure = rec.failure
            # a shrunk case must fail when it is run on its own
            ctx = Ctx()
            again = None
            try:
                run_case(cl, result_failure[0], ctx)
            except Exception as e2:
                again = describe(e2)
            result_failure = (result_failure[0], again or result_failure[1],
                              again is not None)
    out = {
        "clause": cl.name, "shard": shard,
        "evaluations": rec.evaluations, "skipped": rec.skipped,
        "hashes": sorted(rec.hashes), "labels": rec.labels,
        "samples": rec.samples, "cut": cut[0],
        "wall_s": time.monotonic() - t0, "rule": cl.rule,
        "failure": None,
    }
    if result_failure is not None:
        out["failure"] = {"case": result_failure[0],
                          "message": result_failure[1],
                          "reproduced": result_failure[2] if len(result_failure) > 2 else True}
    return out
