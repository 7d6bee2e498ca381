"""Core of the property-based checks: facets, case context, violations."""
import contextlib
import hashlib
import json
import os
import shutil
import tempfile


class Violation(Exception):
    """The property is broken for this case."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class KnownHit(Exception):
    """A violation listed in known_findings.txt (never raised for anything else)."""


class HarnessError(Exception):
    """The check itself cannot run (missing tool or API): an error exit, not a violation."""


class Facet:
    """One executable statement of (part of) a property.

    name      : identifier, used in replay files
    strategy  : zero-argument callable returning a Hypothesis strategy of JSON-able cases
    check     : check(case, ctx); raises Violation / any exception from code under test
    quick, thorough : number of generated cases per tier
    shards    : number of processes the cases are split over
    corpus    : list of fixed cases that are always run first (regressions, corner cases)
    max_shrink: seconds allowed for shrinking
    """

    def __init__(self, name, strategy, check, quick=100, thorough=2000, shards=1,
                 corpus=(), rule=""):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough
        self.shards = shards
        self.corpus = list(corpus)
        self.rule = rule


def case_key(case):
    return hashlib.sha1(
        json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()


class Ctx:
    """Passed to a facet's check for one case."""

    def __init__(self, scratch, known, stats):
        self._scratch = scratch
        self._known = known
        self._stats = stats
        self._dirs = []
        self.is_nontrivial = False

    # --- bookkeeping
    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def label(self, *names):
        for n in names:
            self._stats[n] = self._stats.get(n, 0) + 1

    # --- scratch
    def tmp(self):
        d = tempfile.mkdtemp(dir=self._scratch)
        self._dirs.append(d)
        return d

    def cleanup(self):
        for d in self._dirs:
            shutil.rmtree(d, ignore_errors=True)

    # --- verdicts
    def fail(self, msg, key=None):
        if key is not None and key in self._known:
            self.label("known:" + key)
            raise KnownHit(key)
        raise Violation(msg, key)

    def check(self, cond, msg, key=None):
        if not cond:
            self.fail(msg() if callable(msg) else msg, key)

    def close(self, a, b, msg="", rtol=1e-9, atol=1e-9, key=None):
        import numpy as np
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
        if a.shape != b.shape:
            self.fail(f"{msg}: shape {a.shape} != expected {b.shape}", key)
        if not np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True):
            with np.errstate(all="ignore"):
                bad = ~np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
            i = tuple(int(x) for x in np.argwhere(bad)[0]) if a.ndim else ()
            self.fail(f"{msg}: got {a[i]!r}, expected {b[i]!r} at {i} "
                      f"({int(bad.sum())} of {a.size} differ)", key)

    def equal(self, a, b, msg="", key=None):
        import numpy as np
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            a, b = np.asarray(a), np.asarray(b)
            ok = a.shape == b.shape and bool(np.all((a == b) | ((a != a) & (b != b))))
        else:
            ok = a == b
        if not ok:
            self.fail(f"{msg}: got {_short(a)}, expected {_short(b)}", key)

    def raises(self, exc, fn, msg):
        try:
            fn()
        except exc:
            return
        except Exception as e:  # noqa
            self.fail(f"{msg}: raised {type(e).__name__}: {e} instead of "
                      f"{getattr(exc, '__name__', exc)}")
        self.fail(f"{msg}: no exception raised")


def _short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + "..."


@contextlib.contextmanager
def cwd(path):
    old = os.getcwd()
    os.chdir(path)
    try:
        yield
    finally:
        os.chdir(old)
