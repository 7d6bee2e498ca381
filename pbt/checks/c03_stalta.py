"""C03: STA/LTA kernels against the definition, with a rigorous running-sum error bound."""
import numpy as np
from hypothesis import strategies as st

from harness import Facet
from quakemigrate.core import centred_sta_lta, overlapping_sta_lta, recursive_sta_lta
from strategies import fixed, ints, one_in, sampled, seeds

ASSUMPTIONS = ["signals are non-negative and windows satisfy 1 <= STA <= LTA, as documented",
               "running sums may lose the precision of double arithmetic over the signal's range"]

EPS = np.finfo(float).eps


def strat():
    return st.tuples(st.integers(1, 12), st.integers(0, 30)).flatmap(lambda w: fixed(
        nsta=st.just(w[0]), nlta=st.just(w[0] + w[1]),
        n=one_in(5, st.integers(1, 2 * w[0] + w[1] + 2), st.integers(2 * w[0] + w[1], 300)),
        mode=sampled("uniform", "int", "zeros_start", "zeros_end", "zeros_mid", "allzero", "impulse",
                     "tinypad", "wide", "constant", "sq"),
        seed=seeds, scale=st.integers(-12, 12)))


def signal(c):
    rng = np.random.RandomState(c["seed"])
    n, m = c["n"], c["mode"]
    x = rng.uniform(0.5, 2, n)
    a, b = sorted(rng.randint(0, n + 1, 2))
    if m == "int":
        x = rng.randint(0, 5, n).astype(float)
    elif m == "zeros_start":
        x[:b] = 0
    elif m == "zeros_end":
        x[a:] = 0
    elif m == "zeros_mid":
        x[a:b] = 0
    elif m == "allzero":
        x[:] = 0
    elif m == "impulse":
        x[:] = 0
        x[rng.randint(n)] = 1.0
    elif m == "tinypad":
        x[:a] = np.finfo(float).tiny
        x[b:] = np.finfo(float).tiny
    elif m == "wide":
        x = 10 ** rng.uniform(-6, 6, n)
    elif m == "constant":
        x[:] = rng.uniform(0.1, 10)
    elif m == "sq":
        x = rng.normal(size=n) ** 2
    return x * 10.0 ** c["scale"]


def bounds(x, nsta, nlta, position):
    """Interval [lo, hi] that a running-sum evaluation of the definition must lie in."""
    n = len(x)
    lo, hi = np.ones(n), np.ones(n)
    cs = np.concatenate([[0.0], np.cumsum(x)])
    err = 16 * EPS * (n + 8) * np.maximum.accumulate(
        np.concatenate([x, [0.0]])) [:n] * max(nlta, 1)
    last = n - 1 if position == "classic" else n - nsta - 1
    for i in range(nlta - 1, last + 1):
        lta = x[i - nlta + 1:i + 1].sum()
        if position == "classic":
            sta = x[i - nsta + 1:i + 1].sum()
            e = err[i]
        else:
            sta = x[i + 1:i + nsta + 1].sum()
            e = err[i + nsta]
        f = nlta / nsta
        if lta > 4 * e:
            lo[i] = (sta - e) / (lta + e if sta > e else lta - e) * f * (1 - 1e-12)
            hi[i] = (sta + e) / (lta - e) * f * (1 + 1e-12)
        elif not x[:i + 1 + (nsta if position == "centred" else 0)].any():
            pass      # nothing but zeros so far: exactly the null value
        else:
            lo[i], hi[i] = -np.inf, np.inf
    return lo, hi


def judge(ctx, got, x, c, position, what):
    ctx.check(np.shape(got) == (c["n"],), f"{what}: shape {np.shape(got)}")
    ctx.check(bool(np.isfinite(got).all()),
              lambda: f"{what}: non-finite value at {np.flatnonzero(~np.isfinite(got))[:5]}")
    lo, hi = bounds(x, c["nsta"], c["nlta"], position)
    bad = np.flatnonzero((got < lo) | (got > hi))
    ctx.check(bad.size == 0, lambda: f"{what}: sample {bad[0]} is {got[bad[0]]!r}, definition "
              f"gives [{lo[bad[0]]!r}, {hi[bad[0]]!r}] (nsta={c['nsta']}, nlta={c['nlta']}, n={c['n']})")
    return int((np.isfinite(hi) & (hi != 1)).sum())


def check(c, ctx):
    x = signal(c)
    x0 = x.copy()
    fits = 0
    for fn, pos in ((overlapping_sta_lta, "classic"), (centred_sta_lta, "centred")):
        got = fn(x, c["nsta"], c["nlta"])
        ctx.equal(x, x0, "signal modified")
        fits += judge(ctx, got, x, c, pos, pos)
        # repeatable
        ctx.equal(fn(x, c["nsta"], c["nlta"]), got, f"{pos}: second evaluation differs")
        # any layout and number type of the same signal
        for other in (np.repeat(x, 3)[::3], np.asfortranarray(np.vstack([x, x]).T)[:, 1], x[::-1].copy()[::-1]):
            ctx.equal(fn(other, c["nsta"], c["nlta"]), got, f"{pos}: result depends on the memory layout of the signal")
        if c["mode"] == "int" and 0 <= c["scale"] <= 4:
            ctx.equal(fn(x.astype("i4"), c["nsta"], c["nlta"]), got, f"{pos}: result of an integer signal")
            ctx.equal(fn(x.astype("f4"), c["nsta"], c["nlta"]), got, f"{pos}: result of a single precision signal")
        # powers of two scale exactly through the definition
        y = fn(x * 4.0, c["nsta"], c["nlta"])
        ctx.close(y, got, f"{pos}: not scale invariant", rtol=1e-9)
    ctx.nontrivial(fits > 0)
    ctx.label(c["mode"], f"fits:{c['n'] >= c['nlta'] + c['nsta']}")


def strat_causal():
    return strat().flatmap(lambda c: fixed(base=st.just(c), cut=st.integers(1, max(1, c["n"]))))


def check_causal(c, ctx):
    """Samples after the documented windows cannot influence a value."""
    b = c["base"]
    x = signal(dict(b, scale=0))
    k = c["cut"]
    y = x.copy()
    y[k:] = np.random.RandomState(b["seed"] ^ 5).uniform(0, 3, len(x) - min(k, len(x)))
    for fn, pos, ahead in ((overlapping_sta_lta, "classic", 0), (centred_sta_lta, "centred", b["nsta"])):
        u, v = fn(x, b["nsta"], b["nlta"]), fn(y, b["nsta"], b["nlta"])
        m = max(0, k - ahead)
        ctx.equal(u[:m], v[:m], f"{pos}: value depends on later samples")
    ctx.nontrivial(k - b["nsta"] > b["nlta"])


def strat_long():
    return st.tuples(ints(1, 400), ints(0, 3000)).flatmap(lambda w: fixed(
        nsta=st.just(w[0]), nlta=st.just(w[0] + w[1]), n=ints(3000, 60000),
        mode=sampled("uniform", "sq", "decay", "step", "quiet"), seed=seeds, scale=st.integers(-9, 9)))


def check_long(c, ctx):
    """Signals of realistic length (two minutes at 500 Hz): the running sums do not drift."""
    n, nsta, nlta = c["n"], c["nsta"], c["nlta"]
    rng = np.random.RandomState(c["seed"])
    x = rng.uniform(0.5, 2, n) if c["mode"] != "sq" else rng.normal(size=n) ** 2
    if c["mode"] == "decay":
        x *= np.exp(-np.arange(n) / n * 3)
    elif c["mode"] == "step":
        x[n // 3:] *= 50
    elif c["mode"] == "quiet":
        x[n // 3:n // 2] *= 1e-3
    x *= 10.0 ** c["scale"]
    cs = np.concatenate([[0], np.cumsum(x.astype(np.longdouble))])
    f = nlta / nsta
    for fn, pos in ((overlapping_sta_lta, "classic"), (centred_sta_lta, "centred")):
        got = fn(x, nsta, nlta)
        last = n - 1 if pos == "classic" else n - nsta - 1
        want = np.ones(n)
        i = np.arange(nlta - 1, last + 1)
        if len(i):
            lta = cs[i + 1] - cs[i + 1 - nlta]
            sta = cs[i + 1] - cs[i + 1 - nsta] if pos == "classic" else cs[i + 1 + nsta] - cs[i + 1]
            want[i] = (sta / lta * f).astype(float)
            ctx.nontrivial()
        ctx.close(got, want, f"{pos}, n={n}, nsta={nsta}, nlta={nlta}", rtol=1e-6, atol=1e-6)


def check_backend(c, ctx):
    """The selectable Python backend computes the same function as the C one."""
    try:
        from quakemigrate.signal.onsets.stalta import centred_sta_lta_py, overlapping_sta_lta_py
    except ImportError:
        return
    if c["n"] < c["nlta"] + 2 * c["nsta"] or c["nlta"] <= c["nsta"]:
        return
    x = np.abs(signal(dict(c, scale=0))) + 1e-3
    for p, q, w in ((centred_sta_lta_py, centred_sta_lta, "centred"),
                    (overlapping_sta_lta_py, overlapping_sta_lta, "classic")):
        u, v = p(x, c["nsta"], c["nlta"]), q(x, c["nsta"], c["nlta"])
        tol = 1e-6 * max(1.0, float(x.max() / x.min()) * 1e-3)
        ctx.close(u, v, f"{w}: Python and C backends differ", rtol=tol, atol=tol)
    ctx.nontrivial()


def check_recursive(c, ctx):
    """The recursive STA/LTA: averages that forget exponentially, 1 over the first long window."""
    x = signal(c)
    n, nsta, nlta = c["n"], c["nsta"], c["nlta"]
    got = recursive_sta_lta(x, nsta, nlta)
    ctx.check(np.shape(got) == (n,), f"recursive: shape {np.shape(got)}")
    ctx.check(bool(np.isfinite(got).all()), lambda: f"recursive: non-finite value at {np.flatnonzero(~np.isfinite(got))[:5]}")
    sta = lta = 0.0
    want = np.zeros(n)
    for i in range(1, n):
        sta += (x[i] - sta) / nsta
        lta += (x[i] - lta) / nlta
        want[i] = sta / lta if x[1:i + 1].any() and lta > 0 else 1
    if nlta < n:
        want[:nlta] = 1
        ctx.nontrivial()
    # (where the windows do not fit the first sample has no average)
    near = np.isclose(got, want, rtol=1e-6, atol=1e-9)
    sig = np.maximum.accumulate(x) * 1e-250 < 1e-300      # denormal averages lose their digits
    ctx.check(bool((near | sig)[nlta >= n:].all()), lambda: f"recursive: sample {np.flatnonzero(~near)[0]} is {got[~near][0]!r}, "
              f"the recursion gives {want[~near][0]!r} (nsta={nsta}, nlta={nlta}, n={n})")
    ctx.equal(recursive_sta_lta(np.repeat(x, 2)[::2], nsta, nlta), got, "recursive: depends on the memory layout of the signal")


def check_asan(c, ctx):
    from checks.c01_migrate import asan_package, run_asan
    run_asan(asan_package(ctx._scratch), "asan_kernels.py", {"stalta": c})
    ctx.nontrivial()


FACETS = [
    Facet("definition", strat, check, quick=1600, thorough=60000, shards=3,
          rule="11 signal regimes, n<=260, STA<=12, LTA<=42 incl. windows that do not fit; "
               "non-trivial: at least one window fits"),
    Facet("recursive", strat, check_recursive, quick=600, thorough=20000, shards=1, rule="signals longer than the long window"),
    Facet("causal", strat_causal, check_causal, quick=600, thorough=20000, shards=1,
          rule="tail of the signal replaced; non-trivial: some window ends before the cut"),
    Facet("backend", strat, check_backend, quick=600, thorough=20000, shards=1,
          rule="signals long enough for both backends"),
    Facet("long", strat_long, check_long, quick=60, thorough=3000, shards=2,
          rule="n<=60000, STA<=400, LTA<=3400"),
    Facet("asan", lambda: st.lists(strat(), min_size=40, max_size=80), check_asan, quick=2,
          thorough=60, rule="batches of 10-60 signals under AddressSanitizer"),
]
