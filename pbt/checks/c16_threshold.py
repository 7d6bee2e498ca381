"""C16: trigger thresholds and smoothing against their definitions."""
import statistics

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import quakemigrate.util as util
from harness import Facet
from quakemigrate import Trigger
from strategies import fixed, ints, one_in, rounded, sampled, seeds

ASSUMPTIONS = ["the threshold and smoothing steps are called the way the repository's own tests call them "
               "(Trigger._get_threshold, Trigger._smooth_coa); C15 observes them end to end"]


def series(c, n):
    rng = np.random.RandomState(c["seed"])
    x = rng.gamma(2, 0.6, n)
    if c["kind"] == "const":
        x[:] = x[0]
    elif c["kind"] == "zeros":
        x[rng.rand(n) < 0.6] = 0
    elif c["kind"] == "spikes":
        x[rng.rand(n) < 0.05] *= 1000
    elif c["kind"] == "trend":
        x += np.linspace(0, 20, n)
    return x * c["scale"]


KINDS = ("noise", "const", "zeros", "spikes", "trend")


def strat_thr():
    return fixed(n=one_in(5, st.integers(1, 8), ints(1, 700)), sr=sampled(1.0, 1, 10.0, 20.0, 25.0, 50.0, 100.0),
                 wsamp=ints(1, 400), seed=seeds, kind=sampled(*KINDS), scale=sampled(1.0, 1e-3, 1e4),
                 mult=rounded(0, 20, 2), method=sampled("static", "mad", "median_ratio", "dynamic"),
                 other=ints(1, 300))


def check_thr(c, ctx):
    n, sr = c["n"], c["sr"]
    x = series(c, n)
    w = c["wsamp"]
    kw = dict(threshold_method=c["method"])
    if c["method"] == "static":
        kw["static_threshold"] = c["mult"]
    elif c["method"] == "median_ratio":
        kw.update(median_window_length=w / sr, median_multiplier=c["mult"], mad_window_length=c["other"] / sr)
    else:
        kw.update(mad_window_length=w / sr, mad_multiplier=c["mult"], median_window_length=c["other"] / sr)
    t = Trigger("not_a_lut", ctx.tmp(), "run", **kw)
    data = pd.Series(x.copy())
    got = t._get_threshold(data, sr)
    ctx.equal(np.asarray(data), x, "trace modified")
    want = np.empty(n)
    for i in range(0, n, w):
        ch = sorted(x[i:i + w].tolist())
        med = statistics.median(ch)
        if c["method"] == "static":
            v = c["mult"]
        elif c["method"] == "median_ratio":
            v = med * c["mult"]
        else:
            v = med + c["mult"] * 1.4826 * statistics.median([abs(y - med) for y in ch])
        want[i:i + w] = v
    ctx.close(np.asarray(got), want, f"{c['method']} threshold with windows of {w} samples", rtol=1e-9,
              atol=1e-12 * c["scale"])
    ctx.nontrivial(n > w or c["method"] == "static")
    ctx.label(c["method"])


def strat_mad():
    return fixed(n=st.integers(1, 60), m=st.integers(0, 3), seed=seeds, kind=sampled(*KINDS), scale=sampled(1.0, 1e5),
                 s=sampled(None, 1.0, 2.0))


def check_mad(c, ctx):
    x = series(c, c["n"] * max(c["m"], 1))
    x = x if c["m"] == 0 else x.reshape(c["n"], c["m"])
    keep = x.copy()
    kw = {} if c["s"] is None else {"scale": c["s"]}
    got = util.calculate_mad(x, **kw)
    cols = [x] if c["m"] == 0 else [x[:, j] for j in range(c["m"])]
    want = [statistics.median(sorted(abs(v - statistics.median(sorted(col))) for v in col))
            * (c["s"] or 1.4826) for col in cols]
    ctx.close(np.ravel(got), want, "MAD", rtol=1e-9, atol=1e-12 * c["scale"])
    ctx.equal(x, keep, "input modified")
    ctx.nontrivial(c["n"] > 2)


def strat_smooth():
    return fixed(n=ints(1, 500), sr=sampled(1.0, 5.0, 10.0, 20.0, 50.0, 100.0), sigma=rounded(0.05, 2.0, 2),
                 width=sampled(4.0, 2.0, 6.0, 3.5, None), seed=seeds, kind=sampled(*KINDS), scale=sampled(1.0, 1e-3, 1e4))


def frame(x, y):
    n = len(x)
    return pd.DataFrame({"DT": np.arange(n), "COA": x.copy(), "COA_N": y.copy(), "X": np.arange(n) * 1.0,
                         "Y": np.arange(n) * 2.0, "Z": np.arange(n) * 3.0})


def check_smooth(c, ctx):
    n, sr = c["n"], c["sr"]
    x = series(c, n)
    y = series(dict(c, seed=c["seed"] ^ 5), n)
    kw = dict(smooth_coa=True, smoothing_kernel_sigma=c["sigma"])
    width = 4.0 if c["width"] is None else c["width"]
    if c["width"] is not None:
        kw["smoothing_kernel_width"] = width
    t = Trigger("not_a_lut", ctx.tmp(), "run", **kw)
    out = t._smooth_coa(frame(x, y), sr)
    ctx.equal(list(out.columns), ["DT", "COA", "COA_N", "X", "Y", "Z"], "columns")
    ctx.equal(len(out), n, "length")
    for k, f in (("DT", 1), ("X", 1.0), ("Y", 2.0), ("Z", 3.0)):
        ctx.equal(np.asarray(out[k]), np.arange(n) * f, f"column {k}")
    s = c["sigma"] * sr
    r = int(width * s + 0.5)
    k = np.exp(-0.5 * (np.arange(-r, r + 1) / s) ** 2)
    k /= k.sum()
    for name, v in (("COA", x), ("COA_N", y)):
        got = np.asarray(out[name], dtype=float)
        tol = 1e-9 * (np.abs(v).max() + 1e-30)
        ctx.check(bool((got >= v.min() - tol).all() and (got <= v.max() + tol).all()), f"{name}: outside the range")
        if n > 2 * r:
            ctx.close(got[r:n - r], np.convolve(v, k, "valid"), f"{name}: interior is the Gaussian average",
                      rtol=1e-9, atol=tol)
    # an impulse spreads symmetrically, centred on itself
    e = np.zeros(4 * r + 5)
    m = 2 * r + 2
    e[m] = c["scale"]
    imp = np.asarray(t._smooth_coa(frame(e, e), sr)["COA"])
    ctx.close(imp, imp[::-1], "response to an impulse is symmetric", rtol=1e-9, atol=1e-12 * c["scale"])
    ctx.close(imp.sum(), c["scale"], "response to an impulse has unit area", rtol=1e-9)
    ctx.equal(int(np.argmax(imp)), m, "response to an impulse peaks at the impulse")
    # scale
    two = np.asarray(t._smooth_coa(frame(x * 7.0, y), sr)["COA"])
    ctx.close(two, 7.0 * np.asarray(out["COA"], dtype=float), "smoothing is linear in amplitude", rtol=1e-9,
              atol=1e-12 * c["scale"])
    ctx.nontrivial(r >= 1 and n > 2 * r)


FACETS = [
    Facet("threshold", strat_thr, check_thr, quick=500, thorough=10000, shards=3,
          rule="several windows, or a static threshold"),
    Facet("mad", strat_mad, check_mad, quick=200, thorough=4000, shards=1, rule="more than two values"),
    Facet("smoothing", strat_smooth, check_smooth, quick=300, thorough=6000, shards=3,
          rule="the kernel has neighbours and fits in the trace"),
]
