"""C13: model-based histories of the continuous coalescence archive."""
import os

import numpy as np
from hypothesis import strategies as st
from obspy import UTCDateTime, read

import quakemigrate.util as util
from harness import Facet
from qm import t_add
from quakemigrate.io import Run
from quakemigrate.io.scanmseed import ScanmSEED, read_scanmseed
from strategies import fixed, ints, one_in, rounded, sampled, seeds

ASSUMPTIONS = ["scan rates are integers, as documented",
               "timesteps are a whole number of samples and shorter than a day",
               "window ends that do not fall on a sample are taken to the nearest sample",
               "one detect run writes each day (a second run of the same day replaces it)"]

DAY = 86400 * 10**9
COLS = ["COA", "COA_N", "X", "Y", "Z"]
MIDNIGHTS = [UTCDateTime(2015, 3, 2), UTCDateTime(2016, 3, 1), UTCDateTime(2016, 1, 1), UTCDateTime(2017, 1, 1),
             UTCDateTime(2015, 7, 1)]


def strat():
    step = sampled("data", "data", "empty", "big", "const", "jump")
    return fixed(sr=sampled(1, 10, 20, 25, 50, 100, 33, 128), n=st.integers(1, 150),
                 mid=st.integers(0, len(MIDNIGHTS) - 1),
                 before=st.one_of(st.integers(-3, 3).map(lambda k: ["steps", k]), ints(-400, 900).map(
                     lambda k: ["samples", k])),
                 frac=sampled(0.0, 0.0, 0.0, 0.3, 0.62, 0.5),
                 steps=st.lists(step, min_size=1, max_size=9), cont=st.booleans(), ucf=sampled(1, 1000), seed=seeds,
                 reads=st.lists(fixed(a=ints(-60, 500), len=ints(1, 600), pad=st.integers(0, 60)),
                                min_size=1, max_size=4))


def values(kind, n, rng, ucf):
    coa = rng.gamma(2, 0.7, n)
    coan = rng.gamma(2, 0.4, n) + 0.9
    xyz = np.c_[rng.uniform(-180, 180, n), rng.uniform(-90, 90, n), rng.uniform(-3, 60, n) * 1000 / ucf]
    if kind == "big":
        coa[rng.randint(n)] = 10 ** rng.uniform(4, 9)
        coan[rng.randint(n)] = 10 ** rng.uniform(4, 9)
    elif kind == "const":
        coa[:] = coa[0]
        xyz[:] = xyz[0]
    elif kind == "jump":
        coa = np.where(rng.rand(n) > 0.5, 21474.0, 0.0)
    return coa, coan, xyz


def check_window(ctx, run, model, days, a, b, pad, ucf, what, sr, zeros=False):
    """Reads [a, b] +- pad and compares with the {time ns: values} model restricted to `days`."""
    half = 0.5e9 / sr
    lo, hi = (a - pad)._ns, (b + pad)._ns
    eps = 2000
    first, last = UTCDateTime((a - pad).date)._ns, UTCDateTime((b + pad).date)._ns + 86400 * 10**9
    must = [t for t in model if lo - eps <= t <= hi + eps]
    # a sample within half a sample of midnight may be stored with the other day
    must = [t for t in must if t >= first and last - t >= half - eps]
    try:
        df, stats = read_scanmseed(run, a, b, pad, ucf)
    except util.NoScanMseedDataException:
        ctx.check(not must, f"{what}: reported no data, {len(must)} samples in the window")
        return False
    got = [UTCDateTime(t)._ns for t in df["DT"]]
    ctx.check(got == sorted(got), f"{what}: times not in order")
    ctx.close(stats.sampling_rate, sr, f"{what}: sampling rate", rtol=1e-6)
    keys = np.array(sorted(model))
    used = []
    for t in got:
        k = keys[np.argmin(np.abs(keys - t))] if len(keys) else None
        if k is None or abs(k - t) > max(eps, 1e-2 * half):
            if zeros:
                used.append(None)
                continue
            ctx.fail(f"{what}: sample at {UTCDateTime(ns=t)} does not exist in the scan")
        used.append(int(k))
        ctx.check(lo - half - eps <= k <= hi + half + eps, f"{what}: sample {UTCDateTime(ns=int(k))} outside the window")
    real = [k for k in used if k is not None]
    ctx.equal(len(set(real)), len(real), f"{what}: duplicated samples")
    miss = sorted(set(must) - set(real))
    ctx.check(not miss, lambda: f"{what}: {len(miss)} samples missing, first {UTCDateTime(ns=miss[0])}, "
                                f"read {len(got)} from {df['DT'].iloc[0]} to {df['DT'].iloc[-1]}")
    want = np.array([model[k] if k is not None else [0.0] * 5 for k in used])
    tol = np.array([0.5e-5, 0.5e-5, 0.5e-6, 0.5e-6, 0.5e-3 / ucf]) * 1.001 + 1e-12
    have = df[COLS].values.astype(float)
    err = np.abs(have - want)
    bad = np.argwhere(err > tol + 1e-12 * np.abs(want))
    ctx.check(not len(bad), lambda: f"{what}: {COLS[bad[0][1]]} at {df['DT'].iloc[bad[0][0]]} is "
                                    f"{have[tuple(bad[0])]!r}, computed {want[tuple(bad[0])]!r}")
    return len(got) > 0


def check_files(ctx, run, model, sr):
    """Every sample of the scan is in the file of its own day, and in no other."""
    eps = 2000 + 0.02 * 1e9 / sr
    total = 0
    for f in sorted((run.path / "detect" / "scanmseed").iterdir()):
        day = UTCDateTime(year=int(f.stem[:4]), julday=int(f.stem[5:]))._ns
        st_ = read(str(f)).select(station="COA")
        for tr in st_:
            total += tr.stats.npts
            ctx.check(tr.stats.starttime._ns >= day - eps and tr.stats.endtime._ns < day + 86400 * 10**9 + eps,
                      lambda: f"{f.name} holds samples from {tr.stats.starttime} to {tr.stats.endtime}")
    ctx.equal(total, len(model), "samples in the day files")


def times(start, n, sr):
    return [start._ns + round(i * 10**9 / sr) for i in range(n)]


def check(c, ctx):
    run = Run(ctx.tmp(), "run", stage="detect")
    sr, n, ucf = c["sr"], c["n"], c["ucf"]
    rng = np.random.RandomState(c["seed"])
    mid = MIDNIGHTS[c["mid"]]
    how, k = c["before"]
    start = t_add(mid, -(k * n if how == "steps" else k) - c["frac"], sr)
    scan = ScanmSEED(run, c["cont"], sr)
    timestep = n / sr
    model = {}
    crossed = len({t_add(start, x, sr).date for x in (0, n * len(c["steps"]) - 1)}) > 1
    for i, kind in enumerate(c["steps"]):
        t0 = t_add(start, i * n, sr)
        if kind == "empty":
            scan.empty(start, timestep, i, "no data", ucf)
            vals = np.zeros((n, 5))
        else:
            coa, coan, xyz = values(kind, n, rng, ucf)
            vals = np.c_[np.minimum(coa, 21474.0), np.minimum(coan, 21474.0), xyz]
            scan.append(start + timestep * i, coa, coan, xyz, ucf)
        for t, v in zip(times(t0, n, sr), vals):
            model[t] = v
        if c["cont"]:
            check_window(ctx, run, model, None, start, t_add(t0, n - 1, sr), 1.0, ucf,
                         f"continuous write after step {i}", sr)
    if not scan.written:
        scan.write()
    end = t_add(start, n * len(c["steps"]) - 1, sr)
    check_files(ctx, run, model, sr)
    check_window(ctx, run, model, None, start, end, 0.0, ucf, "whole run", sr)
    check_window(ctx, run, model, None, start, end, 2.0, ucf, "whole run and padding", sr)
    for j, r in enumerate(c["reads"]):
        a = t_add(start, r["a"], sr)
        check_window(ctx, run, model, None, a, t_add(a, r["len"], sr), r["pad"] / sr, ucf, f"read {j}", sr)
    ctx.nontrivial(len(c["steps"]) > 1)
    ctx.label(*(["crosses midnight"] if crossed else []))


# ------------------------------------------------------------- separate runs with a gap between them
def strat_gap():
    return fixed(sr=sampled(1, 10, 25, 50), n1=st.integers(1, 60), n2=st.integers(1, 60), gap=st.integers(1, 80),
                 pad=st.integers(0, 100), seed=seeds, mid=st.integers(0, len(MIDNIGHTS) - 1), ucf=sampled(1, 1000),
                 a=st.integers(-40, 60), len=st.integers(0, 60))


def check_gap(c, ctx):
    """Two runs of consecutive days that do not meet: the data of both are read, no data is zero."""
    run = Run(ctx.tmp(), "run", stage="detect")
    rng = np.random.RandomState(c["seed"])
    sr, ucf = c["sr"], c["ucf"]
    mid = MIDNIGHTS[c["mid"]]
    g1 = c["gap"] // 2 + 1
    model = {}
    for start, n in ((t_add(mid, -g1 - c["n1"], sr), c["n1"]), (t_add(mid, c["gap"] - c["gap"] // 2, sr), c["n2"])):
        scan = ScanmSEED(run, False, sr)
        coa, coan, xyz = values("data", n, rng, ucf)
        for t, v in zip(times(start, n, sr), np.c_[coa, coan, xyz]):
            model[t] = v
        scan.append(start, coa, coan, xyz, ucf)
        if not scan.written:
            scan.write()
    a = t_add(mid, c["a"], sr)
    check_window(ctx, run, model, None, a, t_add(a, c["len"], sr), c["pad"] / sr, ucf, "read across a gap", sr,
                 zeros=True)
    ctx.nontrivial()


def check_missing(c, ctx):
    run = Run(ctx.tmp(), "run", stage="detect")
    a = MIDNIGHTS[c["mid"]] + c["a"]
    ctx.raises(util.NoScanMseedDataException, lambda: read_scanmseed(run, a, a + c["len"], c["pad"], 1),
               "reading a run without scan data")
    ctx.nontrivial()


# ------------------------------------------------------------- scans of several days
def strat_days():
    return fixed(sr=sampled(1, 1, 2, 5), step=one_in(3, sampled(21600, 43200, 28800, 3600), st.integers(5000, 80000)), days=rounded(1.1, 3.4, 2),
                 mid=st.integers(0, len(MIDNIGHTS) - 1), before=one_in(2, ints(-2, 2), ints(-50000, 86399)), frac=sampled(0.0, 0.0, 0.5, 0.3),
                 cont=one_in(4, st.just(True), st.just(False)), ucf=sampled(1, 1000), seed=seeds, pad=st.integers(0, 200000),
                 empty=st.integers(0, 9), a=rounded(0, 1, 3), b=rounded(0, 1, 3))


def check_days(c, ctx):
    """A scan over several days: every sample is in the file of its day and is read back."""
    run = Run(ctx.tmp(), "run", stage="detect")
    sr, ucf = c["sr"], c["ucf"]
    n = c["step"] * sr
    rng = np.random.RandomState(c["seed"])
    start = t_add(MIDNIGHTS[c["mid"]], -c["before"] * (sr if abs(c["before"]) > 2 else 1) - c["frac"], sr)
    steps = int(np.ceil(c["days"] * 86400 / c["step"]))
    scan = ScanmSEED(run, c["cont"], sr)
    parts = []
    for i in range(steps):
        if i == c["empty"]:
            scan.empty(start, c["step"], i, "no data", ucf)
            parts.append(np.zeros((n, 5)))
        else:
            coa, coan, xyz = values("data", n, rng, ucf)
            parts.append(np.c_[coa, coan, xyz])
            scan.append(start + c["step"] * i, coa, coan, xyz, ucf)
    if not scan.written:
        scan.write()
    vals = np.concatenate(parts)
    ns = start._ns + np.rint(np.arange(len(vals)) * (1e9 / sr)).astype(np.int64)
    # the day files
    total = 0
    for f in sorted((run.path / "detect" / "scanmseed").iterdir()):
        day = UTCDateTime(year=int(f.stem[:4]), julday=int(f.stem[5:]))._ns
        for ch in ("COA", "COA_N", "X", "Y", "Z"):
            st_ = read(str(f)).select(station=ch)
            ctx.equal(len(st_), 1, f"{f.name}: traces of {ch}")
            want = int(((ns >= day - 10**7) & (ns < day + DAY - 10**7)).sum())
            ctx.equal(st_[0].stats.npts, want, f"{f.name}: samples of {ch}")
        total += want
    ctx.equal(total, len(vals), "samples in the day files")
    # reading everything, and one window
    lo, hi = sorted([int(c["a"] * (len(ns) - 1)), int(c["b"] * (len(ns) - 1))])
    for what, i, j, pad in (("whole scan", 0, len(ns) - 1, 0.0), ("part of the scan", lo, hi, c["pad"])):
        a, b = UTCDateTime(ns=int(ns[i])), UTCDateTime(ns=int(ns[j]))
        df, stats = read_scanmseed(run, a, b, float(pad), ucf)
        k = int(pad * sr)
        i, j = max(i - k, 0), min(j + k, len(ns) - 1)
        ctx.equal(len(df), j - i + 1, f"{what}: samples read")
        got = np.array([t._ns for t in (df["DT"].iloc[0], df["DT"].iloc[len(df) // 2], df["DT"].iloc[-1])])
        ctx.close((got - ns[[i, i + len(df) // 2, j]]) / 1e9, np.zeros(3), f"{what}: times", atol=1e-5)
        tol = np.array([0.5e-5, 0.5e-5, 0.5e-6, 0.5e-6, 0.5e-3 / ucf]) * 1.001 + 1e-12
        bad = np.argwhere(np.abs(df[COLS].values.astype(float) - vals[i:j + 1]) > tol + 1e-12 * np.abs(vals[i:j + 1]))
        ctx.check(not len(bad), lambda: f"{what}: {COLS[bad[0][1]]} at {df['DT'].iloc[bad[0][0]]} differs from the computed value ({len(bad)} differ)")
    ctx.nontrivial()
    ctx.label(f"days={total * 0 + len(list((run.path / 'detect' / 'scanmseed').iterdir()))}")


FACETS = [
    Facet("days", strat_days, check_days, quick=24, thorough=600, shards=3, rule="all"),
    Facet("history", strat, check, quick=250, thorough=6000, shards=5, rule="more than one timestep"),
    Facet("gap", strat_gap, check_gap, quick=150, thorough=3000, shards=2, rule="all"),
    Facet("missing", strat_gap, check_missing, quick=10, thorough=50, rule="all"),
]
