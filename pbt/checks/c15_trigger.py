"""C15: Trigger.trigger() on generated scans against a reference trigger and output invariants."""
import os
import statistics

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from obspy import UTCDateTime
from scipy.ndimage import gaussian_filter1d

from harness import Facet
from qm import t_add
from quakemigrate import Trigger
from quakemigrate.io import Run
from quakemigrate.io.scanmseed import ScanmSEED
from strategies import fixed, ints, one_in, rounded, sampled, seeds

ASSUMPTIONS = ["the scan covers the period without gaps (gaps are zero coalescence, see C13)",
               "each day is triggered from the data of that day and the padding, as documented"]


class Lut:
    """All that triggering needs of a lookup table when no plots are made."""
    def __init__(self, ucf):
        self.unit_conversion_factor = ucf


MID = UTCDateTime(2015, 3, 2)
DAY = 86400 * 10**9


def strat():
    bump = fixed(t=rounded(0, 1, 4), a=one_in(4, rounded(0.05, 0.5, 2), rounded(0.5, 4, 2)), w=one_in(4, rounded(0.05, 3, 2), rounded(0.05, 0.6, 2)), flat=sampled(False, False, True))
    return fixed(sr=sampled(1, 5, 10, 10, 20, 25, 50, 100), n=one_in(4, ints(20, 300), ints(300, 1500)),
                 pos=rounded(-0.2, 1.2, 3), grid=sampled(0.0, 0.0, 0.0, 0.25, 0.75),
                 bumps=one_in(4, st.lists(bump, max_size=3), st.lists(bump, min_size=4, max_size=14)), noise=sampled(0.0, 0.02, 0.02, 0.2), seed=seeds,
                 method=sampled("static", "static", "mad", "median_ratio"), level=one_in(5, rounded(0.5, 4, 2), rounded(1.3, 2.2, 2)),
                 mult=rounded(0.5, 10, 1), win=rounded(1, 40, 1), mw=one_in(3, rounded(0.05, 4, 2), rounded(0.05, 0.8, 2)), extra=one_in(2, rounded(0, 5, 2), rounded(0, 0.8, 2)),
                 norm=st.booleans(), smooth=st.booleans(), sigma=rounded(0.1, 0.5, 2),
                 a=rounded(0, 0.3, 3), b=rounded(0.6, 1, 3), endmid=one_in(4, st.just(True), st.just(False)),
                 pad=sampled(0, 1, 5, 20, 120), windows=st.booleans(), ucf=sampled(1, 1000),
                 nodes=st.booleans(),
                 region=one_in(3, st.one_of(st.tuples(*[rounded(0, 0.4, 2)] * 3, *[rounded(0.6, 1, 2)] * 3).map(list),
                                            st.tuples(*[sampled(0.0, 0.05, 0.1, 0.2, 0.3)] * 3, *[sampled(0.5, 0.75, 0.9, 0.95, 1.0)] * 3).map(list)),
                               st.none()),
                 name=sampled("", "sub"))


def make(c):
    n, sr = c["n"], c["sr"]
    rng = np.random.RandomState(c["seed"])
    t = np.arange(n) / sr
    coa = np.ones(n) + np.abs(rng.normal(0, 1, n)) * c["noise"]
    for b in c["bumps"]:
        d = np.abs(t - b["t"] * n / sr)
        # `flat` bumps share a plateau level: ties of the maximum
        coa = np.maximum(coa, np.where(d < b["w"], np.floor(b["a"] + 1.5), 1)) if b["flat"] \
            else coa + b["a"] * np.exp(-0.5 * (d / b["w"]) ** 2)
    coan = coa ** 0.7 * (1 + 0.3 * np.sin(t * 0.9 + c["seed"] % 7)) + 0.4
    f = rng.randint(0, 21, (n, 3)) / 20 if c["nodes"] else rng.uniform(0, 1, (n, 3))     # on nodes, as a scan's
    return np.round(coa * 1e5) / 1e5, np.round(coan * 1e5) / 1e5, position(c, f)


def position(c, f):
    """Coordinates at fractions of the volume, as stored."""
    f = np.asarray(f)
    x, s = np.array([-20.0, 60.0, -1000 / c["ucf"]]) + f * [10, 6, 31 * 1000 / c["ucf"]], np.array([1e6, 1e6, 1e3 * c["ucf"]])
    return np.round(x * s) / s


def thresholds(c, x):
    w = round(c["win"] * c["sr"])
    out = np.empty(len(x))
    for i in range(0, len(x), w):
        ch = x[i:i + w].tolist()
        med = statistics.median(ch)
        if c["method"] == "static":
            out[i:i + w] = c["level"]
        elif c["method"] == "mad":
            mad = 1.4826 * statistics.median([abs(v - med) for v in ch])
            out[i:i + w] = med + mad * c["mult"]
        else:
            out[i:i + w] = med * (1 + c["mult"] / 10)
    return out


def reference(c, ns, coa, coan, xyz, lo, hi, midnight_end):
    """Events of one batch: list of dicts (times in ns)."""
    mw, mei = round(c["mw"] * 1e9), round((2 * c["mw"] + c["extra"]) * 1e9)
    if c["smooth"]:
        coa, coan = [gaussian_filter1d(v, c["sigma"] * c["sr"], truncate=4.0) for v in (coa, coan)]
    trig = coan if c["norm"] else coa
    over = np.flatnonzero(trig >= thresholds(c, trig))
    groups = np.split(over, np.flatnonzero(np.diff(over) > 1) + 1) if len(over) else []
    cand = []
    for g in groups:
        p = g[np.argmax(coa[g])]
        cand.append(dict(p=p, t=ns[p], v=trig[p],
                         lo=ns[p] - mei if ns[p] - ns[g[0]] < mw else ns[g[0]] - (mei - mw),
                         hi=ns[p] + mei if ns[g[-1]] - ns[p] < mw else ns[g[-1]] + (mei - mw)))
    merged = []
    for e in cand:
        if merged:
            prev = merged[-1][-1]
            if not (prev["hi"] < e["t"] - mw and e["lo"] > prev["t"] + mw):
                merged[-1].append(e)
                continue
        merged.append([e])
    out = []
    for m in merged:
        best = m[int(np.argmax([e["v"] for e in m]))]
        p = best["p"]
        if not (lo <= best["t"] and (best["t"] < hi if midnight_end else best["t"] <= hi)):
            continue
        r = region(c)
        if r is not None and not all(r[k] <= xyz[p, k] <= r[k + 3] for k in range(3)):
            continue
        out.append(dict(t=best["t"], TRIG_COA=best["v"], COA_X=xyz[p, 0], COA_Y=xyz[p, 1], COA_Z=xyz[p, 2],
                        COA=coa[p], COA_NORM=coan[p], MinTime=min(e["lo"] for e in m),
                        MaxTime=max(e["hi"] for e in m)))
    return out, len(cand)


def region(c):
    if c["region"] is None:
        return None
    return [float(v) for v in (*position(c, c["region"][:3]), *position(c, c["region"][3:]))]


def read_files(d, name):
    f = os.path.join(d, "run", "trigger", name, "events")
    out = {}
    for x in (sorted(os.listdir(f)) if os.path.isdir(f) else []):
        out[x] = pd.read_csv(os.path.join(f, x), dtype={"EventID": str})
    return out


def check(c, ctx):
    d = ctx.tmp()
    sr, n = c["sr"], c["n"]
    step = 10**9 // sr
    start = t_add(MID, -round(c["pos"] * n) + c["grid"], sr)
    coa, coan, xyz = make(c)
    scan = ScanmSEED(Run(d, "run", stage="detect"), False, sr)
    scan.append(start, coa.copy(), coan.copy(), xyz.copy(), c["ucf"])
    if not scan.written:
        scan.write()
    ns = start._ns + np.arange(n) * step
    lo = t_add(start, round(c["a"] * n), sr)
    hi = t_add(start, max(round(c["b"] * n), round(c["a"] * n) + 1), sr)
    if c["endmid"] and lo < MID < start + n / sr:
        hi = MID
    kw = dict(threshold_method=c["method"], marginal_window=c["mw"], min_event_interval=2 * c["mw"] + c["extra"],
              normalise_coalescence=c["norm"], smooth_coa=c["smooth"], smoothing_kernel_sigma=c["sigma"],
              pad=c["pad"], plot_trigger_summary=False, write_event_time_windows=c["windows"], trigger_name=c["name"],
              static_threshold=c["level"], mad_window_length=c["win"], mad_multiplier=c["mult"],
              median_window_length=c["win"], median_multiplier=1 + c["mult"] / 10)
    trig = Trigger(Lut(c["ucf"]), d, "run", **kw)
    trig.trigger(str(lo), str(hi), region=region(c))
    files = read_files(d, c["name"])
    # reference, day by day
    total = 0
    allt = []
    b = lo
    expect_files = set()
    while b < hi:
        nxt = UTCDateTime(b.date) + 86400
        e = min(nxt, hi)
        half = step // 2
        sel = (ns >= b._ns - c["pad"] * 10**9) & (ns <= e._ns + c["pad"] * 10**9)
        # the window is taken to the nearest sample
        edge = ((ns >= b._ns - c["pad"] * 10**9 - half - 1000) & (ns <= e._ns + c["pad"] * 10**9 + half + 1000)) & ~sel
        want, ncand = reference(c, ns[sel], coa[sel], coan[sel], xyz[sel], b._ns, e._ns, e == UTCDateTime(e.date))
        f = f"run{'_' * bool(c['name'])}{c['name']}_{b.year}_{b.julday:03d}_TriggeredEvents.csv"
        got = files.get(f)
        if edge.any():
            # off-grid window ends: the two candidate windows differ by one sample at the ends
            ctx.label("window end off the sample grid")
            alt, _ = reference(c, ns[sel | edge], coa[sel | edge], coan[sel | edge], xyz[sel | edge], b._ns, e._ns,
                               e == UTCDateTime(e.date))
            if [{k: int(w[k]) for k in ("t", "MinTime", "MaxTime")} for w in alt] != \
                    [{k: int(w[k]) for k in ("t", "MinTime", "MaxTime")} for w in want]:
                b = nxt
                continue
        what = f"events of {b} - {e}"
        if got is None:
            ctx.check(not want, lambda: f"{what}: no file, expected events at {[str(UTCDateTime(ns=int(w['t']))) for w in want]}")
        else:
            t = [UTCDateTime(x)._ns for x in got["CoaTime"]]
            ctx.check(t == [int(w["t"]) for w in want],
                      lambda: f"{what}: triggered {list(got['CoaTime'])}, expected "
                              f"{[str(UTCDateTime(ns=int(w['t']))) for w in want]}")
            cols = ["TRIG_COA", "COA_X", "COA_Y", "COA_Z", "COA", "COA_NORM"]
            for k in cols:
                tol = 1e-7 if not (c["smooth"] and edge.any()) or k.startswith("COA_") and k != "COA_NORM" else 1.0
                ctx.close(got[k].values, [w[k] for w in want], f"{what}: {k}", rtol=tol, atol=tol)
            ctx.equal(list(got.columns), ["EventID", "CoaTime"] + cols[:1] + cols[1:] + ["MinTime", "MaxTime"] * c["windows"],
                      f"{what}: columns")
            if c["windows"]:
                for k in ("MinTime", "MaxTime"):
                    ctx.check([UTCDateTime(x)._ns for x in got[k]] == [int(w[k]) for w in want],
                              lambda: f"{what}: {k} {list(got[k])}")
            for x, i in zip(t, got["EventID"]):
                ctx.equal(i, UTCDateTime(ns=x).strftime("%Y%m%d%H%M%S") + f"{x // 10**6 % 1000:03d}", f"{what}: EventID")
            # invariants that do not need the reference
            mei = round((2 * c["mw"] + c["extra"]) * 1e9)
            ctx.check(all(v - u >= mei for u, v in zip(t, t[1:])), f"{what}: closer than the minimum event interval")
            allt += t
        total += len(want)
        b = nxt
        ctx.label(f"candidates={min(ncand, 5)}", f"events={min(len(want), 4)}")
    ctx.equal(len(set(allt)), len(allt), "events reported twice")
    ctx.nontrivial(total > 0)


def strat_long():
    """Hundreds of thousands of samples, dozens of events."""
    bump = fixed(t=rounded(0, 1, 5), a=rounded(0.5, 4, 2), w=rounded(0.05, 3, 2), flat=sampled(False, False, True))
    return st.tuples(strat(), fixed(sr=sampled(5, 20, 50, 100), n=ints(70000, 600000), bumps=st.lists(bump, min_size=10, max_size=60), noise=sampled(0.0, 0.02),
                                    mult=rounded(7, 10, 1), win=rounded(20, 4000, 0), level=rounded(1.3, 2.2, 2), pad=sampled(0, 120, 1000))).map(lambda t: {**t[0], **t[1]})


FACETS = [Facet("long", strat_long, check, quick=12, thorough=300, shards=4, rule="at least one event"),
          Facet("trigger", strat, check, quick=1000, thorough=20000, shards=7, rule="at least one event")]
