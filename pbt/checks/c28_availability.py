"""C28: availability records written by a scan are read back day file by day file."""
import inspect
import os
import pathlib

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from obspy import UTCDateTime

import quakemigrate.io.availability as records
import quakemigrate.util as util
from harness import Facet
from quakemigrate.io import Run, read_availability
from quakemigrate.io.availability import write_availability
from strategies import fixed, one_in, rounded, sampled, seeds

ASSUMPTIONS = ["station names contain no underscore (SEED codes)",
               "whole day files are read: rows of a day that the period touches but outside it may be returned"]

NAMES = ["A", "AB", "ST1", "ST10", "P", "S", "1234", "01"]
DAY = 86400


def strat():
    return fixed(start=sampled("2015-03-01", "2016-02-28", "2015-12-31", "2016-12-30", "2015-01-01"),
                 off=one_in(2, st.just(0.0), rounded(0, 86399, 3)),
                 step=sampled(30.0, 60.0, 120.0, 300.0, 450.5, 0.75, 1200.0, 3600.0, 86400.0), n=st.integers(1, 120),
                 names=st.lists(sampled(*NAMES), min_size=1, max_size=5, unique=True),
                 phases=sampled(["P", "S"], ["P"], ["S"], ["S", "P"]), seed=seeds,
                 reads=st.lists(st.tuples(rounded(-1.5, 3, 2), rounded(0, 3, 2)), min_size=1, max_size=3),
                 old=st.lists(st.booleans(), min_size=8, max_size=8), convert=st.booleans(), shuffle=st.booleans())


def check_read(ctx, run, model, cols, a, b, what):
    """model: {time in ns: row dict}; the days touched by [a, b]."""
    lo, hi = UTCDateTime(a.date)._ns, (UTCDateTime(b.date) + DAY)._ns
    must = [t for t in model if a._ns <= t <= b._ns]
    may = [t for t in model if lo <= t < hi]
    try:
        df = read_availability(run, a, b)
    except util.NoStationAvailabilityDataException:
        ctx.check(not must, f"{what}: reported no availability data but {len(must)} timesteps were written")
        return
    got = [UTCDateTime(t)._ns for t in df.index]
    ctx.check(got == sorted(got), f"{what}: rows not in time order")
    ctx.equal(len(set(got)), len(got), f"{what}: rows repeated")
    ctx.check(set(must) <= set(got), lambda: f"{what}: timesteps missing: {sorted(set(must) - set(got))[:3]}")
    ctx.check(set(got) <= set(may), lambda: f"{what}: timesteps of other days: {sorted(set(got) - set(may))[:3]}")
    ctx.equal(sorted(df.columns), sorted(cols), f"{what}: columns")
    for c in cols:
        ctx.equal([int(x) for x in df[c]], [model[t][c] for t in got], f"{what}: availability of {c}")


def check(c, ctx):
    d = ctx.tmp()
    run = Run(d, "run", stage="detect")
    rng = np.random.RandomState(c["seed"])
    t0 = UTCDateTime(c["start"]) + c["off"]
    cols = [f"{s}_{p}" for p in c["phases"] for s in c["names"]]
    t = [t0 + i * c["step"] for i in range(c["n"])]
    vals = rng.randint(0, 2, (c["n"], len(cols)))
    if c["shuffle"]:
        vals[:] = vals[0]
    df = pd.DataFrame(vals, columns=cols, index=[str(x) for x in t])
    write_availability(run, df.copy())
    model = {x._ns: dict(zip(cols, map(int, v))) for x, v in zip(t, vals)}
    files = sorted(os.listdir(f"{d}/run/detect/availability"))
    want = sorted({f"{x.year}_{x.julday:03d}_StationAvailability.csv" for x in t})
    ctx.equal(files, want, "availability files")
    check_read(ctx, run, model, cols, t[0], t[-1], "whole period")
    for a, ln in c["reads"]:
        b = t0 + a * DAY
        check_read(ctx, run, model, cols, b, b + ln * DAY, f"read from {a} days for {ln} days")
    ctx.nontrivial(len(files) > 1 or c["n"] > 3)
    ctx.label(f"files={min(len(files), 4)}")
    # the same records in the single-column-per-station layout of earlier versions
    if sorted(c["phases"]) == ["P", "S"]:
        sta = {x._ns: {s: int(rng.randint(2)) for s in c["names"]} for x in t}
        model = {x: {f"{s}_{p}": v for s, v in sta[x].items() for p in "PS"} for x in sta}
        f = f"{d}/run/detect/availability"
        for x in os.listdir(f):
            os.remove(f"{f}/{x}")
        new = pd.DataFrame([[model[x._ns][k] for k in cols] for x in t], columns=cols, index=[str(x) for x in t])
        write_availability(run, new)
        for i, x in enumerate(sorted(os.listdir(f))):
            if c["old"][i % 8]:
                rows = [y for y in t if f"{y.year}_{y.julday:03d}" == x[:8]]
                pd.DataFrame([[sta[y._ns][s] for s in c["names"]] for y in rows], columns=c["names"],
                             index=rows).to_csv(f"{f}/{x}")
        before = {x: open(f"{f}/{x}").read() for x in os.listdir(f)}
        check_read(ctx, run, model, cols, t[0], t[-1], "earlier layout")
        ctx.check({x: open(f"{f}/{x}").read() for x in os.listdir(f)} == before, "reading changed the record files")
        convert = getattr(records, "_handle_old_structure", None)
        if convert is not None and "permanent_conversion" in inspect.signature(convert).parameters:
            for x in before:
                convert(pathlib.Path(f) / x, permanent_conversion=True)
            check_read(ctx, run, model, cols, t[0], t[-1], "permanently converted")


def strat_history():
    one = fixed(day=st.integers(0, 3), off=rounded(0, 70000, 1), n=st.integers(1, 6), days=sampled(0, 0, 1, 2), step=sampled(60.0, 900.0, 2500.0),
                names=st.lists(sampled(*NAMES), min_size=1, max_size=3, unique=True), phases=sampled(["P", "S"], ["P"], ["S"]), seed=seeds)
    return fixed(start=sampled("2015-03-01", "2016-02-28", "2015-12-30"), scans=st.lists(one, min_size=1, max_size=4),
                 read=st.tuples(rounded(-0.5, 4, 1), rounded(0, 4, 1)).map(list))


def check_history(c, ctx):
    """Several scans of one run, with different stations; a scan replaces the record of the days it covers."""
    run = Run(ctx.tmp(), "run", stage="detect")
    t0 = UTCDateTime(c["start"])
    days = {}
    for s in c["scans"]:
        rng = np.random.RandomState(s["seed"])
        cols = [f"{n}_{p}" for n in s["names"] for p in s["phases"]]
        t = [t0 + s["day"] * DAY + s["off"] + i * s["step"] + (i % (s["days"] + 1)) * DAY for i in range(s["n"])]
        t.sort()
        vals = rng.randint(0, 2, (s["n"], len(cols)))
        write_availability(run, pd.DataFrame(vals, columns=cols, index=[str(x) for x in t]))
        new = {}
        for x, v in zip(t, vals):
            new.setdefault(UTCDateTime(x.date)._ns, {})[x._ns] = dict(zip(cols, map(int, v)))
        days.update(new)
    a = t0 + c["read"][0] * DAY
    b = a + c["read"][1] * DAY
    touched = {d: r for d, r in days.items() if UTCDateTime(a.date)._ns <= d <= UTCDateTime(b.date)._ns}
    try:
        df = read_availability(run, a, b)
    except util.NoStationAvailabilityDataException:
        ctx.check(not any(a._ns <= t <= b._ns for r in touched.values() for t in r), "recorded timesteps reported as no availability data")
        return
    model = {t: row for r in touched.values() for t, row in r.items()}
    got = [UTCDateTime(t)._ns for t in df.index]
    ctx.check(got == sorted(set(got)) and set(got) <= set(model), lambda: "rows that are not those of the last scan of each day")
    ctx.check({t for t in model if a._ns <= t <= b._ns} <= set(got), "timesteps missing")
    for (stamp, row), t in zip(df.iterrows(), got):
        for col, v in model[t].items():
            ctx.check(col in df.columns and row[col] == v, lambda: f"{stamp} {col}: {row.get(col)}, {v} was recorded")
        for col in set(df.columns) - set(model[t]):
            ctx.check(not row[col] == 1, lambda: f"{stamp} {col}: available, but not in the record of that day")
    ctx.check(set(df.columns) <= {k for r in model.values() for k in r}, "station-phases that were never recorded")
    ctx.nontrivial(len(touched) > 1)
    if len({tuple(sorted(k)) for k in map(lambda r: {x for y in r.values() for x in y}, touched.values())}) > 1:
        ctx.label("stations differ between days")


FACETS = [Facet("history", strat_history, check_history, quick=150, thorough=3000, shards=2, rule="days of more than one file read"),
          Facet("roundtrip", strat, check, quick=250, thorough=5000, shards=4,
                rule="more than one day file or more than three timesteps")]
