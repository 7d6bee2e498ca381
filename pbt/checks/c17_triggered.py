"""C17: histories of writes and reads of triggered events against a model of the files."""
import os
import pathlib

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from obspy import UTCDateTime

import quakemigrate.util as util
from harness import Facet
from qm import t_add
from quakemigrate import Trigger
from quakemigrate.io import Run, read_triggered_events, write_triggered_events
from quakemigrate.io.scanmseed import ScanmSEED
from strategies import fixed, ints, one_in, rounded, sampled, seeds

COLS = ["EventID", "CoaTime", "TRIG_COA", "COA_X", "COA_Y", "COA_Z", "COA", "COA_NORM"]
VALS = ["TRIG_COA", "COA_X", "COA_Y", "COA_Z", "COA", "COA_NORM"]
DAYS = [UTCDateTime(2015, 12, 31), UTCDateTime(2016, 2, 29), UTCDateTime(2016, 3, 1), UTCDateTime(2015, 7, 4)]
EDGE = sampled(0.0, 0.0, 0.001, 0.5, 43200.0, 86399.98, 86399.999, 86399.999999)
SECONDS = one_in(2, EDGE, rounded(0, 86399.999, 3))


def strat():
    write = fixed(op=st.just("write"), day=st.integers(0, 3), sub=st.integers(0, 1), times=st.lists(SECONDS, max_size=6),
                  windows=st.booleans(), seed=seeds)
    read = fixed(op=st.just("read"), sub=st.integers(0, 1), a=st.integers(-1, 4), asec=SECONDS, b=st.integers(-1, 4),
                 bsec=SECONDS, file=one_in(5, st.just(True), st.just(False)), both=st.booleans(),
                 at=st.lists(one_in(3, st.integers(0, 30), st.none()), min_size=2, max_size=2))  # a bound at an event's very time
    return fixed(name=sampled("run", "run", "a.b", "_r_", "2019.01 x"), base=st.integers(0, len(DAYS) - 1), subs=sampled(["", "b"], ["a", "a2"], ["x.y", ""]),
                 ops=st.lists(one_in(2, write, read), min_size=2, max_size=12))


def event_id(t):
    return t.strftime("%Y%m%d%H%M%S") + f"{t._ns // 10**6 % 1000:03d}"


def make_events(day, times, seed):
    rng = np.random.RandomState(seed)
    rows = []
    for s in sorted(set(times)):
        t = UTCDateTime(ns=day._ns + round(s * 1e9))
        v = rng.uniform(-100, 100, 6) * 10 ** rng.uniform(-3, 3, 6)
        if rng.rand() < 0.2:
            v = np.round(v)
        rows.append([event_id(t), t, *v, t - 3.5, t + 4.25])
    df = pd.DataFrame(rows, columns=COLS + ["MinTime", "MaxTime"])
    return df if len(rows) else df.astype(object)


def compare(ctx, got, want, what, windows=None):
    """want: list of (id, ns, six values, windows or None) in order."""
    ctx.check([str(x) for x in got["EventID"]] == [w[0] for w in want],
              lambda: f"{what}: events {[str(x) for x in got['EventID']]}, expected {[w[0] for w in want]}")
    if not want:
        return
    ctx.check(all(isinstance(t, UTCDateTime) for t in got["CoaTime"]), f"{what}: CoaTime is not a UTCDateTime")
    ctx.equal([t._ns for t in got["CoaTime"]], [w[1] for w in want], f"{what}: CoaTime")
    ctx.close(got[VALS].values.astype(float), [w[2] for w in want], f"{what}: values", rtol=1e-12, atol=0)
    ctx.equal([int(i) for i in got.index], list(range(len(want))), f"{what}: row numbers")


def tidy(name):
    return name.replace(".", "_")


def check(c, ctx):
    d = ctx.tmp()
    base = DAYS[c["base"]]
    name = c.get("name", "run")
    runs = [Run(d, name, s, "trigger") for s in c["subs"]]
    top, subs = pathlib.Path(d) / tidy(name), [tidy(s) for s in c["subs"]]
    def path(o, t):
        """Documented: run/trigger/sub-name/events, with "_" for every "." of the names."""
        sub = subs[o["sub"]]
        return top / "trigger" / sub / "events" / f"{tidy(name)}{'_' * bool(sub)}{sub}_{t.year}_{t.julday:03d}_TriggeredEvents.csv"
    model = {}      # (sub, day) -> (windows, events)
    reads = 0
    for i, o in enumerate(c["ops"]):
        run = runs[o["sub"]]
        what = f"operation {i} ({o['op']})"
        if o["op"] == "write":
            day = base + 86400 * o["day"]
            ev = make_events(day, o["times"], o["seed"])
            keep = ev.copy()
            write_triggered_events(run, ev, day + (0 if o["seed"] % 2 else 3600), o["windows"])
            ctx.check(ev.equals(keep), f"{what}: events modified by writing them")
            model[o["sub"], o["day"]] = (o["windows"], [
                (r[0], r[1]._ns, [float(x) for x in r[2:8]], (r[8]._ns, r[9]._ns)) for r in ev.values.tolist()])
            f = path(o, day)
            ctx.check(f.is_file(), f"{what}: no file {f.name}")
            df = pd.read_csv(f, dtype={"EventID": str})
            ctx.equal(list(df.columns), COLS + ["MinTime", "MaxTime"] * o["windows"], f"{what}: columns of the file")
            if o["windows"] and len(df):
                ctx.equal([(UTCDateTime(a)._ns, UTCDateTime(b)._ns) for a, b in df[["MinTime", "MaxTime"]].values],
                          [e[3] for e in model[o["sub"], o["day"]][1]], f"{what}: trigger windows")
            # nothing else in the directory
            n = sum(len(fs) for _, _, fs in os.walk(top / "trigger"))
            ctx.equal(n, len(model), f"{what}: number of files")
            continue
        reads += 1
        a = UTCDateTime(ns=base._ns + o["a"] * 86400 * 10**9 + round(o["asec"] * 1e9))
        b = UTCDateTime(ns=base._ns + o["b"] * 86400 * 10**9 + round(o["bsec"] * 1e9))
        known = sorted(e[1] for (s, _), m in model.items() if s == o["sub"] for e in m[1])
        if known and o["at"][0] is not None:
            a = UTCDateTime(ns=known[o["at"][0] % len(known)])
        if known and o["at"][1] is not None:
            b = UTCDateTime(ns=known[o["at"][1] % len(known)])
        if b < a:
            a, b = b, a
        mine = {day: m for (s, day), m in model.items() if s == o["sub"]}
        inside = lambda e: a._ns <= e[1] and (e[1] < b._ns if b == UTCDateTime(b.date) else e[1] <= b._ns)  # noqa
        if o["file"]:
            if not mine:
                continue
            day = sorted(mine)[0]
            t = base + 86400 * day
            f = path(o, t)
            kw = dict(starttime=a, endtime=b) if o["both"] else {}
            want = [e for e in mine[day][1] if not o["both"] or inside(e)]
            compare(ctx, read_triggered_events(run, trigger_file=str(f), **kw), want, f"{what} trigger file")
            continue
        days = [x for x in sorted(mine) if UTCDateTime(a.date) <= base + 86400 * x <= b]
        if not days:
            ctx.raises(util.NoTriggerFilesFound, lambda: read_triggered_events(run, starttime=a, endtime=b),
                       f"{what}: no files in the period")
            continue
        want = [e for x in days for e in mine[x][1] if inside(e)]
        compare(ctx, read_triggered_events(run, starttime=a, endtime=b), want, f"{what} {a} - {b}")
    ctx.nontrivial(reads > 0 and len(model) > 0)


# --------------------------------------------------------------- successive trigger runs
class Lut:
    unit_conversion_factor = 1


def strat_runs():
    run = fixed(level=sampled(1.5, 2.5, 3.5, 50.0), sub=sampled("", "b"), windows=st.booleans(),
                a=st.integers(0, 250), len=ints(20, 400), west=sampled(None, None, -14.0))
    return fixed(sr=sampled(10, 20), runs=st.lists(run, min_size=2, max_size=5), seed=seeds)


def check_runs(c, ctx):
    d = ctx.tmp()
    mid = UTCDateTime(2016, 1, 1)
    sr, n = c["sr"], 400
    start = t_add(mid, -200, sr)
    rng = np.random.RandomState(c["seed"])
    coa = np.ones(n)
    peaks = [20, 75, 130, 197, 240, 300, 360]
    amp = rng.permutation([1, 1, 2, 2, 3, 3, 1])
    for p, a in zip(peaks, amp):
        coa[p - 1:p + 2] += [a - 0.4, a, a - 0.4]
    xyz = np.c_[np.linspace(-20, -10, n), np.full(n, 64.0), np.linspace(0, 10, n)]
    scan = ScanmSEED(Run(d, "run", stage="detect"), False, sr)
    scan.append(start, coa.copy(), coa * 0.7, xyz, 1)
    if not scan.written:
        scan.write()
    model = {}
    for i, r in enumerate(c["runs"]):
        a = t_add(start, r["a"], sr)
        b = t_add(start, min(r["a"] + r["len"], n - 1), sr)
        t = Trigger(Lut(), d, "run", static_threshold=r["level"], marginal_window=2 / sr, min_event_interval=5 / sr,
                    pad=5, plot_trigger_summary=False, trigger_name=r["sub"], write_event_time_windows=r["windows"])
        reg = None if r["west"] is None else [-30, 0, -10, r["west"], 90, 100]
        t.trigger(str(a), str(b), region=reg)
        ev = [(p, x) for p, x in zip(peaks, amp) if 1 + x >= r["level"] and (reg is None or xyz[p, 0] <= reg[3])]
        for day in (0, 1):
            lo, hi = (0, 200) if day == 0 else (200, n)
            if max(a, t_add(start, lo, sr)) < min(b, t_add(start, hi, sr)):
                model[r["sub"], day] = (r["windows"], [p for p, _ in ev if lo <= p < hi and a <= t_add(start, p, sr) <= b])
        for sub in ("", "b"):
            mine = {k[1]: v for k, v in model.items() if k[0] == sub}
            if not mine:
                continue
            what = f"after run {i} (results of sub-run {sub!r})"
            run = Run(d, "run", sub, "trigger")
            for day, (win, pk) in mine.items():
                x = mid + (day - 1) * 86400
                f = run.path / "trigger" / sub / "events" / f"{run.name}_{x.year}_{x.julday:03d}_TriggeredEvents.csv"
                if not f.is_file():
                    ctx.check(not pk, f"{what}: no file {f.name}")
                    continue
                ctx.equal(list(pd.read_csv(f).columns), COLS + ["MinTime", "MaxTime"] * win, f"{what}: columns of {f.name}")
            want = [t_add(start, p, sr) for day in sorted(mine) for p in mine[day][1]]
            try:
                got = read_triggered_events(run, starttime=start, endtime=t_add(start, n, sr))
            except util.NoTriggerFilesFound:
                ctx.check(not want, f"{what}: no trigger files")
                continue
            ctx.check([str(x) for x in got["EventID"]] == [event_id(x) for x in want],
                      lambda: f"{what}: events {list(got['EventID'])}, expected {[event_id(x) for x in want]}")
            px = [p for day in sorted(mine) for p in mine[day][1]]
            if px:
                ctx.close(got["COA"].values.astype(float), coa[px], f"{what}: COA", atol=1e-5)
                ctx.close(got["COA_X"].values.astype(float), xyz[px, 0], f"{what}: COA_X", atol=1e-6)
    ctx.nontrivial(len(model) > 0)


FACETS = [
    Facet("files", strat, check, quick=300, thorough=6000, shards=4, rule="at least one write and one read"),
    Facet("runs", strat_runs, check_runs, quick=100, thorough=2000, shards=3, rule="all"),
]
