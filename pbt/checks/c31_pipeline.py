"""C31: detect, trigger and locate together recover planted earthquakes."""
import pathlib
import shutil

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from obspy import UTCDateTime

import e2e
import pipekit
import wavekit
from harness import Facet
from qm import t_add
from quakemigrate import QuakeScan, Trigger
from quakemigrate.signal.local_mag import LocalMag
from quakemigrate.signal.pickers import GaussianPicker
from strategies import fixed, ints, one_in, rounded, sampled, seeds

ASSUMPTIONS = ["sources are 20 s or more apart, 30 times the noise amplitude, at least two nodes inside the grid, and "
               "seen by four or more stations around them",
               "tolerances: origin time 0.4 s (trigger 0.6 s), position 1 node (trigger 1.5 nodes of the detect grid), picks "
               "0.25 s for all but two (errors on the unchanged tree: 0.2 s, 0.2 nodes)"]

MIDNIGHT = UTCDateTime(2021, 2, 4)
TOTAL = 340.0           # s of data: the last timestep may run up to 80 s past the end of the scan
LEAD = 40.0             # s of data before the scan
SCAN = 150.0            # s scanned at most


def strat():
    src = fixed(node=ints(0, 10**6), slot=st.integers(0, 6), jit=rounded(-0.5, 0.5, 3))
    return fixed(seed=seeds, sr=sampled(50, 40, 100), m=sampled(5, 4, 6), units=sampled("km", "m"),
                 proj=sampled("lcc", "tmerc", "laea"), layered=one_in(3, st.just(True), st.just(False)),
                 lon=sampled(10.0, -178.5, 0.02), lat=sampled(45.0, -38.0, 64.5),
                 n=st.tuples(sampled(8, 9, 10), sampled(8, 9), sampled(6, 7)).map(list), sources=one_in(8, st.just([]), st.lists(src, min_size=1, max_size=4, unique_by=lambda s: s["slot"])),
                 decimate=one_in(3, st.just([2, 2, 2]), st.just([1, 1, 1])), timestep=sampled(30.0, 45.5, 80.0),
                 before=rounded(5, 145, 1), subname=sampled("", "sub"), threads=st.integers(1, 4),
                 method=sampled("static", "median_ratio", "mad"), norm=st.booleans(), smooth=st.booleans(),
                 position=sampled("classic", "centred"), layout=sampled("YEAR/JD/STATION", "YEAR/JD/*_STATION_*"),
                 picks=st.booleans(), parts=sampled(1, 1, 2), drop=one_in(4, st.integers(0, 3), st.just(None)))


def run_detect(c, root, lut, arch, start, end, sr):
    on = pipekit.onset(sr, "classic")
    q = QuakeScan(arch, lut, onset=on, run_path=str(root), run_name="r", log=False, threads=c["threads"],
                  timestep=c["timestep"])
    if c["parts"] == 1:
        q.detect(str(start), str(end))
    else:
        q.detect(str(start), str(MIDNIGHT))         # a run per day
        q.detect(str(MIDNIGHT), str(end))


def run_trigger(c, root, lut, start, end):
    kw = dict(static_threshold=3.0) if c["method"] == "static" else \
        dict(median_multiplier=2.0) if c["method"] == "median_ratio" else dict(mad_multiplier=20.0)
    t = Trigger(lut, str(root), "r", log=False, trigger_name=c["subname"], threshold_method=c["method"], marginal_window=1.0,
                min_event_interval=10.0, normalise_coalescence=c["norm"], smooth_coa=c["smooth"],
                plot_trigger_summary=False, pad=60.0, **kw)
    return t


def read_triggered(root):
    fr = [pd.read_csv(f, dtype={"EventID": str}) for f in sorted(pathlib.Path(root).rglob("*_TriggeredEvents.csv"))]
    return pd.concat(fr, ignore_index=True) if fr else pd.DataFrame()


def run_locate(c, root, lut, arch, sr, **where):
    on = pipekit.onset(sr, c["position"])
    q = QuakeScan(arch, lut, onset=on, picker=GaussianPicker(onset=on, plot_picks=False) if c["picks"] else None,
                  run_path=str(root), run_name="r", run_subname=c["subname"], log=False, threads=c["threads"],
                  marginal_window=1.0, plot_event_summary=False, write_cut_waveforms=False)
    q.locate(**where)


def outputs(root):
    root = pathlib.Path(root)
    return {str(p.relative_to(root)): p.read_bytes() for p in sorted(root.rglob("*"))
            if p.is_file() and "locate" in p.parts and p.suffix in (".event", ".picks")}


def check(c, ctx):
    sr = c["sr"]
    root = pathlib.Path(ctx.tmp())
    lut = pipekit.network_lut(c["seed"], c["n"], c["m"], units=c["units"], proj=c["proj"], layered=c["layered"],
                              lon=c["lon"], lat=c["lat"])
    names = list(lut.traveltimes)
    rng = np.random.RandomState(c["seed"])
    t0 = t_add(MIDNIGHT, -round((LEAD + c["before"]) * sr), sr)
    start = t_add(t0, round(LEAD * sr), sr)
    end = t_add(start, round(SCAN * sr) - 1, sr)
    dec = c["decimate"]
    dlut = lut.decimate(dec) if dec != [1, 1, 1] else lut
    n = lut.node_count
    sources = []
    for s in c["sources"]:
        k = round((LEAD + 10 + 20 * s["slot"] + s["jit"]) * sr)
        inner = [(2, int(v) - 3) for v in n]
        h = s["node"]
        node = []
        for lo, hi in inner:
            node.append(lo + h % (hi - lo + 1))
            h //= 97
        if dlut is not lut:        # a node of the decimated grid as well
            near = dlut.index2grid(lut.index2grid(np.array([node])), inverse=True)
            near = np.clip(np.rint(near), 0, dlut.node_count - 1).astype(int)
            node = np.rint(lut.index2grid(dlut.index2grid(near), inverse=True)).astype(int)[0]
        sources.append((tuple(int(v) for v in node), k, 30.0))
    sources.sort(key=lambda v: v[1])
    tr = pipekit.waveforms(lut, names, sr, round(TOTAL * sr), sources, rng)
    if c["drop"] is not None and len(names) > 4:
        gone = names[c["drop"]]
        tr = {k: v for k, v in tr.items() if k[0] != gone}
    e2e.write_archive(root / "arch", [(s, ch, t0, x) for (s, ch), x in tr.items()], sr)
    arch = e2e.archive(root / "arch", names)
    run_detect(c, root / "runs", dlut, arch, start, end, sr)
    t = run_trigger(c, root / "runs", lut, start, end)
    t.trigger(str(start), str(end))
    ev = read_triggered(root / "runs")
    node = lut.node_spacing
    u = lut.unit_conversion_factor
    ctx.label(f"{len(sources)} sources", c["method"], c["units"], "norm" if c["norm"] else "coa",
              "decimated" if dlut is not lut else "full grid")
    ctx.check(len(ev) == len(sources), f"{len(sources)} sources planted, {len(ev)} events triggered:\n{ev.to_string()}"[:1500])
    for (nd, k, _), (_, row) in zip(sources, ev.sort_values("CoaTime").iterrows()):
        ot = t_add(t0, k, sr)
        ctx.check(abs(UTCDateTime(row.CoaTime) - ot) <= 0.6, f"trigger time {row.CoaTime} for a source at {ot}")
        xyz = lut.coord2grid(np.array([[row.COA_X, row.COA_Y, row.COA_Z]]))[0]
        at = lut.index2grid(np.array([nd]))[0]
        ctx.check(np.all(np.abs(xyz - at) <= 1.5 * node * np.array(dec)), f"trigger position {xyz} for a source at {at}")
    if not sources:
        return
    ctx.nontrivial()
    run_locate(c, root / "runs", lut, arch, sr, starttime=str(start), endtime=str(end))
    out = outputs(root / "runs")
    evs = sorted((root / "runs").rglob("*.event"))
    ctx.check(len(evs) == len(sources), f"{len(evs)} events located of {len(sources)}")
    by = []
    for f in evs:
        r = pd.read_csv(f, dtype={"EventID": str}).iloc[0]
        by.append((UTCDateTime(r.DT), r, f))
    by.sort(key=lambda v: v[0])
    trig = ev.sort_values("CoaTime")
    for (nd, k, _), (ot, r, f), (_, row) in zip(sources, by, trig.iterrows()):
        true = t_add(t0, k, sr)
        at = lut.index2grid(np.array([nd]))[0]
        ctx.equal(str(r.EventID), str(row.EventID), "event id of the located event")
        ctx.check(abs(ot - true) <= 0.4, f"origin time {ot} for a source at {true}")
        xyz = lut.coord2grid(np.array([[r.X, r.Y, r.Z]]))[0]
        ctx.check(np.all(np.abs(xyz - at) <= 1.0 * node), f"location {xyz} for a source at {at}")
        pk = pd.read_csv(next((root / "runs").rglob(f"{f.stem}.picks")), dtype=str)
        good = 0
        for _, q in pk.iterrows():
            arr = true + lut.traveltimes[q.Station][q.Phase][nd]
            ctx.check(abs(UTCDateTime(q.ModelledTime) - arr) <= 0.8, f"modelled {q.Phase} at {q.Station}: {q.ModelledTime}, arrival {arr}")
            if q.PickTime not in ("-1", -1):
                good += abs(UTCDateTime(q.PickTime) - arr) <= 0.25
        ctx.check(len(pk) == 2 * len({s for s, _ in tr}), f"{len(pk)} pick rows for {len({s for s, _ in tr})} stations")
        ctx.check(good >= len(pk) - 2, f"only {good} of {len(pk)} picks near the arrivals")
        ctx.label("time within %.1f s" % (np.ceil(abs(ot - true) * 10) / 10))
        ctx.label("position within %.1f nodes" % (np.ceil(np.max(np.abs(xyz - at) / node) * 5) / 5))
    first = out
    run_locate(c, root / "again", lut, arch, sr, trigger_file=str(merge(root, trig)))
    ctx.equal(sorted(first), sorted(outputs(root / "again")), "files located from the trigger file")
    for k, v in outputs(root / "again").items():
        ctx.check(v == first[k], f"{k} differs between a located time range and a located trigger file")


def merge(root, trig):
    p = root / "all_triggered.csv"
    trig.to_csv(p, index=False)
    return p


# ---------------------------------------------------------------- one set of objects for a history of calls
PARAMS = {"timestep": [30.0, 12.5, 20.0], "marginal_window": [1.0, 0.5, 1.5], "threads": [1, 2, 3], "write_marginal_coalescence": [False, True],
          "write_cut_waveforms": [False, True], "pre_cut": [None, 3.0], "post_cut": [None, 12.0]}
TPARAMS = {"threshold_method": ["static", "mad", "median_ratio"], "static_threshold": [2.0, 4.0], "mad_multiplier": [10.0, 25.0],
           "median_multiplier": [1.5, 2.5], "min_event_interval": [6.0, 10.0, 20.0], "normalise_coalescence": [False, True],
           "smooth_coa": [False, True], "pad": [60.0, 20.0], "write_event_time_windows": [False, True], "mad_window_length": [3600.0, 40.0],
           "median_window_length": [3600.0, 30.0]}
AMP = {"signal_window": [0.0, 2.0], "noise_window": [2.0, 5.0]}


def strat_history():
    rng = st.tuples(st.integers(0, 5), st.integers(1, 4)).map(list)         # first 20 s block, number of blocks
    setting = lambda d: st.sampled_from([[k, v] for k, vs in d.items() for v in vs])        # noqa: E731
    op = st.one_of(fixed(op=st.just("detect"), range=rng, set=st.lists(setting(PARAMS), max_size=1)),
                   fixed(op=st.just("trigger"), range=rng, set=st.lists(setting(TPARAMS), max_size=2)),
                   fixed(op=st.just("locate"), range=rng, set=st.lists(setting(PARAMS), max_size=2)))
    return fixed(seed=seeds, m=st.integers(4, 5), n=sampled([6, 5, 5], [7, 6, 5]), before=sampled(50, 63, 40.02), nsrc=st.integers(1, 3),
                 mags=sampled(None, None, "UK"), position=sampled("classic", "centred"), gap=one_in(3, st.integers(0, 4), st.none()),
                 trigs=st.lists(setting(TPARAMS), max_size=3),
                 first=one_in(4, st.just([]), st.just([dict(op="detect", range=[0, 6], set=[]), dict(op="trigger", range=[0, 6], set=[])])),
                 ops=st.lists(op, min_size=2, max_size=4))


def snapshot(root):
    root = pathlib.Path(root)
    return {str(p.relative_to(root)): p.read_bytes() for p in sorted(root.rglob("*")) if p.is_file() and p.suffix != ".log"}


def check_history(c, ctx):
    sr, total = 40, round(200 * 40)
    root = pathlib.Path(ctx.tmp())
    mk_lut = lambda: pipekit.network_lut(c["seed"], c["n"], c["m"])     # noqa: E731
    lut = mk_lut()
    names = list(lut.traveltimes)
    rng = np.random.RandomState(c["seed"])
    t0 = t_add(MIDNIGHT, -round((c["before"] + 30) * sr), sr)
    sources = [(tuple(int(rng.randint(2, v - 2)) for v in c["n"]), round((30 + 12 + 37 * i + rng.uniform(-3, 3)) * sr), 30.0) for i in range(c["nsrc"])]
    tr = pipekit.waveforms(lut, names, sr, total, sources, rng)
    pieces = []
    for (s, ch), x in tr.items():
        x = np.round(x * 1000).astype(np.int32)
        if c["gap"] is not None and s in (names[c["gap"] % len(names)], names[0]):
            k = round((35 + 30 * c["gap"]) * sr)
            pieces += [(s, ch, t0, x[:k]), (s, ch, t_add(t0, k + 200, sr), x[k + 200:])]
        else:
            pieces.append((s, ch, t0, x))
    e2e.write_archive(root / "arch", pieces, sr)
    inv = wavekit.inventory([(f"XX.{s}..{ch}", wavekit.response("1hz", 4e8), None, None) for s in names for ch in pipekit.COMPS])
    mk_arch = lambda: e2e.archive(root / "arch", names, response_inv=inv, water_level=60.0)      # noqa: E731

    def mk(where, arch, lut, scan_set, trig_set):
        on = pipekit.onset(sr, c["position"])
        mags = None
        if c["mags"]:
            mags = LocalMag(dict(signal_window=1.0, noise_window=2.0), dict(A0=c["mags"], amp_feature="S_amp"), plot_amplitudes=False)
        kw = dict(timestep=20.0, marginal_window=1.0, threads=1)
        q = QuakeScan(arch, lut, onset=on, picker=GaussianPicker(onset=on, plot_picks=False), mags=mags, run_path=str(where), run_name="r",
                      plot_event_summary=False, **dict(kw, **{k: v for k, v in scan_set.items() if k not in ("pre_cut", "post_cut")}))
        for k in ("pre_cut", "post_cut"):
            setattr(q, k, scan_set.get(k))
        t = Trigger(lut, str(where), "r", plot_trigger_summary=False, **dict(
            dict(threshold_method="static", static_threshold=2.0, marginal_window=1.0, min_event_interval=6.0, pad=20.0), **trig_set))
        return q, t

    scan_set, trig_set = {}, dict(c["trigs"])
    q, t = mk(root / "shared", mk_arch(), lut, scan_set, trig_set)
    done, wrote, located = set(), 0, 0
    for i, o in enumerate(c["first"] + c["ops"]):
        a = t_add(t0, round((30 + 20 * o["range"][0]) * sr), sr)
        b = t_add(a, round(min(20 * o["range"][1], 120 - 20 * o["range"][0]) * sr) - 1, sr)
        if b <= a:
            continue
        for k, v in o["set"]:
            (trig_set if o["op"] == "trigger" else scan_set)[k] = v
            setattr(t if o["op"] == "trigger" else q, k, v)
        fresh = root / f"fresh{i}"
        if (root / "shared").exists():
            shutil.copytree(root / "shared", fresh)
        q2, t2 = mk(fresh, mk_arch(), mk_lut(), scan_set, trig_set)
        res = []
        for qq, tt in ((q, t), (q2, t2)):
            f = {"detect": qq.detect, "trigger": tt.trigger, "locate": qq.locate}[o["op"]]
            try:
                f(str(a), str(b))
                res.append(None)
            except Exception as e:
                res.append(type(e).__name__)
        ctx.equal(res[0], res[1], f"outcome of {o['op']} (call {i}) with used and fresh objects")
        ctx.check(res[0] is None or res[0].startswith("No"), f"{o['op']} (call {i}) failed with {res[0]}")
        x, y = snapshot(root / "shared"), snapshot(fresh)
        ctx.equal(sorted(x), sorted(y), f"files after {o['op']} (call {i}) with used and fresh objects")
        for k in x:
            ctx.check(x[k] == y[k], f"{k} differs after {o['op']} (call {i}) between used and fresh objects")
        wrote += res[0] is None
        located += o["op"] == "locate" and any(k.endswith(".event") for k in x)
        ctx.label(o["op"] + ("" if res[0] is None else " nothing to do"))
        shutil.rmtree(fresh, ignore_errors=True)
    ctx.nontrivial(wrote >= 2)
    ctx.label("located" if located else "not located")


FACETS = [Facet("detect-trigger-locate", strat, check, quick=60, thorough=600, shards=4, rule="at least one source planted"),
          Facet("history", strat_history, check_history, quick=60, thorough=800, shards=4, rule="at least two calls wrote results")]
