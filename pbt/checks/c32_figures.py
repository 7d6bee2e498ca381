"""C32: figures change nothing else and never fail."""
import os
import pathlib

import matplotlib.pyplot as plt
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from obspy import UTCDateTime

import e2e
import pipekit
import wavekit
from harness import Facet
from qm import t_add
from quakemigrate import QuakeScan, Trigger
from quakemigrate.io import Run
from quakemigrate.io.availability import write_availability
from quakemigrate.io.scanmseed import ScanmSEED
from quakemigrate.signal.local_mag import LocalMag
from quakemigrate.signal.onsets import STALTAOnset
from quakemigrate.signal.pickers import GaussianPicker
from strategies import fixed, one_in, rounded, sampled, seeds

ASSUMPTIONS = ["the contents of the figures are judged by C35, here only that each requested file is made",
               "station codes hold no underscore (SEED)"]

MIDNIGHT = UTCDateTime(2021, 2, 4)


def files(root, figures=False):
    root = pathlib.Path(root)
    return {str(p.relative_to(root)): p.read_bytes() for p in sorted(root.rglob("*"))
            if p.is_file() and (p.suffix == ".pdf") == figures and p.suffix != ".log"}


def xy_file(d, kind):
    """A table of coordinate files, or None."""
    if kind is None:
        return None
    d = pathlib.Path(d)
    (d / "line.csv").write_text("# outline\n9.99,44.99\n10.01,45.0\n10.02,45.02\n")
    (d / "one.csv").write_text("10.0,45.0\n")
    rows = {"one": [("line.csv", "black", "0.5", "-")],
            "two": [("line.csv", "#ff0000", "1", "--"), ("one.csv", "blue", "2.5", ":")]}[kind]
    (d / "xy.csv").write_text("# File,Color,Linewidth,Linestyle\n" * (kind == "one")
                              + "".join(",".join([str(d / f)] + list(r)) + "\n" for f, *r in rows))
    return str(d / "xy.csv")


def attempt(fn):
    try:
        fn()
    except Exception as e:      # noqa: BLE001  compared between the two runs
        return e
    return None


# ---------------------------------------------------------------- locate
mag_s = fixed(feature=sampled("S_amp", "P_amp"), a0=sampled("Hutton-Boore", "UK", "keir2006"), hyp=st.booleans(),
              trace=sampled(None, None, ".*H[NE]$", ".*Z$", ".*X$"), noise=sampled(1.0, 0.0, 3.0, 1.0, 1000.0),
              dist=sampled(False, False, 5.0, 0.001), stations=sampled(None, ["STA"], ["STA", "B"]),
              pick=st.booleans(), weighted=st.booleans(), measure=sampled("RMS", "STD", "ENV"), resp=one_in(5, st.just(0), st.just(1)),
              corr=sampled(0.0, 0.3), filt=sampled(None, "hp", "bp"), plot=sampled(True, True, False))


def locate_strat():
    return fixed(seed=seeds, sr=sampled(50, 20, 25, 10, 5, 4), m=st.integers(1, 4), units=sampled("km", "m"),
                 proj=sampled("lcc", "utm", "tmerc"), n=st.tuples(*[sampled(4, 5, 3)] * 3).map(list), spacing=sampled(1.0, 0.4, 3.0),
                 phases=sampled(["P", "S"], ["P", "S"], ["P"], ["S"], ["S", "P"]), sta=st.integers(3, 8), lta=st.integers(9, 40),
                 position=sampled("classic", "centred"), drop=st.lists(st.tuples(st.integers(0, 3), st.integers(0, 2)).map(list), max_size=2),
                 amp=sampled(30.0, 30.0, 5.0, 0.0), noise=one_in(8, st.just(0.0), st.just(1.0)), mw=sampled(0.5, 1.0), nev=sampled(1, 1, 2),
                 event=sampled(True, True, True, False), picks=sampled(True, False), mags=one_in(2, mag_s, st.none()), all_stns=st.booleans(),
                 xy=sampled(None, None, "one", "two"), sub=sampled("", "sub"), cut=sampled(False, "raw", "real", "wa"),
                 chans=sampled("ZNE", "Z12"), at=sampled("centre", "centre", "station"))


def locate_run(c, root, lut, arch, trig, on, picker=GaussianPicker, watch=None):
    on_ = STALTAOnset(sampling_rate=c["sr"], phases=list(c["phases"]), position=c["position"],
                      bandpass_filters={p: [0.15 * c["sr"], 0.4 * c["sr"], 2] for p in c["phases"]},
                      sta_lta_windows={p: [c["sta"] / c["sr"], c["lta"] / c["sr"]] for p in c["phases"]},
                      channel_maps={p: v for p, v in dict(P="*Z", S="*[N,E,1,2]").items() if p in c["phases"]},
                      channel_counts={p: v for p, v in dict(P=1, S=2).items() if p in c["phases"]})
    mags = None
    if c["mags"]:
        g = c["mags"]
        amp = dict(signal_window=0.5, noise_window=1.0, noise_measure=g["measure"])
        if g["filt"] == "hp":
            amp.update(highpass_filter=True, highpass_freq=1.0)
        elif g["filt"] == "bp":
            amp.update(bandpass_filter=True, bandpass_lowcut=0.5, bandpass_highcut=0.4 * c["sr"])
        mags = LocalMag(amp, dict(A0=g["a0"], use_hyp_dist=g["hyp"], amp_feature=g["feature"], trace_filter=g["trace"],
                                  noise_filter=g["noise"], dist_filter=g["dist"], station_filter=g["stations"],
                                  pick_filter=g["pick"], weighted_mean=g["weighted"],
                                  station_corrections={f"XX.STA..HH{q}": g["corr"] * k for k, q in enumerate("N12Z", 1)} if g["corr"] else {}),
                        plot_amplitudes=on and g["plot"])
        if watch:
            watch(mags)
    q = QuakeScan(arch, lut, onset=on_, picker=picker(onset=on_, plot_picks=on and c["picks"]), mags=mags,
                  run_path=str(root), run_name="r", run_subname=c["sub"], log=False, threads=2, marginal_window=c["mw"],
                  plot_event_summary=on and c["event"], plot_all_stns=c["all_stns"],
                  xy_files=xy_file(root, c["xy"]) if on else None,
                  write_cut_waveforms=c["cut"] == "raw", write_real_waveforms=c["cut"] == "real",
                  write_wa_waveforms=c["cut"] == "wa", write_marginal_coalescence=True)
    q.locate(trigger_file=str(trig))


def locate_setup(c, root):
    """Write the archive and the trigger file; None if there is no data at all."""
    sr = c["sr"]
    lut = pipekit.network_lut(c["seed"], c["n"], c["m"], units=c["units"], proj=c["proj"], spacing=c["spacing"])
    names = list(lut.traveltimes)
    rng = np.random.RandomState(c["seed"])
    tt = max(lut.traveltimes[s][p].max() for s in names for p in ("P", "S"))
    lead = 12 + 2 * c["lta"] / sr + tt
    gap = 6 * c["mw"] + 1.0
    total = round((2 * lead + 4 * tt + 2 * gap + 10) * sr)
    t0 = t_add(MIDNIGHT, -round(lead * sr), sr)
    ks = [round((lead + i * gap) * sr) for i in range(c["nev"])]
    node = (c["n"][0] // 2, c["n"][1] // 2, c["n"][2] // 2)
    if c.get("at") == "station":
        first = lut.traveltimes[names[0]][c["phases"][0]]
        node = tuple(int(v) for v in np.unravel_index(np.argmin(first), first.shape))
    data = pipekit.waveforms(lut, names, sr, total, [(node, k, c["amp"]) for k in ks], rng, noise=c["noise"], freq=0.25 * sr)
    gone = {(names[i % len(names)], pipekit.COMPS[j]) for i, j in c["drop"]}
    rename = {"HHN": "HH1", "HHE": "HH2"} if c["chans"] == "Z12" else {}
    pieces = [(s, rename.get(ch, ch), t0, (x * 1000).astype("int32")) for (s, ch), x in data.items() if (s, ch) not in gone]
    if not pieces:
        return None
    e2e.write_archive(root / "arch", pieces, sr)
    inv = None
    if c["mags"] or c["cut"] in ("real", "wa"):
        ids = [f"XX.{s}..{ch}" for s, ch, _, _ in pieces]
        if c["mags"] and not c["mags"]["resp"]:
            ids = ids[1:]
        inv = wavekit.inventory([(i, wavekit.response("1hz", 400.0), None, None) for i in ids] or
                                [("ZZ.ZZ..HHZ", wavekit.response("1hz", 400.0), None, None)])
    kw = dict(response_inv=inv, water_level=60) if inv is not None else {}
    arch = e2e.archive(root / "arch", names, **kw)
    trig = root / "trig.csv"
    pd.DataFrame([dict(EventID="", CoaTime=str(t_add(t0, k, sr)), TRIG_COA=2.0, COA_X=10.0, COA_Y=45.0, COA_Z=0.0,
                       COA=2.0, COA_NORM=2.0) for k in ks]).assign(
        EventID=lambda f: [pd.Timestamp(t).strftime("%Y%m%d%H%M%S%f")[:17] for t in f.CoaTime]).to_csv(trig, index=False)
    return lut, names, data, gone, arch, trig


def check_locate(c, ctx):
    root = pathlib.Path(ctx.tmp())
    world = locate_setup(c, root)
    if world is None:
        return
    lut, names, data, gone, arch, trig = world
    for d in ("plain", "figs"):
        (root / d).mkdir()
    open_before = plt.get_fignums()
    e1 = attempt(lambda: locate_run(c, root / "plain", lut, arch, trig, False))
    e2 = attempt(lambda: locate_run(c, root / "figs", lut, arch, trig, True))
    if e1 is not None:
        ctx.label(f"plain run raised {type(e1).__name__}")
        ctx.check(type(e1) is type(e2), lambda: f"{e1!r} without figures, {e2!r} with figures")
        return
    if e2 is not None:
        raise e2
    ctx.equal(plt.get_fignums(), open_before, "figures left open")
    plain, figs = files(root / "plain"), files(root / "figs")
    figs = {k: v for k, v in figs.items() if "/" in k}          # not the xy files
    ctx.equal(sorted(figs), sorted(plain), "output files with figures")
    for k, v in plain.items():
        ctx.check(figs[k] == v, f"{k} differs with figures")
    ctx.equal(sorted(files(root / "plain", True)), [], "figures of the run without figures")
    # --- requested figures ---
    made = set(files(root / "figs", True))
    base = "r/locate" + f"/{c['sub']}" * bool(c["sub"])
    name = "r" + f"_{c['sub']}" * bool(c["sub"])
    want = set()
    has = {s: {ch for s2, ch in data if s2 == s and (s, ch) not in gone} for s in names}
    for f in plain:
        if not f.endswith(".event"):
            continue
        uid = pathlib.Path(f).stem
        ctx.label("event")
        if c["event"]:
            want.add(f"{base}/summaries/{name}_{uid}_EventSummary.pdf")
        if c["picks"]:
            want |= {f"{base}/pick_plots/{uid}/{uid}_{s}.pdf" for s in names
                     if "P" in c["phases"] and "HHZ" in has[s] or "S" in c["phases"] and has[s] & {"HHN", "HHE"}}
        if c["mags"] and c["mags"]["plot"]:
            ev = pd.read_csv(root / "plain" / f)
            if np.isfinite(ev["ML"].iloc[0]):
                ctx.label("magnitude")
                want.add(f"{base}/amplitude_plots/{name}_{uid}_AmpVsDistance.pdf")
    ctx.equal(sorted(made), sorted(want), "figures made")
    ctx.check(all(os.path.getsize(root / "figs" / f) > 1000 for f in made), "an empty figure")
    ctx.nontrivial(len(made) > 0)


# ---------------------------------------------------------------- trigger
def trigger_strat():
    return fixed(seed=seeds, sr=sampled(10, 25, 50), dur=rounded(10, 60, 1), pos=rounded(-0.1, 1.1, 2), units=sampled("km", "m"),
                 nb=sampled(0, 1, 2, 5), level=sampled(1.5, 1.5, 1.5, 50.0, 0.0), method=sampled("static", "mad", "median_ratio"),
                 norm=st.booleans(), smooth=st.booleans(), region=sampled(None, None, "all", "half", "none"),
                 avail=sampled("both", "P", "S", "differ", "late", "late", "missing", "zero", "old", "three"), step=sampled(5.0, 7.3, 30.0), all_stns=st.booleans(),
                 xy=sampled(None, None, "one", "two"), sub=sampled("", "sub"), n=st.tuples(*[sampled(3, 5, 8)] * 3).map(list),
                 m=st.integers(1, 5), windows=st.booleans(), proj=sampled("lcc", "utm"), a=rounded(0, 0.2, 2), b=rounded(0.8, 1.0, 2), one=sampled(0, 0, 0, 1))


def trigger_run(c, root, lut, lo, hi, reg, on):
    kw = dict(static_threshold=c["level"], mad_multiplier=c["level"] * 5, median_multiplier=max(c["level"], 1.05))
    t = Trigger(lut, str(root), "r", trigger_name=c["sub"], log=False, threshold_method=c["method"], marginal_window=0.5,
                min_event_interval=1.5, normalise_coalescence=c["norm"], smooth_coa=c["smooth"], plot_trigger_summary=on,
                pad=5.0, plot_all_stns=c["all_stns"], xy_files=xy_file(root, c["xy"]) if on else None,
                write_event_time_windows=c["windows"], **kw)
    t.trigger(str(lo), str(hi), region=reg)


def scan_files(c, root, lut, start, n):
    rng = np.random.RandomState(c["seed"])
    t = np.arange(n) / c["sr"]
    coa = 1 + 0.05 * np.abs(rng.normal(0, 1, n))
    for _ in range(c["nb"]):
        coa += 2 * np.exp(-0.5 * ((t - rng.uniform(0, t[-1])) / 0.2) ** 2)
    lo, hi = lut.get_grid_extent()
    xyz = rng.uniform(lo, hi, (n, 3))
    scan = ScanmSEED(Run(str(root), "r", stage="detect"), False, c["sr"])
    scan.append(start, coa, coa ** 0.9, xyz, lut.unit_conversion_factor)
    if not scan.written:
        scan.write()
    names = list(lut.traveltimes)
    if c["avail"] == "missing":
        return None
    phases = {"P": ["P"], "S": ["S"], "three": ["P", "S", "Pn"]}.get(c["avail"], ["P", "S"])
    k = int(np.ceil(n / c["sr"] / c["step"]))
    first = start - 86400 * 3 if c["avail"] == "old" else start
    idx = [str(t_add(first, round(i * c["step"] * c["sr"]), c["sr"])) for i in range(k)]
    cols = {}
    for s in names:
        for p in phases:
            v = rng.randint(0, 2, k) if c["avail"] == "differ" else (np.arange(k) >= names.index(s)).astype(int) if c["avail"] == "late" else np.full(k, int(c["avail"] != "zero"))
            cols[f"{s}_{p}"] = v
    write_availability(Run(str(root), "r", stage="detect"), pd.DataFrame(cols, index=list(idx)))
    return pd.DataFrame(cols, index=[UTCDateTime(t) for t in idx])


def trigger_setup(c):
    sr = c["sr"]
    lut = pipekit.network_lut(c["seed"], c["n"], c["m"], units=c["units"], proj=c["proj"])
    n = round(c["dur"] * sr)
    start = t_add(MIDNIGHT, -round(c["pos"] * n), sr)
    lo, hi = t_add(start, round(c["a"] * n), sr), t_add(start, round(c["b"] * n) - 1, sr)
    ext = lut.get_grid_extent()
    if c["region"] is None:
        reg = None
    elif c["region"] == "none":
        reg = [*(ext[1] + 1), *(ext[1] + 2)]
    else:
        mid = ext[1] if c["region"] == "all" else (ext[0] + ext[1]) / 2
        reg = [*ext[0], *mid]
    return lut, n, start, lo, hi, reg


def check_trigger(c, ctx):
    root = pathlib.Path(ctx.tmp())
    lut, n, start, lo, hi, reg = trigger_setup(c)
    for d in ("plain", "figs"):
        (root / d).mkdir()
        scan_files(c, root / d, lut, start, n)
    open_before = plt.get_fignums()
    e1 = attempt(lambda: trigger_run(c, root / "plain", lut, lo, hi, reg, False))
    e2 = attempt(lambda: trigger_run(c, root / "figs", lut, lo, hi, reg, True))
    if e1 is not None:
        ctx.label(f"plain run raised {type(e1).__name__}")
        ctx.check(type(e1) is type(e2), lambda: f"{e1!r} without figures, {e2!r} with figures")
        return
    if e2 is not None:
        raise e2
    ctx.equal(plt.get_fignums(), open_before, "figures left open")
    plain, figs = files(root / "plain"), files(root / "figs")
    figs = {k: v for k, v in figs.items() if "/" in k}
    ctx.equal(sorted(figs), sorted(plain), "output files with figures")
    for k, v in plain.items():
        ctx.check(figs[k] == v, f"{k} differs with figures")
    days = {(t.year, t.julday) for t in (lo, hi)}
    name = "r" + f"_{c['sub']}" * bool(c["sub"])
    want = {f"r/trigger{'/' + c['sub'] if c['sub'] else ''}/summaries/{name}_{y}_{j:03d}_Trigger.pdf" for y, j in days}
    ctx.equal(sorted(files(root / "figs", True)), sorted(want), "figures made")
    ctx.nontrivial()
    ctx.label(c["avail"], f"region {c['region']}")


FACETS = [
    Facet("trigger", trigger_strat, check_trigger, quick=36, thorough=500, shards=3, rule="a run with and without figures completed"),
    Facet("locate", locate_strat, check_locate, quick=100, thorough=800, shards=5, rule="a figure was made"),
]
