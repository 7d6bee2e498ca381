"""C26: located runs exported to ObsPy, NonLinLoc, Snuffler and MFAST against the files the run wrote."""
import csv
import os
import pathlib
import re
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from obspy import Stream, Trace, UTCDateTime, read, read_events
from obspy.core.event import Event, Pick, QuantityError, WaveformStreamID
from obspy.geodetics import gps2dist_azimuth, kilometer2degrees

import lutgen
from checks.c21_eventfiles import DAYS, SECONDS, Picker, make
from harness import Facet
from quakemigrate.export.to_mfast import sac_mfast
from quakemigrate.export.to_nlloc import nlloc_obs
from quakemigrate.export.to_obspy import read_quakemigrate
from quakemigrate.export.to_snuffler import snuffler_markers, snuffler_stations
from quakemigrate.io import Run
from quakemigrate.io.amplitudes import write_amplitudes
from strategies import fixed, one_in, rounded, sampled, seeds

ASSUMPTIONS = ["every event has a pick file (locate always writes one)",
               "degrees of longitude and latitude uncertainty are great-circle degrees, as in ObsPy's own readers",
               "the Snuffler marker file carries the origin time and picks only"]

NAMES = [["ST0", "ST1", "ST2"], ["1001", "1002", "1003"], ["0101", "0102", "11"], ["NA", "A1", "NAN"], ["ABCDE", "A", "1E5"]]


def event_strat(mfast=False):
    mags = one_in(3, st.none(), fixed(nan=one_in(4, st.just(True), st.just(False)), seed=seeds))
    return fixed(day=st.integers(0, len(DAYS) - 1), sec=SECONDS, seed=seeds, mags=mags, old=sampled(0, 0, 1),
                 intid=st.booleans(), n=st.integers(1, 4), peak=st.integers(0, 3), exponent=sampled(0, 0, -3, 3),
                 nan=st.booleans(), picks=st.lists(st.booleans(), min_size=2 if mfast else 0, max_size=6),
                 seedids=st.booleans(), amps=sampled(0, 1, 2), mag_scale=sampled(1, 1, 0.001, 100),
                 nocol=sampled(False, False, True), sonly=one_in(4, st.integers(1, 7), st.just(0)))


def strat(mfast=False):
    return fixed(grid=lutgen.grid_strat(4), names=st.integers(0, len(NAMES) - 1), sub=sampled("", "sub"),
                 ph=sampled("S", "P"), dirs=st.lists(st.booleans(), min_size=2, max_size=2),
                 events=st.lists(event_strat(mfast), min_size=1, max_size=4 if not mfast else 2),
                 empty=one_in(15, st.just(True), st.just(False)))


def table(path):
    """Rows of a CSV file as dictionaries of strings."""
    with open(path, newline="") as f:
        return list(csv.DictReader(f))


def num(x):
    return np.nan if x in ("", "nan", "NaN") else float(x)


def run_dir(c, ctx):
    """Write the run with QuakeMigrate's own writers; {uid: (event row, picks, amps or None)} as read from the files."""
    lut = lutgen.random_lut(dict(c["grid"], n=[max(n, 2) for n in c["grid"]["n"]]), 1, 1, phases=["P"])
    root = ctx.tmp()
    run = Run(root, "run", c["sub"], stage="locate")
    picker = Picker()
    loc = pathlib.Path(root) / "run" / "locate" / c["sub"]
    loc.mkdir(parents=True)
    for k, name in enumerate(("real", "wa")):
        if c["dirs"][k]:
            (loc / f"{name}_cut_waveforms").mkdir()
    out = {}
    for i, e in enumerate([] if c["empty"] else c["events"]):
        ev, picks, amps, row = make(c, dict(e, names=NAMES[c["names"]]), lut, i)
        uid = str(ev.uid)
        ev.write(run, lut)
        picker.write(run, ev.uid, picks)
        with_amps = e["mags"] is not None
        if with_amps:
            if e["nocol"] and e["mags"]["nan"]:  # no amplitude of the chosen phase: no magnitudes either
                amps = amps.drop(columns=["ML", "ML_Err"])
                for col in amps.columns:
                    if col.startswith(c["ph"] + "_"):
                        amps[col] = np.nan
            for ph in "PS":  # a measurement is there with all its columns or not at all
                cols = [col for col in amps.columns if col.startswith(f"{ph}_")]
                none = amps[f"{ph}_amp"].isna()
                amps[cols] = amps[cols].where(amps[cols].notna(), 1.5)
                amps.loc[none, cols] = np.nan
            write_amplitudes(run, amps, ev)
        out[uid] = (table(loc / "events" / f"{uid}.event")[0], table(loc / "picks" / f"{uid}.picks"),
                    table(loc / "amplitudes" / f"{uid}.amps") if with_amps else None)
    units = "km" if lut.unit_conversion_factor > 10 else "m"
    return root, loc, units, out


def same(a, b):
    """Equal numbers (parsing may differ in the last bit)."""
    a, b = float(a), float(b)
    return (np.isnan(a) and np.isnan(b)) or a == b or abs(a - b) <= 1e-12 * abs(b)


def want_picks(picks):
    """[(station, phase, method, time in microseconds, uncertainty, snr)] of a pick table."""
    out = []
    for p in picks:
        us = lambda t: UTCDateTime(t)._ns // 1000  # noqa: E731
        out.append((p["Station"], p["Phase"], "modelled", us(p["ModelledTime"]), None, None))
        if p["PickTime"] != "-1":
            out.append((p["Station"], p["Phase"], "autopick", us(p["PickTime"]), float(p["PickError"]), float(p["SNR"])))
    return sorted(out, key=str)


def got_picks(ev):
    out = []
    for p in ev.picks:
        snr = p.extra.snr["value"] if "snr" in p.extra else None
        out.append((p.waveform_id.station_code, p.phase_hint, str(p.method_id).split("/")[-1], p.time._ns // 1000,
                    p.time_errors.uncertainty, snr))
    return sorted(out, key=str)


def check_event(ctx, ev, uid, row, picks, amps, f, ph, loc, dirs):
    ctx.equal(ev.resource_id.id, uid, "event id")
    ctx.check(ev.preferred_origin() is ev.origins[0] and len(ev.origins) == 2, f"{uid}: preferred origin is the spline location")
    for o, pre in zip(ev.origins, ("", "GAU_")):
        ctx.equal(o.time._ns // 1000, UTCDateTime(row["DT"])._ns // 1000, f"{uid}: {pre or 'spline '}origin time")
        for got, want, what in ((o.longitude, num(row[pre + "X"]), "longitude"), (o.latitude, num(row[pre + "Y"]), "latitude"),
                                (o.depth, num(row[pre + "Z"]) * f, "depth"),
                                (o.longitude_errors.uncertainty, kilometer2degrees(num(row["GAU_ErrX"]) * f / 1e3), "longitude error"),
                                (o.latitude_errors.uncertainty, kilometer2degrees(num(row["GAU_ErrY"]) * f / 1e3), "latitude error"),
                                (o.depth_errors.uncertainty, num(row["GAU_ErrZ"]) * f, "depth error")):
            ctx.check(same(got, want), lambda: f"{uid}: {pre or 'spline '}{what} {got}, the run has {want}")
        ce = o.origin_uncertainty.confidence_ellipsoid
        lengths = sorted([ce.semi_major_axis_length, ce.semi_intermediate_axis_length, ce.semi_minor_axis_length])
        want = sorted(num(row[f"COV_Err{a}"]) * f for a in "XYZ")
        ctx.check(all(map(same, lengths, want)), lambda: f"{uid}: ellipsoid {lengths}, the run has {want}")
    for key in ("COA", "COA_NORM", "TRIG_COA", "DEC_COA", "DEC_COA_NORM"):
        ctx.check(same(ev.extra[key.lower()]["value"], num(row[key])), lambda: f"{uid}: {key} {ev.extra[key.lower()]}, {row[key]}")
    ctx.equal(str(ev.extra.cut_waveforms_file["value"]), str((loc / "raw_cut_waveforms" / f"{uid}.m").resolve()), "cut waveforms file")
    for k, name in enumerate(("real", "wa")):
        key = f"{name}_cut_waveforms_file"
        ctx.equal(str(ev.extra[key]["value"]) if key in ev.extra else None,
                  str((loc / f"{name}_cut_waveforms" / f"{uid}.m").resolve()) if dirs[k] else None, key)
    ctx.equal(got_picks(ev), want_picks(picks), f"{uid}: picks")
    if amps is None:
        ctx.check(not ev.amplitudes and not ev.magnitudes and not ev.station_magnitudes, f"{uid}: magnitudes without amplitudes")
        return
    want = [(a, p) for a in amps for p in "PS" if not np.isnan(num(a[f"{p}_amp"]))]
    ctx.equal([(a.waveform_id.get_seed_string(), str(a.method_id).split("/")[-1]) for a in ev.amplitudes],
              [(a["id"], f"{p}_amp") for a, p in want], f"{uid}: amplitudes")
    stamags = {m.amplitude_id.id: m for m in ev.station_magnitudes}
    n = 0
    for got, (a, p) in zip(ev.amplitudes, want):
        what = f"{uid}: {a['id']} {p}"
        for x, y, name in ((got.generic_amplitude, num(a[f"{p}_amp"]) / 1e3, "amplitude (m)"),
                           (got.generic_amplitude_errors.uncertainty, num(a["Noise_amp"]) / 1e3, "noise amplitude (m)"),
                           (got.period, 1 / num(a[f"{p}_freq"]), "period"),
                           (got.extra.filter_gain["value"], num(a[f"{p}_filter_gain"]), "filter gain"),
                           (got.extra.avg_amp["value"], num(a[f"{p}_avg_amp"]) / 1e3, "average amplitude (m)")):
            ctx.check(same(np.nan if x is None else x, y), lambda: f"{what}: {name} {x}, the run has {y}")
        ctx.equal(got.time_window.reference._ns // 1000, UTCDateTime(a[f"{p}_time"])._ns // 1000, f"{what}: time")
        sm = stamags.get(got.resource_id.id)
        has = p == ph and not np.isnan(num(a.get("ML", "")))
        ctx.check((sm is not None) == has, lambda: f"{what}: station magnitude {sm}")
        if has:
            n += 1
            for x, y, name in ((sm.mag, num(a["ML"]), "ML"), (sm.mag_errors.uncertainty, num(a["ML_Err"]), "ML error"),
                               (sm.extra.epi_dist["value"], num(a["epi_dist"]), "epicentral distance"),
                               (sm.extra.z_dist["value"], num(a["z_dist"]), "depth difference")):
                ctx.check(same(np.nan if x is None else x, y), lambda: f"{what}: {name} {x}, the run has {y}")
            ctx.equal(str(sm.extra.picked["value"]), a["is_picked"], f"{what}: picked")
    ctx.equal(len(ev.station_magnitudes), n, f"{uid}: station magnitudes")
    if np.isnan(num(row["ML"])):
        ctx.check(not ev.magnitudes, f"{uid}: a magnitude where the run has none")
        return
    ctx.equal(len(ev.magnitudes), 1, f"{uid}: magnitudes")
    m = ev.preferred_magnitude()
    ctx.equal(m.station_count, n, f"{uid}: stations used")
    for x, y, name in ((m.mag, num(row["ML"]), "ML"), (m.mag_errors.uncertainty, num(row["ML_Err"]), "ML error"),
                       (m.extra.r2["value"], num(row["ML_r2"]), "r2")):
        ctx.check(same(np.nan if x is None else x, y), lambda: f"{uid}: {name} {x}, the run has {y}")


def export(c, ctx):
    root, loc, units, want = run_dir(c, ctx)
    cat = read_quakemigrate(str(pathlib.Path(root) / "run"), units, run_subname=c["sub"], local_mag_ph=c["ph"])
    got = {e.resource_id.id.split("/")[-1]: e for e in cat}
    ctx.equal(len(cat), len(got), "events of distinct ids")
    ctx.equal(sorted(got), sorted(want), "events exported")
    return root, loc, units, want, got, cat


def check_obspy(c, ctx):
    root, loc, units, want, got, cat = export(c, ctx)
    f = 1e3 if units == "km" else 1.0
    for uid, (row, picks, amps) in want.items():
        check_event(ctx, got[uid], uid, row, picks, amps, f, c["ph"], loc, c["dirs"])
    if want:  # and the catalogue survives ObsPy's own format
        path = os.path.join(root, "cat.xml")
        cat.write(path, format="QUAKEML")
        back = {e.resource_id.id.split("/")[-1]: e for e in read_events(path)}
        ctx.equal(sorted(back), sorted(want), "events after a QuakeML round trip")
        for uid, (row, picks, amps) in want.items():
            o, mine = back[uid].preferred_origin(), got[uid].origins[0]
            ctx.equal(o.time._ns // 1000, mine.time._ns // 1000, "origin time after a QuakeML round trip")
            ctx.close([o.longitude, o.latitude, o.depth], [mine.longitude, mine.latitude, mine.depth],
                      "origin after a QuakeML round trip", rtol=1e-9, atol=1e-9)
            ctx.equal(sorted((p.waveform_id.station_code, p.phase_hint, p.time._ns // 1000) for p in back[uid].picks),
                      sorted((p[0], p[1], p[3]) for p in want_picks(picks)), "picks after a QuakeML round trip")
    npicks = sum(len(p) for _, p, _ in want.values())
    ctx.nontrivial(npicks > 0 and len(want) > 0)
    ctx.label(units, f"names {c['names']}", *(["magnitudes"] if any(a for _, _, a in want.values()) else []),
              *(["missing picks"] if any(p["PickTime"] == "-1" for _, ps, _ in want.values() for p in ps) else []))


def check_text(c, ctx):
    root, loc, units, want, got, cat = export(c, ctx)
    n = 0
    for uid, (row, picks, amps) in want.items():
        ev, ref = got[uid], want_picks(picks)
        for auto in (True, False):
            path = os.path.join(root, f"{uid}.obs")
            nlloc_obs(ev, path, autopick=auto)
            lines = [x.split() for x in open(path).read().splitlines() if x.strip()]
            back = []
            for x in lines:
                ctx.equal(len(x), 15, "fields of a NonLinLoc phase line: {}".format(" ".join(x)))
                ctx.check(re.fullmatch(r"\d{8}", x[6]) and re.fullmatch(r"\d{4}", x[7]), lambda: f"date and time of {x}")
                ctx.check(x[9] == "GAU", lambda: f"error type of {x}")
                t = UTCDateTime(f"{x[6]}T{x[7]}00")._ns / 1e9
                back.append((x[0], x[4], round(t) * 10**6 + round(float(x[8]) * 1e6), float(x[10])))
            sel = [r for r in ref if r[2] == ("autopick" if auto else "modelled")]
            exp = [(r[0], r[1], r[3], float(f"{r[4]:.2e}") if auto else -1.0) for r in sel]
            ctx.equal(len(back), len(exp), f"{uid}: NonLinLoc phases")
            for g, w in zip(sorted(back), sorted(exp)):
                ctx.check(g[:2] == w[:2] and abs(g[2] - w[2]) <= 51 and g[3] == w[3],
                          lambda: f"{uid}: NonLinLoc phase {g}, expected {w} (microseconds)")
            n += len(back)
        snuffler_markers(ev, root)
        lines = open(os.path.join(root, uid, f"{uid}.markers")).read().splitlines()
        ctx.check(lines[0].startswith("# Snuffler Markers File Version"), "first line of the marker file")
        back, evs = [], []
        for x in lines[1:]:
            x = x.split()
            t = UTCDateTime(f"{x[1]}T{x[2]}")._ns // 1000
            if x[0] == "event:":
                evs.append((t, x[4]))
            else:
                ctx.equal(x[0], "phase:", "marker type")
                net, sta, _, cha = x[4].split(".")
                ctx.check(cha[-1:] in {"P": "Z", "S": "NE12"}[x[8]], lambda: f"{uid}: {x[8]} marker on channel {cha}")
                back.append((sta, x[8], t))
        ctx.equal(evs, [(UTCDateTime(row["DT"])._ns // 1000, uid)], f"{uid}: Snuffler event marker")
        ctx.equal(sorted(back), sorted((r[0], r[1], r[3]) for r in ref), f"{uid}: Snuffler phase markers")
    # stations
    rng = np.random.RandomState(len(want) + 17 * c["names"])
    names = NAMES[c["names"]]
    df = pd.DataFrame({"Name": names, "Latitude": rng.uniform(-90, 90, 3), "Longitude": rng.uniform(-180, 180, 3),
                       "Elevation": rng.uniform(-3, 3, 3)})
    nets = ["AA", "BB", "CC"]
    if c["dirs"][0]:
        df["Network"] = nets
    code = "ZZ" if c["dirs"][1] else None
    snuffler_stations(df, root, "stations.txt", network_code=code)
    back = [x.split() for x in open(os.path.join(root, "stations.txt")).read().splitlines()]
    ctx.equal(len(back), 3, "Snuffler stations")
    for i, x in enumerate(back):
        nw = code or (nets[i] if c["dirs"][0] else "")
        ctx.equal(x[0].split(".")[:2], [nw, names[i]], "Snuffler station")
        ctx.close([float(v) for v in x[1:4]], df.loc[i, ["Latitude", "Longitude", "Elevation"]].astype(float).tolist(), "Snuffler station coordinates")
    ctx.nontrivial(n > 0)
    ctx.label(f"names {c['names']}")


# ------------------------------------------------------------------ NonLinLoc observations of any ObsPy event
def nlloc_strat():
    err = sampled(None, None, 0.0, 0.012, 0.5, 12.25)
    pick = fixed(sta=sampled("A", "ST01", "0101", "LONGER7"), cha=sampled("HHZ", "BHN", "e", "HH1", "BDF", "hhz", "HHH", "", None),
                 phase=sampled("P", "S", "Pn", "Sg", "", None), onset=sampled(None, "impulsive", "emergent", "questionable"),
                 pol=sampled(None, "positive", "negative", "undecidable"), unc=err, up=err, low=err,
                 day=st.integers(0, len(DAYS) - 1), sec=SECONDS, method=sampled("autopick", "autopick", "modelled", "manual", None))
    return fixed(picks=st.lists(pick, max_size=8), auto=sampled(True, False, None))


def check_nlloc(c, ctx):
    """Every pick of the requested kind is one line with its own attributes; unknown attributes are '?' or -1."""
    ev = Event(resource_id="ev")
    want = []
    auto = c["auto"] is None or c["auto"]
    for p in c["picks"]:
        t = UTCDateTime(ns=DAYS[p["day"]]._ns + round(p["sec"] * 1e6) * 1000)
        q = QuantityError(uncertainty=p["unc"], upper_uncertainty=p["up"], lower_uncertainty=p["low"])
        ev.picks.append(Pick(waveform_id=WaveformStreamID(station_code=p["sta"], channel_code=p["cha"]), time=t, time_errors=q,
                             onset=p["onset"], polarity=p["pol"], phase_hint=p["phase"], method_id=p["method"]))
        if p["method"] != ("autopick" if auto else "modelled"):
            continue
        comp = (p["cha"] or "?")[-1].upper()
        if p["unc"]:
            e = p["unc"]
        elif p["up"] is not None and p["low"] is not None:
            e = (p["up"] + p["low"]) / 2
        else:
            e = -1.0
        if p["unc"] == 0:
            e = (e, 0.0)  # a stated error of zero may be taken as unknown
        want.append((p["sta"], comp if comp in "ZNEH" else "?", {"impulsive": "i", "emergent": "e"}.get(p["onset"], "?"),
                     p["phase"] or "?", {"positive": "u", "negative": "d"}.get(p["pol"], "?"), t._ns // 1000, e))
    path = os.path.join(ctx.tmp(), "ev.obs")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        nlloc_obs(ev, path, *([] if c["auto"] is None else [c["auto"]]))
    back = []
    for line in open(path).read().splitlines():
        x = line.split()
        ctx.equal(len(x), 15, f"fields of a NonLinLoc phase line: {line}")
        ctx.equal((x[1], x[9]), ("?", "GAU"), f"instrument and error type: {line}")
        t = UTCDateTime(f"{x[6]}T{x[7]}00")._ns // 10**9 * 10**6 + round(float(x[8]) * 1e6)
        back.append((x[0], x[2], x[3], x[4], x[5], t, float(x[10])))
    ctx.equal(len(back), len(want), "phase lines")
    for g in back:
        for w in sorted(want, key=lambda w: isinstance(w[6], tuple)):
            es = w[6] if isinstance(w[6], tuple) else (w[6],)
            if g[:5] == w[:5] and abs(g[5] - w[5]) <= 51 and any(abs(g[6] - e) <= 0.006 * abs(e) for e in es):
                want.remove(w)
                break
        else:
            ctx.fail(f"phase line {g} is none of the picks {want}")
    ctx.nontrivial(len(back) > 1)


def mfast_strat():
    sta = fixed(comps=sampled("ZNE", "ZNE", "ZNE", "ZNE", "", "ZN"), shift=st.lists(sampled(0.0, 0.0, 0.0, 0.25, 0.8), min_size=3, max_size=3),
                lead=rounded(1, 40, 6), n=st.integers(5, 60), band=sampled("HH", "HH", "BH", "EL"))
    return fixed(run=strat(mfast=True), stations=st.lists(sta, min_size=3, max_size=3), seed=seeds, name=sampled(None, None, "other"))


def check_mfast(c, ctx):
    root, loc, units, want, got, cat = export(c["run"], ctx)
    (loc / "raw_cut_waveforms").mkdir()
    rng = np.random.RandomState(c["seed"])
    names = NAMES[c["run"]["names"]]
    written = 0
    for uid, (row, picks, amps) in want.items():
        ev = got[uid]
        ot = UTCDateTime(row["DT"])
        st_ = Stream()
        for name, s in zip(names, c["stations"]):
            for ch, shift in zip("ZNE", s["shift"]):
                if ch in s["comps"]:
                    st_ += Trace(rng.randint(-1000, 1000, s["n"]).astype(np.int32), header=dict(
                        network="XX", station=name, channel=f"{s['band']}{ch}", starttime=ot - s["lead"] + shift, sampling_rate=20.0))
        if not len(st_):
            continue
        st_.write(str(loc / "raw_cut_waveforms" / f"{uid}.m"), format="MSEED")
        f = 1e3 if units == "km" else 1.0
        df = pd.DataFrame({"Name": names, "Latitude": rng.uniform(-60, 60, 3), "Longitude": rng.uniform(-170, 170, 3),
                           "Elevation": rng.uniform(-3e3, 3e3, 3) / f})
        out = pathlib.Path(root) / "sac"
        sac_mfast(ev, df, str(out), units, filename=c["name"])
        have = {p.name for p in (out / uid).iterdir()}
        exp = set()
        for i, (name, s) in enumerate(zip(names, c["stations"])):
            mine = [p for p in want_picks(picks) if p[0] == name]
            times = {}
            for p in mine:
                if p[2] == "autopick" or p[1] not in times:
                    times[p[1]] = p[3]
            for p in mine:
                if p[2] == "autopick":
                    times[p[1]] = p[3]
            if "S" not in times or any(x not in s["comps"] for x in "ZNE"):
                exp |= {f for f in have if f.split(".")[1] == name and any(x not in s["comps"] for x in "ZNE") and "S" in times}
                continue
            for ch in "ZNE":
                fn = f"{c['name'] or uid}.{name}.{ch.lower()}"
                exp.add(fn)
                ctx.check(fn in have, lambda: f"{uid}: no SAC file {fn} (have {sorted(have)})")
                tr = read(str(out / uid / fn))[0]
                src = st_.select(station=name, component=ch)[0]
                h = tr.stats.sac
                what = f"{uid}: {fn}"
                ctx.check(np.array_equal(tr.data, src.data.astype(np.float32)), f"{what}: samples")
                ctx.check(abs(tr.stats.starttime - src.stats.starttime) < 2e-6 * max(1, s["n"]), lambda: f"{what}: starts {tr.stats.starttime}, not {src.stats.starttime}")
                ctx.equal((tr.stats.station, tr.stats.channel), (name, src.stats.channel), f"{what}: channel")
                # header times count from the file's reference time
                ref = UTCDateTime(year=h["nzyear"], julday=h["nzjday"], hour=h["nzhour"], minute=h["nzmin"], second=h["nzsec"],
                                  microsecond=1000 * h["nzmsec"])
                head = {"o": ot._ns // 1000, "t0": times["S"]}
                if "P" in times:
                    head["a"] = times["P"]
                else:
                    ctx.check("a" not in h or h["a"] == -12345.0, f"{what}: P pick in the header without one in the event")
                for k, t in head.items():
                    g = ref._ns / 1e3 + float(h[k]) * 1e6
                    ctx.check(abs(g - t) <= 1050, lambda: f"{what}: header {k} is off by {(g - t) / 1e6} s")
                for k, w in (("evla", num(row["Y"])), ("evlo", num(row["X"])), ("evdp", num(row["Z"]) * f / 1e3),
                             ("stla", df.Latitude[i]), ("stlo", df.Longitude[i]), ("stel", df.Elevation[i] * f),
                             ("cmpaz", dict(Z=0, N=0, E=90)[ch]), ("cmpinc", dict(Z=0, N=90, E=90)[ch])):
                    ctx.close(float(h[k]), float(w), f"{what}: header {k}", rtol=3e-7, atol=1e-6)
                d, az, _ = gps2dist_azimuth(num(row["Y"]), num(row["X"]), df.Latitude[i], df.Longitude[i])
                ctx.close(float(h["dist"]), d / 1e3, f"{what}: dist", rtol=1e-4, atol=1e-3)
                da = abs(float(h["az"]) - az) % 360
                ctx.check(min(da, 360 - da) < 0.01, lambda: f"{what}: az {h['az']}, expected {az}")
                written += 1
        ctx.equal(sorted(have), sorted(exp), f"{uid}: SAC files")
    ctx.nontrivial(written > 0)
    ctx.label(units, *(["other name"] if c["name"] else []), *(["missing components"] if any(s["comps"] != "ZNE" for s in c["stations"]) else []))


FACETS = [Facet("obspy", strat, check_obspy, quick=240, thorough=3000, shards=3, rule="at least one event with picks"),
          Facet("text", strat, check_text, quick=160, thorough=3000, shards=2, rule="at least one phase line written"),
          Facet("nlloc", nlloc_strat, check_nlloc, quick=600, thorough=20000, shards=1, rule="more than one phase line"),
          Facet("mfast", mfast_strat, check_mfast, quick=150, thorough=2000, shards=3, rule="at least one SAC file written")]
