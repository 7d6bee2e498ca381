"""C27: input files are read as they are; invalid files and parameters are rejected, valid ones accepted."""
import contextlib
import copy
import io
import os

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from obspy import Inventory, UTCDateTime

import e2e
import lutgen
import wavekit
from harness import Facet
from quakemigrate import QuakeScan, Trigger
from quakemigrate.export.to_mfast import sac_mfast
from quakemigrate.export.to_nlloc import nlloc_obs
from quakemigrate.export.to_obspy import read_quakemigrate
from quakemigrate.io import Archive, read_response_inv, read_stations, read_vmodel
from quakemigrate.io.core import stations as old_stations
from quakemigrate.lut import compute_traveltimes
from quakemigrate.signal.local_mag import LocalMag
from quakemigrate.signal.local_mag.amplitude import Amplitude
from quakemigrate.signal.local_mag.magnitude import Magnitude
from quakemigrate.signal.onsets import CentredSTALTAOnset, ClassicSTALTAOnset, STALTAOnset
from quakemigrate.signal.pickers import GaussianPicker
from quakemigrate import util
from strategies import fixed, one_in, rounded, sampled, seeds

ASSUMPTIONS = ["station codes hold no underscore and no separator character of the file"]

NEEDED = ["Latitude", "Longitude", "Elevation", "Name"]
NAMES = ["ST01", "0101", "007", "NA", "NAN", "1E5", "1001", "A", "INF", "TRUE", "None", "BÁRD", "X-1"]


def quiet(fn):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn()


# ------------------------------------------------------------------ tables
def tables_strat():
    num = one_in(3, sampled("0", "-0.0", "1e-3", "-1234", "12", "64.32800000000001", "1.5E2", "+3.25", "-17.123456789012345"),
                 rounded(-180, 180, 6).map(repr))
    row = fixed(Latitude=num, Longitude=num, Elevation=num, Name=sampled(*NAMES), Network=sampled("Z7", "AB"), Depth=num, Vp=num,
                Vs=num, Vsh=num, Extra=num)
    return fixed(kind=sampled("stations", "stations", "vmodel"), rows=st.lists(row, min_size=1, max_size=6),
                 order=st.permutations(range(6)), drop=sampled(None, None, None, 0, 1, 2, 3, [0, 1], [1, 2, 3]),
                 extra=st.lists(st.booleans(), min_size=2, max_size=2), rename=sampled(None, "lower", "space"),
                 sep=sampled(",", ",", ";", "\t"), crlf=st.booleans(), tail=st.booleans(), comment=st.booleans(), alias=st.booleans())


def check_tables(c, ctx):
    sta = c["kind"] == "stations"
    need = NEEDED if sta else ["Depth", "Vp", "Vs", "Vsh"]
    cols = need + [x for x, on in zip(["Network", "Extra"], c["extra"]) if on]
    drop = c["drop"] if isinstance(c["drop"], list) else ([] if c["drop"] is None else [c["drop"]])
    gone = [need[i] for i in drop]
    header = {x: x for x in cols if x not in gone}
    bad = bool(gone) if sta else "Depth" in gone
    cols = [x for _, x in sorted(zip(c["order"], [*cols, *[None] * (6 - len(cols))]), key=lambda p: p[0]) if x in header]
    if gone and c["rename"]:  # the column is there under a name that differs
        for x in gone:
            header[x] = x.lower() if c["rename"] == "lower" else " " + x
            cols.append(x)
    eol = "\r\n" if c["crlf"] else "\n"
    lines = [c["sep"].join(header[x] for x in cols)] + [c["sep"].join(r[x] for x in cols) for r in c["rows"]]
    kw = {} if c["sep"] == "," else {"sep": c["sep"]}
    if c["comment"]:
        lines.insert(1, "# a comment")
        kw["comment"] = "#"
    path = os.path.join(ctx.tmp(), "table.txt")
    with open(path, "w", newline="", encoding="utf-8") as f:
        f.write(eol.join(lines) + (eol if c["tail"] else ""))
    read = (old_stations if c["alias"] else read_stations) if sta else read_vmodel
    if bad:
        ctx.raises(util.StationFileHeaderException if sta else util.InvalidVelocityModelHeader, lambda: quiet(lambda: read(path, **kw)),
                   f"{c['kind']} file without {gone}")
        ctx.nontrivial()
        ctx.label("rejected", *(["lower case header"] if c["rename"] == "lower" else []))
        return
    df = quiet(lambda: read(path, **kw))
    ctx.equal([str(x) for x in df.columns], [header[x] for x in cols], "columns")
    ctx.equal(len(df), len(c["rows"]), "rows")
    for i, r in enumerate(c["rows"]):
        for x in cols:
            got = df[header[x]].iloc[i]
            if x in ("Name", "Network"):
                ctx.check(isinstance(got, str), lambda: f"{x} {got!r} is not a string")
                ctx.equal(got, r[x], f"row {i}: {x}")
            else:
                w = -float(r[x]) if x == "Elevation" else float(r[x])
                ctx.check(abs(float(got) - w) <= 4e-16 * abs(w), lambda: f"row {i}: {x} {got!r}, the file has {r[x]}")
    ctx.nontrivial(len(c["rows"]) > 1)
    ctx.label(c["kind"], *(["numeric names"] if sta and all(r["Name"].isdigit() for r in c["rows"]) else []))


# ------------------------------------------------------------------ instrument responses
def inv_strat():
    ent = fixed(sta=st.integers(0, 2), ch=sampled("HHZ", "HHN", "BHE"), kind=sampled(*wavekit.INSTRUMENTS), gain=rounded(1, 1e5, 3))
    return fixed(kind=sampled("xml", "xml", "xml", "bad", "sac"), entries=st.lists(ent, min_size=1, max_size=5))


def check_inventory(c, ctx):
    path = os.path.join(ctx.tmp(), "resp.xml")
    if c["kind"] == "bad":
        open(path, "w").write("no response information\n")
        ctx.raises(TypeError, lambda: read_response_inv(path), "unreadable response file")
        return
    ids = {f"XX.ST{e['sta']}..{e['ch']}": e for e in c["entries"]}
    t0 = UTCDateTime(2010, 1, 1)
    inv = wavekit.inventory([(i, wavekit.response(e["kind"], e["gain"]), t0, None) for i, e in ids.items()])
    inv.write(path, format="STATIONXML")
    if c["kind"] == "sac":
        ctx.raises(NotImplementedError, lambda: read_response_inv(path, sac_pz_format=True), "SAC poles and zeros")
        return
    got = read_response_inv(path)
    ctx.check(isinstance(got, Inventory), "an ObsPy inventory is returned")
    ctx.equal(sorted(got.get_contents()["channels"]), sorted(ids), "channels")
    f = np.array([0.1, 1.0, 5.0, 20.0])
    for i in ids:
        a = got.get_response(i, t0 + 1).get_evalresp_response_for_frequencies(f)
        b = inv.get_response(i, t0 + 1).get_evalresp_response_for_frequencies(f)
        ctx.check(np.allclose(a, b, rtol=1e-6), lambda: f"response of {i}: {a}, expected {b}")
    ctx.nontrivial(len(ids) > 1)


# ------------------------------------------------------------------ run parameters
def results(root):
    """Files under the run directory other than logs."""
    return sorted(os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs if os.sep + "logs" not in d)


WRONG = [None, "STALTAOnset", 3, {}, STALTAOnset, object()]
TIMES = ["2020-01-01T00:00:00", "2020-01-01T00:00:00.01", "2020-01-01T12:00:00", "2020-01-02", "2019-12-31T23:59:59.99", None]


def args_strat():
    return fixed(what=sampled("onset", "picker", "mags", "locate", "locate", "locate", "detect", "trigger", "trigger", "method",
                              "interval", "interval", "stalta", "pickmethod", "amplitude", "amplitude", "magnitude", "traveltimes",
                              "traveltimes", "archive", "export", "phases"),
                 i=st.integers(0, 5), j=st.integers(0, 5), a=rounded(0, 10, 2), b=rounded(0, 10, 2), on=st.booleans(),
                 flags=st.lists(st.booleans(), min_size=6, max_size=6), seed=seeds)


def setup(ctx):
    lut = lutgen.random_lut(dict(proj=dict(kind="lcc", units="km", lon=-17.0, lat=65.0), n=[3, 3, 3], frac=[0.0] * 3,
                                 dx=[1.0] * 3, off=[0.0] * 3, scalar=False), 2, 1, tmax=2.0)
    root = ctx.tmp()
    os.makedirs(os.path.join(root, "data"))
    return lut, root, Archive(os.path.join(root, "data"), lut.station_data, archive_format="YEAR/JD/STATION")


def outcome(fn):
    """None or the exception raised."""
    try:
        quiet(fn)
    except Exception as e:  # noqa: BLE001
        return e
    return None


def expect(ctx, fn, exc, msg):
    """`exc` (a type, or None for accepted) is the outcome of fn."""
    e = outcome(fn)
    if exc is None:
        ctx.check(e is None, lambda: f"{msg}: valid, but raised {type(e).__name__}: {e}")
    else:
        ctx.check(type(e) is exc, lambda: f"{msg}: expected {exc.__name__}, got {type(e).__name__ if e is not None else 'no exception'}: {e}")


def check_args(c, ctx):
    what, i, j, on = c["what"], c["i"], c["j"], c["on"]
    lut, root, arc = setup(ctx)
    onset = STALTAOnset(sampling_rate=50)
    mag = LocalMag(amp_params={"signal_window": 5.0}, mag_params={"A0": "Hutton-Boore"})
    rd = os.path.join(root, "runs")
    os.makedirs(rd)
    rejected = None

    def scan(onset=onset, **kw):
        return QuakeScan(arc, lut, onset, run_path=rd, run_name="run", **kw)

    if what == "onset":
        rejected = not on
        expect(ctx, lambda: scan(onset if on else WRONG[i]), None if on else util.OnsetTypeError, f"QuakeScan with onset {WRONG[i]!r}")
    elif what == "picker":
        wrong = WRONG[i] if i else GaussianPicker
        rejected = not on
        expect(ctx, lambda: scan(picker=[None, GaussianPicker(onset=onset)][j % 2] if on else wrong), None if on else util.PickerTypeError,
               f"QuakeScan with picker {wrong!r}")
    elif what == "mags":
        wrong = WRONG[i] if i else LocalMag
        rejected = not on
        expect(ctx, lambda: scan(mags=[None, mag][j % 2] if on else wrong), None if on else util.MagsTypeError, f"QuakeScan with mags {wrong!r}")
    elif what == "locate":
        s, e = TIMES[i], TIMES[j]
        kw = {k: v for k, v in (("starttime", s), ("endtime", e)) if v is not None or c["flags"][0]}
        if (s is None) != (e is None) or (s is None and e is None):
            exc = RuntimeError
        elif UTCDateTime(s) > UTCDateTime(e):
            exc = util.TimeSpanException
        else:
            exc = util.NoTriggerFilesFound  # accepted: it looks for triggered events
        rejected = exc is not util.NoTriggerFilesFound
        expect(ctx, lambda: scan().locate(**kw), exc, f"locate({kw})")
    elif what in ("detect", "trigger"):
        s, e = TIMES[i % 5], TIMES[j % 5]
        rejected = UTCDateTime(s) > UTCDateTime(e)
        if what == "detect":
            if rejected:
                expect(ctx, lambda: scan().detect(s, e), util.TimeSpanException, f"detect({s}, {e})")
        else:
            t = quiet(lambda: Trigger(lut, run_path=rd, run_name="run", plot_trigger_summary=False))
            exc = util.TimeSpanException if rejected else (None if s == e else util.NoScanMseedDataException)
            if s != e:
                expect(ctx, lambda: t.trigger(s, e), exc, f"trigger({s}, {e})")
    elif what == "method":
        m = ["static", "mad", "median_ratio", "dynamic", "MAD", "median"][i]
        rejected = i > 3
        exc = util.InvalidTriggerThresholdMethodException if rejected else None
        if on:
            expect(ctx, lambda: Trigger(lut, run_path=rd, run_name="run", threshold_method=m), exc, f"threshold_method={m}")
        else:
            t = quiet(lambda: Trigger(lut, run_path=rd, run_name="run"))
            expect(ctx, lambda: setattr(t, "threshold_method", m), exc, f"threshold_method = {m}")
            ctx.equal(t.threshold_method, "static" if rejected else {"dynamic": "mad"}.get(m, m), "threshold method")
    elif what == "interval":
        a, b = c["a"], 2 * c["a"] if c["flags"][0] else c["b"]  # marginal window, interval (equal to twice it: valid)
        rejected = b < 2 * a
        exc = ValueError if rejected else None
        key = "min_event_interval" if c["flags"][1] or b == 0 else "minimum_repeat"
        if on:
            kw = {key: b} if key == "min_event_interval" else {key: b, "min_event_interval": 2 * a}
            t = []
            expect(ctx, lambda: t.append(Trigger(lut, run_path=rd, run_name="run", marginal_window=a, **kw)), exc,
                   f"marginal_window={a}, {key}={b}")
            t = t[0] if t else None
        else:
            t = quiet(lambda: Trigger(lut, run_path=rd, run_name="run", marginal_window=a, min_event_interval=2 * a))
            expect(ctx, lambda: setattr(t, key, b), exc, f"marginal window {a}, {key} = {b}")
        if t is not None:
            ctx.equal((t.min_event_interval, t.minimum_repeat), (2 * a if rejected else b,) * 2, "event interval")
    elif what == "stalta":
        kw = {"sampling_rate": 50} if c["flags"][0] else {}
        v = [0.4, 0.02, 0.0, 0.009, -1.0, 1.0][i]
        exc = ValueError if not kw or v < 0.01 else None
        rejected = exc is not None
        expect(ctx, lambda: STALTAOnset(min_onset_value=v, **kw), exc, f"STALTAOnset(min_onset_value={v}, {kw})")
    elif what == "pickmethod":
        m = ["MAD", "percentile", "mad", "static", "", None][i]
        kw = {"pick_threshold": 1.0} if c["flags"][0] and c["flags"][1] else {}
        exc = util.InvalidPickThresholdMethodException if i > 1 else AttributeError if kw else None
        rejected = exc is not None
        expect(ctx, lambda: GaussianPicker(onset=onset, threshold_method=m, **kw), exc, f"threshold_method={m}, {kw}")
    elif what == "amplitude":
        f = c["flags"]
        p = {"signal_window": 5.0}
        if f[0]:
            p["highpass_filter"] = True
        if f[1]:
            p["bandpass_filter"] = True
        for on_, k in zip((f[2], f[3], f[4]), ("highpass_freq", "bandpass_lowcut", "bandpass_highcut")):
            if on_:
                p[k] = {"bandpass_highcut": 10.0}.get(k, 2.0)
        if f[5] and i < 3:
            p[["water_level", "pre_filt", "remove_full_response"][i]] = [60.0, [1, 2, 3, 4], False][i]
        bad = (f[0] and not f[2]) or (f[1] and not (f[3] and f[4])) or (f[0] and f[1]) or (f[5] and i < 3)
        rejected = bad
        expect(ctx, lambda: Amplitude(p), AttributeError if bad else None, f"Amplitude({p})")
    elif what == "magnitude":
        a0 = ["Hutton-Boore", "keir2006", "UK", "Richter", None, ""][i]
        if i > 3:
            rejected = True
            kw = {} if on else {"A0": a0}
            expect(ctx, lambda: Magnitude(kw), TypeError, f"Magnitude({kw})")
        else:
            rejected = i == 3
            df = pd.DataFrame([[10.0, 3.0, 1.0, 2.0, 2.0, 0.1, True]], index=pd.Index(["XX.A..HHZ"], name="id"),
                              columns=["epi_dist", "z_dist", "S_amp", "S_freq", "P_amp", "Noise_amp", "is_picked"])
            df["S_filter_gain"] = np.nan
            expect(ctx, lambda: Magnitude({"A0": a0}).calculate_magnitudes(df), ValueError if rejected else None, f"A0={a0}")
    elif what == "traveltimes":
        g = lutgen.spec(dict(proj=dict(kind="lcc", units="km", lon=-17.0, lat=65.0), n=[3, 3, 3], frac=[0.0] * 3, dx=[1.0] * 3,
                             off=[0.0] * 3, scalar=False))[0]
        save = os.path.join(rd, "saved.LUT")
        sta = lut.station_data
        vm = pd.DataFrame({"Depth": [-5.0, 0.0, 5.0], "Vp": [3.0, 4.0, 5.0], "Vs": [2.0, 2.3, 3.0]})
        cases = [("homogeneous", {"vp": 5.0, "vs": 3.0}, None), ("homogeneous", {"vp": 5.0}, TypeError),
                 ("1dfmm", {"vmod": vm}, None), ("1dfmm", {}, TypeError),
                 ("1dfmm", {"vmod": vm.drop(columns="Vs" if on else "Depth")}, util.InvalidVelocityModelHeader),
                 (["fmm", "3dfmm"][on], {"vmod": vm}, NotImplementedError if on else ValueError), ("1dnlloc", {}, TypeError)]
        m, kw, exc = cases[i if i < 5 else 5 + j % 2]
        far = sta.copy()
        if exc is None and m == "1dfmm" and c["flags"][0]:
            far["Longitude"] += 5.0
            exc = ValueError
        rejected = exc is not None
        expect(ctx, lambda: compute_traveltimes(g, far, method=m, save_file=save, **kw), exc, f"method={m} with {sorted(kw)}")
        ctx.equal(os.path.isfile(save), not rejected, "lookup table saved")
        if os.path.isfile(save):
            os.remove(save)
    elif what == "archive":
        f = ["SeisComp3", "YEAR/JD/*_STATION_*", "YEAR_JD/STATION*", "YEAR/STATION", "", "seiscomp3"][i]
        rejected = i > 2
        exc = util.ArchivePathStructureError if rejected else None
        if on and f:
            expect(ctx, lambda: Archive(root, lut.station_data, archive_format=f), exc, f"archive_format={f!r}")
        else:
            a = Archive(root, lut.station_data)
            expect(ctx, lambda: a.path_structure(f), exc, f"path_structure({f!r})")
            if rejected:
                t = UTCDateTime(TIMES[0])
                expect(ctx, lambda: a.read_waveform_data(t, t + 1), util.ArchiveFormatException, "reading without an archive format")
    elif what == "export":
        rejected = True
        loc = os.path.join(root, "x", "locate", "events")
        os.makedirs(loc)
        with open(os.path.join(loc, "20200101000000000.event"), "w") as fh:
            fh.write("EventID,DT,X,Y,Z\n20200101000000000,2020-01-01T00:00:00.000000Z,0,0,0\n")
        u = ["KM", "feet", "", None, "metres", "kilometres"][i]
        if on:
            expect(ctx, lambda: read_quakemigrate(os.path.join(root, "x"), u), AttributeError, f"units={u!r}")
        else:
            expect(ctx, lambda: nlloc_obs([], os.path.join(rd, "out")), ValueError, "NonLinLoc export of a list")
    elif what == "phases":
        rejected = True
        lut.phases = ["P"]
        for s in lut.traveltimes.values():
            del s["S"]
        sr, t = 20, UTCDateTime(2020, 1, 1, 6)
        rng = np.random.RandomState(c["seed"])
        pieces = [(f"ST{k}", f"HH{x}", t - 120, rng.normal(size=400 * sr)) for k in range(2) for x in "ZNE"]
        e2e.write_archive(os.path.join(root, "data"), pieces, sr)
        o = STALTAOnset(sampling_rate=sr, phases=["P", "S"], bandpass_filters={"P": [2, 8, 2], "S": [2, 8, 2]})
        expect(ctx, lambda: scan(o, timestep=30.0).detect(t, t + 60), util.LUTPhasesException, "onset phases missing from the lookup table")
    ctx.equal(results(rd), [], "files written")
    ctx.nontrivial()
    ctx.label(what + (": rejected" if rejected else ": accepted"))


# ------------------------------------------------------------------ deprecated names
def old_strat():
    return fixed(what=sampled("timestep", "threads", "onset", "class", "interval"), v=rounded(0.5, 60, 2), k=st.integers(1, 8), on=st.booleans(),
                 vals=st.lists(sampled(None, 0, 1), min_size=5, max_size=5))


def check_old(c, ctx):
    """A deprecated parameter name has the effect of the current one."""
    lut, root, arc = setup(ctx)
    onset = STALTAOnset(sampling_rate=50)
    what = c["what"]
    if what in ("timestep", "threads"):
        old, v = ("time_step", c["v"]) if what == "timestep" else ("n_cores", c["k"])
        if c["on"]:
            s = quiet(lambda: QuakeScan(arc, lut, onset, run_path=root, run_name="r", **{old: v}))
        else:
            s = quiet(lambda: QuakeScan(arc, lut, onset, run_path=root, run_name="r"))
            quiet(lambda: setattr(s, old, v))
        ctx.equal((getattr(s, what), getattr(s, old)), (v, v), old)
    elif what == "onset":
        pairs = [("p_bp_filter", [2.5, 9.0, 3]), ("s_bp_filter", [1.5, 7.0, 1]), ("p_onset_win", [0.3, 2.0]), ("s_onset_win", [0.4, 3.0]),
                 ("onset_centred", True)]
        kw = {k: v for (k, v), f in zip(pairs, c["vals"]) if f is not None and not (k == "onset_centred" and f == 0)}
        if c["vals"][4] == 0:
            kw["onset_centred"] = False
        if c["on"]:
            o = quiet(lambda: STALTAOnset(sampling_rate=50, **kw))
        else:
            o = STALTAOnset(sampling_rate=50)
            for k, v in kw.items():
                quiet(lambda: setattr(o, k, v))
        ref = STALTAOnset(sampling_rate=50)
        want = ({"P": kw.get("p_bp_filter", ref.bandpass_filters["P"]), "S": kw.get("s_bp_filter", ref.bandpass_filters["S"])},
                {"P": kw.get("p_onset_win", ref.sta_lta_windows["P"]), "S": kw.get("s_onset_win", ref.sta_lta_windows["S"])},
                "centred" if kw.get("onset_centred") else "classic")
        ctx.equal((o.bandpass_filters, o.sta_lta_windows, o.position), want, f"onset with {sorted(kw)}")
    elif what == "class":
        cls, pos = (CentredSTALTAOnset, "centred") if c["on"] else (ClassicSTALTAOnset, "classic")
        o = quiet(lambda: cls(sampling_rate=50, min_onset_value=0.3))
        ctx.equal((o.position, o.sampling_rate, o.min_onset_value), (pos, 50, 0.3), cls.__name__)
        ctx.check(outcome(lambda: QuakeScan(arc, lut, o, run_path=root, run_name="r")) is None, "the deprecated class is accepted")
    else:
        t = quiet(lambda: Trigger(lut, run_path=root, run_name="r", marginal_window=c["v"] / 2, min_event_interval=c["v"] + 1,
                                  minimum_repeat=c["v"]))
        ctx.equal(t.min_event_interval, c["v"], "minimum_repeat")
    ctx.nontrivial()
    ctx.label(what)


# ------------------------------------------------------------------ documented defaults
# {object: {parameter: (documented default, another valid value)}}
DEFAULTS = {
    "trigger": dict(threshold_method=("static", "mad"), static_threshold=(1.5, 2.25), mad_window_length=(3600, 600.0), mad_multiplier=(8.0, 5.0),
                    marginal_window=(2.0, 1.0), min_event_interval=(4.0, 30.0), median_window_length=(3600, 60.0), median_multiplier=(1.2, 3.0),
                    normalise_coalescence=(False, True), pad=(120.0, 5.0), plot_trigger_summary=(True, False), smooth_coa=(False, True),
                    smoothing_kernel_sigma=(0.2, 1.0), smoothing_kernel_width=(4.0, 2.0), plot_all_stns=(True, False), xy_files=(None, "f.csv"),
                    write_event_time_windows=(False, True)),
    "scan": dict(timestep=(120.0, 30.0), threads=(1, 4), marginal_window=(2.0, 0.5), plot_event_summary=(True, False), plot_event_video=(False, True),
                 plot_all_stns=(True, False), continuous_scanmseed_write=(False, True), cut_waveform_format=("MSEED", "SAC"),
                 write_cut_waveforms=(False, True), write_marginal_coalescence=(False, True), write_coalescence=(False, True),
                 write_real_waveforms=(False, True), write_wa_waveforms=(False, True), real_waveform_units=("displacement", "velocity"),
                 wa_waveform_units=("displacement", "velocity"), xy_files=(None, "f.csv"), mags=(None, "mags")),
    "onset": dict(position=("classic", "centred"), signal_transform=("energy", "env"), min_onset_value=(0.4, 0.1), phases=(["P", "S"], ["P"]),
                  all_channels=(False, True), allow_gaps=(False, True), full_timespan=(True, False),
                  bandpass_filters=({"P": [2.0, 16.0, 2], "S": [2.0, 16.0, 2]}, {"P": [3.0, 9.0, 1], "S": [3.0, 8.0, 1]}),
                  sta_lta_windows=({"P": [0.2, 1.0], "S": [0.2, 1.0]}, {"P": [0.3, 2.0], "S": [0.5, 3.0]}),
                  channel_maps=({"P": "*Z", "S": "*[N,E,1,2]"}, {"P": "HHZ", "S": "HH*"}), channel_counts=({"P": 1, "S": 2}, {"P": 1, "S": 1})),
    "picker": dict(mad_pick_threshold=(8.0, 4.0), write_seed_ids=(False, True)),
    "percentile": dict(percentile_pick_threshold=(1.0, 0.95), write_seed_ids=(False, True)),
    "amplitude": dict(signal_window=(0.0, 5.0), noise_window=(5.0, 10.0), noise_measure=("RMS", "ENV"), loc_method=("spline", "gaussian"),
                      highpass_filter=(False, True), filter_corners=(4, 2), prominence_multiplier=(0.0, 0.25)),
    "magnitude": dict(use_hyp_dist=(False, True), amp_feature=("S_amp", "P_amp"), station_corrections=(None, {"XX.A..HHZ": 0.2}), amp_multiplier=(1.0, 2.0),
                      weighted_mean=(False, True), trace_filter=(None, ".*Z"), noise_filter=(1.0, 3.0), station_filter=(None, ["A"]),
                      dist_filter=(False, 50.0), pick_filter=(False, True), r2_only_used=(True, False)),
    "archive": dict(read_all_stations=(False, True), resample=(False, True), upfactor=(None, 5), interpolate=(False, True), response_inv=(None, "inv")),
    "response": dict(water_level=(60.0, 20.0), pre_filt=(None, [0.1, 0.2, 20, 30]), remove_full_response=(False, True)),
}


def defaults_strat():
    return fixed(makes=st.lists(fixed(what=sampled(*DEFAULTS), seed=seeds,
                                      spoil=st.booleans()), min_size=1, max_size=4))


def check_defaults(c, ctx):
    """Parameters left out have their documented defaults, given ones (the default among them) their value; each object its own."""
    lut, root, arc = setup(ctx)
    left_out = 0
    for m in c["makes"]:
        what, kw, want = m["what"], {}, {}
        given = np.random.default_rng(m["seed"]).choice([0, 0, 0, 1, 2], size=len(DEFAULTS[what]))
        for g, (k, (d, other)) in zip(given, DEFAULTS[what].items()):
            if other == "mags":
                other = LocalMag({"signal_window": 1.0}, {"A0": "UK"})
            if other == "inv":
                other = wavekit.inventory([("XX.A..HHZ", wavekit.response("1hz", 3.0), None, None)])
            if g:
                kw[k] = copy.deepcopy(d if g == 1 else other) if k not in ("mags", "response_inv") else d if g == 1 else other
            want[k] = other if g == 2 else d
            left_out += not g
        mine = copy.deepcopy(kw) if what not in ("scan", "archive") else dict(kw)
        make = {"trigger": lambda: Trigger(lut, run_path=root, run_name="r", **kw),
                "scan": lambda: QuakeScan(arc, lut, STALTAOnset(sampling_rate=50), run_path=root, run_name="r", **kw),
                "onset": lambda: STALTAOnset(sampling_rate=50, **kw),
                "picker": lambda: GaussianPicker(**kw),
                "percentile": lambda: GaussianPicker(threshold_method="percentile", **kw),
                "amplitude": lambda: LocalMag({**kw, "highpass_freq": 2.0}, {"A0": "UK"}).amp,
                "magnitude": lambda: LocalMag({}, {**kw, "A0": "UK"}).mag,
                "archive": lambda: Archive(root, lut.station_data, archive_format="SeisComp3", **kw),
                "response": lambda: Archive(root, lut.station_data, archive_format="SeisComp3", response_removal_params=kw)}[what]
        obj = quiet(make)
        for k, w in want.items():
            got = getattr(obj, k)
            ctx.check(got == w or (k == "station_corrections" and not got and not w),
                      lambda: f"{what}: {k} is {got!r} {'by default' if k not in kw else 'when given'}, expected {w!r}")
        if what not in ("scan", "archive"):
            ctx.equal(kw, mine, f"{what}: the dictionary of parameters passed in")
        if what == "magnitude":
            df = pd.DataFrame([[10.0, 3.0, 1.0, 2.0, np.nan, 2.0, 3.0, np.nan, 0.1, True]], index=pd.Index(["XX.A..HHZ"], name="id"),
                              columns=["epi_dist", "z_dist", "S_amp", "S_freq", "S_filter_gain", "P_amp", "P_freq", "P_filter_gain", "Noise_amp", "is_picked"])
            ctx.check(np.isfinite(obj.calculate_magnitudes(df)["ML"].iloc[0]), f"magnitude with {kw}")
        if m["spoil"]:      # what is done to one object does not reach the next
            for k in want:
                v = getattr(obj, k)
                if k in kw or k == "mags":
                    continue
                if isinstance(v, dict):
                    for x in v.values():
                        if isinstance(x, list):
                            x[0] = 99
                    v["P"] = "spoilt"
                elif isinstance(v, list):
                    v.append("spoilt")
    ctx.nontrivial(left_out > 0)
    ctx.label(*{m["what"] for m in c["makes"]})


FACETS = [Facet("tables", tables_strat, check_tables, quick=400, thorough=8000, shards=2, rule="rejected, or more than one row"),
          Facet("inventory", inv_strat, check_inventory, quick=80, thorough=1000, rule="more than one channel"),
          Facet("arguments", args_strat, check_args, quick=900, thorough=6000, shards=3, rule="every case"),
          Facet("deprecated", old_strat, check_old, quick=120, thorough=1500, shards=1, rule="every case"),
          Facet("defaults", defaults_strat, check_defaults, quick=500, thorough=4000, shards=2, rule="a parameter is left out")]
