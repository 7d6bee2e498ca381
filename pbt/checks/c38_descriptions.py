"""C38: descriptions of objects, and the logs of runs, state the parameters and progress of that run."""
import io
import pathlib
import re
from contextlib import redirect_stdout

import numpy as np
from hypothesis import strategies as st
from obspy import Inventory, UTCDateTime

import e2e
import lutgen
import pipekit
from checks.c34_logs import console, logs
from harness import Facet
from qm import t_add
from quakemigrate import QuakeScan, Trigger
from quakemigrate.io import Run
from quakemigrate.lut import LUT
from quakemigrate.signal.local_mag import LocalMag
from quakemigrate.signal.local_mag.amplitude import Amplitude
from quakemigrate.signal.local_mag.magnitude import Magnitude
from quakemigrate.signal.onsets import STALTAOnset
from quakemigrate.signal.pickers import GaussianPicker
from strategies import fixed, ints, one_in, rounded, sampled, seeds
import quakemigrate.util as util

ASSUMPTIONS = ["labels of the summaries are identified by their first words; values are compared as they are printed, layout is not judged"]


def lines(text):
    return [" ".join(x.split()) for x in text.splitlines()]


def fields(text):
    """[(label, value)] of the lines of a summary, e.g. ("Noise window", "5.0 s")."""
    out = []
    for x in lines(text):
        m = re.match(r"(.*?) ?[=:](?: (.*)|)$", x)
        if m:
            out.append((m.group(1).strip().lower(), (m.group(2) or "").strip()))
    return out


def agree(ctx, text, want, absent, what):
    """`want`: {start of label: value (text, or a number for the first number of the value)}; `absent`: labels that must not be there."""
    have = fields(text)
    for label, value in want.items():
        got = [v for k, v in have if k.startswith(label.lower())]
        if isinstance(value, list):
            ctx.equal(sorted(got), sorted(value), f"{what}: {label}")
            continue
        ctx.equal(len(got), 1, f"{what}: lines for {label}")
        if isinstance(value, str):
            ctx.equal(got[0], " ".join(value.split()), f"{what}: {label}")
        else:
            m = re.match(r"[-+0-9.eE]+|nan", got[0])
            ctx.check(m is not None, lambda: f"{what}: no number for {label}: {got[0]!r}")
            ctx.close(float(m.group(0)), value, f"{what}: {label}")
    for label in absent:
        ctx.check(not any(k.startswith(label.lower()) for k, _ in have), lambda: f"{what}: {label} is stated but not in effect")


# ------------------------------------------------------------- expectations per kind
def trigger_fields(p):
    want = {"Pre/post pad": f"{p['pad']} s", "Marginal window": f"{p['marginal_window']} s", "Minimum event interval": f"{p['min_event_interval']} s",
            "Trigger threshold method": p["threshold_method"]}
    own = {"static": {"Static threshold": str(p["static_threshold"])},
           "mad": {"MAD window": str(p["mad_window_length"]), "MAD multiplier": str(p["mad_multiplier"])},
           "median_ratio": {"Median window": str(p["median_window_length"]), "Median multiplier": str(p["median_multiplier"])}}
    absent = [k for m, d in own.items() if m != p["threshold_method"] for k in d]
    want.update(own[p["threshold_method"]])
    if p["smooth_coa"]:
        want["Gaussian kernel sigma"] = f"{p['smoothing_kernel_sigma']} s"
    else:
        absent.append("Gaussian kernel")
    return want, absent


def trigger_agrees(ctx, text, p, what):
    agree(ctx, text, *trigger_fields(p), what)
    ls = lines(text)
    on = [x for x in ls if x.startswith("Triggering from the")]
    ctx.equal(len(on), 1, f"{what}: lines on the trace")
    ctx.equal("normalised" in on[0].lower(), bool(p["normalise_coalescence"]), f"{what}: normalised trace")
    cut = [x for x in ls if "truncated" in x]
    ctx.equal(len(cut), int(bool(p["smooth_coa"])), f"{what}: lines on the smoothing kernel")
    if cut:
        ctx.check(re.search(rf"(^| ){re.escape(str(p['smoothing_kernel_width']))} ", cut[0]), lambda: f"{what}: kernel width {p['smoothing_kernel_width']} in {cut[0]!r}")


def onset_agrees(ctx, text, p, what):
    ctx.check(any(re.search(rf"\b{p['position']}\b", x) and "STA/LTA" in x for x in lines(text)), lambda: f"{what}: position {p['position']} is not stated")
    want = {"Onset function sampling rate": f"{p['sampling_rate']} Hz", "Phase": str(p["phases"])}
    for ph in p["phases"]:
        want[f"{ph} bandpass filter"] = f"{p['bandpass_filters'][ph]} (Hz, Hz, -)"
        want[f"{ph} onset"] = f"{p['sta_lta_windows'][ph]} (s, s)"
    agree(ctx, text, want, [], what)


def picker_agrees(ctx, text, p, what):
    want, absent = {}, []
    for m, label, v in (("MAD", "MAD multiplier", "mad_pick_threshold"), ("percentile", "Percentile threshold", "percentile_pick_threshold")):
        if p["threshold_method"] == m:
            want[label] = str(p[v])
        else:
            absent.append(label)
    if p["fraction_tt"] is None:
        absent.append("Search window")
    else:
        want["Search window"] = p["fraction_tt"] * 100
    agree(ctx, text, want, absent, what)


def amp_agrees(ctx, text, p, what):
    want = {"Signal window": f"{p['signal_window']} s", "Noise window": f"{p['noise_window']} s", "Noise measure": p["noise_measure"],
            "Location used": p["loc_method"]}
    absent = []
    if p["prominence_multiplier"]:
        want["Prominence multiplier"] = str(p["prominence_multiplier"])
    else:
        absent.append("Prominence")
    high, band = p["filter"] == "highpass", p["filter"] == "bandpass"
    if high:
        want.update({"Filter frequency": f"{p['highpass_freq']} Hz", "Filter corners": str(p["filter_corners"])})
    else:
        absent += ["Filter frequency", "Highpass"]
    if band:
        want.update({"Lowcut frequency": f"{p['bandpass_lowcut']} Hz", "Highcut frequency": f"{p['bandpass_highcut']} Hz",
                     "Filter corners": str(p["filter_corners"])})
    else:
        absent += ["Lowcut", "Highcut", "Bandpass"]
    if not (high or band):
        absent.append("Filter corners")
    agree(ctx, text, want, absent, what)


def mag_agrees(ctx, text, p, what):
    want = {"A0 attenuation": p["A0"], "Use hyp distance": str(p["use_hyp_dist"]), "Amplitude feature": p["amp_feature"],
            "Amplitude multiplier": str(p["amp_multiplier"]), "Use weighted mean": str(p["weighted_mean"]), "Noise filter": f"{p['noise_filter']} x"}
    absent = []
    for k, label, text_ in (("trace_filter", "Trace filter", "{}"), ("station_filter", "Station filter", "{}"), ("dist_filter", "Distance filter", "{} km")):
        if p[k]:
            want[label] = text_.format(p[k])
        else:
            absent.append(label)
    agree(ctx, text, want, absent, what)
    said = text.lower()
    ctx.equal("station corrections" in said, bool(p["station_corrections"]), f"{what}: station corrections")
    ctx.equal("picked traces" in said, bool(p["pick_filter"]), f"{what}: pick filter")


def response_agrees(ctx, text, p, what):
    if p["response"]:
        want = {"Water level": str(p["water_level"]), "Remove full response": str(p["remove_full_response"])}
        absent = []
        if p["pre_filt"]:
            want["Pre-filter"] = f"{tuple(p['pre_filt'])} Hz"
        else:
            absent.append("Pre-filter")
        agree(ctx, text, want, absent, what)
        ctx.check("no instrument response" not in text.lower(), lambda: f"{what}: the response inventory is denied")
    else:
        agree(ctx, text, {}, ["Water level", "Pre-filter", "Remove full"], what)
        ctx.check("no instrument response" in text.lower(), lambda: f"{what}: the absence of a response inventory is not stated")


# ------------------------------------------------------------- parameters
num = one_in(3, ints(1, 40), rounded(0.05, 90, 2))


def params(kind):
    if kind == "trigger":
        return dict(pad=num, marginal_window=num, min_event_interval=num.map(lambda x: x + 200), threshold_method=sampled("static", "mad", "median_ratio"),
                    static_threshold=num, mad_window_length=num, mad_multiplier=num, median_window_length=num, median_multiplier=num,
                    smooth_coa=st.booleans(), smoothing_kernel_sigma=num, smoothing_kernel_width=num, normalise_coalescence=st.booleans())
    if kind == "onset":
        filt = st.tuples(rounded(0.5, 5, 1), rounded(6, 20, 1), ints(1, 6)).map(list)
        win = st.tuples(rounded(0.01, 1, 2), rounded(1, 20, 1)).map(list)
        return dict(position=sampled("classic", "centred"), sampling_rate=sampled(20, 50, 100, 250), phases=sampled(["P"], ["S"], ["P", "S"], ["S", "P"]),
                    bandpass_filters=fixed(P=filt, S=filt), sta_lta_windows=fixed(P=win, S=win))
    if kind == "picker":
        return dict(threshold_method=sampled("MAD", "percentile"), mad_pick_threshold=num, percentile_pick_threshold=rounded(0.01, 1, 3),
                    fraction_tt=sampled(None, 0.05, 0.125, 0.2, 0.5))
    if kind == "amp":
        return dict(signal_window=num, noise_window=num, noise_measure=sampled("RMS", "STD", "ENV"), loc_method=sampled("spline", "gaussian", "covariance"),
                    prominence_multiplier=sampled(0.0, 0.0, 0.25, 1.5), filter=sampled(None, "highpass", "bandpass"), highpass_freq=rounded(0.1, 4, 2),
                    bandpass_lowcut=rounded(0.1, 4, 2), bandpass_highcut=rounded(5, 20, 1), filter_corners=ints(1, 6))
    if kind == "mag":
        return dict(A0=sampled("Hutton-Boore", "UK", "Greenfield2018_askja", "Keir2006"), use_hyp_dist=st.booleans(), amp_feature=sampled("S_amp", "P_amp"),
                    station_corrections=sampled({}, {"STA_N": 0.1}), amp_multiplier=num, weighted_mean=st.booleans(),
                    trace_filter=sampled(None, ".*[EN]$"), noise_filter=num, station_filter=sampled(None, ["STA", "B"]), dist_filter=sampled(False, 25, 10.5),
                    pick_filter=st.booleans())
    return dict(response=st.booleans(), water_level=sampled(60, 60.0, 12.5), pre_filt=sampled(None, [0.03, 0.05, 30.0, 35.0]), remove_full_response=st.booleans())


KINDS = ["trigger", "onset", "picker", "amp", "mag", "archive"]


def amp_params(p):
    d = {k: v for k, v in p.items() if k not in ("filter", "highpass_freq", "bandpass_lowcut", "bandpass_highcut")}
    if p["filter"] == "highpass":
        d.update(highpass_filter=True, highpass_freq=p["highpass_freq"])
    if p["filter"] == "bandpass":
        d.update(bandpass_filter=True, bandpass_lowcut=p["bandpass_lowcut"], bandpass_highcut=p["bandpass_highcut"])
    return d


def quiet(fn):
    with redirect_stdout(io.StringIO()):
        return fn()


def archive_params(p):
    kw = dict(response_inv=Inventory() if p["response"] else None)
    kw["response_removal_params"] = dict(water_level=p["water_level"], remove_full_response=p["remove_full_response"])
    if p["pre_filt"]:
        kw["response_removal_params"]["pre_filt"] = tuple(p["pre_filt"])
    return kw


class Inv(Inventory):
    """An inventory counts as given, however many channels it holds."""

    def __len__(self):
        return 1


# ------------------------------------------------------------- facet: summaries of objects
def strat():
    return st.sampled_from(KINDS).flatmap(lambda k: fixed(kind=st.just(k), a=fixed(**params(k)), b=fixed(**params(k)), change=st.lists(ints(0, 12), max_size=4),
                                                          resample=sampled(False, True), upfactor=sampled(None, 2, 5)))


def build(kind, p, ctx, lut, c):
    if kind == "trigger":
        return Trigger(lut, ctx.tmp(), "r", **p)
    if kind == "onset":
        return STALTAOnset(**p)
    if kind == "picker":
        return GaussianPicker(**{k: v for k, v in p.items() if v is not None})
    if kind == "amp":
        return Amplitude(amp_params(p))
    if kind == "mag":
        return Magnitude(p)
    kw = archive_params(p)
    if p["response"]:
        kw["response_inv"] = Inv()
    return e2e.archive(ctx.tmp(), ["STA", "B", "X 1"], resample=c["resample"], upfactor=c["upfactor"], **kw)


AGREE = {"trigger": trigger_agrees, "onset": onset_agrees, "picker": picker_agrees, "amp": amp_agrees, "mag": mag_agrees, "archive": response_agrees}
# attributes that may be set afterwards without touching another one
LATER = {"trigger": list(params("trigger")), "onset": ["position", "phases", "bandpass_filters", "sta_lta_windows", "sampling_rate"],
         "picker": [], "amp": ["signal_window", "noise_window", "noise_measure", "loc_method", "prominence_multiplier", "filter_corners"],
         "mag": list(params("mag")), "archive": ["water_level", "pre_filt", "remove_full_response"]}


def check(c, ctx):
    kind = c["kind"]
    p = {k: v for k, v in c["a"].items()}
    lut = lutgen.LUT()
    obj = quiet(lambda: build(kind, p, ctx, lut, c))
    # what belongs to another object of the same class must not show
    quiet(lambda: build(kind, c["b"], ctx, lut, c))
    AGREE[kind](ctx, str(obj), p, f"summary of the {kind}")
    if kind == "archive":
        archive_agrees(ctx, obj, p, c)
    for i in c["change"]:
        if not LATER[kind]:
            break
        k = LATER[kind][i % len(LATER[kind])]
        p[k] = c["b"][k]
        setattr(obj, k, tuple(p[k]) if k == "pre_filt" and p[k] else p[k])
        AGREE[kind](ctx, str(obj), p, f"summary of the {kind} after setting {k}")
        ctx.label("attribute set")
    if kind == "mag":
        mags = quiet(lambda: LocalMag(amp_params({k: v for k, v in AMP.items()}), p))
        text = str(mags)
        amp_agrees(ctx, text.split("Magnitude parameters")[0], AMP, "summary of the local magnitudes")
        mag_agrees(ctx, text.split("Magnitude parameters")[1], p, "summary of the local magnitudes")
    ctx.nontrivial(bool(c["change"] and LATER[kind]) or p != c["b"] and not LATER[kind])
    ctx.label(kind)


AMP = dict(signal_window=7.5, noise_window=6.0, noise_measure="ENV", loc_method="gaussian", prominence_multiplier=0.5, filter="bandpass", highpass_freq=1.0,
           bandpass_lowcut=1.5, bandpass_highcut=12.0, filter_corners=3)


def archive_agrees(ctx, obj, p, c):
    text = str(obj)
    want = {"Archive path": str(obj.archive_path), "Path structure": str(obj.format), "Resampling": str(c["resample"])}
    absent = [] if c["upfactor"] else ["Upfactor"]
    if c["upfactor"]:
        want["Upfactor"] = str(c["upfactor"])
    agree(ctx, text, want, absent, "summary of the archive")
    ls = lines(text)
    at = ls.index("Stations:")
    ctx.equal(ls[at + 1:at + 4], ["STA", "B", "X 1"], "summary of the archive: stations")
    short = obj.__str__(response_only=True)
    response_agrees(ctx, short, p, "response parameters")
    ctx.check("Archive path" not in short and "STA" not in short, "response parameters hold the archive")


# ------------------------------------------------------------- facet: tables
def strat_tables():
    return fixed(g=lutgen.grid_strat(12), dec=st.tuples(ints(1, 3), ints(1, 3), ints(1, 3)).map(list), cut=st.booleans(), vmod=sampled("homogeneous", "", "1-D"),
                 name=sampled("r", "my_run"), sub=sampled("", "b"))


def table_agrees(ctx, lut, vmod, what):
    """Corners as printed, against the positions of the outermost nodes."""
    text = str(lut)
    n = np.array(lut.node_count)
    lo, hi = lut.index2coord([[0, 0, 0]])[0], lut.index2coord([list(n - 1)])[0]
    ls = lines(text)
    for label, want in (("Lower-left corner", lo), ("Upper-right corner", hi)):
        row = [x for x in ls if x.startswith(label)]
        ctx.equal(len(row), 1, f"{what}: lines for {label}")
        m = re.match(rf"{label} ?: ?([-\d.]+)°N ([-\d.]+)°E ([-\d.]+) (\w+)$", row[0])
        ctx.check(m is not None, lambda: f"{what}: {row[0]!r}")
        ctx.close([float(m.group(i)) for i in (1, 2)], [want[1], want[0]], f"{what}: {label}", rtol=0, atol=5.1e-6)
        ctx.close(float(m.group(3)), want[2], f"{what}: depth of {label}", rtol=0, atol=5.1e-4)
        ctx.equal(m.group(4), lut.unit_name, f"{what}: unit of {label}")
    numbers = lambda x: [float(v) for v in re.findall(r"[-+]?\d+\.?\d*(?:e[-+]?\d+)?", x)]      # noqa: E731
    row = [x for x in ls if x.startswith("Number of nodes")]
    ctx.equal(numbers(row[0]), [float(v) for v in n], f"{what}: number of nodes")
    row = [x for x in ls if x.startswith("Node spacing")]
    ctx.close(numbers(row[0]), np.array(lut.node_spacing), f"{what}: node spacing", rtol=1e-6)
    ctx.check(row[0].endswith(lut.unit_name), f"{what}: unit of the node spacing")
    if vmod:
        at = ls.index("Velocity model:")
        ctx.equal("\n".join(ls[at + 1:]).strip(), "\n".join(lines(vmod)).strip(), f"{what}: velocity model")


def check_tables(c, ctx):
    spec, _, _ = lutgen.spec(c["g"])
    lut = LUT(**spec)
    u = "km" if c["g"]["proj"]["units"] == "km" else "m"
    ctx.equal(lut.unit_name, u, "unit")
    if c["vmod"] == "homogeneous":
        lut.velocity_model = "Vp = 5.0 km/s\nVs = 2.9 km/s"
    elif c["vmod"]:
        lut.velocity_model = "Depth Vp Vs\n0.0 3.1 1.7\n10.0 6.0 3.4"
    table_agrees(ctx, lut, lut.velocity_model, "summary of the table")
    factors = [min(d, n) for d, n in zip(c["dec"], lut.node_count)]
    dec = lut.decimate(factors)
    ctx.equal(dec.velocity_model, lut.velocity_model, "velocity model of the decimated table")
    table_agrees(ctx, dec, lut.velocity_model, "summary of the decimated table")
    if c["cut"]:
        lut.decimate(factors, inplace=True)
        ctx.equal(str(lut), str(dec), "summary of the table decimated in place")
    top = pathlib.Path(ctx.tmp())
    run = Run(top, c["name"], c["sub"], "locate")
    text = str(run)
    full = c["name"] + ("_" + c["sub"] if c["sub"] else "")
    ctx.check(re.search(rf"Path: {re.escape(str(top / c['name']))} ", text), lambda: f"run path in {text!r}")
    ctx.check(re.search(rf"Name: {full}$", text, re.M), lambda: f"run name in {text!r}")
    ctx.nontrivial(max(factors) > 1)


# ------------------------------------------------------------- facet: logs of runs
def strat_logs():
    t = params("trigger")
    t.update(pad=sampled(10.0, 12, 20.5), marginal_window=rounded(0.5, 2, 2), min_event_interval=rounded(4, 8, 1), static_threshold=rounded(1.5, 2.5, 2),
             mad_window_length=sampled(20, 40.0), median_window_length=sampled(20, 40.0), mad_multiplier=rounded(2, 9, 1), median_multiplier=rounded(1.1, 1.6, 2),
             smoothing_kernel_sigma=rounded(0.05, 0.3, 2), smoothing_kernel_width=sampled(2, 3.5, 4))
    return fixed(seed=seeds, date=ints(0, 3000), trigger=fixed(**t), trigger2=fixed(**t), picker=fixed(**params("picker")), position=sampled("classic", "centred"),
                 position2=sampled("classic", "centred"), windows=st.tuples(sampled(0.15, 0.2, 0.3), sampled(1.0, 1.5, 2.0)).map(list), phases=sampled(["P", "S"], ["P"]),
                 timestep=sampled(10, 12.5, 20.0), mw=rounded(0.5, 2, 2), threads=ints(1, 3), mags=sampled(None, "pick", "all"),
                 amp=fixed(**dict(params("amp"), signal_window=rounded(0, 4, 1), noise_window=rounded(0.5, 4, 1))), mag=fixed(**params("mag")), resp=fixed(**params("archive")),
                 late=st.booleans(), hour=sampled(10, 10, 23.989), span=st.tuples(ints(0, 1), ints(1, 4)).map(list), hole=one_in(4, st.just(True), st.just(False)),
                 stage=sampled("trigger", "locate", "locate"), whole=st.booleans())


def log_of(root, stage, sub, name):
    fs = logs(root / name, stage, sub, name + ("_" + sub if sub else ""))
    return fs[-1].read_text() if fs else ""


def check_logs(c, ctx):
    sr, total = 40, 120 * 40
    root = pathlib.Path(ctx.tmp())
    lut = pipekit.network_lut(c["seed"], [5, 5, 5], 3)
    names = list(lut.traveltimes)
    rng = np.random.RandomState(c["seed"])
    t0 = t_add(UTCDateTime(2015, 1, 1) + 86400 * c["date"], int(c["hour"] * 3600) * sr, sr)
    sources = [((2, 2, 2), 45 * sr, 30.0), ((1, 3, 2), 63 * sr, 30.0), ((3, 2, 1), 78 * sr, 25.0)]
    tr = pipekit.waveforms(lut, names, sr, total, sources, rng)
    pieces = [(s, ch, t0, x[:60 * sr] if c["hole"] else x) for (s, ch), x in tr.items()]
    if c["hole"]:
        pieces += [(s, ch, t_add(t0, 70 * sr, sr), x[70 * sr:]) for (s, ch), x in tr.items()]
    e2e.write_archive(root / "arch", pieces, sr)
    inv = Inv() if c["resp"]["response"] else None
    kw = archive_params(c["resp"])
    kw["response_inv"] = inv
    arch = quiet(lambda: e2e.archive(root / "arch", names, **kw))
    on_p = dict(position=c["position"], sampling_rate=sr, phases=c["phases"], bandpass_filters={p: [2, 12, 2] for p in c["phases"]},
                sta_lta_windows={p: list(c["windows"]) for p in c["phases"]})
    on = STALTAOnset(channel_maps={"P": "*Z", "S": "*[N,E]"}, channel_counts={"P": 1, "S": 2}, **on_p)
    # ---- detect
    a = t_add(t0, (20 + 10 * c["span"][0]) * sr, sr)
    n = int(np.ceil((60 + 0.5 * (c["seed"] % 7)) / c["timestep"]))
    b = t_add(a, round(60.5 * sr) - 1, sr)
    mags = None
    if c["mags"]:
        c["amp"]["filter"] = c["amp"]["filter"] if c["mags"] == "all" else None
        mags = quiet(lambda: LocalMag(amp_params(c["amp"]), dict(c["mag"]), plot_amplitudes=False))
        mags.calc_magnitude = lambda event, lut_, run: (event, None)    # amplitudes: C22-C24
    pk = GaussianPicker(onset=on, plot_picks=False, **{k: v for k, v in c["picker"].items() if v is not None})
    first = c["timestep"] if not c["late"] else 15.0
    with console():
        q = QuakeScan(arch, lut, onset=on, picker=pk, mags=mags, run_path=str(root), run_name="r", timestep=first, marginal_window=c["mw"] if not c["late"] else 9.0,
                      threads=c["threads"] if not c["late"] else 1, log=True)
        if c["late"]:       # set after construction, as the tutorials do
            q.timestep, q.marginal_window, q.threads = c["timestep"], c["mw"], c["threads"]
        q.detect(str(a), str(b))
    n = int(np.ceil(np.round((b - a) / c["timestep"], 9)))
    text = log_of(root, "detect", "", "r")
    agree(ctx, text, {"Scan sampling rate": f"{sr} Hz", "Thread count": str(c["threads"]), "Time step": f"{c['timestep']} s"}, ["Marginal window"], "log of detect")
    onset_agrees(ctx, text, on_p, "log of detect")
    end = a + n * c["timestep"] - 1 / sr
    said = re.findall(r"Scanning from (\S+) to (\S+)", text)
    ctx.equal(len(said), 1, "log of detect: lines on the span")
    ctx.check(abs(UTCDateTime(said[0][0]) - a) < 1e-5 and abs(UTCDateTime(said[0][1]) - end) < 1e-5, lambda: f"log of detect: span {said}, scanned {a} to {end}")
    steps = re.findall(r"Processing : (\S+Z)-(\S+Z) ", text)
    ctx.equal(len(steps), n, "log of detect: timesteps")
    for i, (x, y) in enumerate(steps):
        ctx.check(abs(UTCDateTime(x) - (a + i * c["timestep"])) < 1e-5 and abs(UTCDateTime(y) - (a + (i + 1) * c["timestep"] - 1 / sr)) < 1e-5,
                  lambda: f"log of detect: timestep {i} {x} {y}")  # noqa: B023
    ctx.equal("is not divisible" in " ".join(text.split()), end - b > 1 / sr, "log of detect: warning on the last timestep")
    # ---- trigger, twice under different settings and names
    marks = {}
    for sub, p in (("", c["trigger"]), ("b", c["trigger2"])):
        with console():
            t = Trigger(lut, str(root), "r", trigger_name=sub, plot_trigger_summary=False, log=True, **{k: v for k, v in p.items() if not (c["late"] and k == "pad")})
            if c["late"]:
                t.pad = p["pad"]
            t.trigger(str(a), str(b))
        text = log_of(root, "trigger", sub, "r")
        trigger_agrees(ctx, text, p, f"log of trigger {sub!r}")
        said = re.findall(r"Triggering events from (\S+) to (\S+)", text)
        ctx.check(len(said) == 1 and UTCDateTime(said[0][0]) == a and UTCDateTime(said[0][1]) == b, lambda: f"log of trigger: span {said}, asked {a} to {b}")
        rows = {}
        for f in sorted((root / "r" / "trigger" / sub / "events").glob("*.csv")):
            head, *body = [ln.split(",") for ln in f.read_text().splitlines()]
            rows[f.name] = [UTCDateTime(ln[head.index("CoaTime")]) for ln in body]
        have = [len(v) for v in rows.values() if v]
        told = [int(x) for x in re.findall(r"(\d+) event\(s\) triggered", text)]
        ctx.equal([x for x in told if x], have, "log of trigger: numbers of events")
        none = text.count("No events triggered")
        ctx.equal(none + len(told), len(rows), "log of trigger: one message per day")
        marks[sub] = [(f, x) for f, v in rows.items() for x in v]
        ctx.label(f"triggered {min(len(marks[sub]), 4)}")
    # ---- locate
    if c["stage"] == "locate":
        sub = "b" if c["seed"] % 2 else ""
        on_l = dict(on_p)
        a2 = a if c["whole"] else t_add(a, 25 * sr, sr)
        if c["late"]:
            on.position = on_l["position"] = c["position2"]
        with console():
            q = QuakeScan(arch, lut, onset=on, picker=pk, mags=mags, run_path=str(root), run_name="r", run_subname=sub, timestep=c["timestep"], marginal_window=c["mw"],
                          threads=c["threads"], plot_event_summary=False, log=True)
            q.locate(str(a2), str(b))
        text = log_of(root, "locate", sub, "r")
        head = text.split("EVENT - ")[0]
        agree(ctx, head, {"Scan sampling rate": f"{sr} Hz", "Thread count": str(c["threads"]), "Marginal window": f"{c['mw']} s"}, ["Time step"], "log of locate")
        onset_agrees(ctx, head, on_l, "log of locate")
        picker_agrees(ctx, head, c["picker"], "log of locate")
        if mags is not None:
            response_agrees(ctx, head, c["resp"], "log of locate")
            part = head.split("Magnitude parameters")
            ctx.equal(len(part), 2, "log of locate: magnitude parameters")
            amp_agrees(ctx, part[0].split("Amplitude parameters")[1], c["amp"], "log of locate")
            mag_agrees(ctx, part[1], c["mag"], "log of locate")
            ctx.label("with magnitudes")
        else:
            ctx.check("Magnitude parameters" not in head and "Amplitude parameters" not in head, "log of locate: magnitudes are not calculated")
        said = re.findall(r"Locating events from (\S+) to (\S+)", text)
        ctx.check(len(said) == 1 and UTCDateTime(said[0][0]) == a2 and UTCDateTime(said[0][1]) == b, lambda: f"log of locate: span {said}, asked {a2} to {b}")
        told = re.findall(r"EVENT - (\d+) of (\d+) - (\S+)", text)
        ctx.equal([(int(i), int(m)) for i, m, _ in told], [(i + 1, len(told)) for i in range(len(told))], "log of locate: numbering of events")
        ctx.equal(len(told), sum(x >= a2 for _, x in marks[sub]), "log of locate: events")
        written = {f.stem for f in (root / "r" / "locate" / sub / "events").glob("*.event")}
        parts = re.split(r"EVENT - \d+ of \d+ - ", text)[1:]
        for (_, _, uid), chunk in zip(told, parts):
            ctx.equal("Making phase picks" in chunk, uid in written, f"log of locate: event {uid} is said to be picked")
            if uid not in written:
                out = [x for x in lines(chunk)[1:] if x and set(x) != {"="} and not x.startswith(("Reading", "Computing", "Elapsed"))]
                ctx.check(bool(out), lambda: f"log of locate: no reason why {uid} is skipped")
                ctx.label("skipped event")
        ctx.check(written <= {u for _, _, u in told}, "log of locate: an event is not announced")
        ctx.label(f"located {min(len(written), 3)}")
        ctx.nontrivial(bool(written))
    else:
        ctx.nontrivial(bool(marks[""] or marks["b"]))


FACETS = [Facet("summaries", strat, check, quick=300, thorough=6000, shards=2, rule="a parameter is changed afterwards (pickers: a second picker with other parameters)"),
          Facet("tables", strat_tables, check_tables, quick=150, thorough=3000, shards=1, rule="the table is decimated"),
          Facet("logs", strat_logs, check_logs, quick=120, thorough=500, shards=4, rule="events triggered (and located, if asked)")]
