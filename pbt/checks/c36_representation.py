"""C36: results do not depend on how the same experiment is written down."""
import pathlib

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from obspy import Stream, UTCDateTime, read

import pipekit
import wavekit
from checks.c06_archive import FORMATS, fname
from harness import Facet
from qm import t_add, trace
from quakemigrate import QuakeScan, Trigger
from quakemigrate.io import Run
from quakemigrate.io.data import Archive
from quakemigrate.io.scanmseed import read_scanmseed
from quakemigrate.signal.local_mag import LocalMag
from quakemigrate.signal.pickers import GaussianPicker
from strategies import fixed, ints, one_in, rounded, sampled, seeds

ASSUMPTIONS = ["dates are shifted by whole days, or by whole seconds if the trigger threshold is static (dynamic thresholds are "
               "defined per day)",
               "ObsPy's simulate() rectifies the Nyquist frequency, so polarity is only changed in runs without removal of the response",
               "units of the grid, order of the stations and floating point recordings may change results by rounding only: the last digits of the output files"]
DAYS = ["2021-02-04", "2020-02-29", "2020-12-31", "2021-01-01", "2019-12-31", "2016-03-01", "1999-12-31", "2024-10-27", "1985-06-30"]
OTHER = ["A", "NA", "001", "B10", "B1", "12", "1E5", "nan", "S", "P", "TRUE", "STATN"]
ALL = ["units", "date", "seconds", "order", "rename", "codes", "layout", "pieces", "gain", "polarity", "irrelevant", "channels", "threads",
       "path", "encoding", "times"]
LOOSE = {"units", "order", "encoding"}
LEAD, SCAN, TOTAL = 20.0, 40.0, 110.0


def strat():
    return fixed(seed=seeds, sr=sampled(50, 40, 20), m=st.integers(3, 6), n=st.tuples(*[sampled(5, 6, 7)] * 3).map(list),
                 proj=sampled("lcc", "tmerc", "utm"), lon=sampled(10.0, -178.5, 0.02), lat=sampled(45.0, -38.0, 64.5), layered=one_in(4, st.just(True), st.just(False)),
                 spacing=sampled(2.0, 1.0), phases=sampled(["P", "S"], ["P", "S"], ["P"], ["S"]), position=sampled("classic", "centred"),
                 day=sampled(*DAYS), at=one_in(2, ints(0, 86399), ints(86330, 86385)), gaps=one_in(3, st.just(True), st.just(False)), slots=st.lists(st.integers(0, 3), min_size=1, max_size=2, unique=True), jit=rounded(-0.5, 0.5, 3),
                 method=sampled("static", "static", "mad", "median_ratio"), norm=st.booleans(), smooth=st.booleans(),
                 mags=sampled(None, "Hutton-Boore", "UK"), cut=sampled(None, "raw", "real", "wa"), timestep=sampled(13.0, 20.0, 60.0),
                 drop=st.lists(st.tuples(st.integers(0, 5), st.integers(0, 2)).map(list), max_size=2), hole=one_in(3, st.tuples(st.integers(0, 5), rounded(0, 60, 2)).map(list), st.none()),
                 change=ints(0, 16**4 - 1).map(lambda i: list(dict.fromkeys(ALL[i // 16**k % 16] for k in range(4)))), pick=st.integers(0, 10**6))


class Variant:
    """One way of writing the experiment down."""

    def __init__(self, c, change):
        rng = np.random.RandomState(c["pick"])
        pick = lambda *v: v[rng.randint(len(v))]        # noqa: E731
        m = c["m"]
        names = pipekit.NAMES[:m]
        day, at = pick(*DAYS), pick(int(rng.randint(0, 86400)), int(rng.randint(86330, 86385)))
        perm, other = [int(i) for i in rng.permutation(m)], [OTHER[i] for i in rng.permutation(len(OTHER))[:m]]
        net, loc, gain = pick("Q1", "", "Z"), pick("", "00", "10"), 2.0 ** pick(-6, -3, 1, 5)
        fmt, dtype, threads = pick(*FORMATS), pick("float32", "float64"), pick(2, 3, 4)
        self.units = "m" if "units" in change else "km"
        self.u = 1000.0 if "units" in change else 1.0
        self.t0 = UTCDateTime(c["day"]) + c["at"]
        if "seconds" in change and c["method"] == "static":
            self.t0 = UTCDateTime(day) + at
        elif "date" in change:
            self.t0 = UTCDateTime(day) + c["at"]
        self.order = perm if "order" in change else None
        self.rename = dict(zip(names, other)) if "rename" in change else {q: q for q in names}
        self.back = {v: k for k, v in self.rename.items()}
        self.net, self.loc = (net, loc) if "codes" in change else ("XX", "")
        self.gain = gain if "gain" in change else 1.0
        self.sign = -1.0 if "polarity" in change and not c["mags"] and c["cut"] in (None, "raw") else 1.0
        self.fmt = fmt if "layout" in change else "YEAR/JD/STATION"
        self.pieces = "pieces" in change
        self.extra = "irrelevant" in change
        self.chans = {"HHZ": "HHZ", "HHN": "HH1", "HHE": "HH2"} if "channels" in change else {q: q for q in pipekit.COMPS}
        self.cback = {v: k for k, v in self.chans.items()}
        self.threads = threads if "threads" in change else 1
        self.name, self.sub, self.deep = ("other.run-2", "s_1", "a b/c") if "path" in change else ("r", "", "runs")
        self.dtype = dtype if "encoding" in change and not c["gaps"] else "int32"       # rounding decides the onset inside gaps
        self.times = pick(lambda t: t, lambda t: t.strftime("%Y-%m-%d %H:%M:%S.%f"), lambda t: t.strftime("%Y-%jT%H:%M:%S.%f")) if "times" in change else str
        self.rng = rng

    def id(self, sta, ch):
        return f"{self.net}.{self.rename[sta]}.{self.loc}.{self.chans[ch]}"

    def canon(self, trace_id):
        n, s, loc, ch = trace_id.split(".")
        if ch not in self.cback:            # a missing channel of the amplitudes file
            return self.back[s], ch
        assert (n, loc) == (self.net, self.loc), trace_id
        return self.back[s], self.cback[ch]


def build(c, v, root, data, sr):
    lut = pipekit.network_lut(c["seed"], c["n"], c["m"], units=v.units, spacing=c["spacing"], proj=c["proj"], layered=c["layered"],
                              lon=c["lon"], lat=c["lat"], order=v.order, rename=v.rename)
    files = {}

    def put(sta, ch, k, x):
        while len(x):
            t = t_add(v.t0, k, sr)
            day = UTCDateTime(t.date)
            n = int(-(-((day + 86400)._ns - t._ns) * sr // 10**9))
            if v.pieces:
                n = min(n, int(v.rng.randint(1, 15 * sr)))
            tr = trace((x[:n] * v.sign * v.gain).astype(v.dtype), t, sr, sta, ch, v.net, v.loc)
            files.setdefault(fname(v.fmt, sta, ch, day + 1, v.rng.randint(2) if v.pieces and v.fmt != "/STATION/STATION.YearMonthDay" else 0, False), []).append(tr)
            x, k = x[n:], k + n

    for (s, ch), segs in data.items():
        for k, x in segs:
            put(v.rename[s], v.chans[ch], k, x)
    if v.extra:
        x = np.round(v.rng.normal(size=round(TOTAL * sr)) * 1e5)
        put("OTH", "HHZ", 0, x)
        put(v.rename[pipekit.NAMES[0]], "VMX", 0, x)
        for s in v.rename.values():
            put(s, "HHZ", round(2 * 86400 * sr), x)
            put(s, "HHN", -round(2 * 86400 * sr), x)
    for f, trs in files.items():
        p = root / "arch" / f
        p.parent.mkdir(parents=True, exist_ok=True)
        if v.pieces:
            trs = [trs[i] for i in v.rng.permutation(len(trs))]
        Stream(trs).write(str(p), format="MSEED")
    ids = [v.id(s, ch) for s in v.rename for ch in pipekit.COMPS]
    inv = wavekit.inventory([(i, wavekit.response("1hz", 400.0 * v.gain), None, None) for i in ids])
    kw = dict(response_inv=inv, water_level=60.0)
    sta = lut.station_data[["Name"]]
    arch = Archive(str(root / "arch"), sta, format=v.fmt[7:], **kw) if v.fmt.startswith("custom:") else \
        Archive(str(root / "arch"), sta, archive_format=v.fmt, **kw)
    return lut, arch


def run(c, v, root, lut, arch, sr):
    start, end = t_add(v.t0, round(LEAD * sr), sr), t_add(v.t0, round((LEAD + SCAN) * sr) - 1, sr)
    path = root / v.deep
    ch = {"P": "*Z", "S": "*[N,E,1,2]"}
    on = lambda pos: pipekit.onset(sr, pos, phases=c["phases"])     # noqa: E731

    def fix(o):
        o.channel_maps = {p: ch[p] for p in c["phases"]}
        o.channel_counts = {p: {"P": 1, "S": 2}[p] for p in c["phases"]}
        o.allow_gaps, o.full_timespan = c["gaps"], not c["gaps"]
        o.bandpass_filters = {p: [2, 0.4 * sr, 2] for p in c["phases"]}
        return o
    q = QuakeScan(arch, lut, onset=fix(on("classic")), run_path=str(path), run_name=v.name, log=False, threads=v.threads, timestep=c["timestep"])
    q.detect(v.times(start), v.times(end))
    kw = dict(static_threshold=1.8 if not c["norm"] else 1.6) if c["method"] == "static" else \
        dict(median_multiplier=1.3) if c["method"] == "median_ratio" else dict(mad_multiplier=8.0)
    t = Trigger(lut, str(path), v.name, log=False, trigger_name=v.sub, threshold_method=c["method"], marginal_window=0.5, min_event_interval=5.0,
                normalise_coalescence=c["norm"], smooth_coa=c["smooth"], plot_trigger_summary=False, pad=45.0, **kw)
    t.trigger(v.times(start), v.times(end))
    o = fix(on(c["position"]))
    mags = LocalMag(dict(signal_window=1.0, noise_window=2.0), dict(A0=c["mags"], amp_feature="P_amp" if c["phases"] == ["P"] else "S_amp"),
                    plot_amplitudes=False) if c["mags"] else None
    q = QuakeScan(arch, lut, onset=o, picker=GaussianPicker(onset=o, plot_picks=False), mags=mags, run_path=str(path), run_name=v.name, run_subname=v.sub,
                  log=False, threads=v.threads, marginal_window=0.5, plot_event_summary=False, write_cut_waveforms=c["cut"] == "raw",
                  write_real_waveforms=c["cut"] == "real", write_wa_waveforms=c["cut"] == "wa", write_marginal_coalescence=True)
    q.locate(starttime=v.times(start), endtime=v.times(end))
    return outputs(c, v, path, lut, start, end)


def rel(v, text):
    if text in ("-1", "", "nan") or pd.isna(text):
        return float("nan")
    return round((UTCDateTime(text)._ns - v.t0._ns) / 1e9, 6)


def table(v, f, skip=()):
    """{column: values} of a file of results, in canonical time, names and units."""
    df = pd.read_csv(f, dtype=str, keep_default_na=False)
    out = {}
    for col in df.columns:
        if col in skip:
            continue
        x = list(df[col])
        if col in ("EventID",):
            out[col] = [round((UTCDateTime.strptime(i + "000", "%Y%m%d%H%M%S%f")._ns - v.t0._ns) / 1e9, 3) for i in x]
        elif col in ("DT", "CoaTime", "MinTime", "MaxTime", "ModelledTime", "PickTime", "P_time", "S_time"):
            out[col] = [rel(v, q) for q in x]
        elif col == "Station":
            out[col] = [v.back[q] for q in x]
        elif col == "id":
            out[col] = [".".join(v.canon(q)) for q in x]
        else:
            try:
                y = np.array([float(q) if q != "" else np.nan for q in x])
            except ValueError:
                out[col] = x
                continue
            out[col] = list(y / v.u if col in ("Z", "COA_Z", "GAU_Z", "GAU_ErrX", "GAU_ErrY", "GAU_ErrZ", "COV_ErrX", "COV_ErrY", "COV_ErrZ", "COV_Err_XYZ", "LocErr")
                            or col.endswith(("_Z", "ErrX", "ErrY", "ErrZ", "Err_XYZ")) else y)
    order = sorted(range(len(df)), key=lambda i: tuple(str(out[k][i]) for k in ("Station", "Phase", "id", "CoaTime") if k in out))
    return {k: [q[i] for i in order] for k, q in out.items()}


def outputs(c, v, path, lut, start, end):
    out = {}
    base = path / v.name.replace(".", "_")           # as documented
    data, _ = read_scanmseed(Run(str(path), v.name, stage="detect"), start, end, 0.0, lut.unit_conversion_factor)
    for k in data.columns:
        x = data[k].values
        out["scan", k] = [round((t._ns - v.t0._ns) / 1e9, 6) for t in data[k]] if k == "DT" else list(x.astype(float) / (v.u if k == "Z" else 1))
    av = [pd.read_csv(f, index_col=0) for f in sorted(base.rglob("*StationAvailability.csv"))]
    for f in av:
        for col in f.columns:
            s, p = col.rsplit("_", 1)
            for t, val in zip(f.index, f[col]):
                out.setdefault(("availability", v.back[s], p), []).append((rel(v, t), float(val)))
    trig = [table(v, f) for f in sorted((base / "trigger" / v.sub / "events").glob("*_TriggeredEvents.csv"))]
    for col in sorted({k for q in trig for k in q}):
        out["triggered", col] = [x for q in trig for x in q.get(col, [])]
    loc = base / "locate" / v.sub
    uid = lambda f: round((UTCDateTime.strptime(f.stem.split("_")[0] + "000", "%Y%m%d%H%M%S%f")._ns - v.t0._ns) / 1e9, 3)     # noqa: E731
    for kind in ("event", "picks", "amps"):
        for f in sorted(loc.rglob(f"*.{kind}")):
            for k, x in table(v, f).items():
                out[kind, uid(f), k] = x
    for f in sorted(loc.rglob("*.npy")):
        out["map", uid(f)] = list(np.load(f).ravel())
    for f in sorted(p for p in loc.rglob("*") if p.is_file() and "cut_waveforms" in str(p)):
        for tr in read(str(f)):
            if tr.stats.channel == "VMX":       # cut waveforms hold all channels of the stations
                continue
            scale = v.sign * (v.gain if f.parent.name == "raw_cut_waveforms" or c["cut"] == "raw" else 1.0)
            out["cut", uid(f), *v.canon(tr.id)] = [round((tr.stats.starttime._ns - v.t0._ns) / 1e9, 5), *(np.asarray(tr.data, float) / scale)]
    return out


def check(c, ctx):
    sr = c["sr"]
    root = pathlib.Path(ctx.tmp())
    rng = np.random.RandomState(c["seed"])
    lut = pipekit.network_lut(c["seed"], c["n"], c["m"], spacing=c["spacing"], proj=c["proj"], layered=c["layered"], lon=c["lon"], lat=c["lat"])
    names = list(lut.traveltimes)
    total = round(TOTAL * sr)
    sources = [(tuple(int(rng.randint(1, v - 1)) for v in c["n"]), round((LEAD + 4 + 9 * s + c["jit"]) * sr), 30.0) for s in sorted(c["slots"])]
    tr = pipekit.waveforms(lut, names, sr, total, sources, rng, freq=min(6.0, 0.25 * sr))
    gone = {(names[i % len(names)], pipekit.COMPS[j]) for i, j in c["drop"]}
    data = {}
    for (s, ch), x in tr.items():
        if (s, ch) in gone:
            continue
        x = np.round(x * 1000 / 64) * 64            # may be scaled down by powers of two
        segs = [(0, x)]
        if c["hole"] is not None and s == names[c["hole"][0] % len(names)]:
            k = round((LEAD + c["hole"][1]) * sr)
            segs = [(0, x[:k]), (k + 2 * sr, x[k + 2 * sr:])]
        data[s, ch] = segs
    res = []
    for i, change in enumerate(([], c["change"])):
        v = Variant(c, change)
        (root / str(i)).mkdir()
        try:
            res.append(run(c, v, root / str(i), *build(c, v, root / str(i), data, sr), sr))
        except Exception as e:
            if i and not isinstance(res[0], Exception):
                raise
            res.append(e)
    a, b = res
    if isinstance(a, Exception):
        ctx.label(f"raised {type(a).__name__}")
        ctx.equal(type(b), type(a), f"{a!r} as written, otherwise {b!r}")
        if not str(type(a).__name__).startswith(("No", "Data", "Archive")):
            raise a
        return
    loose = bool(LOOSE & set(c["change"]))
    what = ", ".join(c["change"])
    ctx.equal(sorted(map(str, set(b) ^ set(a))), [], f"results with changed {what}: differences")
    for k, x in a.items():
        y = b[k]
        ctx.check(len(x) == len(y), lambda: f"{k}: {len(x)} values, {len(y)} with changed {what}")
        if len(x) and isinstance(x[0], str):
            ctx.equal(y, x, f"{k} with changed {what}")
            continue
        p, q = np.asarray(x, float), np.asarray(y, float)
        tol = tolerance(k, p, loose)
        bad = ~((np.isnan(p) & np.isnan(q)) | (p == q) | (np.abs(p - q) <= tol))
        if loose and k[0] == "scan" and k[1] in "XYZ":
            bad &= np.mean(bad) > 0.01          # the maximum among (nearly) equal nodes
        if bad.any():
            j = tuple(np.argwhere(bad)[0])
            ctx.fail(f"{k}: {p[j]}, with changed {what} {q[j]} ({int(bad.sum())} of {bad.size} values)")
    ctx.label(*c["change"], f"{min(len([k for k in a if k[0] == 'event' and k[2] == 'DT']), 3)} events")
    if any(k[0] == "amps" for k in a):
        ctx.label("amplitudes")
    ctx.nontrivial(any(k[0] == "event" for k in a))


def tolerance(k, p, loose):
    if not loose:
        return 1e-9 * np.abs(p) if k[0] != "cut" else 1e-9 * np.max(np.abs(p))
    name = k[-1]
    if k[0] == "scan":
        return {"DT": 0, "X": 2.1e-6, "Y": 2.1e-6, "Z": 1.1e-3}.get(name, 2.1e-5 + 1e-6 * np.abs(p))
    if k[0] == "cut":
        return np.r_[1e-6, np.full(len(p) - 1, 1e-4 * np.max(np.abs(p[1:]), initial=0))]
    if k[0] == "map":
        return 1e-6 * np.max(np.abs(p))
    if name in ("SNR", "PickError") or name.startswith(("COA", "TRIG_COA", "DEC_COA", "ML", "GAU_Err", "COV_Err")) and name not in ("COA_X", "COA_Y", "COA_Z") \
            or k[0] == "amps" and not name.endswith("time"):
        return 1.1e-2 * np.abs(p) + 1.1e-3          # written with few digits
    return 1e-6 * np.abs(p) + 1.1e-3


FACETS = [Facet("variants", strat, check, quick=240, thorough=5000, shards=8, rule="an event was located")]
