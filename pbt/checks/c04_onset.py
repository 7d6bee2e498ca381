"""C04: STALTAOnset.calculate_onsets against an independent per-station reference."""
import fnmatch

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from obspy import Stream
from scipy.signal import hilbert

import quakemigrate.util as util
from harness import Facet
from qm import EPOCH, t_add, trace
from quakemigrate.io.data import WaveformData
from quakemigrate.signal.onsets import STALTAOnset
from strategies import fixed, ints, one_in, rounded, sampled, seeds

ASSUMPTIONS = ["traces of the reference facet start on the sample grid and share the onset rate or an "
               "integer multiple of it",
               "in the allow_gaps / full_timespan=False modes the onset is decided where the long-term window holds data"]

CHSETS = [["HHZ", "HHN", "HHE"], ["HHZ", "HH1", "HH2"], ["HHZ"], ["HHN", "HHE"], ["HHZ", "HHE"],
          ["HHZ", "BHZ", "HHN"], []]
DEFECTS = ["ok"] * 8 + ["flat", "gap", "short", "badrate", "overlap"]
MAPS = [({"P": "*Z", "S": "*[N,E,1,2]"}, {"P": 1, "S": 2}), ({"P": "*", "S": "*[N,E,1,2]"}, {"P": 3, "S": 2}),
        ({"P": "*Z", "S": "*"}, {"P": 1, "S": 3}), ({"P": "HH*", "S": "*N"}, {"P": 2, "S": 1}),
        ({"P": "*[Z,N,1]", "S": "?H[E,2]"}, {"P": 2, "S": 1}), ({"P": "BH?", "S": "HH?"}, {"P": 1, "S": 2})]
GAPPY = ["ok", "gap", "gap", "short", "short", "gap", "flat", "badrate", "overlap"]


def window():
    return st.tuples(rounded(0.1, 0.6, 2), rounded(0.3, 2.0, 2)).map(
        lambda t: [t[0], round(t[0] + t[1], 2)])


def strat(defects=DEFECTS):
    return fixed(
        sr=sampled(20, 25, 40, 50, 100), seed=seeds,
        phases=sampled(["P", "S"], ["S", "P"], ["P"], ["S"]),
        win=fixed(P=window(), S=window()),
        hi=fixed(P=rounded(0.3, 0.95, 2), S=rounded(0.3, 0.95, 2)),
        lo=fixed(P=rounded(0.05, 0.5, 2), S=rounded(0.05, 0.5, 2)),
        corners=fixed(P=st.integers(1, 4), S=st.integers(1, 4)),
        position=sampled("classic", "centred"),
        transform=sampled("energy", "abs", "env", "env_squared"),
        floor=sampled(0.4, 0.01, 0.8, 1.0), all_channels=st.booleans(),
        timespan=one_in(3, st.none(), rounded(0.0, 8.0, 2)), ttmax=rounded(0, 3, 1),
        extra=rounded(4, 20, 2), start=ints(0, 3000),
        stations=st.lists(fixed(chans=sampled(*CHSETS), defect=sampled(*defects), which=st.integers(0, 2),
                                dec=sampled(1, 1, 1, 2, 4), amp=st.integers(-3, 6),
                                burst=rounded(0.2, 0.9, 2)), min_size=1, max_size=5),
        order=seeds, maps=one_in(3, st.integers(1, len(MAPS) - 1), st.just(0)),
        python=one_in(4, st.just(True), st.just(False)))


def setup(c, **kw):
    nyq = c["sr"] / 2
    onset = STALTAOnset(
        sampling_rate=c["sr"], position=c["position"], signal_transform=c["transform"],
        min_onset_value=c["floor"], phases=list(c["phases"]),
        bandpass_filters={p: [c["lo"][p] * c["hi"][p] * nyq, c["hi"][p] * nyq, c["corners"][p]]
                          for p in c["phases"]},
        sta_lta_windows={p: list(c["win"][p]) for p in c["phases"]},
        channel_maps=dict(MAPS[c["maps"]][0]), channel_counts=dict(MAPS[c["maps"]][1]),
        all_channels=c["all_channels"], use_python_backend=c["python"], **kw)
    onset.post_pad = c["ttmax"]
    start = t_add(EPOCH, c["start"], c["sr"])
    if c["timespan"] is None:
        n = int(c["extra"] * c["sr"]) + 2
    else:
        ts = util.trim2sample(c["timespan"], c["sr"])
        pre, post = onset.pad(ts)
        n = round((pre + ts + post) * c["sr"])
    return onset, start, t_add(start, n, c["sr"]), n + 1


def build(c, start, n):
    """{station: [traces]} and the list of stations."""
    out = {}
    for i, s in enumerate(c["stations"]):
        rng = np.random.RandomState((c["seed"] + 31 * i) % 2**32)
        trs = []
        for j, ch in enumerate(s["chans"]):
            sr = c["sr"] * s["dec"]
            m = (n - 1) * s["dec"] + 1
            x = rng.normal(size=m)
            k = int(s["burst"] * m)
            ln = min(m - k, int(0.5 * sr))
            x[k:k + ln] += (2000 if s["amp"] in (-2, 2) else 8) * rng.normal(size=ln)
            x = np.cumsum(x) * 0.1 + x + rng.normal() * 5
            x = np.round(x * 10.0 ** s["amp"] * 100) if s["amp"] > 0 else x * 10.0 ** s["amp"]
            tr = trace(x, start, sr, f"ST{i}", ch)
            d = s["defect"] if j == s["which"] % len(s["chans"]) else "ok"
            if d == "flat":
                tr.data[:] = 3.0
            elif d == "short":
                tr.data = tr.data[:int(m * 0.7)]
            elif d == "badrate":
                tr.stats.sampling_rate = sr * 1.37
            if d in ("gap", "overlap"):
                a, b = tr.copy(), tr.copy()
                h = m // 2
                a.data = tr.data[:h]
                o = h + 5 if d == "gap" else h - 5
                b.data = tr.data[o:] + (1.0 if d == "overlap" else 0.0)
                b.stats.starttime = t_add(start, o, sr)
                trs += [a, b]
            else:
                trs.append(tr)
        out[f"ST{i}"] = trs
    return out


def data_for(c, start, end, traces, stations, extra=()):
    d = WaveformData(starttime=start, endtime=end, stations=pd.Series(stations, dtype=object),
                     resample=False, upfactor=None)
    stream = Stream([t.copy() for t in extra])
    for s in stations:
        stream += Stream([t.copy() for t in traces[s]])
    rng = np.random.RandomState(c["order"])
    d.waveforms = Stream([stream[i] for i in rng.permutation(len(stream))])
    return d


def match(c, ch, phase):
    return fnmatch.fnmatchcase(ch, MAPS[c["maps"]][0][phase])


def window_means(x, k):
    cs = np.concatenate([[0], np.cumsum(x.astype(np.longdouble))])
    return (cs[k:] - cs[:-k]) / k          # element i: mean of x[i:i+k]


def ref_stalta(x, nsta, nlta, position):
    n = len(x)
    out = np.ones(n)
    sta, lta = (window_means(x, k) if k <= n else None for k in (nsta, nlta))
    if lta is None:
        return out
    for i in range(nlta - 1, n if position == "classic" else n - nsta):
        s = sta[i - nsta + 1] if position == "classic" else sta[i + 1]
        out[i] = s / lta[i - nlta + 1]
    return out


def ref_row(c, onset, trs, phase, start, end, n, rnd):
    """The documented onset function of one station and phase (clean on-rate traces)."""
    sr = c["sr"]
    nsta = int(round(c["win"][phase][0] * sr)) + 1
    nlta = int(round(c["win"][phase][1] * sr)) + 1
    rows = []
    for tr in trs:
        tr = tr.copy()
        if tr.stats.sampling_rate != sr:
            tr = util.resample(Stream([tr]), sr, False, None, start, end)[0]
        tr.detrend("linear")
        tr.detrend("constant")
        tr.taper(type="cosine", max_percentage=0.05)
        f = onset.bandpass_filters[phase]
        tr.filter("bandpass", freqmin=f[0], freqmax=f[1], corners=f[2], zerophase=True)
        x = tr.data
        x = {"energy": lambda: x * x, "abs": lambda: np.abs(x), "env": lambda: np.abs(hilbert(x)),
             "env_squared": lambda: np.abs(hilbert(x)) ** 2}[c["transform"]]()
        o = ref_stalta(x, nsta, nlta, c["position"])
        if c["timespan"]:
            ts = util.trim2sample(c["timespan"], sr)
            # taper allowance: 6 % of the padded timespan in whole seconds, pads trimmed up to samples
            allow = np.ceil((ts + onset.pre_pad + onset.post_pad) * 0.06)
            pad = np.ceil(round((onset.pre_pad + allow) * sr, 6)) - onset.pre_pad * sr
            taper = int(rnd(round(pad, 6)))      # not a whole number: either neighbour is accepted
            o[:taper + nlta - 1] = 1
            o[n - (nsta + taper):] = 1
        rows.append(o)
    o = np.sqrt(sum(r ** 2 for r in rows) / len(rows))
    return np.maximum(o, c["floor"])


def expected(c, traces, stations):
    """[(station, phase, usable traces or None)] in documented order; None: outside the oracle."""
    out = []
    for ph in c["phases"]:
        for s in stations:
            i = int(s[2:])
            spec = c["stations"][i]
            chans = [ch for ch in spec["chans"] if match(c, ch, ph)]
            bad = set()
            if spec["chans"] and spec["defect"] != "ok":
                bad.add(spec["chans"][spec["which"] % len(spec["chans"])])
            good = [t for t in traces[s] if t.stats.channel in chans and t.stats.channel not in bad]
            if c["all_channels"]:
                ok = bool(chans) and not (bad & set(chans)) and len(chans) == MAPS[c["maps"]][1][ph]
            else:
                ok = bool(good)
            out.append((s, ph, good if ok else None))
    return out


def check_reference(c, ctx):
    onset, start, end, n = setup(c)
    traces = build(c, start, n)
    stations = [f"ST{i}" for i in range(len(c["stations"]))]
    np.random.RandomState(c["order"] % 1000).shuffle(stations)
    stranger = trace(np.random.RandomState(1).normal(size=n), start, c["sr"], "OTHER", "HHZ")
    data = data_for(c, start, end, traces, stations, [stranger])
    exp = expected(c, traces, stations)
    ts = None if c["timespan"] is None else util.trim2sample(c["timespan"], c["sr"])
    before = data.waveforms.copy()
    if not any(t for *_, t in exp):
        ctx.raises(util.DataAvailabilityException, lambda: onset.calculate_onsets(data, ts),
                   "no usable station-phase")
        ctx.label("nothing available")
        return
    onsets, od = onset.calculate_onsets(data, ts)
    ctx.equal(list(od.availability.items()),
              [(f"{s}_{p}", 1 if t else 0) for s, p, t in exp], "availability record")
    ctx.check(onsets.shape == (sum(bool(t) for *_, t in exp), n),
              f"onset array shape {onsets.shape}, expected {(sum(bool(t) for *_, t in exp), n)}")
    ctx.check(np.isfinite(onsets).all() and onsets.min() >= c["floor"] * (1 - 1e-12),
              "onset not finite or below the floor")
    i = 0
    for s, p, trs in exp:
        if not trs:
            ctx.check(p not in od.onsets.get(s, {}), f"onset stored for unavailable {s}_{p}")
            continue
        ctx.equal(od.onsets[s][p], onsets[i], f"OnsetData.onsets[{s}][{p}] differs from row {i}")
        if not np.allclose(onsets[i], ref_row(c, onset, trs, p, start, end, n, np.ceil),
                           rtol=1e-6, atol=1e-9):
            ctx.close(onsets[i], ref_row(c, onset, trs, p, start, end, n, np.floor),
                      f"row {i} ({s}_{p})", rtol=1e-6, atol=1e-9)
        i += 1
    ctx.nontrivial()
    if i < len(exp):
        ctx.label("some unavailable")
    ctx.equal((od.starttime, od.endtime, od.sampling_rate), (start, end, c["sr"]), "OnsetData window")
    for a, b in zip(before, data.waveforms):
        ctx.check(a.id == b.id and np.array_equal(a.data, b.data), "input waveforms modified")


def run(c, onset, start, end, traces, stations, ts, extra=()):
    data = data_for(c, start, end, traces, stations, extra)
    try:
        arr, od = onset.calculate_onsets(data, ts)
    except util.DataAvailabilityException:
        return {}
    keys = [k for k, v in od.availability.items() if v]
    assert len(keys) == len(arr)
    return dict(zip(keys, arr))


def check_independent(c, ctx):
    """Row of a station is unchanged by other stations, by reordering, by scale and polarity."""
    mode = c["gaps"]
    onset, start, end, n = setup(c, allow_gaps=mode in ("gaps", "both"),
                                 full_timespan=mode not in ("span", "both"))
    traces = build(c, start, n)
    stations = [f"ST{i}" for i in range(len(c["stations"]))]
    ts = None if c["timespan"] is None else util.trim2sample(c["timespan"], c["sr"])
    base = run(c, onset, start, end, traces, stations, ts)
    for k, row in base.items():
        ctx.check(row.shape == (n,), f"{k}: {row.shape} samples, window has {n}")
        ctx.check(np.isfinite(row).all() and row.min() >= c["floor"] * (1 - 1e-12),
                  f"{k}: onset not finite or below the floor")
    rng = np.random.RandomState(c["order"])
    # alone
    alone = {}
    for s in stations:
        alone.update(run(c, onset, start, end, traces, [s], ts))
    ctx.equal(sorted(alone), sorted(base), "availability changes when stations are alone")
    for k in base:
        # (the sum over components depends on their order in the last digit)
        ctx.close(alone[k], base[k], f"{k} changes when other stations are absent", rtol=1e-12)
    # reordered, strangers added, one extra station broken
    perm = list(rng.permutation(stations))
    i = rng.randint(len(stations))
    broken = dict(traces)
    broken[stations[i]] = [trace(np.zeros(n), start, c["sr"], stations[i], "HHZ")]
    strangers = [trace(rng.normal(size=n), start, c["sr"], x, "HHZ") for x in ("ST", "ST00", "ZZ")]
    other = run(c, onset, start, end, broken, perm, ts, strangers)
    keep = [k for k in base if k.split("_")[0] != stations[i]]
    for k in keep:
        ctx.check(k in other, f"{k} lost when another station is unusable")
        ctx.close(other[k], base[k], f"{k} changes when another station is unusable / reordered", rtol=1e-12)
    ctx.equal(sorted(k for k in other), sorted(keep), "unexpected station-phase")
    # scale and polarity
    if mode == "none":
        scaled = {s: [t.copy() for t in trs] for s, trs in traces.items()}
        for s in stations:
            f = float(2.0 ** rng.randint(-8, 9)) * (-1) ** rng.randint(2)
            for t in scaled[s]:
                t.data = t.data * f
        sc = run(c, onset, start, end, scaled, stations, ts)
        ctx.equal(sorted(sc), sorted(base), "availability changes with scale")
        for k in base:
            ctx.close(sc[k], base[k], f"{k} changes with scale/polarity", rtol=1e-6, atol=1e-9)
    if len(base) > 1:
        ctx.nontrivial()


def gap_row(c, onset, chans, phase, start, n, rnd):
    """Onset of one station and phase in the gap modes, and where it is decided: {channel: segments} tapered twice,
    gaps filled with (next to) nothing."""
    sr = c["sr"]
    nsta = int(round(c["win"][phase][0] * sr)) + 1
    nlta = int(round(c["win"][phase][1] * sr)) + 1
    rows, sure = [], np.ones(n, bool)
    for segs in chans:
        full = np.zeros(n)
        for tr in segs:
            tr = tr.copy()
            tr.detrend("linear")
            tr.detrend("constant")
            tr.taper(type="cosine", max_percentage=0.05)
            f = onset.bandpass_filters[phase]
            tr.filter("bandpass", freqmin=f[0], freqmax=f[1], corners=f[2], zerophase=True)
            tr.taper(type="cosine", max_percentage=0.05)
            k = round((tr.stats.starttime._ns - start._ns) * sr / 1e9)
            full[k:k + len(tr)] = tr.data
        x = {"energy": lambda v: v * v, "abs": np.abs, "env": lambda v: np.abs(hilbert(v)),
             "env_squared": lambda v: np.abs(hilbert(v)) ** 2}[c["transform"]](full)
        lim = 1e-6 * x.max()
        with np.errstate(all="ignore"):
            o = ref_stalta(x, nsta, nlta, c["position"])
        lta = np.full(n, np.inf)
        if nlta <= n:
            lta[nlta - 1:] = window_means(x, nlta)
        ok = lta > lim
        if c["timespan"]:
            ts = util.trim2sample(c["timespan"], sr)
            allow = np.ceil((ts + onset.pre_pad + onset.post_pad) * 0.06)
            pad = np.ceil(round((onset.pre_pad + allow) * sr, 6)) - onset.pre_pad * sr
            taper = int(rnd(round(pad, 6)))
            for a in (slice(0, taper + nlta - 1), slice(n - (nsta + taper), n)):
                o[a], ok[a] = 1, True
        rows.append(o)
        sure &= ok
    with np.errstate(all="ignore"):
        return np.maximum(np.sqrt(sum(r ** 2 for r in rows) / len(rows)), c["floor"]), sure


def check_gaps(c, ctx):
    """allow_gaps / full_timespan=False: which traces count, and the onset where there are data."""
    mode = c["gaps"]
    for s in c["stations"]:
        s["dec"] = 1
    onset, start, end, n = setup(c, allow_gaps=mode in ("gaps", "both"), full_timespan=mode not in ("span", "both"))
    traces = build(c, start, n)
    stations = [f"ST{i}" for i in range(len(c["stations"]))]
    good = {"ok": True, "short": mode in ("span", "both"), "gap": mode == "both"}
    exp = []
    for ph in c["phases"]:
        for i, s in enumerate(stations):
            spec = c["stations"][i]
            use, bad = {}, False
            for j, ch in enumerate(spec["chans"]):
                if match(c, ch, ph):
                    d = spec["defect"] if j == spec["which"] % len(spec["chans"]) else "ok"
                    if good.get(d, False):
                        use[ch] = [t for t in traces[s] if t.stats.channel == ch]
                    else:
                        bad = True
            if c["all_channels"] and (bad or len(use) != MAPS[c["maps"]][1][ph]):
                use = {}
            exp.append((s, ph, use))
            if any(len(v) > 1 or len(v[0]) < n for v in use.values()):
                ctx.label("partial data used")
    ts = None if c["timespan"] is None else util.trim2sample(c["timespan"], c["sr"])
    data = data_for(c, start, end, traces, stations)
    if not any(u for *_, u in exp):
        ctx.raises(util.DataAvailabilityException, lambda: onset.calculate_onsets(data, ts), "no usable station-phase")
        return
    onsets, od = onset.calculate_onsets(data, ts)
    ctx.equal(list(od.availability.items()), [(f"{s}_{p}", 1 if u else 0) for s, p, u in exp], "availability record")
    i = 0
    for s, p, use in exp:
        if not use:
            continue
        for rnd in (np.ceil, np.floor):
            row, sure = gap_row(c, onset, use.values(), p, start, n, rnd)
            if np.allclose(onsets[i][sure], row[sure], rtol=1e-5, atol=1e-7):
                break
        else:
            ctx.close(onsets[i][sure], row[sure], f"row {i} ({s}_{p})", rtol=1e-5, atol=1e-7)
        ctx.nontrivial(not sure.all() or any(len(v) > 1 for v in use.values()))
        i += 1


def check_params(c, ctx):
    """Parameters of the onset: halfwidth, pads, filters that do not fit the sampling rate."""
    nyq, sr = c["sr"] / 2, c["sr"]
    hi = {p: (nyq * v if isinstance(v, float) else nyq + v * 1e-9) for p, v in c["hi"].items()}
    onset = STALTAOnset(sampling_rate=sr, phases=c["phases"], bandpass_filters={p: [0.02 * sr, hi[p], 2] for p in c["phases"]},
                        sta_lta_windows={p: list(c["win"][p]) for p in c["phases"]}, channel_maps={"P": "*Z", "S": "*[N,E,1,2]"},
                        channel_counts={"P": 1, "S": 2})
    onset.post_pad = c["ttmax"]
    for p in c["phases"]:
        ctx.close(onset.gaussian_halfwidth(p), c["win"][p][0] * sr / 2, f"half-width for {p}", rtol=1e-12)
    win = [c["win"][p] for p in c["phases"]]
    ctx.close(onset.pre_pad, max(w[1] for w in win) + 3 * max(w[0] for w in win), "pre_pad", rtol=1e-12)
    ctx.check(c["ttmax"] + 2 * max(w[1] for w in win) - 1e-9 <= onset.post_pad < c["ttmax"] + 2 * max(w[1] for w in win) + 1 + 1e-9,
              f"post_pad {onset.post_pad}")
    n = int(20 * sr) + 1
    rng = np.random.RandomState(c["seed"])
    data = WaveformData(starttime=EPOCH, endtime=t_add(EPOCH, n - 1, sr), stations=pd.Series(["ST0"]), resample=False, upfactor=None)
    data.waveforms = Stream([trace(rng.normal(size=n), EPOCH, sr, "ST0", ch) for ch in ("HHZ", "HHN")])
    bad = any(hi[p] >= nyq for p in c["phases"])
    if bad:
        ctx.raises(util.NyquistException, lambda: onset.calculate_onsets(data), f"high-cut {hi} at {sr} Hz")
    else:
        onset.calculate_onsets(data)
    ctx.nontrivial(any(abs(hi[p] / nyq - 1) < 0.01 for p in c["phases"]))


FACETS = [
    Facet("gaps", lambda: st.tuples(strat(GAPPY), sampled("both", "both", "both", "span", "gaps")).map(lambda t: {**t[0], "gaps": t[1]}),
          check_gaps, quick=150, thorough=3000, shards=2, rule="a gappy or incomplete trace is used"),
    Facet("params", lambda: fixed(sr=sampled(20, 25, 33, 40, 50, 100), seed=seeds, phases=sampled(["P", "S"], ["P"], ["S"]),
                                  win=fixed(P=window(), S=window()), ttmax=rounded(0, 9, 2),
                                  hi=fixed(P=sampled(0.9, 0.999, 1.0, 1.1, 0, 1), S=sampled(0.9, 0.5, 0.999, 1.0, 1.2))),
          check_params, quick=60, thorough=600, shards=1, rule="a high-cut frequency next to the Nyquist frequency"),
    Facet("reference", strat, check_reference, quick=300, thorough=6000, shards=4,
          rule="at least one station-phase available"),
    Facet("independent", lambda: st.tuples(strat(), sampled("none", "gaps", "span", "both")).map(
        lambda t: {**t[0], "gaps": t[1]}), check_independent, quick=160, thorough=3000, shards=4,
        rule="at least two station-phases available"),
]
