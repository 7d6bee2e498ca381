"""C05: availability decisions against an interval model; unusable stations never contribute."""
import itertools
import tempfile

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from obspy import Stream, UTCDateTime

import quakemigrate.util as util
from harness import Facet
from qm import EPOCH, t_add, trace
from quakemigrate.io.data import Archive, WaveformData
from quakemigrate.signal.onsets import STALTAOnset
from strategies import fixed, ints, one_in, rounded, sampled, seeds

ASSUMPTIONS = ["data handed to the availability check lie inside the requested window (as read_waveform_data "
               "and resample guarantee)", "contiguous segments are merged before the check, as the archive "
               "reader does"]

RATES = [20, 25, 40, 50, 100, 62.5, 200, 12.5, 33]


def seg(n):
    return st.lists(st.integers(0, n), min_size=2, max_size=2, unique=True).map(sorted)


def channel(n):
    return fixed(
        kind=sampled("full", "full", "full", "segs", "gappy", "gappy", "short1", "late1", "flat", "rate", "constseg",
                     "almostflat", "mixrate"),
        segs=st.lists(seg(n), min_size=1, max_size=3), seed=seeds, value=sampled(0.0, 3.0, -1e6, 0.1), flatseg=st.integers(-3, 2),
        nseg=st.integers(2, 4),
        srf=sampled(0.5, 2.0, 1.1, 1.001))


def strat_decision():
    return ints(3, 300).flatmap(lambda n: fixed(
        n=st.just(n), sr=sampled(*RATES), start=ints(0, 10**6),
        chans=st.lists(channel(n), min_size=0, max_size=4), all_channels=st.booleans(),
        n_channels=st.integers(1, 4), allow_gaps=st.booleans(), full=st.booleans(),
        check_rate=st.booleans(), strict=st.booleans(), dtype=sampled("float64", "int32", "float32"),
        order=seeds, lenient=st.booleans()).map(
            lambda c: {**c, "allow_gaps": True, "full": False, "strict": False} if c["lenient"] else c))


NAMES = ["HHZ", "HHN", "HHE", "BHZ"]


def make_channel(i, ch, c, start):
    """(traces, facts) for one channel; facts: flat, overlap, gap, rate_ok, covers, exact."""
    rng = np.random.RandomState(ch["seed"])
    n, sr = c["n"], c["sr"]
    k = ch["kind"]

    def data(m):
        x = np.round(rng.normal(size=m) * 1000)
        if m > 1 and x.max() == x.min():
            x[0] += 1
        return x.astype(c["dtype"])

    rate_ok = True
    segs = [[0, n]]
    if k == "segs":
        segs = []
        for a, b in sorted(ch["segs"]):
            if b - a >= 2 and not any(a == y or b == x or (a, b) == (x, y) for x, y in segs):
                segs.append([a, b])
        segs = segs or [[0, n]]
    elif k == "gappy" and n >= 20:      # separate segments, the gaps from one sample on
        at = np.linspace(0, n, ch["nseg"] + 1).astype(int)
        segs = [[int(a) + (0 if a == 0 else 1 + rng.randint(2)), int(b)] for a, b in zip(at, at[1:])]
    elif k == "short1":
        segs = [[0, n - 1]]
    elif k == "late1":
        segs = [[1, n]]
    trs = []
    for a, b in segs:
        trs.append(trace(data(b - a + (1 if b == n else 0)), t_add(start, a, sr), sr, "STA", NAMES[i]))
    segs = [[a, b + (1 if b == n else 0)] for a, b in segs]      # half-open sample ranges
    flat = False
    if k in ("segs", "gappy") and ch.get("flatseg", -1) >= 0:
        t = trs[ch["flatseg"] % len(trs)]
        t.data = np.full(len(t), ch["value"]).astype(c["dtype"])
    if k == "flat":
        trs[0].data = np.full(len(trs[0]), ch["value"]).astype(c["dtype"])
        flat = True
    elif k == "almostflat":
        trs[0].data = np.full(len(trs[0]), 7.0).astype(c["dtype"])
        trs[0].data[rng.randint(len(trs[0]))] = 8
    elif k == "rate":
        rate_ok = False
        # same timespan at another rate
        trs[0].data = data(int(n * ch["srf"]) + 1)
        trs[0].stats.sampling_rate = sr * ch["srf"]
    elif k == "mixrate" and n >= 8:
        # two segments of one channel at two rates; whether they count as gapless is not decided here
        h = n // 2
        rate_ok = False
        trs[0].data = trs[0].data[:h]
        if trs[0].data.max() == trs[0].data.min():
            trs[0].data[0] += 1
        late = trace(data(max(3, int((n - h - 2) * ch["srf"]))), t_add(start, h + 1, sr), sr * ch["srf"], "STA", NAMES[i])
        trs = [trs[0], late] if ch["value"] else [late, trs[0]]
        segs = [[0, h], [h + 1, n + 1]]
    elif k == "constseg" and n >= 40:
        trs[0].data[5:-5] = 4
        segs = [[0, n + 1]]
    flat = flat or any(t.data.max() == t.data.min() for t in trs)
    segs.sort()
    overlap = any(x[1] > y[0] for x, y in itertools.combinations(segs, 2))
    gap = not overlap and any(x[1] < y[0] for x, y in zip(segs, segs[1:]))
    contiguous = not overlap and any(x[1] == y[0] for x, y in zip(segs, segs[1:]))
    covers = len(segs) == 1 and segs[0] == [0, n + 1]
    if k == "rate":
        covers = trs[0].stats.endtime >= start + n / sr - 1e-6
        if abs(trs[0].stats.endtime - (start + n / sr)) < 2e-6:
            covers = True
    return trs, dict(flat=flat, overlap=overlap, gap=gap, rate_ok=rate_ok, covers=covers,
                     contiguous=contiguous)


def check_decision(c, ctx):
    sr, n = c["sr"], c["n"]
    start = t_add(EPOCH, c["start"], sr)
    end = t_add(start, n, sr)
    stream, exp = Stream(), {}
    skip = False
    for i, ch in enumerate(c["chans"]):
        trs, f = make_channel(i, ch, c, start)
        stream += Stream(trs)
        good = not f["flat"] and not f["overlap"] and (c["allow_gaps"] or not f["gap"])
        good = good and (not c["check_rate"] or f["rate_ok"])
        good = good and (not c["full"] or f["covers"])
        if c["strict"]:
            good = good and all(t.stats.starttime == start and t.stats.endtime == end for t in trs) \
                and len(trs) == 1
        if f["contiguous"] or len({t.stats.sampling_rate for t in trs}) > 1 and not (c["check_rate"] or c["full"]):
            skip = True
        exp[trs[0].id] = int(bool(good))
    if skip:
        return
    rng = np.random.RandomState(c["order"])
    stream = Stream([stream[i] for i in rng.permutation(len(stream))])
    before = stream.copy()
    d = WaveformData(starttime=start, endtime=end, stations=pd.Series(["STA"]))
    avail, av = d.check_availability(
        stream, all_channels=c["all_channels"], n_channels=c["n_channels"], allow_gaps=c["allow_gaps"],
        full_timespan=c["full"], check_sampling_rate=c["check_rate"], sampling_rate=sr,
        check_start_end_times=c["strict"])
    ctx.equal(dict(av), exp, "per-channel availability")
    if c["all_channels"]:
        want = int(len(exp) == c["n_channels"] and all(exp.values()))
    else:
        want = int(any(exp.values()))
    ctx.equal(avail, want, f"station availability (channels {exp})")
    for a, b in zip(before, stream):
        ctx.check(a.stats == b.stats and np.array_equal(a.data, b.data), "input stream modified")
    ctx.label("available" if avail else "unavailable")
    ctx.nontrivial(len(exp) > 0)


# ------------------------------------------------- spans: every (duration, rate) pair
def strat_span():
    return fixed(sr=sampled(*RATES, 1, 10, 250, 500, 1000, 128), n=ints(2, 20000),
                 start=rounded(0, 86400, 3), less=st.integers(0, 2), strict=st.booleans())


def check_span(c, ctx):
    """Complete data are always accepted; one sample less never is."""
    sr = c["sr"]
    start = EPOCH + c["start"]
    # UTCDateTime resolution
    end = start + round(c["n"] / sr, 9)
    m = c["n"] + 1 - c["less"]
    x = np.arange(m) % 7
    tr = trace(x, start, sr)
    d = WaveformData(starttime=start, endtime=end, stations=pd.Series(["STA"]))
    if m < 2:
        return
    got, _ = d.check_availability(Stream([tr]), full_timespan=True, check_sampling_rate=True,
                                  sampling_rate=sr)
    ctx.equal(got, int(c["less"] == 0),
              f"{m} samples at {sr} Hz for a window of {c['n']} samples + 1")
    ctx.nontrivial()


# ------------------------------------------------- unusable data never reach the onsets
DEFECTS = ["ok", "ok", "ok", "flat0", "flat", "gap", "gap1", "short1", "late1", "half", "rate_up", "rate_odd",
           "overlap", "missing", "tinyspan"]


def strat_use():
    return fixed(sr=sampled(20, 25, 50, 100), secs=rounded(4, 12, 1), seed=seeds, start=ints(0, 1000),
                 stations=st.lists(fixed(Z=sampled(*DEFECTS), N=sampled(*DEFECTS), E=sampled(*DEFECTS)),
                                   min_size=1, max_size=3),
                 all_channels=st.booleans(), allow_gaps=one_in(3, st.just(True), st.just(False)),
                 full=one_in(3, st.just(False), st.just(True)), phases=sampled(["P", "S"], ["S"], ["P"]),
                 resample=st.booleans())


def build_use(c, start, n):
    out = {}
    for i, s in enumerate(c["stations"]):
        for j, comp in enumerate("ZNE"):
            rng = np.random.RandomState((c["seed"] + 97 * i + 7 * j) % 2**32)
            k, sr = s[comp], c["sr"]
            if k == "missing":
                continue
            x = np.round(rng.normal(size=n) * 1000)
            trs = []

            def add(a, b, v=None, at=None):
                trs.append(trace(x[a:b] if v is None else v, t_add(start, a if at is None else at, sr), sr,
                                 f"S{i}", "HH" + comp))
            if k in ("ok",):
                add(0, n)
            elif k in ("flat0", "flat"):
                add(0, n, np.full(n, 0.0 if k == "flat0" else 1234.5))
            elif k in ("gap", "gap1"):
                h = n // 2
                add(0, h)
                add(h + (1 if k == "gap1" else 9), n)
            elif k == "short1":
                add(0, n - 1)
            elif k == "late1":
                add(1, n)
            elif k == "half":
                add(0, n // 2)
            elif k == "tinyspan":
                add(n // 3, n // 3 + 2 * c["sr"])
            elif k == "rate_up":
                y = np.round(rng.normal(size=(n - 1) * 2 + 1) * 1000)
                trs.append(trace(y, start, sr * 2, f"S{i}", "HH" + comp))
            elif k == "rate_odd":
                trs.append(trace(np.round(rng.normal(size=int(n * 1.3))), start, sr * 1.3, f"S{i}", "HH" + comp))
            elif k == "overlap":
                h = n // 2
                add(0, h + 5)
                add(h, n, x[h:n] + 1)
            out[(f"S{i}", comp)] = trs
    return out


def usable(c, kind):
    """Meets the criteria at the onset stage?"""
    if kind in ("ok", "rate_up"):
        return True
    if kind in ("gap", "gap1"):
        return c["allow_gaps"] and not c["full"]
    if kind in ("short1", "late1", "half", "tinyspan"):
        return not c["full"]
    return False


def onsets_for(c, start, end, traces, stations, phases):
    o = STALTAOnset(sampling_rate=c["sr"], phases=phases, channel_maps={"P": "*Z", "S": "*[N,E]"},
                    channel_counts={"P": 1, "S": 2}, all_channels=c["all_channels"],
                    bandpass_filters={p: [1.0, 0.4 * c["sr"], 2] for p in phases},
                    sta_lta_windows={p: [0.2, 0.8] for p in phases},
                    allow_gaps=c["allow_gaps"], full_timespan=c["full"])
    d = WaveformData(starttime=start, endtime=end, stations=pd.Series(stations), resample=c["resample"])
    d.waveforms = Stream([t.copy() for trs in traces.values() for t in trs])
    try:
        arr, od = o.calculate_onsets(d, None)
    except util.DataAvailabilityException:
        return None, None
    return {k: arr[i] for i, k in enumerate(k for k, v in od.availability.items() if v)}, od


def check_use(c, ctx):
    sr = c["sr"]
    start = t_add(EPOCH, c["start"], sr)
    n = int(round(c["secs"] * sr)) + 1
    end = t_add(start, n - 1, sr)
    traces = build_use(c, start, n)
    stations = [f"S{i}" for i in range(len(c["stations"]))]
    want = {}
    for ph in c["phases"]:
        comps = "Z" if ph == "P" else "NE"
        for i, s in enumerate(c["stations"]):
            good = [usable(c, s[k]) for k in comps if s[k] != "missing"]
            ok = (all(good) and len(good) == len(comps)) if c["all_channels"] else any(good)
            want[f"S{i}_{ph}"] = int(bool(ok))
    got, od = onsets_for(c, start, end, traces, stations, c["phases"])
    if not any(want.values()):
        ctx.check(got is None, f"onsets computed from data failing the criteria: {want} "
                               f"-> {od and od.availability}")
        ctx.label("no data available")
        ctx.nontrivial()
        return
    ctx.check(got is not None, f"reported as having no available data; expected {want}")
    ctx.equal(dict(od.availability), want, "availability")
    # unusable channels removed altogether: the same onsets
    clean = {k: v for k, v in traces.items() if usable(c, c["stations"][int(k[0][1:])][k[1]])}
    if not c["all_channels"]:
        ref, _ = onsets_for(c, start, end, clean, stations, c["phases"])
        ctx.equal(sorted(ref), sorted(got), "station-phases with unusable channels removed")
        for k in ref:
            ctx.equal(got[k], ref[k], f"{k} depends on data that fail the criteria")
    else:
        # drop the data of every unavailable station-phase
        keep = {k: v for k, v in traces.items()
                if any(want.get(f"{k[0]}_{p}") for p in (["P"] if k[1] == "Z" else ["S"]))}
        ref, _ = onsets_for(c, start, end, keep, stations, c["phases"])
        for k in got:
            ctx.equal(got[k], ref[k], f"{k} depends on data that fail the criteria")
    for t in od.filtered_waveforms:
        ctx.check(usable(c, c["stations"][int(t.stats.station[1:])][t.stats.channel[-1]]),
                  f"{t.id} fails the criteria but is in the waveforms used")
    ctx.nontrivial(len(set(want.values())) == 2)


# ------------------------------------------------- sampling rates in an archive
UP = {20: [(8, 5), (50, 2), (4, 5)], 25: [(10, 5), (20, 5), (40, 5)], 50: [(40, 5), (20, 5), (25, 2), (125, 2)],
      100: [(40, 5), (50, 2), (80, 5), (250, 2)]}


def strat_rates():
    return fixed(sr=sampled(20, 25, 50, 100), secs=st.integers(5, 14), seed=seeds, pick=st.integers(0, 3),
                 day=sampled("2016-02-29", "2015-12-31"), at=ints(1, 86000),
                 resample=one_in(3, st.just(False), st.just(True)), up=one_in(4, st.just(False), st.just(True)),
                 defaults=st.booleans(), interpolate=st.booleans(), pre=sampled(0.0, 2.0), post=sampled(0.0, 1.5),
                 chans=st.lists(st.tuples(sampled("same", "multiple", "up", "up"), sampled("same", "multiple", "up", "up"),
                                          sampled("same", "multiple", "up"), sampled(2, 3, 5)).map(list), min_size=1, max_size=4))


def check_rates(c, ctx):
    """What an Archive reads at several rates is usable exactly when it is at, or may be brought to, the onset rate."""
    sr = c["sr"]
    rate_up, factor = UP[sr][c["pick"] % len(UP[sr])]
    start = UTCDateTime(c["day"]) + c["at"]
    end = start + c["secs"]
    names = [f"S{i}" for i in range(len(c["chans"]))]
    want = {}
    kw = {}
    if c["resample"] or not c["defaults"]:
        kw["resample"] = c["resample"]
    if c["up"]:
        kw["upfactor"] = factor
    with tempfile.TemporaryDirectory() as d:
        for i, (*modes, mult) in enumerate(c["chans"]):
            ok = []
            for comp, mode in zip("ZNE", modes):
                rng = np.random.RandomState((c["seed"] + 31 * i + ord(comp)) % 2**32)
                rate = {"same": sr, "multiple": sr * mult, "up": rate_up}[mode]
                tr = trace(np.round(rng.normal(size=(c["secs"] + 16) * rate) * 1000), start - 8, rate, names[i], "HH" + comp)
                tr.write(f"{d}/{names[i]}_{comp}", format="MSEED")
                ok.append(mode != "up" or (c["resample"] and c["up"]))
            want[f"S{i}_P"], want[f"S{i}_S"] = int(ok[0]), int(ok[1] and ok[2])
        a = Archive(d, pd.DataFrame({"Name": names}), format="{station}_*", interpolate=c["interpolate"], **kw)
        data = a.read_waveform_data(start, end, c["pre"], c["post"])
    onset = STALTAOnset(sampling_rate=sr, phases=["P", "S"], channel_maps={"P": "*Z", "S": "*[N,E]"},
                        channel_counts={"P": 1, "S": 2}, all_channels=True,
                        bandpass_filters={p: [1.0, 0.4 * sr, 2] for p in "PS"},
                        sta_lta_windows={p: [0.2, 0.8] for p in "PS"})
    want = {f"{s}_{p}": want[f"{s}_{p}"] for p in "PS" for s in names}
    if not any(want.values()):
        ctx.raises(util.DataAvailabilityException, lambda: onset.calculate_onsets(data, None), "only data at other rates")
        return ctx.label("none usable")
    arr, od = onset.calculate_onsets(data, None)
    ctx.equal(dict(od.availability), want, f"availability at {sr} Hz ({rate_up} Hz needs upfactor {factor}; {kw})")
    ctx.equal(arr.shape, (sum(want.values()), c["secs"] * sr + 1), "onset rows and samples")
    ctx.label("upsampled" if c["resample"] and c["up"] else "not upsampled")
    ctx.nontrivial(any("up" in x for x in c["chans"]))


FACETS = [
    Facet("decision", strat_decision, check_decision, quick=1500, thorough=30000, shards=4,
          rule="at least one channel present"),
    Facet("span", strat_span, check_span, quick=1500, thorough=20000, shards=2, rule="all"),
    Facet("use", strat_use, check_use, quick=300, thorough=6000, shards=4,
          rule="some station-phases available and some not, or none"),
    Facet("rates", strat_rates, check_rates, quick=120, thorough=4000, shards=2,
          rule="some channel at a rate that needs upsampling"),
]
