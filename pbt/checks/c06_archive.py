"""C06: Archive.read_waveform_data against the samples that were written to the archive."""
import pathlib

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from obspy import Stream, UTCDateTime

import quakemigrate.util as util
from harness import Facet
from qm import t_add, trace
from quakemigrate.io.data import Archive
from strategies import fixed, ints, one_in, sampled, seeds

ASSUMPTIONS = ["archives are split into day files, as the reader documents",
               "archived data are on the sample grid (exact facet) or have a constant sub-sample offset "
               "(offset facet)", "overlapping data agree (conflicts are decided by C08)"]

DAYS = ["2015-12-31", "2016-02-28", "2016-02-29", "2016-12-31", "2015-03-01", "2014-09-30", "2016-12-30"]
FORMATS = ["SeisComp3", "YEAR/JD/*_STATION_*", "YEAR/JD/STATION", "STATION.YEAR.JULIANDAY",
           "/STATION/STATION.YearMonthDay", "YEAR_JD/STATION*", "YEAR_JD/STATION_*",
           "custom:{year}/{month:02d}/{day:02d}/{station}.*", "custom:{dtime.year}-{dtime.month:02d}-{dtime.day:02d}/{station}_*",
           "custom:{year}.{jday:03d}/*/{station}.*.mseed"]
STATIONS = ["STA1", "STA10", "STA2", "TA1", "B"]
CHANNELS = ["HHZ", "HHN", "BHZ"]


def fname(fmt, sta, cha, day, part, single):
    """Path of one file under the archive, matching the named structure."""
    y, j, m, d = day.year, day.julday, day.month, day.day
    c = "ALL" if single else cha
    p = f"{part}" if part else ""
    if fmt == "SeisComp3":
        return f"{y}/XX/{sta}/{cha}.D/XX.{sta}.{'0' + p if p else ''}.{cha}.D.{y}.{j:03d}"
    if fmt == "YEAR/JD/*_STATION_*":
        return f"{y}/{j:03d}/XX{p}_{sta}_{c}.m"
    if fmt == "YEAR/JD/STATION":
        return f"{y}/{j:03d}/{sta}.{c}{p}.m"
    if fmt == "STATION.YEAR.JULIANDAY":
        return f"{'x' + p if p else ''}{sta}.{c}.{y}.{j:03d}"
    if fmt == "/STATION/STATION.YearMonthDay":
        return f"{sta}/{sta}.{y}{m:02d}{d:02d}"
    if fmt == "YEAR_JD/STATION*":
        return f"{y}_{j:03d}/{sta}_{c}{p}"
    if fmt == "YEAR_JD/STATION_*":
        return f"{y}_{j:03d}/{sta}_{c}{p}"
    if fmt == "custom:{year}/{month:02d}/{day:02d}/{station}.*":
        return f"{y}/{m:02d}/{d:02d}/{sta}.{c}{p}"
    if fmt == "custom:{dtime.year}-{dtime.month:02d}-{dtime.day:02d}/{station}_*":
        return f"{y}-{m:02d}-{d:02d}/{sta}_{c}{p}"
    return f"{y}.{j:03d}/XX{p}/{sta}.{c}.mseed"


def value(sta, cha, k):
    """The archived sample number k (from midnight of the first day) of a channel."""
    h = (STATIONS.index(sta) * 7 + CHANNELS.index(cha)) * 1000003
    return ((k * 2654435761 + h) % 1999993).astype(np.int64) - 999996


def strat(offset=False):
    # samples per second and windows in samples, relative to a midnight
    return st.tuples(sampled(1, 2, 5, 10, 20, 50), st.integers(1, 3)).flatmap(lambda t: fixed(
        sr=st.just(t[0]), ndays=st.just(t[1]), day=sampled(*DAYS), fmt=sampled(*FORMATS),
        midnight=st.integers(0, t[1]), rel=st.integers(-60, 60), length=st.integers(0, 120),
        pre=one_in(2, st.just(0), st.integers(0, 150)), post=one_in(2, st.just(0), st.integers(0, 150)),
        long=one_in(6, st.just(True), st.just(False)),
        data=st.lists(fixed(sta=sampled(0, 0, 0, 1, 1, 2, 3, 4), cha=st.integers(0, 2),
                            segs=st.lists(st.tuples(ints(-250, 200), ints(1, 300)).map(list),
                                          min_size=1, max_size=3),
                            cont=sampled(True, True, False)), min_size=1, max_size=6) if offset else one_in(
                                8, st.just([]), st.lists(fixed(
                                    sta=sampled(0, 0, 0, 1, 1, 2, 3, 4), cha=st.integers(0, 2),
                                    segs=st.lists(st.tuples(ints(-250, 200), ints(1, 300)).map(list),
                                                  min_size=1, max_size=3),
                                    cont=sampled(True, True, False)), min_size=1, max_size=6)),
        wanted=st.lists(sampled(0, 0, 0, 1, 1, 2, 3, 4), min_size=1, max_size=4, unique=True), read_all=st.booleans(),
        junk=st.booleans(), single=st.booleans(), parts=st.integers(0, 2), dtype=sampled("int32", "float64"),
        neg=sampled(False, False, True),
        frac=sampled(-0.3, -0.01, 0.0, 0.2, 0.42) if offset else sampled(0.0),
        wfrac=sampled(0, 0, 0, 0.3, -0.4, 0.1) if not offset else sampled(0),
        interpolate=st.booleans() if offset else st.just(False), seed=seeds))


def segments(c):
    """{(sta, cha): [[first, last+1], ...]} in samples from midnight of the first day."""
    out = {}
    mid = c["midnight"] * 86400 * c["sr"]
    hi = c["ndays"] * 86400 * c["sr"]
    for d in c["data"]:
        key = (STATIONS[d["sta"]], CHANNELS[d["cha"]])
        if d["cont"]:
            segs = [[max(0, mid - 400), min(hi, mid + 600)]]
            if c["long"] and c["sr"] <= 2:
                segs = [[0, hi]]
        else:
            segs = [[max(0, mid + a), min(hi, mid + a + n)] for a, n in d["segs"]]
        out.setdefault(key, []).extend(s for s in segs if s[1] - s[0] >= 1)
    return out


def write_archive(c, root, day0, segs):
    sr = c["sr"]
    perday = 86400 * sr
    files = {}
    single_ok = c["fmt"] != "SeisComp3"
    forced = c["fmt"] == "/STATION/STATION.YearMonthDay"
    for (sta, cha), ss in segs.items():
        for i, (a, b) in enumerate(ss):
            for d in range(c["ndays"]):
                lo, hi = max(a, d * perday), min(b, (d + 1) * perday)
                if hi <= lo:
                    continue
                k = np.arange(lo, hi)
                t0 = t_add(day0, lo, sr)
                t0 = UTCDateTime(ns=t0._ns + int(round(c["frac"] / sr * 1e9)))
                tr = trace(value(sta, cha, k).astype(c["dtype"]), t0, sr, sta, cha)
                single = (c["single"] and single_ok) or forced
                part = 0 if forced else (i % (c["parts"] + 1))
                name = fname(c["fmt"], sta, cha, day0 + d * 86400 + 1, part, single)
                files.setdefault(name, []).append(tr)
    for name, trs in files.items():
        p = root / name
        p.parent.mkdir(parents=True, exist_ok=True)
        Stream(trs).write(str(p), format="MSEED")
    if c["junk"]:
        for name in list(files)[:2]:
            if c["fmt"] in ("YEAR/JD/STATION", "YEAR_JD/STATION*", "YEAR_JD/STATION_*"):
                (root / (name + ".txt")).write_text("not a waveform file\n")
    return files


def archive(c, root):
    st_df = pd.DataFrame({"Name": [STATIONS[i] for i in c["wanted"]]})
    kw = dict(read_all_stations=c["read_all"], interpolate=c["interpolate"])
    if c["fmt"].startswith("custom:"):
        return Archive(str(root), st_df, format=c["fmt"][7:], **kw)
    return Archive(str(root), st_df, archive_format=c["fmt"], **kw)


def collect(ctx, stream, day0, sr, what, shift=0.0):
    """{(sta, cha): (sorted sample numbers, values)}; fails on duplicates and off-grid samples."""
    out = {}
    for tr in stream:
        ctx.check(tr.stats.sampling_rate == sr, f"{what}: sampling rate {tr.stats.sampling_rate}")
        ctx.check(not np.ma.isMaskedArray(tr.data), f"{what}: masked data")
        x = (tr.stats.starttime._ns - day0._ns) * sr / 1e9 - shift
        k0 = round(x)
        ctx.check(abs(x - k0) < 0.002 * 1 + 2e-6 * sr, f"{what}: {tr.id} starts {x - k0} samples off the grid")
        out.setdefault((tr.stats.station, tr.stats.channel), []).append(
            (np.arange(k0, k0 + tr.stats.npts), np.asarray(tr.data)))
    res = {}
    for key, parts in out.items():
        k = np.concatenate([p[0] for p in parts])
        v = np.concatenate([p[1] for p in parts])
        o = np.argsort(k, kind="stable")
        k, v = k[o], v[o]
        ctx.check(np.all(np.diff(k) > 0), f"{what}: {key} has duplicated samples")
        if len(k):
            res[key] = (k, v)
    return res


def compare(ctx, got, segs, lo, hi, stations, what, c):
    exp = {}
    if c["wfrac"]:
        # window off the sample grid: which edge samples are nearest is not decided here
        for key, (k, v) in list(got.items()):
            ctx.check(k[0] >= lo - 1 and k[-1] <= hi + 1, f"{what}: {key} data outside the window")
            m = (k > lo) & (k < hi)
            got[key] = (k[m], v[m])
            if not m.any():
                del got[key]
        lo, hi = lo + 1, hi - 1
    for (sta, cha), ss in segs.items():
        if stations is not None and sta not in stations:
            continue
        k = np.unique(np.concatenate([np.arange(max(a, lo), max(max(a, lo), min(b, hi + 1))) for a, b in ss]
                                     or [np.arange(0)]))
        if len(k):
            exp[(sta, cha)] = k
    ctx.equal(sorted(got), sorted(exp), f"{what}: channels")
    for key in exp:
        ctx.check(np.array_equal(got[key][0], exp[key]),
                  lambda: f"{what}: {key} has samples {got[key][0][0]}..{got[key][0][-1]} "
                  f"({len(got[key][0])}), archived {exp[key][0]}..{exp[key][-1]} ({len(exp[key])})")
        ctx.equal(got[key][1].astype(float), value(*key, exp[key]).astype(float), f"{what}: {key} values")
    return exp


def window(c):
    sr = c["sr"]
    lo = c["midnight"] * 86400 * sr + c["rel"]
    hi = lo + c["length"]
    if c["long"] and sr <= 2:
        hi = lo + 86400 * sr + c["length"]
    return lo, hi


def check_exact(c, ctx):
    sr = c["sr"]
    root = pathlib.Path(ctx.tmp())
    day0 = UTCDateTime(c["day"])
    segs = segments(c)
    files = write_archive(c, root, day0, segs)
    wanted = [STATIONS[i] for i in c["wanted"]]
    lo, hi = window(c)
    off = c["wfrac"] / sr
    start, end = t_add(day0, lo, sr) + off, t_add(day0, hi, sr) + off
    pre, post = c["pre"] / sr, c["post"] / sr
    a = archive(c, root)
    # a negative pad is no pad
    ask = [-3.0 if p == 0 and c["neg"] else p for p in (pre, post)]
    rd = lambda: a.read_waveform_data(start, end, *ask)  # noqa
    # days touched by the padded window (floating pads of exact samples)
    first, last = start - pre, end + post
    matching = []
    for (sta, cha), ss in segs.items():
        for x, y in ss:
            d0, d1 = x // (86400 * sr), (y - 1) // (86400 * sr)
            for d in range(d0, d1 + 1):
                day = day0 + d * 86400
                if UTCDateTime(first.date) <= day <= last:
                    matching.append((sta, cha))
    own = [m for m in matching if c["read_all"] or m[0] in wanted]
    foreign = [m for m in matching if m not in own]
    exp = {}
    for key, ss in segs.items():
        if key[0] in wanted and any(max(x, lo) <= min(y - 1, hi) for x, y in ss):
            exp[key] = 1
    if not own and not foreign:
        ctx.raises(util.ArchiveEmptyException, rd, "no files for these days")
        ctx.label("archive empty")
        return
    if c["wfrac"] and not any(key[0] in wanted and max(x, lo + 1) <= min(y - 1, hi - 1)
                              for key, ss in segs.items() for x, y in ss):
        return
    if not exp:
        ctx.raises((util.DataGapException, util.ArchiveEmptyException) if not own else util.DataGapException,
                   rd, "no data in the window")
        ctx.label("data gap")
        ctx.nontrivial()
        return
    data = rd()
    raw = collect(ctx, data.raw_waveforms, day0, sr, "raw_waveforms")
    wav = collect(ctx, data.waveforms, day0, sr, "waveforms")
    compare(ctx, wav, segs, lo, hi, wanted, "waveforms", c)
    compare(ctx, raw, segs, lo - c["pre"], hi + c["post"], None if c["read_all"] else wanted,
            "raw_waveforms", c)
    ctx.equal((data.starttime, data.endtime), (start, end), "window of the returned data")
    ctx.equal(list(data.stations), wanted, "stations of the returned data")
    ctx.nontrivial()
    if foreign:
        ctx.label("files of other stations match")
    if c["pre"] or c["post"]:
        ctx.label("padded")


def lanczos(v, frac, a=20):
    """The value at the middle of the samples v, when each sample is taken `frac` samples late."""
    x = (np.arange(len(v)) - len(v) // 2) + frac
    return float(np.sum(v * np.where(np.abs(x) < a, np.sinc(x) * np.sinc(x / a), 0)))


def check_offset(c, ctx):
    """Data with a constant sub-sample offset: same samples, moved onto the grid, raw data untouched."""
    sr = c["sr"]
    root = pathlib.Path(ctx.tmp())
    day0 = UTCDateTime(c["day"])
    segs = {k: [s for s in v if s[1] - s[0] > 45][:1] for k, v in segments(c).items()}
    segs = {k: v for k, v in segs.items() if v}
    write_archive(c, root, day0, segs)
    wanted = [STATIONS[i] for i in c["wanted"]]
    lo, hi = window(c)
    start, end = t_add(day0, lo, sr), t_add(day0, hi, sr)
    pre, post = c["pre"] / sr, c["post"] / sr
    # stay away from a midnight inside the first/last sample, where day files decide
    perday = 86400 * sr
    if any(abs(k - round(k / perday) * perday) <= 1 for k in (lo - c["pre"], hi + c["post"], lo, hi)):
        return
    try:
        data = archive(c, root).read_waveform_data(start, end, pre, post)
    except (util.DataGapException, util.ArchiveEmptyException):
        n = [1 for (s, _), ss in segs.items() if s in wanted and any(max(x, lo + 1) <= min(y - 2, hi - 1)
                                                                      for x, y in ss)]
        ctx.check(not n, "data in the window not returned")
        return
    wav = collect(ctx, data.waveforms, day0, sr, "waveforms")
    raw = collect(ctx, data.raw_waveforms, day0, sr, "raw_waveforms", shift=c["frac"])
    for (sta, cha), ss in segs.items():
        for what, got, a, b in (("waveforms", wav, lo, hi), ("raw", raw, lo - c["pre"], hi + c["post"])):
            if sta not in wanted and (what == "waveforms" or not c["read_all"]):
                continue
            x, y = ss[0]
            k = np.arange(max(x, a + 1), max(max(x, a + 1), min(y, b)))       # inside, one sample in
            if c["interpolate"] and what == "waveforms" and c["frac"]:
                k = k[1:-1] if len(k) > 2 else k[:0]
                if len(k):
                    ctx.check((sta, cha) in got and np.isin(k, got[(sta, cha)][0]).all(),
                              f"{what}: {sta}.{cha} samples lost")
                    # away from the ends of what was read: the Lanczos interpolation of the raw samples
                    inner = [i for i in k if max(x, a - c["pre"] + 1) + 25 <= i < min(y, b + c["post"]) - 25]
                    if inner:
                        gk, gv = got[(sta, cha)]
                        want = [lanczos(value(sta, cha, np.arange(i - 24, i + 25)), c["frac"]) for i in inner]
                        err = np.abs(gv[np.searchsorted(gk, inner)] - want).max()
                        ctx.check(err < 1e-3 * 1e6, f"{what}: {sta}.{cha} is not interpolated onto the sample times "
                                  f"(off by {err:.3g} of 10^6)")
                        ctx.label("interpolated")
                        ctx.nontrivial()
                continue
            if not len(k):
                continue
            ctx.check((sta, cha) in got, f"{what}: {sta}.{cha} missing")
            gk, gv = got[(sta, cha)]
            ctx.check(np.isin(k, gk).all(), f"{what}: {sta}.{cha} samples lost")
            ctx.equal(gv[np.searchsorted(gk, k)].astype(float), value(sta, cha, k).astype(float),
                      f"{what}: {sta}.{cha} values")
            ctx.check(gk[0] >= a - 1 and gk[-1] <= b + 1, f"{what}: data outside the window")
            ctx.nontrivial()


FACETS = [
    Facet("exact", strat, check_exact, quick=600, thorough=12000, shards=6,
          rule="files exist for the days of the window"),
    Facet("offset", lambda: strat(True), check_offset, quick=160, thorough=3000, shards=2,
          rule="data of a wanted channel in the window"),
]
