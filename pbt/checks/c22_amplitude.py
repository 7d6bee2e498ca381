"""C22: amplitude measurements against a direct reference on the prepared waveforms."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from obspy import Stream, UTCDateTime
from pyproj import Geod

import lutgen
import wavekit
from harness import Facet
from qm import EPOCH, same_stream, t_add, trace
from quakemigrate.io import Event
from quakemigrate.io.data import WaveformData
from quakemigrate.signal.local_mag.amplitude import Amplitude
from strategies import fixed, one_in, rounded, sampled, seeds

ASSUMPTIONS = ["signal windows that run past the data read for the event are measured on the part that was read",
               "modelled arrival times are those of the grid node nearest to the hypocentre",
               "the Wood-Anderson waveform of a single trace is that of C24 (checked there)",
               "at most one location/band code per station and component"]

NAMES = ["STA", "B", "X12", "LONG1", "C5", "D6"]

sta_s = fixed(ok=one_in(4, sampled("short-start", "short-end", "gap", "none", "noresp", "flat", "lastsample", "two"), st.just("ok")),
              pick=sampled("both", "both", "p", "s", "nop", "nos", "none", "absent", "disordered"),
              dp=rounded(-1, 1, 3), ds=rounded(-1, 1, 3), num=st.booleans())


def strat(m=6):
    return fixed(grid=lutgen.grid_strat(4), m=sampled(1, 2, 3, 2, 3, 4, m), seed=seeds, tmax=rounded(0.5, 8.0, 2), ftt=rounded(0.0, 0.3, 2),
                 frac=st.lists(rounded(0, 1, 3), min_size=3, max_size=3), sr=sampled(20, 40, 50, 100), otf=rounded(0, 1, 3),
                 stas=st.lists(sta_s, min_size=m, max_size=m), comps=st.integers(1, 7), mw=rounded(0.1, 1.5, 2),
                 sw=sampled(0.0, 0.0, 1.0, 3.0), nw=sampled(2.0, 5.0, 10.0, 0.0), measure=sampled("RMS", "STD", "ENV"),
                 loc=sampled("spline", "gaussian", "covariance"), smooth=st.integers(1, 4),
                 prom=sampled(0.0, 0.0, 0.05, 0.2, 0.5, 0.8),
                 filt=sampled(None, None, "high", "band", "nyq"), corners=st.integers(1, 4), full=sampled(False, False, False, True),
                 scale=sampled(1.0, 1.0, -3.0, 1000.0), index=sampled("range", "reversed", "shifted"), extra=st.integers(0, 40))


COMPS = [("E", "HHE"), ("N", "HHN"), ("Z", "HHZ")]


def tt_of(lut, phase, node):
    """Traveltimes to the grid node nearest to the hypocentre, per station in station order."""
    return [float(lut.traveltimes[s][phase][tuple(node)]) for s in lut.station_data["Name"]]


class World:
    def __init__(self, c):
        self.c = c
        rng = self.rng = np.random.default_rng(c["seed"])
        g = dict(c["grid"], n=[max(2, n) for n in c["grid"]["n"]])
        self.names = NAMES[:c["m"]]
        lut = self.lut = lutgen.random_lut(g, c["m"], c["seed"], names=self.names)
        for s in self.names:        # S after P
            p = rng.uniform(0.0, c["tmax"], tuple(lut.node_count))
            lut.traveltimes[s] = {"P": p, "S": p * rng.uniform(1.3, 1.9) + rng.uniform(0, 0.5)}
        lut.fraction_tt = c["ftt"]
        if c["index"] == "reversed":
            lut.station_data.index = list(range(c["m"]))[::-1]
        elif c["index"] == "shifted":
            lut.station_data.index = [5 + 2 * k for k in range(c["m"])]
        # hypocentre between the nodes, but not half-way
        self.node = np.rint(np.array(c["frac"]) * (lut.node_count - 1)).astype(int)
        self.ijk = self.node + rng.uniform(-0.4, 0.4, 3)
        self.loc = lut.index2coord([self.ijk])[0]
        self.otime = EPOCH + 3600 + c["otf"]
        kw = dict(signal_window=c["sw"], noise_window=c["nw"], noise_measure=c["measure"], loc_method=c["loc"],
                  filter_corners=c["corners"], **({"prominence_multiplier": c["prom"]} if c["prom"] else {}))
        if c["filt"] == "high":
            kw.update(highpass_filter=True, highpass_freq=0.05 * c["sr"])
        elif c["filt"]:
            kw.update(bandpass_filter=True, bandpass_lowcut=0.04 * c["sr"],
                      bandpass_highcut=c["sr"] * (0.3 if c["filt"] == "band" else 0.5 if c["seed"] % 3 == 0 else 0.7))
        self.params = kw
        self.amp = Amplitude(dict(kw))
        self.pre, self.post = self.amp.pad(c["mw"], lut.max_traveltime, c["ftt"])
        self.t0, self.t1 = self.otime - self.pre, self.otime + self.post
        self.data = self.waveforms()
        self.event = self.make_event(self.data)

    def check_pad(self, ctx):
        """Room for the taper (5 per cent) beyond the earliest noise window and the latest signal window of modelled arrivals."""
        c = self.c
        taper = 0.05 * (self.pre + self.post)
        late = max(float(np.max(t["S"])) for t in self.lut.traveltimes.values())
        ctx.check(self.pre - taper >= c["nw"] + c["mw"] - 1e-9, f"pre-pad {self.pre}: taper of {taper} reaches the noise window")
        ctx.check(self.post - taper >= late * (1 + c["ftt"]) + c["mw"] + c["sw"] - 1e-9,
                  f"post-pad {self.post}: taper of {taper} reaches the signal window")

    def waveforms(self):
        c, sr, rng = self.c, self.c["sr"], self.rng
        stream, entries, self.kind = Stream(), [], {}
        n = int((self.t1 - self.t0) * sr) + 2
        first = math.floor((self.t0 - EPOCH) * sr)
        for k, name in enumerate(self.names):
            how = c["stas"][k]["ok"]
            for j, (comp, cha) in enumerate(COMPS):
                if not (c["comps"] >> j) & 1:
                    continue
                if (k + j) % 2:
                    cha = cha[:2] + {"E": "2", "N": "1", "Z": "Z"}[comp]
                if how == "none":
                    continue
                a, b = first - c["extra"], first + n + c["extra"]
                if how == "short-start":
                    a = first + 2 + int(rng.integers(0, n // 2))
                    if rng.integers(2):         # only the first sample of the window missing
                        k = (self.t0 - EPOCH) * sr
                        a = math.ceil(k) + (2 if abs(k - round(k)) < 1e-4 else 1)
                elif how == "short-end":
                    b = first + n - 4 - int(rng.integers(0, n // 2))
                    if rng.integers(2):         # only the last sample of the window missing
                        k = (self.t1 - EPOCH) * sr
                        b = math.floor(k) - (1 if abs(k - round(k)) < 1e-4 else 0)
                elif how == "lastsample":
                    a, b = math.ceil((self.t0 - EPOCH) * sr), math.floor((self.t1 - EPOCH) * sr) + 1
                x = wavekit.signal(rng, b - a, c["smooth"]) * c["scale"]
                if how == "flat":
                    x[:] = 3.0
                tr = trace(x, t_add(EPOCH, a, sr), sr, name, cha)
                if how == "gap":
                    cut = (b - a) // 2
                    stream += trace(x[:cut], t_add(EPOCH, a, sr), sr, name, cha)
                    stream += trace(x[cut + 3:], t_add(EPOCH, a + cut + 3, sr), sr, name, cha)
                else:
                    stream += tr
                self.kind[tr.id] = how
                if how != "noresp":
                    entries.append((tr.id, wavekit.response("1hz", 400.0), None, None))
        self.inv = wavekit.inventory(entries or [("ZZ.ZZ..HHZ", wavekit.response("1hz", 3.0), None, None)])
        d = self.fresh()
        d.raw_waveforms = stream
        return d

    def fresh(self):
        return WaveformData(self.t0, self.t1, response_inv=self.inv, water_level=60.0, remove_full_response=self.c["full"])

    def make_event(self, data):
        c = self.c
        ev = Event(c["mw"])
        ev.uid, ev.otime, ev.data = "20150301010000000", self.otime, data
        other = self.lut.index2coord([self.rng.uniform(0, 1, 3) * (self.lut.node_count - 1)])[0]
        for m, add in (("spline", lambda x: ev.add_spline_location(x)), ("gaussian", lambda x: ev.add_gaussian_location(x, [1., 1., 1.])),
                       ("covariance", lambda x: ev.add_covariance_location(x, [1., 1., 1.]))):
            add(self.loc if m == c["loc"] else other)
        self.tt = {p: tt_of(self.lut, p, self.node) for p in "PS"}
        rows, self.picks = [], {}
        for k, name in enumerate(self.names):
            s = c["stas"][k]
            mod = {p: self.otime + self.tt[p][k] for p in "PS"}
            unc = {p: c["mw"] + self.tt[p][k] * c["ftt"] for p in "PS"}
            gap = (mod["S"] - mod["P"]) / 2
            when = {"P": mod["P"] + s["dp"] * min(unc["P"], gap * 0.9), "S": mod["S"] + s["ds"] * min(unc["S"], gap * 0.9)}
            if s["pick"] == "disordered":
                when = {"P": mod["S"], "S": mod["P"]}
            have = {"both": "PS", "p": "P", "s": "S", "disordered": "PS", "nop": "S", "nos": "P"}.get(s["pick"], "")
            for p in "PS":
                if s["pick"] == "absent" or (s["pick"], p) in (("nop", "P"), ("nos", "S")):
                    continue
                t = when[p] if p in have else (-1 if s["num"] else "-1")
                rows.append([name, p, mod[p], t, 0.1, 3.0])
            onsets = [p for p in "PS" if (s["pick"], p) not in (("nop", "P"), ("nos", "S"))]
            use = {p: when[p] if p in have else mod[p] for p in "PS"}
            if s["pick"] in ("nop", "nos"):
                use = mod
            self.picks[name] = (use, bool(have), unc)
        ev.add_picks(pd.DataFrame(rows, columns=["Station", "Phase", "ModelledTime", "PickTime", "PickError", "SNR"]))
        return ev

    def windows(self, name):
        use, picked, unc = self.picks[name]
        if not use["P"] < use["S"]:
            return None, picked
        p0, p1 = use["P"] - unc["P"], use["P"] + unc["P"]
        s0, s1 = use["S"] - unc["S"], use["S"] + unc["S"] + self.c["sw"]
        if s0 < p1:
            mid = p1 + (s0 - p1) / 2
            p1 = s0 = mid
        else:
            p1 = min(p1 + self.c["sw"], s0)
        return {"P": (p0, p1), "S": (s0, s1), "N": (p0 - self.c["nw"], p0)}, picked


def cut(tr, a, b):
    """Samples within [a, b] to the nearest sample; None when an end is too close to call."""
    sr = tr.stats.sampling_rate
    k = [(t._ns - tr.stats.starttime._ns) * sr / 1e9 for t in (a, b)]
    if any(abs(v - math.floor(v) - 0.5) < 1e-4 for v in k):
        return None, None
    lo, hi = [math.floor(v + 0.5) for v in k]
    lo, hi = max(lo, 0), min(hi, tr.stats.npts - 1)
    return tr.data[lo:hi + 1], lo


def average(x, how):
    if how == "RMS":
        return 1000 * math.sqrt(np.mean(x ** 2))
    if how == "STD":
        return 1000 * math.sqrt(np.mean((x - x.mean()) ** 2))
    n = len(x)
    X = np.fft.fft(x)
    h = np.zeros(n)
    h[0] = 1
    h[1:(n + 1) // 2] = 2
    if n % 2 == 0:
        h[n // 2] = 1
    return 1000 * np.mean(np.abs(np.fft.ifft(X * h)))


def prominence(y, k):
    """Height of the peak at k above the higher of the two saddles that separate it from higher ground (or the ends)."""
    def low(side):
        m = y[k]
        for v in side:
            if v > y[k]:
                break
            m = min(m, v)
        return m
    return y[k] - max(low(y[:k][::-1]), low(y[k + 1:]))


def swing(x, mult=0.0):
    """(half amplitude, index of earlier extremum, later) of the largest swing between neighbouring (prominent) extrema."""
    d = np.sign(np.diff(x))
    ext = [k for k in range(1, len(x) - 1) if d[k - 1] * d[k] < 0]
    unsure = any(v == 0 for v in d)
    if mult:
        lim = mult * np.abs(x).max()
        prom = [prominence(x if d[k] < 0 else -x, k) for k in ext]
        unsure |= any(abs(p - lim) < 1e-9 * lim for p in prom)
        ext = [k for k, p in zip(ext, prom) if p >= lim]
    best = None
    for a, b in zip(ext, ext[1:]):
        v = abs(x[a] - x[b])
        if best is None or v > best[0]:
            best = (v, a, b)
    return best, unsure


def gain(w, f):
    c = w.c
    t = math.tan(math.pi * f / c["sr"])
    N = c["corners"]
    lo = math.tan(math.pi * w.params.get("highpass_freq", w.params.get("bandpass_lowcut", 0)) / c["sr"])
    if c["filt"] in ("high", "nyq"):
        return 1 / math.sqrt(1 + (lo / t) ** (2 * N))
    hi = math.tan(math.pi * w.params["bandpass_highcut"] / c["sr"])
    return 1 / math.sqrt(1 + ((t * t - lo * hi) / (t * (hi - lo))) ** (2 * N))


COLS = ["epi_dist", "z_dist", "P_amp", "P_freq", "P_time", "P_avg_amp", "P_filter_gain", "S_amp", "S_freq", "S_time",
        "S_avg_amp", "S_filter_gain", "Noise_amp", "is_picked"]


def check(c, ctx):
    w = World(c)
    w.check_pad(ctx)
    raw = w.data.raw_waveforms.copy()
    picks = w.event.picks["df"].copy()
    out = w.amp.get_amplitudes(w.event, w.lut)
    ctx.check(same_stream(w.data.raw_waveforms, raw), "measuring amplitudes altered the raw waveforms")
    ctx.check(w.event.picks["df"].equals(picks), "measuring amplitudes altered the picks")
    ctx.equal(list(out.columns), COLS, "columns")
    ctx.equal(len(out), 3 * len(w.names), "one row per station and component")
    km = 1000.0 / w.lut.unit_conversion_factor
    geod = Geod(ellps="WGS84")
    measured = 0
    by_row = iter(range(len(out)))
    for k, name in enumerate(w.names):
        stn = w.lut.station_data.iloc[k]
        epi = geod.inv(w.loc[0], w.loc[1], stn["Longitude"], stn["Latitude"])[2] / 1000
        z = (w.loc[2] - stn["Elevation"]) / km
        win, picked = w.windows(name)
        for comp, _ in COMPS:
            r = out.iloc[next(by_row)]
            ident = r.name
            ctx.close(r["epi_dist"], epi, f"epicentral distance of {ident}", rtol=1e-5, atol=1e-4)
            ctx.close(r["z_dist"], z, f"vertical distance of {ident}", rtol=1e-6, atol=1e-5)
            ids = [i for i in w.kind if i.split(".")[1] == name and i[-1] in {"E": "E2", "N": "N1", "Z": "Z"}[comp]]
            how = w.kind[ids[0]] if ids else "none"
            meas = [col for col in COLS[2:13] if not pd.isnull(r[col])]
            if how in ("none", "gap", "short-start", "short-end", "noresp") or win is None:
                ctx.check(not meas, f"{name} {comp} ({how}): no complete, usable data or picks out of order, but {meas} measured")
                if how in ("noresp", "ok") and ids:
                    ctx.equal(ident, ids[0], "trace id")
                continue
            ctx.equal(ident, ids[0], "trace id")
            ctx.check(bool(r["is_picked"]) == picked, f"{ident}: is_picked {r['is_picked']}, expected {picked}")
            tr = raw.select(id=ids[0])[0].copy().trim(w.t0, w.t1)
            tr = w.fresh().get_wa_waveform(tr, velocity=False)
            if c["filt"]:
                tr.detrend("linear")
                tr.taper(0.05, "cosine")
                if c["filt"] == "band":
                    tr.filter("bandpass", freqmin=w.params["bandpass_lowcut"], freqmax=w.params["bandpass_highcut"],
                              corners=c["corners"], zerophase=False)
                else:
                    tr.filter("highpass", freq=w.params.get("highpass_freq", w.params.get("bandpass_lowcut")),
                              corners=c["corners"], zerophase=False)
            big = np.abs(tr.data).max()
            if how == "flat":
                continue
            for p in "PS":
                x, lo = cut(tr, *win[p])
                if x is None or len(x) < 3:
                    continue
                x = wavekit.detrend(x)
                if np.abs(x).max() < 1e-9 * big:
                    continue
                best, plateau = swing(x, c["prom"])
                if plateau:
                    continue
                cols = {q: r[f"{p}_{q}"] for q in ("amp", "freq", "time", "avg_amp", "filter_gain")}
                if best is None:
                    ctx.check(all(pd.isnull(v) for v in cols.values()), f"{ident} {p}: measured {cols} without a peak and a trough")
                    continue
                v, a, b = best
                f = c["sr"] / (2 * (b - a))
                G = 1.0
                if c["filt"]:
                    if b - a == 1:
                        continue        # at the Nyquist frequency
                    G = gain(w, f)
                    ctx.close(cols["filter_gain"], G, f"{ident} {p}_filter_gain", rtol=1e-6, atol=1e-12)
                else:
                    ctx.check(pd.isnull(cols["filter_gain"]), f"{ident} {p}: filter gain without a filter")
                ctx.check(not pd.isnull(cols["amp"]), f"{ident} {p}: no measurement, expected {v * 500 / G}")
                ctx.close(cols["amp"], v * 500 / G, f"{ident} {p}_amp", rtol=1e-6, atol=1e-6 * big)
                ctx.close(cols["freq"], f, f"{ident} {p}_freq", rtol=1e-6)
                t = tr.stats.starttime + (lo + (a + b) / 2) / c["sr"]
                ctx.check(abs(UTCDateTime(cols["time"]) - t) < 1e-5, f"{ident} {p}_time {cols['time']}, expected {t}")
                ctx.close(cols["avg_amp"], average(x, c["measure"]) / G, f"{ident} {p}_avg_amp", rtol=1e-6, atol=1e-6 * big)
                measured += 1
                if c["prom"]:
                    ctx.label("prominence-filter")
            x, lo = cut(tr, *win["N"])
            if c["nw"] == 0:
                ctx.check(pd.isnull(r["Noise_amp"]), f"{ident}: noise amplitude {r['Noise_amp']} without a noise window")
            elif x is not None and len(x) > 2:
                ctx.close(r["Noise_amp"], average(wavekit.detrend(x), c["measure"]), f"{ident} Noise_amp", rtol=1e-6, atol=1e-6 * big)
    ctx.nontrivial(measured >= 2)
    ctx.label("measured" if measured else "nothing-measured")
    # scaling the ground motion scales the amplitudes; other stations do not matter
    w2 = World(c)
    for tr in w2.data.raw_waveforms:
        tr.data = tr.data * 4.0
    o2 = w2.amp.get_amplitudes(w2.event, w2.lut)
    k = c["seed"] % c["m"]
    w3 = World(c)
    w3.data.raw_waveforms = w3.data.raw_waveforms.select(station=w.names[k])
    o3 = w3.amp.get_amplitudes(w3.event, w3.lut)
    for col in ("P_amp", "S_amp", "P_avg_amp", "S_avg_amp", "Noise_amp"):
        ctx.close(o2[col].astype(float), 4 * out[col].astype(float), f"{col} of traces scaled by 4", rtol=1e-6, atol=1e-300)
        a, b = out[col].astype(float).iloc[3 * k:3 * k + 3], o3[col].astype(float).iloc[3 * k:3 * k + 3]
        ctx.close(b, a, f"{col} without the other stations", rtol=1e-12, atol=0)
    ctx.check(out["is_picked"].dtype == bool, "is_picked is not boolean")


FACETS = [
    Facet("measure", strat, check, quick=300, thorough=12000, shards=6,
          rule="at least two phase amplitudes are measured"),
]
