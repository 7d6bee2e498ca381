"""C20: GaussianPicker.pick_phases() on generated onsets, against a window model and least-squares references."""
import pathlib
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from obspy import Stream, UTCDateTime
from scipy.optimize import curve_fit

import lutgen
from harness import Facet
from qm import t_add, trace
from quakemigrate.io import Run
from quakemigrate.io.event import Event
from quakemigrate.signal.onsets import Onset
from quakemigrate.signal.onsets.base import OnsetData
from quakemigrate.signal.pickers import GaussianPicker
from strategies import fixed, one_in, rounded, sampled, seeds

ASSUMPTIONS = ["modelled arrival times are those of the grid node nearest to the hypocentre",
               "the noise is the onset outside all pick windows of the station, leaving out values of 1 or less "
               "(the padding of the onset functions)",
               "a single sample above the threshold is not a peak"]

NAMES = ["STA", "B", "X12", "LONG1"]
CH = {"P": "*Z", "S": "*[N,E]"}


class Given(Onset):
    """An onset (public base class) that returns given onset functions."""

    def __init__(self, sr, phases, half, onsets, start, n, stream):
        super().__init__(sampling_rate=sr)
        self.phases, self.half, self.onsets, self.start, self.n, self.stream = phases, half, onsets, start, n, stream
        self.channel_maps = {p: CH[p] for p in phases}
        self.spans = []

    pre_pad = property(lambda self: 0.0, lambda self, v: None)
    post_pad = property(lambda self: 0.0, lambda self, v: None)

    def gaussian_halfwidth(self, phase):
        return self.half

    def calculate_onsets(self, data, log=True, timespan=None):
        self.spans.append(timespan)
        on = {s: {p: np.array(x) for p, x in d.items()} for s, d in self.onsets.items()}
        avail = {f"{s}_{p}": 1 for s, d in on.items() for p in d}
        return None, OnsetData(on, self.phases, self.channel_maps, self.stream, avail, self.start,
                               t_add(self.start, self.n - 1, self.sampling_rate), self.sampling_rate)


def peak_strat():
    return fixed(at=one_in(3, rounded(-1.4, 1.4, 3), rounded(-0.6, 0.6, 3)), amp=one_in(3, sampled(1.2, 2.0, 2.5), sampled(4, 8, 20, 60)),
                 width=one_in(4, sampled(0.3, 25.0), rounded(0.8, 8, 2)), shape=sampled("pure", "pure", "added", "box", "two", "none"))


def strat():
    return fixed(sr=sampled(10, 20, 50, 100, 250, 40), grid=lutgen.grid_strat(4), m=st.integers(1, 4),
                 phases=sampled(["P", "S"], ["P", "S"], ["S", "P"], ["P"], ["S"]), tmax=one_in(6, sampled(0.0, 0.05), rounded(0.2, 6, 2)),
                 order=sampled(True, True, False), mws=st.integers(2, 80), fraction=rounded(0, 0.4, 2), override=st.booleans(),
                 ot=rounded(0, 1, 6), pre=one_in(5, sampled(0, 1), st.integers(5, 120)), post=one_in(5, sampled(0, 1), st.integers(5, 120)),
                 peaks=st.lists(peak_strat(), min_size=8, max_size=8), noise=one_in(4, sampled("low", "const"), sampled("normal", "heavy")),
                 missing=st.lists(st.tuples(st.integers(0, 3), st.integers(0, 1)).map(list), max_size=2),
                 method=sampled("MAD", "MAD", "percentile"), mult=sampled(8.0, 3.0, 0.0, 20.0), pc=sampled(1.0, 0.99, 0.5),
                 half=rounded(0.5, 10, 1), pad=one_in(3, st.tuples(rounded(0, 1, 1), rounded(0, 1, 1)).map(list), st.just([0, 0])), seed=seeds, seedids=st.booleans(), at=st.tuples(*[rounded(0, 1, 3)] * 3).map(list),
                 frac=one_in(3, rounded(-0.5, 0.5, 3), st.just(0.0)))


class World:
    def __init__(self, c):
        self.c = c
        sr = c["sr"]
        self.names = NAMES[:c["m"]]
        self.lut = lut = lutgen.random_lut(c["grid"], c["m"], c["seed"], phases=c["phases"], tmax=c["tmax"], names=self.names)
        lut.fraction_tt = 0.1 if c["override"] else c["fraction"]
        if c["order"] and set(c["phases"]) == {"P", "S"}:          # S after P, as in a physical model
            for s in self.names:
                a, b = lut.traveltimes[s]["P"].copy(), lut.traveltimes[s]["S"].copy()
                lut.traveltimes[s]["P"], lut.traveltimes[s]["S"] = np.minimum(a, b), np.maximum(a, b)
        self.mw = c["mws"] / sr
        rng = np.random.RandomState(c["seed"])
        ijk = np.array(c["at"]) * (np.array(lut.node_count) - 1)
        self.hypo = np.asarray(lut.index2coord([list(ijk)]), float)[0]
        self.node = tuple(np.clip(np.rint(ijk).astype(int), 0, np.array(lut.node_count) - 1))
        self.clear = np.all(np.abs(ijk - np.floor(ijk) - 0.5) > 1e-3)
        tmax = max(lut.traveltimes[s][p].max() for s in self.names for p in c["phases"])
        self.start = t_add(UTCDateTime(2016, 2, 29, 23, 59, 50), c["frac"], sr)
        self.n = c["pre"] + 4 * c["mws"] + 1 + int(np.ceil(tmax * sr)) + 1 + c["post"]
        # origin time on the grid of the scan, within one marginal window of the middle of it
        self.osmp = c["pre"] + c["mws"] + int(round(c["ot"] * 2 * c["mws"]))
        self.otime = t_add(self.start, self.osmp, sr)
        self.tt = {(s, p): float(lut.traveltimes[s][p][self.node]) for s in self.names for p in c["phases"]}
        self.frac = c["fraction"]
        self.onsets, self.truth, traces = {}, {}, []
        k = 0
        for i, s in enumerate(self.names):
            for j, p in enumerate(c["phases"]):
                pk = c["peaks"][k % 8]
                k += 1
                if [i, j] in c["missing"]:
                    continue
                x, tr = self.make(rng, s, p, pk)
                self.onsets.setdefault(s, {})[p] = x
                self.truth[s, p] = tr
                for ch in (("HHZ",) if p == "P" else ("HHN", "HHE")):
                    traces.append(trace(np.zeros(5), self.start, sr, station=s, channel=ch))
        self.stream = Stream(traces)

    def make(self, rng, s, p, pk):
        n, sr, c = self.n, self.c["sr"], self.c
        t = np.arange(n, dtype=float)
        base = {"normal": lambda: 1 + np.abs(rng.normal(0, 0.15, n)), "heavy": lambda: 1 + 0.1 * rng.exponential(1, n) ** 1.5,
                "low": lambda: rng.uniform(0.4, 1.0, n), "const": lambda: np.full(n, 1.3)}[c["noise"]]()
        arr = self.osmp + self.tt[s, p] * sr
        half = self.tt[s, p] * sr * self.frac + c["mws"]
        mid = arr + pk["at"] * half
        w, a = pk["width"], pk["amp"]
        g = a * np.exp(-0.5 * ((t - mid) / w) ** 2)
        truth = None
        if pk["shape"] == "pure":
            near = np.abs(t - mid) <= 4 * w + 2
            x = np.where(near, g, base)
            truth = (mid, w, a)
        elif pk["shape"] == "added":
            x = base + g
        elif pk["shape"] == "box":
            x = np.where(np.abs(t - mid) <= w, a, base)
        elif pk["shape"] == "two":
            x = base + g + 0.9 * a * np.exp(-0.5 * ((t - mid - 5 * w) / w) ** 2)
        else:
            x = base
        # padding of the onset function: exactly 1
        x[:int(c["pad"][0] * c["pre"])] = 1
        x[n - int(c["pad"][1] * c["post"]):] = 1
        return np.clip(x, 0.01, None), truth

    def event(self):
        ev = Event(self.mw, pd.Series(dict(EventID="20160229235959123", CoaTime=self.otime, TRIG_COA=1.0, COA=1.0, COA_NORM=1.0)))
        ev.otime = self.otime
        ev.add_spline_location(self.hypo)
        return ev

    def pick(self, root, stations=None, name="r"):
        c = self.c
        onset = Given(c["sr"], c["phases"], c["half"], {s: d for s, d in self.onsets.items() if stations is None or s in stations},
                      self.start, self.n, self.stream)
        kw = dict(threshold_method=c["method"], plot_picks=False, write_seed_ids=c["seedids"])
        kw.update(dict(mad_pick_threshold=c["mult"]) if c["method"] == "MAD" else dict(percentile_pick_threshold=c["pc"]))
        if c["override"]:
            kw["fraction_tt"] = c["fraction"]
        picker = GaussianPicker(onset=onset, **kw)
        run = Run(root, name, stage="locate")
        ev, df = picker.pick_phases(self.event(), self.lut, run)
        assert ev is not None
        return ev, df, pathlib.Path(root) / name / "locate" / "picks", onset


def model_windows(w, s):
    """{phase: (low, arrival, high)} with tolerances of a sample."""
    sr = w.c["sr"]
    arr = {p: w.osmp + w.tt[s, p] * sr for p in w.onsets[s]}
    half = {p: w.tt[s, p] * sr * w.frac + w.c["mws"] for p in arr}
    order = sorted(arr, key=lambda p: np.rint(arr[p]))
    win = {p: [max(arr[p] - half[p], 0), arr[p], min(arr[p] + half[p], w.n)] for p in order}
    for p, q in zip(order, order[1:]):
        mid = (arr[p] + arr[q]) / 2
        win[p][2], win[q][0] = min(win[p][2], mid), max(win[q][0], mid)
    return win


def ref_fit(x, y, p0):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return curve_fit(lambda t, a, b, c: a * np.exp(-((t - b) ** 2) / (2 * c ** 2)), x, y, p0)[0]
        except (ValueError, RuntimeError, TypeError):
            return None


def check(c, ctx):
    w = World(c)
    if not w.clear or not w.onsets:
        return
    sr = c["sr"]
    root = ctx.tmp()
    ev, df, pdir, onset = w.pick(root)
    ctx.equal(len(df), sum(len(d) for d in w.onsets.values()), "number of rows")
    ctx.equal(sorted(zip(df["Station"], df["Phase"])), sorted((s, p) for s, d in w.onsets.items() for p in d), "station-phases")
    ctx.close(onset.spans[0], 4 * w.mw, "timespan of the onset calculation", rtol=1e-12)
    made = 0
    for _, r in df.iterrows():
        s, p = r["Station"], r["Phase"]
        on = w.onsets[s][p]
        model = t_add(w.otime, w.tt[s, p] * sr, sr)
        ctx.check(abs(r["ModelledTime"]._ns - model._ns) < 5000, lambda: f"{s} {p}: modelled time {r['ModelledTime']}, expected {model}")
        win = ev.picks["pick_windows"][s][p]
        want = model_windows(w, s)[p]
        ctx.check(all(abs(a - b) <= 1.01 for a, b in zip(win, want)), lambda: f"{s} {p}: pick window {win}, expected {want} (samples)")
        if want[2] == w.n and w.osmp + w.tt[s, p] * sr * (1 + w.frac) + c["mws"] > w.n + 1.01:
            ctx.equal(win[2], w.n, f"{s} {p}: end of a pick window that runs over the end of the onset")
        for q, o in ev.picks["pick_windows"][s].items():
            if q != p:
                ctx.check(win[2] <= o[0] or o[2] <= win[0], lambda: f"{s}: pick windows {win} ({p}) and {o} ({q}) overlap")
        # threshold from the noise
        noise = on.copy()
        for o in ev.picks["pick_windows"][s].values():
            noise[max(o[0], 0):o[2]] = np.nan
        noise = noise[noise > 1]
        got = ev.picks["gaussfits"][s][p]["PickThreshold"]
        if len(noise) == 0:
            thr = np.nan
            ctx.label("no noise")
        elif c["method"] == "MAD":
            med = np.median(noise)
            thr = med + c["mult"] * 1.4826 * np.median(np.abs(noise - med))
        else:
            thr = np.quantile(noise, c["pc"])
        ctx.close(got, thr, f"{s} {p}: pick threshold", rtol=1e-9)
        # the peak in the window
        seg = on[win[0]:win[2]]
        exc = seg > thr
        k = int(np.argmax(seg)) if len(seg) else 0
        a = b = k
        absent = not (len(seg) and exc[k])
        if not absent:
            while a > 0 and exc[a - 1]:
                a -= 1
            while b + 1 < len(seg) and exc[b + 1]:
                b += 1
            absent = a == b
        picked = r["PickTime"] != -1
        if absent:
            ctx.check(not picked, lambda: f"{s} {p}: picked at {r['PickTime']} although no peak of the window exceeds the threshold {thr}")
        if not picked:
            ctx.equal([r["PickTime"], r["PickError"], r["SNR"], r["Residual"]], [-1] * 4, f"{s} {p}: row of an absent pick")
            ctx.label("no peak" if absent else "no pick")
        i0, i1 = max(win[0] + a - 1, 0), min(win[0] + b + 1, w.n - 1)
        inside = i1 - i0 >= 2
        fit = None
        if not absent and inside:
            x, y = np.arange(i0, i1 + 1) / sr, on[i0:i1 + 1]
            p0 = [y.max(), (i0 + int(np.argmax(y))) / sr, c["half"] / sr]
            fit = ref_fit(x, y, p0)
        if picked:
            made += 1
            t = (r["PickTime"]._ns - w.start._ns) / 1e9 * sr
            ctx.check(win[0] - 1e-3 * sr < t < win[2] + 1e-3 * sr, lambda: f"{s} {p}: pick at sample {t} outside its window {win}")
            ctx.close(r["Residual"], (r["PickTime"]._ns - model._ns) / 1e9, f"{s} {p}: residual", rtol=0, atol=5e-6)
            ctx.check(r["PickError"] >= 0, lambda: f"{s} {p}: pick error {r['PickError']}")
            if inside:
                res = lambda q: float(np.sum((q[0] * np.exp(-((x - q[1]) ** 2) / (2 * q[2] ** 2)) - y) ** 2))    # noqa: E731
                mine = [r["SNR"], t / sr, r["PickError"]]
                if fit is not None:
                    slack = 1e-4 * float(np.sum((y - y.mean()) ** 2)) + 1e-9
                    ctx.check(res(mine) <= res(fit) + slack, lambda: f"{s} {p}: pick {mine} (SNR, time, error) fits the onset peak with "
                              f"squared residual {res(mine)}; {list(fit)} with {res(fit)}")
                    ctx.label("fit compared")
        elif fit is not None and np.isfinite(fit).all():
            m = fit[1] * sr
            ctx.check(not win[0] + 1e-3 < m < win[2] - 1e-3, lambda: f"{s} {p}: no pick, but the peak of the window fits a Gaussian at sample {m} "
                      f"within the window {win}")
        tr = w.truth[s, p]
        if tr and not absent and inside:
            mid, wd, amp = tr
            # only the peak itself above the threshold and inside the window
            if win[0] + 2 < mid - 4 * wd and mid + 4 * wd < win[2] - 2 and abs(on[win[0] + k] - on[int(np.rint(mid))]) < 1e-12 \
                    and np.abs(np.array([i0, i1]) - mid).max() <= 4 * wd + 2 and wd >= 0.8 and 0.3 <= c["half"] / wd <= 3 and b - a >= 2:
                ctx.check(picked, lambda: f"{s} {p}: Gaussian peak at sample {mid} (sigma {wd}, height {amp}, threshold {thr}) not picked")
                ctx.close(t, mid, f"{s} {p}: pick time (samples) of a Gaussian peak", rtol=0, atol=1e-3 * wd + 2e-6 * sr)
                ctx.close(r["PickError"], wd / sr, f"{s} {p}: pick error of a Gaussian peak", rtol=1e-3)
                ctx.close(r["SNR"], amp, f"{s} {p}: SNR of a Gaussian peak", rtol=1e-3)
                ctx.label("Gaussian peak recovered")
        if c["seedids"]:
            ids = [f"XX.{s}..{q}" for q in (("HHZ",) if p == "P" else ("HHE", "HHN"))]
            ctx.equal(sorted(r["SEED_ids"]), [i for i in ids if i in {x.id for x in w.stream}], f"{s} {p}: SEED ids")
    ctx.label(*(["picks made"] if made else []))
    ctx.nontrivial(made > 0)
    # the file holds the same picks
    files = list(pdir.glob("*"))
    ctx.equal([f.name for f in files], ["20160229235959123.picks"], "pick files")
    back = pd.read_csv(files[0])
    ctx.equal(list(zip(back["Station"].astype(str), back["Phase"])), list(zip(df["Station"], df["Phase"])), "rows of the pick file")
    # isolation: one station on its own
    if len(w.onsets) > 1:
        s = sorted(w.onsets)[c["seed"] % len(w.onsets)]
        _, one, _, _ = w.pick(root, [s], "one")
        ref = df[df["Station"] == s].reset_index(drop=True)
        ctx.equal(one.astype(str).values.tolist(), ref.astype(str).values.tolist(), f"picks of {s} without the other stations")
        ctx.label("isolated")


FACETS = [Facet("picks", strat, check, quick=700, thorough=15000, shards=6, rule="at least one pick made")]
