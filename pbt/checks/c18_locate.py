"""C18: QuakeScan.locate() end to end on generated archives and trigger lists."""
import os
import pathlib

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from obspy import UTCDateTime

import e2e
import locref
import lutgen
import quakemigrate.util as util
from harness import Facet
from qm import t_add
from quakemigrate import QuakeScan
from quakemigrate.lut import compute_traveltimes
from quakemigrate.signal.onsets import STALTAOnset
from quakemigrate.signal.pickers import GaussianPicker
from checks.c19_location import verify
from strategies import fixed, ints, one_in, rounded, sampled, seeds

ASSUMPTIONS = ["sampling intervals and marginal windows are exact to the nanosecond, so that an event whose peak is "
               "exactly one marginal window from its trigger is rejected",
               "where the trigger time or the marginal window is not a whole number of samples, the data window starts at the "
               "sample nearest to its nominal start",
               "where several samples tie for the peak coalescence within rounding, any of them may be the origin time"]

NAMES = ["STA", "B", "X12", "LONG1", "S5", "S6"]
BASE = UTCDateTime(2016, 2, 29, 23, 58, 0)


class Recorder(GaussianPicker):
    """A picker (public base class) that notes the located event it is given, then picks."""

    def __init__(self, onset, picks=True, **kw):
        super().__init__(onset=onset, plot_picks=False, **kw)
        self.events = {}
        self.order = []
        self.picks = picks

    def pick_phases(self, event, lut, run):
        self.order.append(str(event.uid))
        self.events[str(event.uid)] = Located(event)
        if self.picks:
            return super().pick_phases(event, lut, run)
        return event, None


class Located:
    def __init__(self, ev):
        self.otime = ev.otime
        self.map4d = np.array(ev.map4d)
        self.coa = ev.coa_data.copy()
        self.locations = {k: dict(v) for k, v in ev.locations.items()}

    def get_hypocentre(self, method):
        return np.array([self.locations[method][k] for k in "XYZ"], float)

    def get_loc_uncertainty(self, method):
        return np.array([self.locations[method]["Err" + k] for k in "XYZ"], float)


def uid(t):
    return t.strftime("%Y%m%d%H%M%S") + f"{t._ns // 10**6 % 1000:03d}"


def event_strat():
    return fixed(gap=one_in(5, rounded(-1.5, 1.0, 2), rounded(0.2, 3, 2)), off=one_in(3, rounded(-2.2, 2.2, 3), rounded(-0.95, 0.95, 3)),
                 edge=one_in(6, sampled(-1, 1), st.just(0)), node=ints(0, 10**6),
                 hole=one_in(5, fixed(sta=one_in(3, st.just(-1), st.integers(-1, 5)), cha=sampled(0, 1, 2, 2), a=rounded(-0.2, 1.1, 2), len=rounded(0, 0.5, 2)),
                             st.none()),
                 frac=one_in(5, sampled(0.25, -0.3, 0.4), st.just(0.0)), amp=sampled(3, 10, 30, 100))


def strat(grid=6, nev=4):
    return fixed(sr=sampled(10, 20, 25, 50, 100, 8, 40), mw2=st.integers(2, 60), half=sampled(0, 0, 0, 1), mx=sampled(0, 0, 0.3, 0.62),
                 grid=lutgen.grid_strat(grid), m=st.integers(1, 4), phases=sampled(["P", "S"], ["S", "P"], ["P"], ["S"]),
                 ttmax=one_in(5, st.just(0.0), rounded(0.1, 3, 2)), pre=st.integers(0, 30), extra=st.integers(0, 10),
                 threads=st.integers(1, 4), events=st.lists(event_strat(), min_size=1, max_size=nev), seed=seeds,
                 mode=one_in(3, st.just("times"), st.just("file")), sub=sampled("", "", "sub"), picks=sampled(True, True, False),
                 outside=one_in(8, st.just(True), st.just(False)), save=st.booleans(), width=sampled(0, 0, 1, 3))


class World:
    """A record of noise with pulses at the arrivals of each event."""

    def __init__(self, c, ctx, names=NAMES):
        self.c, self.ctx = c, ctx
        self.sr = sr = c["sr"]
        self.names = names[:c["m"]]
        self.mw = c["mw2"] / (2 * sr) if c["half"] else (c["mw2"] + c["mw2"] % 2) / (2 * sr)
        self.mws = round(2 * self.mw * sr)          # samples in two marginal windows
        self.mx = c.get("mx", 0.0)                  # and a fraction of one
        self.mw += self.mx / (2 * sr)
        self.nw = 2 * self.mws + int(round(2 * self.mx)) + 1
        self.root = ctx.tmp()
        self.dir = os.path.join(self.root, "archive")
        os.makedirs(self.dir)

    def place(self, events, lead, tail):
        """Trigger sample of each event (non-decreasing gaps are not required)."""
        at, k = [], lead + self.mws
        for e in events:
            at.append(k)
            k = max(k + int(np.ceil(e["gap"] * self.nw)), lead + self.mws)
        self.at = at
        self.total = max(at) + self.mws + tail + 1
        self.t0 = BASE

    def first(self, i):
        """First sample of an event's data window: the one nearest to two marginal windows before the trigger time."""
        return self.at[i] - self.mws + int(round(self.c["events"][i]["frac"] - self.mx))

    def trigger(self, i):
        """Trigger time in samples of the data window."""
        return self.at[i] + self.c["events"][i]["frac"] - self.first(i)

    def trigger_time(self, i):
        return t_add(self.t0, self.at[i] + self.c["events"][i]["frac"], self.sr)

    def trigger_frame(self, which):
        rows = []
        for i in which:
            t = self.trigger_time(i)
            rows.append([uid(t), str(t), 3.5 + i, 10.0, 20.0, 1.0, 2.5 + i, 1.25 + i])
        return pd.DataFrame(rows, columns=["EventID", "CoaTime", "TRIG_COA", "COA_X", "COA_Y", "COA_Z", "COA", "COA_NORM"])

    def run(self, lut, onset, name, which, mode, picks=True, attrs=None, **kw):
        picker = Recorder(onset, picks)
        sub = self.c["sub"]
        scan = QuakeScan(e2e.archive(self.dir, self.names), lut, onset, self.root, name, run_subname=sub, picker=picker,
                         marginal_window=self.mw, threads=self.c["threads"], plot_event_summary=False, **kw)
        for k, v in (attrs or {}).items():
            setattr(scan, k, v)
        df = self.trigger_frame(which)
        if mode == "file":
            f = os.path.join(self.root, f"{name}.csv")
            df.to_csv(f, index=False)
            scan.locate(trigger_file=f)
        else:
            d = pathlib.Path(self.root) / name / "trigger" / sub / "events"
            d.mkdir(parents=True)
            days = [UTCDateTime(t).date for t in df["CoaTime"]]
            for day in set(days):
                u = UTCDateTime(day)
                df[[x == day for x in days]].to_csv(d / f"{name}{"_" if sub else ""}{sub}_{u.year}_{u.julday:03d}_TriggeredEvents.csv", index=False)
            times = [UTCDateTime(t) for t in df["CoaTime"]]
            scan.locate(str(min(times) - 0.5), str(max(times) + 0.5))
        out = pathlib.Path(self.root) / name / "locate" / sub
        self.events_dir, self.picks_dir = out / "events", out / "picks"
        files = sorted(p.name for p in self.events_dir.glob("*")) if self.events_dir.is_dir() else []
        return picker, out, files


def write_points(w, c, lut, pulses):
    """Archive for PointOnset: |noise| with a pulse on each arrival; returns {(station, channel): array or NaN}."""
    rng = np.random.RandomState(c["seed"])
    sr = w.sr
    model = {}
    for s in w.names:
        for p, ch in e2e.PointOnset.CH.items():
            model[s, ch] = np.round(np.abs(rng.normal(0, 120, w.total)))
    for i, e in enumerate(c["events"]):
        node = np.unravel_index(e["node"] % int(np.prod(lut.node_count)), lut.node_count)
        ot = pulses[i]
        for s in w.names:
            for p in c["phases"]:
                k = ot + int(np.rint(lut.traveltimes[s][p][node] * sr))
                for q in range(k - 2 * c["width"], k + 2 * c["width"] + 1):
                    if 0 <= q < w.total:
                        v = 400 * e["amp"] * (np.exp(-0.5 * ((q - k) / c["width"]) ** 2) if c["width"] else 1.0)
                        x = model[s, e2e.PointOnset.CH[p]]
                        x[q] = max(x[q], np.round(v))
    keep = {k: np.ones(w.total, bool) for k in model}
    for i, e in enumerate(c["events"]):
        h = e["hole"]
        if not h:
            continue
        a = w.at[i] - w.mws - w.pre + int(h["a"] * (w.nw + w.pre + w.post))
        b = a + int(h["len"] * (w.nw + w.pre + w.post)) + 1
        for j, s in enumerate(w.names):
            for q, ch in enumerate(("HHZ", "HHN")):
                if h["sta"] in (-1, j) and h["cha"] in (2, q):
                    keep[s, ch][max(a, 0):max(b, 0)] = False
    pieces = []
    for (s, ch), x in model.items():
        k = keep[s, ch]
        edges = np.flatnonzero(np.diff(np.concatenate([[0], k.astype(int), [0]])))
        for a, b in zip(edges[::2], edges[1::2]):
            pieces.append((s, ch, t_add(w.t0, int(a), sr), x[a:b].astype(np.int32)))
        model[s, ch] = np.where(k, x, np.nan)
    if pieces:
        e2e.write_archive(w.dir, pieces, sr)
    return model


def expected(m4, tau, half):
    """Decision and marginal map from the 4-D map of a window: (ambiguous, reported, origin sample, marginal map)."""
    n = m4.shape[-1]
    top = m4.reshape(-1, n).max(0)
    k = int(top.argmax())
    ambiguous = np.sum(top >= top[k] * (1 - 1e-9)) > 1
    reported = abs(k - tau) < half                  # samples from the trigger time
    h = int(np.floor(half + 1e-9))
    a, b = max(k - h, 0), min(k + h, n - 1)
    return ambiguous, reported, k, m4[..., a:b + 1], top


def compare(w, ctx, lut, picker, out, files, which, maps, save):
    """Reported events of a run against the reference maps (None where there are no data)."""
    c, sr = w.c, w.sr
    want, some = [], 0
    for i in which:
        u = uid(w.trigger_time(i))
        got = picker.events.get(u)
        if maps[i] is None:
            ctx.check(got is None and u + ".event" not in files, lambda: f"event {u} reported without data")
            ctx.label("no data")
            continue
        amb, rep, k, trimmed, top = expected(maps[i], w.trigger(i), (w.mws + w.mx) / 2)
        if not amb:
            ctx.check((got is not None) == rep, lambda: f"event {u}: peak coalescence {(k - w.trigger(i)) / sr} s from the trigger time, "
                      f"marginal window {w.mw} s, but {'' if got is not None else 'not '}reported")
        if got is None:
            ctx.label("rejected")
            continue
        want.append(u)
        some += 1
        if amb:
            ctx.label("ambiguous peak")
            continue
        ctx.label("reported")
        ot = t_add(w.t0, w.first(i) + k, sr)
        ctx.check(abs(got.otime._ns - ot._ns) <= 2000, lambda: f"event {u}: origin time {got.otime}, expected {ot}")
        ctx.close(got.map4d, trimmed, f"event {u}: coalescence in the marginal window", rtol=1e-9, atol=1e-12)
        ev = pd.read_csv(w.events_dir / f"{u}.event")
        ctx.equal(len(ev), 1, "rows of the event file")
        ctx.equal(str(ev["EventID"][0]), u, "EventID")
        ctx.check(abs(UTCDateTime(ev["DT"][0])._ns - ot._ns) <= 2000, lambda: f"event {u}: DT {ev['DT'][0]}, expected {ot}")
        ctx.close(ev["COA"][0], top[k], f"event {u}: COA", rtol=6e-4)
        ctx.close(ev["COA_NORM"][0], top[k] * np.prod(maps[i].shape[:3]) / maps[i][..., k].sum(), f"event {u}: COA_NORM", rtol=6e-4)
        ctx.close([ev[x][0] for x in ("TRIG_COA", "DEC_COA", "DEC_COA_NORM")], [3.5 + i, 2.5 + i, 1.25 + i],
                  f"event {u}: trigger values", rtol=1e-3)
        m = trimmed.sum(-1)
        verify(ctx, got, lut, m / m.max())
        if save:
            if save == "full":
                f = np.load(out / "coalescence_maps" / f"{u}.npy")
                ctx.close(f, maps[i], f"event {u}: saved coalescence map", rtol=1e-9, atol=1e-12)
            f = np.load(out / "marginalised_coalescence_maps" / f"{u}.npy")
            ctx.close(f, m / m.max(), f"event {u}: saved marginalised map", rtol=1e-9, atol=1e-12)
    ctx.equal(files, sorted(f"{u}.event" for u in want), "event files of the run")
    ctx.equal(sorted(picker.order), sorted(want), "located events")
    if picker.picks:
        pk = sorted(p.name for p in w.picks_dir.glob("*")) if w.picks_dir.is_dir() else []
        ctx.equal(pk, sorted(f"{u}.picks" for u in want), "pick files of the run")
    return want


def unique_ids(w, c, ctx):
    ids = [uid(w.trigger_time(i)) for i in range(len(c["events"]))]
    if len(set(ids)) < len(ids):                    # coincident triggers: keep the first of each
        first = {}
        for i, u in enumerate(ids):
            first.setdefault(u, i)
        return sorted(first.values())
    return list(range(len(ids)))


# ---------------------------------------------------------------- reference: any data, any lookup table
def check_reference(c, ctx):
    w = World(c, ctx)
    sr = w.sr
    lut = lutgen.random_lut(c["grid"], c["m"], c["seed"], phases=c["phases"], tmax=c["ttmax"], names=w.names)
    if np.prod(lut.node_count) == 1:
        return
    if c["ttmax"] == 0:
        for s in w.names:
            for p in c["phases"]:
                lut.traveltimes[s][p][:] = 0.0
    mk = lambda: e2e.PointOnset(sr, c["phases"], c["pre"], c["extra"], scale=400.0)      # noqa: E731
    onset = mk()
    onset.post_pad = lut.max_traveltime
    w.pre, w.post = onset.pad_samples()
    w.place(c["events"], w.pre + 5, w.post + 5)
    if c["outside"]:
        w.total = max(w.at[-1] - w.mws - w.pre - 5, 10)          # the last window lies after the end of the data
    offs = []
    for i, e in enumerate(c["events"]):
        off = e["edge"] * w.mws / 2 if e["edge"] else np.rint(e["off"] * w.mws / 2)
        offs.append(w.at[i] + int(off))
    model = write_points(w, c, lut, offs)
    which = unique_ids(w, c, ctx)
    picker, out, files = w.run(lut, onset, "run", which, c["mode"], c["picks"], write_coalescence=c["save"],
                               write_marginal_coalescence=c["save"])
    maps = []
    for i in range(len(c["events"])):
        a = w.first(i) - w.pre
        b = a + w.pre + w.nw + w.post
        rows, tts = [], []
        for p in c["phases"]:
            for s in w.names:
                x = model[s, e2e.PointOnset.CH[p]]
                if a < 0 or b > len(x) or np.isnan(x[a:b]).any():
                    continue
                rows.append(np.abs(x[a:b]) / 400.0 + 0.005)
                tts.append(np.rint(lut.traveltimes[s][p] * sr).astype(int))
        maps.append(e2e.stack(np.array(rows), np.stack(tts, -1), w.pre, w.nw) if rows else None)
    want = compare(w, ctx, lut, picker, out, files, which, maps, "full" if c["save"] else "")
    ctx.nontrivial(len(want) > 0)
    ctx.label(f"{len(want)} reported")
    # an event does not depend on the others of the run
    if want and len(which) > 1:
        i = next(i for i in which if uid(w.trigger_time(i)) == want[-1])
        ed, pd_ = w.events_dir, w.picks_dir
        _, _, f2 = w.run(lut, mk(), "single", [i], "file", c["picks"])
        ctx.equal(f2, [want[-1] + ".event"], "event files when located alone")
        ctx.equal((w.events_dir / f2[0]).read_bytes(), (ed / f2[0]).read_bytes(), "event file when located alone")
        if c["picks"]:
            ctx.equal((w.picks_dir / f"{want[-1]}.picks").read_bytes(), (pd_ / f"{want[-1]}.picks").read_bytes(),
                      "pick file when located alone")
        ctx.label("located alone")


# ---------------------------------------------------------------- truth: impulses on the predicted arrivals
def strat_source():
    return fixed(sr=sampled(10, 20, 25, 50, 100), mw2=st.integers(4, 40), half=sampled(0, 1), mx=sampled(0, 0, 0.3, 0.62), grid=lutgen.grid_strat(8),
                 m=st.integers(3, 5), phases=sampled(["P", "S"], ["S", "P"], ["P", "S"], ["P"]), ttmax=rounded(2, 6, 2),
                 pre=st.integers(0, 20), extra=st.integers(0, 5), threads=st.integers(1, 4), sub=st.just(""),
                 events=st.lists(fixed(gap=rounded(0.6, 2, 2), off=rounded(-1.5, 1.5, 3), edge=one_in(5, sampled(-1, 1), st.just(0)),
                                       node=ints(0, 10**6), frac=one_in(4, sampled(0.25, -0.3, 0.4), st.just(0.0))), min_size=1, max_size=3),
                 drop=st.integers(-1, 4), seed=seeds)


def check_source(c, ctx):
    """Impulses on the arrivals of one source per event: location and time follow from the construction."""
    w = World(c, ctx)
    sr = w.sr
    lut = lutgen.random_lut(c["grid"], c["m"], c["seed"], phases=c["phases"], tmax=c["ttmax"], names=w.names)
    if np.prod(lut.node_count) == 1:
        return
    onset = e2e.PointOnset(sr, c["phases"], c["pre"], c["extra"], scale=1.0)
    onset.post_pad = lut.max_traveltime
    w.pre, w.post = onset.pad_samples()
    w.place(c["events"], w.pre + 5, w.post + 5)
    keys = [(s, p) for j, s in enumerate(w.names) for p in c["phases"] if not (c["drop"] == j and c["m"] > 3)]
    tt = {k: np.rint(lut.traveltimes[k[0]][k[1]] * sr).astype(int) for k in keys}
    truth, data = [], {(s, p): np.zeros(w.total, np.int32) for s, p in keys}
    for i, e in enumerate(c["events"]):
        node = np.unravel_index(e["node"] % int(np.prod(lut.node_count)), lut.node_count)
        off = e["edge"] * w.mws / 2 if e["edge"] else np.rint(e["off"] * w.mws / 2)
        truth.append((node, w.at[i] + int(off)))
    # windows must not see the pulses of two events, and no other node may explain the arrivals nearly as well
    far = max(int(t.max()) for t in tt.values())
    for i, (node, ot) in enumerate(truth):
        lo, hi = w.first(i), w.first(i) + w.nw - 1 + far
        for j, (n2, o2) in enumerate(truth):
            if j != i and o2 + far >= lo and o2 <= hi:
                return ctx.label("events overlap")
        d = np.stack([tt[k] - tt[k][node] for k in keys], -1).reshape(-1, len(keys))
        same = np.array([np.unique(r, return_counts=True)[1].max() for r in d])
        same[np.ravel_multi_index(node, lut.node_count)] = 0
        if same.max() > len(keys) - 2 or len(keys) < 4:
            return ctx.label("another node explains the arrivals")
        for k in keys:
            q = ot + tt[k][node]
            if 0 <= q < w.total:
                data[k][q] = 1000
    pieces = [(s, e2e.PointOnset.CH[p], w.t0, x) for (s, p), x in data.items()]
    e2e.write_archive(w.dir, pieces, sr)
    which = unique_ids(w, c, ctx)
    picker, out, files = w.run(lut, onset, "run", which, "file", picks=False)
    want = []
    for i in which:
        node, ot = truth[i]
        off = ot - w.first(i) - w.trigger(i)
        u = uid(w.trigger_time(i))
        if not 0 <= ot - w.first(i) < w.nw:      # outside the scanned window
            continue
        rep = abs(2 * off) < w.mws + w.mx
        got = picker.events.get(u)
        ctx.check((got is not None) == rep, lambda: f"source {off / sr} s from the trigger time, marginal window {w.mw} s, "
                  f"but {'' if got is not None else 'not '}reported")
        if not rep:
            ctx.label("rejected")
            continue
        want.append(u)
        t = t_add(w.t0, ot, sr)
        ctx.check(abs(got.otime._ns - t._ns) <= 2000, lambda: f"origin time {got.otime}, true {t}")
        ix = locref.index(lut, got.get_hypocentre("spline"))
        ctx.check((np.abs(ix - node) <= 1 + 1e-3).all(), lambda: f"located at grid index {ix}, source at node {node}")
        cov = locref.index(lut, got.get_hypocentre("covariance"))
        ctx.close(cov, np.array(node, float), "covariance location", rtol=0, atol=1e-3)
        ctx.label("recovered")
    ctx.nontrivial(len(want) > 0)


# ---------------------------------------------------------------- waveforms and the default onset
def strat_wave():
    return fixed(sr=sampled(50, 40), mw2=st.integers(30, 80), half=st.just(0), mx=sampled(0, 0, 0.3, 0.62), n=st.tuples(*[st.integers(5, 7)] * 3).map(list),
                 m=st.integers(4, 6), threads=st.integers(1, 4), sub=st.just(""), seed=seeds, position=sampled("classic", "centred"),
                 phases=sampled(["P", "S"], ["P", "S"], ["S"], ["P"]),
                 transform=sampled("energy", "abs", "env", "env_squared"), mode=sampled("file", "times"), missing=st.integers(-3, 5),
                 source=st.tuples(*[st.integers(1, 3)] * 3).map(list), noise=sampled(0.0, 0.0, 0.005, 0.02),
                 events=st.lists(fixed(gap=rounded(0.6, 2, 2), off=rounded(-0.7, 0.7, 2), frac=one_in(2, sampled(0.3, -0.4), st.just(0.0))),
                                 min_size=1, max_size=2))


def wave_lut(c):
    g = dict(proj=dict(kind="lcc", units="km", lon=10.0, lat=45.0), n=c["n"], frac=[0, 0, 0], dx=[2.0] * 3, off=[-5, -5, 0],
             scalar=False)
    from quakemigrate.lut import LUT
    lut0 = LUT(**lutgen.spec(g)[0])
    rng = np.random.RandomState(c["seed"])
    lo, hi = lut0.grid_corners.min(0), lut0.grid_corners.max(0)
    ang = np.arange(c["m"]) * 2 * np.pi / c["m"] + rng.uniform(0, 1)
    r = rng.uniform(0.3, 0.75, c["m"])
    pos = np.stack([(lo[0] + hi[0]) / 2 + r * np.cos(ang) * (hi[0] - lo[0]) / 2 * 1.2,
                    (lo[1] + hi[1]) / 2 + r * np.sin(ang) * (hi[1] - lo[1]) / 2 * 1.2, np.full(c["m"], lo[2])], -1)
    lon, lat, z = lut0.coord2grid(pos, inverse=True).T
    sta = pd.DataFrame({"Longitude": lon, "Latitude": lat, "Elevation": -z, "Name": NAMES[:c["m"]]})
    return compute_traveltimes(lutgen.spec(g)[0], sta, method="homogeneous", phases=list(c["phases"]), vp=5.0, vs=2.9)


def check_wave(c, ctx):
    w = World(c, ctx)
    sr = w.sr
    lut = wave_lut(c)
    mk = lambda: STALTAOnset(           # noqa: E731
        sampling_rate=sr, phases=list(c["phases"]), position=c["position"], signal_transform=c["transform"],
        bandpass_filters={p: [2, 12, 2] for p in c["phases"]}, sta_lta_windows={p: [0.2, 1.5] for p in c["phases"]},
        channel_maps={"P": "*Z", "S": "*[N,E]"}, channel_counts={"P": 1, "S": 2})
    onset = mk()
    onset.post_pad = lut.max_traveltime
    npre, npost = [round(x * sr) for x in onset.pad(4 * w.mw)]
    w.place(c["events"], npre + 100, npost + 100)
    rng = np.random.RandomState(c["seed"] + 1)
    node = tuple(c["source"])
    tr = {(s, ch): rng.normal(0, 1 + 1000 * c["noise"], w.total) for s in w.names for ch in ("HHZ", "HHN", "HHE")}
    truth = []
    for i, e in enumerate(c["events"]):
        ot = w.at[i] + int(round(e["off"] * w.mws / 2))
        truth.append(ot)
        for s in w.names:
            for p in ("P", "S"):
                if p not in c["phases"]:
                    continue
                t = (np.arange(w.total) - ot) / sr - lut.traveltimes[s][p][node]
                wav = np.where(t >= 0, np.sin(2 * np.pi * 6 * t) * np.exp(-t / 0.15), 0.0) * 20000
                for ch in (("HHZ",) if p == "P" else ("HHN", "HHE")):
                    tr[s, ch] += wav
    miss = w.names[c["missing"]] if 0 <= c["missing"] < len(w.names) and len(w.names) > 4 else None
    e2e.write_archive(w.dir, [(s, ch, w.t0, np.round(x).astype(np.int32)) for (s, ch), x in tr.items() if s != miss], sr)
    which = unique_ids(w, c, ctx)
    picker, out, files = w.run(lut, onset, "run", which, c["mode"], write_marginal_coalescence=True)
    # reference: the public onset calculation on each window, stacked directly
    ref = mk()
    ref.post_pad = lut.max_traveltime
    arch = e2e.archive(w.dir, w.names)
    maps = []
    for i in range(len(c["events"])):
        a = t_add(w.t0, w.first(i) - npre, sr)
        try:
            data = arch.read_waveform_data(a, t_add(w.t0, w.first(i) + w.nw - 1 + npost, sr))
            on, od = ref.calculate_onsets(data)
        except (util.ArchiveEmptyException, util.DataGapException, util.DataAvailabilityException):
            maps.append(None)
            continue
        ks = [k.split("_") for k, v in od.availability.items() if v]
        tts = np.stack([np.rint(lut.traveltimes[s][p] * sr).astype(int) for s, p in ks], -1)
        maps.append(e2e.stack(on, tts, npre, w.nw))
    want = compare(w, ctx, lut, picker, out, files, which, maps, "marginal")
    ctx.nontrivial(len(want) > 0)
    # the true source: within a few samples and one node spacing where P and S are both used
    if c["noise"] == 0 and len(c["phases"]) == 2:
        for i in which:
            u = uid(w.trigger_time(i))
            if u in picker.events:
                got = picker.events[u]
                dt = (got.otime._ns - t_add(w.t0, truth[i], sr)._ns) / 1e9
                ix = locref.index(lut, got.get_hypocentre("spline"))
                ctx.label(f"time off by {abs(dt):.1f} s", f"node off by {np.abs(ix - node).max():.0f}")
                ctx.check(abs(dt) <= 0.5, lambda: f"origin time {dt} s from the true one")
                ctx.check((np.abs(ix - node) <= 2).all(), lambda: f"located at grid index {ix}, source at node {node}")


FACETS = [
    Facet("reference", strat, check_reference, quick=240, thorough=5000, shards=4, rule="an event was reported"),
    Facet("source", strat_source, check_source, quick=150, thorough=4000, shards=2, rule="a source was recovered"),
    Facet("waveforms", strat_wave, check_wave, quick=60, thorough=1500, shards=2, rule="an event was reported"),
]
