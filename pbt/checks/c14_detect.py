"""C14: QuakeScan.detect() end to end on generated archives, against a direct reference."""
import os
from fractions import Fraction

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from obspy import UTCDateTime

import e2e
import lutgen
import quakemigrate.util as util
from harness import Facet
from qm import t_add
from quakemigrate import QuakeScan
from quakemigrate.io import Run, read_availability
from quakemigrate.io.scanmseed import read_scanmseed
from quakemigrate.signal.onsets import STALTAOnset
from strategies import fixed, ints, one_in, rounded, sampled, seeds

ASSUMPTIONS = ["the timestep is a whole number of samples", "archived data are on the sample grid; a start time off the grid is taken to the nearest sample",
               "runs have at least one timestep"]

MIDS = [UTCDateTime(2015, 3, 2), UTCDateTime(2016, 2, 29), UTCDateTime(2016, 1, 1)]


def strat(grid=4, steps=6):
    return fixed(sr=sampled(10, 20, 25, 50, 100, 8), ts=one_in(10, ints(400, 1500), st.integers(5, 80)), n=st.integers(1, steps),
                 rem=one_in(2, st.just(0), one_in(3, st.integers(1, 3), st.integers(0, 79))), mid=st.integers(0, 2),
                 rel=one_in(2, ints(-400, 400), st.integers(-30, 5)), frac=sampled(0.0, 0.0, 0.0, 0.25, -0.3),
                 endmid=st.booleans(), grid=lutgen.grid_strat(grid), m=st.integers(1, 4), seed=seeds,
                 phases=sampled(["P", "S"], ["S", "P"], ["P"], ["S"]), ttmax=rounded(0.0, 3.0, 2),
                 pre=st.integers(0, 30), extra=st.integers(0, 10), threads=st.integers(1, 4), cont=st.booleans(),
                 holes=st.lists(fixed(sta=st.integers(-1, 3), cha=st.integers(0, 2), a=rounded(-0.2, 1.1, 3),
                                      len=one_in(2, rounded(0, 0.3, 3), rounded(0, 1.5, 3)), kind=sampled("gap", "gap", "zero")),
                                max_size=4),
                 nodata=st.lists(st.integers(0, 3), max_size=1), fill=sampled("noise", "noise", "pulses", "const"))


NAMES = ["STA", "B", "X12", "LONG1"]


class World:
    def __init__(self, c, ctx):
        self.c = c
        sr, ts = c["sr"], c["ts"]
        self.lut = lutgen.random_lut(c["grid"], c["m"], c["seed"], phases=c["phases"], tmax=c["ttmax"],
                                     names=NAMES[:c["m"]])
        if c["ttmax"] == 0:
            for s in NAMES[:c["m"]]:
                for p in c["phases"]:
                    self.lut.traveltimes[s][p][:] = 0.0
        self.mid = MIDS[c["mid"]]
        rel = c["rel"]
        if c["endmid"]:
            rel = -c["n"] * ts
        self.start = t_add(self.mid, rel + (c["frac"] if not c["endmid"] else 0), sr)
        self.grid = t_add(self.mid, rel, sr)        # the archived sample nearest to the start
        # end time: n timesteps, or (rem) up to a timestep less / more
        rem = c["rem"] % ts if not c["endmid"] else 0
        self.end = t_add(self.start, c["n"] * ts + rem, sr)
        span = Fraction(self.end._ns - self.start._ns, 10**9)
        if self.end._ns == UTCDateTime(self.end.date)._ns:
            span -= Fraction(1, sr)
        step = Fraction(ts, sr)
        self.n = int(-(-span // step))
        # a remainder below the nanosecond rounding of the times is no remainder
        if self.n > 1 and span - (self.n - 1) * step <= Fraction(1, 10**7):
            self.n -= 1
        # an off-grid start is taken to the nearest sample
        self.asked = str(self.start), str(self.end)
        self.start = self.grid
        self.root = ctx.tmp()
        self.dir = os.path.join(self.root, "archive")
        os.makedirs(self.dir)

    def data(self, channels, lead, tail):
        """Writes the archive; returns {(station, channel): (array with NaN where there is no data)}.

        Arrays start `lead` samples before the start time."""
        c = self.c
        sr = c["sr"]
        rng = np.random.RandomState(c["seed"])
        total = lead + self.n * c["ts"] + tail
        model, pieces = {}, []
        t0 = t_add(self.grid, -lead, sr)
        for i in range(c["m"]):
            for j, ch in enumerate(channels):
                if c["fill"] == "const":
                    x = np.full(total, 700 + 10 * i)
                elif c["fill"] == "pulses":
                    x = np.abs(rng.normal(0, 200, total)) + 5000 * (rng.rand(total) < 0.03)
                else:
                    x = rng.normal(0, 1000, total)
                x = np.round(x).astype(np.int32)
                keep = np.ones(total, bool)
                for h in c["holes"]:
                    if h["sta"] not in (-1, i) or (h["cha"] not in (2, j)):
                        continue
                    a = lead + int(h["a"] * self.n * c["ts"])
                    b = a + int(h["len"] * self.n * c["ts"]) + 1
                    a, b = max(a, 0), max(b, 0)
                    if h["kind"] == "gap":
                        keep[a:b] = False
                    else:
                        x[a:b] = 0
                if i in c["nodata"]:
                    keep[:] = False
                y = np.where(keep, x.astype(float), np.nan)
                model[NAMES[i], ch] = y
                edges = np.flatnonzero(np.diff(np.concatenate([[0], keep.astype(int), [0]])))
                for a, b in zip(edges[::2], edges[1::2]):
                    pieces.append((NAMES[i], ch, t_add(t0, int(a), sr), x[a:b]))
        e2e.write_archive(self.dir, pieces, sr)
        return model

    def scan(self, onset, name, **kw):
        kw = dict(dict(timestep=self.c["ts"] / self.c["sr"], threads=self.c["threads"],
                       continuous_scanmseed_write=self.c["cont"]), **kw)
        return QuakeScan(e2e.archive(self.dir, NAMES[:self.c["m"]]), self.lut, onset, self.root, name, **kw)


def read_run(w, name, ctx):
    run = Run(w.root, name, stage="detect")
    sr = w.c["sr"]
    last = t_add(w.start, w.n * w.c["ts"] - 1, sr)
    df, stats = read_scanmseed(run, w.start, last, 200.0, w.lut.unit_conversion_factor)
    d = os.path.join(w.root, name, "detect", "availability")
    av = []
    for f in sorted(os.listdir(d)):
        a = pd.read_csv(os.path.join(d, f), index_col=0)
        for t in a.index:
            y = UTCDateTime(t)
            ctx.equal(f, f"{y.year}_{y.julday:03d}_StationAvailability.csv", "day of an availability row")
        av.append(a)
    return df, pd.concat(av).sort_index(), run


def compare(w, ctx, name, want_coa, want_n, maps, want_avail):
    """want_coa etc.: arrays over all samples; maps(i) -> 4-D map of step i or None; want_avail: list of dicts."""
    c = w.c
    sr, ts = c["sr"], c["ts"]
    df, av, run = read_run(w, name, ctx)
    N = w.n * ts
    ctx.equal(len(df), N, "number of scan samples")
    got_ns = np.array([t._ns for t in df["DT"]], dtype=np.int64)
    exp_ns = np.array([t_add(w.start, i, sr)._ns for i in range(N)], dtype=np.int64)
    bad = np.flatnonzero(np.abs(got_ns - exp_ns) > max(2000, 1e7 / sr))
    ctx.check(not len(bad), lambda: f"sample {bad[0]} at {df['DT'][int(bad[0])]}, expected {UTCDateTime(ns=int(exp_ns[bad[0]]))}")
    ctx.close(df["COA"].values, np.minimum(want_coa, 21474.0), "coalescence", rtol=1e-9, atol=1.2e-5)
    ctx.close(df["COA_N"].values, np.minimum(want_n, 21474.0), "normalised coalescence", rtol=1e-9, atol=1.2e-5)
    xyz = df[["X", "Y", "Z"]].values
    idx = np.array(list(np.ndindex(*w.lut.node_count)))
    corners = w.lut.index2coord(idx)
    tol = np.array([1.1e-6, 1.1e-6, 1.1e-3 / w.lut.unit_conversion_factor])
    for i in range(w.n):
        m = maps(i)
        sl = slice(i * ts, (i + 1) * ts)
        if m is None:
            ctx.check(np.all(xyz[sl] == 0), f"empty timestep {i}: location not zero")
            continue
        flat = m.reshape(-1, ts)
        arg = flat.argmax(0)
        d = np.abs(xyz[sl] - corners[arg])
        # where nodes tie within rounding any of them will do
        off = np.flatnonzero((d > tol).any(1))
        for k in off:
            ties = np.flatnonzero(flat[:, k] >= flat[:, k].max() * (1 - 1e-9))
            ctx.check((np.abs(corners[ties] - xyz[sl][k]) <= tol).all(1).any(),
                      lambda: f"location of sample {i * ts + k}: {xyz[sl][k]}, expected {corners[arg[k]]}")
    ctx.equal(len(av), w.n, "rows of the availability record")
    keys = [f"{s}_{p}" for p in c["phases"] for s in NAMES[:c["m"]]]
    ctx.equal(sorted(av.columns), sorted(keys), "columns of the availability record")
    times = [UTCDateTime(t)._ns for t in av.index]
    for i in range(w.n):
        e = t_add(w.start, i * ts, sr)
        ctx.check(abs(times[i] - e._ns) < 2000, lambda: f"availability row {i} at {av.index[i]}, expected {e}")
        row = {k: int(av.iloc[i][k]) for k in keys}
        ctx.equal(row, want_avail[i], f"availability of timestep {i}")
    last = t_add(w.start, N - 1, sr)
    try:
        back = read_availability(run, w.start, last)
        ctx.equal(len(back), w.n, "rows read back from the availability record")
    except util.NoStationAvailabilityDataException:
        ctx.fail("availability record not found")


def check_point(c, ctx):
    w = World(c, ctx)
    sr, ts = c["sr"], c["ts"]
    onset = e2e.PointOnset(sr, c["phases"], c["pre"], c["extra"], scale=400.0)
    scan = w.scan(onset, "run")
    pre, post = onset.pad_samples()
    lead, tail = pre + 40, post + 40 + ts
    model = w.data(["HHZ", "HHN"], lead, tail)
    scan.detect(*w.asked)
    coa, coan = np.zeros(w.n * ts), np.zeros(w.n * ts)
    maps, avail = [], []
    for i in range(w.n):
        a, b = lead + i * ts - pre, lead + (i + 1) * ts + post
        rows, tts, row = [], [], {}
        for p in c["phases"]:
            for s in NAMES[:c["m"]]:
                x = model[s, e2e.PointOnset.CH[p]][a:b]
                ok = not np.isnan(x).any()
                row[f"{s}_{p}"] = int(ok)
                if ok:
                    rows.append(np.abs(x) / 400.0 + 0.005)
                    tts.append(np.rint(w.lut.traveltimes[s][p] * sr).astype(int))
        avail.append(row)
        if not rows:
            maps.append(None)
            continue
        m = e2e.stack(np.array(rows), np.stack(tts, -1), pre, ts)
        maps.append(m)
        flat = m.reshape(-1, ts)
        coa[i * ts:(i + 1) * ts] = flat.max(0)
        coan[i * ts:(i + 1) * ts] = flat.max(0) * flat.shape[0] / flat.sum(0)
    compare(w, ctx, "run", coa, coan, lambda i: maps[i], avail)
    part = any(sum(r.values()) < len(r) for r in avail)
    ctx.label("all steps empty" if all(m is None for m in maps) else "some steps empty" if any(m is None for m in maps)
              else "partial availability" if part else "full")
    ctx.label(*(["crosses midnight"] if w.start.date != t_add(w.start, w.n * ts - 1, sr).date else []))
    ctx.nontrivial(any(m is not None for m in maps) and w.n > 1)
    if all(m is not None for m in maps) and not part:
        # a different timestep and thread count gives the same scan
        on2 = e2e.PointOnset(sr, c["phases"], c["pre"], c["extra"], scale=400.0)
        w2 = w.scan(on2, "other", timestep=w.n * ts / sr, threads=c["threads"] % 4 + 1)
        w2.detect(str(w.start), str(t_add(w.start, w.n * ts, sr)))
        run = Run(w.root, "other", stage="detect")
        d1 = read_run(w, "run", ctx)[0]
        d2, _ = read_scanmseed(run, w.start, t_add(w.start, w.n * ts - 1, sr), 200.0, w.lut.unit_conversion_factor)
        ctx.equal(len(d1), len(d2), "samples with another timestep")
        for k in ("COA", "COA_N"):
            ctx.close(d2[k].values, d1[k].values, f"{k} with another timestep", rtol=1e-9, atol=1.2e-5)


# ---------------------------------------------------------------- STA/LTA onset
def strat_stalta():
    return strat(grid=3, steps=4).flatmap(lambda c: fixed(
        c=st.just(c), sta=rounded(0.1, 0.5, 1), lta=rounded(0.5, 1.5, 1), position=sampled("classic", "centred")))


def check_stalta(cc, ctx):
    c = cc["c"]
    w = World(c, ctx)
    sr, ts = c["sr"], c["ts"]
    mk = lambda: STALTAOnset(      # noqa: E731
        sampling_rate=sr, phases=list(c["phases"]), position=cc["position"],
        bandpass_filters={p: [0.1 * sr, 0.4 * sr, 2] for p in c["phases"]},
        sta_lta_windows={p: [cc["sta"], cc["sta"] + cc["lta"]] for p in c["phases"]},
        channel_maps={"P": "*Z", "S": "*[N,E]"}, channel_counts={"P": 1, "S": 2})
    onset = mk()
    scan = w.scan(onset, "run")
    pre, post = onset.pad(ts / sr)
    npre, npost = round(pre * sr), round(post * sr)
    w.data(["HHZ", "HHN", "HHE"], npre + 40, npost + 40 + ts)
    scan.detect(*w.asked)
    # reference: each timestep on its own
    ref = mk()
    ref.post_pad = w.lut.max_traveltime
    arch = e2e.archive(w.dir, NAMES[:c["m"]])
    coa, coan, maps, avail = np.zeros(w.n * ts), np.zeros(w.n * ts), [], []
    for i in range(w.n):
        t0 = t_add(w.start, i * ts - npre, sr)
        try:
            data = arch.read_waveform_data(t0, t_add(w.start, (i + 1) * ts - 1 + npost, sr))
            on, od = ref.calculate_onsets(data)
        except (util.ArchiveEmptyException, util.DataGapException, util.DataAvailabilityException):
            maps.append(None)
            avail.append({f"{s}_{p}": 0 for p in c["phases"] for s in NAMES[:c["m"]]})
            continue
        avail.append({k: int(v) for k, v in od.availability.items()})
        tts = np.stack([np.rint(w.lut.traveltimes[k.split("_")[0]][k.split("_")[1]] * sr).astype(int)
                        for k, v in od.availability.items() if v], -1)
        m = e2e.stack(on, tts, npre, ts)
        maps.append(m)
        flat = m.reshape(-1, ts)
        coa[i * ts:(i + 1) * ts] = flat.max(0)
        coan[i * ts:(i + 1) * ts] = flat.max(0) * flat.shape[0] / flat.sum(0)
    compare(w, ctx, "run", coa, coan, lambda i: maps[i], avail)
    ctx.nontrivial(any(m is not None for m in maps))
    ctx.label("empty" if all(m is None for m in maps) else "some data")


FACETS = [
    Facet("point", strat, check_point, quick=250, thorough=6000, shards=5,
          rule="more than one timestep, at least one with data"),
    Facet("stalta", strat_stalta, check_stalta, quick=120, thorough=2500, shards=3, rule="a timestep with data"),
]
