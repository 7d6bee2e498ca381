"""C21: histories of event, pick and amplitude files against a model of their contents."""
import os
import pathlib

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from obspy import UTCDateTime

import lutgen
from harness import Facet
from quakemigrate.io import Run
from quakemigrate.io.amplitudes import write_amplitudes
from quakemigrate.io.event import Event
from quakemigrate.signal.pickers import PhasePicker
from strategies import fixed, one_in, rounded, sampled, seeds

ASSUMPTIONS = ["event UIDs contain no dot (they are digits, from the trigger time)",
               "times are written to the microsecond"]

EVENT_COLS = ["EventID", "DT", "X", "Y", "Z", "COA", "COA_NORM", "GAU_X", "GAU_Y", "GAU_Z", "GAU_ErrX", "GAU_ErrY",
              "GAU_ErrZ", "COV_ErrX", "COV_ErrY", "COV_ErrZ", "COV_Err_XYZ", "TRIG_COA", "DEC_COA", "DEC_COA_NORM"]
MAG_COLS = ["ML", "ML_Err", "ML_r2"]
PICK_COLS = ["Station", "Phase", "ModelledTime", "PickTime", "PickError", "SNR", "Residual"]
AMP_FMT = dict(epi_dist=5, z_dist=5, P_amp=5, P_avg_amp=5, S_amp=5, S_avg_amp=5, Noise_amp=5, P_freq=2, S_freq=2,
               P_filter_gain=3, S_filter_gain=3, ML=3, ML_Err=3)
AMP_COLS = ["epi_dist", "z_dist", "P_amp", "P_freq", "P_time", "P_avg_amp", "P_filter_gain", "S_amp", "S_freq", "S_time",
            "S_avg_amp", "S_filter_gain", "Noise_amp", "is_picked"]
DAYS = [UTCDateTime(2015, 12, 31), UTCDateTime(2016, 2, 29), UTCDateTime(1999, 1, 1), UTCDateTime(2024, 6, 30)]
SECONDS = one_in(2, sampled(0.0, 0.000001, 0.5, 59.999999, 43200.0, 86399.999999, 86399.98, 86399.0), rounded(0, 86399.999999, 6))


class Picker(PhasePicker):
    def pick_phases(self):
        return None


def strat():
    mags = one_in(3, st.none(), fixed(nan=one_in(4, st.just(True), st.just(False)), zero=one_in(5, st.just(True), st.just(False)),
                                      seed=seeds))
    ev = fixed(day=st.integers(0, len(DAYS) - 1), sec=SECONDS, seed=seeds, mags=mags, old=sampled(0, 0, 0, 1, 2),
               intid=st.booleans(), n=st.integers(1, 6), peak=st.integers(0, 5), exponent=sampled(0, 0, -3, 3), nan=st.booleans(),
               picks=st.lists(st.booleans(), max_size=6), seedids=st.booleans(), amps=sampled(0, 1, 2, 3),
               mag_scale=sampled(1, 1, 0.001, 100), gau=sampled(0, 0, 0, 0, 1, 2, 3))
    op = fixed(ev=st.integers(0, 3), what=sampled("event", "picks", "amps", "all"), sub=st.integers(0, 1))
    return fixed(grid=lutgen.grid_strat(5), events=st.lists(ev, min_size=4, max_size=4), ops=st.lists(op, min_size=1, max_size=8))


def make(c, e, lut, i):
    """(Event, pick table, amplitude table) with unrounded values."""
    rng = np.random.RandomState(e["seed"])
    t = DAYS[e["day"]] + e["sec"]
    uid = int(t.strftime("%Y%m%d%H%M%S")) * 10 + i
    uid = uid if e["intid"] else str(uid)
    v = rng.uniform(0.5, 20, 8) * 10.0 ** e["exponent"]
    if rng.rand() < 0.3:
        v = np.maximum(np.round(v), 1)
    trig = {"EventID": uid, "CoaTime": t}
    if e["old"] == 0:
        trig.update(TRIG_COA=v[0], COA=v[1], COA_NORM=v[2])
        want = (v[0], v[1], v[2])
    elif e["old"] == 1:
        trig.update(COA_V=v[0], COA=v[1], COA_NORM=v[2])
        want = (v[0], v[1], v[2])
    else:
        trig.update(COA_V=v[0])
        want = (v[0], np.nan, np.nan)
    ev = Event(0.5, pd.Series(trig))
    n = e["n"]
    times = np.array([t + 0.01 * k for k in range(n)])
    coa, coan = rng.uniform(0.1, 1, n) * v[3], rng.uniform(1, 3, n)
    k = e["peak"] % n
    coa[k] = 1.5 * v[3]
    ev.add_compute_output(times, coa, coan, rng.rand(n, 3), None, None)
    lo, hi = lut.grid_corners.min(0), lut.grid_corners.max(0)
    pos = [np.asarray(lut.coord2grid([list(lo + (hi - lo) * rng.rand(3))], inverse=True), float)[0] for _ in range(3)]
    dx = np.asarray(lut.node_spacing, float)
    err = [dx * rng.uniform(0.05, 4, 3) for _ in range(2)]
    if e.get("gau"):  # a Gaussian fit that has no solution
        pos[1] = np.full(3, [np.inf, -np.inf, np.nan][e["gau"] - 1])
        err[0] = np.full(3, [np.inf, np.inf, np.nan][e["gau"] - 1])
    ev.add_spline_location(pos[0])
    ev.add_gaussian_location(pos[1], err[0])
    ev.add_covariance_location(pos[2], err[1])
    row = {"EventID": str(uid), "DT": times[k], "COA": coa[k], "COA_NORM": coan[k], "TRIG_COA": want[0], "DEC_COA": want[1],
           "DEC_COA_NORM": want[2], "COV_Err_XYZ": np.prod(err[1]) ** (1 / 3)}
    for j, a in enumerate("XYZ"):
        row.update({a: pos[0][j], f"GAU_{a}": pos[1][j], f"GAU_Err{a}": err[0][j], f"COV_Err{a}": err[1][j]})
    if e["mags"]:
        r2 = np.random.RandomState(e["mags"]["seed"])
        ml = [r2.uniform(-2, 6), r2.uniform(0, 1), r2.uniform(-1, 1)] if not e["mags"]["nan"] else [np.nan] * 3
        if e["mags"].get("zero"):
            ml[0] = 0.0
        ev.add_local_magnitude(*ml)
        row.update(zip(MAG_COLS, ml))
    rows = []
    for j, ok in enumerate(e["picks"]):
        m = t + rng.uniform(0, 20)
        p = m + rng.uniform(-1, 1)
        sta = e.get("names", [f"ST{k}" for k in range(3)])[j // 2]
        base = [sta] + ([[f"XX.{sta}..HHZ"]] if e["seedids"] else []) + ["PS"[j % 2], m]
        if j % 2 == 0 and (e.get("sonly", 0) >> (j // 2)) & 1:
            continue                # a station with an S onset only
        rows.append(base + ([p, rng.uniform(0.001, 2), rng.uniform(1, 50), p - m] if ok else [-1, -1, -1, -1]))
    cols = PICK_COLS if not e["seedids"] else [PICK_COLS[0], "SEED_ids", *PICK_COLS[1:]]
    picks = pd.DataFrame(rows, columns=cols, dtype=object)
    ev.add_picks(picks)
    ids = pd.Index([f"XX.ST{j}..HH{x}" for j in range(e["amps"]) for x in "ZNE"], name="id")
    amps = pd.DataFrame(index=ids, columns=AMP_COLS + (["ML", "ML_Err"] if e["mags"] else []), dtype=object)
    for q in ids:
        for col in amps.columns:
            if col.endswith("_time"):
                amps.loc[q, col] = t + rng.uniform(0, 60)
            elif col == "is_picked":
                amps.loc[q, col] = bool(rng.rand() < 0.5)
            else:
                amps.loc[q, col] = rng.uniform(0, 10) * e["mag_scale"] if not (e["nan"] and rng.rand() < 0.3) else np.nan
    return ev, picks, amps, row


def near(a, b, tol):
    a, b = float(a), float(b)
    return a == b or (np.isnan(a) and np.isnan(b)) or abs(a - b) <= tol


def floats(values):
    """Exact, and comparable if some are NaN."""
    return [repr(float(x)) for x in values]


def same_time(text, t):
    """The written time is t, to the microsecond."""
    return abs(UTCDateTime(text)._ns - t._ns) <= 1000


def sig(x, n):
    return float(f"{float(x):.{n}g}")


def check_event_file(ctx, f, row, lut):
    ctx.check(f.is_file(), lambda: f"no event file {f.name}")
    df = pd.read_csv(f, dtype={"EventID": str})
    ctx.equal(len(df), 1, f"{f.name}: rows")
    ctx.equal(list(df.columns), EVENT_COLS + (MAG_COLS if "ML" in row else []), f"{f.name}: columns")
    got = df.iloc[0]
    ctx.equal(got["EventID"], row["EventID"], f"{f.name}: EventID")
    ctx.check(same_time(got["DT"], row["DT"]), lambda: f"{f.name}: DT {got['DT']}, expected {row['DT']}")
    km = lut.unit_conversion_factor > 10
    prec = [2 - np.floor(np.log10(abs(d))) for d in np.subtract(*lut.index2coord([[1, 1, 1], [0, 0, 0]]))]
    prec = [max(p, m) for p, m in zip(prec, (6, 6, 3 if km else 0))]
    for col, w in row.items():
        if col in ("EventID", "DT"):
            continue
        if "COA" in col:
            tol = 1e-9 * abs(w) if np.isfinite(w) else 0
            ctx.check(near(got[col], sig(w, 4), tol), lambda: f"{f.name}: {col} {got[col]}, expected {w} to four digits")
        elif col in MAG_COLS:
            ctx.check(near(got[col], sig(w, 3), 1e-12), lambda: f"{f.name}: {col} {got[col]}, expected {w} to three digits")
        else:
            d = prec[2] if "Err" in col else prec["XYZ".index(col[-1])]
            tol = 0.5000001 * 10.0 ** -d + (1e-12 * abs(w) if np.isfinite(w) else 0)
            ctx.check(near(got[col], w, tol), lambda: f"{f.name}: {col} {got[col]}, expected {w} within {tol}")


def check_picks_file(ctx, f, picks):
    ctx.check(f.is_file(), lambda: f"no pick file {f.name}")
    df = pd.read_csv(f)
    ctx.equal(list(df.columns), list(picks.columns), f"{f.name}: columns")
    ctx.equal(len(df), len(picks), f"{f.name}: rows")
    for i in range(len(picks)):
        w, g = picks.iloc[i], df.iloc[i]
        for col in picks.columns:
            if col in ("Station", "Phase", "SEED_ids"):
                ok = str(g[col]) == str(w[col])
            elif w[col] == -1:
                ok = float(g[col]) == -1
            elif col.endswith("Time"):
                ok = same_time(g[col], w[col])
            elif col == "Residual":
                ok = near(g[col], w[col], 1e-9)
            else:
                ok = near(g[col], sig(w[col], 3), 1e-12)
            ctx.check(ok, lambda: f"{f.name}: row {i}: {col} {g[col]}, expected {w[col]}")


def check_amps_file(ctx, f, amps):
    ctx.check(f.is_file(), lambda: f"no amplitude file {f.name}")
    df = pd.read_csv(f, index_col=0)
    ctx.equal([str(x) for x in df.index], list(amps.index), f"{f.name}: trace ids")
    ctx.equal(list(df.columns), list(amps.columns), f"{f.name}: columns")
    for q in amps.index:
        for col in amps.columns:
            w, g = amps.loc[q, col], df.loc[q, col]
            if col == "is_picked":
                ok = str(g) == str(w)
            elif col.endswith("_time"):
                ok = same_time(g, w)
            else:
                ok = near(g, sig(w, AMP_FMT[col]), 1e-12)
            ctx.check(ok, lambda: f"{f.name}: {q}: {col} {g}, expected {w}")


def check(c, ctx):
    lut = lutgen.random_lut(dict(c["grid"], n=[max(n, 2) for n in c["grid"]["n"]]), 1, 1, phases=["P"])
    root = ctx.tmp()
    subs = ["", "sub"]
    runs = [Run(root, "run", s, stage="locate") for s in subs]
    picker = Picker()
    made = [make(c, e, lut, i) for i, e in enumerate(c["events"])]
    for ev, picks, amps, _ in made:
        ev.marker = (picks.copy(deep=True), amps.copy(deep=True), {k: dict(v) for k, v in ev.locations.items()}, dict(ev.localmag))
    want = {}
    for op in c["ops"]:
        ev, picks, amps, row = made[op["ev"]]
        run = runs[op["sub"]]
        if op["what"] in ("event", "all"):
            ev.write(run, lut)
            want[op["sub"], "events", f"{ev.uid}.event"] = (check_event_file, row)
        if op["what"] in ("picks", "all"):
            picker.write(run, ev.uid, picks)
            want[op["sub"], "picks", f"{ev.uid}.picks"] = (check_picks_file, picks)
        if op["what"] in ("amps", "all"):
            write_amplitudes(run, amps, ev)
            want[op["sub"], "amplitudes", f"{ev.uid}.amps"] = (check_amps_file, amps)
    have = set()
    for k, s in enumerate(subs):
        base = pathlib.Path(root) / "run" / "locate" / s
        for kind in ("events", "picks", "amplitudes"):
            d = base / kind
            if d.is_dir():
                have |= {(k, kind, f) for f in os.listdir(d)}
    ctx.equal(sorted(have), sorted(want), "files written")
    for (k, kind, f), (fn, data) in want.items():
        path = pathlib.Path(root) / "run" / "locate" / subs[k] / kind / f
        if fn is check_event_file:
            fn(ctx, path, data, lut)
        else:
            fn(ctx, path, data)
    # writing leaves the results themselves as they were
    for ev, picks, amps, row in made:
        p, a, loc, mag = ev.marker
        ctx.check(p.equals(picks), "writing changed the pick table")
        ctx.check(a.equals(amps), "writing changed the amplitude table")
        ctx.equal(str({k: dict(v) for k, v in ev.locations.items()}), str(loc), "locations after writing")
        ctx.equal(str(dict(ev.localmag)), str(mag), "magnitudes after writing")
        # and they are those of the event
        ctx.equal([float(x) for x in ev.hypocentre], [float(row[a]) for a in "XYZ"], "hypocentre")
        ctx.equal(floats(ev.get_hypocentre("gaussian")), floats(row["GAU_" + a] for a in "XYZ"), "Gaussian location")
        ctx.equal(floats(ev.loc_uncertainty), floats(row["GAU_Err" + a] for a in "XYZ"), "location uncertainty")
        for m, n in (("gaussian", "GAU"), ("covariance", "COV")):
            ctx.equal(floats(ev.get_loc_uncertainty(m)), floats(row[f"{n}_Err" + a] for a in "XYZ"), f"{m} uncertainty")
        ctx.close([float(x) for x in ev.local_magnitude] if "ML" in row else [], [float(row[m]) for m in MAG_COLS if m in row],
                  "local magnitude", rtol=0, atol=0)
    ctx.nontrivial(len(want) > 1)
    ctx.label(*sorted({kind for _, kind, _ in want}), *(["both with and without magnitudes"] if len(
        {"ML" in row for _, _, _, row in made}) > 1 else []))


FACETS = [Facet("files", strat, check, quick=300, thorough=6000, shards=4, rule="more than one file written")]
