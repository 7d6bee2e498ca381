"""C23: individual and network-averaged local magnitudes against a direct reference."""
import math
import os

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from obspy import UTCDateTime

from harness import Facet
from quakemigrate.io import Run
from quakemigrate.signal.local_mag import LocalMag
from quakemigrate.signal.local_mag.magnitude import Magnitude
from strategies import fixed, one_in, rounded, sampled, seeds

ASSUMPTIONS = ["measured noise amplitudes are positive (a noise amplitude of exactly zero is no error estimate)"]

# reference distance, geometric term, anelastic term, correction at the reference distance
LAWS = {"keir2006": (17.0, 1.196997, 0.001066, 2.0), "Danakil2017": (17.0, 1.274336, -0.000273, 2.0),
        "Greenfield2018_askja": (17.0, 1.4406, 0.003, 2.0), "Greenfield2018_bardarbunga": (17.0, 1.2534, 0.0032, 2.0),
        "Greenfield2018_comb": (17.0, 1.1999, 0.0016, 2.0), "Hutton-Boore": (100.0, 1.11, 0.00189, 3.0),
        "Langston1998": (17.0, 0.776, 0.000902, 2.0)}


def law(name, r):
    if name == "UK":
        return 1.11 * math.log10(r) + 0.00189 * r - 1.16 * math.exp(-0.2 * r) - 2.09
    if name == "user":
        return 2.5 + 0.013 * r
    ref, a, b, c = LAWS[name]
    return a * (math.log10(r) - math.log10(ref)) + b * (r - ref) + c


STATIONS = ["STA", "B", "10", "X12", "AB.C"[:2], "LONG1"]
CHANNELS = ["HHE", "HHN", "HHZ", "BH2"]

row = fixed(sta=st.integers(0, 5), cha=st.integers(0, 3), loc=sampled("", "", "00", "10"),
            epi=one_in(8, st.just(0.0), rounded(0.01, 300.0, 3)), z=rounded(-3.0, 60.0, 3),
            amp=one_in(8, sampled(None, 0.0, 1e-9), rounded(-4.0, 3.0, 3)), ratio=rounded(-1.2, 3.0, 3).filter(lambda v: abs(v) > 0.01),
            noisenan=one_in(10, st.just(True), st.just(False)), gain=rounded(0.01, 1.0, 3),
            nogain=one_in(12, st.just(True), st.just(False)), picked=one_in(3, st.just(False), st.just(True)),
            corr=one_in(2, st.just(0.0), rounded(-1.0, 1.0, 3)))

common = dict(rows=st.one_of(st.lists(row, min_size=1, max_size=10), st.lists(row, min_size=8, max_size=20)), A0=sampled("user", "UK", *LAWS), hyp=st.booleans(),
              feature=sampled("S_amp", "P_amp"), mult=sampled(1.0, 1.0, 1000.0, 0.5), gains=st.booleans(),
              seed=seeds)


def frame(c, rows=None):
    """The amplitude table of get_amplitudes(), one row per distinct trace id."""
    out, index, corr, seen = [], [], {}, set()
    rng = np.random.default_rng(c["seed"])
    for r in (c["rows"] if rows is None else rows):
        id_ = f"XX.{STATIONS[r['sta']]}.{r['loc']}.{CHANNELS[r['cha']]}"
        other = rng.uniform(0.1, 5, 12)
        if id_ in seen:
            continue
        seen.add(id_)
        amp = np.nan if r["amp"] is None else (r["amp"] if abs(r["amp"]) in (0.0, 1e-9) else 10 ** r["amp"])
        gain = r["gain"] if c["gains"] and not (r["nogain"] or np.isnan(amp)) else np.nan
        base = amp if amp > 0 else 1.0
        noise = np.nan if r["noisenan"] else base * 10 ** -r["ratio"] * (gain if not np.isnan(gain) else 1.0)
        p, s = c["feature"] == "P_amp", c["feature"] == "S_amp"
        t = UTCDateTime(2015, 3, 1, 1, 2, 3)
        out.append([r["epi"], r["z"], amp if p else other[0], other[1], t, other[2],
                    gain if p else (other[3] if c["gains"] else np.nan),
                    amp if s else other[4], other[5], t + 1, other[6],
                    gain if s else (other[7] if c["gains"] else np.nan), noise, r["picked"]])
        index.append(id_)
        if r["corr"]:
            corr[id_] = r["corr"]
        elif r["sta"] % 2:          # corrections for other traces with similar names
            corr[id_[:-1]] = corr[id_.split(".")[1]] = corr[id_.lower()] = 0.77
    df = pd.DataFrame(out, columns=["epi_dist", "z_dist", "P_amp", "P_freq", "P_time", "P_avg_amp", "P_filter_gain",
                                    "S_amp", "S_freq", "S_time", "S_avg_amp", "S_filter_gain", "Noise_amp", "is_picked"],
                      index=pd.Index(index, name="id"))
    return df, corr


def dist_of(c, epi, z):
    d = math.hypot(epi, z) if c["hyp"] else epi
    return d if d != 0 else math.nan


def reference(c, df, corr):
    """[(ML, ML_Err, distance, noise amplitude in the units of the signal amplitude)] per row."""
    g = df[f"{c['feature'][0]}_filter_gain"].to_numpy()
    filtered = not np.isnan(g).all()
    out = []
    for k, id_ in enumerate(df.index):
        r = df.iloc[k]
        noise = r["Noise_amp"] / g[k] if filtered else r["Noise_amp"]
        a, n, d = r[c["feature"]] * c["mult"], noise * c["mult"], dist_of(c, r["epi_dist"], r["z_dist"])
        if a < n or a == 0 or math.isnan(a) or math.isnan(d):
            out.append((math.nan, math.nan, d, noise))
            continue
        k0 = law(c["A0"], d) + corr.get(id_, 0.0)
        err = math.nan if math.isnan(n) else \
            (math.log10(a + n) - math.log10(a - n) if a > n else math.inf)
        out.append((math.log10(a) + k0, err, d, noise))
    return out


def params(c, corr, **kw):
    A0 = (lambda r: 2.5 + 0.013 * r) if c["A0"] == "user" else c["A0"]
    p = {"A0": A0, "use_hyp_dist": c["hyp"], "amp_feature": c["feature"], "amp_multiplier": c["mult"]}
    if corr:
        p["station_corrections"] = dict(corr)
    p.update(kw)
    return p


def individual(c, ctx):
    df, corr = frame(c)
    before, p = df.copy(deep=True), params(c, corr)
    mag = Magnitude(p)
    out = mag.calculate_magnitudes(df)
    ref = reference(c, before, corr)
    good = sum(not math.isnan(r[0]) for r in ref)
    ctx.nontrivial(good >= 1)
    if c["gains"]:
        ctx.label("gain")
    if sum(not math.isnan(x) and math.isnan(r[0]) for x, r in zip(before[c["feature"]], ref)) > 0:
        ctx.label("below-noise")
    ctx.check(df.equals(before), "calculate_magnitudes() modified its input")
    ctx.check(list(out.index) == list(before.index) and list(out.columns) == list(before.columns) + ["ML", "ML_Err"],
              "rows or columns differ from the input")
    ctx.check(out[list(before.columns)].equals(before), "the amplitude observations were altered in the output")
    for k, (ml, err, _, _) in enumerate(ref):
        ctx.close(out["ML"].iloc[k], ml, f"ML of {before.index[k]}", rtol=1e-9, atol=1e-9)
        if math.isfinite(err) or math.isnan(ml):
            ctx.close(out["ML_Err"].iloc[k], err, f"ML_Err of {before.index[k]}", rtol=1e-6, atol=1e-9)
    # the same observations again give the same magnitudes, alone or among others
    again = mag.calculate_magnitudes(before.copy(deep=True))
    ctx.check(again.equals(out), "a second calculation gives different magnitudes")
    k = c["seed"] % len(df)
    one = mag.calculate_magnitudes(before.iloc[[k]].copy(deep=True))
    g = before[f"{c['feature'][0]}_filter_gain"]
    if not (g.isnull().iloc[k] and not g.isnull().all()):
        ctx.close(one["ML"].iloc[0], ref[k][0], "ML depends on the other observations", rtol=1e-9, atol=1e-9)


def filters(c):
    flt = {}
    if c["trace"]:
        flt["trace_filter"] = c["trace"]
    if c["exclude"]:
        flt["station_filter"] = [STATIONS[k] for k in c["exclude"]]
    if c["dist"]:
        flt["dist_filter"] = c["dist"]
    return flt


def passes(c, id_, r):
    """The observation passes the trace, station and distance filters."""
    sta, cha = id_.split(".")[1], id_.split(".")[3]
    ok = True
    if c["trace"]:
        ok &= {".*H[NE]$": cha[-1] in "NE", "Z$": cha[-1] == "Z", r"XX\.STA\.": sta == "STA"}[c["trace"]]
    if c["exclude"]:
        ok &= sta not in [STATIONS[k] for k in c["exclude"]]
    if c["dist"]:
        ok &= (math.hypot(r["epi_dist"], r["z_dist"]) if c["hyp"] else r["epi_dist"]) <= c["dist"]
    return ok


def mean(c, ctx):
    df, corr = frame(c)
    flt = dict(noise_filter=c["nf"], weighted_mean=c["weighted"], pick_filter=c["pick"], **filters(c))
    mag = Magnitude(params(c, corr, **flt))
    mags = mag.calculate_magnitudes(df)
    ref = reference(c, df, corr)
    before = mags.copy(deep=True)
    # which observations pass every filter
    used = []
    for k, id_ in enumerate(df.index):
        ml, err, d, noise = ref[k]
        a = df[c["feature"]].iloc[k]
        if math.isnan(a) or math.isnan(noise):
            continue
        ok = not math.isnan(ml) and passes(c, id_, df.iloc[k])
        if c["nf"]:
            ok &= bool(a > noise * c["nf"])
        if c["pick"]:
            ok &= bool(df["is_picked"].iloc[k])
        if ok:
            used.append((id_, ml, err, a * c["mult"] * 10 ** corr.get(id_, 0.0), d))
    if c["weighted"] and any(not 1e-6 < u[2] < 50 for u in used):
        ctx.label("degenerate-weight")
        return
    ctx.nontrivial(len(used) >= 2)
    if not used:
        ctx.label("none-used")
    if 0 < len(used) < len(df):
        ctx.label("some-unused")
    m, e, r2, table = mag.mean_magnitude(mags)
    ctx.check(mags.equals(before), "mean_magnitude() modified its input")
    ctx.equal([i for i, u in zip(table.index, table["Used"]) if u], [u[0] for u in used], "observations used")
    if not used:
        ctx.check(np.isnan(m) and np.isnan(e) and np.isnan(r2), "a magnitude without usable observations")
        return
    w = np.array([u[2] ** -2 if c["weighted"] else 1.0 for u in used])
    x = np.array([u[1] for u in used])
    mu = float(np.sum(w * x) / np.sum(w))
    sd = float(np.sqrt(np.sum(w * (x - mu) ** 2) / np.sum(w))) if len(x) > 1 else used[0][2]
    ctx.close(m, mu, "mean magnitude", rtol=1e-8, atol=1e-8)
    if np.isfinite(sd):
        ctx.close(e, sd, "magnitude error", rtol=1e-6, atol=1e-7)
    la = np.log10([u[3] for u in used])
    if len(la) < 2:
        ctx.check(np.isnan(r2), f"r-squared {r2} from fewer than two amplitudes")
    elif np.ptp(la) > 1e-6:
        pred = np.array([mu - law(c["A0"], u[4]) for u in used])
        want = 1 - np.sum((la - pred) ** 2) / np.sum((la - la.mean()) ** 2)
        ctx.close(r2, want, "r-squared", rtol=1e-6, atol=1e-6)
    # repeated, reordered, and without the unusable observations: the same event magnitude
    ctx.check(np.allclose(mag.mean_magnitude(mags)[:2], (m, e), equal_nan=True), "a second averaging gives a different magnitude")
    perm = np.random.default_rng(c["seed"]).permutation(len(mags))
    keep = [k for k in perm if mags.index[k] in {u[0] for u in used}]
    g = mags[f"{c['feature'][0]}_filter_gain"]
    for sel, what in ((perm, "order of the observations"), (keep, "unusable observations")):
        if g.iloc[list(sel)].isnull().all() != g.isnull().all():
            continue
        got = mag.mean_magnitude(mags.iloc[list(sel)].copy(deep=True))[:2]
        ctx.check(np.allclose(got, (m, e), rtol=1e-8, atol=1e-8, equal_nan=True),
                  f"the magnitude depends on the {what}: {got} instead of {(m, e)}")


def expected_r2(c, ctx):
    """r2_only_used=False: noisy observations count where the predicted amplitude is well above the noise."""
    rows = [dict(r, epi=r["epi"] or 5.0, amp=0.3 if r["amp"] in (None, 0.0) else r["amp"], noisenan=False) for r in c["rows"]]
    df, corr = frame(c, rows)
    mag = Magnitude(params(c, corr, noise_filter=c["nf"], r2_only_used=False, **filters(c)))
    mags = mag.calculate_magnitudes(df)
    m, e, r2, table = mag.mean_magnitude(mags)
    ref = reference(c, df, corr)
    if np.isnan(m):
        return
    ctx.raises(AttributeError, lambda: Magnitude(params(c, corr, noise_filter=0.0, r2_only_used=False, **filters(c))).mean_magnitude(mags),
               "r2_only_used=False without a noise filter")
    amps, preds, skipped = [], [], 0
    for k, id_ in enumerate(df.index):
        a, (ml, err, d, noise) = df[c["feature"]].iloc[k], ref[k]
        if math.isnan(noise) or math.isnan(a) or not passes(c, id_, df.iloc[k]):
            continue
        f = c["mult"] * 10 ** corr.get(id_, 0.0)
        pred = 10 ** (m - law(c["A0"], d))
        if not a > noise * c["nf"]:
            ratio = pred / (noise * f)
            if abs(ratio - 5) < 1e-6:
                return
            if ratio < 5:
                skipped += 1
                continue
        amps.append(math.log10(a * f))
        preds.append(math.log10(pred))
    ctx.nontrivial(skipped > 0 and len(amps) > 1)
    if c["trace"] or c["exclude"] or c["dist"]:
        ctx.label("filters")
    la, lp = np.array(amps), np.array(preds)
    if len(la) < 2:
        ctx.check(np.isnan(r2), f"r-squared {r2} from fewer than two amplitudes")
    elif np.ptp(la) > 1e-6:
        ctx.close(r2, 1 - np.sum((la - lp) ** 2) / np.sum((la - la.mean()) ** 2), "r-squared", rtol=1e-6, atol=1e-6)


def wrapper(c, ctx):
    """LocalMag: measurement, calculation, file and event carry the same values."""
    from checks import c22_amplitude as c22
    w = c22.World(c["world"])
    A0 = c["A0"] if c["A0"] != "user" else (lambda r: 2.5 + 0.013 * r)
    par = dict(A0=A0, use_hyp_dist=c["hyp"], amp_feature=c["feature"], weighted_mean=c["weighted"], noise_filter=c["nf"])
    amps = w.amp.get_amplitudes(w.event, w.lut)
    root = ctx.tmp()
    run = Run(root, "run", subname="")
    run.stage = "locate"
    ev = c22.World(c["world"]).event
    event, mag = LocalMag(dict(w.params), dict(par), plot_amplitudes=False).calc_magnitude(ev, w.lut, run)
    ctx.check(event is ev, "another event is returned")
    m = Magnitude(dict(par))
    measured = not amps[c["feature"]].isnull().all()
    if measured:
        mags = m.calculate_magnitudes(amps)
        mean_, err, r2, _ = m.mean_magnitude(mags)
    else:
        mags, mean_, err, r2 = amps, np.nan, np.nan, np.nan
    got = [event.localmag[k] for k in ("ML", "ML_Err", "ML_r2")]
    ctx.check(np.allclose([float(v) for v in got], [mean_, err, r2], rtol=1e-9, atol=1e-9, equal_nan=True),
              f"event magnitude {got}, expected {[mean_, err, r2]}")
    ctx.check(np.isclose(mag, mean_, equal_nan=True), "returned magnitude")
    file = os.path.join(str(run.path), "locate", f"{event.uid}.amps") if not os.path.isdir(
        os.path.join(str(run.path), "locate", "amplitudes")) else os.path.join(str(run.path), "locate", "amplitudes", f"{event.uid}.amps")
    df = pd.read_csv(file, dtype=str, keep_default_na=False)
    ctx.equal(list(df.columns), ["id"] + list(mags.columns), "columns of the amplitude file")
    ctx.equal(list(df["id"]), list(mags.index), "rows of the amplitude file")
    for col in mags.columns:
        for a, b in zip(df[col], mags[col]):
            if pd.isnull(b):
                ctx.check(a == "", f"{col}: {a!r} written for a missing value")
            elif isinstance(b, UTCDateTime):
                ctx.check(abs(UTCDateTime(a) - b) < 2e-6, f"{col}: {a} written for {b}")
            elif isinstance(b, (bool, np.bool_)):
                ctx.equal(a, str(bool(b)), col)
            else:
                digits = {"P_freq": 2, "S_freq": 2, "P_filter_gain": 3, "S_filter_gain": 3, "ML": 3, "ML_Err": 3}.get(col, 5)
                ctx.close(float(a), b, f"{col} in the amplitude file", rtol=0.51 * 10.0 ** (1 - digits), atol=1e-300)
    ctx.nontrivial(measured and np.isfinite(mean_))


def wrapper_strat():
    from checks import c22_amplitude as c22
    return fixed(world=c22.strat(), A0=sampled("user", "UK", *LAWS), hyp=st.booleans(), feature=sampled("S_amp", "P_amp"),
                 weighted=st.booleans(), nf=sampled(1.0, 0.0, 3.0))


FILTERS = dict(trace=sampled("", "", "", ".*H[NE]$", "Z$", r"XX\.STA\."), exclude=one_in(3, st.lists(st.integers(0, 5), max_size=3), st.just([])),
               dist=one_in(3, sampled(150.0, 80.0, 10.0), st.just(0)))
MEAN = fixed(**common, nf=sampled(1.0, 0.0, 0.3, 3.0), weighted=st.booleans(), pick=one_in(3, st.just(True), st.just(False)),
             **FILTERS)

FACETS = [
    Facet("individual", lambda: fixed(**common), individual, quick=500, thorough=30000, shards=2,
          rule="at least one observation above the noise at a non-zero distance"),
    Facet("mean", lambda: MEAN, mean, quick=900, thorough=60000, shards=4, rule="at least two observations pass every filter"),
    Facet("r2", lambda: fixed(**common, nf=sampled(1.0, 1.0, 3.0, 0.5), **FILTERS), expected_r2, quick=500, thorough=20000, shards=2,
          rule="an observation below the noise level is left out of the fit"),
    Facet("localmag", wrapper_strat, wrapper, quick=120, thorough=5000, shards=2,
          rule="a finite event magnitude results"),
]
