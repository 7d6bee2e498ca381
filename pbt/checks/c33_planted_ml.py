"""C33: the magnitude of a planted earthquake comes back from locate()."""
import pathlib
from types import SimpleNamespace

import numpy as np
import pandas as pd
from obspy import UTCDateTime
from obspy.geodetics import gps2dist_azimuth
from hypothesis import strategies as st

import e2e
import pipekit
import wavekit
from checks.c23_magnitude import LAWS, law
from harness import Facet
from qm import t_add
from quakemigrate import QuakeScan
from quakemigrate.signal.local_mag import LocalMag
from quakemigrate.signal.pickers import GaussianPicker
from strategies import fixed, ints, one_in, rounded, sampled, seeds

ASSUMPTIONS = ["clear earthquakes (peak 40 times the noise at every station) at a grid node; tolerance 0.08 for the "
               "magnitude of an event given the reported hypocentre, 0.15 for one trace (noise)"]

T0 = UTCDateTime(2021, 2, 3, 23, 59, 30)
F, TAU = 5.0, 0.25      # Hz, s


def strat():
    return fixed(seed=seeds, sr=sampled(50, 100), m=st.integers(4, 6), units=sampled("km", "m"), proj=sampled("lcc", "tmerc"),
                 n=st.tuples(sampled(8, 9), sampled(8, 9), sampled(6, 7)).map(list), node=ints(0, 10**6), spacing=sampled(2.0, 1.0),
                 M=rounded(-1, 4, 2), A0=sampled("user", "UK", *LAWS), hyp=st.booleans(), feature=sampled("S_amp", "S_amp", "P_amp"),
                 kind=sampled(*wavekit.INSTRUMENTS), gain=sampled(400.0, 1.0, 5e8), corr=st.booleans(), weighted=st.booleans(),
                 filt=sampled(None, None, "hp", "bp"), mult=sampled(1.0, 1000.0), pick=st.booleans(), full=one_in(4, st.just(True), st.just(False)),
                 k=sampled(1, -1, 2), loc=sampled("spline", "gaussian"), measure=sampled("RMS", "STD", "ENV"), swin=sampled(0.0, 1.0, 3.0, 8.0),
                 threads=st.integers(1, 3), post=sampled(None, 5.0, 12.0, 25.0), pre=sampled(None, 0.5, 5.0, 25.0), dist=sampled(False, False, "half"), out=sampled(None, None, "station", "component"),
                 shift=one_in(3, st.just(0.0), rounded(-0.5, 0.5, 2)), noise_s=sampled(2.0, 6.0))


def wavelet(t):
    return np.where(t >= 0, np.sin(2 * np.pi * F * t) * np.exp(-np.maximum(t, 0) / TAU), 0.0)


def counts(u, sr, kind, gain):
    """Raw counts of an instrument for ground displacement u (m)."""
    zeros, poles = wavekit.INSTRUMENTS[kind]
    n = 2 * len(u)
    f = np.fft.rfftfreq(n, 1 / sr)
    h = wavekit.transfer(list(zeros) + [0j], poles, f) * wavekit.norm(kind)
    return np.fft.irfft(np.fft.rfft(u, n) * h, n)[:len(u)] * gain


def swing_of(x):
    """Half the largest difference between neighbouring extrema."""
    d = np.diff(x)
    e = np.r_[True, d[:-1] * d[1:] < 0, True]
    return np.abs(np.diff(x[np.flatnonzero(e)])).max() / 2


def run(c, root, arch, lut, otime, corrections, dist_filter, attrs=None, **kwargs):
    on = pipekit.onset(c["sr"])
    amp = dict(signal_window=c["swin"], noise_window=c["noise_s"], noise_measure=c["measure"], loc_method=c["loc"])
    if c["filt"] == "hp":
        amp.update(highpass_filter=True, highpass_freq=1.0)
    elif c["filt"] == "bp":
        amp.update(bandpass_filter=True, bandpass_lowcut=1.0, bandpass_highcut=15.0)
    A0 = (lambda r: 2.5 + 0.013 * r) if c["A0"] == "user" else c["A0"]
    mags = LocalMag(amp, dict(A0=A0, use_hyp_dist=c["hyp"], amp_feature=c["feature"], station_corrections=corrections,
                              amp_multiplier=c["mult"], trace_filter=".*H[NE]$" if c["feature"] == "S_amp" else ".*HZ$",
                              weighted_mean=c["weighted"], pick_filter=c["pick"], dist_filter=dist_filter,
                              station_filter=["STA"] if c["out"] == "station" else None), plot_amplitudes=False)
    root.mkdir()
    trig = root / "trig.csv"
    tt = t_add(otime, round(c["shift"] * c["sr"]), c["sr"])       # a trigger up to half a marginal window off
    trig.write_text("EventID,CoaTime,TRIG_COA,COA_X,COA_Y,COA_Z,COA,COA_NORM\n"
                    f"{tt.strftime('%Y%m%d%H%M%S') + '%03d' % (tt.microsecond // 1000)},{tt},2,10,45,0,2,2\n")
    q = QuakeScan(arch, lut, onset=on, picker=GaussianPicker(onset=on, plot_picks=False), mags=mags, run_path=str(root),
                  run_name="r", log=False, threads=c["threads"], marginal_window=1.0, plot_event_summary=False,
                  **{"write_cut_waveforms": False, **kwargs})
    if c["post"] is not None:
        q.pre_cut, q.post_cut = c["pre"], c["post"]
    for k, v in (attrs or {}).items():
        setattr(q, k, v)
    q.locate(trigger_file=str(trig))
    ev, amps = [list(root.rglob(g)) for g in ("*.event", "*.amps")]
    return (pd.read_csv(ev[0], dtype={"EventID": str}).iloc[0] if ev else None,
            pd.read_csv(amps[0], index_col=0) if amps else None)


def plant(c, root):
    """The archive, lookup table and instrument responses of one planted earthquake."""
    sr = c["sr"]
    lut = pipekit.network_lut(c["seed"], c["n"], c["m"], units=c["units"], proj=c["proj"], spacing=c["spacing"])
    names = list(lut.traveltimes)
    rng = np.random.RandomState(c["seed"])
    total = round(90 * sr)
    h, node = c["node"], []
    for v in lut.node_count:
        node.append(2 + h % (int(v) - 4))
        h //= 97
    k = round(40 * sr)
    otime = t_add(T0, k, sr)
    lon, lat, z = lut.index2coord(np.array([node]))[0]
    km = 1000 / lut.unit_conversion_factor
    t = np.arange(round(20 * sr)) / sr - 5
    unit = swing_of(wavekit.simulate_wa(wavelet(t), sr)) * 1000        # WA millimetres for 1 m
    corrections, pieces, planted, dists = {}, [], {}, {}
    tt = np.arange(total) / sr
    phase = {"HHZ": "P", "HHN": "S", "HHE": "S"}
    for i, s in enumerate(names):
        row = lut.station_data.iloc[i]
        epi = gps2dist_azimuth(lat, lon, row.Latitude, row.Longitude)[0] / 1000
        d = np.hypot(epi, (z - row.Elevation) / km) if c["hyp"] else epi
        dists[s] = d
        for ch in pipekit.COMPS:
            id_ = f"XX.{s}..{ch}"
            cor = round(float(rng.uniform(-0.5, 0.5)), 3) if c["corr"] else 0.0
            if cor:
                corrections[id_] = cor
            # displacement amplitude of the planted magnitude; amp_multiplier is applied to the measured amplitude
            A = 10 ** (c["M"] - law(c["A0"], d) - cor) / c["mult"] / unit
            if c["out"] and s == "STA" and (c["out"] == "station" or ch == "HHE"):
                A *= 30         # an outlier: excluded by the filter, or seen in ML_Err
            planted[id_] = A * unit
            u = A * wavelet(tt - k / sr - lut.traveltimes[s][phase[ch]][tuple(node)])
            v = A * 2 * np.pi * F / 40 * rng.normal(size=total)
            noise = np.cumsum(v - v.mean()) / sr
            pieces.append((s, ch, T0, counts(u + noise - np.linspace(noise[0], noise[-1], total), sr, c["kind"], c["gain"])))
    e2e.write_archive(root / "arch", pieces, sr)
    inv = wavekit.inventory([(f"XX.{s}..{ch}", wavekit.response(c["kind"], c["gain"]), None, None) for s, ch, _, _ in pieces])
    rm = dict(water_level=60.0, remove_full_response=c["full"])
    arch = e2e.archive(root / "arch", names, response_inv=inv, **rm)
    return SimpleNamespace(**locals())


def check(c, ctx):
    root = pathlib.Path(ctx.tmp())
    p = plant(c, root)
    lut, names, pieces, planted, dists, corrections = p.lut, p.names, p.pieces, p.planted, p.dists, p.corrections
    sr, otime, arch, inv, rm, km = p.sr, p.otime, p.arch, p.inv, p.rm, p.km
    df = False
    if c["dist"] == "half":
        o = sorted(dists.values())
        df = round((o[-1] + o[-2]) / 2, 3)
    if c["out"] == "component":
        corrections["XX.STA..HHE"] = corrections.get("XX.STA..HHE", 0.0) - np.log10(30.0)
    ev, amps = run(c, root / "a", arch, lut, otime, corrections, df)
    ctx.check(ev is not None and amps is not None, "no event or no amplitudes")
    ctx.equal(sorted(amps.index), sorted(planted), "one row of amplitudes per trace")
    ids = [i for i in amps.index if (i[-1] in "NE") == (c["feature"] == "S_amp")]
    # distances from the location in the event file
    loc = [ev[v] for v in (["X", "Y", "Z"] if c["loc"] == "spline" else ["GAU_X", "GAU_Y", "GAU_Z"])]
    there = {}
    for i, s in enumerate(names):
        row = lut.station_data.iloc[i]
        epi, dz = gps2dist_azimuth(loc[1], loc[0], row.Latitude, row.Longitude)[0] / 1000, (loc[2] - row.Elevation) / km
        there[s] = np.hypot(epi, dz) if c["hyp"] else epi
        for i_ in ids:
            if i_.split(".")[1] == s:
                ctx.close(amps.loc[i_, "epi_dist"], epi, f"epicentral distance of {i_}", rtol=1e-4, atol=2e-3)
                ctx.close(amps.loc[i_, "z_dist"], dz, f"vertical distance of {i_}", rtol=1e-4, atol=2e-3)
    ctx.check(not amps.loc[ids, ["Noise_amp", c["feature"], c["feature"][0] + "_avg_amp"]].isnull().any(axis=None),
              lambda: f"no measurement on a complete record: {amps.loc[ids].to_string()}")
    used = [s for s in names if not (df and there[s] > df) and not (c["out"] == "station" and s == "STA")]
    err = [np.log10(amps.loc[i, c["feature"]] / planted[i]) for i in ids]
    ctx.check(np.abs(err).max() <= 0.15, lambda: f"measured amplitudes {[(i, amps.loc[i, c['feature']], planted[i]) for i in ids]}")
    ctx.nontrivial()
    if df and min(abs(v - df) for v in there.values()) < 0.01:
        ctx.label("distance on the edge of the filter")
        return
    # the planted magnitude, seen from the reported hypocentre
    terms = [law(c["A0"], there[s]) - law(c["A0"], dists[s]) for s in used]
    want = c["M"] + np.mean(terms)
    if c["weighted"]:       # the weights are not predicted: between the smallest and the largest station magnitude
        want = np.clip(ev.ML, c["M"] + min(terms), c["M"] + max(terms))
    ctx.label(f"ML within %.2f" % (np.ceil(abs(ev.ML - want) * 100) / 100), "trace within %.2f" % (np.ceil(np.abs(err).max() * 20) / 20))
    ctx.check(abs(ev.ML - want) <= 0.08, f"ML {ev.ML} for a planted magnitude {c['M']} ({want:.3f} at the reported hypocentre)")
    if c["loc"] == "spline":
        ctx.check(abs(ev.ML - c["M"]) <= 0.4, f"ML {ev.ML} for a planted magnitude {c['M']}")
    spread = [law(c["A0"], there[s]) - law(c["A0"], dists[s]) for s in used]
    ctx.check(ev.ML_Err <= 0.12 + np.ptp(spread), f"ML_Err {ev.ML_Err}, spread of the distance terms {np.ptp(spread):.3f}")
    # counts times ten to the k: the same event, k units larger
    e2e.write_archive(root / "arch2", [(s, ch, a, x * 10.0 ** c["k"]) for s, ch, a, x in pieces], sr)
    arch2 = e2e.archive(root / "arch2", names, response_inv=inv, **rm)
    ev2, _ = run(c, root / "b", arch2, lut, otime, corrections, df)
    ctx.check(ev2 is not None, "no event after scaling the waveforms")
    for col in ev.index:
        if col == "ML":
            ctx.close(ev2[col], ev[col] + c["k"], "ML after scaling the waveforms by ten to the k", rtol=0, atol=0.0151 if abs(ev.ML) < 10 else 0.2)
        elif col not in ("ML_Err", "ML_r2"):
            if isinstance(ev[col], str):
                ctx.equal(ev2[col], ev[col], f"{col} after scaling the waveforms")
            else:
                ctx.close(ev2[col], ev[col], f"{col} after scaling the waveforms", rtol=1e-5, atol=2e-5)


FACETS = [Facet("planted", strat, check, quick=40, thorough=800, shards=4, rule="every case: a planted event was located")]
