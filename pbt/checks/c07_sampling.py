"""C07: shifting to the sample grid and resampling keep the timing of the data."""
from fractions import Fraction as F

import numpy as np
from hypothesis import strategies as st
from obspy import Stream, UTCDateTime

import quakemigrate.util as util
from harness import Facet
from qm import EPOCH, same_stream, t_add, trace
from strategies import fixed, ints, one_in, rounded, sampled, seeds

ASSUMPTIONS = ["start times have microsecond resolution (miniSEED)",
               "data passed to resample() start on the target grid, as shift_to_sample() and the "
               "archive reader leave them; sampling rates of at least 1 Hz"]

ANY_RATES = sampled(1, 5, 12.5, 20, 25, 30, 33, 62.5, 40, 50, 60, 64, 75, 100, 128, 200, 250, 500, 512, 1000)


# ---------------------------------------------------------------- shift
def shift_strat():
    tr = fixed(sr=ANY_RATES, k=ints(0, 86400), us=one_in(4, st.just(0), ints(0, 999999)),
               grid=one_in(3, ints(0, 999), st.just(-1)), same=one_in(3, st.just(True), st.just(False)), n=st.integers(1, 60), seed=seeds,
               dtype=sampled("int32", "float64", "float32"), day=ints(0, 800))
    return st.lists(tr, min_size=1, max_size=4)


def make_trace(c, i):
    rng = np.random.RandomState(c["seed"])
    data = (rng.normal(size=c["n"]) * 1000).astype(c["dtype"])
    us = c["us"]
    if c["grid"] >= 0:    # on the grid (to the microsecond)
        k = round(c["k"] * c["sr"]) + c["grid"]
        return trace(data, UTCDateTime(ns=round(t_add(EPOCH + 86400 * c["day"], k, c["sr"])._ns / 1000) * 1000), c["sr"], station=f"S{i}")
    t = EPOCH + 86400 * c["day"] + c["k"] + us / 1e6
    return trace(data, UTCDateTime(ns=round(t._ns / 1000) * 1000), c["sr"], station=f"S{i}")


def on_grid_error(t, sr):
    """Distance of t from the grid of whole samples after midnight, in samples."""
    x = F(t._ns - UTCDateTime(t.date)._ns, 10**9) * sr
    return abs(float(x - round(x)))


def check_shift(c, ctx):
    st_in = Stream([make_trace(x, 0 if x["same"] else i) for i, x in enumerate(c)])
    keep = st_in.copy()
    out = util.shift_to_sample(st_in)
    ctx.check(same_stream(st_in, keep), "input stream modified")
    ctx.equal(len(out), len(st_in), "number of traces")
    moved = 0
    for a, b in zip(keep, out):
        sr = a.stats.sampling_rate
        ctx.equal(b.id, a.id, "trace order/ids")
        ctx.equal(b.stats.sampling_rate, sr, "sampling rate")
        ctx.equal(b.data, a.data, "samples changed by a timing shift")
        d = (b.stats.starttime._ns - a.stats.starttime._ns) / 1e9 * sr
        ctx.check(abs(d) <= 0.5 + 1e-5 * sr / 10, f"moved by {d} samples ({a.stats.starttime}, {sr} Hz)")
        e = on_grid_error(b.stats.starttime, sr)
        ctx.check(e <= 2e-6 * sr, f"{a.stats.starttime} at {sr} Hz shifted to {b.stats.starttime}: "
                  f"{e} samples off the grid")
        if F(a.stats.starttime._ns, 10**9) % (1 / F(sr)) == 0:
            ctx.equal(b.stats.starttime._ns, a.stats.starttime._ns, "on-sample trace was moved")
        moved += abs(d) > 1e-3
    ctx.nontrivial(moved > 0)


def interp_strat():
    return fixed(sr=ANY_RATES, k=ints(0, 3600), frac=one_in(5, st.just(0), st.integers(-49, 49)), n=st.integers(120, 260),
                 cyc=rounded(0.01, 0.1, 3), ph=rounded(0, 6.28, 2), amp=sampled(1.0, 1e-9, 1e6),
                 dtype=sampled("float64", "float64", "int32"))


def check_interp(c, ctx):
    sr = c["sr"]
    amp = 1e6 if c["dtype"] == "int32" else c["amp"]
    f = c["cyc"] * sr
    t0 = t_add(EPOCH, c["k"], sr) + c["frac"] / 100 / sr
    t0 = UTCDateTime(ns=round(t0._ns / 1000) * 1000)
    ref = EPOCH._ns

    def signal(ns):
        return amp * np.sin(2 * np.pi * f * ((ns - ref) / 1e9) + c["ph"])
    ns = t0._ns + np.round(np.arange(c["n"]) * 1e9 / sr).astype(np.int64)
    tr = trace(signal(ns).astype(c["dtype"]), t0, sr)
    st_in = Stream([tr])
    keep = st_in.copy()
    out = util.shift_to_sample(st_in, interpolate=True)
    ctx.check(same_stream(st_in, keep), "input stream modified")
    ctx.equal(len(out), 1, "number of traces")
    o = out[0]
    ctx.equal(len(o.data), c["n"], "number of samples after interpolation")
    ctx.equal(o.stats.sampling_rate, float(sr), "sampling rate")
    e = on_grid_error(o.stats.starttime, sr)
    ctx.check(e <= 2e-6 * sr, f"start time {o.stats.starttime} off the grid by {e} samples")
    d = (o.stats.starttime._ns - t0._ns) / 1e9 * sr
    ctx.check(abs(d) <= 0.5 + 1e-5 * sr, f"start moved by {d} samples")
    if c["frac"] == 0:
        ctx.equal(o.data, tr.data, f"samples of a trace on the grid ({t0}, {sr} Hz)")
        ctx.check(abs(d) <= 1e-6 * sr, f"a trace on the grid was moved by {d} samples")
    m = 30
    ns_o = o.stats.starttime._ns + np.round(np.arange(c["n"]) * 1e9 / sr).astype(np.int64)
    err = np.abs(o.data - signal(ns_o))[m:-m].max() / amp
    ctx.check(err < 0.01, f"interpolated samples are off by {err:.3f} of the amplitude "
              f"(offset {c['frac'] / 100} samples)")
    ctx.nontrivial(c["frac"] != 0)


def short_strat():
    return fixed(sr=ANY_RATES, k=ints(0, 3600), frac=st.integers(-49, 49), n=st.integers(1, 60),
                 seed=seeds, other=st.booleans())


def check_short(c, ctx):
    """Fragments (a few samples between gaps) are moved onto the grid like any other data."""
    sr = c["sr"]
    t0 = t_add(EPOCH, c["k"], sr) + c["frac"] / 100 / sr
    t0 = UTCDateTime(ns=round(t0._ns / 1000) * 1000)
    x = np.random.RandomState(c["seed"]).normal(size=c["n"])
    ins = [trace(x, t0, sr, "A")]
    if c["other"]:
        ins.append(trace(np.arange(80.0), t_add(EPOCH, 7, sr), sr, "B"))
    out = util.shift_to_sample(Stream(ins), interpolate=True)
    ctx.equal(len(out), len(ins), "number of traces")
    o = out[0]
    ctx.equal(len(o.data), c["n"], "number of samples after interpolation")
    ctx.check(on_grid_error(o.stats.starttime, sr) <= 2e-6 * sr, f"{o.stats.starttime} is off the grid")
    d = (o.stats.starttime._ns - t0._ns) / 1e9 * sr
    ctx.check(abs(d) <= 0.5 + 1e-5 * sr, f"start moved by {d} samples")
    ctx.check(np.isfinite(o.data).all() and np.abs(o.data).max() <= 50 * np.abs(x).max(),
              "interpolated values are not bounded by the input")
    if c["n"] == 1:
        ctx.equal(o.data, x, "a single sample changed value")
    if c["other"]:
        ctx.equal(out[1].data, np.arange(80.0), "other trace changed")
    ctx.nontrivial(c["frac"] != 0)


# ---------------------------------------------------------------- resample
def res_strat():
    tr = fixed(mode=sampled("same", "decimate", "decimate", "upsample", "upsample", "upsample", "mismatch"),
               factor=st.integers(2, 6), pick=st.integers(0, 20),
               before=one_in(3, st.integers(-30, -1), sampled(0, 0, 0, 1, 3)),
               after=one_in(3, st.integers(-30, -1), sampled(0, 0, 0, 1, 3)),
               seed=seeds, kind=sampled("noise", "noise", "int", "sine"), scale=sampled(1.0, 1e-6, 1e4))
    return fixed(sr=sampled(20, 25, 40, 50, 100), n=st.integers(60, 200), t0=ints(0, 10**7),
                 traces=st.lists(tr, min_size=1, max_size=3), resample=sampled(True, True, False), up=st.booleans())


UP = {  # target rate -> (input rate, upfactor)
    20: [(8, 5), (5, 4), (16, 5), (50, 2), (4, 5), (30, 2), (30, 4), (75, 4)],
    25: [(10, 5), (20, 5), (40, 5), (5, 5), (30, 5)],
    40: [(50, 4), (25, 8), (20, 2), (100, 2), (10, 4), (30, 4)],
    50: [(40, 5), (20, 5), (25, 2), (80, 5), (125, 2), (30, 5), (75, 2), (60, 5)],
    100: [(40, 5), (50, 2), (80, 5), (250, 2), (20, 5), (125, 4), (30, 10), (75, 4)],
}


def ref_decimate(times0, data, sr_in, sr_out):
    from obspy import Trace
    tr = Trace(data=np.array(data), header={"sampling_rate": sr_in})
    tr.detrend("linear")
    tr.detrend("demean")
    tr.taper(type="cosine", max_percentage=0.05)
    tr.filter("lowpass", freq=sr_out / 2.000001, corners=2, zerophase=True)
    return tr.data[::round(sr_in / sr_out)]


def check_resample(c, ctx):
    sr, n = c["sr"], c["n"]
    start = t_add(EPOCH, c["t0"], sr)
    end = t_add(start, n, sr)
    inputs, expected, up_used, raise_bad = Stream(), {}, None, False
    for i, x in enumerate(c["traces"]):
        rng = np.random.RandomState(x["seed"])
        mode = x["mode"]
        upf = None
        if mode == "same":
            rate = sr
        elif mode == "decimate":
            rate = sr * x["factor"]
        else:
            opts = UP[sr]
            rate, upf = opts[x["pick"] % len(opts)]
            if up_used is not None and up_used != upf:
                continue
            if mode == "upsample":
                up_used = upf
            elif mode == "mismatch":
                if c["resample"]:
                    continue
        # start within the window grid (multiple of the target interval and own interval)
        b = x["before"]
        sub = rate // np.gcd(rate, sr)        # own samples per common period
        if mode in ("same", "decimate"):
            k0 = round(-b * rate / sr)        # on the target grid
            k1 = round((n + x["after"]) * rate / sr)
        else:
            # an archive read returns own samples nearest to the window ends
            if b >= 0:
                k0 = int(np.ceil(((c["t0"] - b) * rate) / sr)) - 0
                k0a = k0
            else:
                k0a = int(np.ceil(((c["t0"] - b) * rate) / (sr * sub))) * sub
            k1a = int(np.floor(((c["t0"] + n + x["after"]) * rate) / sr))
            k0, k1 = k0a, k1a
        if mode in ("same", "decimate"):
            t0 = t_add(EPOCH, c["t0"] * (rate // sr) + k0, rate)
        else:
            t0 = t_add(EPOCH, k0, rate)
            t0 = UTCDateTime(ns=round(t0._ns / 1000) * 1000)
        m = k1 - k0 + 1
        if m < 20:
            continue
        ns = t0._ns + np.round(np.arange(m) * 1e9 / rate).astype(np.int64)
        if x["kind"] == "sine":
            f = 0.04 * min(rate, sr)
            data = x["scale"] * np.sin(2 * np.pi * f * (ns - start._ns) / 1e9 + 0.3)
        elif x["kind"] == "int":
            data = rng.randint(-1000, 1000, m).astype(np.int32)
        else:
            data = x["scale"] * np.cumsum(rng.normal(size=m))
        tr = trace(data, t0, rate, station=f"S{i}")
        inputs += tr
        expected[tr.id] = (mode, rate, upf, ns, data, x)
    if not len(inputs):
        return
    upfactor = up_used if c["resample"] else (5 if c["up"] else None)
    do = c["resample"]
    keep = inputs.copy()
    if do and upfactor is not None:
        for tid, (mode, rate, upf, *_) in expected.items():
            if rate != sr and rate % sr and (rate * upfactor) % sr:
                raise_bad = True
    args = (sr, do, upfactor, start, end)
    if raise_bad:
        ctx.raises(util.BadUpfactorException, lambda: util.resample(inputs, *args), "unsuitable upfactor")
        return
    out = util.resample(inputs, *args)
    ctx.check(same_stream(inputs, keep), "input stream modified by resample()")
    got = {tr.id: tr for tr in out}
    ctx.equal(len(out), len(got), "duplicate traces")
    for tid, (mode, rate, upf, ns, data, x) in expected.items():
        ctx.check(tid in got, f"{tid} ({rate} Hz -> {sr} Hz) lost")
        o = got[tid]
        if rate == sr or mode == "mismatch" or (mode == "upsample" and not do and rate % sr):
            ctx.equal(o.stats.sampling_rate, float(rate), "unresampled trace's rate")
            w = (ns >= start._ns - 10001) & (ns <= end._ns + 10001)
            ctx.equal(o.data, np.asarray(data)[w], f"{tid}: samples of a trace that needs no resampling")
            continue
        ctx.equal(o.stats.sampling_rate, float(sr), f"{tid}: rate after resampling")
        src, src_rate, s_ns = np.asarray(data), rate, ns
        if mode == "upsample" and rate % sr:
            # linear interpolation on the finer grid, constant where the window is up to one
            # sample longer than the data
            fine = rate * upf
            q0, q1 = 0, (len(data) - 1) * upf
            lead = (ns[0] - start._ns) / 1e9
            if 0 < lead < 1 / rate - 1e-9:
                q0 = -round(lead * fine)
            tail = (end._ns - ns[-1]) / 1e9
            if 0 < tail < 1 / rate - 1e-9:
                q1 += round(tail * fine)
            q = np.arange(q0, q1 + 1)
            src = np.interp(q, np.arange(len(data)) * upf, np.asarray(data, dtype=float))
            s_ns = ns[0] + np.round(q * 1e9 / fine).astype(np.int64)
            w = (s_ns >= start._ns - 10001) & (s_ns <= end._ns + 10001)
            src, s_ns, src_rate = src[w], s_ns[w], fine
        ref = ref_decimate(None, src, src_rate, sr)
        r_ns = s_ns[::round(src_rate / sr)]
        w = (r_ns >= start._ns - 10001) & (r_ns <= end._ns + 10001)
        ref, r_ns = ref[w], r_ns[w]
        d = abs(o.stats.starttime._ns - r_ns[0]) / 1e9
        ctx.check(d < 2e-5, f"{tid}: first sample at {o.stats.starttime}, expected {d} s away "
                  f"({rate} -> {sr} Hz)")
        scale = max(float(np.abs(src).max()), 1e-30)
        ctx.close(o.data / scale, ref / scale, f"{tid}: {rate} -> {sr} Hz samples", rtol=0, atol=1e-6)
        # independent of the exact filter: a slow sine keeps its values at its own times
        if x["kind"] == "sine" and len(ref) > 60:
            k = len(ref) // 6
            f = 0.04 * min(rate, sr)
            t = (o.stats.starttime._ns + np.round(np.arange(len(o.data)) * 1e9 / sr) - start._ns) / 1e9
            exp = np.sin(2 * np.pi * f * t + 0.3)
            A = np.c_[exp, np.cos(2 * np.pi * f * t + 0.3), np.ones(len(t)), t][k:-k]
            co = np.linalg.lstsq(A, o.data[k:-k] / x["scale"], rcond=None)[0]
            ctx.check(abs(co[0] - 1) < 0.1 and abs(co[1]) < 0.1,
                      f"{tid}: slow sine distorted/shifted: gain {co[0]:.3f}, quadrature {co[1]:.3f}")
        # a full input covers the requested window completely
        if x["before"] >= 0 and x["after"] >= 0:
            ctx.equal(len(o.data), n + 1, f"{tid}: samples in a fully covered window ({rate} -> {sr} Hz)")
            ctx.label("full:" + mode)
        ctx.nontrivial()
        ctx.label(mode)


FACETS = [
    Facet("shift", shift_strat, check_shift, quick=1500, thorough=60000, shards=2,
          rule="1-4 traces, 17 rates, on- and off-sample starts; non-trivial: a trace had to move"),
    Facet("interpolate", interp_strat, check_interp, quick=700, thorough=20000, shards=2,
          rule="sampled sines with sub-sample offset; non-trivial: off-sample"),
    Facet("fragments", short_strat, check_short, quick=300, thorough=6000, shards=1,
          rule="1-60 samples, off-sample"),
    Facet("resample", res_strat, check_resample, quick=2400, thorough=50000, shards=3,
          rule="1-3 traces to be decimated, upsampled+decimated, kept; full or partial cover of the "
               "window; non-trivial: at least one trace resampled"),
]
