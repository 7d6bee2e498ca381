"""C30: time <-> sample arithmetic against exact rational arithmetic."""
from fractions import Fraction as F
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from obspy import UTCDateTime

import quakemigrate.util as util
from harness import Facet
from quakemigrate.io.event import Event
from quakemigrate.signal.onsets import STALTAOnset
from strategies import fixed, ints, one_in, rounded, sampled, seeds

RATES = sampled(1, 2, 5, 10, 20, 25, 30, 40, 50, 60, 64, 75, 80, 100, 120, 125, 128, 200, 250, 256,
                500, 512, 1000)


def pieces():
    return fixed(sr=RATES, ks=st.lists(ints(0, 40000), min_size=1, max_size=4),
                 off=ints(-400, 400))


def build_time(c):
    """A duration of exactly sum(ks) samples, accumulated in floating point."""
    t = 0.0
    for k in c["ks"]:
        t += k / c["sr"]
    return t, sum(c["ks"])


def check_time2sample(c, ctx):
    t, k = build_time(c)
    ctx.equal(util.time2sample(t, c["sr"]), k, f"time2sample({t!r}, {c['sr']})")
    t2 = (k + c["off"] / 1000) / c["sr"]
    if t2 >= 0:
        ctx.equal(util.time2sample(t2, c["sr"]), k, f"time2sample({t2!r}, {c['sr']}) (nearest)")
    ctx.nontrivial(t * c["sr"] != k or c["off"] != 0)


def check_trim2sample(c, ctx):
    t, k = build_time(c)
    r = util.trim2sample(t, c["sr"])
    ctx.check(abs(F(r) * c["sr"] - k) < F(1, 10**6),
              f"trim2sample({t!r}, {c['sr']}) = {r!r}: {float(F(r) * c['sr'])} samples, not {k}")
    t2 = (k + abs(c["off"]) / 1000) / c["sr"]
    r = util.trim2sample(t2, c["sr"])
    n = F(r) * c["sr"]
    ctx.check(abs(n - round(n)) < F(1, 10**6), f"trim2sample({t2!r}, {c['sr']}) = {r!r}: not whole samples")
    exp = k if c["off"] == 0 else k + 1
    ctx.equal(round(n), exp, f"samples in trim2sample({t2!r}, {c['sr']}) = {r!r}")
    ctx.nontrivial(k > 0)


def pad_strat():
    return fixed(sr=RATES, p=st.tuples(ints(1, 300), ints(1, 2000)),
                 s=st.tuples(ints(1, 300), ints(1, 2000)),
                 tt=rounded(0, 80, 3), span=rounded(0.1, 900, 2))


def check_pad(c, ctx):
    sr = c["sr"]
    win = {ph: [c[k][0] / 100, (c[k][0] + c[k][1]) / 100] for ph, k in (("P", "p"), ("S", "s"))}
    on = STALTAOnset(sampling_rate=sr, sta_lta_windows=win)
    on.post_pad = c["tt"]
    pre, post = on.pad(c["span"])
    for name, v in (("pre", pre), ("post", post)):
        n = F(float(v)) * sr
        ctx.check(abs(n - round(n)) < F(1, 10**6),
                  f"{name}-pad {v!r} s is not a whole number of samples at {sr} Hz")
    lta = max(w[1] for w in win.values())
    sta = max(w[0] for w in win.values())
    ctx.check(pre >= lta + 3 * sta - 1e-9, f"pre-pad {pre} shorter than the onset windows")
    ctx.check(post >= c["tt"] + 2 * lta - 1e-9, f"post-pad {post} shorter than traveltime + LTA")
    taper = 0.05 * (c["span"] + pre + post)
    ctx.check(pre - taper >= lta - 1e-6, f"taper reaches into the scanned window (pre-pad {pre})")
    ctx.check(post - taper >= c["tt"] - 1e-6, f"taper reaches into the scanned window (post-pad {post})")
    # not excessive: one extra second / sample on top of the 6 % allowance
    want = on.pre_pad + math.ceil((c["span"] + on.pre_pad + on.post_pad) * 0.06 - 1e-9)
    ctx.check(want - 1e-6 <= pre <= want + 1 / sr + 1 + 1e-6, f"pre-pad {pre}, expected {want}")
    ctx.nontrivial()


def mw_strat():
    return fixed(sr=RATES, k=ints(1, 800), us=one_in(2, ints(0, 86399999999), ints(0, 86399).map(lambda x: x * 10 ** 6)),
                 frac=one_in(2, st.just(0), rounded(-0.45, 0.45, 2)))


def check_mw(c, ctx):
    """Every sample nearest to trigger time +/- 2 x marginal window, at its time on the sample grid (counted from midnight)."""
    sr = c["sr"]
    mw = (c["k"] + c.get("frac", 0) / 2) / (2 * sr)  # 4 mw is 2 k + frac samples
    t = UTCDateTime(2020, 2, 29) + c["us"] / 1e6
    ev = Event(mw, pd.Series({"EventID": "x", "CoaTime": t, "TRIG_COA": 1.0, "COA": 1.0, "COA_NORM": 1.0}))
    times = ev.mw_times(sr)
    ctx.equal(len(times), 2 * c["k"] + 1, f"timestamps in +/-2 x {mw!r} s at {sr} Hz")
    start = F(t._ns, 10 ** 9) - 2 * F(mw)
    first = F(times[0]._ns, 10 ** 9)
    ctx.check(abs(first - start) <= F(1, 2 * sr) + F(2, 10 ** 6),
              lambda: f"first timestamp {times[0]} for a window from {float(start - first)} s later")
    days = first - F(UTCDateTime(times[0].date)._ns, 10 ** 9)
    ctx.check(abs(days * sr - round(days * sr)) <= F(sr, 10 ** 6), lambda: f"first timestamp {times[0]} is off the sample grid")
    for i in (1, c["k"], len(times) - 1):
        d = abs(F(times[i]._ns, 10 ** 9) - first - F(i, sr))
        ctx.check(d < F(2, 10 ** 6), lambda: f"timestamp {i} off by {float(d)} s")
    ctx.nontrivial()
    ctx.label("on grid" if c["us"] * sr % 10 ** 6 == 0 else "off grid")


def gauss_strat():
    return fixed(n=st.lists(st.integers(1, 7), min_size=3, max_size=3), s=st.lists(rounded(0.3, 4, 2), min_size=3,
                 max_size=3), scalar=st.booleans(), a=rounded(-5, 5, 2), b=rounded(-5, 5, 2))


def check_gauss(c, ctx):
    sg = c["s"][0] if c["scalar"] else c["s"]
    f = util.gaussian_3d(*c["n"], sg)
    s = [c["s"][0]] * 3 if c["scalar"] else c["s"]
    exp = np.empty(c["n"])
    for i in np.ndindex(*c["n"]):
        exp[i] = math.exp(-sum((i[k] - (c["n"][k] - 1) / 2) ** 2 / (2 * s[k] ** 2) for k in range(3)))
    ctx.close(f, exp, "gaussian_3d", rtol=1e-10, atol=1e-300)
    x = np.linspace(-6, 6, 25)
    g = util.gaussian_1d(x, c["a"], c["b"], s[1])
    ctx.close(g, [c["a"] * math.exp(-((v - c["b"]) ** 2) / (2 * s[1] ** 2)) for v in x], "gaussian_1d",
              rtol=1e-10, atol=1e-300)
    ctx.nontrivial()


def date_strat():
    return fixed(day=ints(1, 20000), us=ints(0, 86399999), prec=st.integers(1, 6))


def check_date(c, ctx):
    """Tick labels show the requested number of sub-second digits of the tick's own time."""
    import datetime
    from matplotlib.dates import date2num, num2date
    dt = datetime.datetime(1970, 1, 1) + datetime.timedelta(days=c["day"], milliseconds=c["us"])
    x = date2num(dt)
    back = num2date(x)
    got = util.DateFormatter("%H:%M:%S.{ms}", c["prec"])(x)
    exp = back.strftime("%H:%M:%S.") + f"{back.microsecond:06d}"[:c["prec"]]
    ctx.equal(got, exp, "tick label")
    ctx.nontrivial(c["us"] % 1000 != 0)


FACETS = [
    Facet("time2sample", pieces, check_time2sample, quick=3000, thorough=100000,
          rule="sums of up to 4 multiples of the sample interval at 23 rates, +-0.4 sample; "
               "non-trivial: floating-point product is not the exact integer, or off-grid"),
    Facet("trim2sample", pieces, check_trim2sample, quick=3000, thorough=100000,
          rule="same durations; non-trivial: positive duration"),
    Facet("pad", pad_strat, check_pad, quick=2000, thorough=60000,
          rule="STA/LTA windows (10 ms grid), traveltimes, timespans, rates"),
    Facet("mw_times", mw_strat, check_mw, quick=700, thorough=30000, shards=2,
          rule="marginal windows and trigger times, on and off the sample grid",
          corpus=[{"sr": 50, "k": 57, "us": 0}]),
    Facet("gauss", gauss_strat, check_gauss, quick=500, thorough=5000, rule="grid shapes and widths"),
    Facet("ticks", date_strat, check_date, quick=800, thorough=10000, rule="dates 1970-2024, 1-6 digits"),
]
