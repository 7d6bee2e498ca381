"""C24: response removal and Wood-Anderson simulation per trace, whatever was requested before."""
import contextlib
import io
import pathlib
import tempfile

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from obspy import Stream

import wavekit
from harness import Facet
from qm import EPOCH, same_stream, t_add, trace
from quakemigrate.io.data import Archive, WaveformData
import quakemigrate.util as util
from strategies import fixed, ints, one_in, rounded, sampled, seeds

ASSUMPTIONS = ["instrument responses are given as poles and zeros (plus, for the full response, their sensitivity)",
               "waveforms are compared to two parts in 10^6 of their largest value (single-precision samples: 10^3)"]

IDS = ["XX.STA..HHZ", "XX.STA..HHN", "XX.STA.00.HHE", "XX.B..HH1", "YY.STA..HHZ", "XX.X12..BHZ"]

tr_s = fixed(id=st.integers(0, len(IDS) - 1), kind=sampled(*wavekit.INSTRUMENTS), gain=sampled(1.0, 400.0, 1e9),
             resp=sampled("yes", "yes", "yes", "none", "ended", "two", "split", "split", "later", "pair", "pair"),
             split=sampled(0.0, 0.0, 0.001, 0.3, 0.999, 1.5), sr=sampled(100, 50, 40.0, 62.5, 20),
             n=one_in(5, st.integers(20, 60), ints(60, 700)), off=st.integers(0, 100),
             dtype=sampled("int32", "float64", "float32"))
req_s = fixed(tr=st.integers(0, 9), what=sampled("real", "wa"), vel=st.booleans())


def strat(ntr=4, nreq=6):
    return fixed(trs=st.lists(tr_s, min_size=1, max_size=ntr, unique_by=lambda t: t["id"]),
                 reqs=st.lists(req_s, min_size=1, max_size=nreq), seed=seeds, wl=rounded(10, 100, 0),
                 pf=sampled(None, [0.05, 0.06, 30, 35], [0.5, 1.0, 5.0, 8.0], [0.1, 0.2, 8, 9]), full=sampled(False, False, True))


def expanded(c):
    """One entry per trace: a "pair" is two traces of one channel, between which the instrument was changed."""
    trs = []
    for t in c["trs"]:
        if t["resp"] == "pair":
            b = t_add(EPOCH + 3600, t["off"] + t["n"] + 25, t["sr"])
            trs.append(dict(t, resp="before", kind="1hz", gain=3.0, b=b))
            trs.append(dict(t, resp="after", off=t["off"] + t["n"] + 50, b=b))
        else:
            trs.append(t)
    return trs


def build(c):
    rng = np.random.default_rng(c["seed"])
    st_, entries = Stream(), []
    for t in expanded(c):
        id_ = IDS[t["id"]]
        n, s, l, ch = id_.split(".")
        x = wavekit.signal(rng, t["n"]) + rng.uniform(-500, 500) + rng.uniform(-1, 1) * np.arange(t["n"])
        t0 = t_add(EPOCH + 3600, t["off"], t["sr"])
        st_ += trace(x.astype(t["dtype"]), t0, t["sr"], s, ch, n, l)
        r = wavekit.response(t["kind"], t["gain"])
        if t["resp"] == "yes":
            entries.append((id_, r, None, None))
        elif t["resp"] == "ended":
            entries.append((id_, r, EPOCH - 86400, EPOCH - 1))
        elif t["resp"] == "two":
            entries.append((id_, wavekit.response("1hz", 3.0), EPOCH - 86400, EPOCH))
            entries.append((id_, r, EPOCH, EPOCH + 86400))
        elif t["resp"] == "split":       # the instrument changes at, during or after the trace
            b = t0 + t["split"] * (t["n"] - 1) / t["sr"]
            other = wavekit.response("1hz", 3.0)
            first, second = (other, r) if t["split"] == 0 else (r, other)
            entries.append((id_, first, EPOCH - 86400, b - 0.0001))
            entries.append((id_, second, b, EPOCH + 86400))
        elif t["resp"] == "before":
            entries.append((id_, r, EPOCH - 86400, t["b"] - 0.0001))
        elif t["resp"] == "after":
            entries.append((id_, r, t["b"], EPOCH + 86400))
        elif t["resp"] == "later":       # no response known when the trace starts
            entries.append((id_, r, t0 + max(t["split"], 0.001) * (t["n"] - 1) / t["sr"] + 0.0001, EPOCH + 86400))
    inv = wavekit.inventory(entries or [("ZZ.ZZ..HHZ", wavekit.response("1hz", 3.0), None, None)])
    return st_, inv


def describe(inv):
    return [(s.zeros, s.poles, s.normalization_factor, c.response.instrument_sensitivity.value)
            for n in inv for sta in n for c in sta for s in c.response.response_stages]


def check(c, ctx):
    stream, inv = build(c)
    data = WaveformData(EPOCH, EPOCH + 7200, stations=None, response_inv=inv, water_level=c["wl"],
                        pre_filt=c["pf"], remove_full_response=c["full"])
    data.raw_waveforms = stream
    data.waveforms = stream.copy()
    requests(c, ctx, data, inv)


def archived(c, ctx):
    """The same requests on waveforms read from an archive holding the correction parameters."""
    stream, inv = build(c)
    with tempfile.TemporaryDirectory() as d:
        d = pathlib.Path(d)
        for i, tr in enumerate(stream):
            f = d / f"{tr.stats.starttime.year}" / f"{tr.stats.starttime.julday:03d}"
            f.mkdir(parents=True, exist_ok=True)
            tr.write(str(f / f"{tr.stats.station}_{i}.m"), format="MSEED")
        names = sorted({tr.stats.station for tr in stream})
        params = {"water_level": c["wl"], "pre_filt": c["pf"], "remove_full_response": c["full"]}
        if c["pf"] is None:
            del params["pre_filt"]
        if not c["full"]:
            del params["remove_full_response"]
        with contextlib.redirect_stdout(io.StringIO()):
            arch = Archive(d, pd.DataFrame({"Name": names}), archive_format="YEAR/JD/STATION", response_inv=inv,
                           response_removal_params=params)
        desc = dict(params)
        t0, t1 = (min(tr.stats.starttime for tr in stream), max(tr.stats.endtime for tr in stream))
        try:
            data = arch.read_waveform_data(t0 - 1, t1 + 1)
        except util.DataGapException:
            return ctx.label("nothing read")
        ctx.equal(params, desc, "response removal parameters given to the archive")
        order = []
        for tr in stream:
            got = [g for g in data.raw_waveforms if g.id == tr.id and g.stats.starttime == tr.stats.starttime]
            ctx.check(len(got) == 1 and got[0].stats.npts == tr.stats.npts, f"{tr.id} was not read back")
            order.append(got[0])
        data.raw_waveforms = Stream(order)
        requests(c, ctx, data, inv)


def requests(c, ctx, data, inv):
    stream = data.raw_waveforms
    waves = data.waveforms.copy()
    raw, desc = stream.copy(), describe(inv)
    pf = c["pf"]
    seen, hist, trs = set(), 0, expanded(c)
    for q in c["reqs"]:
        k = q["tr"] % len(stream)
        t, tr = trs[k], stream[k]
        get = data.get_real_waveform if q["what"] == "real" else data.get_wa_waveform
        name = f"{q['what']} {'velocity' if q['vel'] else 'displacement'} of {tr.id}"
        if t["resp"] in ("none", "ended", "later"):
            ctx.raises(util.ResponseNotFoundError, lambda: get(tr, velocity=q["vel"]), f"{name} without a response")
            ctx.label("no-response")
        else:
            out = get(tr, velocity=q["vel"])
            want = wavekit.corrected(raw[k].data, t["sr"], t["kind"], t["gain"], q["what"], q["vel"], c["wl"], pf)
            ctx.check(out.id == tr.id and out.stats.starttime == raw[k].stats.starttime
                      and out.stats.sampling_rate == raw[k].stats.sampling_rate and out.stats.npts == raw[k].stats.npts,
                      f"{name}: identity or timing of the trace changed")
            scale = np.abs(want).max()
            err = np.abs(out.data - want).max() / scale
            ctx.check(err < (1e-3 if t["dtype"] == "float32" else 2e-6), f"{name}: differs from the corrected waveform by {err:.2g} of its maximum (request "
                      f"{len(seen)})")
            ctx.check(not np.shares_memory(out.data, tr.data), f"{name} shares its samples with the raw trace")
            out.data[:] = 0            # what a caller does with a result is its own affair
            seen.add((k, q["what"], q["vel"]))
            hist += 1
        ctx.check(same_stream(stream, raw), f"{name} altered the raw waveforms")
    ctx.check(same_stream(data.waveforms, waves), "correction altered the waveforms used for migration")
    ctx.check(describe(inv) == desc, "correction altered the response inventory")
    ctx.check(c["wl"] == data.water_level and data.pre_filt == pf, "correction parameters changed")
    ctx.nontrivial(hist >= 2 and len(seen) >= 2)


def invalid(c, ctx):
    """No inventory: the documented error; then still usable."""
    stream, inv = build(c)
    data = WaveformData(EPOCH, EPOCH + 7200, water_level=c["wl"], pre_filt=c["pf"])
    data.raw_waveforms = stream
    raw = stream.copy()
    for vel in (True, False):
        ctx.raises(AttributeError, lambda: data.get_real_waveform(stream[0], velocity=vel), "no inventory")
        ctx.raises(AttributeError, lambda: data.get_wa_waveform(stream[0], velocity=vel), "no inventory")
    ctx.check(same_stream(stream, raw), "raw waveforms altered")
    ctx.nontrivial()


FACETS = [
    Facet("history", strat, check, quick=700, thorough=30000, shards=3,
          rule="at least two requests with a response, of different trace, type or units"),
    Facet("archive", strat, archived, quick=200, thorough=8000, shards=3,
          rule="at least two requests with a response, of different trace, type or units"),
    Facet("noinv", strat, invalid, quick=60, thorough=1000, rule="always"),
]
