"""C25: cut waveform files hold exactly the requested data, independent of what was written before."""
import os
from types import SimpleNamespace

import numpy as np
from hypothesis import strategies as st
from obspy import Stream, UTCDateTime, read

import wavekit
from harness import Facet
from qm import EPOCH, same_stream, t_add, trace
from quakemigrate.io import Event, Run
from quakemigrate.io.cut_waveforms import write_cut_waveforms
from quakemigrate.io.data import WaveformData
from strategies import fixed, ints, one_in, rounded, sampled, seeds

ASSUMPTIONS = ["a pre- or post-cut of 0 or None means no cut (documented in the code)",
               "a sample within half a sampling interval of a cut belongs to either side"]

IDS = ["XX.STA..HHZ", "XX.STA..HHN", "XX.B.00.HHE", "XX.B..HH1", "YY.STA..HHZ", "XX.X12..BHZ"]
SUFFIX = {"MSEED": ".m", "SAC": ".sac", "GSE2": ".gse2", "PICKLE": ".waveforms"}

piece = fixed(off=rounded(0, 30, 2), n=one_in(6, st.integers(1, 30), ints(40, 900)))
tr_s = fixed(id=st.integers(0, len(IDS) - 1), kind=sampled(*wavekit.INSTRUMENTS), resp=sampled(True, True, True, False),
             sr=sampled(100, 50, 40, 20, 62.5), pieces=st.lists(piece, min_size=1, max_size=2),
             flat=one_in(8, st.just(True), st.just(False)), dtype=sampled("int32", "float64", "float32"), frac=sampled(0, 0, 0.3))
cut = sampled(None, 0.0, 1.0, 2.5, 7.3, 12.0, 60.0)
out_s = fixed(type=sampled("raw", "real", "wa"), units=sampled("displacement", "velocity"),
              fmt=sampled("MSEED", "MSEED", "MSEED", "PICKLE"), pre=cut, post=cut)


def strat(nout=4):
    return fixed(trs=st.lists(tr_s, min_size=1, max_size=4, unique_by=lambda t: t["id"]),
                 outs=st.lists(out_s, min_size=1, max_size=nout), otime=rounded(-5, 40, 3), seed=seeds,
                 before=st.lists(fixed(tr=st.integers(0, 9), what=sampled("real", "wa"), vel=st.booleans()), max_size=2),
                 wl=sampled(20, 60), full=sampled(False, False, False, True), uid=sampled("20150301010203400", "ev.1a"[:2]),
                 inv=one_in(6, st.just(False), st.just(True)))


def build(c):
    rng = np.random.default_rng(c["seed"])
    stream, entries = Stream(), []
    for t in c["trs"]:
        id_ = IDS[t["id"]]
        n, s, l, ch = id_.split(".")
        free = None
        for p in sorted(t["pieces"], key=lambda p: p["off"]):
            t0 = EPOCH + 3600 + p["off"] + t["frac"] / t["sr"]
            if free is not None and t0 <= free + 2 / t["sr"]:
                continue
            x = wavekit.signal(rng, p["n"]) + 300
            x = np.full(p["n"], 7.0) if t["flat"] else x
            stream += trace(x.astype(t["dtype"]), t0, t["sr"], s, ch, n, l)
            free = stream[-1].stats.endtime
        r = wavekit.response(t["kind"], 400.0)
        if t["resp"]:
            entries.append((id_, r, None, None))
    inv = wavekit.inventory(entries or [("ZZ.ZZ..HHZ", wavekit.response("1hz", 3.0), None, None)])
    data = WaveformData(EPOCH + 3600, EPOCH + 3660, response_inv=inv if c["inv"] else None, water_level=c["wl"],
                        remove_full_response=c["full"])
    data.raw_waveforms = stream
    event = Event(1.0)
    event.uid = c["uid"]
    event.otime = EPOCH + 3600 + c["otime"]
    event.data = data
    return event


def keep(tr, t0, t1):
    """Indices certainly inside and possibly inside [t0, t1] (half a sample either way)."""
    dt = 10**9 / tr.stats.sampling_rate
    t = tr.stats.starttime._ns + np.arange(tr.stats.npts) * dt
    sure, maybe = np.ones(len(t), bool), np.ones(len(t), bool)
    if t0 is not None:
        sure &= t >= t0._ns + 0.5 * dt + 2000
        maybe &= t >= t0._ns - 0.5 * dt - 2000
    if t1 is not None:
        sure &= t <= t1._ns - 0.5 * dt - 2000
        maybe &= t <= t1._ns + 0.5 * dt + 2000
    return sure, maybe


def verify(ctx, c, event, raw, o, got, name):
    """Content of one file (a Stream, possibly empty) against the raw waveforms."""
    t0 = event.otime - o["pre"] if o["pre"] else None
    t1 = event.otime + o["post"] if o["post"] else None
    left = list(got)
    info = {IDS[t["id"]]: t for t in c["trs"]}
    count = 0
    for tr in raw:
        t = info[tr.id]
        sure, maybe = keep(tr, t0, t1)
        if not maybe.any():
            continue
        cand = [g for g in left if g.id == tr.id and maybe[np.clip(k := start(g, tr), 0, tr.stats.npts - 1)] and 0 <= k < tr.stats.npts]
        if o["type"] != "raw":
            x = tr.data[maybe]
            if not t["resp"] or np.ptp(x) == 0 or np.ptp(tr.data[sure]) == 0 if sure.any() else True:
                if t["resp"] and np.ptp(x) != 0:
                    for g in cand:
                        left.remove(g)
                    continue            # a few samples only: either answer
                ctx.check(not cand, f"{name}: {tr.id} has no response or is flat, but is written")
                continue
        elif not sure.any() and not cand:
            continue
        ctx.check(len(cand) == 1, f"{name}: {len(cand)} traces for {tr.id} from {tr.stats.starttime}")
        g = cand[0]
        left.remove(g)
        k, n = start(g, tr), g.stats.npts
        ctx.check(g.stats.sampling_rate == tr.stats.sampling_rate, f"{name}: sampling rate of {tr.id}")
        idx = np.arange(k, k + n)
        ctx.check(k + n <= tr.stats.npts and maybe[idx].all() and set(np.flatnonzero(sure)) <= set(idx),
                  f"{name}: {tr.id} holds samples {k}..{k + n - 1}, expected {np.flatnonzero(sure)[:1]}..{np.flatnonzero(sure)[-1:]}"
                  f" of {tr.stats.npts}")
        if o["type"] == "raw":
            ctx.check(g.data.dtype == tr.data.dtype and np.array_equal(g.data, tr.data[idx]), f"{name}: samples of {tr.id} differ")
        elif n >= 30:
            want = wavekit.corrected(tr.data[idx], t["sr"], t["kind"], 400.0, o["type"], o["units"] == "velocity", c["wl"], None)
            err = np.abs(g.data - want).max() / np.abs(want).max()
            ctx.check(err < 1e-6, f"{name}: {tr.id} differs from the corrected waveform by {err:.2g} of its maximum")
        count += 1
    ctx.check(not left, f"{name}: unexpected traces {[g.id + ' ' + str(g.stats.starttime) for g in left]}")
    return count


def start(g, tr):
    return round((g.stats.starttime._ns - tr.stats.starttime._ns) * tr.stats.sampling_rate / 1e9)


def path(run, event, o):
    return os.path.join(str(run.path), "locate", run.subname, f"{o['type']}_cut_waveforms", event.uid + SUFFIX[o["fmt"]])


def write(run, event, o):
    write_cut_waveforms(run, event, o["fmt"], pre_cut=o["pre"], post_cut=o["post"], waveform_type=o["type"], units=o["units"])


def load(p):
    return read(p) if os.path.exists(p) else Stream()


def check(c, ctx):
    event = build(c)
    raw = event.data.raw_waveforms.copy()
    run = Run(ctx.tmp(), "run", subname=["", "sub"][c["seed"] % 2])
    run.stage = "locate"
    for b in c["before"] if c["inv"] else []:          # e.g. amplitude measurements
        tr = event.data.raw_waveforms[b["tr"] % len(raw)]
        get = event.data.get_real_waveform if b["what"] == "real" else event.data.get_wa_waveform
        try:
            get(tr, velocity=b["vel"])
        except Exception:
            pass
    n = 0
    for o in c["outs"]:
        name = f"{o['type']} {o['units']} {o['fmt']} pre {o['pre']} post {o['post']}"
        p = path(run, event, o)
        if os.path.exists(p):
            os.remove(p)
        if o["type"] != "raw" and not c["inv"]:
            t0, t1 = (event.otime - o["pre"] if o["pre"] else None), (event.otime + o["post"] if o["post"] else None)
            if any(keep(tr, t0, t1)[0].any() and np.ptp(tr.data[keep(tr, t0, t1)[0]]) for tr in raw):
                ctx.raises(AttributeError, lambda: write(run, event, o), f"{name} without an inventory")
                ctx.label("no-inventory")
            continue
        write(run, event, o)
        ctx.check(same_stream(event.data.raw_waveforms, raw), f"{name}: writing altered the raw waveforms of the event")
        got = load(p)
        n += bool(verify(ctx, c, event, raw, o, got, name))
        # alone: the same file
        alone = build(c)
        run2 = Run(ctx.tmp(), "run", subname=run.subname)
        run2.stage = "locate"
        write(run2, alone, o)
        p2 = path(run2, alone, o)
        ctx.check(os.path.exists(p) == os.path.exists(p2) and (not os.path.exists(p) or same_stream(got, read(p2))),
                  f"{name}: the file differs from that written without the outputs before it")
    ctx.nontrivial(n >= 2)


# ------------------------------------------------------------------ other file formats
def strat_fmt():
    return fixed(trs=st.lists(tr_s, min_size=1, max_size=4, unique_by=lambda t: t["id"]), otime=rounded(0, 40, 3), seed=seeds,
                 fmt=sampled("SAC", "SAC", "GSE2", "SEGY"), type=sampled("raw", "raw", "real", "wa"), units=sampled("displacement", "velocity"),
                 pre=cut, post=cut)


def check_fmt(c, ctx):
    """The same waveforms as the miniSEED file holds, as far as the format can tell, in a file of the format's suffix."""
    fmt = c["fmt"]
    trs = [dict(t, dtype="float32" if fmt == "SEGY" else "int32" if fmt == "GSE2" else t["dtype"], pieces=t["pieces"][:1]) for t in c["trs"]]
    o = dict(type="raw" if fmt == "GSE2" else c["type"], units=c["units"], pre=c["pre"], post=c["post"])
    if fmt == "SEGY":
        trs = [dict(t, sr=max(trs[0]["sr"], 40)) for t in trs]       # one rate for the file, which the format can hold
    d = dict(c, trs=trs, before=[], wl=60, full=False, uid="20150301010203400", inv=True)
    event = build(d)
    if fmt == "SEGY":
        raw = event.data.raw_waveforms
        t1 = min((t.stats.endtime for t in raw))
        t0 = max((t.stats.starttime for t in raw))
        if t1 <= t0 or len({t.stats.npts for t in raw}) > 1:
            event.data.raw_waveforms = Stream([raw[0]])
        if o["type"] != "raw":
            o["type"] = "raw"       # corrected waveforms are double precision, which the format cannot hold
    run = Run(ctx.tmp(), "run", subname="s")
    run.stage = "locate"
    write_cut_waveforms(run, event, "MSEED", pre_cut=o["pre"], post_cut=o["post"], waveform_type=o["type"], units=o["units"])
    write_cut_waveforms(run, event, fmt, pre_cut=o["pre"], post_cut=o["post"], waveform_type=o["type"], units=o["units"])
    ref = load(path(run, event, dict(o, fmt="MSEED")))
    folder = os.path.dirname(path(run, event, dict(o, fmt="MSEED")))
    suffix = {"SAC": ".sac", "GSE2": ".gse2", "SEGY": ".segy"}[fmt]
    names = sorted(f for f in (os.listdir(folder) if os.path.isdir(folder) else []) if not f.endswith(".m"))
    ctx.check(all(f.startswith(event.uid) and f.endswith(suffix) for f in names), f"{fmt} files are called {names}")
    ctx.equal(len(names), (len(ref) if fmt == "SAC" else 1) if len(ref) else 0, f"{fmt} files for {len(ref)} traces")
    got = Stream()
    for f in names:
        got += read(os.path.join(folder, f), format=fmt)
    ctx.equal(len(got), len(ref), f"traces in {fmt}")
    for g, r in zip(got, ref):
        if fmt != "SEGY":
            ctx.equal((g.stats.station, g.stats.channel), (r.stats.station, r.stats.channel), f"{fmt}: channel")
        ctx.close(g.stats.sampling_rate, r.stats.sampling_rate, f"{fmt}: sampling rate of {r.id}", rtol=1e-6)
        ctx.check(abs(g.stats.starttime - r.stats.starttime) <= (1.0 if fmt == "SEGY" else 2e-3),
                  lambda: f"{fmt}: {r.id} starts {g.stats.starttime}, not {r.stats.starttime}")
        ctx.close(g.data, r.data, f"{fmt}: samples of {r.id}", rtol={"SAC": 1e-7, "GSE2": 0, "SEGY": 1e-6}[fmt], atol=0)
    ctx.nontrivial(len(ref) > 0)
    ctx.label(fmt)


def strat_locate():
    from checks import c18_locate as c18
    return st.tuples(c18.strat(5, 3), fixed(pre=sampled(None, None, 0.5, 3.0, 12.5, 40.0), post=sampled(None, None, 0.5, 3.0, 12.5, 40.0),
                                            lead=rounded(0, 120, 1), tail=rounded(0, 60, 1), fmt=sampled("MSEED", "MSEED", "PICKLE"))).map(
        lambda t: {**t[0], "cut": t[1], "save": False, "outside": False, "picks": False})


def check_locate(c, ctx):
    """The cut waveforms of a locate() run against the archived samples, whatever the origin time in the window."""
    import lutgen
    from checks import c18_locate as c18
    w = c18.World(c, ctx)
    sr, cut = w.sr, c["cut"]
    lut = lutgen.random_lut(c["grid"], c["m"], c["seed"], phases=c["phases"], tmax=c["ttmax"], names=w.names)
    if np.prod(lut.node_count) == 1:
        return
    if c["ttmax"] == 0:
        for t in lut.traveltimes.values():
            for v in t.values():
                v[:] = 0.0
    onset = c18.e2e.PointOnset(sr, c["phases"], c["pre"], c["extra"], scale=400.0)
    onset.post_pad = lut.max_traveltime
    w.pre, w.post = onset.pad_samples()
    w.place(c["events"], w.pre + 5 + int(cut["lead"] * sr), w.post + 5 + int(cut["tail"] * sr))
    offs = [w.at[i] + int(e["edge"] * w.mws / 2 if e["edge"] else np.rint(e["off"] * w.mws / 2)) for i, e in enumerate(c["events"])]
    model = c18.write_points(w, c, lut, offs)
    which = c18.unique_ids(w, c, ctx)
    picker, out, files = w.run(lut, onset, "run", which, c["mode"], False, attrs=dict(pre_cut=cut["pre"], post_cut=cut["post"]),
                               write_cut_waveforms=True, cut_waveform_format=cut["fmt"])
    folder = out / "raw_cut_waveforms"
    names = sorted(p.name for p in folder.glob("*")) if folder.is_dir() else []
    ctx.equal(names, sorted(u + SUFFIX[cut["fmt"]] for u in picker.order), "cut waveform files of the run")
    dt = 1 / sr
    for u in picker.order:
        ev = picker.events[u]
        got = read(str(folder / (u + SUFFIX[cut["fmt"]])))
        i = next(i for i in which if c18.uid(w.trigger_time(i)) == u)
        # the data of the event's own window are read in any case
        lo = ev.otime - cut["pre"] if cut["pre"] else w.trigger_time(i) - w.mw
        hi = ev.otime + cut["post"] if cut["post"] else w.trigger_time(i) + w.mw
        ka, kb = (lo._ns - w.t0._ns) / 1e9 * sr, (hi._ns - w.t0._ns) / 1e9 * sr
        for (s, ch), x in model.items():
            have = np.full(len(x), np.nan)
            for g in got.select(station=s, channel=ch):
                k = round((g.stats.starttime._ns - w.t0._ns) / 1e9 * sr)
                ctx.check(0 <= k and k + len(g) <= len(x), f"{u}: {g.id} reaches out of the archive")
                ctx.check(np.isnan(have[k:k + len(g)]).all(), f"{u}: overlapping traces of {g.id}")
                have[k:k + len(g)] = g.data
            ctx.check(not (~np.isnan(have) & (have != x)).any(), f"{u}: {s} {ch} samples differ from the archive")
            a, b = int(np.ceil(ka + 0.51)), int(np.floor(kb - 0.51))
            lost = np.flatnonzero(~np.isnan(x[max(a, 0):max(b + 1, 0)]) & np.isnan(have[max(a, 0):max(b + 1, 0)]))
            ctx.check(not len(lost), lambda: f"{u}: {s} {ch} lacks {len(lost)} archived samples from {t_add(w.t0, max(a, 0) + int(lost[0]), sr)}, "
                      f"origin time {ev.otime}, cuts {cut['pre']}, {cut['post']}, trigger {w.trigger_time(i)}")
            at = np.flatnonzero(~np.isnan(have))
            if len(at) and cut["pre"]:
                ctx.check(at[0] >= ka - 0.51, f"{u}: {s} {ch} starts before the pre-cut")
            if len(at) and cut["post"]:
                ctx.check(at[-1] <= kb + 0.51, f"{u}: {s} {ch} ends after the post-cut")
            ctx.nontrivial(len(at) > 0 and bool(cut["pre"] or cut["post"]))
        if ev.otime.date != (ev.otime - (cut["pre"] or 0)).date or ev.otime.date != (ev.otime + (cut["post"] or 0)).date:
            ctx.label("cut over midnight")


# ------------------------------------------------------------------ runs that also measure magnitudes
def strat_mags():
    from checks import c33_planted_ml as c33
    cuts = sampled(None, 0.5, 4.0, 12.0, 25.0, 38.0)
    units = sampled("displacement", "velocity")
    return st.tuples(c33.strat(), fixed(pre=cuts, post=cuts, raw=st.booleans(), real=units, wa=units, mags=st.booleans(),
                                        which=sampled(["real", "wa"], ["real", "wa"], ["real"], ["wa"]), fmt=sampled("MSEED", "PICKLE"))).map(
        lambda t: {**t[0], "post": None, "cut": t[1]})


def check_mags(c, ctx):
    """Raw, real and Wood-Anderson waveforms of one locate() run, each in its own units, with and without magnitudes."""
    import pathlib
    import pandas as pd
    from checks import c33_planted_ml as c33
    root, cut = pathlib.Path(ctx.tmp()), c["cut"]
    p = c33.plant(c, root)
    x = {f"XX.{s}..{ch}": d for s, ch, _, d in p.pieces}
    attrs = dict(pre_cut=cut["pre"], post_cut=cut["post"])
    if not cut["mags"]:
        attrs["mags"] = None
    c33.run(c, root / "a", p.arch, p.lut, p.otime, p.corrections, False, attrs=attrs, write_cut_waveforms=cut["raw"],
            write_real_waveforms="real" in cut["which"], real_waveform_units=cut["real"], write_wa_waveforms="wa" in cut["which"],
            wa_waveform_units=cut["wa"], cut_waveform_format=cut["fmt"])
    ev = list((root / "a").rglob("*.event"))
    ctx.equal(len(ev), 1, "event files")
    ev = pd.read_csv(ev[0], dtype={"EventID": str}).iloc[0]
    ot = UTCDateTime(ev.DT)
    folder = root / "a" / "r" / "locate"
    ctx.equal(sorted(d.name for d in folder.iterdir() if d.name.endswith("_cut_waveforms")),
              sorted(f"{k}_cut_waveforms" for k in [*(["raw"] if cut["raw"] else []), *cut["which"]]), "cut waveform folders")
    for kind in [*(["raw"] if cut["raw"] else []), *cut["which"]]:
        d = folder / f"{kind}_cut_waveforms"
        ctx.equal([f.name for f in d.iterdir()], [ev.EventID + SUFFIX[cut["fmt"]]], f"{kind} files")
        got = read(str(d / (ev.EventID + SUFFIX[cut["fmt"]])))
        ctx.equal(sorted(g.id for g in got), sorted(x), f"{kind} traces")
        for g in got:
            ka, kb = [(t._ns - c33.T0._ns) / 1e9 * p.sr for t in (ot - (cut["pre"] or 0), ot + (cut["post"] or 0))]
            i = round((g.stats.starttime._ns - c33.T0._ns) / 1e9 * p.sr)
            j = i + len(g) - 1
            ctx.check(0 <= i and j < len(x[g.id]), f"{kind} {g.id} reaches out of the archive")
            if cut["pre"]:
                ctx.check(abs(i - max(ka, 0)) <= 0.51, lambda: f"{kind} {g.id} starts at sample {i}, the pre-cut at {ka}")
            if cut["post"]:
                ctx.check(abs(j - min(kb, len(x[g.id]) - 1)) <= 0.51, lambda: f"{kind} {g.id} ends at sample {j}, the post-cut at {kb}")
            raw = x[g.id][i:j + 1]
            if kind == "raw":
                ctx.equal(g.data, raw, f"{kind} samples of {g.id}")
            elif len(raw) >= 30:
                want = wavekit.corrected(raw, p.sr, c["kind"], c["gain"], kind, cut[kind] == "velocity", 60.0, None)
                err = np.abs(g.data - want).max() / np.abs(want).max()
                ctx.check(err < 2e-6, lambda: f"{kind} ({cut[kind]}) {g.id} differs from the corrected waveform by {err:.2g} of its maximum")
                ctx.nontrivial(bool(cut["pre"] or cut["post"]))
    ctx.label("with magnitudes" if cut["mags"] else "without magnitudes")


FACETS = [
    Facet("magnitudes", strat_mags, check_mags, quick=60, thorough=1500, shards=3, rule="corrected waveforms with a cut at one end at least"),
    Facet("locate", strat_locate, check_locate, quick=120, thorough=4000, shards=3, rule="a located event with data and a cut at one end at least"),
    Facet("formats", strat_fmt, check_fmt, quick=150, thorough=3000, shards=2, rule="at least one trace written"),
    Facet("files", strat, check, quick=450, thorough=20000, shards=4,
          rule="at least two files with data are written for one event"),
]
