"""C34: every run that asks for a log file gets one, holding that run's messages and no other's."""
import contextlib
import io
import logging
import pathlib

import numpy as np
from hypothesis import strategies as st
from obspy import UTCDateTime

import e2e
import pipekit
import quakemigrate.util as util
from harness import Facet
from qm import t_add
from quakemigrate import QuakeScan, Trigger
from quakemigrate.io import Run
from quakemigrate.signal.pickers import GaussianPicker
from strategies import fixed, ints, one_in, sampled, seeds

ASSUMPTIONS = ["log file names carry the time to the second; runs of the same name within the same second share a file",
               "runs of a process follow each other"]


@contextlib.contextmanager
def console():
    """Logging as in a fresh process, with standard output kept; everything is put back afterwards."""
    root = logging.getLogger()
    keep, level, off = root.handlers[:], root.level, logging.root.manager.disable
    root.handlers[:] = []
    logging.disable(logging.NOTSET)
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            yield out
    finally:
        for h in root.handlers:
            h.close()
        root.handlers[:] = keep
        root.setLevel(level)
        logging.disable(off)


def logs(path, stage, sub, name):
    d = path / stage / sub / "logs"
    return sorted(d.glob(f"{name}_[0-9][0-9][0-9][0-9]-*.log")) if d.is_dir() else []


# --------------------------------------------------------------- the logger itself
def strat():
    op = fixed(stage=sampled("detect", "trigger", "locate"), sub=sampled("", "", "b", "x.y"), name=sampled("r", "r", "my.run"), log=one_in(2, st.just(True), st.booleans()),
               level=sampled("info", "info", "debug", None), n=st.integers(0, 4))
    return fixed(ops=st.lists(op, min_size=1, max_size=7))


def check(c, ctx):
    top = pathlib.Path(ctx.tmp())
    want, shown = {}, []
    clean = lambda x: x.replace(".", "_")       # noqa: E731
    with console() as out:
        for i, o in enumerate(c["ops"]):
            run = Run(top, o["name"], o["sub"], o["stage"], **({} if o["level"] is None else {"loglevel": o["level"]}))
            run.logger(o["log"])
            texts = [f"message {i}.{k} of operation" for k in range(o["n"])]
            for k, t in enumerate(texts):
                (logging.debug if k % 2 else logging.info)(t)
            got = [t for k, t in enumerate(texts) if not k % 2 or o["level"] == "debug"]
            shown += got
            sub, name = clean(o["sub"]), clean(o["name"])
            if o["log"]:
                want.setdefault((name, o["stage"], sub), []).extend(got)
    pick = lambda s: [x for x in s.splitlines() if x.startswith("message ")]        # noqa: E731
    ctx.equal(pick(out.getvalue()), shown, "messages on standard output")
    have = {p for p in top.rglob("*") if p.is_file()}
    for (name, stage, sub), msgs in want.items():
        full = name + ("_" + sub if sub else "")
        files = logs(top / name, stage, sub, full)
        ctx.check(bool(files), lambda: f"no log file for {full} {stage}")
        text = "".join(f.read_text() for f in files)
        ctx.equal(pick(text), msgs, f"messages in the log of {full} {stage}")
        ctx.check(f"Name: {full}" in text, "run name missing in its log")
        have -= set(files)
    ctx.equal(sorted(map(str, have)), [], "other files written")
    ctx.nontrivial(len(want) > 1)
    ctx.label(f"{len(want)} logs")


# --------------------------------------------------------------- the stages
def strat_stages():
    op = fixed(stage=sampled("detect", "trigger", "locate"), sub=sampled("", "b"), log=one_in(3, st.just(True), st.booleans()),
               level=sampled("info", "debug"), range=st.tuples(st.integers(0, 3), st.integers(1, 4)).map(list))
    return fixed(seed=seeds, ops=st.lists(op, min_size=1, max_size=3), date=ints(0, 3000))


def check_stages(c, ctx):
    sr, total = 40, 100 * 40
    root = pathlib.Path(ctx.tmp())
    lut = pipekit.network_lut(c["seed"], [5, 5, 5], 3)
    names = list(lut.traveltimes)
    rng = np.random.RandomState(c["seed"])
    t0 = t_add(UTCDateTime(2015, 1, 1) + 86400 * c["date"], 36000 * sr, sr)
    sources = [((2, 2, 2), 40 * sr, 30.0), ((1, 3, 2), 60 * sr, 30.0)]
    tr = pipekit.waveforms(lut, names, sr, total, sources, rng)
    e2e.write_archive(root / "arch", [(s, ch, t0, x) for (s, ch), x in tr.items()], sr)
    arch = e2e.archive(root / "arch", names)
    seen = {}
    ops = [dict(stage="detect", sub="", log=False, level="info", range=[0, 4])] + c["ops"]
    if c["seed"] % 2:
        ops.insert(1, dict(stage="trigger", sub="", log=True, level="info", range=[0, 4]))
    with console():
        for o in ops:
            a = t_add(t0, (30 + 10 * o["range"][0]) * sr, sr)
            b = t_add(a, min(10 * o["range"][1], 40 - 10 * o["range"][0]) * sr - 1, sr)
            kw = dict(log=o["log"], loglevel=o["level"])
            marks = set()
            sub = "" if o["stage"] == "detect" else o["sub"]
            if b <= a:
                continue
            try:
                if o["stage"] == "trigger":
                    t = Trigger(lut, str(root), "r", trigger_name=sub, threshold_method="static", static_threshold=2.0, marginal_window=1.0,
                                min_event_interval=6.0, pad=10.0, plot_trigger_summary=False, **kw)
                    t.trigger(str(a), str(b))
                else:
                    on = pipekit.onset(sr, "classic")
                    extra = dict(run_subname=sub) if o["stage"] == "locate" else {}
                    q = QuakeScan(arch, lut, onset=on, picker=GaussianPicker(onset=on, plot_picks=False), run_path=str(root), run_name="r", timestep=20.0,
                                  marginal_window=1.0, threads=1, plot_event_summary=False, write_cut_waveforms=False, **extra, **kw)
                    old = {f.stem for f in (root / "r").rglob("*.event")}
                    (q.detect if o["stage"] == "detect" else q.locate)(str(a), str(b))
                    marks = {f.stem for f in (root / "r").rglob("*.event")} - old
            except (util.NoTriggerFilesFound, util.NoScanMseedDataException):
                ctx.label("nothing to do")
            if o["log"]:
                seen.setdefault((o["stage"], sub), set()).update(marks)
                # the log is complete as soon as the run is over
                full = "r" + ("_" + sub if sub else "")
                text = "".join(f.read_text() for f in logs(root / "r", o["stage"], sub, full))
                ctx.check(text.strip() != "", lambda: f"no log of {o['stage']} {sub!r}")
                ctx.check(f"Name: {full}" in text, "run name missing in its log")
                for m in marks:
                    ctx.check(m in text, lambda: f"event {m} missing in the log of locate")
                    ctx.label("events logged")
    dirs = {p.parent for p in root.rglob("*.log")}
    ctx.equal(sorted(map(str, dirs)), sorted(str(root / "r" / s / x / "logs") for s, x in seen), "directories with logs")
    ctx.nontrivial(len(seen) > 1)
    ctx.label(*[s for s, _ in seen])


FACETS = [Facet("logger", strat, check, quick=200, thorough=3000, shards=2, rule="logs of more than one run"),
          Facet("stages", strat_stages, check_stages, quick=60, thorough=400, shards=4, rule="logs of more than one stage or sub-run")]
