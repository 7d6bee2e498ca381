"""C39: an interrupted run damages nothing, keeps what it completed, and can be repeated."""
import errno
import io
import os
import pathlib
import pickle
import shutil
import sys

import numpy as np
from hypothesis import strategies as st
from obspy import UTCDateTime, read

from checks.c37_reuse import LEAD, SCAN, SR, Session, child, make_data, show, tree
from harness import Facet
from quakemigrate import QuakeScan
from strategies import fixed, ints, one_in, sampled, seeds

ASSUMPTIONS = ["an interruption ends the process between two operations of the run, or raises from the opening of a file or the reading of data",
               "PDF figures hold the time they were made; only their presence is compared"]


def strat():
    return fixed(seed=seeds, m=st.integers(3, 4), n=st.tuples(*[sampled(5, 6)] * 3).map(list), units=sampled("km", "m"), spacing=st.just(2.0), layered=st.just(False),
                 day=sampled("2021-02-04", "2020-12-31", "2019-06-06"), at=one_in(2, ints(0, 80000), ints(86305, 86370)), mags=st.booleans(), position=sampled("classic", "centred"),
                 drop=st.just([]), foreign=st.none(), op=sampled("detect", "detect", "trigger", "locate", "locate"), cont=st.booleans(), timestep=sampled(7.5, 10.0, 15.0),
                 fault=sampled("kill", "ctrl-c", "full"), where=sampled("read", "read", "read", "write", "write", "any"), k=st.integers(0, 999), twice=st.booleans(), same=st.booleans(),
                 earlier=sampled("none", "same", "same", "other"), extra=st.lists(st.booleans(), min_size=4, max_size=4), hole=st.booleans(),
                 then=one_in(2, st.tuples(sampled(8, 20.5, 33), sampled(15, 30)).map(list), st.none()), midnight=one_in(2, fixed(step=st.integers(1, 4), off=sampled(0, 0, 0.05, 3)), st.none()))


def session(c, root, runs, data):
    s = Session(c, root, data, runs)
    s.scan.timestep = c["timestep"]
    s.scan.continuous_scanmseed_write = c["cont"]
    s.scan.write_cut_waveforms, s.scan.write_wa_waveforms, s.scan.write_coalescence, s.scan.write_marginal_coalescence = c["extra"][:1] * 2 + c["extra"][1:3]
    s.trig.plot_trigger_summary = c["extra"][3] and c["seed"] % 4 == 0
    return s


class Full(OSError):
    pass


class Faults:
    """Counts the operations of a run by its audit events, and lets one of them fail."""

    def __init__(self, s, where, at, kind, record):
        self.path, self.where, self.at, self.kind, self.record = os.fspath(s.path), where, at, kind, record
        self.root = os.fspath(s.root)
        self.n, self.writes, self.on = {"read": 0, "write": 0, "dir": 0, "any": 0}, [], True
        old = s.archive.read_waveform_data

        def reading(*a, **k):
            self.event("read")
            return old(*a, **k)
        s.archive.read_waveform_data = reading
        sys.addaudithook(self.hook)

    def hook(self, event, args):
        if self.on and event in ("os.mkdir", "os.rename", "os.remove") and isinstance(args[0], (str, bytes, os.PathLike)) \
                and os.path.abspath(os.fsdecode(args[0])).startswith((self.root + os.sep, self.path + os.sep)):
            self.event("any")
            self.event("dir")
        if self.on and event == "os.rename":        # a file written elsewhere first
            self.writes.append(os.path.abspath(os.fsdecode(args[1])))
        if not self.on or event != "open" or not isinstance(args[0], (str, bytes, os.PathLike)):
            return
        p = os.path.abspath(os.fsdecode(args[0]))
        if not p.startswith((self.root + os.sep, self.path + os.sep)):
            return
        writing = any(x in (args[1] or "") for x in "wax+") or bool((args[2] or 0) & (os.O_WRONLY | os.O_RDWR))
        self.event("any")
        if writing:
            self.event("write")
            self.writes.append(p)

    def event(self, kind):
        if not self.on:
            return
        i = self.n[kind]
        self.n[kind] += 1
        if kind == self.where and i == self.at:
            self.on = False
            if self.record:
                with open(self.record, "wb") as f:
                    pickle.dump(self.writes, f)
            if self.kind == "kill":
                os._exit(9)
            raise KeyboardInterrupt if self.kind == "ctrl-c" else Full(errno.ENOSPC, "No space left on device")


def go(s, c, win=(0.0, SCAN)):
    s.run(c["op"], list(win))


def prepare(c, root, data):
    """What is in the run directory before: results of earlier runs."""
    s = session(c, root, None, data)
    s.scan.timestep = 15.0
    win = [0.0, SCAN] if c["op"] != "detect" or c["earlier"] == "same" else [0.0, 30.0]
    if c["op"] != "detect" or c["earlier"] != "none":
        s.run("detect", win)
    if c["op"] == "locate" or c["earlier"] != "none":
        s.run("trigger", win)
    if c["earlier"] != "none":
        if c["earlier"] == "same":      # the same events with other settings
            s.scan.marginal_window = 0.8
        else:
            s.scan = QuakeScan(s.archive, s.lut, onset=s.onset, picker=s.picker, run_path=str(s.path), run_name="r", run_subname="", log=False, timestep=15.0,
                               marginal_window=0.5, plot_event_summary=False)
        s.run("locate", win)
    return tree(s.path)


def complete(c, root, before, data):
    s = session(c, root, before, data)
    f = Faults(s, "none", -1, None, None)
    go(s, c)
    f.on = False
    return dict(tree=tree(s.path), n=f.n, writes=[os.path.relpath(p, f.path) for p in f.writes])


def faulty(c, root, before, data, at, rec):
    s = session(c, root, before, data)
    f = Faults(s, c["where"], at, c["fault"], rec)
    try:
        go(s, c)
        raised = None
    except (KeyboardInterrupt, OSError) as e:
        raised = type(e).__name__
    f.on = False
    after = tree(s.path)
    if c["same"]:
        shutil.copytree(s.path, root / "left")
        go(s, c, c["then"] or (0.0, SCAN))
    return raised, after, tree(s.path) if c["same"] else None


def again(c, root, before, data, win=(0.0, SCAN)):
    s = session(c, root, before, data)
    go(s, c, win)
    return tree(s.path)


def series(files):
    """{id: (start, samples)} of the scan archive in these files."""
    out = {}
    for f in sorted(x for x in files if x.endswith(".scanmseed")):
        for tr in read(io.BytesIO(files[f])):
            t, x = out.get(tr.stats.station, (tr.stats.starttime, []))
            out[tr.stats.station] = (t, x + [(tr.stats.starttime, tr.data)])
    res = {}
    for k, (t, x) in out.items():
        x.sort(key=lambda q: q[0])
        res[k] = (x[0][0], np.concatenate([d for _, d in x]))
    return res


def same_tree(ctx, got, want, what):
    ctx.equal(sorted(got), sorted(want), f"{what}: files")
    for f in sorted(want):
        if not f.endswith(".pdf"):
            ctx.check(got[f] == want[f], lambda: f"{what}: {f} differs: {show(f, got[f], want[f])}")   # noqa: B023


def ok(ctx, r, what):
    if r[0] != "ok":
        ctx.fail(f"{what}: {r[1]}")
    return r[1]


def check(c, ctx):
    root = pathlib.Path(ctx.tmp())
    c = dict(c, n=list(c["n"]))
    at = None
    if c["midnight"]:       # in (or right after) a timestep of the scan, which is interrupted in the next
        c["at"] = 86400 - LEAD - c["midnight"]["step"] * c["timestep"] - c["midnight"]["off"]
        if c["op"] == "detect" and c["where"] == "read":
            at = c["midnight"]["step"] + (c["midnight"]["off"] > 0)
    data = make_data(c)
    if c["hole"]:       # some of the timesteps and events have no data
        data = {k: x[:round(80 * SR)] for k, x in data.items()}
    if c["op"] == "trigger" and c["where"] == "read":
        c["where"] = "write"
    before = ok(ctx, child(lambda: prepare(c, root / "base", data), 100), "the earlier runs failed")
    runs = root / "base" / "runs"
    ref = ok(ctx, child(lambda: complete(c, root / "ref", runs, data), 100), "the complete run failed")
    total = ref["n"][c["where"]]
    if not total:
        ctx.label("nothing to interrupt")
        return
    at, rec = c["k"] % total if at is None or at >= total else at, root / "record"
    if c["where"] == "any" and c["fault"] != "kill":
        c["where"] = "write"
        total = ref["n"]["write"]
        if not total:
            return
        at = c["k"] % total
    full = ref["tree"]
    what = f"{c['op']} interrupted ({c['fault']}) at {c['where']} {at} of {total}"
    got = child(lambda: faulty(c, root / "f", runs, data, at, rec), 100)
    state = root / "f" / "runs"
    if c["fault"] == "kill":
        ctx.check(got == ("error", "the process died"), f"{what}: the process was not ended there: {got}")
        after, final = tree(state), None
    else:
        raised, after, final = ok(ctx, got, what)
        ctx.equal(raised, "KeyboardInterrupt" if c["fault"] == "ctrl-c" else "Full", f"{what}: raised by the run")
    with open(rec, "rb") as f:
        wrote = [os.path.relpath(p, root / "f" / "runs") for p in pickle.load(f)]
    # ---- what the interrupted run left
    if c["where"] == "write":
        ctx.equal(wrote, ref["writes"][:at], f"{what}: files written before")
    for p in sorted(set(before) | set(after)):
        if p not in wrote:
            if not (p.endswith(".pdf") and p in after and p in before):
                ctx.check(after.get(p) == before.get(p), lambda: f"{what}: {p} was {'removed' if p not in after else 'changed'} though it was not written")   # noqa: B023
    for p in set(wrote):
        if wrote.count(p) == ref["writes"].count(p) and p in full and not p.endswith(".pdf"):
            ctx.check(after.get(p) == full[p], lambda: f"{what}: {p} was written before, but is not complete")   # noqa: B023
    if c["op"] == "detect" and c["where"] == "read":
        finished(c, ctx, at, before, after, full, what)
    if c["op"] == "locate" and c["where"] == "read":
        located(c, ctx, at, before, after, full, ref["writes"], what)
    # ---- repeating it
    if final is None:
        if c["twice"] and c["where"] != "any":
            again_at = (c["k"] // 7) % total
            r = child(lambda: faulty(dict(c, same=False, fault="ctrl-c"), root / "f2", state, data, again_at, None), 100)
            ok(ctx, r, f"{what}, repeated and interrupted")
            state = root / "f2" / "runs"
            ctx.label("interrupted twice")
        final = ok(ctx, child(lambda: again(c, root / "g", state, data), 100), f"{what}: repeating the run failed")
    elif c["then"]:     # the interrupted objects went on with another span
        full = ok(ctx, child(lambda: again(c, root / "g", root / "f" / "left", data, c["then"]), 100), f"{what}: the next run failed")
        same_tree(ctx, final, full, f"{what}, then a run of another span by the same objects")
        ctx.label("another span")
        full = final
    same_tree(ctx, final, full, f"{what}, then repeated{' by the same objects' if c['same'] and c['fault'] != 'kill' else ''}")
    ctx.nontrivial(0 < at and bool(ref["writes"]))
    ctx.label(c["op"], f"{c['fault']} at {c['where']}")


def finished(c, ctx, i, before, after, full, what):
    """detect() ended at the start of timestep i: the scan holds all before, if it is written continuously; else the completed days."""
    t0 = UTCDateTime(c["day"]) + c["at"] + LEAD
    n = round(c["timestep"] * SR) * i
    want = series(full)
    if c["cont"]:
        if i == 0:
            return
        # days the interrupted run has written
        days = sorted(f for f in full if f.endswith(".scanmseed"))
        end = t0 + n / SR
        days = [f for f in days if UTCDateTime(year=int(pathlib.Path(f).stem[:4]), julday=int(pathlib.Path(f).stem[5:])) < end - 0.5 / SR]
        have = series({f: after[f] for f in days if f in after})
        ctx.equal(sorted(have), sorted(want), f"{what}: traces of the scan")
        for k, (t, x) in have.items():
            ctx.equal(t, want[k][0], f"{what}: start of the scan")
            ctx.equal(len(x), n, f"{what}: samples of {k} in the scan after {i} timesteps")
            ctx.equal(x, want[k][1][:n], f"{what}: {k} of the scan")
        ctx.label("continuously written")
    else:
        for f in sorted(x for x in full if x.endswith(".scanmseed")):
            day = UTCDateTime(year=int(pathlib.Path(f).stem[:4]), julday=int(pathlib.Path(f).stem[5:]))
            if day + 86400 <= t0 + n / SR:
                ctx.check(after.get(f) == full[f], lambda: f"{what}: the completed day {f} is not in the scan")    # noqa: B023
                ctx.label("completed day kept")


def located(c, ctx, i, before, after, full, writes, what):
    """locate() ended at the start of event i: everything of the events before is there, nothing of the others."""
    rows = []
    for f in sorted(x for x in full if x.endswith("_TriggeredEvents.csv")):
        head, *body = full[f].decode().splitlines()
        rows += [r.split(",")[head.split(",").index("EventID")] for r in body]
    for k, uid in enumerate(rows):
        mine = [f for f in set(writes) if uid in pathlib.Path(f).name]
        for f in mine:
            if k < i:
                if not f.endswith(".pdf"):
                    ctx.check(after.get(f) == full[f], lambda: f"{what}: {f} of a completed event is missing or incomplete")   # noqa: B023
                    ctx.label("completed event kept")
            else:
                ctx.check(after.get(f) == before.get(f), lambda: f"{what}: {f} of an event not yet begun was touched")   # noqa: B023


FACETS = [Facet("interrupted", strat, check, quick=160, thorough=900, shards=8, rule="the run had begun, and writes files")]
