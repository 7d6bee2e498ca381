"""C40: runs of different time spans, stages or names may be at work in the same directory at the same time."""
import os
import pathlib
import shutil
import signal

from hypothesis import strategies as st

from checks.c37_reuse import LEAD, child, make_data, tree
from checks.c39_interrupted import Faults, same_tree, session
from harness import Facet
from quakemigrate import QuakeScan, Trigger
from strategies import fixed, ints, sampled, seeds

ASSUMPTIONS = ["one process runs to its end while the other one is held between two operations on its files (one switch there and back)",
               "the runs need nothing of each other's results"]
HALF = 37.5
DAY1, DAY2 = [0.0, HALF], [HALF, 2 * HALF]
# (first run, second run, what was run before): (stage, span, sub-name)
PAIRS = [
    (("detect", DAY1, ""), ("detect", DAY2, ""), []),
    (("detect", DAY2, ""), ("detect", DAY1, ""), ["detect"]),
    (("trigger", [0.0, 25.0], "a"), ("detect", DAY2, ""), ["detect1"]),
    (("trigger", [0.0, 2 * HALF], "a"), ("trigger", [0.0, 2 * HALF], "b"), ["detect"]),
    (("trigger", DAY1, "a"), ("trigger", DAY2, "a"), ["detect"]),
    (("trigger", DAY2, ""), ("trigger", DAY1, "b"), ["detect", "trigger"]),
    (("locate", DAY1, ""), ("locate", DAY2, ""), ["detect", "trigger"]),
    (("locate", DAY1, "a"), ("locate", DAY2, "a"), ["detect", "trigger"]),
    (("locate", DAY1, ""), ("locate", DAY2, ""), ["detect", "trigger"]),
    (("locate", [0.0, 2 * HALF], ""), ("locate", [0.0, 2 * HALF], "a"), ["detect", "trigger"]),
    (("locate", DAY1, "a"), ("trigger", DAY2, ""), ["detect", "trigger"]),
    (("locate", DAY1, ""), ("detect", DAY2, ""), ["detect1", "trigger1"]),
    (("detect", DAY1, ""), ("locate", DAY2, "a"), ["detect", "trigger"]),
]


def strat():
    return fixed(seed=seeds, m=st.integers(3, 4), n=st.tuples(*[sampled(5, 6)] * 3).map(list), units=sampled("km", "m"), spacing=st.just(2.0), layered=st.just(False),
                 day=sampled("2021-02-04", "2020-12-31", "2019-06-06"), mags=st.booleans(), position=sampled("classic", "centred"), drop=st.just([]), foreign=st.none(),
                 pair=ints(0, len(PAIRS) - 1), swap=st.booleans(), cont=st.booleans(), timestep=sampled(7.5, 12.5), k=st.integers(0, 999), where=sampled("dir", "dir", "write", "any"),
                 extra=st.lists(st.booleans(), min_size=4, max_size=4), earlier=st.booleans())


def run(s, stage, span, sub):
    if stage == "trigger":
        t = Trigger(s.lut, str(s.path), "r", trigger_name=sub, log=False, threshold_method="static", static_threshold=1.9, marginal_window=0.5, min_event_interval=4.0,
                    pad=5.0, plot_trigger_summary=s.trig.plot_trigger_summary)
        a, b = s.window(span)
        t.trigger(str(a), str(b))
    elif stage == "locate" and sub:
        old = s.scan
        s.scan = QuakeScan(s.archive, s.lut, onset=s.onset, picker=s.picker, mags=s.mags, run_path=str(s.path), run_name="r", run_subname=sub, log=False,
                           timestep=old.timestep, marginal_window=0.5, plot_event_summary=False)
        for k in ("write_cut_waveforms", "write_wa_waveforms", "write_coalescence", "write_marginal_coalescence"):
            setattr(s.scan, k, getattr(old, k))
        s.run("locate", span)
        s.scan = old
    else:
        s.run(stage, span)


def prepare(c, root, data, first):
    s = session(c, root, None, data)
    for what in first:
        span = DAY1 if what.endswith("1") else [0.0, 2 * HALF]
        if what.startswith("detect"):
            run(s, "detect", span, "")
        else:
            run(s, "trigger", span, "")
            run(s, "trigger", span, "a")
    if c["earlier"] and "trigger" in first:
        run(s, "locate", [0.0, 2 * HALF], "")


def one(c, root, runs, data, job):
    s = session(c, root, runs, data)
    run(s, *job)
    return tree(s.path)


def counted(c, root, runs, data, job):
    s = session(c, root, runs, data)
    f = Faults(s, "none", -1, None, None)
    run(s, *job)
    f.on = False
    return tree(s.path), f.n


class Pause(Faults):
    """At the chosen operation another process gets its turn."""

    def __init__(self, s, where, at, turn):
        super().__init__(s, where, at, None, None)
        self.turn = turn

    def event(self, kind):
        if self.on:
            i = self.n[kind]
            self.n[kind] += 1
            if kind == self.where and i == self.at:
                self.on = False
                self.turn()


def configured(c, root, path, data):
    """A session that works in the given run directory."""
    s = session(c, root, None, data)
    shutil.rmtree(s.path)
    s.path = path
    plot = s.trig.plot_trigger_summary
    old = s.scan
    for k in ("picker", "scan", "trig"):
        s.new(k)
    for k in ("timestep", "continuous_scanmseed_write", "write_cut_waveforms", "write_wa_waveforms", "write_coalescence", "write_marginal_coalescence"):
        setattr(s.scan, k, getattr(old, k))
    s.trig.plot_trigger_summary = plot
    return s


def held(c, root, path, data, job, at, go, done):
    s = configured(c, root, path, data)

    def turn():
        os.write(go, b"g")
        os.read(done, 1)
    Pause(s, c["where"], at, turn)
    run(s, *job)
    return True


def in_place(c, root, path, data, job):
    run(configured(c, root, path, data), *job)
    return True


def check(c, ctx):
    root = pathlib.Path(ctx.tmp())
    a, b, first = PAIRS[c["pair"]]
    if c["swap"] and "1" not in "".join(first):
        a, b = b, a
    c = dict(c, n=list(c["n"]), at=86400 - LEAD - HALF)
    data = make_data(c)

    def ok(r, what):
        if r[0] != "ok":
            ctx.fail(f"{what}: {r[1]}")
        return r[1]
    ok(child(lambda: prepare(c, root / "base", data, first), 100), "the runs before failed")
    runs = root / "base" / "runs"
    what = f"{a[0]} {a[1]} {a[2]!r} and {b[0]} {b[1]} {b[2]!r}"
    _, n = ok(child(lambda: counted(c, root / "a", runs, data, a), 100), f"{a} failed")
    want = ok(child(lambda: one(c, root / "b", root / "a" / "runs", data, b), 100), f"{b} after {a} failed")
    if not n[c["where"]]:
        ctx.label("nothing to hold")
        return
    at = c["k"] % min(n[c["where"]], 7 if c["k"] % 3 else 10**6)      # new directories come first
    work = root / "work"
    shutil.copytree(runs, work)
    go_r, go_w = os.pipe()
    done_r, done_w = os.pipe()
    res = root / "second"
    pid = os.fork()
    if pid == 0:
        try:
            os.close(go_w), os.close(done_r)
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.alarm(300)
            if os.read(go_r, 1):
                r = child(lambda: in_place(c, root / "sb", work, data, b), 100)
                res.write_text("ok" if r[0] == "ok" else r[1])
        finally:
            os._exit(0)
    os.close(go_r), os.close(done_w)
    try:
        got = child(lambda: held(c, root / "sa", work, data, a, at, go_w, done_r), 200)
    finally:
        os.close(go_w), os.close(done_r)
        os.waitpid(pid, 0)
    where = f"{what}, the second during the first (at {c['where']} {at} of {n[c['where']]})"
    ok(got, f"{where}: the first failed")
    ctx.check(res.is_file(), f"{where}: the first run came past its files differently")
    ctx.check(res.read_text() == "ok", lambda: f"{where}: the second failed: {res.read_text()}")
    same_tree(ctx, tree(work), want, where)
    ctx.nontrivial(at > 0 or c["where"] == "write")
    ctx.label(f"{a[0]} with {b[0]}")


FACETS = [Facet("switched", strat, check, quick=160, thorough=900, shards=8, rule="the first run had begun its work on files")]
