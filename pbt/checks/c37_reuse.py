"""C37: what objects were used for before does not change what they do next."""
import os
import pathlib
import pickle
import select
import shutil
import signal
import sys
import time
import traceback

import numpy as np
from hypothesis import strategies as st
from obspy import Stream, UTCDateTime, read

import pipekit
import wavekit
from harness import Facet, HarnessError
from qm import t_add, trace
from quakemigrate import QuakeScan, Trigger
from quakemigrate.io import Run, read_lut
from quakemigrate.io.availability import read_availability
from quakemigrate.io.data import Archive
from quakemigrate.io.scanmseed import read_scanmseed
from quakemigrate.signal.local_mag import LocalMag
from quakemigrate.signal.pickers import GaussianPicker
from strategies import fixed, ints, one_in, rounded, sampled, seeds

ASSUMPTIONS = ["parameters are changed through the documented attributes; a table changed after a scan was set up needs a new scan (and gets one)",
               "the objects of the reference are made, changed and given new parameters in the same order, but not used"]
TOTAL, LEAD, SCAN = 130.0, 25.0, 75.0
SETS = {
    "scan": [("timestep", [9.0, 15.0, 30.0]), ("marginal_window", [0.4, 0.8, 1.5]), ("threads", [1, 2]), ("write_cut_waveforms", [True, False]),
             ("write_real_waveforms", [True, False]), ("real_waveform_units", ["velocity", "displacement"]), ("write_wa_waveforms", [True, False]),
             ("pre_cut", [None, 2.0, 12.0]), ("post_cut", [None, 4.0, 20.0]), ("write_marginal_coalescence", [True, False]), ("write_coalescence", [True, False]),
             ("continuous_scanmseed_write", [True, False])],
    "onset": [("position", ["classic", "centred"]), ("sta_lta_windows", [{"P": [0.2, 1.5], "S": [0.2, 1.5]}, {"P": [0.3, 1.0], "S": [0.4, 2.0]}, {"P": [0.1, 2.5], "S": [0.2, 1.0]}]),
              ("bandpass_filters", [{"P": [2, 9, 2], "S": [2, 8, 2]}, {"P": [3, 9, 3], "S": [1, 7, 2]}]), ("all_channels", [True, False]),
              ("min_onset_value", [0.4, 0.02, 1.2]), ("signal_transform", ["energy", "abs", "env"]), ("phases", [["P", "S"], ["P"], ["S"], ["S", "P"]]),
              ("channel_maps", [{"P": "*Z", "S": "*[N,E]"}, {"P": "*", "S": "*N"}]), ("allow_gaps", [True, False]), ("full_timespan", [True, False])],
    "picker": [("mad_pick_threshold", [3.0, 8.0, 20.0]), ("write_seed_ids", [True, False])],
    "amp": [("signal_window", [0.0, 1.0, 4.0]), ("noise_window", [2.0, 5.0]), ("noise_measure", ["RMS", "STD", "ENV"]), ("loc_method", ["spline", "gaussian", "covariance"]),
            ("highpass_filter", [True, False]), ("highpass_freq", [1.0, 3.0]), ("prominence_multiplier", [0.0, 0.3])],
    "mag": [("noise_filter", [1.0, 3.0]), ("use_hyp_dist", [True, False]), ("dist_filter", [False, 8.0]), ("pick_filter", [True, False]), ("weighted_mean", [True, False]),
            ("amp_feature", ["S_amp", "P_amp"]), ("station_corrections", [{}, {"XX.STA..HHN": 0.3, "XX.B..HHE": -0.2}]), ("amp_multiplier", [1.0, 2.0]), ("trace_filter", [None, ".*E$"]),
            ("A0", ["Hutton-Boore", "UK"])],
    "trig": [("marginal_window", [0.4, 0.8]), ("min_event_interval", [3.0, 6.0]), ("static_threshold", [1.5, 1.8, 2.2]), ("threshold_method", ["static", "mad", "median_ratio"]),
             ("mad_multiplier", [4.0, 8.0]), ("median_multiplier", [1.2, 1.6]), ("normalise_coalescence", [True, False]), ("smooth_coa", [True, False]),
             ("smoothing_kernel_sigma", [0.1, 0.3]), ("pad", [5.0, 20.0])],
    "archive": [("stations", [3, 4, 6]), ("read_all_stations", [True, False]), ("water_level", [60.0, 20.0]), ("pre_filt", [None, (0.5, 1.0, 8.0, 9.5)]),
                ("remove_full_response", [True, False]), ("interpolate", [True, False])],
    "lut": [("decimate", [[2, 2, 2], [1, 2, 1], [2, 1, 2]]), ("fraction_tt", [0.1, 0.25]), ("shift", [0.15, 2.3]), ("reload", [0])],
    "files": [("hide", [0, 1, 2]), ("restore", [0]), ("swap", [0, 1, 2]), ("response", [1.0, 3.0])],
    "new": [("scan", [0]), ("trig", [0]), ("picker", [0])]}
PARAMS = [(t, i) for t, v in SETS.items() for i in range(len(v)) for _ in range({"lut": 3, "onset": 2, "trig": 2, "files": 2}.get(t, 1))]


def strat():
    change = st.tuples(st.integers(0, len(PARAMS) - 1), st.integers(0, 5)).map(lambda k: [*PARAMS[k[0]], k[1]])
    win = st.tuples(rounded(0, 40, 1), rounded(12, 75, 1)).map(list)
    step = fixed(changes=st.lists(change, max_size=5), query=st.lists(st.integers(0, 9), max_size=2), op=sampled("detect", "trigger", "locate", "locate", "locate", "file", "file"), win=one_in(2, st.just([0.0, SCAN]), win))
    return fixed(seed=seeds, m=st.integers(3, 6), n=st.tuples(*[sampled(5, 6, 7)] * 3).map(list), units=sampled("km", "m"), spacing=sampled(2.0, 0.8), layered=one_in(4, st.just(True), st.just(False)),
                 day=sampled("2021-02-04", "2020-12-31", "2019-06-06"), at=one_in(2, ints(0, 80000), ints(86300, 86370)), mags=st.booleans(), position=sampled("classic", "centred"),
                 drop=st.lists(st.tuples(st.integers(0, 5), st.integers(0, 2)).map(list), max_size=2), steps=st.lists(step, min_size=2, max_size=3), foreign=sampled(None, "other", "turned"))


SR = 20


class Session:
    """The objects of one user session, on a directory of its own."""

    def __init__(self, c, root, data, runs=None):
        self.c, self.root = c, pathlib.Path(root)
        self.t0 = UTCDateTime(c["day"]) + c["at"]
        self.data = data
        self.hidden = {}
        self.path = self.root / "runs"
        if runs is not None:
            shutil.copytree(runs, self.path)
        else:
            self.path.mkdir(parents=True)
        for (s, ch), x in data.items():
            self.put(s, ch, x)
        self.lut = pipekit.network_lut(c["seed"], c["n"], c["m"], units=c["units"], spacing=c["spacing"], layered=c["layered"])
        self.names = list(self.lut.traveltimes)
        self.archive = Archive(str(self.root / "arch"), self.lut.station_data[["Name"]], archive_format="YEAR/JD/STATION", response_inv=self.inv(1.0))
        self.onset = pipekit.onset(SR, c["position"])
        self.onset.bandpass_filters = {"P": [2, 8, 2], "S": [2, 8, 2]}
        self.mags = LocalMag(dict(signal_window=1.0, noise_window=2.0, highpass_freq=1.0), dict(A0="Hutton-Boore"), plot_amplitudes=False) if c["mags"] else None
        if self.mags:
            self.mags.amp.highpass_freq = 1.0
        for k in ("picker", "scan", "trig"):
            self.new(k)

    def put(self, s, ch, x):
        k, i = 0, 0
        while len(x):
            t = t_add(self.t0, k, SR)
            n = int(-(-((UTCDateTime(t.date) + 86400)._ns - t._ns) * SR // 10**9))
            p = self.root / "arch" / f"{t.year}/{t.julday:03d}/{s}_{ch}"
            p.parent.mkdir(parents=True, exist_ok=True)
            Stream([trace(x[:n].astype("int32"), t, SR, s, ch)]).write(str(p), format="MSEED")
            x, k, i = x[n:], k + n, i + 1

    def inv(self, gain):
        return wavekit.inventory([(f"XX.{s}..{ch}", wavekit.response("1hz", 400.0 * gain), None, None) for s in pipekit.NAMES[:5] for ch in pipekit.COMPS])

    def new(self, what):
        if what == "picker":
            self.picker = GaussianPicker(onset=self.onset, plot_picks=False)
            if hasattr(self, "scan"):
                self.scan.picker = self.picker
        elif what == "scan":
            self.scan = QuakeScan(self.archive, self.lut, onset=self.onset, picker=self.picker, mags=self.mags, run_path=str(self.path), run_name="r", log=False,
                                  timestep=15.0, marginal_window=0.5, plot_event_summary=False)
        else:
            self.trig = Trigger(self.lut, str(self.path), "r", log=False, threshold_method="static", static_threshold=1.9, marginal_window=0.5, min_event_interval=4.0,
                                pad=10.0, plot_trigger_summary=False)

    def change(self, target, i, j):
        name, values = SETS[target][i % len(SETS[target])]
        val = values[j % len(values)]
        if target in ("amp", "mag"):
            if self.mags:
                setattr(getattr(self.mags, target), name, val)
        elif target == "archive" and name == "stations":
            self.archive.stations = self.lut.station_data["Name"][:val]
        elif target == "lut":
            if name == "fraction_tt":
                self.lut.fraction_tt = val
                return
            if name == "decimate":
                if min(self.lut.node_count) < 4:
                    return
                self.lut.decimate(val, inplace=True)
            elif name == "shift":
                for p in self.lut.traveltimes[self.names[0]]:
                    self.lut.traveltimes[self.names[0]][p] = self.lut.traveltimes[self.names[0]][p] + val
            else:
                self.lut.save(str(self.root / "t.lut"))
                self.lut = read_lut(lut_file=str(self.root / "t.lut"))
            self.new("scan")
            self.new("trig")
        elif target == "files":
            arch = self.root / "arch"
            if name == "response":
                self.archive.response_inv = self.inv(val)
            elif name == "hide":
                for f in sorted(arch.rglob(f"{self.names[val % len(self.names)]}_*")):
                    self.hidden[f] = f.read_bytes()
                    f.unlink()
            elif name == "restore":
                for f, b in self.hidden.items():
                    f.write_bytes(b)
                self.hidden = {}
            else:
                s = self.names[val % len(self.names)]
                for ch in pipekit.COMPS:
                    if (s, ch) in self.data and not any(f.name == f"{s}_{ch}" for f in self.hidden):
                        self.put(s, ch, np.roll(self.data[s, ch], 40))
        elif target == "new":
            self.new(name)
        else:
            setattr(getattr(self, target), name, val if not isinstance(val, (dict, list)) else pickle.loads(pickle.dumps(val)))

    def query(self, k, win):
        """Calls that only look at things."""
        a, b = self.window(win)
        lut = self.lut
        if k == 0:
            lut.max_traveltime, lut.grid_extent, lut.precision, lut.station_extent, lut.stations_xyz
        elif k == 1:
            [lut.traveltime_to(p, [1.3, 0.2, 2.0]) for p in lut.phases]
        elif k == 2:
            lut.serve_traveltimes(SR)
        elif k == 3:
            lut.decimate([2, 2, 2]).index2coord([[0, 1, 1]])
        elif k == 4:
            d = self.archive.read_waveform_data(a, b, 1.0, 2.0)
            d.waveforms.filter("highpass", freq=1.0)
            d.raw_waveforms.clear()
        elif k == 5:
            [str(x) for x in (lut, self.onset, self.picker, self.archive, self.scan, self.trig, self.mags)]
        elif k == 6:
            self.onset.pad(4.0), self.onset.pad(33.0), self.onset.gaussian_halfwidth("P")
        elif k == 7:
            r = Run(str(self.path), "r", stage="detect")
            read_scanmseed(r, a, b, 3.0, lut.unit_conversion_factor)[0].iloc[:, 1:] += 1
            read_availability(r, a, b)[:] = 0
        elif k == 8:
            lut == lut.decimate([1, 1, 1]), lut[self.names[0]]
        else:
            self.onset.calculate_onsets(self.archive.read_waveform_data(a, b), 10.0)

    def window(self, win):
        return self.t0 + LEAD + win[0], self.t0 + LEAD + min(win[0] + win[1], SCAN) - 1 / SR

    def run(self, op, win):
        a, b = (str(t) for t in self.window(win))
        if op == "detect":
            self.scan.detect(a, b)
        elif op == "trigger":
            self.trig.trigger(a, b)
        elif op == "locate":
            self.scan.locate(starttime=a, endtime=b)
        else:
            f = sorted(self.path.rglob("*_TriggeredEvents.csv"))
            self.scan.locate(trigger_file=str(f[0]))


def attempt(fn, *a):
    """(kind of the exception raised, its text) or None."""
    try:
        fn(*a)
    except Exception as e:
        return type(e).__name__, str(e)[:200], traceback.format_exc(limit=-3)
    return None


def tree(path):
    return {str(p.relative_to(path)): p.read_bytes() for p in sorted(path.rglob("*")) if p.is_file()}


def child(fn, limit):
    """fn() in a process that has not run anything before."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_PROF, 0)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1), os.dup2(null, 2)
            sys.stdout = sys.stderr = open(os.devnull, "w")
            try:
                out = ("ok", fn())
            except BaseException as e:
                out = ("error", f"{type(e).__name__}: {e}\n{traceback.format_exc(limit=-4)}")
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    buf, end = [], time.time() + limit
    try:
        while True:
            ready, _, _ = select.select([r], [], [], max(0.1, end - time.time()))
            if not ready:
                os.kill(pid, signal.SIGKILL)
                raise HarnessError("a run took too long")
            x = os.read(r, 1 << 20)
            if not x:
                break
            buf.append(x)
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    if not buf:
        return "error", "the process died"
    return pickle.loads(b"".join(buf))


def make_data(c):
    rng = np.random.RandomState(c["seed"])
    lut = pipekit.network_lut(c["seed"], c["n"], c["m"], units=c["units"], spacing=c["spacing"], layered=c["layered"])
    names = list(lut.traveltimes)
    src = [(tuple(int(rng.randint(1, v - 1)) for v in c["n"]), round((LEAD + 6 + 16 * i + rng.uniform(0, 6)) * SR), 30.0 * rng.uniform(0.6, 2)) for i in range(4)]
    tr = pipekit.waveforms(lut, names, SR, round(TOTAL * SR), src, rng, freq=5.0)
    gone = {(names[i % len(names)], pipekit.COMPS[j]) for i, j in c["drop"]}
    return {k: np.round(x * 1000) for k, x in tr.items() if k not in gone}


def history(c):
    first = dict(changes=[], query=[], op="detect", win=[0.0, SCAN]), dict(changes=[], query=[], op="trigger", win=[0.0, SCAN])
    return [*first, *c["steps"]]


def used(c, root, data):
    """The whole history on one set of objects: for each run what it raised, and the files before and after it."""
    if c["foreign"]:        # another experiment, in the same process
        o = dict(c, seed=c["seed"] + 1, n=c["n"][1:] + c["n"][:1], layered=False, mags=True, drop=[])
        if c["foreign"] == "other":
            o.update(n=[v + 1 for v in c["n"]], units="m" if c["units"] == "km" else "km")
        f = Session(o, root / "foreign", make_data(o))
        for op in ("detect", "trigger", "locate"):
            attempt(f.run, op, [0.0, 25.0])
    s = Session(c, root / "used", data)
    out = []
    for i, h in enumerate(history(c)):
        sets = [attempt(s.change, *x) for x in h["changes"]]
        for k in h["query"]:
            attempt(s.query, k, h["win"])
        shutil.copytree(s.path, root / f"stage{i}")
        out.append((sets, attempt(s.run, h["op"], h["win"]), tree(s.path)))
    return out


def unused(c, root, data, i):
    s = Session(c, root / f"ref{i}", data, root / f"stage{i}")
    sets = []
    hist = history(c)
    for h in hist[:i + 1]:
        sets = [attempt(s.change, *x) for x in h["changes"]]
    return sets, attempt(s.run, hist[i]["op"], hist[i]["win"]), tree(s.path)


def show(f, a, b):
    if f.endswith((".csv", ".event", ".picks", ".amps")):
        for x, y in zip(a.decode().splitlines(), b.decode().splitlines()):
            if x != y:
                return f"{x[:160]!r} instead of {y[:160]!r}"
    elif not f.endswith(".npy"):
        try:
            import io
            return f"{read(io.BytesIO(a))} instead of {read(io.BytesIO(b))}"[:400]
        except Exception:
            pass
    return f"{len(a)} and {len(b)} bytes"


def check(c, ctx):
    root = pathlib.Path(ctx.tmp())
    data = make_data(c)
    kind, got = child(lambda: used(c, root, data), 200)
    if kind != "ok":
        ctx.fail(f"the session failed: {got}")
    hist = history(c)
    done = []
    for i, h in enumerate(hist):
        if not i:
            done.append(h["op"])        # nothing has run before
            if not c["foreign"]:
                continue
        kind, ref = child(lambda: unused(c, root, data, i), 100)
        if kind != "ok":
            ctx.fail(f"the session failed: {ref}")
        before = ", ".join(x["op"] for x in hist[:i]) or "another experiment"
        what = f"{h['op']} after {before}"
        (sa, ea, fa), (sb, eb, fb) = got[i], ref
        ctx.equal([x and x[0] for x in sa], [x and x[0] for x in sb], f"setting parameters before {what}")
        ctx.check((ea and ea[:2]) == (eb and eb[:2]), lambda: f"{what}: raised {ea}, with unused objects {eb}")
        ctx.equal(sorted(set(fa) ^ set(fb)), [], f"{what}: files not written with used objects, or with unused ones")
        for f in fa:
            ctx.check(fa[f] == fb[f], lambda: f"{what}: {f} differs from that of unused objects: {show(f, fa[f], fb[f])}")
        ctx.label(*[f"set {x[0]}" for x in h["changes"]], *["set failed: " + x[0] for x in sa if x])
        ctx.label(f"{h['op']} {'raised ' + ea[0] if ea else 'done'}")
        done.append(h["op"])
    ctx.label(f"{min(sum(b.count(10) - 1 for f, b in got[1][2].items() if f.endswith('TriggeredEvents.csv')), 5)} triggered")
    n = sum("/event" in f and f.endswith(".event") for f in got[-1][2])
    ctx.label(f"{min(n, 4)} events located")
    ctx.nontrivial(n > 0 or sum(not x[1] for x in got) > 2)


FACETS = [Facet("sessions", strat, check, quick=200, thorough=3000, shards=8, rule="an event was located, or a stage was run again, on objects used before")]
