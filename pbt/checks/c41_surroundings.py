"""C41: runs and calls leave the process they run in, and what they are given, as they found them; and do not depend on it."""
import decimal
import hashlib
import locale
import os
import pathlib
import pickle
import random
import signal
import sys
import tempfile
import threading
import warnings

import matplotlib
import matplotlib.pyplot as plt
import numpy as np
import pandas as pd
from hypothesis import strategies as st

import figkit
import lutgen
import pipekit
from checks.c37_reuse import SCAN, Session, attempt, child, make_data, tree
from harness import Facet
from quakemigrate.export.to_mfast import sac_mfast
from quakemigrate.export.to_nlloc import nlloc_obs
from quakemigrate.export.to_obspy import read_quakemigrate
from quakemigrate.export.to_snuffler import snuffler_markers, snuffler_stations
from quakemigrate.io import read_lut, read_stations, read_vmodel
from quakemigrate.lut import LUT, compute_traveltimes
from strategies import fixed, one_in, sampled, seeds

ASSUMPTIONS = ["the root logger, which every run sets up, is not part of the surroundings",
               "the drawing of figures is replaced by an empty file (what they show: C35)"]


# ------------------------------------------------------------- the process
def fds():
    out = []
    for f in os.listdir("/proc/self/fd"):
        try:
            to = os.readlink(f"/proc/self/fd/{f}")
        except OSError:
            continue
        if not to.endswith(".log") and "/site-packages/" not in to and to.startswith("/") and not to.startswith(("/dev", "/proc", "/usr")):
            out.append(to)
    return sorted(out)


def process():
    """Everything about this process that a user may have set, and that others share."""
    um = os.umask(0)
    os.umask(um)
    opts = {}
    for k in ("display.precision", "display.max_rows", "display.float_format", "display.width", "mode.chained_assignment", "mode.copy_on_write", "future.infer_string"):
        try:
            opts[k] = pd.get_option(k)
        except Exception:
            pass
    return {
        "working directory": os.getcwd(),
        "environment": dict(os.environ),
        "numpy error state": np.geterr(),
        "numpy print options": repr(np.get_printoptions()),
        "numpy random state": hashlib.md5(pickle.dumps(np.random.get_state())).hexdigest(),
        "random state": hash(random.getstate()),
        "matplotlib parameters": {k: repr(v) for k, v in matplotlib.rcParams.items() if not k.startswith("backend")},
        "matplotlib backend": matplotlib.get_backend(),
        "matplotlib interactive": plt.isinteractive(),
        "open figures": {n: [len(a.get_lines()) for a in plt.figure(n).axes] for n in plt.get_fignums()},
        "warning filters": [repr(f) for f in warnings.filters],
        "threads": sorted(t.name for t in threading.enumerate()),
        "open files": fds(),
        "pandas options": opts,
        "locale": locale.setlocale(locale.LC_ALL),
        "umask": um,
        "signal handlers": [repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGHUP, signal.SIGPIPE, signal.SIGCHLD)],
        "module path": list(sys.path),
        "recursion limit": sys.getrecursionlimit(),
        "decimal context": repr(decimal.getcontext()),
        "standard streams": [id(sys.stdout), id(sys.stderr), id(sys.stdin)],
        "exception hook": repr(sys.excepthook),
    }


def current():
    return plt.gcf().number if plt.get_fignums() else None


def unusual(o):
    """The settings of a user's own program."""
    if o["figures"]:
        for i in range(o["figures"]):
            plt.figure(10 + i).add_subplot().plot([1, 2, 3])
    if o["np"]:
        np.seterr(divide=o["np"], invalid=o["np"], over=o["np"], under="ignore")
        np.set_printoptions(precision=2, suppress=True, threshold=5)
    if o["seed"] is not None:
        np.random.seed(o["seed"])
        random.seed(o["seed"])
    if o["pandas"]:
        pd.set_option("display.precision", 2, "display.max_rows", 3, "display.width", 20, "display.float_format", "{:.1f}".format)
    if o["mpl"]:
        matplotlib.rcParams.update({"font.size": 5, "lines.linewidth": 4, "axes.grid": True, "image.cmap": "gray", "figure.figsize": [3, 3], "timezone": "Asia/Tokyo",
                                    "axes.unicode_minus": False})
    if o["tz"]:
        os.environ["TZ"] = o["tz"]
        import time
        time.tzset()
    if o["env"]:
        os.environ.update({"LANG": "de_DE.UTF-8", "LC_ALL": "C", "COLUMNS": "20", "QM_USER": "x"})
    if o["decimal"]:
        decimal.getcontext().prec = 4
    if o["umask"]:
        os.umask(0o027)
    if o["warn"]:
        warnings.simplefilter(o["warn"])


odd = fixed(figures=sampled(0, 1, 2), np=sampled(None, "ignore", "warn"), seed=st.one_of(st.none(), st.integers(0, 99)), pandas=st.booleans(), mpl=st.booleans(),
            tz=sampled(None, "Asia/Tokyo", "America/New_York"), env=st.booleans(), decimal=st.booleans(), umask=st.booleans(), warn=sampled(None, "ignore", "always", "once"))


def differing(a, b):
    out = []
    for k, v in a.items():
        if b[k] != v:
            if isinstance(v, dict):
                d = {x: (v.get(x), b[k].get(x)) for x in [*v, *b[k]] if v.get(x) != b[k].get(x)}
                out.append(f"{k}: {d}"[:300])
            else:
                out.append(f"{k}: {b[k]}, was {v}"[:300])
    return out


# --------------------------------------------------------- what it is given
def plain(x, depth=0):
    """Content of an object, for comparison."""
    if isinstance(x, np.ndarray):
        return x.shape, str(x.dtype), x.tobytes() if x.dtype != object else repr(x.tolist())
    if isinstance(x, (pd.DataFrame, pd.Series)):
        return x.to_json(double_precision=15), [str(d) for d in (x.dtypes if isinstance(x, pd.DataFrame) else [x.dtype])], repr(list(x.index))
    if isinstance(x, dict):
        return [(repr(k), plain(v, depth + 1)) for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [plain(v, depth + 1) for v in x]
    if isinstance(x, LUT):
        return plain({k: v for k, v in vars(x).items() if not k.startswith("_")}, depth + 1)
    if hasattr(x, "networks"):
        import io
        b = io.BytesIO()
        created, x.created = x.created, None
        try:
            x.write(b, "STATIONXML")
        finally:
            x.created = created
        return [ln for ln in b.getvalue().splitlines() if b"Created" not in ln]
    return repr(x) if " at 0x" not in repr(x) else type(x).__name__


def attributes(o, skip=()):
    return {k: plain(v) for k, v in vars(o).items() if not k.startswith("_") and k not in skip}


def given(s, stat):
    """The objects of a session as the user sees them (parameters, tables, files)."""
    out = {"lookup table": plain(s.lut), "archive": plain({k: getattr(s.archive, k) for k in ("stations", "format", "response_inv", "water_level", "pre_filt", "resample", "interpolate")}),
           "onset": plain({k: getattr(s.onset, k) for k in ("phases", "channel_maps", "channel_counts", "bandpass_filters", "sta_lta_windows", "sampling_rate", "position", "all_channels")}),
           "files of the archive": {str(p): (p.stat().st_mtime_ns, p.read_bytes()) for p in sorted((s.root / "arch").rglob("*")) if p.is_file()},
           "other files": sorted(str(p.relative_to(s.root)) for d in ("cwd", "tmp") for p in (s.root / d).rglob("*"))}
    if s.mags:
        out["magnitude parameters"] = plain({k: v for k, v in [*vars(s.mags.amp).items(), *vars(s.mags.mag).items()] if not k.startswith("_")})
    for k, names in (("scan", ("timestep", "marginal_window", "threads", "pre_cut", "post_cut", "real_waveform_units", "run_path", "log", "mags")), ("trig", ("pad", "min_event_interval", "static_threshold", "marginal_window"))):
        out[k] = plain({n: getattr(getattr(s, k), n) for n in names if hasattr(getattr(s, k), n)})
    return out


def strat():
    win = st.tuples(st.integers(0, 30), st.integers(20, 75)).map(list)
    step = fixed(op=sampled("locate", "locate", "detect", "trigger", "export", "stations"), win=one_in(2, st.just([0.0, SCAN]), win))
    return fixed(seed=seeds, m=st.integers(3, 5), n=st.tuples(*[sampled(5, 6)] * 3).map(list), units=sampled("km", "m"), spacing=st.just(2.0), layered=one_in(4, st.just(True), st.just(False)),
                 day=sampled("2021-02-04", "2020-12-31"), at=one_in(3, st.integers(86300, 86370), st.integers(0, 80000)), mags=st.booleans(), position=sampled("classic", "centred"),
                 drop=st.just([]), foreign=st.none(), plots=one_in(4, st.just(False), st.just(True)), log=st.booleans(), threads=sampled(1, 2), cuts=sampled([], ["wa"], ["raw", "real"]),
                 steps=st.lists(step, min_size=1, max_size=3), odd=odd)


def export(s, what):
    if what == "stations":
        snuffler_stations(s.lut.station_data, str(s.path), "stations.txt", "XX")
        return
    cat = read_quakemigrate(str(s.path / "r"), s.c["units"])
    for i, e in enumerate(cat):
        before = repr(e), [repr(p) for p in e.picks]
        snuffler_markers(e, str(s.path), filename=f"m{i}")
        nlloc_obs(e, str(s.path / f"n{i}"))
        if len(list((s.path / "r").rglob("raw_cut_waveforms/*"))):
            attempt(sac_mfast, e, s.lut.station_data, str(s.path), s.c["units"])
        if (repr(e), [repr(p) for p in e.picks]) != before:
            raise AssertionError("an exported event has changed")


def session(c, root, data, strange):
    for d in ("cwd", "tmp"):
        (root / d).mkdir(parents=True)
    os.chdir(root / "cwd")
    os.environ["TMPDIR"] = tempfile.tempdir = str(root / "tmp")
    if strange:
        unusual(c["odd"])
    s = Session(c, root, data)
    s.scan.log = c["log"]
    s.scan.threads = c["threads"]
    s.scan.plot_event_summary = s.picker.plot_picks = s.trig.plot_trigger_summary = c["plots"]
    if s.mags:
        s.mags.plot = c["plots"]
    s.scan.write_cut_waveforms = bool(c["cuts"])
    for k in c["cuts"]:
        setattr(s.scan, {"raw": "write_cut_waveforms"}.get(k, f"write_{k}_waveforms"), True)
    reports = []
    with figkit.captured() as made:
        for h in [dict(op="detect", win=[0.0, SCAN]), dict(op="trigger", win=[0.0, SCAN]), *c["steps"]]:
            figure = current()
            before, mine = process(), given(s, None)
            if h["op"] in ("export", "stations"):
                err = attempt(export, s, h["op"])
            else:
                err = attempt(s.run, h["op"], h["win"])
            bad = differing(before, process()) + [f"the user's {k} changed" for k, v in given(s, None).items() if v != mine[k]]
            if current() != figure:
                bad.append(f"the current figure was {figure}, is {current()}")
            reports.append((h["op"], err[:2] if err else None, bad))
    keep = {k: v for k, v in tree(s.path).items() if not k.endswith((".log", ".pdf"))}
    return reports, keep, len(made)


def check(c, ctx):
    root = pathlib.Path(ctx.tmp())
    data = make_data(c)
    outs = []
    for strange in (False, True):
        kind, got = child(lambda: session(c, root / f"s{int(strange)}", data, strange), 200)
        if kind != "ok":
            ctx.fail(f"the session failed: {got}")
        outs.append(got)
    for strange, (reports, _, _) in enumerate(outs):
        for op, err, bad in reports:
            ctx.check(not bad, lambda: f"after {op}{' among unusual settings' * strange} (raised {err}): {'; '.join(bad)}")
            ctx.label(op, *([err[0]] if err else []))
    (r0, f0, n0), (r1, f1, n1) = outs
    ctx.equal([e for _, e, _ in r1], [e for _, e, _ in r0], "errors among unusual settings")
    ctx.equal(sorted(f1), sorted(f0), "files written among unusual settings")
    ctx.equal(n1, n0, "figures made among unusual settings")
    for k, v in f0.items():
        ctx.check(f1[k] == v, lambda: f"{k} differs among unusual settings")
    ctx.nontrivial(any(k.endswith(".event") for k in f0) or any("TriggeredEvents" in k and v.count(b"\n") > 1 for k, v in f0.items()))
    ctx.label("figures" if n0 else "no figures")


# ------------------------------------------------------------ other calls
def strat_calls():
    return fixed(seed=seeds, n=st.tuples(*[st.integers(3, 6)] * 3).map(list), m=st.integers(1, 4), units=sampled("km", "m"), method=sampled("homogeneous", "1dfmm"),
                 phases=sampled(["P", "S"], ["P"], ["S"]), save=st.booleans(), df=sampled([1, 1, 1], [2, 1, 2], [2, 2, 2]), odd=odd)


def calls(c, root, strange):
    for d in ("cwd", "tmp"):
        (root / d).mkdir(parents=True)
    os.chdir(root / "cwd")
    os.environ["TMPDIR"] = tempfile.tempdir = str(root / "tmp")
    if strange:
        unusual(c["odd"])
    u = 1.0 if c["units"] == "km" else 1000.0
    base = pipekit.network_lut(c["seed"], c["n"], c["m"], units=c["units"])
    g = dict(proj=dict(kind="lcc", units=c["units"], lon=10.0, lat=45.0), n=c["n"], frac=[0, 0, 0], dx=[2.0] * 3, off=[-5, -5, 0], scalar=False)
    spec = lutgen.spec(g)[0]
    rng = np.random.RandomState(c["seed"])
    lon, lat, _ = base.index2coord([[rng.randint(1, v - 1) for v in c["n"]] for _ in range(c["m"])]).T
    base.station_data.assign(Longitude=lon, Latitude=lat, Elevation=-base.station_data["Elevation"]).to_csv(root / "sta.csv", index=False)
    vm = pd.DataFrame({"Depth": np.array([-100.0, 2.0, 100.0]) * u, "Vp": np.array([4.5, 5.0, 6.0]) * u, "Vs": np.array([2.6, 2.9, 3.4]) * u})
    vm.to_csv(root / "vm.csv", index=False)
    (root / "out").mkdir()
    reports, out = [], {}

    def step(name, fn, **mine):
        before, was, figure = process(), {k: plain(v) for k, v in mine.items()}, current()
        err = attempt(fn)
        bad = differing(before, process()) + [f"the {k} it was given changed" for k, v in mine.items() if plain(v) != was[k]]
        if current() != figure:
            bad.append(f"the current figure was {figure}, is {current()}")
        reports.append((name, err[:2] if err else None, bad))

    def keep(name, fn):
        out[name] = fn()

    step("read_stations", lambda: keep("sta", lambda: read_stations(str(root / "sta.csv"))))
    step("read_vmodel", lambda: keep("vm", lambda: read_vmodel(str(root / "vm.csv"))))
    sta, vmod, phases = out["sta"], out["vm"], list(c["phases"])
    kw = dict(vp=5.0 * u, vs=3.0 * u) if c["method"] == "homogeneous" else dict(vmod=vmod)
    file = str(root / "out" / "t.lut")
    step("compute_traveltimes", lambda: keep("lut", lambda: compute_traveltimes(spec, sta, method=c["method"], phases=phases, save_file=file if c["save"] else None, **kw)),
         **{"grid specification": spec, "station table": sta, "velocity model": vmod, "list of phases": phases})
    if "lut" not in out:
        return reports, {k: plain(v) for k, v in out.items()}
    lut = out["lut"]
    step("save", lambda: lut.save(file), table=lut)
    step("read_lut", lambda: keep("read", lambda: read_lut(lut_file=file)))
    step("serve", lambda: keep("served", lambda: lut.serve_traveltimes(20)), table=lut)
    step("decimate", lambda: keep("small", lambda: lut.decimate(c["df"])), table=lut, factors=c["df"])
    at = [[1, 1, 1]]
    step("coordinates", lambda: (lut.index2coord(at), lut.coord2grid(lut.index2grid(at)), lut.traveltime_to(phases[0], [0.5, 1, 1])), table=lut, index=at)
    step("print", lambda: (str(lut), lut.max_extent, lut.max_traveltime, lut.station_extent), table=lut)
    left = [str(p) for d in ("cwd", "tmp") for p in (root / d).rglob("*")]
    if left:
        reports.append(("calls", None, [f"files left: {left}"]))
    return reports, {k: plain(v) for k, v in out.items()}


def check_calls(c, ctx):
    root = pathlib.Path(ctx.tmp())
    outs = []
    for strange in (False, True):
        kind, got = child(lambda: calls(c, root / f"s{int(strange)}", strange), 100)
        if kind != "ok":
            ctx.fail(f"the calls failed: {got}")
        outs.append(got)
    for strange, (reports, _) in enumerate(outs):
        for op, err, bad in reports:
            ctx.check(not bad, lambda: f"after {op}{' among unusual settings' * strange} (raised {err}): {'; '.join(bad)}")
            if err:
                ctx.label(f"{op} raised {err[0]}")
    ctx.equal([r[:2] for r in outs[1][0]], [r[:2] for r in outs[0][0]], "errors among unusual settings")
    for k, v in outs[0][1].items():
        ctx.check(outs[1][1][k] == v, lambda: f"result {k} differs among unusual settings")
    ctx.nontrivial(not any(e for _, e, _ in outs[0][0]))
    ctx.label(c["method"])


FACETS = [Facet("runs", strat, check, quick=60, thorough=1500, shards=6, rule="a run that triggered or located an event"),
          Facet("calls", strat_calls, check_calls, quick=60, thorough=1500, shards=2, rule="all calls succeeded")]
