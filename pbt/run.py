#!/usr/bin/env python3
"""Runner: builds /repo's C library, runs one property's facets, writes its evidence.

exit 0  the property held on everything explored
exit 1  VIOLATION printed
exit 2+ error of the check itself
"""
import argparse
import fcntl
import importlib
import json
import logging
import multiprocessing as mp
import os
import pathlib
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings
import zipfile

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("QM_REPO", "/repo"))
T0 = time.monotonic()
warnings.simplefilter("ignore")


def die(msg, code=2):
    print(f"ERROR: {msg}", file=sys.stderr)
    sys.stderr.flush()
    sys.exit(code)


# ----------------------------------------------------------------- bootstrap
def bootstrap_hypothesis(scratch):
    """Make hypothesis importable by the interpreter QuakeMigrate is installed in."""
    dest = pathlib.Path(scratch) / "site"
    dest.mkdir(exist_ok=True)
    sys.path.append(str(dest))
    try:
        import hypothesis  # noqa: F401
        return
    except ImportError:
        pass
    site = pathlib.Path("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    if (site / "hypothesis").is_dir() and sys.version_info[:2] == (3, 12):
        for n in ("hypothesis", "sortedcontainers", "attr", "attrs",
                  "_hypothesis_globals.py", "_hypothesis_ftz_detector.py"):
            if (site / n).exists():
                os.symlink(site / n, dest / n)
    else:
        wheels = pathlib.Path("/opt/veriftools/wheels")
        tag = f"cp{sys.version_info[0]}{sys.version_info[1]}"
        for pat in (f"hypothesis-*{tag}-*.whl", "sortedcontainers-*.whl", "attrs-*.whl"):
            for w in sorted(wheels.glob(pat))[:1]:
                zipfile.ZipFile(w).extractall(dest)
    importlib.invalidate_caches()
    import hypothesis  # noqa: F401


def build_library(scratch):
    """Compile /repo's C sources as they are now and install them where the package loads
    them from (a git-ignored file)."""
    src = REPO / "quakemigrate" / "core" / "src"
    work = pathlib.Path(scratch) / "build"
    (work / "quakemigrate" / "core").mkdir(parents=True)
    shutil.copy(REPO / "setup.py", work / "setup.py")
    shutil.copytree(src, work / "quakemigrate" / "core" / "src",
                    ignore=shutil.ignore_patterns("*.so", "*.o", "__pycache__"))
    for n in ("README.md", "quakemigrate/__init__.py"):
        if (REPO / n).exists():
            shutil.copy(REPO / n, work / n)
    r = subprocess.run(
        [sys.executable, "-W", "ignore", "setup.py", "-q", "build_ext", "--inplace", "--force"],
        cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    libs = list((work / "quakemigrate" / "core" / "src").glob("qmlib*.so"))
    if r.returncode or not libs:
        die("building the C library failed:\n" + r.stdout[-3000:], 3)
    with open("/tmp/.qm_pbt_build.lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        for lib in libs:
            dst = src / lib.name
            if dst.exists() and dst.read_bytes() == lib.read_bytes():
                continue
            tmp = src / f".{lib.name}.{os.getpid()}.so"
            shutil.copy(lib, tmp)
            os.replace(tmp, dst)
    shutil.rmtree(work, ignore_errors=True)


def import_package():
    sys.path.insert(0, str(REPO))
    sys.path.insert(0, str(VERIF / "pbt"))
    import quakemigrate
    f = pathlib.Path(quakemigrate.__file__).resolve()
    if REPO.resolve() not in f.parents:
        die(f"quakemigrate imported from {f}, not from {REPO}", 3)


# ----------------------------------------------------------------- findings
def read_known(prop):
    """known_findings.txt: 'finding: property=ID key=KEY what' / 'fixed: property=ID commit what'."""
    out = {}
    p = VERIF / "known_findings.txt"
    if p.exists():
        for line in p.read_text().splitlines():
            parts = line.split(None, 3)
            if len(parts) == 4 and parts[0] == "finding:" and parts[1] == f"property={prop}" \
                    and parts[2].startswith("key="):
                out[parts[2][4:]] = parts[3]
    return out


# ----------------------------------------------------------------- one case
class Hang(BaseException):
    pass


CPU_LIMIT = 240  # CPU seconds for one case (normal cases take well under a few seconds)


def classify(exc):
    """True if the exception is a statement about the code under test."""
    from harness import HarnessError, Violation
    if isinstance(exc, Violation):
        return True
    last = traceback.extract_tb(exc.__traceback__)
    if isinstance(exc, NameError) and last and str(REPO) + "/" in last[-1].filename:
        return True
    if isinstance(exc, (HarnessError, MemoryError, ImportError, NameError)):
        return False
    if isinstance(exc, OSError) and exc.errno in (28, 24, 23, 12):
        return False
    frames = [fr.filename for fr in traceback.extract_tb(exc.__traceback__)]
    in_repo = any(str(REPO) + "/" in f for f in frames)
    if isinstance(exc, AttributeError) and not in_repo and str(exc).startswith(
            ("module 'quakemigrate", "type object", "module ")):
        return False
    return True


def describe(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    where = [f"{fr.filename}:{fr.lineno}" for fr in tb if str(REPO) + "/" in fr.filename][-2:]
    return f"{type(exc).__name__}: {exc}" + (f" [{' <- '.join(reversed(where))}]" if where else "")


def reset_global_state():
    import numpy as np
    np.random.seed(12345)
    random.seed(12345)


def run_case(facet, case, scratch, known, stats):
    """Returns (nontrivial, exception or None)."""
    from harness import Ctx, KnownHit
    ctx = Ctx(scratch, known, stats)
    reset_global_state()

    def on_prof(signum, frame):
        raise Hang(f"case still running after {CPU_LIMIT} s of CPU time")

    old = signal.signal(signal.SIGPROF, on_prof)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    here = os.getcwd()
    try:
        facet.check(case, ctx)
        return ctx.is_nontrivial, None
    except KnownHit:
        return ctx.is_nontrivial, None
    except Hang as e:
        from harness import Violation
        v = Violation(f"no result: {e}")
        return ctx.is_nontrivial, v
    except Exception as e:  # noqa
        return ctx.is_nontrivial, e
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
        os.chdir(here)
        try:
            import matplotlib.pyplot as plt
            plt.close("all")
        except Exception:
            pass
        ctx.cleanup()


# ----------------------------------------------------------------- worker
def worker(facet, shard, nshards, n, seed, deadline, shrink_s, scratch, known, outpath):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from harness import case_key

    devnull = os.open(os.path.join(scratch, f"log-{facet.name}-{shard}"),
                      os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    logging.disable(logging.CRITICAL)
    wscratch = tempfile.mkdtemp(prefix=f"{facet.name}-{shard}-", dir=scratch)
    os.chdir(wscratch)
    cur = outpath + ".case"
    res = {"facet": facet.name, "shard": shard, "evaluations": 0, "keys": [], "labels": {},
           "samples": [], "violation": None, "error": None, "skipped": 0, "known": []}
    keys = set()
    st = {"fail": None, "fail_t": None}

    def execute(case):
        if st["fail_t"] is not None and time.monotonic() - st["fail_t"] > shrink_s:
            return None
        if st["fail_t"] is None and time.monotonic() > deadline:
            res["skipped"] += 1
            return None
        with open(cur, "w") as f:
            json.dump(case, f)
        case = json.loads(json.dumps(case))
        if st["fail"] is None:
            res["evaluations"] += 1
            stats = res["labels"]
        else:
            stats = {}
        nt, exc = run_case(facet, case, wscratch, known, stats)
        if st["fail"] is None and nt:
            k = case_key(case)
            if k not in keys:
                keys.add(k)
                if len(res["samples"]) < 2:
                    s = json.dumps(case)
                    if len(s) < 4000:
                        res["samples"].append({"facet": facet.name, "case": case})
        if exc is not None:
            size = len(json.dumps(case))
            if not classify(exc):
                if res["error"] is None:
                    res["error"] = "".join(traceback.format_exception(exc))[-3000:]
                raise exc
            if st["fail"] is None or size <= st["fail"][0]:
                st["fail"] = (size, case, describe(exc),
                              "".join(traceback.format_exception(exc))[-3000:])
            if st["fail_t"] is None:
                st["fail_t"] = time.monotonic()
        return exc

    try:
        if shard == 0:
            for case in facet.corpus:
                if execute(case) is not None:
                    break
        if st["fail"] is None and facet.strategy is not None and n > 0:
            @settings(max_examples=n, deadline=None, database=None,
                      suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                      phases=(Phase.generate, Phase.shrink), print_blob=False)
            @hypothesis.seed(seed * 1009 + shard * 7919 + 17)
            @given(facet.strategy())
            def prop(case):
                exc = execute(case)
                if exc is not None:
                    raise exc
            prop()
    except BaseException as e:  # noqa
        if st["fail"] is None and res["error"] is None:
            res["error"] = "".join(traceback.format_exception(e))[-3000:]
    if st["fail"] is not None:
        res["violation"] = {"case": st["fail"][1], "what": st["fail"][2], "trace": st["fail"][3]}
    res["keys"] = sorted(keys)
    res["log_tail"] = ""
    with open(outpath + ".tmp", "w") as f:
        json.dump(res, f)
    os.replace(outpath + ".tmp", outpath)
    os._exit(0)


# ----------------------------------------------------------------- main
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--facet")
    ap.add_argument("--scale", type=float, default=1.0, help="multiply the case counts")
    ap.add_argument("--jobs", type=int, default=0)
    a = ap.parse_args()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    scratch = tempfile.mkdtemp(prefix="qmpbt-")
    try:
        os.environ["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
        os.environ["TMPDIR"] = scratch
        tempfile.tempdir = scratch
        mplsrc = pathlib.Path("/opt/vp/mplconfig")
        if mplsrc.is_dir():
            shutil.copytree(mplsrc, os.environ["MPLCONFIGDIR"], dirs_exist_ok=True)
        else:
            os.makedirs(os.environ["MPLCONFIGDIR"])
        bootstrap_hypothesis(scratch)
        build_library(scratch)
        import_package()
        if a.setup:
            import quakemigrate  # noqa
            for m in sorted((VERIF / "pbt" / "checks").glob("c*.py")):
                importlib.import_module("checks." + m.stem)
            print("setup ok")
            return 0
        if not a.prop:
            die("property id needed")
        return run_property(a, tier, seed, scratch)
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)


def run_property(a, tier, seed, scratch):
    prop = a.prop
    mods = list((VERIF / "pbt" / "checks").glob(prop.lower() + "*.py"))
    if len(mods) != 1:
        die(f"no check for {prop}")
    mod = importlib.import_module("checks." + mods[0].stem)
    facets = {f.name: f for f in mod.FACETS}
    known = read_known(prop)

    if a.replay:
        d = json.load(open(a.replay))
        fac = facets[d["facet"]]
        os.chdir(scratch)
        logging.disable(logging.CRITICAL)
        for _ in range(d.get("repeat", 1)):
            nt, exc = run_case(fac, d["case"], scratch, known, {})
            if exc is not None:
                break
        if exc is None:
            print(f"replay of {a.replay}: property held")
            return 0
        traceback.print_exception(exc)
        if not classify(exc):
            return 2
        print(f"VIOLATION property={prop} replay={a.replay}")
        return 1

    budget = float(os.environ.get("VERIF_BUDGET_S", "0")) or (240 if tier == "quick" else 3000)
    shrink_s = 25 if tier == "quick" else 120
    deadline = T0 + budget
    ctx = mp.get_context("fork")
    jobs = []
    njobs = a.jobs or min(8, os.cpu_count() or 2)
    scale = a.scale
    for f in mod.FACETS:
        if a.facet and f.name != a.facet:
            continue
        total = max(1, int((f.quick if tier == "quick" else f.thorough) * scale))
        if f.strategy is None:
            shards = 1
        elif tier == "quick":
            shards = f.shards
        else:
            shards = max(f.shards, 4)
        per = -(-total // shards)
        for s in range(shards):
            jobs.append((f, s, shards, per))
    if not jobs:
        die("no facets")
    # probes of the known findings first (they must still fail to be listed)
    known_lines = []
    for key, what in known.items():
        probe = getattr(mod, "KNOWN_PROBES", {}).get(key)
        if probe is None:
            die(f"known finding {key} has no probe")
        pid = os.fork()
        if pid == 0:
            code = 9
            try:
                fd = os.open(os.devnull, os.O_WRONLY)
                os.dup2(fd, 1), os.dup2(fd, 2)
                logging.disable(logging.CRITICAL)
                os.chdir(scratch)
                st = {}
                run_case(facets[probe[0]], probe[1], scratch, known, st)
                code = 0 if st.get("known:" + key) else 1
            finally:
                os._exit(code)
        _, status = os.waitpid(pid, 0)
        if os.waitstatus_to_exitcode(status) == 0:
            known_lines.append(f"KNOWN-FINDING: property={prop} {what}")
    running, results, problems, crashed = {}, [], [], []
    queue = list(jobs)
    stop = False
    hard = T0 + budget + (300 if tier == "quick" else 600)
    while queue or running:
        while queue and len(running) < njobs and not stop:
            f, s, ns, per = queue.pop(0)
            out = os.path.join(scratch, f"res-{f.name}-{s}.json")
            p = ctx.Process(target=worker, args=(f, s, ns, per, seed, deadline, shrink_s, scratch,
                                                 set(known), out))
            p.start()
            running[p.pid] = (p, f, s, out)
        if stop and hard > time.monotonic() + 60:
            queue = []
            hard = time.monotonic() + 60     # grace for the other workers, then verdict
        time.sleep(0.02)
        for pid in list(running):
            p, f, s, out = running[pid]
            if p.is_alive():
                if time.monotonic() > hard:
                    p.kill()
                    p.join()
                    if not stop:
                        problems.append(f"{f.name}[{s}]: no answer in time")
                    del running[pid]
                continue
            p.join()
            del running[pid]
            if os.path.exists(out):
                r = json.load(open(out))
                results.append(r)
                if r["violation"]:
                    stop = True
            elif p.exitcode in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGFPE,
                                -signal.SIGILL):
                try:
                    case = json.load(open(out + ".case"))
                except Exception:
                    case = None
                crashed.append((f.name, case, f"process died with signal {-p.exitcode}"))
                stop = True
            else:
                problems.append(f"{f.name}[{s}]: worker exit {p.exitcode}")
                stop = True
    # --- collect
    ev = sum(r["evaluations"] for r in results)
    keys, per_facet, labels, samples = set(), {}, {}, []
    viol = []
    for r in results:
        ks = {r["facet"] + ":" + k for k in r["keys"]}
        keys |= ks
        pf = per_facet.setdefault(r["facet"], {"evaluations": 0, "nontrivial": set(), "skipped": 0})
        pf["evaluations"] += r["evaluations"]
        pf["nontrivial"] |= ks
        pf["skipped"] += r["skipped"]
        for k, v in r["labels"].items():
            labels[f"{r['facet']}:{k}"] = labels.get(f"{r['facet']}:{k}", 0) + v
        if r["samples"] and sum(s["facet"] == r["facet"] for s in samples) < 2:
            samples.extend(r["samples"][:1])
        if r["violation"]:
            viol.append((r["facet"], r["violation"]["case"], r["violation"]["what"],
                         r["violation"]["trace"]))
        if r["error"]:
            problems.append(f"{r['facet']}[{r['shard']}]: {r['error']}")
    viol += [(n, c, w, "") for n, c, w in crashed]
    for k in per_facet:
        per_facet[k] = {"evaluations": per_facet[k]["evaluations"],
                        "distinct_nontrivial": len(per_facet[k]["nontrivial"]),
                        "skipped_for_time": per_facet[k]["skipped"]}
    rule = "; ".join(f"{f.name}: {f.rule}" for f in mod.FACETS if f.rule)
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": ev, "distinct_nontrivial": len(keys), "rule": rule,
                     "samples": samples[:12], "facets": per_facet, "labels": labels},
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.monotonic() - T0, 2), "violations": len(viol)}
    (VERIF / "evidence").mkdir(exist_ok=True)
    tmp = VERIF / "evidence" / f".{prop}.{os.getpid()}.tmp"
    tmp.write_text(json.dumps(evidence, indent=1))
    os.replace(tmp, VERIF / "evidence" / f"{prop}.json")
    for line in known_lines:
        print(line)
    if viol:
        (VERIF / "replays").mkdir(exist_ok=True)
        viol.sort(key=lambda v: len(json.dumps(v[1])))
        seen = set()
        for name, case, what, trace in viol:
            if name in seen:
                continue
            seen.add(name)
            path = VERIF / "replays" / f"{prop}-{name}-seed{seed}.json"
            path.write_text(json.dumps({"property": prop, "facet": name, "case": case,
                                        "what": what, "trace": trace}, indent=1))
            print(f"# {name}: {what[:600]}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if problems:
        for p in problems:
            print(f"ERROR: {p}", file=sys.stderr)
        return 2
    print(f"{prop}: held on {ev} cases ({len(keys)} distinct non-trivial), "
          f"{evidence['wall_s']} s")
    return 0


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    sys.exit(code)
