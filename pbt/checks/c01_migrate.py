"""C01: the migration kernel against a direct per-node reference."""
import json
import os
import pathlib
import shutil
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

from harness import Facet, HarnessError, Violation
from quakemigrate.core import migrate
from strategies import fixed, ints, one_in, rounded, sampled, seeds

ASSUMPTIONS = ["traveltimes (in samples) never exceed the trailing pad, as the callers guarantee"]


def strat(max_nodes=5, max_t=40):
    dims = st.integers(1, max_nodes)
    return fixed(
        shape=st.lists(dims, min_size=3, max_size=3),
        n_onsets=st.integers(1, 8),
        n_samples=st.integers(1, max_t),
        first=one_in(3, st.just(0), st.integers(1, 20)),
        last=one_in(4, st.just(0), st.integers(1, 25)),
        avail_delta=one_in(4, st.integers(1, 3), st.just(0)),
        threads=st.integers(1, 8),
        tt_mode=sampled("random", "random", "random", "mixed", "max", "zero", "negative", "mixed"),
        on_mode=sampled("uniform", "spiky", "clipped", "zeros", "huge", "tiny", "int"),
        seed=seeds,
    )


def arrays(c):
    rng = np.random.RandomState(c["seed"])
    n, t = c["n_onsets"], c["n_samples"] + c["first"] + c["last"]
    m = c["on_mode"]
    if m == "uniform":
        on = rng.uniform(0.01, 5, (n, t))
    elif m == "spiky":
        on = np.where(rng.rand(n, t) < 0.1, rng.uniform(1, 1e4, (n, t)), 1.0)
    elif m == "clipped":
        on = rng.uniform(-0.5, 0.05, (n, t))
    elif m == "zeros":
        on = np.where(rng.rand(n, t) < 0.5, 0.0, rng.uniform(0, 2, (n, t)))
    elif m == "huge":
        on = 10 ** rng.uniform(-3, 12, (n, t))
    elif m == "tiny":
        on = 10 ** rng.uniform(-300, 1, (n, t))
    else:
        on = rng.randint(0, 9, (n, t)).astype(float)
    shp = tuple(c["shape"]) + (n,)
    hi = c["last"]
    m = c["tt_mode"]
    if m == "random":
        tt = rng.randint(0, hi + 1, shp)
    elif m == "max":
        tt = np.full(shp, hi)
    elif m == "zero":
        tt = np.zeros(shp)
    elif m == "negative":
        tt = -rng.randint(0, 50, shp)
    else:
        tt = rng.randint(-hi - 2, hi + 1, shp)
    return on, np.ascontiguousarray(tt, dtype=np.int32)


def reference(on, tt, first, last, avail):
    n, t = on.shape
    ns = t - first - last
    lg = np.log(np.where(on < 0.01, 0.01, on))
    out = np.empty(tt.shape[:3] + (ns,))
    for i in np.ndindex(*tt.shape[:3]):
        acc = np.zeros(ns)
        for k in range(n):
            s = first + max(0, int(tt[i + (k,)]))
            acc += lg[k, s:s + ns]
        out[i] = np.exp(acc / avail)
    return out


def check(c, ctx):
    on, tt = arrays(c)
    avail = c["n_onsets"] + c["avail_delta"]
    on0, tt0 = on.copy(), tt.copy()
    got = migrate(on, tt, c["first"], c["last"], avail, c["threads"])
    exp = reference(on0, tt0, c["first"], c["last"], avail)
    ctx.close(got, exp, "coalescence map", rtol=1e-9, atol=0)
    ctx.equal(on, on0, "onsets argument modified")
    ctx.equal(tt, tt0, "traveltime argument modified")
    # thread count
    other = migrate(on, tt, c["first"], c["last"], avail, 1 if c["threads"] > 1 else 5)
    ctx.equal(other, got, "result depends on the number of threads")
    # order of station-phases
    perm = np.random.RandomState(c["seed"] ^ 1).permutation(c["n_onsets"])
    p = migrate(np.ascontiguousarray(on[perm]), np.ascontiguousarray(tt[..., perm]),
                c["first"], c["last"], avail, c["threads"])
    ctx.close(p, got, "result depends on the order of station-phases", rtol=1e-9, atol=0)
    ctx.nontrivial(len({*tt.ravel()}) > 1 and got.size > 1)
    ctx.label(c["tt_mode"], c["on_mode"], f"threads>1:{c['threads'] > 1}")


def strat_mismatch():
    return fixed(base=strat(3, 10), extra=sampled(-2, -1, 1, 2, 3))


def check_mismatch(c, ctx):
    """A different number of onsets and tables is rejected."""
    b = c["base"]
    on, tt = arrays(b)
    n = max(1, b["n_onsets"] + c["extra"])
    if n == b["n_onsets"]:
        n += 1
    tt = np.ascontiguousarray(np.zeros(tt.shape[:3] + (n,)), dtype=np.int32)
    ctx.raises(ValueError, lambda: migrate(on, tt, b["first"], b["last"], n, b["threads"]),
               f"{b['n_onsets']} onsets with {n} tables")
    ctx.nontrivial()


# --- realistic sizes
def strat_large():
    return fixed(shape=st.tuples(st.integers(1, 60), st.integers(1, 60), st.integers(1, 40)).map(list), n_onsets=st.integers(1, 150),
                 n_samples=one_in(2, st.integers(1, 70), ints(700, 3000)), first=ints(0, 300), last=ints(0, 400),
                 threads=st.integers(1, 16), tt_mode=sampled("random", "mixed"), on_mode=sampled("uniform", "spiky", "huge"), seed=seeds)


def fit_large(c):
    """Sizes scaled down to at most 3 million output values and 60 million additions."""
    s, n, t = list(c["shape"]), c["n_onsets"], c["n_samples"]
    while np.prod(s) * t > 3e6 or np.prod(s) * t * n > 6e7:
        if np.prod(s) * t > 3e6 or n < 4:
            i = int(np.argmax(s))
            if s[i] > 4 and (c["seed"] % 2 or t < 40):
                s[i] = s[i] * 2 // 3
            else:
                t = max(1, t * 2 // 3)
        else:
            n = n * 2 // 3
    return dict(c, shape=s, n_onsets=n, n_samples=t)


def check_large(c, ctx):
    c = fit_large(c)
    on, tt = arrays(c)
    n, ns = c["n_onsets"], c["n_samples"]
    got = migrate(on.copy(), tt, c["first"], c["last"], n, c["threads"])
    lg = np.log(np.where(on < 0.01, 0.01, on))
    flat = np.maximum(tt.reshape(-1, n), 0)
    acc = np.zeros((len(flat), ns))
    for k in range(n):
        win = np.lib.stride_tricks.sliding_window_view(lg[k], ns)
        acc += win[c["first"] + flat[:, k]]
    ctx.equal(list(got.shape), c["shape"] + [ns], "shape of the coalescence map")
    ctx.close(got.reshape(-1, ns), np.exp(acc / n), "coalescence map", rtol=1e-9, atol=0)
    ctx.nontrivial(len(flat) > 200 or n > 20 or ns > 200)
    ctx.label("nodes>4096" if len(flat) > 4096 else "nodes<=4096", "samples>1000" if ns > 1000 else "samples<=1000", "onsets>40" if n > 40 else "onsets<=40")


# --- arrays of other layouts and types are migrated correctly or rejected
def strat_layout():
    return fixed(base=strat(4, 20), on=sampled("c", "f", "strided", "f4", "list"), tt=sampled("c", "f", "strided", "i8", "f8", "i2"))


def check_layout(c, ctx):
    b = c["base"]
    on, tt = arrays(b)
    exp = reference(on, tt, b["first"], b["last"], b["n_onsets"])
    a = {"c": on, "f": np.asfortranarray(on), "strided": np.repeat(on, 2, axis=1)[:, ::2], "f4": on.astype("f4"), "list": on.tolist()}[c["on"]]
    t = {"c": tt, "f": np.asfortranarray(tt), "strided": np.repeat(tt, 2, axis=2)[:, :, ::2], "i8": tt.astype("i8"), "f8": tt.astype("f8"),
         "i2": tt.astype("i2")}[c["tt"]]
    try:
        got = migrate(a, t, b["first"], b["last"], b["n_onsets"], b["threads"])
    except Exception:
        ctx.check((c["on"], c["tt"]) != ("c", "c"), "plain arrays rejected")
        ctx.label("rejected")
        return
    ctx.close(got, exp, f"coalescence map of {c['on']} onsets and {c['tt']} traveltimes", rtol=1e-9 if c["on"] != "f4" else 1e-4, atol=0)
    ctx.nontrivial(exp.size > 1)


# --- memory safety under AddressSanitizer -----------------------------------------
_ASAN = {}


def asan_package(root):
    """A scratch copy of the package whose C library is built with AddressSanitizer."""
    if _ASAN.get("root"):
        return _ASAN["root"]
    import distutils.sysconfig as sc
    import quakemigrate
    src = pathlib.Path(quakemigrate.__file__).resolve().parent
    dst = pathlib.Path(root) / "asan" / "quakemigrate"
    shutil.copytree(src, dst, ignore=shutil.ignore_patterns("*.so", "__pycache__"))
    csrc = dst / "core" / "src"
    lib = csrc / ("qmlib" + sc.get_config_var("EXT_SUFFIX"))
    r = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-g", "-fopenmp", "-fsanitize=address",
                        "-I", str(csrc), "-o", str(lib)]
                       + [str(p) for p in sorted(csrc.glob("*.c"))] + ["-lm"],
                       capture_output=True, text=True)
    if r.returncode:
        raise HarnessError("cannot build with AddressSanitizer: " + r.stderr[-500:])
    _ASAN["root"] = str(dst.parent)
    return _ASAN["root"]


def run_asan(root, script, cases):
    pre = " ".join(subprocess.run(["gcc", f"-print-file-name={n}"], capture_output=True,
                                  text=True).stdout.strip() for n in ("libasan.so", "libstdc++.so"))
    env = dict(os.environ, LD_PRELOAD=pre, PYTHONMALLOC="malloc", OMP_NUM_THREADS="2",
               ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1")
    r = subprocess.run([sys.executable, "-W", "ignore", str(pathlib.Path(__file__).parent / script),
                        root, str(pathlib.Path(__file__).resolve().parent.parent)]
                       + [p for p in sys.path if p.endswith("/site")],
                       input=json.dumps(cases), capture_output=True, text=True, env=env)
    i = r.stderr.find("ERROR: AddressSanitizer")
    if i >= 0 and "qmlib" in r.stderr[i:]:
        raise Violation("memory error: " + r.stderr[i:i + 600])
    if r.returncode != 0:
        raise HarnessError(f"sanitized run ended with {r.returncode}: {r.stderr[-800:]}")
    return r.stdout


def check_asan(c, ctx):
    run_asan(asan_package(ctx._scratch), "asan_kernels.py", {"migrate": c})
    ctx.nontrivial()
    ctx.label(f"batch>=10:{len(c) >= 10}")


FACETS = [
    Facet("reference", strat, check, quick=1600, thorough=60000, shards=5,
          rule="grids <=5^3 x <=8 onsets x <=85 samples, five traveltime and seven onset regimes, "
               "1-8 threads; non-trivial: more than one distinct traveltime and output value"),
    Facet("mismatch", strat_mismatch, check_mismatch, quick=100, thorough=1000,
          rule="number of onsets differs from number of tables"),
    Facet("large", strat_large, check_large, quick=64, thorough=3000, shards=4,
          rule="more than 200 nodes, 20 onsets or 200 samples"),
    Facet("layout", strat_layout, check_layout, quick=200, thorough=5000, rule="accepted, with more than one output value"),
    Facet("asan", lambda: st.lists(strat(4, 30), min_size=30, max_size=60), check_asan, quick=2,
          thorough=60, rule="batches of 10-40 of the same cases under AddressSanitizer"),
]
