"""C02: peak search against numpy."""
import numpy as np
from hypothesis import strategies as st

from harness import Facet
from quakemigrate.core import find_max_coa, migrate
from strategies import fixed, ints, one_in, sampled, seeds


def strat():
    return fixed(
        shape=st.lists(st.integers(1, 6), min_size=3, max_size=3),
        n_samples=st.integers(1, 40),
        mode=sampled("uniform", "ties", "constant", "peak", "huge", "tiny", "last", "first"),
        threads=st.integers(1, 8),
        seed=seeds,
    )


def make(c):
    rng = np.random.RandomState(c["seed"])
    shp = tuple(c["shape"]) + (c["n_samples"],)
    m = c["mode"]
    if m == "uniform":
        a = rng.uniform(0.01, 10, shp)
    elif m == "ties":
        a = rng.randint(1, 4, shp).astype(float)
    elif m == "constant":
        a = np.full(shp, rng.uniform(0.1, 3))
    elif m == "huge":
        a = 10 ** rng.uniform(0, 12, shp)
    elif m == "tiny":
        a = 10 ** rng.uniform(-12, 0, shp)
    else:
        a = rng.uniform(0.5, 1, shp)
        n = int(np.prod(c["shape"]))
        flat = a.reshape(n, -1)
        for s in range(flat.shape[1]):
            node = {"peak": rng.randint(n), "last": n - 1, "first": 0}[m]
            flat[node, s] = 1 + rng.rand()
    return np.ascontiguousarray(a)


def check(c, ctx):
    a = make(c)
    a0 = a.copy()
    mx, norm, idx = find_max_coa(a, c["threads"])
    flat = a0.reshape(-1, c["n_samples"])
    ctx.equal(a, a0, "map modified")
    ctx.equal(mx, flat.max(axis=0), "maximum coalescence")
    ctx.equal(np.asarray(idx).astype(int), flat.argmax(axis=0), "index of the maximum")
    ctx.close(norm, flat.max(axis=0) / flat.mean(axis=0), "normalised coalescence", rtol=1e-9, atol=0)
    m1 = find_max_coa(a, 1 if c["threads"] > 1 else 6)
    for x, y, w in zip(m1, (mx, norm, idx), ("max", "norm", "index")):
        ctx.equal(x, y, f"{w} depends on the number of threads")
    ctx.nontrivial(flat.shape[0] > 1 and c["mode"] != "constant")
    ctx.label(c["mode"])


def strat_pipe():
    return fixed(shape=st.lists(st.integers(1, 5), min_size=3, max_size=3), n_onsets=st.integers(1, 6),
                 n_samples=st.integers(1, 60), pad=st.integers(0, 15), threads=st.integers(1, 4), seed=seeds)


def check_pipe(c, ctx):
    """Peak search on a map that really came from migration: the planted source wins."""
    rng = np.random.RandomState(c["seed"])
    n, t = c["n_onsets"], c["n_samples"]
    tt = rng.randint(0, c["pad"] + 1, tuple(c["shape"]) + (n,)).astype(np.int32)
    node = tuple(rng.randint(0, s) for s in c["shape"])
    t0 = rng.randint(0, t)
    on = rng.uniform(0.5, 1.0, (n, t + c["pad"]))
    for k in range(n):
        on[k, t0 + tt[node + (k,)]] = 50.0
    m = migrate(on, np.ascontiguousarray(tt), 0, c["pad"], n, c["threads"])
    mx, norm, idx = find_max_coa(m, c["threads"])
    ctx.close(mx[t0], 50.0, "coalescence at the planted origin time", rtol=1e-9)
    got = np.unravel_index(int(idx[t0]), c["shape"])
    ctx.equal(list(map(int, tt[got])), list(map(int, tt[node])),
              "node of maximum does not have the traveltimes of the source")
    flat = tt.reshape(-1, n)
    first = int(np.argmax((flat == tt[node]).all(axis=1)))
    ctx.equal(int(idx[t0]), first, "first node with the source's traveltimes")
    ctx.nontrivial(n > 1 and c["pad"] > 0)


def strat_large():
    return fixed(nodes=one_in(4, ints(1, 300), one_in(2, ints(300, 5000), ints(4097, 60000))), fac=st.integers(1, 3), n_samples=ints(1, 3000),
                 mode=sampled("uniform", "ties", "last", "edge"), threads=st.integers(1, 16), seed=seeds)


def check_large(c, ctx):
    """Realistic sizes, Fortran-ordered and strided maps included (which may be rejected, but not misread)."""
    n = c["nodes"]
    ns = max(1, min(c["n_samples"], 4 * 10**6 // n))
    rng = np.random.default_rng(c["seed"])
    a = rng.integers(1, 1000, (n, ns)).astype(float) if c["mode"] == "ties" else rng.random((n, ns)) + 0.5
    if c["mode"] in ("last", "edge"):
        node = n - 1 if c["mode"] == "last" else rng.integers(n)
        a[node] = 2 + rng.random(ns)
    shape = (n, 1, 1) if n % (c["fac"] + 1) else (c["fac"] + 1, 1, n // (c["fac"] + 1))
    mx, norm, idx = find_max_coa(a.reshape(*shape, ns), c["threads"])
    ctx.equal(mx, a.max(axis=0), "maximum coalescence")
    ctx.equal(np.asarray(idx).astype(int), a.argmax(axis=0), "index of the maximum")
    ctx.close(norm, a.max(axis=0) / a.mean(axis=0), "normalised coalescence", rtol=1e-9, atol=0)
    if a.size < 10**5:
        for b in (np.asfortranarray(a.reshape(*shape, ns)), np.repeat(a, 2, axis=1)[:, ::2].reshape(*shape, ns), a.astype("f4").reshape(*shape, ns)):
            try:
                m = find_max_coa(b, c["threads"])
            except Exception:
                continue
            ctx.equal(m[0], b.reshape(n, ns).max(axis=0).astype(float), "maximum coalescence of a map of another layout")
    ctx.nontrivial(n > 300 or ns > 300)
    ctx.label("nodes>4096" if n > 4096 else "nodes<=4096", "samples>1000" if ns > 1000 else "samples<=1000")


FACETS = [
    Facet("large", strat_large, check_large, quick=60, thorough=3000, shards=2, rule="more than 300 nodes or samples"),
    Facet("reference", strat, check, quick=2000, thorough=80000, shards=4,
          rule="maps <=6^3 nodes x <=40 samples in eight regimes incl. ties, 1-8 threads; "
               "non-trivial: several nodes and a non-constant map"),
    Facet("planted", strat_pipe, check_pipe, quick=800, thorough=30000, shards=2,
          rule="random tables with a planted coherent source; non-trivial: >1 station, traveltimes > 0"),
]
