"""C19: the three location estimators applied to generated coalescence maps."""
import os

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from obspy import UTCDateTime

import e2e
import locref
import lutgen
from harness import Facet
from quakemigrate import QuakeScan
from quakemigrate.io.event import Event
from strategies import fixed, one_in, rounded, sampled, seeds

ASSUMPTIONS = ["maps are positive and finite (they are exponentials), on grids of more than one node",
               "where several nodes tie for the maximum any of them may be taken",
               "the Gaussian estimate is compared where its least-squares problem is well conditioned; "
               "the overall scale of its uncertainty is not specified, only its distribution over the axes"]


def maps_strat():
    return fixed(kind=one_in(3, sampled("random", "smooth", "corner"), sampled("peak", "peak", "two")),
                 at=st.tuples(*[one_in(4, rounded(0, 1, 3), sampled(0.0, 1.0, 0.02, 0.98))] * 3).map(list),
                 sigma=st.tuples(*[rounded(0.6, 6, 2)] * 3).map(list),
                 tilt=one_in(2, st.just(0.0), rounded(0.0, 1.0, 2)), background=sampled(0.0, 0.0, 0.05, 0.3, 0.8, 0.95),
                 noise=one_in(2, st.just(0.0), sampled(0.001, 0.02, 0.2)), ontop=st.booleans(),
                 scale=sampled(1.0, 7.3, 1e-3, 1e3), nt=st.integers(1, 4), seed=seeds)


def make_map(k, shape):
    rng = np.random.RandomState(k["seed"])
    shape = tuple(shape)
    ix = np.stack(np.meshgrid(*[np.arange(n) for n in shape], indexing="ij"), -1).astype(float)
    c = np.array(k["at"]) * (np.array(shape) - 1)
    if k["ontop"]:
        c = np.round(c)
    if k["kind"] == "random":
        return rng.uniform(0.05, 1, shape) * k["scale"], c
    if k["kind"] == "corner":
        c = np.where(rng.rand(3) < 0.5, 0, np.array(shape) - 1).astype(float)
    Q = np.diag(1 / np.array(k["sigma"]) ** 2)
    if k["tilt"]:
        q, _ = np.linalg.qr(np.eye(3) + k["tilt"] * rng.normal(0, 0.5, (3, 3)))
        Q = q @ Q @ q.T
    g = np.exp(-0.5 * np.einsum("...i,ij,...j", ix - c, Q, ix - c))
    if k["kind"] == "two":
        c2 = rng.uniform(0, 1, 3) * (np.array(shape) - 1)
        g = np.maximum(g, 0.97 * np.exp(-0.5 * np.einsum("...i,ij,...j", ix - c2, Q, ix - c2)))
    if k["kind"] == "smooth":
        g = locref.smooth(rng.rand(*shape), 1.5)
    m = k["background"] + (1 - k["background"]) * g + k["noise"] * rng.rand(*shape) * 0.3
    return (m + 1e-12) * k["scale"], c


def over_time(m, k):
    """A 4-D map whose sum over time is the given map."""
    rng = np.random.RandomState(k["seed"] + 1)
    w = rng.uniform(0.1, 1, k["nt"])
    return m[..., None] * (w / w.sum())


def locate(scan, m4):
    ev = Event(1.0, pd.Series(dict(EventID="1", CoaTime=UTCDateTime(0), TRIG_COA=1.0, COA=1.0, COA_NORM=1.0)))
    n = m4.shape[-1]
    flat = m4.reshape(-1, n)
    times = np.array([UTCDateTime(0) + 0.02 * i for i in range(n)])
    ev.add_compute_output(times, flat.max(0), flat.max(0) / flat.mean(0), np.zeros((n, 3)), m4, None)
    scan._calculate_location(ev)
    return ev


def make_scan(g, ctx):
    lut = lutgen.random_lut(g, 1, 1, phases=["P"])
    root = ctx.tmp()
    arch = e2e.archive(os.path.join(root, "a"), ["ST0"])
    return QuakeScan(arch, lut, e2e.PointOnset(50, ["P"], 1, 1), root, "r", loglevel="critical"), lut


def indices(ev, lut):
    return {m: locref.index(lut, ev.get_hypocentre(m)) for m in ("spline", "gaussian", "covariance")}


def verify(ctx, ev, lut, m):
    """All three locations of an event against the references, m being the normalised map."""
    dx = np.asarray(lut.node_spacing, float)
    got = indices(ev, lut)
    # --- covariance
    mean, sig, clear = locref.covariance(m, lut)
    if clear:
        ctx.close(got["covariance"], mean, "covariance location (grid index)", rtol=0, atol=3e-5)
        unc = ev.get_loc_uncertainty("covariance")
        ctx.close(unc, sig, "covariance uncertainty", rtol=1e-6, atol=1e-5 * dx.max())
        if sig.min() > 1e-3 * dx.max():
            ctx.close(ev.locations["covariance"]["Err_XYZ"], np.prod(sig) ** (1 / 3),
                      "geometric mean of the covariance uncertainty", rtol=1e-5)
        ctx.label("covariance compared")
    # --- spline
    tops = np.argwhere(m >= m.max() * (1 - 1e-12))
    ctx.check(any((np.abs(got["spline"] - t) <= 2 + 1e-4).all() for t in tops),
              lambda: f"spline location {got['spline']} is not near the maximum at node {tops[0]}")
    ok = False
    for t in tops[:4]:
        s = locref.Spline(m, t)
        if not s.cubic:
            ok = ok or np.allclose(got["spline"], t, atol=3e-5, rtol=0)
            ctx.label("spline window cut by the grid edge")
            continue
        ctx.label("spline compared")
        if np.any(got["spline"] < s.lo - 1e-4) or np.any(got["spline"] > s.hi - 1 + 1e-4):
            continue
        v = s.value(got["spline"])[0]
        best = s.best()
        if v >= s.max - 1e-5 and v >= best[1] - 1e-5:
            ok = True
    ctx.check(ok, lambda: f"spline location (grid index) {got['spline']}; maximum at node {tops[0]}, "
              f"its interpolated maximum at {locref.Spline(m, tops[0]).best()[0] if locref.Spline(m, tops[0]).cubic else 'the node'}")
    # --- Gaussian
    single = np.array(m.shape) == 1
    if single.any() and m.max() - m.min() > 0.05:
        ctx.close(got["gaussian"][single], np.zeros(single.sum()), "Gaussian location on a single-node axis", rtol=0, atol=0.5)
        ctx.label("single-node axis")
    at, H = locref.gaussian(m)
    if at is not None and np.abs(at).max() < 1e4:
        ctx.label("Gaussian compared")
        ctx.close(got["gaussian"], at, "Gaussian location (grid index)", rtol=1e-4, atol=1e-3)
        val, vec = np.linalg.eigh(H)
        own = np.abs(vec).argmax(0)
        if len(set(own)) == 3 and np.abs(vec).max(0).min() > 0.85 and np.abs(val).min() > 1e-6:
            rel = np.zeros(3)
            rel[own] = 1 / np.sqrt(np.abs(val))
            unc = np.asarray(ev.get_loc_uncertainty("gaussian")) / dx
            ctx.check(np.all(unc > 0), lambda: f"Gaussian uncertainty {unc}")
            ctx.close(unc / unc.sum(), rel / rel.sum(), "Gaussian uncertainty over the axes", rtol=1e-2, atol=1e-3)
            ctx.label("Gaussian uncertainty compared")
    return got


# ---------------------------------------------------------------- one map
def strat_map():
    return fixed(grid=lutgen.grid_strat(13), map=maps_strat(), big=st.booleans())


def check_map(c, ctx):
    g = dict(c["grid"])
    if c["big"]:
        g["n"] = [max(n, 7) for n in g["n"]]
    scan, lut = make_scan(g, ctx)
    shape = tuple(lut.node_count)
    if np.prod(shape) == 1:
        return
    m0, centre = make_map(c["map"], shape)
    m4 = over_time(m0, c["map"])
    keep = m4.copy()
    ev = locate(scan, m4)
    ctx.equal(m4, keep, "the 4-D map is left as it was")
    m = locref.normalise(m4.sum(-1))
    got = verify(ctx, ev, lut, m)
    ctx.nontrivial(len(np.unique(m)) > 1)
    # --- a clean Gaussian-shaped peak away from the edges
    k = c["map"]
    n = np.array(shape)
    if k["kind"] == "peak" and not k["noise"] and (n >= 7).all() and (centre >= 3).all() and (centre <= n - 4).all() \
            and 0.8 <= min(k["sigma"]) and max(k["sigma"]) <= 3:
        ctx.close(got["gaussian"], centre, "Gaussian location of a Gaussian peak", rtol=0, atol=0.75)
        ctx.close(got["spline"], centre, "spline location of a Gaussian peak", rtol=0, atol=0.5)
        ctx.label("clean peak")
    # --- locations are reported in the geographic frame of the grid
    for name in ("spline", "covariance"):
        ctx.close(ev.get_hypocentre(name), locref.xyz(lut, got[name]), name, rtol=1e-9, atol=1e-6)


# ---------------------------------------------------------------- mirrored, permuted, shifted maps
def strat_equi():
    return fixed(grid=lutgen.grid_strat(8), map=maps_strat(), perm=st.permutations([0, 1, 2]),
                 flip=st.tuples(*[st.booleans()] * 3).map(list), pad=st.tuples(*[st.integers(0, 3)] * 6).map(list))


def check_equi(c, ctx):
    g = dict(c["grid"], n=[max(n, 2) for n in c["grid"]["n"]], frac=[0, 0, 0])
    g["dx"] = [g["dx"][0]] * 3
    g["scalar"] = False
    scan, lut = make_scan(g, ctx)
    m0, _ = make_map(c["map"], lut.node_count)
    if np.sum(m0 >= m0.max() * (1 - 1e-9)) > 1:
        return
    a = locate(scan, m0[..., None].copy())
    ia = indices(a, lut)
    ea = {k: np.asarray(a.get_loc_uncertainty(k)) for k in ("gaussian", "covariance")}
    mn = locref.normalise(m0)
    at, H = locref.gaussian(mn)
    stable = at is not None and np.abs(at).max() < 1e3
    clear = locref.covariance(mn, lut)[2]
    sp = locref.Spline(mn)
    n = np.array(m0.shape)
    p, f = list(c["perm"]), np.array(c["flip"])
    scan2, lut2 = make_scan(dict(g, n=[g["n"][k] for k in p]), ctx)
    m1 = m0
    for ax in range(3):
        if f[ax]:
            m1 = np.flip(m1, ax)
    m1 = np.ascontiguousarray(m1.transpose(p))
    b = locate(scan2, m1[..., None].copy())
    ib = indices(b, lut2)
    eb = {k: np.asarray(b.get_loc_uncertainty(k)) for k in ("gaussian", "covariance")}

    def move(i):
        return np.where(f, n - 1 - i, i)[p]

    if clear:
        ctx.close(ib["covariance"], move(ia["covariance"]), "covariance location of the mirrored map", rtol=0, atol=5e-5)
        ctx.close(eb["covariance"], ea["covariance"][p], "covariance uncertainty of the mirrored map", rtol=1e-5, atol=1e-4)
    if stable and all(n[ax] % 2 for ax in range(3) if f[ax]):
        # (the smoothing kernel has no central node on an axis of even length: its truncation at the edges
        # is not symmetric there)
        ctx.close(ib["gaussian"], move(ia["gaussian"]), "Gaussian location of the mirrored map", rtol=1e-4, atol=2e-3)
        val, vec = np.linalg.eigh(H)
        if np.abs(vec).max(0).min() > 0.85 and np.abs(val).min() > 1e-6:
            ctx.close(eb["gaussian"], ea["gaussian"][p], "Gaussian uncertainty of the mirrored map", rtol=1e-2, atol=1e-6)
            ctx.label("Gaussian uncertainty")
    if sp.cubic:
        # the 0.1-node lattice maps onto itself; nearly equal maxima may swap
        va = sp.value(ia["spline"])[0]
        back = np.empty(3)
        back[p] = ib["spline"]
        back = np.where(f, n - 1 - back, back)
        ctx.close(sp.value(back)[0], va, "value at the spline location of the mirrored map", rtol=0, atol=1e-5)
    else:
        ctx.close(ib["spline"], move(ia["spline"]), "spline location of the mirrored map", rtol=0, atol=5e-5)
    ctx.nontrivial(f.any() or p != [0, 1, 2])
    # --- scaling the map changes nothing
    d = locate(scan, 3.7 * m0[..., None])
    idd = indices(d, lut)
    for k in ("spline", "covariance", "gaussian"):
        if (k == "covariance" and not clear) or (k == "gaussian" and not stable):
            continue
        if k == "spline" and sp.cubic:
            ctx.close(sp.value(idd[k])[0], sp.value(ia[k])[0], "value at the spline location of the scaled map", rtol=0, atol=1e-5)
            continue
        ctx.close(idd[k], ia[k], f"{k} location of the scaled map", rtol=1e-4, atol=2e-3)
    # --- the same map inside a larger grid (low coalescence around it)
    if clear:
        pad = np.array(c["pad"]).reshape(3, 2)
        scan3, lut3 = make_scan(dict(g, n=[int(x) for x in n + pad.sum(1)]), ctx)
        m3 = np.pad(m0, pad, constant_values=m0.min() * 0.5)
        e = locate(scan3, m3[..., None].copy())
        ie = indices(e, lut3)
        ctx.close(ie["covariance"], ia["covariance"] + pad[:, 0], "covariance location in a larger grid", rtol=0, atol=5e-5)
        ctx.close(e.get_loc_uncertainty("covariance"), ea["covariance"], "covariance uncertainty in a larger grid",
                  rtol=1e-5, atol=1e-4)


FACETS = [
    Facet("map", strat_map, check_map, quick=400, thorough=8000, shards=4, rule="the map is not constant"),
    Facet("equivariance", strat_equi, check_equi, quick=200, thorough=4000, shards=4,
          rule="a mirrored or permuted map"),
]
