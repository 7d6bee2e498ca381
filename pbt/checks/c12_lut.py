"""C12: serving, persisting and combining lookup tables (model-based histories)."""
import copy
import pickle

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from harness import Facet, cwd
from lutgen import grid_strat, random_lut, spec
from quakemigrate.io import read_lut
from quakemigrate.lut import LUT, update_lut
from strategies import fixed, one_in, rounded, sampled, seeds

ASSUMPTIONS = ["station names contain no underscore (SEED codes)",
               "equality of tables is equality of their grid definitions, as LUT.__eq__ documents"]

NAMES = ["A", "AB", "ST1", "ST10", "P", "S", "X9", "sta1"]
PH = [["P", "S"], ["S", "P"], ["P"], ["S"], ["P", "S", "Pg"]]


# --------------------------------------------------------------- serving
def strat_serve():
    return fixed(g=grid_strat(nmax=6), names=st.lists(sampled(*NAMES), min_size=1, max_size=5, unique=True),
                 phases=sampled(*PH), seed=seeds, sr=sampled(1, 10, 20, 25, 50, 100, 250),
                 tmax=sampled(0.01, 5.0, 300.0), avail=seeds, half=st.booleans(),
                 off=st.tuples(*[rounded(0, 1, 2)] * 3).map(list))


def check_serve(c, ctx):
    lut = random_lut(c["g"], len(c["names"]), c["seed"], c["phases"], c["tmax"], c["names"])
    n = np.array(lut.node_count)
    rng = np.random.RandomState(c["avail"])
    if c["half"]:      # traveltimes near half samples: rounded to the nearest, never truncated
        for s in lut.traveltimes:
            for p in lut.traveltimes[s]:
                k = rng.randint(0, 200, tuple(n))
                lut.traveltimes[s][p] = (k + 0.5 + rng.choice([-1e-3, 1e-3], tuple(n))) / c["sr"]
    before = copy.deepcopy(lut.traveltimes)
    keys = [f"{s}_{p}" for p in c["phases"] for s in c["names"]]
    order = list(rng.permutation(keys))
    avail = {k: int(rng.randint(3) > 0) for k in order}
    if not any(avail.values()):
        avail[order[0]] = 1
    got = lut.serve_traveltimes(c["sr"], avail)
    want = [k.split("_") for k in order if avail[k]]
    ctx.equal(got.shape, tuple(n) + (len(want),), "shape of the served traveltimes")
    ctx.check(np.issubdtype(got.dtype, np.signedinteger), f"dtype {got.dtype}")
    for i, (s, p) in enumerate(want):
        x = before[s][p] * c["sr"]
        ctx.check(bool((np.abs(got[..., i] - x) <= 0.5 + 1e-9).all()),
                  f"entry {i} is not the traveltime of {s}_{p} to the nearest sample")
    alls = lut.serve_traveltimes(c["sr"])
    order_all = [(s, p) for p in c["phases"] for s in c["names"]]
    ctx.equal(alls.shape, tuple(n) + (len(order_all),), "shape of all traveltimes")
    for i, (s, p) in enumerate(order_all):
        ctx.check(bool((np.abs(alls[..., i] - before[s][p] * c["sr"]) <= 0.5 + 1e-9).all()),
                  f"entry {i} of all traveltimes is not {s}_{p}")
    # point queries
    ijk = np.array([rng.randint(k) for k in n])
    sub = [c["names"][i] for i in rng.permutation(len(c["names"]))][:2]
    for p in c["phases"]:
        ctx.close(lut.traveltime_to(p, ijk), [before[s][p][tuple(ijk)] for s in c["names"]],
                  f"traveltime_to({p}) at a node", rtol=1e-9, atol=1e-12)
        ctx.close(lut.traveltime_to(p, ijk, sub), [before[s][p][tuple(ijk)] for s in sub],
                  "traveltime_to a list of stations", rtol=1e-9, atol=1e-12)
        ctx.close(lut.traveltime_to(p, ijk, pd.Series(sub)), [before[s][p][tuple(ijk)] for s in sub],
                  "traveltime_to a Series of stations", rtol=1e-9, atol=1e-12)
        ctx.close(np.ravel(lut.traveltime_to(p, ijk, sub[0])), [before[sub[0]][p][tuple(ijk)]],
                  "traveltime_to one station", rtol=1e-9, atol=1e-12)
        if np.all(n > 1):      # a position within rounding error of a node, perhaps just outside the grid
            edge = np.where(rng.randint(2, size=3) > 0, ijk, rng.randint(2, size=3) * (n - 1))
            near = edge + rng.choice([-1e-9, 0, 1e-9], 3)
            ctx.close(lut.traveltime_to(p, near), [before[s][p][tuple(edge)] for s in c["names"]],
                      f"traveltime_to({p}) within rounding error of a node", rtol=1e-6, atol=1e-6)
        if np.all(n > 1):      # between nodes: trilinear
            cell = np.array([rng.randint(k - 1) for k in n])
            w = np.array(c["off"])
            for s in sub:
                t = before[s][p]
                exp = sum(t[tuple(cell + np.array(d))] * np.prod(np.where(np.array(d), w, 1 - w))
                          for d in np.ndindex(2, 2, 2))
                ctx.close(np.ravel(lut.traveltime_to(p, cell + w, s)), [exp], "traveltime between nodes",
                          rtol=1e-9, atol=1e-9)
    ctx.close(lut.max_traveltime, max(v.max() for d in before.values() for v in d.values()), "max_traveltime")
    for s in before:
        for p in before[s]:
            ctx.equal(lut.traveltimes[s][p], before[s][p], "serving modified the table")
    ctx.nontrivial(len(want) > 1)


# --------------------------------------------------------------- histories
def strat_hist():
    op = st.one_of(
        fixed(op=st.just("add"), names=st.lists(sampled(*NAMES), min_size=1, max_size=3, unique=True), seed=seeds,
              phases=sampled(["P", "S"], ["P"], ["P", "S", "Pg"]),
              grid=sampled("same", "same", "same", "same", "n", "dx", "ll", "nudge", "proj")),
        fixed(op=sampled("save", "save_nested", "copy", "file_kw")),
        fixed(op=st.just("eq"), grid=sampled("same", "n", "dx", "ll", "nudge", "proj", "other"), seed=seeds))
    return fixed(g=grid_strat(nmax=5), names=st.lists(sampled(*NAMES), min_size=1, max_size=3, unique=True),
                 seed=seeds, ops=st.lists(op, min_size=1, max_size=7), frac=sampled(0.1, 0.2))


def variant(g, how):
    g = copy.deepcopy(g)
    if how == "n":
        g["n"][1] += 2      # an extent of 0 may give one or two nodes
    elif how == "dx":
        g["dx"] = [x * 2 for x in g["dx"]]
    elif how == "ll":
        g["off"][0] += 1.0
    elif how == "nudge":    # by a metre
        g["off"][0] += 0.001
    elif how == "proj":
        g["proj"]["lon"] += 0.37
        if g["proj"]["kind"] == "utm":
            g["proj"]["lon"] += 6 if g["proj"]["lon"] < 160 else -8
    return g


def assert_model(ctx, lut, model, what):
    ctx.equal(sorted(lut.traveltimes), sorted(model["tt"]), f"{what}: stations")
    for s in model["tt"]:
        ctx.equal(sorted(lut.traveltimes[s]), sorted(model["tt"][s]), f"{what}: phases of {s}")
        for p in model["tt"][s]:
            ctx.equal(lut.traveltimes[s][p], model["tt"][s][p], f"{what}: traveltimes of {s} {p}")
            ctx.equal(lut[s][p], model["tt"][s][p], f"{what}: lut[station][phase]")
    for k in ("node_count", "node_spacing", "ll_corner", "ur_corner"):
        ctx.equal(np.asarray(getattr(lut, k)), model[k], f"{what}: {k}")
    ctx.equal(list(lut.phases), model["phases"], f"{what}: phases")
    ctx.equal(lut.fraction_tt, model["frac"], f"{what}: fraction_tt")
    ctx.check(lut.station_data.equals(model["stations"]), f"{what}: station data")
    ctx.equal(lut.velocity_model, model["vmod"], f"{what}: velocity model")
    ctx.equal((lut.grid_proj.srs, lut.coord_proj.srs), model["proj"], f"{what}: projections")


def check_hist(c, ctx):
    d = ctx.tmp()
    lut = random_lut(c["g"], len(c["names"]), c["seed"], ["P", "S"], names=c["names"])
    lut.fraction_tt = c["frac"]
    lut.velocity_model = "some model"
    model = dict(tt=copy.deepcopy(lut.traveltimes), node_count=np.array(lut.node_count),
                 node_spacing=np.array(lut.node_spacing), ll_corner=np.array(lut.ll_corner),
                 ur_corner=np.array(lut.ur_corner), phases=list(lut.phases), frac=c["frac"],
                 stations=lut.station_data.copy(), vmod="some model",
                 proj=(lut.grid_proj.srs, lut.coord_proj.srs))
    nadd = 0
    for i, o in enumerate(c["ops"]):
        what = f"after {[x['op'] for x in c['ops'][:i + 1]]}"
        if o["op"] == "add":
            other = random_lut(variant(c["g"], o["grid"]), len(o["names"]), o["seed"], o["phases"],
                               names=o["names"])
            keep = copy.deepcopy(other.traveltimes)
            res = lut + other
            if o["grid"] == "same":
                ctx.check(res is not None, f"{what}: tables with the same grid not combined")
                for s in keep:
                    model["tt"].setdefault(s, copy.deepcopy(keep[s]))
                assert_model(ctx, res, model, what)
                lut = res
                nadd += 1
            else:
                ctx.check(res is None or res is lut, f"{what}: tables with different grids combined")
                assert_model(ctx, lut, model, what + f" (different {o['grid']})")
            for s in keep:
                for p in keep[s]:
                    ctx.equal(other.traveltimes[s][p], keep[s][p], f"{what}: the other table changed")
        elif o["op"] in ("save", "save_nested"):
            path = f"{d}/{'x/y/' if o['op'] == 'save_nested' else ''}t{i}.LUT"
            lut.save(path)
            assert_model(ctx, lut, model, what + " (saved table)")
            new = read_lut(path)
            ctx.check(new == lut and lut == new, f"{what}: reloaded table differs")
            lut = new
        elif o["op"] == "file_kw":
            lut.save(f"{d}/k{i}.LUT")
            lut = LUT(lut_file=f"{d}/k{i}.LUT")
        elif o["op"] == "copy":
            new = copy.deepcopy(lut)
            for s in lut.traveltimes:
                for p in lut.traveltimes[s]:
                    lut.traveltimes[s][p] += 1
            lut = new
        else:
            other = LUT(**spec(variant(c["g"], o["grid"]))[0]) if o["grid"] != "other" else "no table"
            eq = lut == other
            ctx.equal(bool(eq), o["grid"] == "same", f"{what}: equality with a table of another {o['grid']}")
            ctx.equal(bool(lut != other), o["grid"] != "same", f"{what}: inequality")
        assert_model(ctx, lut, model, what)
    ctx.nontrivial(len({o["op"] for o in c["ops"]}) > 1 or nadd > 0)


# --------------------------------------------------------------- old files
def strat_old():
    return fixed(g=grid_strat(nmax=4), names=st.lists(sampled(*NAMES), min_size=1, max_size=3, unique=True),
                 seed=seeds, sr=sampled(20, 50, 100))


def check_old(c, ctx):
    """Tables in the old layout (maps / TIME_P / cell_*) serve and convert to the same traveltimes."""
    d = ctx.tmp()
    lut = random_lut(c["g"], len(c["names"]), c["seed"], ["P", "S"], names=c["names"])
    old = dict(lut.__dict__)
    old["maps"] = {s: {f"TIME_{p}": t for p, t in v.items()} for s, v in lut.traveltimes.items()}
    del old["traveltimes"], old["fraction_tt"], old["phases"]
    old["_cell_count"] = old.pop("_node_count")
    old["_cell_size"] = old.pop("_node_spacing")
    with open(f"{d}/old.LUT", "wb") as f:
        pickle.dump(old, f)
    avail = {f"{s}_{p}": 1 for p in "PS" for s in c["names"]}
    want = lut.serve_traveltimes(c["sr"], avail)
    o = read_lut(f"{d}/old.LUT")
    ctx.equal(o.serve_traveltimes(c["sr"], avail), want, "traveltimes served from an old-style table")
    ctx.equal(np.asarray(o.node_count), np.asarray(lut.node_count), "node count of an old-style table")
    update_lut(f"{d}/old.LUT", f"{d}/new.LUT")
    n = read_lut(f"{d}/new.LUT")
    ctx.check(not hasattr(n, "maps"), "converted table still in the old layout")
    ctx.equal(sorted(n.traveltimes), sorted(c["names"]), "stations after conversion")
    ctx.equal(n.serve_traveltimes(c["sr"], avail), want, "traveltimes after conversion")
    ctx.check(n == lut, "grid changed by conversion")
    ctx.equal(list(n.phases), ["P", "S"], "phases after conversion")
    ctx.nontrivial()


FACETS = [
    Facet("serve", strat_serve, check_serve, quick=400, thorough=10000, shards=3,
          rule="at least two station-phases available"),
    Facet("history", strat_hist, check_hist, quick=400, thorough=10000, shards=4,
          rule="a combination or at least two kinds of operation"),
    Facet("legacy", strat_old, check_old, quick=60, thorough=1000, shards=1, rule="all"),
]
