"""C11: traveltime tables against straight-ray distances and velocity bounds."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from harness import Facet, cwd
from lutgen import grid_strat, spacing, spec, stations_frame
from quakemigrate.lut import LUT, compute_traveltimes
from strategies import fixed, one_in, rounded, sampled, seeds

ASSUMPTIONS = ["depths are positive down and in the grid's length unit, velocities in that unit per second",
               "fast marching is allowed an error of a few node spacings (station at the closest node, "
               "first-order start)"]

NAMES = ["A", "ST1", "ST10", "ST2", "LONGNAME"]


def strat_h():
    return fixed(g=grid_strat(), m=st.integers(1, 5), seed=seeds, outside=sampled(0.0, 0.5),
                 phases=sampled(["P", "S"], ["S", "P"], ["P"], ["S"], ["P", "Pg"]), vp=rounded(0.5, 9, 2),
                 vs=rounded(0.2, 5, 2), save=st.booleans(), frac=sampled(0.1, 0.05), perm=st.booleans())


def check_homogeneous(c, ctx):
    kw, ll, _ = spec(c["g"])
    ref = LUT(**kw)
    u = 1.0 if c["g"]["proj"]["units"] == "km" else 1000.0
    sta = stations_frame(ref, c["m"], c["seed"], c["outside"], NAMES[:c["m"]])
    if c["perm"]:
        sta = sta.sample(frac=1, random_state=c["seed"])        # any index
    v = {"P": c["vp"] * u, "S": c["vs"] * u, "Pg": c["vp"] * 0.8 * u}
    args = {f"v{p.lower()}": v[p] for p in c["phases"]}
    sta_in = sta.copy()
    with cwd(ctx.tmp()):
        lut = compute_traveltimes(kw, sta, method="homogeneous", phases=list(c["phases"]),
                                  fraction_tt=c["frac"], save_file="o/t.LUT" if c["save"] else None, **args)
        if c["save"]:
            from quakemigrate.io import read_lut
            lut = read_lut("o/t.LUT")
    ctx.check(sta.equals(sta_in), "station table modified")
    ctx.equal(list(lut.phases), c["phases"], "phases")
    ctx.equal(lut.fraction_tt, c["frac"], "fraction_tt")
    ctx.equal(sorted(lut.traveltimes), sorted(sta["Name"]), "stations")
    n = np.array(lut.node_count)
    ctx.equal(list(n), list(ref.node_count), "node count")
    ax = [ll[d] + np.arange(n[d]) * spacing(c["g"])[d] for d in range(3)]
    pos = ref.coord2grid(sta[["Longitude", "Latitude", "Elevation"]].values)
    tmax = 0
    for (_, row), p in zip(sta.iterrows(), pos):
        ctx.equal(sorted(lut.traveltimes[row["Name"]]), sorted(c["phases"]), f"phases of {row['Name']}")
        d = np.sqrt((ax[0][:, None, None] - p[0]) ** 2 + (ax[1][None, :, None] - p[1]) ** 2
                    + (ax[2][None, None, :] - p[2]) ** 2)
        for ph in c["phases"]:
            ctx.close(lut.traveltimes[row["Name"]][ph], d / v[ph], f"{row['Name']} {ph}",
                      rtol=1e-6, atol=1e-6)
            tmax = max(tmax, (d / v[ph]).max())
    ctx.close(lut.max_traveltime, tmax, "max_traveltime", rtol=1e-6, atol=1e-6)
    ctx.nontrivial(c["m"] > 1 or len(c["phases"]) > 1)
    missing = "vp" if "P" in c["phases"] else "vs"
    args.pop(missing)
    with cwd(ctx.tmp()):
        ctx.raises(TypeError, lambda: compute_traveltimes(kw, sta, method="homogeneous",
                                                          phases=list(c["phases"]), **args),
                   f"missing {missing}")


def strat_f():
    return fixed(g=grid_strat(nmax=16), m=st.integers(1, 3), seed=seeds,
                 phases=sampled(["P", "S"], ["S", "P"], ["P"], ["S"], ["P", "Pg"]), out=st.integers(0, 5),
                 vp=st.lists(rounded(1, 9, 2), min_size=1, max_size=5), ratio=rounded(0.4, 0.7, 2),
                 top=rounded(-5, 3, 2), thick=st.lists(rounded(0.2, 8, 2), min_size=4, max_size=4),
                 const=one_in(3, st.just(True), st.just(False)))


def check_fmm(c, ctx):
    kw, ll, ur = spec(c["g"])
    ref = LUT(**kw)
    u = 1.0 if c["g"]["proj"]["units"] == "km" else 1000.0
    n = np.array(ref.node_count)
    if n.min() < 3:       # eikonal solver needs a volume
        return
    # stations inside the requested volume
    xyz = ll + (ur - ll) * np.random.RandomState(c["seed"]).uniform(0.02, 0.98, (c["m"], 3))
    lon, lat, dep = ref.coord2grid(xyz, inverse=True).T
    sta = pd.DataFrame({"Name": NAMES[:c["m"]], "Longitude": lon, "Latitude": lat, "Elevation": dep})
    vp = [c["vp"][0]] if c["const"] else c["vp"]
    depth = c["top"] + np.concatenate([[0], np.cumsum(c["thick"])])[:len(vp)]
    vm = pd.DataFrame({"Vs": np.array(vp) * c["ratio"] * u, "Depth": depth * u, "Vp": np.array(vp) * u,
                       "Vpg": np.array(vp) * 0.8 * u})
    with cwd(ctx.tmp()):
        lut = compute_traveltimes(kw, sta, method="1dfmm", phases=list(c["phases"]), vmod=vm)
    ctx.equal(sorted(lut.traveltimes), sorted(sta["Name"]), "stations")
    dx = spacing(c["g"])
    grid = np.stack(ref.grid_xyz, -1)
    pos = ref.coord2grid(sta[["Longitude", "Latitude", "Elevation"]].values)
    z = grid[0, 0, :, 2]
    for (name, p) in zip(sta["Name"], pos):
        ctx.equal(sorted(lut.traveltimes[name]), sorted(c["phases"]), f"phases of {name}")
        node = ll + np.rint((p - ll) / dx) * dx
        for ph in c["phases"]:
            t = np.asarray(lut.traveltimes[name][ph])
            ctx.equal(t.shape, tuple(n), f"{name} {ph}: shape")
            ctx.check(np.isfinite(t).all() and (t >= 0).all(), f"{name} {ph}: not finite and non-negative")
            col = vm[f"V{ph.lower()}"].values
            v = np.interp(z, vm["Depth"].values, col)
            vmin, vmax = v.min(), v.max()
            d = np.sqrt(((grid - node) ** 2).sum(-1))
            slack = dx.max()
            ctx.check((t >= (d * 0.97 - 1.1 * slack) / vmax).all(),
                      f"{name} {ph}: faster than the fastest velocity")
            ctx.check((t <= (d * 1.12 + 2.1 * slack) / vmin).all(),
                      f"{name} {ph}: slower than the slowest velocity")
            # vertical column through the station: exact 1-D integral bounds the time from above
            i, j, k = np.rint((node - ll) / dx).astype(int)
            s = 1 / v
            cum = np.concatenate([[0], np.cumsum((s[1:] + s[:-1]) / 2 * dx[2])])
            tv = np.abs(cum - cum[k])
            ctx.check((t[i, j] <= tv * 1.1 + 1.6 * slack / vmin).all(),
                      f"{name} {ph}: slower than the vertical ray")
            # horizontal row at station depth: never slower than going straight in the local layer
            ctx.check((t[:, j, k] <= np.abs(np.arange(n[0]) - i) * dx[0] / v[k] * 1.1 + 1.6 * slack / vmin).all()
                      and (t[i, :, k] <= np.abs(np.arange(n[1]) - j) * dx[1] / v[k] * 1.1
                           + 1.6 * slack / vmin).all(), f"{name} {ph}: slower than the horizontal ray")
            # closest node is the earliest
            ctx.check(t[i, j, k] <= t.min() + 0.6 * dx.min() / vmin, f"{name} {ph}: earliest node is not the station's")
            # causality: neighbouring nodes differ by at most the time to cross a cell
            for a in range(3):
                lim = dx[a] / vmin * 1.75
                ctx.check(np.abs(np.diff(t, axis=a)).max() <= lim + 1e-9, f"{name} {ph}: jump along axis {a}")
    # a station beyond one face of the grid, which only the other methods can treat
    far = xyz.copy()
    axis, side = divmod(c["out"], 2)
    far[-1, axis] = (ur if side else ll)[axis] + (1 if side else -1) * max(0.3 * dx[axis], 0.01 * u)
    lon, lat, dep = ref.coord2grid(far, inverse=True).T
    with cwd(ctx.tmp()):
        ctx.raises(ValueError, lambda: compute_traveltimes(
            kw, sta.assign(Longitude=lon, Latitude=lat, Elevation=dep), method="1dfmm", phases=list(c["phases"]), vmod=vm),
            f"station beyond face {side} of axis {axis}")
    if "S" in c["phases"] and "P" in c["phases"]:
        # S uses the S velocities: constant Vp/Vs scales the times
        for name in sta["Name"]:
            ctx.close(lut.traveltimes[name]["S"] * c["ratio"], lut.traveltimes[name]["P"],
                      f"{name}: S times are not P times scaled by Vp/Vs", rtol=1e-6, atol=1e-9)
    ctx.nontrivial()


FACETS = [
    Facet("homogeneous", strat_h, check_homogeneous, quick=400, thorough=8000, shards=3,
          rule="several stations or phases"),
    Facet("fmm", strat_f, check_fmm, quick=250, thorough=5000, shards=4, rule="grids of at least 3x3x3 nodes"),
]
