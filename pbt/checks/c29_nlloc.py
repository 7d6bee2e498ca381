"""C29: NonLinLoc grids (headers, buffers, 2-D sweeps) are imported at their own positions."""
import os
import struct
import sys

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from pyproj import Geod, Proj, Transformer

from harness import Facet, cwd
from lutgen import grid_strat, spec, stations_frame
from quakemigrate.lut import LUT, compute_traveltimes, read_nlloc
from strategies import fixed, one_in, rounded, sampled, seeds

ASSUMPTIONS = ["grids are not rotated (RotCW 0)",
               "the NonLinLoc programs are replaced by stand-ins that write the documented grid format",
               "the PROJ library is trusted"]

# semi-major axis, inverse flattening (0: sphere) of the ellipsoids NonLinLoc knows
ELL = {"WGS-84": (6378137.0, 298.257223563), "GRS-80": (6378137.0, 298.257222101),
       "WGS-72": (6378135.0, 298.26), "Australian": (6378160.0, 298.25), "Krasovsky": (6378245.0, 298.3),
       "International": (6378388.0, 297.0), "Hayford-1909": (6378388.0, 297.0),
       "Clarke-1880": (6378249.145, 293.465), "Clarke-1866": (6378206.4, 294.9786982),
       "Airy": (6377563.396, 299.3249646), "Bessel": (6377397.155, 299.1528128),
       "Hayford-1830": (6377276.345, 300.8017), "Sphere": (6371000.0, 0)}


def strat_read():
    tr = st.one_of(
        fixed(kind=st.just("SIMPLE")),
        fixed(kind=st.just("TRANS_MERC"), ell=sampled(*ELL)),
        fixed(kind=st.just("LAMBERT"), ell=sampled(*ELL), p1=rounded(-3, -0.5, 1), p2=rounded(0.5, 3, 1)))
    return fixed(tr=tr, lat=rounded(-70, 70, 3), lon=rounded(-175, 175, 3),
                 n=st.tuples(*[st.integers(1, 7)] * 3).map(list),
                 o=st.tuples(rounded(-60, 40, 3), rounded(-60, 40, 3), rounded(-3, 5, 3)).map(list),
                 d=st.tuples(*[rounded(0.05, 4, 3)] * 3).map(list),
                 names=st.lists(sampled("A", "ST1", "ST10", "ST_B", "X.Y"), min_size=1, max_size=3, unique=True),
                 phases=sampled(["P", "S"], ["P"], ["S"], ["S", "P"]), seed=seeds, save=st.booleans())


def hdr_line(c):
    t = c["tr"]
    if t["kind"] == "SIMPLE":
        return f"TRANSFORM  SIMPLE LatOrig {c['lat']:f}  LongOrig {c['lon']:f}  RotCW 0.000000"
    if t["kind"] == "TRANS_MERC":
        return (f"TRANSFORM  TRANS_MERC RefEllipsoid {t['ell']}  LatOrig {c['lat']:f}  LongOrig {c['lon']:f}  "
                "RotCW 0.000000 UseFalseEasting 0 FalseEasting 500000 ScaleFactor 1.000000")
    return (f"TRANSFORM  LAMBERT RefEllipsoid {t['ell']}  LatOrig {c['lat']:f}  LongOrig {c['lon']:f}  "
            f"FirstStdParal {c['lat'] + t['p1']:f}  SecondStdParal {c['lat'] + t['p2']:f}  RotCW 0.000000")


def write_grid(base, n, o, d, tt, transform, station="STA"):
    with open(f"{base}.hdr", "w") as f:
        f.write(f"{n[0]} {n[1]} {n[2]}  {o[0]:f} {o[1]:f} {o[2]:f}  {d[0]:f} {d[1]:f} {d[2]:f} TIME FLOAT\n"
                f"{station} 1.000000 2.000000 0.500000\n{transform}\n")
    with open(f"{base}.buf", "wb") as f:
        f.write(struct.pack(f"{tt.size}f", *tt.ravel()))


def expected_proj(c):
    t = c["tr"]
    if t["kind"] == "SIMPLE":
        return None
    a, rf = ELL[t["ell"]]
    e = dict(a=a, rf=rf) if rf else dict(R=a)
    if t["kind"] == "TRANS_MERC":
        return Proj(proj="tmerc", lat_0=c["lat"], lon_0=c["lon"], units="km", **e)
    return Proj(proj="lcc", lat_0=c["lat"], lon_0=c["lon"], lat_1=c["lat"] + t["p1"], lat_2=c["lat"] + t["p2"],
                units="km", **e)


def check_read(c, ctx):
    if c["tr"]["kind"] == "LAMBERT" and abs(2 * c["lat"] + c["tr"]["p1"] + c["tr"]["p2"]) < 1:
        return      # cone degenerate
    d = ctx.tmp()
    rng = np.random.RandomState(c["seed"])
    n = c["n"]
    tts = {}
    for s in c["names"]:
        for p in c["phases"]:
            tts[s, p] = rng.uniform(0, 30, n).astype(np.float32)
            write_grid(f"{d}/layer.{p}.{s}.time", n, c["o"], c["d"], tts[s, p], hdr_line(c), s)
    sta = pd.DataFrame({"Name": c["names"], "Latitude": c["lat"], "Longitude": c["lon"], "Elevation": 0.0})
    with cwd(ctx.tmp()):
        lut = read_nlloc(d, sta, phases=list(c["phases"]), fraction_tt=0.07,
                         save_file="t.LUT" if c["save"] else None)
        if c["save"]:
            from quakemigrate.io import read_lut
            lut = read_lut("t.LUT")
    ctx.equal(sorted(lut.traveltimes), sorted(c["names"]), "stations")
    for s in c["names"]:
        ctx.equal(sorted(lut.traveltimes[s]), sorted(c["phases"]), f"phases of {s}")
        for p in c["phases"]:
            ctx.equal(np.asarray(lut.traveltimes[s][p], dtype=np.float32), tts[s, p], f"traveltimes of {s} {p}")
    ctx.equal(list(lut.phases), c["phases"], "phases")
    ctx.equal(lut.fraction_tt, 0.07, "fraction_tt")
    ctx.check(lut.station_data.equals(sta), "station data")
    ctx.equal([int(x) for x in lut.node_count], n, "node count")
    ctx.close(lut.node_spacing, c["d"], "node spacing", atol=1e-9)
    ctx.equal(float(lut.unit_conversion_factor), 1000.0, "unit conversion factor of a grid in km", )
    # projected positions are those of the file
    ax = [c["o"][k] + np.arange(n[k]) * c["d"][k] for k in range(3)]
    gx = np.stack(lut.grid_xyz, -1)
    want = np.stack(np.meshgrid(*ax, indexing="ij"), -1)
    ctx.close(gx, want, "projected node positions", rtol=0, atol=1e-5)
    # geographic positions
    ijk = np.array([[rng.randint(k) for k in n] for _ in range(6)])
    geo = lut.index2coord(ijk)
    xyz = np.array(c["o"]) + ijk * np.array(c["d"])
    ctx.close(geo[:, 2], xyz[:, 2], "depth of nodes", atol=1e-6)
    r = np.hypot(xyz[:, 0], xyz[:, 1])
    a, rf = ELL[c["tr"].get("ell", "WGS-84")]
    geod = Geod(a=a, rf=rf) if rf else Geod(a=a, b=a)
    az, _, dist = geod.inv(np.full(6, c["lon"]), np.full(6, c["lat"]), geo[:, 0], geo[:, 1])
    # distance and bearing from the origin of the projection (map distortion allowed for)
    # the tangent-of-latitude terms: plate carree is only true to scale along its own parallel
    tol = 0.008 + (r / 6371 * 1.5 * (1 + abs(np.tan(np.radians(c["lat"])))) if c["tr"]["kind"] == "SIMPLE"
                   else 0.003)
    ctx.check(bool((np.abs(np.array(dist) / 1000 - r) <= tol * r + 1e-3).all()),
              lambda: f"distance of nodes from the origin: {np.array(dist) / 1000} expected {r}")
    e = np.array(dist) / 1000 * np.array([np.sin(np.radians(az)), np.cos(np.radians(az))])
    off = np.hypot(e[0] - xyz[:, 0], e[1] - xyz[:, 1])
    lim = r * (0.008 + r / 6371 * 1.5 * (1 + abs(np.tan(np.radians(c["lat"]))))) + 1e-3
    ctx.check(bool((off <= lim).all()), lambda: f"nodes are {off} km from their true position (limit {lim})")
    ep = expected_proj(c)
    if ep is not None:
        lon, lat = ep(xyz[:, 0], xyz[:, 1], inverse=True)
        # fraction of the distance: PROJ's realisations of these ellipsoids agree to this
        dlat = np.abs(geo[:, 1] - lat) * 111.2
        dlon = np.abs((geo[:, 0] - lon + 180) % 360 - 180) * 111.3 * np.cos(np.radians(lat))
        ctx.check(bool((np.hypot(dlat, dlon) <= 1e-6 * r + 1e-5).all()),
                  lambda: f"nodes are {np.hypot(dlat, dlon)} km from their position under {hdr_line(c)}")
    ctx.nontrivial(np.prod(n) > 1)
    ctx.label(c["tr"]["kind"])


def check_none(c, ctx):
    d = ctx.tmp()
    tt = np.zeros((2, 2, 2), dtype=np.float32)
    write_grid(f"{d}/layer.P.A.time", [2, 2, 2], [0, 0, 0], [1, 1, 1], tt, "TRANSFORM  " + c["name"])
    sta = pd.DataFrame({"Name": ["A"], "Latitude": 0.0, "Longitude": 0.0, "Elevation": 0.0})
    with cwd(ctx.tmp()):
        ctx.raises(NotImplementedError, lambda: read_nlloc(d, sta, phases=["P"]), f"transform {c['name']}")
        ctx.raises(FileNotFoundError, lambda: read_nlloc(d, sta, phases=["S"]), "missing traveltime file")
    ctx.nontrivial()


VEL2GRID = '''#!{py} -I
import sys
c = {{l.split()[0]: l.split()[1:] for l in open(sys.argv[1]) if l.strip()}}
for x in ("buf", "hdr"):
    open(c["VGOUT"][0] + "." + c["VGTYPE"][0] + ".mod." + x, "w").write("model")
print("done")
'''

GRID2TIME = '''#!{py} -I
import math, struct, sys
c = [l.split() for l in open(sys.argv[1]) if l.strip()]
k = {{}}
for l in c:
    k.setdefault(l[0], []).append(l[1:])
g = k["VGGRID"][0]
ny, nz = int(g[1]), int(g[2])
x0, y0, z0, dx, dy, dz = map(float, g[3:9])
model, time, ph = k["GTFILES"][0][:3]
src = k["GTSRCE"][0]
assert src[1] == "XYZ" and k["VGTYPE"][0][0] == ph
sx, sy, sz = map(float, src[2:5])
v = float(k["LAYER"][0][1])
open(sys.argv[0] + ".log." + ph + "." + src[0], "w").write(open(sys.argv[1]).read())
if {err} or not (z0 <= sz <= z0 + (nz - 1) * dz):
    print("ERROR something"); sys.exit(0)
a, b, cc, d = {coef}
out = []
for j in range(ny):
    r = y0 + j * dy
    for i in range(nz):
        z = z0 + i * dz
        out.append((a + b * r + cc * (z - sz) + d * r * z) / v + {rough} * math.sin(1.3 * j * j + 2.1 * i + 0.7 * i * j))
base = time + "." + ph + "." + src[0] + ".time"
open(base + ".buf", "wb").write(struct.pack("%df" % len(out), *out))
open(base + ".hdr", "w").write("1 %d %d  %f %f %f  %f %f %f TIME2D FLOAT\\n%s %f %f %f\\nTRANSFORM  NONE\\n" % (
    ny, nz, x0, y0, z0, dx, dy, dz, src[0], sx, sy, sz))
print("done")
'''


def strat_sweep():
    return fixed(g=grid_strat(nmax=6), m=st.integers(1, 2), seed=seeds, outside=sampled(0.0, 0.5, 2.0),
                 phases=sampled(["P", "S"], ["P"], ["S"], ["P", "Pg"]), dx=sampled(0.5, 1.0, 2.0, 0.7, None), index=st.integers(0, 3),
                 coef=st.tuples(rounded(0, 5, 2), rounded(-1, 1, 2), rounded(-1, 1, 2), rounded(-0.1, 0.1, 3)),
                 vp=st.lists(rounded(1, 8, 2), min_size=1, max_size=4), ratio=rounded(0.4, 0.7, 2),
                 top=rounded(-3, 1, 1), thick=st.lists(rounded(0.5, 5, 1), min_size=4, max_size=4),
                 rough=sampled(0.0, 0.5), block=sampled(None, True, False), retain=st.booleans(), there=sampled([], [], ["model"], ["time"], ["model", "time"]), how=sampled("1dnlloc", "1dsweep"),
                 err=one_in(8, st.just(True), st.just(False)))


def check_sweep(c, ctx):
    kw, ll, ur = spec(c["g"])
    ref = LUT(**kw)
    u = 1.0 if c["g"]["proj"]["units"] == "km" else 1000.0
    sta = stations_frame(ref, c["m"], c["seed"], c["outside"], ["ST1", "ST10"][:c["m"]])
    depth = c["top"] + np.concatenate([[0], np.cumsum(c["thick"])])[:len(c["vp"])]
    vm = pd.DataFrame({"Depth": depth * u, "Vp": np.array(c["vp"]) * u, "Vs": np.array(c["vp"]) * c["ratio"] * u,
                       "Vpg": np.array(c["vp"]) * 0.8 * u})
    vm.index += c["index"]          # such as that of a part of a table
    vm_in = vm.copy()
    d = ctx.tmp()
    b = f"{d}/bin"
    os.mkdir(b)
    for name, text in (("Vel2Grid", VEL2GRID.format(py=sys.executable)),
                       ("Grid2Time", GRID2TIME.format(py=sys.executable, coef=repr(c["coef"]), err=c["err"], rough=c["rough"]))):
        with open(f"{b}/{name}", "w") as f:
            f.write(text)
        os.chmod(f"{b}/{name}", 0o755)
    w = f"{d}/w"
    os.mkdir(w)
    extra = {} if c["block"] is None else {"block_model": c["block"]}
    if c["dx"] is not None:
        extra["nlloc_dx"] = c["dx"]
    call = lambda: compute_traveltimes(kw, sta, method=c["how"], phases=list(c["phases"]), vmod=vm,  # noqa: E731
                                       nlloc_path=b, retain_nll_grids=c["retain"], **extra)
    mine = {f"{x}/mine.txt" for x in c["there"]}        # files of someone else
    for x in mine:
        os.makedirs(os.path.dirname(f"{w}/{x}"))
        open(f"{w}/{x}", "w").close()
    with cwd(w):
        if c["err"]:
            ctx.raises(Exception, call, "an error reported by NonLinLoc")
            return
        lut = call()
    ctx.check(vm.equals(vm_in), "velocity model modified")
    n = tuple(int(x) for x in ref.node_count)
    ctx.equal(sorted(lut.traveltimes), sorted(sta["Name"]), "stations")
    grid = np.stack(np.meshgrid(*[ll[k] + np.arange(n[k]) * np.asarray(ref.node_spacing)[k] for k in range(3)],
                                indexing="ij"), -1) / u
    pos = ref.coord2grid(sta[["Longitude", "Latitude", "Elevation"]].values) / u
    a, bb, cc, dd = c["coef"]
    for name, p in zip(sta["Name"], pos):
        ctx.equal(sorted(lut.traveltimes[name]), sorted(c["phases"]), f"phases of {name}")
        r = np.hypot(grid[..., 0] - p[0], grid[..., 1] - p[1])
        for ph in c["phases"]:
            f = dict(P=1, S=c["ratio"], Pg=0.8)[ph]
            v = c["vp"][0] * f
            z = grid[..., 2]
            want = (a + bb * r + cc * (z - p[2]) + dd * r * z) / v
            scale = 1 + (abs(a) + abs(bb) * r.max() + (abs(cc) + abs(dd) * (r.max() + 20)) * (np.abs(z).max() + 20)) / v
            got = np.asarray(lut.traveltimes[name][ph])
            ctx.equal(got.shape, n, f"{name} {ph}: shape")
            ctl = [x.split() for x in open(f"{b}/Grid2Time.log.{ph}.{name}")]
            if c["rough"]:      # values that only interpolation within the node's own cell gives
                y0, z0, dy, dz = [[float(x) for y in ctl if y and y[0] == "VGGRID" for x in y[1:10]][k] for k in (4, 5, 7, 8)]
                pr, pz = (r - y0) / dy, (z - z0) / dz
                j, i = np.floor(pr + 1e-9), np.floor(pz + 1e-9)
                fr, fz = pr - j, pz - i
                tab = lambda j, i: c["rough"] * np.sin(1.3 * j * j + 2.1 * i + 0.7 * i * j)  # noqa: E731
                want = want + (tab(j, i) * (1 - fr) + tab(j + 1, i) * fr) * (1 - fz) + (tab(j, i + 1) * (1 - fr) + tab(j + 1, i + 1) * fr) * fz
            ctx.close(got, want, f"{name} {ph}: sweep at distance and depth", rtol=0, atol=3e-6 * scale + c["rough"] * 1e-4)
            lay = np.array([[float(y) for y in x[1:4]] for x in ctl if x and x[0] == "LAYER"])
            ctx.close(lay[:, 0], depth, "layer depths given to NonLinLoc (km)", atol=2e-6)
            vv = np.array(c["vp"]) * f
            ctx.close(lay[:, 1], vv, "layer velocities given to NonLinLoc (km/s)", atol=2e-6)
            grad = np.append(np.diff(vv) / np.diff(depth), 0) if not c["block"] else np.zeros(len(vv))
            ctx.close(lay[:, 2], grad, "velocity gradients given to NonLinLoc", atol=2e-6)
            vg = [float(x) for y in ctl if y and y[0] == "VGGRID" for x in y[1:10]]
            ctx.close(vg[6:], [c["dx"] or 0.1] * 3, "spacing of the section given to NonLinLoc", atol=2e-6)
            lo, hi = vg[5], vg[5] + (vg[2] - 1) * vg[8]
            ctx.check(lo - 1e-5 <= min(z.min(), p[2]) and max(z.max(), p[2]) <= hi + 1e-5 and r.max() <= (vg[1] - 1) * vg[7] + 1e-5,
                      lambda: f"{name} {ph}: the section given to NonLinLoc does not span the grid and the station")
            src = [x for x in ctl if x and x[0] == "GTSRCE"][0]
            ctx.close([float(x) for x in src[3:6]], p, "source position given to NonLinLoc", atol=2e-6)
    left = {os.path.relpath(f"{r}/{x}", w) for r, _, fs in os.walk(w) for x in fs if not r.startswith(f"{w}/logs")}
    ctx.check(mine <= left, "files removed that were there before")
    left -= mine
    if c["retain"]:
        want = {f"time/layer.{ph}.{s}.time.{x}" for ph in c["phases"] for s in sta["Name"] for x in ("buf", "hdr")}
        ctx.equal({x for x in left if not x.startswith("model")}, want, "grids retained")
    else:
        ctx.equal(left, set(), "files left behind")
        ctx.equal({x for x in os.listdir(w) if x != "logs"}, set(c["there"]), "directories left behind")
    with cwd(w):
        ctx.raises(FileNotFoundError,
                   lambda: compute_traveltimes(kw, sta, method="1dnlloc", vmod=vm, nlloc_path=f"{d}/nowhere"),
                   "wrong nlloc_path")
    ctx.nontrivial()


FACETS = [
    Facet("read", strat_read, check_read, quick=400, thorough=8000, shards=3, rule="more than one node"),
    Facet("none", lambda: fixed(name=sampled("NONE", "GLOBAL", "SDC")), check_none, quick=3, thorough=3, rule="all"),
    Facet("sweep", strat_sweep, check_sweep, quick=120, thorough=2500, shards=4, rule="NonLinLoc run without error"),
]
