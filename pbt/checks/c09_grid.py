"""C09: Grid3D coordinate conversions."""
import re

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from pyproj import Transformer

from harness import Facet
from lutgen import grid_strat, spacing, spec
from quakemigrate.lut import LUT
from strategies import fixed, one_in, rounded, sampled, seeds

ASSUMPTIONS = ["map projections are used within a few hundred kilometres of their origin",
               "requested extents are not within rounding error of a multiple of the node spacing (either "
               "node count is then right)"]


def strat():
    return fixed(g=grid_strat(), seed=seeds, m=st.integers(1, 12))


def check(c, ctx):
    g = c["g"]
    kw, ll, ur = spec(g)
    lut = LUT(**kw)
    rng = np.random.RandomState(c["seed"])
    dx = spacing(g)
    size = float(np.abs(ll).max() + np.abs(ur).max() + dx.max())
    tol = 1e-9 * size + 1e-6 * dx.min()
    n = np.array(lut.node_count)
    # --- extent and node count
    ctx.close(lut.node_spacing, dx, "node_spacing")
    ctx.close(lut.ll_corner, ll, "ll_corner", rtol=0, atol=tol)
    exp_n = np.array(g["n"]) + (np.array(g["frac"]) > 0)
    ctx.equal(n.tolist(), np.where(np.array(g["n"]) == 1, np.where(np.array(g["frac"]) > 0, 2, n),
                                   exp_n).tolist(), "node_count")
    ctx.check(np.all((n >= 1) & (n <= exp_n + 1)), "more than one extra node")
    last = ll + (n - 1) * dx
    ctx.check(np.all(last >= ur - tol), "upper-right corner outside the grid")
    ctx.check(np.all(last - ur < dx + tol), "more than one extra node on an axis")
    # --- index -> grid
    idx = np.column_stack([rng.randint(0, k, c["m"]) for k in n])
    exp = ll + idx * dx
    ctx.close(lut.index2grid(idx), exp, "index2grid", rtol=0, atol=tol)
    ctx.equal(lut.index2grid(idx).shape, (c["m"], 3), "index2grid shape")
    ctx.close(lut.index2grid(idx[0]), exp[:1], "index2grid of one index", rtol=0, atol=tol)
    ctx.close(lut.index2grid(list(idx[0])), exp[:1], "index2grid of a list", rtol=0, atol=tol)
    frac = idx + rng.uniform(-0.4, 0.4, idx.shape)
    ctx.close(lut.index2grid(frac), ll + frac * dx, "index2grid of fractional indices", rtol=0, atol=tol)
    flat = (idx[:, 0] * n[1] + idx[:, 1]) * n[2] + idx[:, 2]
    ctx.close(lut.index2grid(flat, unravel=True), exp, "unravelled flat indices (C order)", rtol=0, atol=tol)
    ctx.close(lut.index2grid(int(flat[0]), unravel=True), exp[:1], "one flat index", rtol=0, atol=tol)
    # --- grid -> index
    ctx.equal(np.asarray(lut.index2grid(exp, inverse=True)), idx, "grid -> index")
    ctx.equal(np.asarray(lut.index2grid(exp[0], inverse=True)), idx[:1], "grid -> index of one point")
    jit = exp + rng.uniform(-0.4999, 0.4999, exp.shape) * dx
    ctx.equal(np.asarray(lut.index2grid(jit, inverse=True)), idx, "nearest node of a point")
    # --- geographic
    coord = np.column_stack(Transformer.from_proj(kw["grid_proj"], kw["coord_proj"]).transform(*exp.T))
    ctx.close(lut.index2coord(idx), coord, "index2coord", rtol=0, atol=1e-7)
    ctx.close(lut.index2coord(flat, unravel=True), coord, "index2coord of flat indices", rtol=0, atol=1e-7)
    ctx.close(lut.index2coord(idx[0]), coord[:1], "index2coord of one index", rtol=0, atol=1e-7)
    ctx.close(lut.coord2grid(coord), exp, "coord2grid", rtol=0, atol=tol + 1e-4 * dx.min())
    ctx.close(lut.coord2grid(coord[0]), exp[:1], "coord2grid of one point", rtol=0, atol=tol + 1e-4 * dx.min())
    ctx.close(lut.coord2grid(exp, inverse=True), coord, "coord2grid inverse", rtol=0, atol=1e-7)
    ctx.equal(np.asarray(lut.index2coord(coord, inverse=True)), idx, "coord -> index")
    ctx.equal(np.asarray(lut.index2coord(coord[0], inverse=True)), idx[:1], "coord -> index of one point")
    ctx.close(coord[:, 2], exp[:, 2], "depth changed by the coordinate transform")
    # --- all nodes
    xyz = lut.grid_xyz
    for d in range(3):
        ctx.equal(xyz[d].shape, tuple(n), "grid_xyz shape")
        shape = [1, 1, 1]
        shape[d] = n[d]
        ctx.close(xyz[d], np.broadcast_to((ll[d] + np.arange(n[d]) * dx[d]).reshape(shape), n),
                  f"grid_xyz[{d}]", rtol=0, atol=tol)
    corners = np.array(lut.grid_corners)
    ctx.equal(corners.shape, (8, 3), "grid_corners shape")
    ctx.close(corners[0], ll, "first corner", rtol=0, atol=tol)
    ctx.close(corners[-1], last, "last corner", rtol=0, atol=tol)
    want = {tuple(np.round(ll + np.array([i, j, k]) * (n - 1) * dx, 3)) for i in (0, 1) for j in (0, 1)
            for k in (0, 1)}
    ctx.check(len(corners) == 8 and all(min(np.abs(np.array(w) - corners).max(1)) < 0.01 for w in want),
              "grid_corners is not the set of the eight corners")
    inv = Transformer.from_proj(kw["grid_proj"], kw["coord_proj"])
    for cells in (False, True):
        e = np.array([ll - dx / 2, last + dx / 2]) if cells else np.array([ll, last])
        for _ in range(2):     # repeated calls give the same answer
            ctx.close(lut.get_grid_extent(cells=cells), np.column_stack(inv.transform(*e.T)),
                      f"grid extent (cells={cells})", rtol=0, atol=1e-7)
    ctx.close(lut.grid_extent, np.column_stack(inv.transform(*np.array([ll, last]).T)), "grid_extent",
              rtol=0, atol=1e-7)
    u = g["proj"]["units"]
    ctx.equal((lut.unit_name, float(lut.unit_conversion_factor)), (u, 1000.0 if u == "km" else 1.0), "units")
    # --- precision: the last decimal resolves a node spacing
    if np.all(n > 1):
        step = np.abs(np.subtract(*lut.index2coord([[0, 0, 0], [1, 1, 1]])))
        for d in range(3):
            p = lut.precision[d]
            ctx.check(10.0 ** -p <= step[d] * (1 + 1e-9) < 10.0 ** (1 - p) * (1 + 1e-9),
                      f"precision {p} for a step of {step[d]}")
    ctx.nontrivial(int(n.prod()) > 1)


# --------------------------------------------------------------- summaries of a table
def strat_text():
    return fixed(g=grid_strat(), seed=seeds, m=st.integers(1, 6), outside=sampled(0.0, 1.0))


def check_text(c, ctx):
    """The printed summary and the extents say where the grid and its stations are."""
    kw, ll, ur = spec(c["g"])
    lut = LUT(**kw)
    rng = np.random.RandomState(c["seed"])
    last = ll + (np.array(lut.node_count) - 1) * spacing(c["g"])
    xyz = ll + (last - ll) * rng.uniform(-c["outside"], 1 + c["outside"], (c["m"], 3))
    inv = Transformer.from_proj(kw["grid_proj"], kw["coord_proj"])
    lon, lat, dep = inv.transform(*xyz.T)
    order = rng.permutation(4)
    table = pd.DataFrame({"Longitude": lon, "Latitude": lat, "Elevation": dep, "Name": [f"S{i}" for i in range(c["m"])]})
    lut.station_data = table[table.columns[order]]
    tol = 1e-9 * float(np.abs(xyz).max()) + 1e-4 * spacing(c["g"]).min()
    ctx.close(lut.stations_xyz, xyz, "stations_xyz", rtol=0, atol=tol)
    geo = np.c_[lon, lat, dep]
    ctx.close(lut.station_extent, [geo.min(0), geo.max(0)], "station_extent", rtol=0, atol=1e-9)
    half = spacing(c["g"]) / 2
    cells = np.column_stack(inv.transform(*np.array([ll - half, last + half]).T))
    lo, hi = np.minimum(geo.min(0), cells[0]), np.maximum(geo.max(0), cells[1])
    pad = 0.05 * np.abs(hi - lo)
    ctx.close(lut.max_extent, [lo - pad, hi + pad], "max_extent", rtol=1e-9, atol=1e-7)
    text = str(lut)
    corners = np.column_stack(inv.transform(*np.array([ll, last]).T))
    found = re.findall(r"corner\s*:\s*(\S+)\s*\u00b0N\s+(\S+)\s*\u00b0E\s+(\S+) (\w+)", text)
    ctx.equal(len(found), 2, "corners in the printed summary")
    for f, (x, y, z) in zip(found, corners):
        ctx.close([float(v) for v in f[:3]], [y, x, z], "printed corner (latitude, longitude, depth)", rtol=0, atol=1e-3)
        ctx.equal(f[3], c["g"]["proj"]["units"], "printed units")
    ctx.check(str(lut.node_count) in text and str(lut.node_spacing) in text, "node count or spacing missing in the printed summary")
    ctx.nontrivial(c["m"] > 1)


FACETS = [Facet("summary", strat_text, check_text, quick=300, thorough=5000, shards=2, rule="more than one station"),
          Facet("conversions", strat, check, quick=900, thorough=20000, shards=4,
                rule="grids of more than one node")]
