"""Generated grids and lookup tables."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from pyproj import Proj

from quakemigrate.lut import LUT
from strategies import fixed, one_in, rounded, sampled, seeds

CPROJ = dict(proj="longlat", ellps="WGS84", datum="WGS84", no_defs=True)


def proj_strat():
    return fixed(kind=sampled("lcc", "tmerc", "aeqd", "utm", "laea"), units=sampled("km", "m"),
                 lon=rounded(-170, 170, 2), lat=rounded(-65, 75, 2))


def gproj(p):
    kw = dict(units=p["units"], datum="WGS84", ellps="WGS84", no_defs=True)
    lon, lat = p["lon"], p["lat"]
    if p["kind"] == "lcc":
        lat = lat if abs(lat) > 2 else 5.0
        return Proj(proj="lcc", lon_0=lon, lat_0=lat, lat_1=lat - 0.1, lat_2=lat + 0.1, **kw)
    if p["kind"] == "utm":
        kw.pop("no_defs")
        return Proj(proj="utm", zone=int((lon + 180) // 6) + 1, south=lat < 0, **kw)
    return Proj(proj=p["kind"], lon_0=lon, lat_0=lat, **kw)


def grid_strat(nmax=9, units=None):
    """Grid from an origin, node spacing and (possibly fractional) extent in node spacings."""
    return fixed(proj=proj_strat(), n=st.tuples(*[st.integers(1, nmax)] * 3).map(list),
                 frac=st.tuples(*[sampled(0.0, 0.0, 0.3, 0.7, 0.95, 0.01)] * 3).map(list),
                 dx=st.tuples(*[one_in(3, rounded(0.0125, 2, 4), rounded(0.05, 6, 2))] * 3).map(list),
                 off=st.tuples(rounded(-80, 80, 2), rounded(-80, 80, 2), rounded(-3, 20, 2)).map(list),
                 scalar=sampled(False, False, False, True))


def spacing(g):
    """Node spacing in grid units."""
    u = 1.0 if g["proj"]["units"] == "km" else 1000.0
    dx = [g["dx"][0]] * 3 if g["scalar"] else g["dx"]
    return np.array(dx) * u


def spec(g, exact=False):
    """Grid3D keyword arguments; the request spans n - 1 + frac node spacings on each axis.

    The corners are given in geographic coordinates, so node counts implied by exact multiples of
    the spacing are only defined to rounding; `frac` 0 is requested as 0.001 less than n - 1."""
    from pyproj import Transformer
    gp, cp = gproj(g["proj"]), Proj(**CPROJ)
    u = 1.0 if g["proj"]["units"] == "km" else 1000.0
    dx = spacing(g)
    base = np.array(Transformer.from_proj(cp, gp).transform(g["proj"]["lon"], g["proj"]["lat"], 0.0))
    ll = base + np.array(g["off"]) * u
    n = np.array(g["n"])
    ext = (n - 1 + np.array(g["frac"])) * dx
    ext = np.where(np.array(g["frac"]) == 0, np.maximum((n - 1 - 0.001), 0) * dx, ext)
    ur = ll + ext
    inv = Transformer.from_proj(gp, cp)
    return dict(ll_corner=list(inv.transform(*ll)), ur_corner=list(inv.transform(*ur)),
                node_spacing=float(dx[0]) if g["scalar"] else list(dx), grid_proj=gp, coord_proj=cp), ll, ur


def stations_frame(lut, m, seed, outside=0.0, names=None):
    """m stations inside the grid volume (or within `outside` extents around it)."""
    rng = np.random.RandomState(seed)
    c = lut.grid_corners
    lo, hi = c.min(0), c.max(0)
    xyz = lo + (hi - lo) * rng.uniform(-outside, 1 + outside, (m, 3))
    lon, lat, z = lut.coord2grid(xyz, inverse=True).T
    return pd.DataFrame({"Longitude": lon, "Latitude": lat, "Elevation": z,
                         "Name": names or [f"ST{i}" for i in range(m)]})


def random_lut(g, m, seed, phases=("P", "S"), tmax=5.0, names=None):
    """LUT with random traveltimes (no physics)."""
    lut = LUT(**spec(g)[0])
    rng = np.random.RandomState(seed)
    lut.phases = list(phases)
    lut.station_data = stations_frame(lut, m, seed, names=names)
    for s in lut.station_data["Name"]:
        for p in phases:
            lut.traveltimes.setdefault(s, {})[p] = rng.uniform(0, tmax, tuple(lut.node_count))
    return lut


def answers(lut, rate=50):
    """What a lookup table says of itself, as a dict of arrays and texts."""
    n = np.array(lut.node_count)
    some = np.array([[0, 0, 0], n // 2, n - 1])
    out = {"node count": n, "spacing": np.array(lut.node_spacing), "corners": np.array(lut.grid_corners),
           "extent": np.array(lut.get_grid_extent()), "cell extent": np.array(lut.get_grid_extent(cells=True)),
           "coordinates": np.array(lut.index2coord(some)), "positions": np.array(lut.index2grid(some)),
           "flat indices": np.array(lut.index2grid(lut.index2grid(some), inverse=True)),
           **{f"grid {i}": np.array(a) for i, a in enumerate(lut.grid_xyz)}, "units": lut.unit_name, "factor": lut.unit_conversion_factor,
           "summary": str(lut), "phases": list(lut.phases)}
    out["precision"] = list(lut.precision)
    if len(lut.station_data):
        names = list(lut.station_data["Name"])
        out["station extent"] = np.array(lut.station_extent)
        out["station positions"] = np.array(lut.stations_xyz)
        out["max extent"] = np.array(lut.max_extent)
        out["max traveltime"] = float(lut.max_traveltime)
        out["served"] = lut.serve_traveltimes(rate)
        out["served some"] = lut.serve_traveltimes(rate / 2, {f"{s}_{lut.phases[-1]}": 1 for s in names})
        if (n > 1).all():
            for p in lut.phases:
                out[f"to {p}"] = np.array(lut.traveltime_to(p, (n - 1) / 2))
                out[f"to {p} one"] = np.array(lut.traveltime_to(p, (n - 1) / 3, names[0]))
    return out


def same_answers(ctx, a, b, what):
    ctx.equal(sorted(a), sorted(b), f"{what}: questions")
    for k in a:
        ctx.equal(a[k], b[k], f"{what}: {k}")
