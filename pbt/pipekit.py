"""Synthetic experiments for whole runs (detect, trigger, locate) with the default onset."""
import os
import pathlib

import numpy as np
import pandas as pd

import e2e
import lutgen
from qm import t_add
from quakemigrate import QuakeScan, Trigger
from quakemigrate.lut import LUT, compute_traveltimes
from quakemigrate.signal.onsets import STALTAOnset
from quakemigrate.signal.pickers import GaussianPicker

NAMES = ["STA", "B", "X12", "LONG1", "S5", "S6"]
COMPS = ("HHZ", "HHN", "HHE")


def network_lut(seed, n, m, units="km", spacing=2.0, phases=("P", "S"), proj="lcc", layered=False, lon=10.0, lat=45.0,
                order=None, rename=None):
    """Grid of n nodes (spacing in km) and m surface stations around its centre, on or inside its top face; `order`: rows of the
    station table, `rename`: other names of the stations."""
    u = 1.0 if units == "km" else 1000.0
    g = dict(proj=dict(kind=proj, units=units, lon=lon, lat=lat), n=n, frac=[0, 0, 0], dx=[spacing] * 3, off=[-5, -5, 0], scalar=False)
    spec = lutgen.spec(g)[0]
    lut0 = LUT(**spec)
    rng = np.random.RandomState(seed)
    lo, hi = lut0.grid_corners.min(0), lut0.grid_corners.max(0)
    ang = np.arange(m) * 2 * np.pi / m + rng.uniform(0, 1)
    r = rng.uniform(0.35, 0.75, m)
    mid, half = (lo + hi) / 2, (hi - lo) / 2
    pos = np.stack([mid[0] + r * np.cos(ang) * half[0] * 1.2, mid[1] + r * np.sin(ang) * half[1] * 1.2,
                    np.full(m, lo[2] + 0.01 * u)], -1)
    lon_, lat_, z = lut0.coord2grid(pos, inverse=True).T
    sta = pd.DataFrame({"Longitude": lon_, "Latitude": lat_, "Elevation": z, "Name": [(rename or {}).get(q, q) for q in NAMES[:m]]})
    if order is not None:
        sta = sta.iloc[order].reset_index(drop=True)
    if layered:
        vm = pd.DataFrame({"Depth": np.array([-100.0, 2.0, 4.0, 100.0]) * u, "Vp": np.array([4.5, 4.8, 5.6, 6.0]) * u,
                           "Vs": np.array([2.6, 2.8, 3.2, 3.4]) * u})
        return compute_traveltimes(spec, sta, method="1dfmm", phases=list(phases), vmod=vm)
    return compute_traveltimes(spec, sta, method="homogeneous", phases=list(phases), vp=5.0 * u, vs=2.9 * u)


def onset(sr, position="classic", phases=("P", "S"), **kw):
    return STALTAOnset(sampling_rate=sr, phases=list(phases), position=position, bandpass_filters={p: [2, 12, 2] for p in phases},
                       sta_lta_windows={p: [0.2, 1.5] for p in phases}, channel_maps={"P": "*Z", "S": "*[N,E]"},
                       channel_counts={"P": 1, "S": 2}, **kw)


def waveforms(lut, names, sr, total, sources, rng, noise=1.0, phases=("P", "S"), freq=6.0):
    """{(station, channel): samples} with a decaying 6 Hz wavelet on each arrival; sources: [(node, sample, amplitude)]."""
    tr = {(s, ch): rng.normal(0, noise, total) for s in names for ch in COMPS}
    for node, k, amp in sources:
        for s in names:
            for p in phases:
                t = (np.arange(total) - k) / sr - lut.traveltimes[s][p][tuple(node)]
                w = np.where(t >= 0, np.sin(2 * np.pi * freq * t) * np.exp(-np.maximum(t, 0) / 0.15), 0.0) * amp
                for ch in COMPS[:1] if p == "P" else COMPS[1:]:
                    tr[s, ch] += w
    return tr
