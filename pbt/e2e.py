"""Builders for end-to-end runs: archives on disk, a pointwise onset, migration reference."""
import os
import pathlib

import numpy as np
import pandas as pd
from obspy import Stream, UTCDateTime

import quakemigrate.util as util
from qm import t_add, trace
from quakemigrate.io.data import Archive
from quakemigrate.signal.onsets import Onset
from quakemigrate.signal.onsets.base import OnsetData


def write_archive(root, pieces, sr, fmt="YEAR/JD/STATION"):
    """pieces: [(station, channel, start UTCDateTime, samples)]; split into day files (one per channel)."""
    n = 0
    files = {}
    for sta, cha, t0, x in pieces:
        x = np.asarray(x)
        i = 0
        while i < len(x):
            t = t_add(t0, i, sr)
            nxt = UTCDateTime(t.date) + 86400
            k = int(-(-(nxt._ns - t._ns) * sr // 10**9))       # samples left in this day
            k = max(1, min(k, len(x) - i))
            files.setdefault((t.year, t.julday, sta, cha), []).append(trace(x[i:i + k], t, sr, sta, cha))
            i += k
    for (y, j, sta, cha), trs in files.items():
        p = pathlib.Path(root) / f"{y}" / f"{j:03d}" / f"{sta}.{cha}.m"
        p.parent.mkdir(parents=True, exist_ok=True)
        Stream(trs).write(str(p), format="MSEED")
        n += 1
    return n


def archive(root, names, **kw):
    os.makedirs(root, exist_ok=True)
    return Archive(archive_path=str(root), stations=pd.DataFrame({"Name": list(names)}),
                   archive_format="YEAR/JD/STATION", **kw)


class PointOnset(Onset):
    """A custom onset (public base class) whose values depend on single samples only.

    The onset of channel Z is P, that of channel N is S: onset = |sample| / scale + 0.005."""

    CH = {"P": "HHZ", "S": "HHN"}

    def __init__(self, sampling_rate, phases, pre, extra, scale=1.0, halfwidth=0.1):
        super().__init__(sampling_rate=sampling_rate)
        self.phases = list(phases)
        self.channel_maps = {"P": "*Z", "S": "*[N,E]"}
        self.bandpass_filters = {p: [1.0, sampling_rate / 3, 2] for p in phases}
        self.pre = pre                  # samples
        self.extra = extra              # samples after the largest traveltime
        self.scale = scale
        self.halfwidth = halfwidth
        self.seen = []

    def __str__(self):
        return "point onset"

    @property
    def pre_pad(self):
        return self._pre_pad

    @pre_pad.setter
    def pre_pad(self, value):
        self._pre_pad = value

    @property
    def post_pad(self):
        return self._post_pad

    @post_pad.setter
    def post_pad(self, value):
        self._post_pad = value

    def pad_samples(self):
        return self.pre, int(np.ceil(self.post_pad * self.sampling_rate)) + 1 + self.extra

    def pad(self, timespan):
        pre, post = self.pad_samples()
        return pre / self.sampling_rate, post / self.sampling_rate

    def gaussian_halfwidth(self, phase):
        return self.halfwidth

    def value(self, x):
        return np.abs(np.asarray(x, dtype=float)) / self.scale + 0.005

    def calculate_onsets(self, data, log=True, timespan=None):
        n = round((data.endtime - data.starttime) * self.sampling_rate) + 1
        rows, onsets, avail, kept = [], {}, {}, Stream()
        for phase in self.phases:
            for sta in data.stations:
                st = data.waveforms.select(station=sta, channel=self.CH[phase])
                ok = len(st) == 1 and st[0].stats.npts == n \
                    and abs(st[0].stats.starttime - data.starttime) <= 0.5 / self.sampling_rate
                avail[f"{sta}_{phase}"] = int(ok)
                if ok:
                    o = self.value(st[0].data)
                    rows.append(o)
                    onsets.setdefault(sta, {})[phase] = o
                    kept += st
        if not rows:
            raise util.DataAvailabilityException
        return np.stack(rows, axis=0), OnsetData(onsets, self.phases, self.channel_maps, kept, avail,
                                                 data.starttime, data.endtime, self.sampling_rate)


def stack(onsets, tts, fsmp, nsamp):
    """NumPy migration: onsets (k, n), tts (nx, ny, nz, k) -> coalescence (nx, ny, nz, nsamp)."""
    lg = np.log(np.maximum(onsets, 0.01))
    out = np.zeros(tts.shape[:3] + (nsamp,))
    for ix in np.ndindex(*tts.shape[:3]):
        for k in range(len(lg)):
            a = fsmp + tts[ix][k]
            out[ix] += lg[k, a:a + nsamp]
    return np.exp(out / len(lg))
