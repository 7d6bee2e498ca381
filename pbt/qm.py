"""Builders shared by the checks (public QuakeMigrate API only)."""
import numpy as np
import pandas as pd
from obspy import Stream, Trace, UTCDateTime

EPOCH = UTCDateTime(2015, 3, 1)


def trace(data, start, sr, station="STA", channel="HHZ", network="XX", location=""):
    tr = Trace(data=np.asarray(data), header={
        "network": network, "station": station, "location": location, "channel": channel,
        "sampling_rate": float(sr)})
    tr.stats.starttime = start
    return tr


def t_add(t, k, sr):
    """t + k samples, exact to the nanosecond."""
    return UTCDateTime(ns=t._ns + round(k * 10**9 / sr))


def samples(tr, sr=None):
    """{time in ns on the sample grid: value} of a trace (masked samples left out)."""
    sr = sr or tr.stats.sampling_rate
    t0 = tr.stats.starttime._ns
    d = np.ma.asarray(tr.data)
    m = np.ma.getmaskarray(d)
    return {t0 + round(i * 10**9 / sr): d.data[i].item() for i in range(len(d)) if not m[i]}


def same_stream(a, b):
    """Bit-identical content (ids, times, rates, samples, dtypes), order included."""
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x.id != y.id or x.stats.starttime != y.stats.starttime \
                or x.stats.sampling_rate != y.stats.sampling_rate or x.data.dtype != y.data.dtype \
                or x.data.shape != y.data.shape or not np.array_equal(
                    np.ma.getdata(x.data), np.ma.getdata(y.data), equal_nan=x.data.dtype.kind == "f"):
            return False
    return True
