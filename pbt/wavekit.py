"""Waveforms with instrument responses: generated inventories, signals and a NumPy response removal."""
import numpy as np
from obspy import UTCDateTime
from obspy.core.inventory import Channel, Inventory, Network, Site, Station
from obspy.core.inventory.response import Response

# Instruments: zeros, poles (rad/s); normalised and scaled per case
INSTRUMENTS = {
    "bb": ([0j, 0j], [-0.0370 + 0.0370j, -0.0370 - 0.0370j, -251.33 + 0j]),
    "1hz": ([0j, 0j], [-4.44 + 4.44j, -4.44 - 4.44j]),
    "4.5hz": ([0j, 0j], [-19.8 + 20.1j, -19.8 - 20.1j]),
    "odd": ([0j, 0j, -15.0 + 0j], [-0.15 + 0j, -0.6 + 0.7j, -0.6 - 0.7j, -180.0 + 0j]),
    "1hz-hertz": ([0j, 0j], [-4.44 + 4.44j, -4.44 - 4.44j]),
    "odd-hertz": ([0j, 0j, -15.0 + 0j], [-0.15 + 0j, -0.6 + 0.7j, -0.6 - 0.7j, -180.0 + 0j]),
    "acc": ([0j], [-980.0 + 1000.0j, -980.0 - 1000.0j]),
    "acc-hertz": ([0j, -15.0 + 0j], [-0.6 + 0.7j, -0.6 - 0.7j]),
}
# All zeros and poles above are for ground velocity, in rad/s. "hertz" instruments have their response information in Hz
# (pole / 2 pi), "acc" instruments for ground acceleration (one zero at the origin less); the gain is per unit of that motion.

WA_POLES = [-6.283185 - 4.712j, -6.283185 + 4.712j]
WA_GAIN = 2080.0


def transfer(zeros, poles, freqs):
    s = 2j * np.pi * np.asarray(freqs)
    h = np.ones(len(s), dtype=complex)
    for z in zeros:
        h = h * (s - z)
    for p in poles:
        h = h / (s - p)
    return h


def own_zeros(kind):
    """The zeros for the motion that the instrument's gain refers to."""
    zeros = list(INSTRUMENTS[kind][0])
    if kind.startswith("acc"):
        zeros.remove(0j)
    return zeros


def norm(kind):
    """Normalisation (rad/s): unit response to the instrument's own motion at 5 Hz."""
    return 1.0 / abs(transfer(own_zeros(kind), INSTRUMENTS[kind][1], [5.0])[0])


def response(kind, gain):
    """The obspy Response."""
    zeros, poles, a0 = own_zeros(kind), list(INSTRUMENTS[kind][1]), norm(kind)
    units = "LAPLACE (RADIANS/SECOND)"
    if kind.endswith("hertz"):
        units = "LAPLACE (HERTZ)"
        a0 *= (2 * np.pi) ** (len(zeros) - len(poles))
        zeros, poles = [z / (2 * np.pi) for z in zeros], [p / (2 * np.pi) for p in poles]
    return Response.from_paz(zeros, poles, gain, stage_gain_frequency=5.0, input_units="M/S**2" if kind.startswith("acc") else "M/S",
                             output_units="COUNTS", normalization_frequency=5.0, normalization_factor=a0,
                             pz_transfer_function_type=units)


def inventory(entries):
    """entries: [(trace id, Response, start or None, end or None)], one channel epoch each."""
    nets = {}
    for id_, r, t0, t1 in entries:
        n, s, loc, cha = id_.split(".")
        sta = nets.setdefault(n, {}).setdefault(s, [])
        sta.append(Channel(code=cha, location_code=loc, latitude=0.0, longitude=0.0, elevation=0.0, depth=0.0,
                           response=r, start_date=t0, end_date=t1))
    return Inventory(networks=[Network(code=n, stations=[
        Station(code=s, latitude=0.0, longitude=0.0, elevation=0.0, channels=ch, site=Site(name=s))
        for s, ch in stas.items()]) for n, stas in nets.items()], source="generated")


def signal(rng, n, smooth=2, scale=1000.0):
    """Band-limited noise with a burst, so that peaks and troughs are well sampled."""
    x = rng.normal(size=n + 8)
    for _ in range(smooth):
        x = np.convolve(x, [0.25, 0.5, 0.25], mode="same")
    x = x[4:n + 4]
    if n > 4:
        c, w = rng.uniform(0, n), max(2.0, n / 12)
        x = x * (1 + 20 * np.exp(-0.5 * ((np.arange(n) - c) / w) ** 2))
    return x * scale


def detrend(x):
    """Linear detrend by least squares."""
    n = len(x)
    if n < 2:
        return np.asarray(x, dtype=float) - np.mean(x)
    k = np.arange(n) - (n - 1) / 2
    x = np.asarray(x, dtype=float)
    m = x.mean()
    return x - m - k * (np.dot(k, x - m) / np.dot(k, k))


def _sac_taper(n, p=0.05):
    """ObsPy's SAC-style quarter-cosine taper of p / 2 of the samples on either end."""
    frac = int(n * p / 2.0 + 0.5)
    i1, i2, i3, i4 = 0, frac, n - frac - 1, n - 1
    if i1 == i2:
        i2 += 1
    if i3 == i4:
        i3 -= 1
    w = np.ones(n)
    k = np.arange(n)
    a, b = k <= i2, k >= i3
    w[a] = np.cos(np.pi / 2 * (i2 - k[a]) / (i2 - i1))
    w[b] = np.cos(np.pi / 2 * (k[b] - i3) / (i4 - i3))
    return w


def _spectrum(x, sr):
    n = len(x)
    nfft = 1
    x = np.asarray(x, dtype=float)
    x = (x - x.mean()) * _sac_taper(n)
    from obspy.signal.util import _npts2nfft
    nfft = _npts2nfft(n)
    return np.fft.rfft(x, nfft), np.fft.rfftfreq(nfft, 1.0 / sr), n


def _back(X, n):
    X[-1] = abs(X[-1])
    return np.fft.irfft(X)[:n]


def remove(x, sr, zeros, poles, a0, sens, water_level, pre_filt):
    X, f, n = _spectrum(x, sr)
    if pre_filt:
        f1, f2, f3, f4 = pre_filt
        w = np.interp(f, [f1, f2, f3, f4], [0, 1, 1, 0], left=0, right=0)
        X = X * 0.5 * (1 - np.cos(np.pi * w))
    h = a0 * transfer(zeros, poles, f)
    mag = np.abs(h)
    swamp = mag.max() * 10.0 ** (-water_level / 20.0)
    low = (mag < swamp) & (mag > 0)
    h[low] *= swamp / mag[low]
    inv = np.zeros_like(h)
    ok = np.abs(h) > 0
    inv[ok] = 1.0 / h[ok]
    return _back(X * inv, n) / sens


def simulate_wa(x, sr):
    X, f, n = _spectrum(x, sr)
    return _back(X * transfer([0j, 0j], WA_POLES, f), n) * WA_GAIN


def corrected(x, sr, kind, gain, what, velocity, water_level, pre_filt):
    """Ground motion ("real") or Wood-Anderson ("wa") waveform of the raw samples, by the documented recipe."""
    zeros, poles = INSTRUMENTS[kind]
    a0 = norm(kind)
    x = detrend(x)
    z = list(zeros) + ([] if velocity else [0j])
    y = remove(detrend(x) if what == "wa" else x, sr, z, poles, a0, gain, water_level, pre_filt)
    return simulate_wa(y, sr) if what == "wa" else y
