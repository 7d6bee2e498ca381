"""C35: figures show the results of the run."""
import pathlib
import re

import numpy as np
import pandas as pd
from obspy import UTCDateTime

import figkit as fk
from checks import c32_figures as c32
from checks.c23_magnitude import law
from harness import Facet
from qm import t_add
from quakemigrate.io import Run
from quakemigrate.io.scanmseed import read_scanmseed
from quakemigrate.signal.pickers import GaussianPicker
from strategies import fixed, sampled, st

ASSUMPTIONS = ["figures are read as matplotlib figures when they are saved; colours, fonts and layout are not judged",
               "the channel maps name vertical components for P and horizontal ones for S",
               "smoothed coalescence and dynamic thresholds in the trigger figure are not recomputed (C16 decides them)"]
US = 2e-5 / 86400       # tolerance on drawn times, in days
NUM = r"(-?(?:\d+\.?\d*(?:e[+-]?\d+)?|nan|inf))"


def numbers(text):
    return [float(v) for v in re.findall(NUM, text)]


def near(a, b, rtol=1e-9, atol=1e-12):
    return (np.isnan(a) and np.isnan(b)) or a == b or abs(a - b) <= atol + rtol * abs(b)


def seconds(fmt_time):
    return re.findall(r"\d{4}-\d\d-\d\d[ T]\d\d:\d\d:\d\d(?:\.\d+)?", fmt_time)


# ---------------------------------------------------------------- event summary, picks and amplitudes
def event_strat():
    base = c32.locate_strat()
    force = fixed(which=sampled("event", "picks", "amps", "amps"), easy=sampled(True, True, False))
    return st.tuples(base, force, c32.mag_s).map(combine)


def combine(t):
    c, f, g = t
    c = dict(c, event=f["which"] == "event" or c["event"] and f["which"] != "amps", picks=f["which"] == "picks", cut=False)
    c["amp"] = c["amp"] or 30.0
    if f["which"] == "amps":
        c["mags"] = dict(c["mags"] or g, plot=True, resp=1)
        if c["mags"]["trace"] == ".*X$":
            c["mags"]["trace"] = None
        if c["mags"]["noise"] > 10:
            c["mags"]["noise"] = 1.0
        if c["mags"]["dist"] and c["mags"]["dist"] < 1:
            c["mags"]["dist"] = 10.0
        if f["easy"]:
            c["mags"].update(pick=False, noise=min(c["mags"]["noise"], 1.0), stations=None)
            c["amp"] = 30.0
    elif c["mags"]:
        c["mags"] = dict(c["mags"], plot=False)
    return c


def check_event(c, ctx):
    root = pathlib.Path(ctx.tmp())
    world = c32.locate_setup(c, root)
    if world is None:
        return
    lut, names, data, gone, arch, trig = world
    seen, mean, outs = {}, [], {}

    class Picker(GaussianPicker):
        def pick_phases(self, event, lut, run):
            seen[str(event.uid)] = event
            return super().pick_phases(event, lut, run)

    def watch(mags):
        original = mags.mag.mean_magnitude

        def mean_magnitude(m):
            out = original(m)
            mean.append(out[3].copy())
            outs[list(seen)[-1]] = out[3].copy()
            return out
        mags.mag.mean_magnitude = mean_magnitude
        outs["mag"] = mags.mag

    (root / "figs").mkdir()
    with fk.captured() as made:
        e = c32.attempt(lambda: c32.locate_run(c, root / "figs", lut, arch, trig, True, picker=Picker, watch=watch))
    if e is not None:
        ctx.label(f"run raised {type(e).__name__}")      # decided by C32 and C18
        return
    base = root / "figs" / "r" / "locate" / c["sub"]
    if not made:
        ctx.label(f"no figure: {len(seen)} events, magnitudes of {len(outs) - 1}")
    for f, fig in made.items():
        f = pathlib.Path(f)
        uid = next(u for u in seen if u in f.name)
        ev = seen[uid]
        if f.name.endswith("_EventSummary.pdf"):
            row = pd.read_csv(base / "events" / f"{uid}.event").iloc[0]
            cmap = np.load(base / "marginalised_coalescence_maps" / f"{uid}.npy")
            summary(c, ctx, fig, uid, ev, row, cmap, lut, names)
        elif f.name.endswith("_AmpVsDistance.pdf"):
            amplitudes(c, ctx, fig, uid, ev, outs[uid], lut, outs["mag"])
        else:
            pick_figure(c, ctx, fig, uid, f.stem[len(uid) + 1:], ev, base)
        ctx.nontrivial()


def summary(c, ctx, fig, uid, ev, row, cmap, lut, names):
    sr = c["sr"]
    # --- text ---
    text = "\n".join(fk.texts(fig))
    ctx.check(uid in text, f"{uid}: the event summary does not name the event")
    t = UTCDateTime(row["DT"])
    drawn = [UTCDateTime(s) for s in seconds(text)]
    ctx.check(any(abs(d - t) <= 0.0010001 for d in drawn), f"{uid}: origin time {t} is not among the times shown: {drawn}")
    u = 1.0 if c["units"] == "km" else 1000.0
    hyp = next((x for x in fk.texts(fig) if "°N" in x), "")
    n = numbers(hyp)
    want = [row["Y"], row["GAU_ErrY"] / u, row["X"], row["GAU_ErrX"] / u, row["Z"] / u, row["GAU_ErrZ"] / u]
    ctx.check(len(n) == 6 and all(near(a, b, 1e-5, 0.00051 if i != 4 else 0.0011) for i, (a, b) in enumerate(zip(n, want))),
              f"{uid}: hypocentre shown as {hyp!r}, expected {want}")
    pos = hyp.find("°N"), hyp.find("°E")
    ctx.check(0 <= pos[0] < pos[1], f"{uid}: {hyp!r}")
    cov = float(f"{ev.locations['covariance']['Err_XYZ']:.3g}")
    ctx.check(any(near(float(x), cov, 1e-3) for x in fk.texts(fig) if re.fullmatch(NUM, x.strip())),
              f"{uid}: geometric mean covariance {cov} is not shown")
    ml = [x for x in fk.texts(fig) if "r²" in x]
    if c["mags"]:
        ctx.check(len(ml) == 1, f"{uid}: the magnitude is not shown")
        got, want = numbers(ml[0].replace("r²", "r")), [float(row[k]) for k in ("ML", "ML_Err", "ML_r2")]
        ctx.check(len(got) == 3 and all(near(a, b, 6e-3) for a, b in zip(got, want)), f"{uid}: magnitude shown as {ml[0]!r}, expected {want}")
    else:
        ctx.equal(ml, [], f"{uid}: magnitudes shown by a run without magnitudes")
    # --- which stations ---
    shown = set(names) if c["all_stns"] else {k.split("_")[0] for k, v in ev.onset_data.availability.items() if v == 1}
    # --- coalescence ---
    tn = np.array([fk.num(x) for x in ev.coa_data["DT"]])
    coa = ev.coa_data["COA"].values.astype(float)
    axes = [ax for ax in fig.axes if any(len(x) == len(tn) and np.allclose(x, tn, rtol=0, atol=US) and np.allclose(y, coa, rtol=1e-9)
                                         for x, y in fk.curves(ax))]
    ctx.check(len(axes) >= 1, f"{uid}: the maximum coalescence through time is not drawn")
    ot = fk.num(ev.otime)
    ctx.check(fk.contains(fk.vrules(axes[0]), ot, US), f"{uid}: no origin time on the coalescence trace")
    # --- waveform gather ---
    gather = [ax for ax in fig.axes if shown and shown <= {x.get_text() for x in ax.get_yticklabels()}]
    peaks = np.argwhere(cmap == np.nanmax(cmap))
    idx = tuple(peaks[0])
    ctx.check(len(gather) == 1, f"{uid}: no gather of the stations {sorted(shown)}")
    ax = gather[0]
    labels = [x.get_text() for x in ax.get_yticklabels()]
    ctx.equal(sorted(labels), sorted(shown), f"{uid}: stations of the gather")
    ypos = dict(zip(labels, [float(v) for v in ax.get_yticks()]))
    ctx.check(fk.contains(fk.vrules(ax), ot, US), f"{uid}: no origin time on the gather")
    tts = {s: {p: float(lut.traveltimes[s][p][idx]) for p in c["phases"]} for s in shown}
    if len(peaks) == 1:
        want = [(fk.num(ev.otime + tts[s][p]), ypos[s]) for s in shown for p in c["phases"]]
        got = np.concatenate([o for o in fk.scatters(ax)] or [np.zeros((0, 2))])
        ctx.check(fk.same_points(want, got, rtol=0, atol=1e-6) and all(
            np.min(np.abs(got[:, 0] - x)[got[:, 1] == y]) <= US for x, y in want), lambda: f"{uid}: modelled arrivals {got.tolist()}, expected {want}")
        order = sorted(shown, key=lambda s: -ypos[s])
        d = [tts[s][c["phases"][0]] for s in order]
        ctx.check(all(b >= a - 1e-6 for a, b in zip(d, d[1:])), f"{uid}: gather in the order {order} with {c['phases'][0]} traveltimes {d}")
    traces = [tr for tr in ev.onset_data.filtered_waveforms if tr.stats.station in shown]
    wiggles = fk.curves(ax)
    last = max(max(v.values()) for v in tts.values())
    ok = [w for w in wiggles if np.isfinite(w[1]).all()]
    for tr in traces:
        if len(ok) < len(wiggles):
            break
        hit = next((k for k, w in enumerate(ok) if matches(w, tr, ypos[tr.stats.station], sr)), None)
        ctx.check(hit is not None, f"{uid}: waveform of {tr.id} is not drawn at its station and time")
        x, y = ok.pop(hit)
        ctx.check(x[0] <= ot + 1.01 / sr / 86400 and x[-1] >= min(ot + last / 86400, fk.num(ev.data.endtime)) - 2.01 / sr / 86400,
                  f"{uid}: waveform of {tr.id} drawn from {x[0] - ot} to {x[-1] - ot} days after the origin time")
        if len(peaks) == 1:
            # scaled to the largest amplitude of the station's own arrivals
            own, at = abs(y - ypos[tr.stats.station]), (x - ot) * 86400
            until = 1.5 * max(tts[tr.stats.station].values())
            ctx.check((own[at <= until - 2 / sr] <= 1.001).all() and not (own[at <= until + 2 / sr] < 0.99).all(),
                      lambda: f"{uid}: waveform of {tr.id} is drawn {own[at <= until].max(initial=0):.3g} rows high")
        ctx.label("waveform")
    else:
        ctx.equal(len(ok), 0, f"{uid}: waveforms drawn in addition")
    # --- maps ---
    lo, hi = lut.get_grid_extent(cells=True)
    hypo = ev.locations["spline"]
    hypo = np.array([hypo[k] for k in "XYZ"])
    gau = ev.locations["gaussian"]
    xyz = np.array([gau[k] for k in "XYZ"])
    err = np.array([gau["Err" + k] for k in "XYZ"])
    sta = lut.station_data[lut.station_data["Name"].isin(shown)]
    pts = sta[["Longitude", "Latitude", "Elevation"]].values.astype(float)
    node = lut.index2coord(np.argwhere(np.ones(cmap.shape, bool))).reshape(*cmap.shape, 3)
    axs = maps(fig, lo, hi)
    ctx.check(axs is not None, f"{uid}: no map and cross-sections over the grid")
    for (i, j), ax in axs.items():
        name = f"{uid}: {'XYZ'[i]}-{'XYZ'[j]} section"
        rx, ry = hi[i] - lo[i], hi[j] - lo[j]
        cross = [(x, y) for x, y, _ in fk.lines(ax)]
        ctx.check(any(len(set(x)) == 1 and abs(x[0] - hypo[i]) <= 1e-9 * abs(rx) + 1e-9 for x, y in cross)
                  and any(len(set(y)) == 1 and abs(y[0] - hypo[j]) <= 1e-9 * abs(ry) + 1e-9 for x, y in cross), f"{name}: no crosshair at the hypocentre")
        ctx.check(any(fk.same_points(o, pts[:, [i, j]]) for o in fk.scatters(ax)), f"{name}: stations drawn at {[o.tolist() for o in fk.scatters(ax)]}")
        if len(peaks) == 1:
            section(ctx, name, ax, cmap, idx, node, i, j)
        if np.isfinite(err).all() and np.isfinite(xyz).all():
            g = lut.coord2grid(xyz)[0]
            d = np.abs(xyz - lut.coord2grid(g + err, inverse=True)[0])
            d2 = np.abs(xyz - lut.coord2grid(g - err, inverse=True)[0])
            ctx.check(any(abs(p.center[0] - xyz[i]) <= 1e-9 + 1e-9 * abs(xyz[i]) and abs(p.center[1] - xyz[j]) <= 1e-9 + 1e-9 * abs(xyz[j])
                          and like(p.width / 2, d[i], d2[i]) and like(p.height / 2, d[j], d2[j]) for p in fk.ellipses(ax)),
                      f"{name}: no uncertainty ellipse at {xyz[[i, j]]} of half axes {d[[i, j]]}")
    named = {(t.get_text(), tuple(np.round(t.xy, 9))) for t in axs[0, 1].texts if hasattr(t, "xy")}
    ctx.equal(sorted(named), sorted((r["Name"], (round(float(r["Longitude"]), 9), round(float(r["Latitude"]), 9))) for _, r in sta.iterrows()),
              f"{uid}: station names on the map")
    xy_lines(c, ctx, axs[0, 1], uid)
    ctx.label("summary")


def like(a, *bs):
    return any(abs(a - b) <= 0.03 * abs(b) + 1e-12 for b in bs)


def xy_lines(c, ctx, ax, name):
    drawn = [np.column_stack([x, y]) for x, y in fk.curves(ax)]
    want = [np.array([[9.99, 44.99], [10.01, 45.0], [10.02, 45.02]])] * bool(c["xy"]) + [np.array([[10.0, 45.0]])] * (c["xy"] == "two")
    for w in want:
        ctx.check(any(d.shape == w.shape and np.allclose(d, w, rtol=0, atol=1e-9) for d in drawn), f"{name}: map line {w.tolist()} is not drawn")


def maps(fig, lo, hi):
    """{(i, j): axes} of the map and the two cross-sections, by their limits."""
    out = {}
    for i, j in ((0, 1), (0, 2), (2, 1)):
        for ax in fig.axes:
            x, y = sorted(ax.get_xlim()), sorted(ax.get_ylim())
            ex, ey = sorted([lo[i], hi[i]]), sorted([lo[j], hi[j]])
            if np.allclose(x, ex, rtol=0, atol=0.02 * (ex[1] - ex[0])) and np.allclose(y, ey, rtol=0, atol=0.02 * (ey[1] - ey[0])):
                out.setdefault((i, j), ax)
    return out if len(out) == 3 else None


def section(ctx, name, ax, cmap, idx, node, i, j):
    """The mesh cell around each node shows the coalescence of that node."""
    ms = fk.meshes(ax)
    ctx.check(len(ms) == 1, f"{name}: {len(ms)} coalescence sections")
    xy = np.asarray(ms[0].get_coordinates(), float)
    z = np.ma.filled(np.ma.asarray(ms[0].get_array(), float), np.nan).reshape(xy.shape[0] - 1, xy.shape[1] - 1)
    cx, cy = ((xy[:-1, :-1, k] + xy[1:, 1:, k]) / 2 for k in (0, 1))
    wx, wy = (np.abs(np.ptp(xy[..., k])) for k in (0, 1))
    k = 3 - i - j
    sel = [slice(None)] * 3
    sel[k] = idx[k]
    at, val = node[tuple(sel)].reshape(-1, 3), cmap[tuple(sel)].reshape(-1)
    ni, nj = cmap.shape[i], cmap.shape[j]
    tested = 0
    for p, v in zip(at, val):
        dx, dy = np.abs(cx - p[i]) / (wx / ni), np.abs(cy - p[j]) / (wy / nj)
        m = np.unravel_index(np.argmin(dx ** 2 + dy ** 2), dx.shape)
        if dx[m] > 0.35 or dy[m] > 0.35:
            continue
        tested += 1
        ctx.check(near(float(z[m]), float(v), 1e-9), f"{name}: coalescence {z[m]} drawn at {p[[i, j]]}, the map has {v}")
    ctx.check(z.size == val.size and tested >= 0.4 * len(val), f"{name}: {z.shape} cells for {val.size} nodes, {tested} of them on the grid of nodes")


def matches(w, tr, y0, sr):
    x, y = w
    t0 = fk.num(tr.stats.starttime)
    i0 = (x[0] - t0) * 86400 * sr
    k0 = round(i0)
    if abs(i0 - k0) > 0.05 or k0 < 0 or k0 + len(x) > tr.stats.npts or len(x) < 1:
        return False
    if abs((x[-1] - x[0]) * 86400 * sr - (len(x) - 1)) > 0.05:
        return False
    seg, z = tr.data[k0:k0 + len(x)].astype(float), y - y0
    if not np.any(seg):
        return not np.any(z)
    k = np.dot(z, seg) / np.dot(seg, seg)
    return k > 0 and np.max(np.abs(z - k * seg)) <= 1e-6 * np.max(np.abs(z)) + 1e-9


# ---------------------------------------------------------------- picks
def pick_figure(c, ctx, fig, uid, sta, ev, base):
    sr, od = c["sr"], ev.onset_data
    name = f"{uid} {sta}"
    text = "\n".join(fk.texts(fig))
    ctx.check(uid in text and sta in text, f"{name}: the figure names neither: {text[:60]!r}")
    picks = pd.read_csv(base / "picks" / f"{uid}.picks", dtype={"Station": str}, keep_default_na=False)
    full = ev.picks["df"]
    t0 = fk.num(od.starttime)
    step = 1 / sr / 86400
    for ph, on in od.onsets[sta].items():
        what = f"{name} {ph}"
        on = np.asarray(on, float)
        hits = []
        for ax in fig.axes:
            for x, y in fk.curves(ax):
                k = round((x[0] - t0) / step)
                if len(x) > 1 and 0 <= k and k + len(x) <= len(on) and abs((x[0] - t0) / step - k) < 0.05 and np.allclose(y, on[k:k + len(x)], rtol=1e-12, atol=0):
                    hits.append((ax, x))
        other = [p for p in od.onsets[sta] if p != ph and np.array_equal(od.onsets[sta][p], on)]
        ctx.check(len(hits) >= 1, f"{what}: the onset function is not drawn")
        if other:
            continue
        ax, x = hits[0]
        row = picks[(picks["Station"] == sta) & (picks["Phase"] == ph)].iloc[0]
        exact = full[(full["Station"] == sta) & (full["Phase"] == ph)].iloc[0]
        win = ev.picks["pick_windows"][sta][ph]
        lo, hi = t0 + win[0] * step, t0 + win[2] * step
        ctx.check(x[0] <= lo + 0.05 * step and x[-1] >= hi - 0.05 * step, f"{what}: onset drawn from {x[0]} to {x[-1]}, the pick window is {lo} - {hi}")
        comps = [a for a in fig.axes for w in fk.curves(a) for tr in od.filtered_waveforms.select(station=sta)
                 if (tr.stats.component == "Z") == (ph == "P") and raw_matches(w, tr, sr)]
        traces = [tr for tr in od.filtered_waveforms.select(station=sta) if (tr.stats.component == "Z") == (ph == "P")]
        ctx.check(len(comps) >= len(traces), f"{what}: {len(comps)} of {len(traces)} waveforms drawn")
        model = fk.num(UTCDateTime(row["ModelledTime"]))
        for a in [ax] + comps:
            ctx.check(fk.contains(fk.vrules(a), model, US), f"{what}: no modelled arrival at {row['ModelledTime']} in each of its panels")
            ctx.check(any(abs(s[0] - lo) <= 0.05 * step and abs(s[1] - hi) <= 0.05 * step for s in fk.spans(a)),
                      f"{what}: pick window {lo} - {hi} shown as {fk.spans(a)}")
        gau = ev.picks["gaussfits"][sta][ph]
        ctx.check(fk.contains(fk.hrules(ax), gau["PickThreshold"], 1e-9 * abs(gau["PickThreshold"])), f"{what}: threshold {gau['PickThreshold']} not drawn: {fk.hrules(ax)}")
        ctx.check(f"{gau['PickThreshold']:.3f}" in text, f"{what}: threshold {gau['PickThreshold']} not in the text")
        block = [b for b in fk.texts(fig) if "residual" in b.lower() and str(row["PickTime"]) in b]
        want = [exact["PickError"], exact["SNR"], exact["Residual"]]
        ctx.check(any(all(re.search(rf"(?<![\d.]){re.escape(f'{v:.3f}'.strip())}(?!\d)", b) for v in want) for b in block),
                  f"{what}: pick at {row['PickTime']}, error, SNR, residual {want} not shown: {block}")
        if str(row["PickTime"]) == "-1":
            ctx.label("no pick")
            continue
        ctx.label("pick")
        t, e = fk.num(UTCDateTime(row["PickTime"])), float(exact["PickError"]) / 86400
        for a in [ax] + comps:
            for v in (t, t - e / 2, t + e / 2):
                ctx.check(fk.contains(fk.vrules(a), v, US), f"{what}: pick at {row['PickTime']} with its error is not drawn in each of its panels")
        fits = [(u, v) for u, v in fk.curves(ax) if len(u) == len(gau["xdata"]) and np.allclose(u, [fk.num(q) for q in gau["xdata_dt"]], rtol=0, atol=US)]
        a_, b_, c_ = gau["popt"][:3]
        # the fit that is drawn is the Gaussian of the pick
        ctx.check(any(np.allclose(v, a_ * np.exp(-((np.asarray(gau["xdata"]) - b_) ** 2) / (2 * c_ ** 2)), rtol=1e-9) for u, v in fits),
                  f"{what}: the Gaussian fit is not drawn")
    ctx.label("pick figure")


def raw_matches(w, tr, sr):
    x, y = w
    t0 = fk.num(tr.stats.starttime)
    i0 = (x[0] - t0) * 86400 * sr
    k0 = round(i0)
    return (len(x) > 1 and abs(i0 - k0) <= 0.05 and 0 <= k0 and k0 + len(x) <= tr.stats.npts
            and np.allclose(y, tr.data[k0:k0 + len(x)], rtol=1e-9, atol=0))


# ---------------------------------------------------------------- amplitudes
def amplitudes(c, ctx, fig, uid, ev, df, lut, mag):
    g = c["mags"]
    name = f"{uid} amplitudes"
    text = "\n".join(fk.texts(fig))
    ctx.check(uid in text, f"{name}: {text[:80]!r} does not name the event")
    ax = next((a for a in fig.axes if uid in a.get_title()), fig.axes[0])
    k = float(getattr(mag, "amp_multiplier", 1.0)) * 10 ** df["Station_Correction"].astype(float)
    dist = np.sqrt(df["epi_dist"].astype(float) ** 2 + g["hyp"] * df["z_dist"].astype(float) ** 2).values
    amp, noise = (df[g["feature"]].astype(float) * k).values, (df["Noise_amp"].astype(float) * k).values
    used = df["Used"].values.astype(bool)
    ctx.check("ypocentral" in ax.get_xlabel() if g["hyp"] else "picentral" in ax.get_xlabel(), f"{name}: distance axis {ax.get_xlabel()!r}")
    marks = [np.column_stack([x, y]) for x, y, ln in fk.lines(ax) if ln.get_marker() not in (None, "None", "", " ")
             and ln.get_linestyle() in ("None", "none", "", " ") and ln.get_transform() == ax.transData and ln.get_marker() not in "|_"]
    for sel, what in ((used, "used"), (~used, "unused")):
        if sel.any():
            want = np.column_stack([dist[sel], amp[sel]])
            ctx.check(any(fk.same_points(want, m, rtol=1e-9, atol=0) for m in marks), lambda: f"{name}: {what} observations {want.tolist()} drawn as {[m.tolist() for m in marks]}")
            ctx.label(what)
    ctx.check(any(fk.same_points(np.column_stack([dist, noise]), s, rtol=1e-9, atol=0) for s in fk.scatters(ax)), f"{name}: noise amplitudes")
    ctx.check(fk.contains(fk.hrules(ax), np.median(noise), 1e-9 * np.median(noise)), f"{name}: median noise {np.median(noise)}, drawn {fk.hrules(ax)}")
    # error bars
    u = 1.0 if c["units"] == "km" else 1000.0
    err = np.array([ev.locations["gaussian"]["Err" + q] for q in "XYZ"]) / u
    derr = np.sqrt(np.sum(err[:2] ** 2) + g["hyp"] * err[2] ** 2)
    segs = [s for s in fk.segments(ax) if s.shape == (2, 2)]
    for d, a, n in zip(dist, amp, noise):
        ctx.check(any(near(s[0, 0], d) and near(s[1, 0], d) and near(max(s[:, 1]), a + n) for s in segs), f"{name}: error bar {n} of amplitude {a} at {d}")
        if np.isfinite(derr):
            ctx.check(any(near(s[0, 1], a) and near(s[1, 1], a) and near(max(s[:, 0]), d + derr) for s in segs), f"{name}: error bar {derr} of distance {d}, amplitude {a}")
    # predicted amplitudes
    ml, e, r2 = (float(ev.localmag[q]) for q in ("ML", "ML_Err", "ML_r2"))
    for m in (ml, ml + e, ml - e):
        ok = False
        for x, y in fk.curves(ax):
            if len(x) >= 50:
                i = np.linspace(0, len(x) - 1, 40).astype(int)
                ok |= np.allclose(np.log10(y[i]), [m - law(g["a0"], v) for v in x[i]], rtol=0, atol=1e-9) and x.min() <= dist.min() and x.max() >= dist.max()
        ctx.check(ok, f"{name}: amplitudes predicted for ML {m} are not drawn over the observed distances")
    ctx.check(any("squared" in t and near(numbers(t)[-1], r2, 0, 0.0051) for t in fk.texts(fig)), f"{name}: r-squared {r2} not shown")
    labels = [t.get_text() for t in ax.get_legend().get_texts()]
    ctx.check(any(f"{ml:.2f}" in t and f"{e:.2f}" in t for t in labels), f"{name}: ML {ml} ± {e} not in the legend {labels}")
    if g["dist"]:
        ctx.check(any(set(x) == {g["dist"]} for x, y, _ in fk.lines(ax)), f"{name}: distance filter {g['dist']} not drawn")
    # station labels: one for each station, used stations first, above its largest observation
    notes = [(t.get_text(), t.xy) for t in ax.texts if hasattr(t, "xy")]
    have = {}
    for t, xy in notes:
        m = re.fullmatch(r"(.*)\[(.*)\]", t)
        ctx.check(m is not None and m.group(1) not in have, f"{name}: label {t!r} twice or not a station: {notes}")
        have[m.group(1)] = (m.group(2), xy)
    ids = np.array(df.index)
    want = {}
    for sel in (used, ~used):
        here = {}
        for i in np.flatnonzero(sel):
            if ids[i][:-1] not in want:
                here.setdefault(ids[i][:-1], []).append(i)
        want.update(here)
    ctx.equal(sorted(have), sorted(want), f"{name}: stations labelled")
    for s, rows in want.items():
        comps, xy = have[s]
        ctx.equal(sorted(comps.split(",")), sorted(ids[i][-1] for i in rows), f"{name}: components in the label of {s}")
        ctx.check(near(xy[1], max(amp[rows])) and any(near(xy[0], d) for d in dist[rows]), f"{name}: label of {s} at {xy}, amplitudes {amp[rows]}")
    ctx.label("amplitudes")


# ---------------------------------------------------------------- trigger
def trigger_strat():
    return st.tuples(c32.trigger_strat(), st.booleans()).map(lambda t: dict(t[0], level=1.5 if t[0]["level"] == 50.0 and t[1] else t[0]["level"]))


def check_trigger(c, ctx):
    root = pathlib.Path(ctx.tmp())
    sr = c["sr"]
    lut, n, start, lo, hi, reg = c32.trigger_setup(c)
    (root / "figs").mkdir()
    avail = c32.scan_files(c, root / "figs", lut, start, n)
    with fk.captured() as made:
        e = c32.attempt(lambda: c32.trigger_run(c, root / "figs", lut, lo, hi, reg, True))
    if e is not None:
        ctx.label(f"run raised {type(e).__name__}")
        return
    d = root / "figs" / "r" / "trigger" / c["sub"] / "events"
    if reg is not None:
        c32.trigger_run(dict(c, sub="all", windows=True), root / "figs", lut, lo, hi, None, False)
    run = Run(str(root / "figs"), "r", stage="detect")
    for f, fig in made.items():
        f = pathlib.Path(f)
        day = f.name[:-len("_Trigger.pdf")]
        events = pd.read_csv(d / f"{day}_TriggeredEvents.csv", dtype={"EventID": str})
        y, j = (int(v) for v in day.split("_")[-2:])
        d0 = UTCDateTime(year=y, julday=j)
        a, b = max(lo, d0), min(hi, d0 + 86400)
        if b.hour == b.minute == b.second == b.microsecond == 0:
            b -= 1e-6
        outside = None
        if reg is not None:
            name = f"r_all_{y}_{j:03d}_TriggeredEvents.csv"
            outside = pd.read_csv(root / "figs" / "r" / "trigger" / "all" / "events" / name, dtype={"EventID": str})
            outside = outside[~outside["CoaTime"].isin(events["CoaTime"])].reset_index()
        trigger_figure(c, ctx, fig, day, events, outside, a, b, lut, reg, avail, run)
        ctx.nontrivial(len(events) > 0)
        ctx.label(f"{min(len(events), 2)} events")


def trigger_figure(c, ctx, fig, day, events, outside, a, b, lut, reg, avail, run):
    sr = c["sr"]
    text = fk.texts(fig)
    joined = "\n".join(text)
    m = re.search(r"Triggered (\d+) event", joined)
    ctx.check(m is not None and int(m.group(1)) == len(events), f"{day}: {m and m.group(0)!r} for {len(events)} events")
    ctx.check(("on the normalised coalescence" in joined) == bool(c["norm"]), f"{day}: trace named in {joined!r}")
    for t in (a, b):
        ctx.check(any(abs(UTCDateTime(s) - t) <= 1.0 for s in seconds(joined)), f"{day}: time {t} not among {seconds(joined)}")
    # --- coalescence ---
    data, stats = read_scanmseed(run, a, b, 5.0, lut.unit_conversion_factor)
    tn = np.array([fk.num(t) for t in data["DT"]])
    axes = {}
    for col in ("COA", "COA_N"):
        v = data[col].values.astype(float)
        hit = [ax for ax in fig.axes for x, y in fk.curves(ax) if len(x) == len(tn) and np.allclose(x, tn, rtol=0, atol=US)
               and (c["smooth"] or np.allclose(y, v, rtol=1e-9))]
        ctx.check(len(hit) >= 1, f"{day}: {col} is not drawn")
        if not c["smooth"]:
            axes[col] = hit[0]
        else:
            want = "ormalised" if col == "COA_N" else "Maximum coalescence"
            axes[col] = next((ax for ax in hit if want in ax.get_ylabel()), hit[0])
    trig = axes["COA_N" if c["norm"] else "COA"]
    other = axes["COA" if c["norm"] else "COA_N"]
    steps = {k: [(x, y) for x, y, ln in fk.lines(ax) if len(x) == len(tn) and ln.get_drawstyle().startswith("steps")] for k, ax in (("trig", trig), ("other", other))}
    ctx.check(len(steps["trig"]) == 1 and len(steps["other"]) == 0, f"{day}: threshold drawn {len(steps['trig'])} times on the trigger trace, {len(steps['other'])} times on the other")
    x, th = steps["trig"][0]
    ctx.check(np.allclose(x, tn, rtol=0, atol=US), f"{day}: threshold drawn at other times than the coalescence")
    if c["method"] == "static":
        ctx.check(np.allclose(th, c["level"], rtol=1e-9), f"{day}: threshold {c['level']} drawn as {th}")
    number = {"static": c["level"], "mad": c["level"] * 5, "median_ratio": max(c["level"], 1.05)}[c["method"]]
    ctx.check(any(near(v, number, 1e-9) for t in text for v in numbers(t)), f"{day}: threshold parameter {number} not shown: {text}")
    for v in (0.5, 1.5):
        ctx.check(any(numbers(t) == [v] for t in text), f"{day}: window of {v} s not shown")
    # --- events ---
    ids = events["CoaTime"].map(lambda s: fk.num(UTCDateTime(s)))
    for col, ax in axes.items():
        rules, bands = fk.vrules(ax), fk.spans(ax)
        mw = 0.5 / 86400
        for k, t in enumerate(ids):
            ctx.check(fk.contains(rules, t, US), f"{day}: event at {events['CoaTime'][k]} not marked on {col}")
            ctx.check(any(abs(s[0] - (t - mw)) <= US and abs(s[1] - (t + mw)) <= US for s in bands), f"{day}: marginal window of {events['CoaTime'][k]} on {col}")
            if c["windows"]:
                w0, w1 = (fk.num(UTCDateTime(events[q][k])) for q in ("MinTime", "MaxTime"))
                for s0, s1 in ((w0, t - mw), (t + mw, w1)):
                    ctx.check(any(abs(s[0] - min(s0, s1)) <= US and abs(s[1] - max(s0, s1)) <= US for s in bands), f"{day}: event window of {events['CoaTime'][k]} on {col}")
        for k in range(0 if outside is None else len(outside)):
            t = fk.num(UTCDateTime(outside["CoaTime"][k]))
            ctx.check(fk.contains(rules, t, US), f"{day}: event outside the region at {outside['CoaTime'][k]} not marked on {col}")
            w0, w1 = (fk.num(UTCDateTime(outside[q][k])) for q in ("MinTime", "MaxTime"))
            ctx.check(any(abs(s[0] - w0) <= US and abs(s[1] - w1) <= US for s in bands), f"{day}: window of {outside['CoaTime'][k]} on {col}")
            ctx.label("event outside the region")
        if reg is None:
            ctx.equal(len(rules), len(events), f"{day}: events marked on {col}")
    # --- maps ---
    g0, g1 = lut.get_grid_extent(cells=True)
    axs = maps(fig, g0, g1)
    ctx.check(axs is not None, f"{day}: no map and cross-sections over the grid")
    pts = events[["COA_X", "COA_Y", "COA_Z"]].values.astype(float)
    first, last = UTCDateTime(a.date), UTCDateTime(b.date)
    here = avail if avail is not None else pd.DataFrame()
    here = here[[first <= UTCDateTime(t.date) <= last for t in here.index]] if len(here) else here
    sta = lut.station_data
    if len(here) and not c["all_stns"]:
        sta = sta[[any((here[q] == 1).any() for q in here.columns if q.split("_")[0] == s) for s in sta["Name"]]]
    for (i, j), ax in axs.items():
        name = f"{day}: {'XYZ'[i]}-{'XYZ'[j]}"
        if len(events):
            hit = [s for s in fk.scatter_artists(ax) if fk.same_points(pts[:, [i, j]], np.asarray(s.get_offsets(), float))]
            ctx.check(len(hit) >= 1, f"{name}: events drawn at {[o.tolist() for o in fk.scatters(ax)]}, expected {pts.tolist()}")
            arr = next((s for s in hit if s.get_array() is not None), None)
            if arr is not None:
                ctx.check(fk.same_points(np.column_stack([np.arange(len(pts)), np.asarray(arr.get_array(), float)]),
                                         np.column_stack([np.arange(len(pts)), events["TRIG_COA"].values])) or
                          sorted(map(tuple, np.column_stack([pts, np.asarray(arr.get_array(), float)]).round(9))) == sorted(map(tuple, np.column_stack([pts, events["TRIG_COA"].values]).round(9))),
                          f"{name}: colours of the events")
            else:
                ctx.check(False, f"{name}: events without the colour of their coalescence")
        if outside is not None and len(outside):
            grey = np.concatenate([np.asarray(s.get_offsets(), float) for s in fk.scatter_artists(ax) if s.get_array() is None] + [np.zeros((0, 2))])
            for q in outside[["COA_X", "COA_Y", "COA_Z"]].values.astype(float)[:, [i, j]]:
                ctx.check(len(grey) and np.min(np.abs(grey - q).sum(1)) <= 1e-9 * (1 + np.abs(q).sum()), f"{name}: event outside the region at {q} is not drawn in grey")
        s_pts = sta[["Longitude", "Latitude", "Elevation"]].values.astype(float)[:, [i, j]]
        ctx.check(any(fk.same_points(s_pts, o) for o in fk.scatters(ax)), f"{name}: stations {list(sta['Name'])} drawn at {[o.tolist() for o in fk.scatters(ax)]}")
        if reg is not None:
            box = sorted([reg[i], reg[i + 3]]) + sorted([reg[j], reg[j + 3]])
            ctx.check(any(len(x) >= 4 and np.allclose([x.min(), x.max(), y.min(), y.max()], box, rtol=1e-9, atol=1e-12)
                          and all((near(u, box[0]) or near(u, box[1])) and (near(v, box[2]) or near(v, box[3])) for u, v in zip(x, y))
                          and len({(round(u, 9), round(v, 9)) for u, v in zip(x, y)}) == 4 for x, y in fk.curves(ax)),
                      f"{name}: trigger region {box} is not drawn")
            ctx.label("region")
    xy_lines(c, ctx, axs[0, 1], day)
    # --- availability ---
    drawn = [(x, y, ln) for ax in fig.axes if ax not in (trig, other) for x, y, ln in fk.lines(ax) if ln.get_drawstyle() == "steps-post"]
    if not len(here):
        ctx.equal(len(drawn), 0, f"{day}: availability drawn without any availability file")
        ctx.label("no availability")
        return
    phases = sorted({q.split("_")[1] for q in here.columns})
    tabs = {p: here[[q for q in here.columns if q.split("_")[1] == p]].values for p in phases}
    counts = {p: v.sum(1) for p, v in tabs.items()}
    same = all(np.array_equal(v, tabs[phases[0]]) for v in tabs.values())
    if len(phases) > 2 and not same:
        return
    ctx.check(len(drawn) == (1 if same else len(phases)), f"{day}: {len(drawn)} availability curves for phases {phases}, identical: {same}")
    tx = np.array([fk.num(t) for t in here.index])
    for p, cnt in counts.items():
        ok = False
        for x, y, ln in drawn:
            got = [y[np.flatnonzero(np.abs(x - t) <= US)[0]] if np.any(np.abs(x - t) <= US) else None for t in tx]
            # each timestep is drawn, at its time, with its number of stations, in order
            ok |= got == [float(v) for v in cnt] and np.all(np.diff(x[:len(tx)]) > 0) and (same or ln.get_label() == p)
        ctx.check(ok, f"{day}: available stations for {p}: {cnt.tolist()}, drawn {[(list(y), ln.get_label()) for _, y, ln in drawn]}")
    ctx.label("availability")


FACETS = [
    Facet("event", event_strat, check_event, quick=180, thorough=2500, shards=5, rule="a figure was made"),
    Facet("trigger", trigger_strat, check_trigger, quick=110, thorough=2500, shards=3, rule="an event was triggered"),
]
