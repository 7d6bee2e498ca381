"""C10: decimated lookup tables keep node positions and traveltimes."""
import copy

import numpy as np
from hypothesis import strategies as st

from harness import Facet
from lutgen import answers, grid_strat, random_lut, same_answers, spacing
from strategies import fixed, seeds

ASSUMPTIONS = ["node spacings stay well above coordinate rounding"]


def strat():
    return fixed(g=grid_strat(nmax=14), df=st.tuples(*[st.integers(1, 7)] * 3).map(list), seed=seeds,
                 m=st.integers(1, 3), df2=st.tuples(*[st.integers(1, 3)] * 3).map(list),
                 as_array=st.booleans())


def state(lut):
    return (np.array(lut.node_count), np.array(lut.node_spacing), np.array(lut.ll_corner),
            {s: {p: v.copy() for p, v in d.items()} for s, d in lut.traveltimes.items()})


def same(ctx, a, b, what):
    for x, y, n in zip(a[:3], b[:3], ("node count", "spacing", "corner")):
        ctx.equal(np.asarray(x), np.asarray(y), f"{what}: {n}")
    ctx.equal(sorted(a[3]), sorted(b[3]), f"{what}: stations")
    for s in a[3]:
        ctx.equal(sorted(a[3][s]), sorted(b[3][s]), f"{what}: phases")
        for p in a[3][s]:
            ctx.equal(a[3][s][p], b[3][s][p], f"{what}: traveltimes of {s} {p}")


def judge(ctx, before, dec, df, what):
    n, dx, ll, tts = before
    df = np.array(df)
    new_n = 1 + (n - 1) // df
    ctx.equal(np.array(dec.node_count), new_n, f"{what}: node count")
    ctx.close(dec.node_spacing, dx * df, f"{what}: node spacing")
    # every node of the decimated table is a node of the original: same place, same traveltimes
    xyz = dec.index2grid(np.column_stack([a.flatten() for a in np.meshgrid(
        *[np.arange(k) for k in new_n], indexing="ij")]))
    ijk = (xyz - ll) / dx
    src = np.rint(ijk).astype(int)
    ctx.check(np.abs(ijk - src).max() < 1e-5, f"{what}: decimated nodes are not nodes of the original grid")
    ctx.check((src >= 0).all() and (src < n).all(), f"{what}: decimated nodes outside the original grid")
    for s, d in tts.items():
        for p, t in d.items():
            got = np.asarray(dec.traveltimes[s][p])
            ctx.equal(got.shape, tuple(new_n), f"{what}: table shape of {s} {p}")
            ctx.equal(got.flatten(), t[tuple(src.T)], f"{what}: traveltimes of {s} {p} at the node positions")
    # remainder centred
    first = src[0]
    lastn = src[-1]
    ctx.check(np.all(np.abs(first - (n - 1 - lastn)) <= 1), f"{what}: remaining nodes not centred "
              f"(first {first}, last {lastn} of {n})")


def check(c, ctx):
    lut = random_lut(c["g"], c["m"], c["seed"])
    df = c["df"]
    arg = np.array(df) if c["as_array"] else list(df)
    before = state(lut)
    dec = lut.decimate(arg)
    same(ctx, state(lut), before, "original after a copying decimation")
    judge(ctx, before, dec, df, "decimate")
    inp = copy.deepcopy(lut)
    r = inp.decimate(arg, inplace=True)
    ctx.check(r is None or r is inp, "in-place decimation returned another table")
    same(ctx, state(inp), state(dec), "in-place decimation")
    # decimating again composes
    second = state(dec)
    dec2 = dec.decimate(c["df2"])
    judge(ctx, second, dec2, c["df2"], "second decimation")
    for s in dec2.traveltimes:       # geographic positions agree with the first table's
        i = np.array(dec2.node_count) - 1
        pos = dec2.index2coord(i)
        ijk = lut.index2coord(pos, inverse=True)[0]
        ctx.equal(dec2.traveltimes[s]["P"][tuple(i)], before[3][s]["P"][tuple(ijk)],
                  "traveltime at the geographic position of the last node")
    # the copy is independent
    for s in dec.traveltimes:
        for p in dec.traveltimes[s]:
            dec.traveltimes[s][p][...] = -1
    same(ctx, state(lut), before, "original after modifying the decimated copy")
    ctx.equal(arg if not c["as_array"] else arg.tolist(), df, "decimation factors modified")
    rem = (before[0] - 1) % np.array(df)
    ctx.nontrivial(bool((np.array(df) > 1).any()))
    if (rem > 1).any():
        ctx.label("off-centre remainder")


def check_stale(c, ctx):
    """What a decimated table says of itself does not depend on what was asked before."""
    asked = random_lut(c["g"], c["m"], c["seed"])
    first = answers(asked)
    copied = asked.decimate(c["df"])
    same_answers(ctx, answers(asked), first, "the original after a copying decimation")
    want = answers(random_lut(c["g"], c["m"], c["seed"]).decimate(c["df"]))     # never asked anything
    same_answers(ctx, answers(copied), want, "the decimated copy of a table that was asked before")
    asked.decimate(c["df"], inplace=True)
    same_answers(ctx, answers(asked), want, "a table that was asked before, decimated in place")
    # new traveltimes are used at once
    new = random_lut(c["g"], c["m"], c["seed"] + 1).decimate(c["df"])
    for s in asked.traveltimes:
        for p in asked.traveltimes[s]:
            asked.traveltimes[s][p] = np.array(new.traveltimes[s][p])
    asked.station_data = new.station_data.copy()
    same_answers(ctx, answers(asked), answers(new), "a table that was asked before, with new traveltimes and stations")
    ctx.nontrivial(bool((np.array(c["df"]) > 1).any()))


FACETS = [Facet("stale", strat, check_stale, quick=250, thorough=6000, shards=2, rule="at least one factor above 1"),
          Facet("decimate", strat, check, quick=600, thorough=15000, shards=3,
                rule="at least one factor above 1")]
