"""C08: merge_stream as a set of (channel, time, value) facts."""
import numpy as np
from hypothesis import strategies as st
from obspy import Stream

import quakemigrate.util as util
from harness import Facet
from qm import EPOCH, same_stream, t_add, trace
from strategies import fixed, ints, one_in, sampled, seeds

ASSUMPTIONS = ["traces of one channel share the sample grid (sub-sample misalignment is the business of "
               "shift_to_sample)"]

CH = [("XX", "STA", "", "HHZ"), ("XX", "STA", "00", "HHZ"), ("YY", "STA", "", "HHZ"), ("XX", "STA", "", "HHN"),
      ("XX", "STB", "", "HHZ")]


def strat():
    seg = fixed(ch=st.integers(0, 4), a=st.integers(0, 60), n=st.integers(1, 40),
                alt=one_in(5, st.integers(1, 2), st.just(0)))
    return fixed(sr=sampled(1, 10, 20, 25, 50, 100, 200), k0=ints(0, 10**6), segs=st.lists(seg, max_size=8),
                 dtype=sampled("int32", "float64", "float32"), perm=seeds,
                 flat=one_in(4, st.just(True), st.just(False)),
                 odd=one_in(4, fixed(ch=st.integers(0, 4), kind=sampled("dtype", "rate", "calib"), a=st.integers(0, 60),
                                     n=st.integers(2, 30)), st.none()))


def values(c, ch, k, alt):
    if c["flat"]:
        return (np.zeros(len(k)) + alt).astype(c["dtype"])
    return (((k * 7919 + ch * 104729 + alt * 611953) % 10007) - 5000).astype(c["dtype"])


def build(c):
    trs, facts = [], []
    t0 = t_add(EPOCH, c["k0"], c["sr"])
    for s in c["segs"]:
        k = np.arange(s["a"], s["a"] + s["n"])
        v = values(c, s["ch"], k, s["alt"])
        n, sta, loc, cha = CH[s["ch"]]
        trs.append(trace(v, t_add(t0, s["a"], c["sr"]), c["sr"], sta, cha, n, loc))
        facts.append((s["ch"], k, v))
    return trs, facts, t0


def content(ctx, stream, t0, sr):
    """{id: [(first sample, values)]} of a stream on the grid."""
    out = {}
    for tr in stream:
        x = (tr.stats.starttime._ns - t0._ns) * sr / 1e9
        ctx.check(abs(x - round(x)) < 1e-3, f"{tr.id} moved off the grid")
        ctx.check(not np.ma.isMaskedArray(tr.data) or not tr.data.mask.any(), "masked (invented) samples")
        out.setdefault(tr.id, []).append((round(x), np.asarray(tr.data)))
    return {k: sorted(v, key=lambda p: (p[0], p[1].tobytes())) for k, v in out.items()}


def pairs(parts):
    return {(a + i, x.item()) for a, v in parts for i, x in enumerate(v)}


def check(c, ctx):
    trs, facts, t0 = build(c)
    sr = c["sr"]
    odd = c["odd"]
    odd_id = None
    if odd is not None:
        n, sta, loc, cha = CH[odd["ch"]]
        k = np.arange(odd["a"], odd["a"] + odd["n"])
        v = values(c, odd["ch"], k, 0)
        t = trace(v, t_add(t0, odd["a"], sr), sr, sta, cha, n, loc)
        if odd["kind"] == "dtype":
            t.data = t.data.astype("float64" if c["dtype"] != "float64" else "int32")
        elif odd["kind"] == "rate":
            t.stats.sampling_rate = sr * 2
        else:
            t.stats.calib = 2.0
        trs.append(t)
        odd_id = t.id
    rng = np.random.RandomState(c["perm"])
    st_in = Stream([trs[i] for i in rng.permutation(len(trs))])
    keep = st_in.copy()
    out = util.merge_stream(st_in)
    ctx.check(same_stream(st_in, keep), "input stream modified")
    out2 = util.merge_stream(Stream([trs[i].copy() for i in rng.permutation(len(trs))]))
    got, got2 = content(ctx, [t for t in out if t.id != odd_id], t0, sr), \
        content(ctx, [t for t in out2 if t.id != odd_id], t0, sr)
    byid = {}
    for ch, k, v in facts:
        i = ".".join(CH[ch][j] for j in (0, 1, 2, 3))
        byid.setdefault(i, []).append((int(k[0]), v))
    for i, parts in byid.items():
        if i == odd_id:
            continue
        exp = pairs(parts)
        ctx.check(i in got, f"{i} lost")
        ctx.equal(sorted(pairs(got[i]) - exp)[:3], [], f"{i}: samples (k, value) present in no input trace")
        ctx.equal(sorted(exp - pairs(got[i]))[:3], [], f"{i}: samples (k, value) lost")
        for a, v in got[i]:
            ctx.equal(v.dtype, np.dtype(c["dtype"]), f"{i}: dtype")
        times = [t for t, _ in exp]
        if len(set(times)) == len(times):        # no conflicting values
            ks = np.concatenate([np.arange(a, a + len(v)) for a, v in got[i]])
            ctx.check(len(set(ks)) == len(ks), f"{i}: duplicated samples although overlaps agree")
            ends = [(a, a + len(v)) for a, v in got[i]]
            for (_, e), (b, _) in zip(ends, ends[1:]):
                ctx.check(b > e, f"{i}: contiguous data left unmerged")
            ctx.equal([(a, v.tobytes()) for a, v in got[i]], [(a, v.tobytes()) for a, v in got2[i]],
                      f"{i}: result depends on the order of the traces")
            if len(parts) > 1:
                ctx.nontrivial()
        else:
            ctx.label("conflicting overlap")
            ctx.equal(pairs(got[i]), pairs(got2[i]), f"{i}: result depends on the order of the traces")
            ctx.nontrivial()
        # separate traces never merge two conflicting values in place of each other
    extra = set(got) - set(byid)
    ctx.equal(extra, set(), "ids invented")
    if odd_id is not None:
        # incompatible metadata: the channel may be dropped or kept, never altered
        allowed = {}
        for t in trs:
            if t.id == odd_id:
                for k, x in enumerate(t.data):
                    allowed[(round((t.stats.starttime._ns - t0._ns) / 1e9 + k / t.stats.sampling_rate, 6),
                             float(x))] = 1
        for t in out:
            if t.id == odd_id:
                for k, x in enumerate(np.asarray(t.data)):
                    ctx.check((round((t.stats.starttime._ns - t0._ns) / 1e9 + k / t.stats.sampling_rate, 6),
                               float(x)) in allowed, f"{t.id}: sample present in no input trace")
        ctx.label("incompatible channel")


FACETS = [Facet("facts", strat, check, quick=2500, thorough=60000, shards=4,
                rule="a channel with several segments (gaps, overlaps, contained, adjacent)")]
