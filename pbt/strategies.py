"""Shared Hypothesis strategies (all draw JSON-able values)."""
from hypothesis import strategies as st

seeds = st.integers(0, 2**31 - 1)


def ints(lo, hi):
    """Integers, uniform over the range (plain st.integers favours small magnitudes in ranges beyond 256)."""
    n = hi - lo + 1
    if n <= 256:
        return st.integers(lo, hi)

    def value(d):
        if d[0] == 0:
            return d[1]
        i = (d[1][0] << 16 | d[1][1] << 8 | d[1][2]) * n >> 24
        if lo < 0 <= hi:            # 0 comes first, for shrinking
            return i if i <= hi else hi - i
        return lo + i
    byte = st.integers(0, 255)
    return st.integers(0, 3).flatmap(lambda k: st.tuples(st.just(k), st.integers(lo, hi) if k == 0 else st.tuples(byte, byte, byte))).map(value)


def rounded(lo, hi, nd=6):
    """Floats on a decimal grid (readable, exactly reproducible through JSON)."""
    k = 10**nd
    return ints(round(lo * k), round(hi * k)).map(lambda i: i / k)


def one_in(n, special, normal):
    """`special` with weight 1, `normal` with weight n - 1."""
    return st.integers(0, n - 1).flatmap(lambda i: special if i == n - 1 else normal)


def fixed(**kw):
    return st.fixed_dictionaries(kw)


def sampled(*xs):
    return st.sampled_from(list(xs))
