"""The definition of the dynamic range parameters, computed independently of the code under test."""

import numpy as np

EPS = 1e-9


def slack(share, total):
    """Shares that are binary fractions (0, 1, 1/4, ...) are hit exactly however they are computed."""
    return 0.0 if float(share * 1024).is_integer() else EPS * total


def candidates(counts, low, high):
    """The (e_min, e_max) the definition allows. More than one only if a threshold is hit up to rounding."""
    cumulative = np.cumsum(np.asarray(counts, dtype=np.float64))
    total, last = cumulative[-1], len(counts) - 1
    # e_min: the first bucket at which the share of the pixels up to it reaches `low`
    # e_max: the last bucket at which the share of the pixels up to it does not exceed `high`
    minima, maxima = set(), set()
    for sign in (-1, 0, 1):
        i = int(np.searchsorted(cumulative, low * total + sign * slack(low, total), side="left"))
        minima.add(min(i, last))
        j = int(np.searchsorted(cumulative, high * total + sign * slack(high, total), side="right")) - 1
        maxima.add(max(j, 0))
    return [(a, b) for a in minima for b in maxima]


def reference(counts, first=None, last=None, low=0.02, high=0.98, a=0.2, b=0.4):
    """All the (suggested min, suggested max, actual min, actual max) the definition allows."""
    n = len(counts)
    first = 0 if first is None else first
    last = n if last is None else last
    used = [i for i, c in enumerate(counts) if c]
    step = (last - first) / n
    result = []
    for e_min, e_max in candidates(counts, low, high):
        e_max = max(e_min, e_max)
        lo = max(used[0], e_min - a * (e_max - e_min))
        hi = min(used[-1], e_max + b * (e_max - e_min))
        result.append(tuple(v * step + first for v in (lo, hi, used[0], used[-1])))
    return result


def histogram(values, buckets, lo, hi):
    """Pixels per bucket; a pixel at the upper end belongs to the last bucket."""
    values = np.asarray(values, dtype=np.float64).ravel()
    index = np.floor((values - lo) * (buckets / (hi - lo))).astype(np.int64)
    return np.bincount(np.clip(index, 0, buckets - 1), minlength=buckets).tolist()
