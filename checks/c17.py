"""C17: the range of pixel values chosen for a display follows from the pixels of the image, and is a range."""

import numpy as np
from osgeo import gdal

from mc import data, dra
from mc.core import Space, product

from aws.osml.gdal import RangeAdjustmentType
from aws.osml.gdal.dynamic_range_adjustment import DRAParameters
from aws.osml.gdal.gdal_utils import get_minmax_for_type, get_type_and_scales

gdal.UseExceptions()
gdal.PushErrorHandler("CPLQuietErrorHandler")

NOTES = {
    "assumptions": [
        "the smallest and largest value of a band are the ones GDAL reports, which for images of several blocks are estimates",
        "a threshold that is met up to rounding (1e-9) may be decided either way",
    ]
}

# (low, high, a, b); None: not passed
OPTIONS = [None, (0.02, 0.97, 0.2, 0.4), (0.0, 1.0, 0.0, 0.0), (0.1, 0.6, 0.5, 0.1), (0.3, 0.9, 0.0, 1.0), (0.25, 0.75, 0.2, 0.4)]
RANGES = [None, (10.0, None), (-100.0, 55.5), (0, 65535)]


def close(got, want, span):
    return all(abs(g - w) <= 1e-9 * max(1.0, abs(span)) for g, w in zip(got, want))


def run_counts(ctx, case):
    counts = expand(case["counts"])
    options, bounds = case["options"], case["range"]
    kwargs = {}
    if options is not None:
        kwargs.update(zip(("min_percentage", "max_percentage", "a", "b"), options))
    first = last = None
    if bounds is not None:
        first, last = bounds
        kwargs["first_bucket_value"] = first
        if last is not None:
            kwargs["last_bucket_value"] = last
    given = list(counts)
    p = ctx.call(DRAParameters.from_counts, given, **kwargs)
    ctx.check(given == counts, "the histogram was changed", now=given)
    got = (p.suggested_min_value, p.suggested_max_value, p.actual_min_value, p.actual_max_value)
    smin, smax, amin, amax = got
    tiny = 1e-9 * max(1.0, abs(smin), abs(smax))
    ctx.check(smin <= smax + tiny, "the suggested range is upside down", got=got)
    # The remaining facts are stated for bucket values that increase
    f = 0 if first is None else first
    l = len(counts) if last is None else last
    if l > f:
        ctx.check(amin - tiny <= smin and smax <= amax + tiny, "the suggested range exceeds the values of the image", got=got)
    wants = dra.reference(counts, first, last, *(options or ()))
    ctx.check(any(close(got, w, l - f) for w in wants), "the parameters do not follow from the histogram", got=got, want=wants)
    ctx.state(got)


def expand(counts):
    """{"n": length, "at": {index: count}} or a plain list"""
    if isinstance(counts, list):
        return list(counts)
    full = [counts.get("fill", 0)] * counts["n"]
    for i, c in counts["at"]:
        full[i] = c
    return full


def small_histograms(alphabet, length):
    def gen():
        import itertools

        for n in range(1, length + 1):
            for counts in itertools.product(alphabet, repeat=n):
                if not any(counts):
                    continue
                for k, (options, bounds) in enumerate((o, r) for o in OPTIONS for r in RANGES):
                    if n == length and k % 5 != sum(counts) % 5:
                        continue
                    if bounds is not None and bounds[1] is None and n <= bounds[0]:
                        # the last bucket value has to be above the first one
                        continue
                    yield {"counts": list(counts), "options": options, "range": bounds}

    return gen


def multiplied(quick):
    """Histograms of images of up to 10^13 pixels, and weighted ones."""

    def gen():
        for n in range(1, 5 if quick else 6):
            for counts in product(**{f"c{i}": [0, 1, 2, 30, 97] for i in range(n)}):
                counts = list(counts.values())
                if not any(counts):
                    continue
                for k, factor in enumerate((10**5, 10**7, 3 * 10**9, 10**11, 0.5, 0.0001, 1e12)):
                    for options in OPTIONS[:: 2 if quick else 1]:
                        bounds = RANGES[(k + sum(counts)) % len(RANGES)]
                        if bounds is not None and bounds[1] is None:
                            bounds = None
                        yield {"counts": [c * factor for c in counts], "options": options, "range": bounds}

    return gen


def spikes(quick):
    """Histograms of realistic lengths with up to three peaks, on a flat background or none."""

    def gen():
        for n in (256, 2048):
            at = sorted({0, 1, 5, n // 8, n // 3, n // 2, n - n // 5, n - 2, n - 1})
            heights = [1, 20, 1000]
            for fill in (0, 1, 7):
                for i in at:
                    for hi in heights:
                        yield {"counts": {"n": n, "fill": fill, "at": [[i, hi]]}, "options": None, "range": None}
                        for j in at:
                            if j <= i:
                                continue
                            for hj in heights:
                                for options in OPTIONS[: 2 if quick else None]:
                                    yield {"counts": {"n": n, "fill": fill, "at": [[i, hi], [j, hj]]}, "options": options, "range": (-100.0, 55.5)}
                                if n == 256 and not quick:
                                    for k in at:
                                        if k > j:
                                            yield {
                                                "counts": {"n": n, "fill": fill, "at": [[i, hi], [j, hj], [k, 20]]},
                                                "options": None,
                                                "range": None,
                                            }

    return gen


def thresholds():
    """Histograms of 200000 pixels whose buckets end just before and just after the shares that are left out."""
    for low, high, options in ((0.02, 0.98, None), (0.05, 0.9, (0.05, 0.9, 0.2, 0.4)), (0.001, 0.75, (0.001, 0.75, 0.35, 0.1))):
        around = lambda t: [t - 1e-3, t - 1e-4, t - 1e-5, t + 1e-5, t + 1e-4, t + 1e-3]
        ends = [1e-5 * (i + 1) for i in range(20)] + around(low) + [0.3, 0.5, 0.55] + around(high)
        ends = sorted({round(v * 200000) for v in ends if v > 0} | {200000 - 3 * i for i in range(20)})
        # with any two of the ends of the buckets missing
        for missing in [()] + [(i,) for i in range(len(ends) - 1)] + [(i, i + 1) for i in range(len(ends) - 2)]:
            left = [e for i, e in enumerate(ends) if i not in missing]
            counts = [b - a for a, b in zip([0] + left, left)]
            for bounds in (None, (-100.0, 55.5)):
                yield {"counts": counts, "options": options, "range": bounds}
                yield {"counts": [c for n in counts for c in (n, 0)], "options": options, "range": bounds}


# -- images ------------------------------------------------------------------------------------------------------------
VALUES = {
    "Byte": [0, 1, 7, 255],
    "UInt16": [0, 3, 2047, 65535],
    "Int16": [-32768, -5, 90, 32767],
    "UInt32": [0, 12, 70000, 4294967295],
    "Int32": [-2147483648, -7, 60000, 2147483647],
    "UInt64": [0, 9, 1000, 2**50],
    "Int64": [-(2**50), -3, 1000, 2**50],
    "Float32": [-1.5, 0.0, 0.25, 1e6],
    "Float64": [-1e12, 0.0, 1e-3, 1e12],
}
LIMITS = {t: data.limits(t) for t in data.NP}


def image(spec):
    """Bands of pixels: each band is a list of [value, number of pixels]."""
    bands = [np.repeat([v for v, _ in band], [n for _, n in band]) for band in spec["bands"]]
    width = spec["width"]
    return np.array(bands, dtype=data.NP[spec["type"]]).reshape(len(bands), -1, width)


def buckets_for(dtype, lo, hi):
    return 255 if dtype.startswith("Float") else min(int(hi - lo), 2**16)


def statistics(array, dtype):
    ds = data.mem_dataset(array, dtype)
    return tuple(ds.GetRasterBand(1).GetStatistics(1, 1)[:2])


def run_image(ctx, case):
    array = image(case)
    dtype = case["type"]
    ds = data.mem_dataset(array, dtype)
    out = case["output"]
    kwargs = {} if out is None else {"desired_output_type": data.GDT[out]}
    if case["adjustment"] != "NONE" or case.get("explicit"):
        kwargs["range_adjustment"] = RangeAdjustmentType[case["adjustment"]]
    output_type, scales = ctx.call(get_type_and_scales, ds, **kwargs)
    ctx.check(output_type == data.GDT[out or dtype], "wrong output type", got=output_type)
    ctx.check(len(scales) == len(array), "not one range per band", got=scales)
    limit = LIMITS[out or dtype]
    for b, scale in enumerate(scales):
        ctx.check(len(scale) == 4, "not a range and an output range", got=scale)
        ctx.check(same(scale[2:], limit), "the output range is not the one of the output type", got=scale, want=limit)
        values = array[b].astype(np.float64)
        # GDAL estimates the statistics of images of several blocks from some of them, always in the same way
        lo, hi = statistics(array[b : b + 1], dtype)
        if array.shape[1] == 1:
            ctx.check((lo, hi) == (float(values.min()), float(values.max())), "harness: statistics of a single block", lo=lo, hi=hi)
        if case["adjustment"] == "NONE":
            ctx.check(same(scale[:2], LIMITS[dtype]), "the input range is not the one of the pixel type", got=scale)
            continue
        top = hi if hi > lo else lo + 1
        n = buckets_for(dtype, lo, top)
        step = (top - lo) / n
        tiny = 1e-6 * max(1.0, top - lo)
        smin, smax = scale[:2]
        ctx.check(smin <= smax + tiny, "the range is upside down", got=scale)
        ctx.check(lo - tiny <= smin and smax <= hi + tiny, "the range exceeds the values of the image", got=scale, lo=lo, hi=hi)
        if case["adjustment"] == "MINMAX":
            ctx.check(
                abs(smin - lo) <= step + tiny and abs(smax - hi) <= step + tiny, "the range does not span the image", got=scale, lo=lo, hi=hi
            )
        elif array.shape[1] == 1:
            wants = dra.reference(dra.histogram(values, n, lo, top), lo, top)
            ctx.check(
                any(abs(smin - w[0]) <= 2 * step + tiny and abs(smax - w[1]) <= 2 * step + tiny for w in wants),
                "the range does not follow from the pixels",
                got=scale,
                want=wants,
            )
        ctx.state(dtype, case["adjustment"], smin, smax)
    ctx.check(data.same_pixels(data.pixels(ds), array), "the image was changed")


def same(a, b):
    """The same limits: exactly for integers, to the precision of the literals for floating point types."""
    return all(abs(float(x) - float(y)) <= (1e-7 if abs(y) > 2.0**64 else 0.0) * abs(float(y)) for x, y in zip(a, b))


def images(quick):
    def gen():
        for dtype, values in VALUES.items():
            outputs = [None, "Byte", "UInt16"]
            # every image of up to 4 pixels over 4 values, one band
            for n in (1, 2, 3) if quick else (1, 2, 3, 4):
                for pixels in product(**{f"p{i}": values for i in range(n)}):
                    band = [[v, 1] for v in pixels.values()]
                    for adjustment in ("NONE", "MINMAX", "DRA"):
                        for output in outputs:
                            yield {"type": dtype, "width": n, "bands": [band], "adjustment": adjustment, "output": output}
            # bands with outliers: (value, number) for all counts
            low, mid, high = values[0], values[1], values[3]
            for counts in product(a=(0, 1, 3, 50), b=(1, 48, 95), c=(0, 1, 2, 3, 5, 60)):
                total = sum(counts.values())
                for pad in ((100 - total) % 10,):
                    band = [[low, counts["a"]], [values[2], counts["b"] + pad], [high, counts["c"]], [mid, 0]]
                    size = sum(n for _, n in band)
                    for width in (size, 10):
                        for adjustment in ("MINMAX", "DRA"):
                            if size % width == 0:
                                yield {"type": dtype, "width": width, "bands": [band], "adjustment": adjustment, "output": "Byte"}
            # several bands of different content
            bands = [[[low, 2], [mid, 2]], [[mid, 4]], [[high, 1], [mid, 3]], [[low, 1], [high, 3]]]
            for order in ([0], [0, 1], [1, 0], [1, 2, 3], [3, 2, 0], [2, 0, 1, 3]):
                for adjustment in ("NONE", "MINMAX", "DRA"):
                    for output in outputs:
                        yield {
                            "type": dtype,
                            "width": 2,
                            "bands": [bands[i] for i in order],
                            "adjustment": adjustment,
                            "output": output,
                            "explicit": True,
                        }

    return gen


def ramps():
    """Images that hold every value of a contiguous range once or twice: the histogram is flat."""
    for dtype, lo, n in (("Byte", 0, 200), ("Byte", 56, 200), ("UInt16", 100, 1000), ("UInt16", 0, 5000), ("Int16", -500, 1000), ("Int32", -3, 100)):
        for weight in (1, 2):
            for skew in (0, 3, 40):
                band = [[lo + i, weight + (skew if i == n // 2 else 0)] for i in range(n)]
                size = sum(k for _, k in band)
                for adjustment in ("MINMAX", "DRA"):
                    yield {"type": dtype, "width": size, "bands": [band], "adjustment": adjustment, "output": "Byte"}


def run_type(ctx, case):
    got = ctx.call(get_minmax_for_type, data.GDT[case["type"]])
    ctx.check(same(got, LIMITS[case["type"]]), "not the limits of the pixel type", got=got)
    ctx.state(got)


def spaces(tier):
    quick = tier == "quick"
    return [
        Space("types", [{"type": t} for t in data.NP], run_type, parallel=False, bound="all pixel types"),
        Space(
            "histograms",
            small_histograms([0, 1, 2, 30, 97], 5 if quick else 6),
            run_counts,
            bound=f"all histograms of up to {5 if quick else 6} buckets over 5 counts, 5 settings, 4 bucket ranges",
        ),
        Space(
            "multiplied",
            multiplied(quick),
            run_counts,
            bound=f"all histograms of up to {4 if quick else 5} buckets over 5 counts, times 7 factors from 0.0001 to 10^12",
        ),
        Space("peaks", spikes(quick), run_counts, bound="256 and 2048 buckets, up to 2 (3) peaks at 9 places on 3 backgrounds"),
        Space("thresholds", lambda: thresholds(), run_counts, bound="200000 pixels in buckets that end within 1e-5 of the percentiles"),
        Space("images", images(quick), run_image, bound="9 pixel types, all images of up to 3 (4) pixels over 4 values, images with outliers, 1 to 4 bands"),
        Space("ramps", lambda: ramps(), run_image, bound="images with flat histograms"),
    ]
