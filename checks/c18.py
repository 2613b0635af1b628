"""C18: range adjusted tiles show the same pixel value with the same brightness in every tile, and brighter as brighter."""

import functools
import math

import cv2
import numpy as np
from osgeo import gdal

from mc import data, dra
from mc.core import Space, product

from aws.osml.gdal import GDALImageFormats as Fmt
from aws.osml.gdal import RangeAdjustmentType
from aws.osml.image_processing import GDALTileFactory
from aws.osml.photogrammetry import GDALAffineSensorModel

gdal.UseExceptions()
gdal.PushErrorHandler("CPLQuietErrorHandler")

NOTES = {
    "assumptions": [
        "GDAL's statistics of an image stored in a single block are exact",
        "brightness is compared up to one level of the output type (rounding of the encoder)",
    ]
}

W, H = 5, 4
KINDS = ["ramp", "outlier", "dark", "two", "constant", "steps", "from-zero"]
FRACTIONS = {"reflectance": (0.2, 0.8), "faint": (0.001, 0.0035), "below": (-0.75, -0.25)}


# far from zero, over few values, over many values
BOUNDS = {
    "Byte": {"high": (200, 255), "few": (7, 12)},
    "UInt16": {"high": (40000, 65535), "few": (12, 17), "all": (0, 65535)},
    "Int16": {"high": (20000, 32767), "few": (-3, 2), "all": (-32768, 32767), "deep": (-32768, -20000)},
    "UInt32": {"high": (900000, 1000000), "few": (70000, 70005)},
    "Int32": {"high": (900000, 1000000), "few": (70000, 70005), "deep": (-1000000, -900000)},
    "UInt64": {"high": (900000, 1000000), "few": (70000, 70005), "ramp": (0, 4000)},
    "Int64": {"high": (900000, 1000000), "few": (-3, 2), "deep": (-1000000, -900000), "ramp": (-500, 4000)},
    "Float32": {"high": (65000.5, 70000.25), "few": (3.0, 8.0), "deep": (-70000.0, -65000.0)},
    "Float64": {"high": (65000.5, 70000.25), "few": (3.0, 8.0), "deep": (-70000.0, -65000.0)},
}


def kinds(dtype):
    """Floating point images often hold values of a range less than one."""
    return KINDS + ([] if dtype[0] in "BU" else ["to-zero"]) + (list(FRACTIONS) if dtype.startswith("Float") else [])


def base(dtype, kind, band, n=W * H):
    """n pixel values of the given type; the bands differ."""
    t = np.dtype(data.NP[dtype])
    lo, hi = {"Byte": (3, 200), "UInt16": (100, 4000), "Int16": (-300, 900), "UInt32": (5, 100000), "Int32": (-70000, 70000)}.get(dtype, (-2.5, 7.5))
    if kind in ("from-zero", "to-zero"):
        lo, hi = (0, hi) if kind == "from-zero" else (lo, 0)
        kind = "ramp"
    if kind in FRACTIONS or kind in BOUNDS[dtype]:
        lo, hi = FRACTIONS[kind] if kind in FRACTIONS else BOUNDS[dtype][kind]
        kind = "ramp"
    if kind == "ramp":
        v = lo + (hi - lo) * ((np.arange(n) * 7 + band) % n) / (n - 1)
    elif kind == "outlier":
        v = lo + (hi - lo) * 0.1 * ((np.arange(n) * 3 + band) % n) / (n - 1)
        v[(5 + band) % n] = hi
    elif kind == "dark":
        v = np.full(n, float(lo))
        v[(2 * band + 1) % n] = hi
        v[(2 * band + 7) % n] = (lo + hi) / 2
        v[(2 * band + 8) % n] = lo + (hi - lo) / 4
    elif kind == "two":
        v = np.where((np.arange(n) + band) % 3 == 0, lo, hi).astype(float)
    elif kind == "steps":
        v = lo + (hi - lo) * (((np.arange(n) + band) // 4) % 5) / 4.0
    else:
        v = np.full(n, float(hi - band))
    if t.kind != "f":
        v = np.floor(v)
    return v.astype(t)


def image(dtype, kind, bands, width=W, height=H):
    return np.stack([base(dtype, kind, b, width * height).reshape(height, width) for b in range(bands)])


_cache = {}


def dataset(dtype, kind, bands, driver="GTiff", width=W, height=H):
    array = image(dtype, kind, bands, width, height)
    if driver == "MEM":
        return data.mem_dataset(array, dtype), array, None
    name = data.file_dataset(array, dtype, "GTiff", [f"BLOCKYSIZE={height}"])
    if driver in ("no-data", "described"):
        ds = gdal.Open(name, gdal.GA_Update)
        for b in range(bands):
            if driver == "no-data":
                # a value that does not occur, so that every pixel is data
                ds.GetRasterBand(b + 1).SetNoDataValue({"u": 1, "i": 1, "f": -1e6}[array.dtype.kind])
            else:
                ds.GetRasterBand(b + 1).SetDescription(f"band {b}")
                ds.GetRasterBand(b + 1).SetUnitType("counts")
        ds.SetMetadataItem("AREA_OR_POINT", "Point")
        del ds
    return gdal.Open(name), array, name


def factory(ctx, case, model=None):
    size = case.get("size", [W, H])
    key = (case["type"], case["kind"], case["bands"], case["adjustment"], case["output"], case["format"], model is not None, *size, case.get("source"))
    if key not in _cache:
        if len(_cache) > 60:
            names = [old[3] for old in _cache.values()]
            _cache.clear()
            for name in names:
                if gdal.VSIStatL(name) is not None:
                    gdal.GetDriverByName("GTiff").Delete(name)
        ds, array, name = dataset(case["type"], case["kind"], case["bands"], case.get("source", "GTiff"), *size)
        kwargs = {} if case["output"] is None else {"output_type": data.GDT[case["output"]]}
        f = ctx.call(
            GDALTileFactory,
            ds,
            model,
            tile_format=Fmt(case["format"]),
            range_adjustment=RangeAdjustmentType[case["adjustment"]],
            **kwargs,
        )
        _cache[key] = (f, array, ds, name)
    return _cache[key][:2]


@functools.lru_cache(maxsize=200)
def selected(dtype, kind, band, adjustment, count=W * H):
    """The ranges of pixel values that are stretched over the output range."""
    values = base(dtype, kind, band, count).astype(np.float64)
    lo, hi = float(values.min()), float(values.max())
    top = hi if hi > lo else lo + 1
    n = 255 if dtype.startswith("Float") else min(int(top - lo), 2**16)
    ranges = dra.reference(dra.histogram(values, n, lo, top), lo, top)
    return [(w[0], w[1]) if adjustment == "DRA" else (w[2], w[3]) for w in ranges], (top - lo) / n


def run_encoded(ctx, case):
    f, array = factory(ctx, case)
    x, y, w, h = case["window"]
    encoded = ctx.call(f.create_encoded_tile, [x, y, w, h])
    ctx.check(encoded is not None, "no tile was produced")
    tile = data.Tile(encoded)
    try:
        got = data.pixels(tile.ds)
    finally:
        tile.close()
    source = array[:, y : y + h, x : x + w].astype(np.float64)
    out = case["output"] or case["type"]
    ctx.check(got.shape == source.shape and got.dtype == np.dtype(data.NP[out]), "wrong shape or type", got=(got.shape, got.dtype))
    lo, hi = (float(v) for v in data.limits(out))
    ctx.state(case["type"], out, got.tobytes())
    for b in range(len(array)):
        ranges, step = selected(case["type"], case["kind"], b, case["adjustment"], array[b].size)
        g = got[b].astype(np.float64)
        check_monotone(ctx, source[b], g)
        ok = False
        for smin, smax in ranges:
            if smax - smin < step / 2:
                # an empty range: everything up to it is black, everything above it white
                ok = ok or bool(np.all(np.where(source[b] <= smin, g <= lo + 1, g >= hi - 1)))
                continue
            want = lo + (np.clip(source[b], smin, smax) - smin) / (smax - smin) * (hi - lo)
            # GDAL works in single precision
            ok = ok or bool(np.all(np.abs(g - want) <= 1.01 + 2e-6 * (hi - lo)))
        ctx.check(ok, "the tile is not scaled by the range of the whole image", band=b, source=source[b], got=g, ranges=ranges)


def check_monotone(ctx, source, got):
    s, g = source.ravel(), got.ravel()
    order = np.argsort(s, kind="stable")
    s, g = s[order], g[order]
    for i in range(1, len(s)):
        if s[i] == s[i - 1]:
            ctx.check(g[i] == g[i - 1], "equal pixels have different brightness", source=s, got=g)
        else:
            ctx.check(g[i] >= g[i - 1], "a brighter pixel is darker in the tile", source=s, got=g)


def all_windows(width, height):
    return [
        [x, y, w, h]
        for w in range(1, width + 1)
        for h in range(1, height + 1)
        for x in range(0, width - w + 1)
        for y in range(0, height - h + 1)
    ]


def encoded_cases(quick):
    def gen():
        for dtype in ("Byte", "UInt16", "Int16", "UInt32", "Int32", "Float32", "Float64"):
            for kind in kinds(dtype):
                for bands in (1, 3):
                    for adjustment in ("MINMAX", "DRA"):
                        for output, fmt in (("Byte", "GTiff"), ("Byte", "PNG"), ("UInt16", "GTiff"), ("Int16", "GTiff"), ("Byte", "NITF")):
                            if quick and output != "Byte" and dtype not in ("Byte", "UInt16"):
                                continue
                            for i, window in enumerate(all_windows(W, H)):
                                if quick and i % 8 != (kinds(dtype).index(kind) + bands) % 8 and window[2:] != [W, H]:
                                    continue
                                yield {
                                    "type": dtype,
                                    "kind": kind,
                                    "bands": bands,
                                    "adjustment": adjustment,
                                    "output": output,
                                    "format": fmt,
                                    "window": window,
                                }

    return gen


# -- orthophotos -------------------------------------------------------------------------------------------------------
LON, LAT, STEP = 10.0, 20.0, 0.001


def ortho(ctx, f, window):
    """The orthophoto whose pixels are the source pixels of the window, as [row, col, (r, g, b, alpha)]."""
    x, y, w, h = window
    box = [math.radians(v) for v in (LON + x * STEP, LAT - (y + h - 1) * STEP, LON + (x + w - 1) * STEP, LAT - y * STEP)]
    encoded = ctx.call(f.create_orthophoto_tile, tuple(box), (w, h))
    ctx.check(encoded is not None, "no tile was produced")
    decoded = cv2.imdecode(np.frombuffer(bytes(encoded), np.uint8), cv2.IMREAD_UNCHANGED)
    ctx.check(decoded is not None and decoded.shape == (h, w, 4) and decoded.dtype == np.uint8, "not a tile of the requested size")
    return decoded[:, :, [2, 1, 0, 3]]


@functools.lru_cache(maxsize=200)
def displayed(dtype, kind, band, count=W * H):
    """The ranges of pixel values an orthophoto of the image stretches over the gray levels."""
    values = base(dtype, kind, band, count).astype(np.float64)
    lo, hi = float(values.min()), float(values.max())
    top = hi if hi > lo else lo + 1
    n = min(max(256, int(top - lo)), 2**16)
    result = []
    # GDAL leaves out the pixels at the very ends of the range, up to rounding (of the statistics as text, for fractions)
    insides = [values, values[values < top]]
    if dtype.startswith("Float"):
        insides += [values[values > lo], values[(values > lo) & (values < top)]]
    for inside in insides:
        if inside.size > 0:
            result += [w[:2] for w in dra.reference(dra.histogram(inside, n, lo, top), lo, top, high=0.97)]
    return result


def run_ortho(ctx, case):
    f, array = factory(ctx, case, GDALAffineSensorModel([LON, STEP, 0, LAT, 0, -STEP]))
    x, y, w, h = case["window"]
    got = ortho(ctx, f, case["window"])
    ctx.state(case["type"], case["adjustment"], got.tobytes())
    source = array[:, y : y + h, x : x + w].astype(np.float64)
    shown = min(len(array), 3)
    for c in range(3):
        b = c if shown == 3 else 0
        g = got[:, :, c].astype(np.float64)
        check_monotone(ctx, source[b], g)
        values = array[b].astype(np.float64)
        lo, hi = float(values.min()), float(values.max())
        if case["adjustment"] == "NONE":
            want = [source[b].astype(np.uint8).astype(np.float64)]
        elif case["adjustment"] == "MINMAX":
            want = [np.clip((source[b] - lo) * 255.0 / ((hi - lo) or 1.0), 0, 255)]
        else:
            ranges = displayed(case["type"], case["kind"], b, array[b].size)
            want = [np.clip(255 * (source[b] - smin) / (smax - smin), 0, 255) for smin, smax in ranges if smax > smin]
            # an empty range: everything up to it is black, nothing is said about the rest
            want += [np.where(source[b] <= smin, 0.0, g) for smin, smax in ranges if smax - smin <= 1e-9 * max(hi - lo, 1e-9)]
        ctx.check(
            any(np.all(np.abs(g - t) <= 1.01) for t in want),
            "the orthophoto is not scaled by the range of the whole image",
            channel=c,
            source=source[b],
            got=g,
            want=want,
        )
    alpha = np.where(np.all(got[:, :, :3] != 0, axis=2), 255, 0)
    ctx.check(np.array_equal(alpha, got[:, :, 3]), "transparency does not match the pixels", got=got[:, :, 3], want=alpha)


def ortho_cases(quick):
    def gen():
        for dtype in ("Byte", "UInt16", "Int16", "Int32", "Float32", "Float64"):
            for kind in kinds(dtype):
                for bands in (1, 3, 4):
                    for adjustment in ("NONE", "MINMAX", "DRA"):
                        if adjustment == "NONE" and dtype != "Byte":
                            continue
                        for window in all_windows(W, H):
                            if window[2] < 2 or window[3] < 2:
                                continue
                            yield {
                                "type": dtype,
                                "kind": kind,
                                "bands": bands,
                                "adjustment": adjustment,
                                "output": "Byte",
                                "format": "PNG",
                                "window": window,
                            }

    return gen


# An image large enough for a pixel to be an outlier
BIG = [16, 12]
BIG_WINDOWS = [[x, y, w, h] for x, w in ((0, 16), (0, 3), (5, 6), (13, 3)) for y, h in ((0, 12), (0, 2), (6, 4), (9, 3))]


def outlier_cases(orthos):
    def gen():
        for dtype in ("Byte", "UInt16", "Int16", "Int32", "Float32", "Float64"):
            for kind in ("outlier", "dark", "ramp", "steps") + (tuple(FRACTIONS) if dtype.startswith("Float") else ()):
                for bands in (1, 3):
                    for adjustment in ("MINMAX", "DRA"):
                        for window in BIG_WINDOWS:
                            yield {
                                "type": dtype,
                                "kind": kind,
                                "bands": bands,
                                "adjustment": adjustment,
                                "output": "Byte",
                                "format": "PNG" if orthos else "GTiff",
                                "window": window,
                                "size": BIG,
                            }

    return gen


def other_cases(orthos):
    """Other ranges of values, sources and shapes of images."""

    def gen():
        for dtype in ("Byte", "UInt16", "Int16", "Int32", "Float32", "Float64") + (() if orthos else ("UInt32", "UInt64", "Int64")):
            common = {"type": dtype, "output": "Byte", "format": "PNG" if orthos else "GTiff"}
            for adjustment in ("MINMAX", "DRA"):
                for kind in BOUNDS[dtype]:
                    for bands in (1, 3, 4) if orthos else (1, 2, 3, 4):
                        for window in ([0, 0, 5, 4], [1, 1, 3, 2], [3, 0, 2, 4]):
                            yield {**common, "kind": kind, "bands": bands, "adjustment": adjustment, "window": window}
                for source in ("no-data", "described"):
                    for kind in ("high", "few", "outlier") if dtype.endswith("Int64") else ("ramp", "outlier", "high"):
                        if source == "no-data" and 1 in base(dtype, kind, 0):
                            continue
                        for bands in (1, 3):
                            for window in ([0, 0, 5, 4], [2, 1, 3, 3]):
                                yield {**common, "kind": kind, "bands": bands, "adjustment": adjustment, "window": window, "source": source}
                for size in ([640, 3], [3, 640], [1200, 2]):
                    for kind in ("ramp", "outlier"):
                        if dtype.endswith("Int64") and kind == "outlier":
                            continue
                        w, h = size
                        for window in ([0, 0, w, h], [w - 2, h - 2, 2, 2], [w // 2, h // 2, w - w // 2, h - h // 2]):
                            if orthos and min(window[2:]) < 2:
                                continue
                            yield {**common, "kind": kind, "bands": 1, "adjustment": adjustment, "window": window, "size": size}

    return gen


def run_complex(ctx, case):
    """Two bands are the parts of a complex signal: one brightness per power, for the whole image."""
    f, array = factory(ctx, case, GDALAffineSensorModel([LON, STEP, 0, LAT, 0, -STEP]))
    x, y, w, h = case["window"]
    got = ortho(ctx, f, case["window"])
    ctx.state(case["type"], "complex", got.tobytes())
    full = ortho(ctx, f, [0, 0, W, H])
    ctx.check(np.array_equal(got, full[y : y + h, x : x + w]), "the brightness depends on the tile", got=got, full=full)
    ctx.check(np.array_equal(got[..., 0], got[..., 1]) and np.array_equal(got[..., 0], got[..., 2]), "not a gray image")
    power = np.sum(np.square(array[:, y : y + h, x : x + w].astype(np.float64)), axis=0)
    if case["type"].startswith("Float"):
        power = np.round(power, 3)
        order = np.argsort(power.ravel(), kind="stable")
        g = got[..., 0].astype(int).ravel()[order]
        ctx.check(bool(np.all(np.diff(g) >= -1)), "a stronger signal is darker", got=g)
    else:
        check_monotone(ctx, power, got[..., 0].astype(int))


def complex_cases():
    for dtype in ("Int16", "Float32"):
        for kind in KINDS:
            for adjustment in ("MINMAX", "DRA"):
                for window in all_windows(W, H):
                    if window[2] >= 2 and window[3] >= 2:
                        yield {"type": dtype, "kind": kind, "bands": 2, "adjustment": adjustment, "output": "Byte", "format": "PNG", "window": window}


_stated = {}


def run_stated(ctx, case):
    """An image that states its own (approximate) statistics: some of its pixels are outside of them."""
    key = (case["type"], case["bands"], case["stated"], case["adjustment"], case["tiles"])
    if key not in _stated:
        array = image(case["type"], "ramp", case["bands"])
        ds = data.mem_dataset(array, case["type"])
        stats = []
        for b in range(case["bands"]):
            v = array[b].astype(np.float64)
            lo, hi = float(v.min()), float(v.max())
            inset = {"narrow": 0.2, "wide": -0.3, "low": 0.0}[case["stated"]] * (hi - lo)
            lo, hi = np.floor(lo + inset), np.ceil(hi - inset if case["stated"] != "low" else (lo + hi) / 2)
            stats.append((lo, hi))
            ds.GetRasterBand(b + 1).SetStatistics(lo, hi, (lo + hi) / 2, (hi - lo) / 4)
        f = ctx.call(
            GDALTileFactory,
            ds,
            GDALAffineSensorModel([LON, STEP, 0, LAT, 0, -STEP]),
            tile_format=Fmt.PNG,
            output_type=gdal.GDT_Byte,
            range_adjustment=RangeAdjustmentType[case["adjustment"]],
        )
        _stated[key] = [f, array, stats, None]
    f, array, stats, full = _stated[key]

    def tile(window):
        if case["tiles"] == "ortho":
            return ortho(ctx, f, window)[:, :, :3].transpose((2, 0, 1))[: case["bands"]]
        encoded = data.Tile(ctx.call(f.create_encoded_tile, list(window)))
        try:
            return data.pixels(encoded.ds)
        finally:
            encoded.close()

    if full is None:
        full = _stated[key][3] = tile([0, 0, W, H])
        for b in range(case["bands"]):
            source = array[b].astype(np.float64)
            check_monotone(ctx, source, full[b].astype(int))
            if case["adjustment"] == "MINMAX":
                lo, hi = stats[b]
                if case["tiles"] == "ortho":
                    want = np.clip((source - lo) * 255.0 / (hi - lo), 0, 255)
                    ctx.check(bool(np.all(np.abs(full[b] - want) <= 1.01)), "the tile is not scaled by the stated range", source=source, got=full[b], want=want)
                ctx.check(bool(np.all(full[b][source <= lo] <= 1)), "pixels below the range are not black", got=full[b])
                ctx.check(case["tiles"] != "ortho" or bool(np.all(full[b][source >= hi] >= 254)), "pixels above the range are not white", got=full[b])
    x, y, w, h = case["window"]
    got = tile(case["window"])
    ctx.state("stated", key, got.tobytes())
    ctx.check(np.array_equal(got, full[:, y : y + h, x : x + w]), "the brightness depends on the tile", got=got, full=full)


def stated_cases():
    for dtype in ("Byte", "UInt16", "Int16", "Float32"):
        for stated in ("narrow", "wide", "low"):
            for bands in (1, 3):
                for adjustment in ("MINMAX", "DRA"):
                    for tiles in ("encoded", "ortho"):
                        for window in all_windows(W, H):
                            if window[2] >= 2 and window[3] >= 2:
                                yield {"type": dtype, "stated": stated, "bands": bands, "adjustment": adjustment, "tiles": tiles, "window": window}


def spaces(tier):
    quick = tier == "quick"
    return [
        Space("encoded", encoded_cases(quick), run_encoded, bound="7 pixel types, 6 kinds of images, 1 and 3 bands, all (quick: an 8th of the) windows of a 5x4 image"),
        Space("orthophotos", ortho_cases(quick), run_ortho, bound="6 pixel types, 6 kinds of images, 1 to 4 bands, all windows of a 5x4 image"),
        Space("outliers", outlier_cases(False), run_encoded, bound="6 pixel types, 4 kinds of 16x12 images, 16 windows"),
        Space("outlier-orthophotos", outlier_cases(True), run_ortho, bound="6 pixel types, 4 kinds of 16x12 images, 16 windows"),
        Space("others", other_cases(False), run_encoded, bound="9 pixel types, ranges far from zero, over few and over all values; no data values, descriptions; long images"),
        Space("other-orthophotos", other_cases(True), run_ortho, bound="the same for 6 pixel types"),
        Space("stated", lambda: stated_cases(), run_stated, bound="images that state narrower or wider statistics, 4 pixel types, all windows of a 5x4 image"),
        Space("complex", lambda: complex_cases(), run_complex, bound="complex images, all windows of a 5x4 image"),
    ]
