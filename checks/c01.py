"""C01: an encoded tile holds exactly the pixels of the window it was requested for."""

import numpy as np
from osgeo import gdal

from mc import data
from mc.core import Space, product

from aws.osml.gdal import GDALCompressionOptions as Comp
from aws.osml.gdal import GDALImageFormats as Fmt
from aws.osml.image_processing import GDALTileFactory

gdal.UseExceptions()
gdal.PushErrorHandler("CPLQuietErrorHandler")

NITF_TYPES = ["Byte", "UInt16", "Int16", "UInt32", "Int32", "Float32", "Float64"]
# (format, compression, pixel types, band counts): the combinations whose encoding is lossless
LOSSLESS = (
    [("NITF", "NONE", t, b) for t in NITF_TYPES for b in (1, 2, 3, 4)]
    + [("NITF", c, t, b) for t in ("Float32", "Float64") for b in (1, 2) for c in ("J2K", None)]
    + [("GTiff", c, t, b) for c in ("NONE", "LZW", None) for t in data.NP for b in (1, 2, 3, 5)]
    + [("NITF", "NONE", "UInt16", 9), ("GTiff", "LZW", "Byte", 9), ("GTiff", "NONE", "UInt16", 17)]
    + [("GTiff", "J2K", t, 1) for t in ("Byte", "Float32")]
    + [("PNG", "NONE", t, b) for t in ("Byte", "UInt16") for b in (1, 2, 3, 4)]
)
SOURCES = ["MEM", "NITF", "GTiff", "GTiff-tiled"]
_factories = {}


def open_source(source, array, dtype):
    if source == "MEM":
        return data.mem_dataset(array, dtype)
    options = ["TILED=YES", "BLOCKXSIZE=16", "BLOCKYSIZE=16"] if source == "GTiff-tiled" else []
    return gdal.Open(data.file_dataset(array, dtype, source.split("-")[0], options))


def factory(ctx, source, dtype, bands, width, height, fmt, comp):
    key = (source, dtype, bands, width, height, fmt, comp)
    if key not in _factories:
        if len(_factories) > 200:
            _factories.clear()
        array = data.pattern(dtype, width, height, bands)
        ds = open_source(source, array, dtype)
        f = ctx.call(GDALTileFactory, ds, tile_format=Fmt(fmt), tile_compression=None if comp is None else Comp(comp))
        _factories[key] = (f, ds, array)
    return _factories[key]


def run_window(ctx, case):
    f, ds, array = factory(
        ctx, case["source"], case["type"], case["bands"], case["width"], case["height"], case["format"], case["compression"]
    )
    x, y, w, h = case["window"]
    request = [x, y, w, h]
    encoded = ctx.call(f.create_encoded_tile, request)
    ctx.check(request == [x, y, w, h], "the request was changed", request=request)
    ctx.check(encoded is not None and len(encoded) > 0, "no tile was produced")
    tile = data.Tile(encoded)
    try:
        ctx.check(tile.ds is not None, "the tile is not a readable image")
        ctx.check(tile.ds.GetDriver().ShortName == case["format"], "wrong format", actual=tile.ds.GetDriver().ShortName)
        got = data.pixels(tile.ds)
        want = array[:, y : y + h, x : x + w]
        ctx.check(data.same_pixels(got, want), "the tile does not hold the pixels of the window", got=got, want=want)
        ctx.state(case["format"], case["compression"], case["type"], got.shape, got.tobytes())
        compression = (tile.ds.GetMetadata("IMAGE_STRUCTURE") or {}).get("COMPRESSION")
        if case["format"] == "GTiff":
            want_comp = None if case["compression"] == "NONE" else "LZW"
            ctx.check(compression == want_comp, "wrong compression", compression=compression)
    finally:
        tile.close()
    ctx.check(data.same_pixels(data.pixels(ds), array), "the source image was changed")


FORMS = {
    "tuple": tuple,
    "integers": lambda w: [np.int32(v) for v in w],
}


def run_form(ctx, case):
    """The window in another form, and the pixel type of the image asked for by name."""
    array = data.pattern(case["type"], 5, 4, case["bands"])
    ds = data.mem_dataset(array, case["type"])
    kwargs = {"output_type": data.GDT[case["type"]]} if case["named"] else {}
    f = ctx.call(GDALTileFactory, ds, tile_format=Fmt(case["format"]), tile_compression=Comp.NONE, **kwargs)
    x, y, w, h = case["window"]
    encoded = ctx.call(f.create_encoded_tile, FORMS[case["form"]](case["window"]))
    ctx.check(encoded is not None and len(encoded) > 0, "no tile was produced")
    tile = data.Tile(encoded)
    try:
        got = data.pixels(tile.ds)
        ctx.state(case["format"], case["type"], got.shape, got.tobytes())
        ctx.check(data.same_pixels(got, array[:, y : y + h, x : x + w]), "the tile does not hold the pixels of the window", got=got)
    finally:
        tile.close()


def forms():
    for fmt, dtype, bands in (("NITF", "Byte", 1), ("NITF", "Int16", 3), ("GTiff", "UInt16", 2), ("GTiff", "Float64", 1), ("PNG", "UInt16", 1)):
        for form in FORMS:
            for named in (False, True):
                for window in all_windows(5, 4):
                    yield {"format": fmt, "type": dtype, "bands": bands, "form": form, "named": named, "window": window}


def all_windows(width, height):
    return [
        [x, y, w, h]
        for w in range(1, width + 1)
        for h in range(1, height + 1)
        for x in range(0, width - w + 1)
        for y in range(0, height - h + 1)
    ]


def windows(combos, sources, width, height):
    def gen():
        for fmt, comp, dtype, bands in combos:
            for source in sources:
                if source == "NITF" and dtype in ("UInt64", "Int64"):
                    continue
                for window in all_windows(width, height):
                    yield {
                        "format": fmt,
                        "compression": comp,
                        "type": dtype,
                        "bands": bands,
                        "source": source,
                        "width": width,
                        "height": height,
                        "window": window,
                    }

    return gen


def big_windows(combos, sources):
    """Windows that start, end or straddle the block boundaries (16 or 256 pixels) of an image of several blocks."""

    def gen():
        cuts = [0, 1, 15, 16, 17, 31, 255, 256, 257, 299, 300]
        spans = [(a, b) for a in cuts for b in cuts if a < b]
        rows = [(0, 70), (15, 17), (16, 32), (31, 70), (63, 64), (69, 70)]
        for fmt, comp, dtype, bands in combos:
            for source in sources:
                for x0, x1 in spans:
                    for y0, y1 in rows:
                        yield {
                            "format": fmt,
                            "compression": comp,
                            "type": dtype,
                            "bands": bands,
                            "source": source,
                            "width": 300,
                            "height": 70,
                            "window": [x0, y0, x1 - x0, y1 - y0],
                        }

    return gen


def run_resize(ctx, case):
    f, ds, array = factory(ctx, "MEM", case["type"], case["bands"], 6, 6, case["format"], case["compression"])
    x, y, w, h = case["window"]
    ow, oh = case["output"]
    encoded = ctx.call(f.create_encoded_tile, [x, y, w, h], (ow, oh))
    ctx.check(encoded is not None, "no tile was produced")
    tile = data.Tile(encoded)
    try:
        got = data.pixels(tile.ds)
        ctx.check(got.shape == (case["bands"], oh, ow), "the tile does not have the requested size", shape=got.shape)
        ctx.check(got.dtype == array.dtype, "wrong pixel type", got=got.dtype)
        want = array[:, y : y + h, x : x + w]
        ctx.state(case["window"], case["output"], got.tobytes())
        # Every output pixel is one of the pixels its footprint touches.
        for r in range(oh):
            r0, r1 = int(np.floor(r * h / oh - 1e-9)), int(np.ceil((r + 1) * h / oh + 1e-9))
            for c in range(ow):
                c0, c1 = int(np.floor(c * w / ow - 1e-9)), int(np.ceil((c + 1) * w / ow + 1e-9))
                region = want[:, max(r0, 0) : r1, max(c0, 0) : c1].reshape(case["bands"], -1)
                ok = any(np.array_equal(region[:, k], got[:, r, c]) for k in range(region.shape[1]))
                ctx.check(ok, "a pixel of the resized tile is not one of the pixels it covers", row=r, col=c)
    finally:
        tile.close()


# -- sources with something special about them -------------------------------------------------------------------------
OTHER_TYPES = {"CInt16": gdal.GDT_CInt16, "CFloat32": gdal.GDT_CFloat32, "CFloat64": gdal.GDT_CFloat64, "Int8": gdal.GDT_Int8}
SPECIAL = {
    "nodata": ("GTiff", "NITF", "PNG"),
    "palette": ("GTiff", "NITF", "PNG"),
    "mask": ("GTiff", "NITF", "PNG"),
    "alpha": ("GTiff", "NITF", "PNG"),
    "offset": ("GTiff", "NITF", "PNG"),
    "overviews": ("GTiff", "NITF", "PNG"),
    "statistics": ("GTiff", "NITF", "PNG"),
    "vrt": ("GTiff", "NITF", "PNG"),
    "readonly": ("GTiff", "NITF", "PNG"),
    "blocks": ("GTiff", "NITF", "PNG"),
    "subdataset": ("GTiff", "NITF", "PNG"),
    "CInt16": ("GTiff", "NITF"),
    "CFloat32": ("GTiff", "NITF"),
    "CFloat64": ("GTiff",),
    "Int8": ("GTiff",),
}
_special = {}


def special(kind):
    """(dataset, pixels) of a 5x4 image."""
    w, h = 5, 4
    if kind in OTHER_TYPES:
        n = np.arange(w * h).reshape(h, w)
        array = (n * 5 - 60).astype(np.int8) if kind == "Int8" else (n * 1501 - 14000 + 1j * (7000 - 700 * n)).astype(np.complex128 if kind == "CFloat64" else np.complex64)
        ds = gdal.GetDriverByName("MEM").Create("", w, h, 1, OTHER_TYPES[kind])
        ds.GetRasterBand(1).WriteArray(array)
        return ds, array[None]
    bands = 4 if kind == "alpha" else 1
    array = data.pattern("Byte", w, h, bands)
    ds = data.mem_dataset(array, "Byte")
    band = ds.GetRasterBand(1)
    if kind == "nodata":
        band.SetNoDataValue(int(array[0, 1, 2]))
    elif kind == "palette":
        table = gdal.ColorTable()
        for i in range(256):
            table.SetColorEntry(i, (255 - i, i // 2, i, 255))
        band.SetColorTable(table)
    elif kind == "mask":
        ds.CreateMaskBand(gdal.GMF_PER_DATASET)
        band.GetMaskBand().WriteArray((np.arange(w * h).reshape(h, w) % 2 * 255).astype(np.uint8))
    elif kind == "alpha":
        ds.GetRasterBand(4).SetColorInterpretation(gdal.GCI_AlphaBand)
    elif kind == "offset":
        band.SetOffset(5.0)
        band.SetScale(2.0)
    elif kind == "statistics":
        band.SetStatistics(10.0, 20.0, 15.0, 1.0)
    elif kind in ("overviews", "readonly", "vrt", "blocks"):
        options = ["TILED=YES", "BLOCKXSIZE=16", "BLOCKYSIZE=16"] if kind == "overviews" else []
        name = data.file_dataset(array, "Byte", "GTiff", options)
        if kind == "overviews":
            out = gdal.Open(name, gdal.GA_Update)
            out.BuildOverviews("NEAREST", [2, 4])
            out = None
        if kind == "vrt":
            inner = data.file_dataset(np.pad(array, ((0, 0), (2, 1), (3, 2))), "Byte", "GTiff")
            vrt = data.fresh(".vrt")
            out = gdal.Translate(vrt, inner, format="VRT", srcWin=[3, 2, w, h])
            out = None
            name = vrt
        if kind == "blocks":
            name = data.file_dataset(array, "Byte", "NITF", ["BLOCKXSIZE=2", "BLOCKYSIZE=3"])
        ds = gdal.Open(name)
    elif kind == "subdataset":
        # the second image segment of a NITF file is a dataset of its own
        name = data.fresh(".ntf")
        out = gdal.GetDriverByName("NITF").Create(name, w, h, 1, gdal.GDT_Byte, ["NUMI=2"])
        out = None
        out = gdal.GetDriverByName("NITF").CreateCopy(name, ds, options=["APPEND_SUBDATASET=YES", "IDLVL=2"])
        out = None
        ds = gdal.Open("NITF_IM:1:" + name)
    return ds, array


def run_special(ctx, case):
    kind = case["kind"]
    if kind not in _special:
        _special[kind] = special(kind)
    ds, array = _special[kind]
    f = ctx.call(GDALTileFactory, ds, tile_format=Fmt(case["format"]), tile_compression=Comp.NONE)
    for x, y, w, h in all_windows(5, 4):
        encoded = ctx.call(f.create_encoded_tile, [x, y, w, h])
        ctx.check(encoded is not None and len(encoded) > 0, "no tile was produced")
        tile = data.Tile(encoded)
        try:
            ctx.check(tile.ds is not None and tile.ds.GetDriver().ShortName == case["format"], "not a readable image of the format")
            got = data.pixels(tile.ds)
            want = array[:, y : y + h, x : x + w]
            ctx.check(data.same_pixels(got, want), "the tile does not hold the pixels of the window", window=[x, y, w, h], got=got, want=want)
            if kind == "palette":
                ctx.check(tile.ds.GetRasterBand(1).GetColorTable() is not None, "the colors of the image got lost")
            ctx.state(kind, case["format"], x, y, w, h)
        finally:
            tile.close()


def resizes(combos, sizes):
    def gen():
        for fmt, comp, dtype, bands in combos:
            for window in [[0, 0, 6, 6], [1, 2, 4, 3], [2, 0, 3, 5], [5, 5, 1, 1], [0, 3, 6, 2]]:
                for ow in sizes:
                    for oh in sizes:
                        yield {
                            "format": fmt,
                            "compression": comp,
                            "type": dtype,
                            "bands": bands,
                            "window": window,
                            "output": [ow, oh],
                        }

    return gen


_large = {}
LW, LH = 2300, 1150


def run_large(ctx, case):
    """Windows and outputs of more than 256, 512, 1024 and 2048 pixels."""
    key = (case["source"], case["bands"])
    if key not in _large:
        n = np.arange(LW * LH * case["bands"], dtype=np.uint64)
        array = ((n * 40503 + n // 251) % 65521).astype(np.uint16).reshape(case["bands"], LH, LW)
        _large[key] = open_source(case["source"], array, "UInt16"), array
    ds, array = _large[key]
    f = ctx.call(GDALTileFactory, ds, tile_format=Fmt(case["format"]), tile_compression=Comp.NONE)
    x, y, w, h = case["window"]
    output = case["output"]
    encoded = ctx.call(f.create_encoded_tile, [x, y, w, h], None if output is None else tuple(output))
    ctx.check(encoded is not None and len(encoded) > 0, "no tile was produced")
    tile = data.Tile(encoded)
    try:
        ctx.check(tile.ds is not None and tile.ds.GetDriver().ShortName == case["format"], "not a readable image of the format")
        got = data.pixels(tile.ds)
        want = array[:, y : y + h, x : x + w]
        if output is None:
            ctx.check(data.same_pixels(got, want), "the tile does not hold the pixels of the window", shape=got.shape)
        else:
            ow, oh = output
            ctx.check(got.shape == (case["bands"], oh, ow) and got.dtype == want.dtype, "the tile does not have the requested size", shape=got.shape)
            # every output pixel is one of the (at most 4 x 4) pixels its footprint touches
            r0 = np.floor(np.arange(oh) * h / oh).astype(int)
            c0 = np.floor(np.arange(ow) * w / ow).astype(int)
            found = np.zeros((oh, ow), bool)
            for dr in range(-1, int(np.ceil(h / oh)) + 1):
                for dc in range(-1, int(np.ceil(w / ow)) + 1):
                    part = want[:, np.clip(r0 + dr, 0, h - 1)][:, :, np.clip(c0 + dc, 0, w - 1)]
                    found |= np.all(part == got, axis=0)
            ctx.check(bool(found.all()), "a pixel of the resized tile is not one of the pixels it covers", missing=int((~found).sum()))
        ctx.state("large", case["format"], case["window"], output, got[:, ::97, ::89].tobytes())
    finally:
        tile.close()


def large(formats, sources):
    windows = [[0, 0, LW, LH], [3, 1, 2100, 1030], [200, 50, 1025, 1025], [1, 2, 513, 514], [1500, 700, 257, 300], [0, 0, 1, LH], [0, 7, LW, 1]]
    for fmt in formats:
        for source in sources:
            for bands in (1, 3):
                for window in windows:
                    yield {"format": fmt, "source": source, "bands": bands, "window": window, "output": None}
                for window, output in (([0, 0, LW, LH], [1150, 575]), ([10, 20, 600, 500], [1200, 1100]), ([100, 60, 2048, 1024], [512, 1024]), ([0, 0, 300, 300], [2100, 50])):
                    yield {"format": fmt, "source": source, "bands": bands, "window": window, "output": output}


def run_lossy(ctx, case):
    """Lossy encodings: the size, band count, type and format are those requested and the pixels are close."""
    w, h = case["size"]
    bands = case["bands"]
    ramp = np.add.outer(np.arange(128) * 3 // 4, np.arange(150))
    if case.get("waves"):
        wave = lambda n, period: np.abs((np.arange(n) % period) - period // 2)
        ramp = np.add.outer(2 * wave(128, 50), 3 * wave(150, 60)) + 20
    array = np.stack([ramp, ramp[::-1, :], ramp[:, ::-1]][:bands]).astype(data.NP[case["type"]])
    ds = data.mem_dataset(array, case["type"])
    f = ctx.call(GDALTileFactory, ds, tile_format=Fmt(case["format"]), tile_compression=case["compression"] and Comp(case["compression"]))
    x, y = case["at"]
    encoded = ctx.call(f.create_encoded_tile, [x, y, w, h])
    ctx.check(encoded is not None, "no tile was produced")
    tile = data.Tile(encoded)
    try:
        got = data.pixels(tile.ds)
        want = array[:, y : y + h, x : x + w]
        ctx.check(tile.ds.GetDriver().ShortName == case["format"], "wrong format")
        ctx.check(got.shape == want.shape and got.dtype == want.dtype, "wrong shape or type", got=(got.shape, got.dtype))
        compression = (tile.ds.GetMetadata("IMAGE_STRUCTURE") or {}).get("COMPRESSION", "")
        expected = {"JPEG": "JPEG", "J2K": "JPEG2000", "LZW": "JPEG2000", None: "JPEG2000" if case["format"] == "NITF" else "JPEG"}[case["compression"]]
        ctx.check(case["format"] == "JPEG" or expected in (compression or ""), "wrong compression", compression=compression, expected=expected)
        mean = float(np.mean(np.abs(got.astype(float) - want.astype(float))))
        ctx.state(case["format"], case["compression"], case["type"], case["size"], case["at"])
        ctx.check(mean < 4, "the tile shows something else than the window", mean_difference=mean)
        if case.get("waves"):
            # no other window, next to the one requested, is more like the tile
            for dx in (-2, -1, 0, 1, 2):
                for dy in (-2, -1, 0, 1, 2):
                    if x + dx >= 0 and y + dy >= 0 and x + dx + w <= 150 and y + dy + h <= 128:
                        other = array[:, y + dy : y + dy + h, x + dx : x + dx + w]
                        difference = float(np.mean(np.abs(got.astype(float) - other.astype(float))))
                        ctx.check((dx, dy) == (0, 0) or difference > mean, "the tile shows another window", shifted=(dx, dy), mean_difference=mean, there=difference)
    finally:
        tile.close()


def lossy():
    for fmt, comp, types, bands in (
        ("NITF", "JPEG", ["Byte"], (1, 3)),
        ("NITF", "J2K", ["Byte", "UInt16", "Int16"], (1, 3)),
        ("NITF", None, ["Byte", "UInt16"], (1,)),
        ("NITF", "LZW", ["Byte", "UInt16", "Int16"], (1,)),
        ("GTiff", "JPEG", ["Byte"], (1, 3)),
        ("JPEG", "NONE", ["Byte"], (1, 3)),
    ):
        for t in types:
            for b in bands:
                for size in ([64, 64], [96, 40], [50, 100]):
                    for at in ([0, 0], [20, 28], [150 - size[0], 128 - size[1]]):
                        for waves in (False, True):
                            yield {"format": fmt, "compression": None if fmt == "JPEG" else comp, "type": t, "bands": b, "size": size, "at": at, "waves": waves}


def spaces(tier):
    quick = tier == "quick"
    few = [("NITF", "NONE", "Int16", 2), ("GTiff", "LZW", "UInt16", 3), ("PNG", "NONE", "Byte", 1), ("GTiff", "NONE", "Float32", 1)]
    return [
        Space(
            "every_encoding",
            windows(LOSSLESS, ["MEM"] if quick else SOURCES, 3 if quick else 4, 3),
            run_window,
            bound="every window of a 3x3 (thorough 4x3) image for every lossless format, compression, pixel type and band count",
        ),
        Space(
            "every_window",
            windows(few, SOURCES, 5 if quick else 9, 4 if quick else 7),
            run_window,
            bound="every window of a 5x4 (thorough 9x7) image, 4 encodings, 4 source drivers",
        ),
        Space(
            "blocks",
            big_windows(few[:2] if quick else few, ["NITF", "GTiff-tiled"]),
            run_window,
            bound="330 windows cut at block boundaries of a 300x70 image",
        ),
        Space("resized", resizes(few, (1, 2, 3, 6, 12) if quick else range(1, 14)), run_resize, bound="5 windows x output sizes"),
        Space(
            "special",
            [dict(kind=k, format=f) for k, formats in SPECIAL.items() for f in formats],
            run_special,
            bound="every window of 5x4 images with palettes, masks, no data values, overviews, statistics, complex pixels, ...",
        ),
        Space(
            "large",
            list(large(["NITF", "GTiff"] if quick else ["NITF", "GTiff", "PNG"], ["MEM"] if quick else ["MEM", "NITF", "GTiff-tiled"])),
            run_large,
            bound="7 windows and 4 output sizes of up to 2300x1150 pixels",
        ),
        Space("forms", lambda: forms(), run_form, bound="every window of a 5x4 image as a tuple and as numpy integers, with the pixel type named"),
        Space("lossy", lambda: lossy(), run_lossy, bound="JPEG and JPEG2000 encodings of 9 windows"),
    ]


NOTES = {
    "assumptions": [
        "GDAL 3.8 is the decoder: what gdal.Open reads from the tile is what the tile holds",
        "JPEG and JPEG2000 are lossy by design: only the size, type, compression and a mean difference below 4 grey levels are checked",
    ]
}
