"""C04: the corner coordinates in the header of a NITF tile are those of its window."""

import itertools
import math
import re

from osgeo import gdal

from mc import data
from mc.core import Space

from aws.osml.gdal import GDALCompressionOptions as Comp
from aws.osml.gdal import GDALImageFormats as Fmt
from aws.osml.gdal import RangeAdjustmentType
from aws.osml.image_processing import GDALTileFactory
from aws.osml.photogrammetry import ChippedImageSensorModel, GDALAffineSensorModel, ImageCoordinate, ProjectiveSensorModel

gdal.UseExceptions()
gdal.PushErrorHandler("CPLQuietErrorHandler")

W, H = 6, 5
LARGE = (3000, 2500)
# name -> geo transform (degrees); the four quadrants, rotations, pixels from 1 arc second to 1 degree
AFFINE = {
    "ne": [10.0, 0.01, 0.0, 50.0, 0.0, -0.01],
    "nw": [-120.71, 0.013, 0.004, 33.3, 0.003, -0.017],
    "se": [151.2, 0.02, -0.01, -33.8, -0.01, -0.02],
    "sw": [-70.6, 0.011, 0.0, -33.4, 0.0, 0.012],
    "south-up": [5.5, -0.01, 0.0, 5.5, 0.0, 0.01],
    "equator": [-0.025, 0.01, 0.0, 0.025, 0.0, -0.01],
    "far-east": [179.2, 0.1, 0.0, 89.5, 0.0, -0.1],
    "far-west": [-179.9, 0.2, 0.0, -89.0, 0.0, -0.1],
    "dateline-east": [179.98, 1 / 360, 0.0, 0.004, 0.0, -1 / 720],
    "dateline-west": [-179.999, 1 / 360, 0.0, -64.99, 1 / 7200, -1 / 720],
    "seconds": [7.0, 1 / 3600, 0.0, 8.0, 0.0, -1 / 3600],
    "coarse": [-5.0, 1.0, 0.0, 3.0, 0.0, -1.0],
    "turned": [12.3, 0.0, 0.01, 45.6, 0.01, 0.0],
    "large": [-77.2, 0.0008, 0.0001, 38.9, 0.0002, -0.0007],
}


class Recorder:
    """A sensor model of the caller: any class with image_to_world() may be given to the factory."""

    def __init__(self, model):
        self.model = model

    def image_to_world(self, image_coordinate, *args, **kwargs):
        return self.model.image_to_world(image_coordinate, *args, **kwargs)

    def world_to_image(self, world_coordinate):
        return self.model.world_to_image(world_coordinate)


def model_for(name):
    if name.startswith("chip:"):
        full = [[40, 30], [46, 30], [46, 35], [40, 35]]
        chip = [[0, 0], [W, 0], [W, H], [0, H]]
        return ChippedImageSensorModel(
            [ImageCoordinate(c) for c in full], [ImageCoordinate(c) for c in chip], GDALAffineSensorModel(AFFINE[name[5:]])
        )
    if name.startswith("proj:"):
        affine = GDALAffineSensorModel(AFFINE[name[5:]])
        corners = [ImageCoordinate(c) for c in ([0, 0], [W, 0], [W, H], [0, H])]
        return ProjectiveSensorModel([affine.image_to_world(c) for c in corners], corners)
    return GDALAffineSensorModel(AFFINE[name])


def expected(name, x, y):
    """Longitude and latitude in degrees of an image location."""
    base = name.split(":")[-1]
    gt = AFFINE[base]
    if name.startswith("chip:"):
        x, y = x + 40, y + 30
    return gt[0] + x * gt[1] + y * gt[2], gt[3] + x * gt[4] + y * gt[5]


def parse(corner):
    m = re.fullmatch(r"(\d\d)(\d\d)(\d\d)([NS])(\d\d\d)(\d\d)(\d\d)([EW])", corner)
    if not m or int(m[2]) > 59 or int(m[3]) > 59 or int(m[6]) > 59 or int(m[7]) > 59:
        return None
    lat = int(m[1]) + int(m[2]) / 60 + int(m[3]) / 3600
    lon = int(m[5]) + int(m[6]) / 60 + int(m[7]) / 3600
    return (lon if m[8] == "E" else -lon), (lat if m[4] == "N" else -lat)


_ds = {}


def run(ctx, case):
    key = (case["type"], case.get("bands", 1))
    if case["model"] == "large":
        key = "large image"
        if key not in _ds:
            _ds[key] = gdal.GetDriverByName("MEM").Create("", *LARGE, 1, gdal.GDT_Byte)
    elif key not in _ds:
        _ds[key] = data.mem_dataset(data.pattern(key[0], W, H, key[1]), key[0])
    ds = _ds[key]
    kwargs = {"output_type": data.GDT[case["output"]]} if case.get("output") else {}
    if case.get("adjust"):
        kwargs["range_adjustment"] = RangeAdjustmentType[case["adjust"]]
    compression = None if case.get("compression") == "default" else Comp(case.get("compression", "NONE"))
    f = ctx.call(GDALTileFactory, ds, Recorder(model_for(case["model"])), Fmt.NITF, compression, **kwargs)
    for other in case.get("before", []):
        ctx.call(f.create_encoded_tile, list(other))
    x, y, w, h = case["window"]
    size = case.get("size")
    window = tuple(case["window"]) if case.get("tuple") else [x, y, w, h]
    encoded = ctx.call(f.create_encoded_tile, window, tuple(size) if size else None)
    tile = data.Tile(encoded, ".ntf")
    try:
        meta = tile.ds.GetMetadata()
        igeolo = meta.get("NITF_IGEOLO", "")
        ctx.check(meta.get("NITF_ICORDS") == "G", "the corners have to be geographic coordinates", icords=meta.get("NITF_ICORDS"))
        ctx.check(len(igeolo) == 60, "IGEOLO has to have 60 characters", igeolo=igeolo)
        ctx.state(case["model"], igeolo)
        for i, (cx, cy) in enumerate([(x, y), (x + w, y), (x + w, y + h), (x, y + h)]):
            got = parse(igeolo[15 * i : 15 * i + 15])
            ctx.check(got is not None, "not a valid ddmmssXdddmmssY", corner=igeolo[15 * i : 15 * i + 15])
            want = expected(case["model"], cx, cy)
            tolerance = 1.001 / 3600
            ctx.check(
                abs(got[0] - want[0]) < tolerance and abs(got[1] - want[1]) < tolerance,
                "a corner of the tile is more than an arc second away from the corner of the window",
                corner=i,
                got=got,
                want=want,
            )
    finally:
        tile.close()


def run_without(ctx, case):
    """Without a sensor model no corners are invented; other formats have no such header."""
    ds = data.mem_dataset(data.pattern("Byte", W, H, 1), "Byte")
    f = ctx.call(GDALTileFactory, ds, None, Fmt.NITF, Comp.NONE)
    tile = data.Tile(ctx.call(f.create_encoded_tile, case["window"]), ".ntf")
    try:
        ctx.state("none", case["window"])
        ctx.check(tile.ds.GetMetadata().get("NITF_IGEOLO", "").strip() == "", "corners without a sensor model")
        ctx.check(tile.ds.GetGCPCount() == 0 and tile.ds.GetGeoTransform(can_return_null=True) is None, "georeferenced")
    finally:
        tile.close()


def windows(w, h):
    return [
        [x, y, ww, hh]
        for ww in range(1, w + 1)
        for hh in range(1, h + 1)
        for x in range(0, w - ww + 1)
        for y in range(0, h - hh + 1)
    ]


def cases(models, step):
    def gen():
        for m in models:
            for i, win in enumerate(windows(W, H)):
                if i % step == 0:
                    yield {"model": m, "window": win, "type": "Byte"}

    return gen


def variations():
    for m in ("nw", "se", "chip:ne"):
        for win in ([0, 0, 6, 5], [1, 2, 3, 2], [4, 1, 2, 4]):
            for size in (None, [2, 2], [7, 9]):
                for before in ([], [[0, 0, 2, 2]], [[2, 2, 3, 3], [0, 1, 1, 1]]):
                    for t in ("Byte", "Int16", "Float32"):
                        yield {"model": m, "window": win, "type": t, "size": size, "before": before}


    for m in ("nw", "proj:nw"):
        for bands in (2, 3, 4, 5, 9):
            for t in ("Byte", "UInt16", "Float64"):
                yield {"model": m, "window": [1, 2, 3, 2], "type": t, "bands": bands}


def options():
    """Compressions, output types and range adjustments of the tile; the window as a tuple."""
    for m in ("nw", "chip:sw", "proj:ne"):
        for win in ([0, 0, 6, 5], [1, 2, 3, 2], [4, 1, 2, 4]):
            for size in (None, [64, 48]):
                for compression in ("NONE", "J2K", "JPEG", "LZW", "default"):
                    for t, output in (("Byte", None), ("Byte", "Byte"), ("UInt16", "Byte"), ("UInt16", None), ("Byte", "UInt16")):
                        if compression == "JPEG" and (output or t) != "Byte":
                            continue
                        for adjust in (None, "MINMAX", "DRA"):
                            yield {"model": m, "window": win, "type": t, "size": size, "compression": compression, "output": output, "adjust": adjust, "tuple": True}


def large(thorough):
    first, extent = (0, 1, 511, 1900, 2480), (1, 20, 513, 1100, 2500) if thorough else (1, 513, 1100)
    for x, y, w, h in itertools.product(first, first, extent, extent):
        if x + w <= LARGE[0] and y + h <= LARGE[1]:
            yield {"model": "large", "window": [x, y, w, h], "type": "Byte"}
    yield {"model": "large", "window": [0, 0, *LARGE], "type": "Byte"}


def spaces(tier):
    models = [m for m in AFFINE if m != "large"] + ["chip:ne", "chip:sw", "proj:ne", "proj:nw"]
    return [
        Space(
            "windows",
            cases(models, 1),
            run,
            bound="all 315 windows of a 6x5 image under 17 sensor models in all quadrants",
        ),
        Space("large", lambda: large(tier == "thorough"), run, bound="windows of up to 3000x2500 pixels at 5x5 places of a large image"),
        Space("variations", variations, run, bound="output sizes, pixel types and earlier requests"),
        Space("options", lambda: options(), run, bound="5 compressions, 5 pairs of pixel types, 3 range adjustments, 3 windows given as tuples, 2 output sizes"),
        Space("no_model", [{"window": w} for w in windows(3, 3)], run_without, bound="all windows of a 3x3 corner"),
    ]
