"""C08: elevations come from the posts of the right raster file, and regions without a file are left alone."""

import itertools
import math

import numpy as np
from osgeo import gdal

from mc import data
from mc.core import Space, product

from aws.osml.gdal import GDALDigitalElevationModelTileFactory
from aws.osml.photogrammetry import (
    DigitalElevationModel,
    GenericDEMTileSet,
    GeodeticWorldCoordinate,
    ImageCoordinate,
    SRTMTileSet,
    geodetic_to_geocentric,
)

gdal.PushErrorHandler("CPLQuietErrorHandler")


def outline(gt):
    """The geo transform of a file from that of its posts: each post is in the middle of a pixel."""
    return [gt[0] - (gt[1] + gt[2]) / 2, gt[1], gt[2], gt[3] - (gt[4] + gt[5]) / 2, gt[4], gt[5]]


def write(name, array, dtype, gt, nodata=None, driver="GTiff"):
    """A file whose posts are where the transform gt puts whole columns and rows."""
    ds = data.mem_dataset(np.asarray(array)[None].astype(data.NP[dtype]), dtype)
    if gt is not None:
        ds.SetGeoTransform(outline(gt))
    if nodata is not None:
        ds.GetRasterBand(1).SetNoDataValue(nodata)
    out = gdal.Translate(name, ds, format=driver)
    del out


def bilinear(array, x, y):
    """Posts are at whole positions; outside of them the edge continues."""
    h, w = array.shape
    x = min(max(x, 0.0), w - 1)
    y = min(max(y, 0.0), h - 1)
    x0, y0 = min(int(math.floor(x)), w - 2), min(int(math.floor(y)), h - 2)
    fx, fy = x - x0, y - y0
    a = array.astype(float)
    return (
        a[y0, x0] * (1 - fx) * (1 - fy)
        + a[y0, x0 + 1] * fx * (1 - fy)
        + a[y0 + 1, x0] * (1 - fx) * fy
        + a[y0 + 1, x0 + 1] * fx * fy
    )


def remove(directory):
    try:
        gdal.RmdirRecursive(directory)
    except RuntimeError:
        pass


class exceptions:
    def __init__(self, on):
        self.on = on

    def __enter__(self):
        gdal.UseExceptions() if self.on else gdal.DontUseExceptions()

    def __exit__(self, *a):
        gdal.UseExceptions()


GTS = {
    "ne": lambda w, h: [34.0, 1.0 / (w - 1), 0.0, 48.0, 0.0, -1.0 / (h - 1)],
    "sw": lambda w, h: [-71.0, 1.0 / (w - 1), 0.0, -32.0, 0.0, -1.0 / (h - 1)],
    "half-post": lambda w, h: [-71.0 - 0.5 / w, 1.0 / w, 0.0, -32.0 + 0.5 / h, 0.0, -1.0 / h],
}


def check_tile(ctx, result, array, dtype, gt, nodata):
    got, model, summary = result
    ctx.check(got is not None and model is not None and summary is not None, "a tile that exists was not loaded")
    got = np.asarray(got)
    ctx.check(got.shape == array.shape and np.array_equal(got, array), "wrong elevations", got=got, want=array)
    h, w = array.shape
    for x, y in ((0, 0), (w - 1, 0), (0, h - 1), (w - 1, h - 1), (0.3, 1.2)):
        c = ctx.call(model.image_to_world, ImageCoordinate([x, y]))
        lon, lat = gt[0] + x * gt[1], gt[3] + y * gt[5]
        ctx.check(
            abs(math.degrees(c.longitude) - lon) < 1e-9 and abs(math.degrees(c.latitude) - lat) < 1e-9, "post in another place"
        )
    valid = array if nodata is None else array[array != nodata]
    ctx.check(
        abs(summary.min_elevation - valid.min()) < 1e-6 and abs(summary.max_elevation - valid.max()) < 1e-6,
        "the summary does not give the lowest and highest elevation",
        summary=summary,
        low=valid.min(),
        high=valid.max(),
    )
    ctx.check(summary.no_data_value == nodata, "wrong no data value", summary=summary)

    def ecef(x, y):
        return geodetic_to_geocentric(
            GeodeticWorldCoordinate([math.radians(gt[0] + x * gt[1]), math.radians(gt[3] + y * gt[5]), 0.0])
        ).coordinate

    spacing = np.linalg.norm(ecef(0, 0) - ecef(w, h)) / math.hypot(w, h)
    ctx.check(abs(summary.post_spacing / spacing - 1) < 0.01, "wrong post spacing", summary=summary, want=spacing)


def run_arrays(ctx, case):
    """Every small array over a few values, every position between its posts."""
    w, h = case["shape"]
    array = np.array(case["values"]).reshape(h, w).astype(data.NP[case["type"]])
    gt = GTS[case["place"]](w, h)
    directory = data.fresh()
    name = {"ne": "n47_e034_1arc_v3.tif", "sw": "s33_w071_1arc_v3.tif", "half-post": "s33_w071_1arc_v3.tif"}[case["place"]]
    write(f"{directory}/{name}", array, case["type"], gt, case["nodata"])
    try:
        with exceptions(case["exceptions"]):
            factory = ctx.call(GDALDigitalElevationModelTileFactory, directory)
            check_tile(ctx, ctx.call(factory.get_tile, name), array, case["type"], gt, case["nodata"])
            dem = ctx.call(DigitalElevationModel, SRTMTileSet(), factory)
            lat0, lon0 = (47, 34) if case["place"] == "ne" else (-33, -71)
            for fx in (0.001, 0.125, 0.25, 0.5, 0.6, 0.9, 0.999):
                for fy in (0.001, 0.125, 0.25, 0.5, 0.6, 0.9, 0.999):
                    c = GeodeticWorldCoordinate([math.radians(lon0 + fx), math.radians(lat0 + fy), 12345.0])
                    ctx.call(dem.set_elevation, c)
                    x, y = (lon0 + fx - gt[0]) / gt[1], (lat0 + fy - gt[3]) / gt[5]
                    want = bilinear(array, x, y)
                    ctx.check(
                        abs(float(c.elevation) - want) < 1e-9 * max(1, abs(want)) + 1e-7,
                        "wrong elevation between the posts",
                        at=(fx, fy),
                        got=c.elevation,
                        want=want,
                    )
                    # the interpolated surface stays within the summary of the region
                    s = ctx.call(dem.describe_region, c)
                    if case["nodata"] is None:
                        ctx.check(
                            s.min_elevation - 1e-5 <= float(c.elevation) <= s.max_elevation + 1e-5,
                            "an elevation outside of the range given for its region",
                        )
                    ctx.state(case["values"], case["shape"], fx, fy)
            for lat, lon in ((lat0 + 1.5, lon0 + 0.5), (lat0 + 0.5, lon0 - 0.5), (70, 0), (-70, 10)):
                c = GeodeticWorldCoordinate([math.radians(lon), math.radians(lat), 77.0])
                ctx.call(dem.set_elevation, c)
                ctx.check(c.elevation == 77.0, "an elevation for a place without a tile", got=c.elevation)
                ctx.check(ctx.call(dem.describe_region, c) is None, "a summary for a place without a tile")
    finally:
        remove(directory)


def arrays(quick):
    def gen():
        for shape in ([2, 2], [3, 2], [2, 3], [3, 3]):
            n = shape[0] * shape[1]
            alphabet = (-10, 0, 250) if n == 4 else (0, 100)
            for i, values in enumerate(itertools.product(alphabet, repeat=n)):
                if n == 9 and quick and i % 16:
                    continue
                place = list(GTS)[i % 3]
                yield {
                    "shape": shape,
                    "values": list(values),
                    "type": ("Int16", "Float32")[i % 2],
                    "place": place,
                    "nodata": None,
                    "exceptions": i % 4 < 2,
                }
        for t in ("Float32", "Float64"):  # posts that are not whole numbers
            for shape in ([4, 3], [3, 4], [2, 6]):
                for place in GTS:
                    for exc in (True, False):
                        yield {
                            "shape": shape,
                            "values": [3.25, 14.0625, 1234.56789, -92.75, 0.1, 35.9999, 8848.86, -430.5, 0.5, 0.25, 46.3, -2.6],
                            "type": t,
                            "place": place,
                            "nodata": None,
                            "exceptions": exc,
                        }
        for t in ("Byte", "UInt16", "Int16", "Int32", "Float32", "Float64"):
            for place in GTS:
                for nodata in (None, 255):
                    for exc in (True, False):
                        yield {
                            "shape": [4, 3],
                            "values": [3, 14, 15, 92, 65, 35, 89, 79, 32, 38, 46, 26],
                            "type": t,
                            "place": place,
                            "nodata": nodata,
                            "exceptions": exc,
                        }

    return gen


VOID_VALUES = {"Int16": [-32767, 0, -32768], "Float32": [-3.4028234663852886e38, -9999.0, float("nan")], "Float64": [1e30, float("nan")], "Byte": [255, 0], "Int32": [-9999]}


def run_voids(ctx, case):
    """Posts without an elevation do not take part: what is next to them is left alone or gets the elevation of the others."""
    w, h = case["shape"]
    dtype, void = case["type"], case["void"]
    array = np.array([20 + 17 * ((5 * i) % (w * h)) for i in range(w * h)], dtype=float).reshape(h, w)
    holes = np.array([bool(case["holes"] >> i & 1) for i in range(w * h)]).reshape(h, w)
    posts = np.where(holes, void, array)
    gt = GTS["ne"](w, h)
    directory = data.fresh()
    # not a number is a void even where the file does not say so
    declared = void if case["declared"] else None
    write(f"{directory}/t.tif", posts, dtype, gt, declared)
    try:
        with exceptions(case["exceptions"]):
            dem = DigitalElevationModel(GenericDEMTileSet("t.tif"), GDALDigitalElevationModelTileFactory(directory))
            for x, y in itertools.product(sorted({i + f for i in range(w) for f in (0.0, 0.3, 0.5, 0.9)}), sorted({i + f for i in range(h) for f in (0.0, 0.4, 0.5, 0.95)})):
                if x > w - 1 or y > h - 1:
                    continue
                near = {(min(max(r, 0), h - 1), min(max(k, 0), w - 1)) for r in {math.floor(y), math.ceil(y)} for k in {math.floor(x), math.ceil(x)}}
                valid = [array[p] for p in near if not holes[p]]
                c = GeodeticWorldCoordinate([math.radians(gt[0] + x * gt[1]), math.radians(gt[3] + y * gt[5]), 7777.0])
                ctx.call(dem.set_elevation, c)
                got = float(c.elevation)
                if len(valid) == len(near):
                    want = bilinear(array, x, y)
                    ctx.check(abs(got - want) < 0.02, "wrong elevation between the posts", at=(x, y), got=got, want=want)
                elif got != 7777.0:
                    ctx.check(bool(valid) and min(valid) - 0.02 <= got <= max(valid) + 0.02, "a void was taken for an elevation", at=(x, y), got=got, valid=valid)
                ctx.state(case["shape"], case["holes"], x, y)
            summary = ctx.call(dem.describe_region, GeodeticWorldCoordinate([math.radians(34.5), math.radians(47.5), 0.0]))
            if holes.all():
                ctx.check(summary is None, "a summary without a post")
            else:
                ctx.check((summary.min_elevation, summary.max_elevation) == (array[~holes].min(), array[~holes].max()), "the summary does not give the lowest and highest elevation", summary=summary)
                told = summary.no_data_value
                ctx.check(told == declared or (told is not None and declared is not None and math.isnan(told) and math.isnan(declared)), "wrong no data value", summary=summary)
    finally:
        remove(directory)


def voids(quick):
    def gen():
        for shape in ([2, 2], [3, 2], [2, 3], [3, 3]):
            n = shape[0] * shape[1]
            for dtype, values in VOID_VALUES.items():
                for void in values:
                    if n > 4 and (dtype, void) != ("Int16", -32767) and quick:
                        continue
                    for holes in range(1, 2**n):
                        for declared in (True, False) if math.isnan(void) else (True,):
                            yield {"shape": shape, "type": dtype, "void": void, "holes": holes, "declared": declared, "exceptions": holes % 2 == 0}

    return gen


def run_peak(ctx, case):
    """One post that differs from all the others is found wherever it is."""
    w, h = case["shape"]
    array = np.zeros((h, w), dtype=np.int16)
    array[case["row"], case["col"]] = case["value"]
    gt = GTS["ne"](w, h)
    directory = data.fresh()
    write(f"{directory}/t.tif", array, "Int16", gt)
    try:
        factory = GDALDigitalElevationModelTileFactory(directory)
        with exceptions(True):
            check_tile(ctx, ctx.call(factory.get_tile, "t.tif"), array, "Int16", gt, None)
        ctx.state(case["row"], case["col"], case["value"])
    finally:
        remove(directory)


def peaks(quick):
    def gen():
        n = 1201 if not quick else 301
        places = sorted({0, 1, 2, 3, 7, n // 2, n // 2 + 1, n - 2, n - 1} | {i * 37 % n for i in range(5 if quick else 40)})
        for row in places:
            for col in places:
                for value in (900, -900):
                    yield {"shape": [n, n], "row": row, "col": col, "value": value}

    return gen


def run_unusable(ctx, case):
    directory = data.fresh()
    path = f"{directory}/x.tif"
    if case["what"] == "no georeference":
        write(path, [[1, 2], [3, 4]], "Int16", None)
    elif case["what"] == "all void":
        write(path, [[7, 7], [7, 7]], "Int16", GTS["ne"](2, 2), 7)
    elif case["what"] == "flat geo transform":
        write(path, [[1, 2], [3, 4]], "Int16", [34.0, 0.5, 0.0, 48.0, 0.0, 0.0])
    elif case["what"] == "not an image":
        gdal.FileFromMemBuffer(path, b"this is no image at all" * 10)
    elif case["what"] == "empty":
        gdal.FileFromMemBuffer(path, b"")
    try:
        with exceptions(case["exceptions"]):
            factory = GDALDigitalElevationModelTileFactory(directory)
            result = ctx.call(factory.get_tile, "x.tif")
            ctx.check(tuple(result) == (None, None, None), "something was made out of nothing", result=result)
            dem = DigitalElevationModel(GenericDEMTileSet("x.tif"), factory)
            for _ in range(case["times"]):
                c = GeodeticWorldCoordinate([0.5, 0.5, 3.25])
                ctx.call(dem.set_elevation, c)
                ctx.check(list(c.coordinate) == [0.5, 0.5, 3.25], "the location was changed", c=c)
                ctx.check(ctx.call(dem.describe_region, c) is None, "a summary without a tile")
            ctx.state(case["what"], case["exceptions"])
    finally:
        remove(directory)


LAYOUTS = {
    "tiled": ("GTiff", ["TILED=YES", "BLOCKXSIZE=16", "BLOCKYSIZE=16"]),
    "rows": ("GTiff", ["BLOCKYSIZE=1"]),
    "lzw": ("GTiff", ["COMPRESS=LZW", "PREDICTOR=2"]),
    "big": ("GTiff", ["BIGTIFF=YES", "ENDIANNESS=BIG"]),
    "bands": ("GTiff", []),
    "pixel": ("GTiff", ["INTERLEAVE=PIXEL"]),
    "overviews": ("GTiff", ["TILED=YES", "BLOCKXSIZE=16", "BLOCKYSIZE=16"]),
    "envi": ("ENVI", []),
    "hfa": ("HFA", []),
    "vrt": ("VRT", []),
    "png": ("PNG", ["WORLDFILE=YES"]),
    "dted": ("DTED", []),
    "hgt": ("SRTMHGT", []),
    "ascii": ("AAIGrid", []),
}
TRANSFORMS = {
    "north-up": lambda w, h: [34.0, 1.0 / (w - 1), 0.0, 48.0, 0.0, -1.0 / (h - 1)],
    "south-up": lambda w, h: [34.0, 1.0 / (w - 1), 0.0, 47.0, 0.0, 1.0 / (h - 1)],
    "east-left": lambda w, h: [35.0, -1.0 / (w - 1), 0.0, 48.0, 0.0, -1.0 / (h - 1)],
    "turned": lambda w, h: [34.0, 0.0, 1.0 / (h - 1), 47.0, 1.0 / (w - 1), 0.0],
    "sheared": lambda w, h: [33.9, 1.2 / (w - 1), 0.1 / (h - 1), 48.2, -0.15 / (w - 1), -1.3 / (h - 1)],
}


def run_layout(ctx, case):
    """The same posts in another layout of the file or another orientation give the same elevations."""
    driver, options = LAYOUTS[case["layout"]]
    w, h = case["shape"]
    dtype = case["type"]
    row, col = np.mgrid[0:h, 0:w]
    array = ((row * 37 + col * 11 + (row * col) % 7) % 251).astype(data.NP[dtype])
    gt = TRANSFORMS[case["transform"]](w, h)
    directory = data.fresh()
    name = "N47E034.hgt" if driver == "SRTMHGT" else "n47_e034_1arc_v3.x"
    if driver == "PNG":
        name = "n47_e034_1arc_v3.png"
    planes = [array]
    if case["layout"] in ("bands", "pixel"):
        planes += [array[::-1], array + 1]
    src = data.mem_dataset(np.array(planes), dtype)
    src.SetGeoTransform(outline(gt))
    if case["meaning"]:
        src.SetMetadataItem("AREA_OR_POINT", case["meaning"])
    if case["srs"]:
        from osgeo import osr

        srs = osr.SpatialReference()
        srs.ImportFromEPSG(4326)
        srs.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
        src.SetSpatialRef(srs)
    if driver == "VRT":
        src = gdal.GetDriverByName("GTiff").CreateCopy(f"{directory}/posts.tif", src)
        src.FlushCache()
    out = gdal.GetDriverByName(driver).CreateCopy(f"{directory}/{name}", src, options=options)
    ctx.check(out is not None, "harness: the file cannot be written")
    if case["layout"] == "overviews":
        out.BuildOverviews("AVERAGE", [2, 4])
    out = None
    files = sorted(gdal.ReadDirRecursive(directory))
    try:
        tile_set = GenericDEMTileSet(name)
        with exceptions(case["exceptions"]):
            factory = ctx.call(GDALDigitalElevationModelTileFactory, directory)
            got, model, summary = ctx.call(factory.get_tile, name)
            ctx.check(np.array_equal(got, array), "wrong elevations")
            ctx.check(
                (summary.min_elevation, summary.max_elevation) == (array.min(), array.max()),
                "the summary does not give the lowest and highest elevation",
                summary=summary,
            )
            dem = ctx.call(DigitalElevationModel, tile_set, factory)
            for fx in (0.01, 0.3, 0.5, 0.77, 0.99):
                for fy in (0.01, 0.2, 0.5, 0.61, 0.99):
                    lon, lat = 34 + fx, 47 + fy
                    det = gt[1] * gt[5] - gt[2] * gt[4]
                    x = (gt[5] * (lon - gt[0]) - gt[2] * (lat - gt[3])) / det
                    y = (-gt[4] * (lon - gt[0]) + gt[1] * (lat - gt[3])) / det
                    c = GeodeticWorldCoordinate([math.radians(lon), math.radians(lat), 12345.0])
                    ctx.call(dem.set_elevation, c)
                    ctx.check(
                        abs(float(c.elevation) - bilinear(array, x, y)) < 1e-4,
                        "wrong elevation between the posts",
                        at=(fx, fy),
                        got=c.elevation,
                        want=bilinear(array, x, y),
                    )
            ctx.check(sorted(gdal.ReadDirRecursive(directory)) == files, "reading elevations left files behind")
            # the posts themselves
            for r, k in itertools.product(sorted({0, 1, h // 2, h - 1}), sorted({0, 1, w // 2, w - 1})):
                lon, lat = gt[0] + k * gt[1] + r * gt[2], gt[3] + k * gt[4] + r * gt[5]
                c = GeodeticWorldCoordinate([math.radians(lon), math.radians(lat), 12345.0])
                ctx.call(dem.set_elevation, c)
                ctx.check(abs(float(c.elevation) - array[r, k]) < 1e-4, "not the elevation of the post", post=(r, k), got=c.elevation, want=array[r, k])
            ctx.state(case["layout"], case["shape"], case["transform"])
    finally:
        out = src = None
        remove(directory)


def layouts(quick):
    def gen():
        for layout, (driver, _) in LAYOUTS.items():
            if driver == "DTED":
                shapes, transforms, types = [[121, 121]], ["north-up"], ["Int16"]
            elif driver == "SRTMHGT":
                shapes, transforms, types = [[1201, 1201]], ["north-up"], ["Int16"]
            elif driver == "AAIGrid":
                shapes, transforms, types = [[21, 21]], ["north-up"], ["Int16"]
            else:
                shapes = [[40, 25], [7, 52], [2, 2]]
                transforms = list(TRANSFORMS)
                types = ["Byte", "Int16", "Float32"]
            if driver == "PNG":
                types = ["Byte", "UInt16"]
            for shape in shapes:
                if layout == "overviews" and shape == [2, 2]:
                    continue
                for t in transforms:
                    if driver in ("HFA", "ENVI") and t in ("turned", "sheared", "south-up", "east-left"):
                        continue
                    for dtype in types:
                        for srs in (False, True):
                            if driver in ("DTED", "SRTMHGT") and not srs:
                                continue
                            for exc in (True, False):
                                for meaning in (["Area", "Point"] if driver == "GTiff" else [None]):
                                    yield {"layout": layout, "shape": shape, "transform": t, "type": dtype, "srs": srs, "exceptions": exc, "meaning": meaning}

    return gen


def run_damaged(ctx, case):
    """Every prefix of a file is either the tile or no tile."""
    array = np.array([[3, 14, 15], [92, 65, 35]], dtype=np.int16)
    gt = GTS["ne"](3, 2)
    directory = data.fresh()
    write(f"{directory}/x.tif", array, "Int16", gt)
    try:
        f = gdal.VSIFOpenL(f"{directory}/x.tif", "rb")
        content = bytes(gdal.VSIFReadL(1, 1 << 20, f))
        gdal.VSIFCloseL(f)
        factory = GDALDigitalElevationModelTileFactory(directory)
        dem = DigitalElevationModel(GenericDEMTileSet("t.tif"), factory)
        with exceptions(case["exceptions"]):
            for n in range(len(content) + 1):
                gdal.FileFromMemBuffer(f"{directory}/t.tif", content[:n])
                got, model, summary = ctx.call(factory.get_tile, "t.tif")
                ctx.check(
                    (got is None) == (model is None) == (summary is None), "half of a tile", length=n, result=(got, model, summary)
                )
                ctx.check(got is not None or n < len(content), "a tile that exists was not loaded")
                if got is not None:
                    check_tile(ctx, (got, model, summary), array, "Int16", gt, None)
                else:
                    c = GeodeticWorldCoordinate([math.radians(34.5), math.radians(47.5), 3.25])
                    dem = DigitalElevationModel(GenericDEMTileSet("t.tif"), factory)
                    ctx.call(dem.set_elevation, c)
                    ctx.check(c.elevation == 3.25, "an elevation out of a damaged file", length=n, got=c.elevation)
                    ctx.check(ctx.call(dem.describe_region, c) is None, "a summary out of a damaged file", length=n)
                ctx.state(n, got is None)
                gdal.Unlink(f"{directory}/t.tif")
    finally:
        remove(directory)


def run_s3(ctx, case):
    """A tile directory in cloud storage is read through GDAL's S3 file system (a server on the loopback interface)."""
    import http.server
    import threading

    array = np.array([[3, 14, 15], [92, 65, 35]], dtype=np.int16)
    gt = GTS["ne"](3, 2)
    directory = data.fresh()
    write(f"{directory}/x.tif", array, "Int16", gt)
    f = gdal.VSIFOpenL(f"{directory}/x.tif", "rb")
    content = bytes(gdal.VSIFReadL(1, 1 << 20, f))
    gdal.VSIFCloseL(f)
    remove(directory)
    key = case["key"]
    wanted = f"/{case['root'][5:]}/{key}"
    asked = []

    class Handler(http.server.BaseHTTPRequestHandler):
        def answer(self, body):
            asked.append(self.path)
            if self.path.split("?")[0] != wanted or not case["present"]:
                self.send_response(404)
                self.send_header("Content-Length", "0")
                self.end_headers()
                return
            start, end = 0, len(content) - 1
            rng = self.headers.get("Range")
            if rng:
                a, b = rng.split("=")[1].split("-")
                start, end = int(a), min(int(b or end), end)
                self.send_response(206)
                self.send_header("Content-Range", f"bytes {start}-{end}/{len(content)}")
            else:
                self.send_response(200)
            self.send_header("Content-Length", str(end - start + 1))
            self.end_headers()
            if body:
                self.wfile.write(content[start : end + 1])

        def do_GET(self):
            self.answer(True)

        def do_HEAD(self):
            self.answer(False)

        def log_message(self, *a):
            pass

    server = http.server.ThreadingHTTPServer(("127.0.0.1", 0), Handler)
    threading.Thread(target=server.serve_forever, daemon=True).start()
    options = {
        "AWS_S3_ENDPOINT": f"127.0.0.1:{server.server_address[1]}",
        "AWS_HTTPS": "NO",
        "AWS_VIRTUAL_HOSTING": "FALSE",
        "AWS_NO_SIGN_REQUEST": "YES",
        "AWS_EC2_METADATA_DISABLED": "true",
        "GDAL_DISABLE_READDIR_ON_OPEN": "EMPTY_DIR",
        "GDAL_HTTP_MAX_RETRY": "0",
        "GDAL_HTTP_TIMEOUT": "20",
        "GDAL_HTTP_PROXY": "",
        "CPL_VSIL_CURL_NON_CACHED": "/vsis3/",
        "NO_PROXY": "127.0.0.1",
    }
    try:
        with exceptions(case["exceptions"]), gdal.config_options(options):
            factory = ctx.call(GDALDigitalElevationModelTileFactory, case["root"])
            result = ctx.call(factory.get_tile, key)
            if case["present"]:
                check_tile(ctx, result, array, "Int16", gt, None)
            else:
                ctx.check(tuple(result) == (None, None, None), "something was made out of nothing", result=result)
            ctx.check(any(a.split("?")[0] == wanted for a in asked), "the object was not asked for", asked=asked[:5])
        ctx.state(case["root"], key, case["present"])
    finally:
        server.shutdown()
        server.server_close()
        gdal.VSICurlClearCache()


def run_mosaic(ctx, case):
    """Neighbouring tiles: each location is looked up in its own tile."""
    directory = data.fresh()
    cells = [(lat, lon) for lat in (-2, -1, 0, 1) for lon in (-2, -1, 0, 1)]
    present = [c for i, c in enumerate(cells) if case["present"] >> i & 1]
    for lat, lon in present:
        array = np.array([[0, 1], [2, 3]], dtype=np.int16) + 100 * (lat + 2) + 10 * (lon + 2)
        name = f"{'s' if lat < 0 else 'n'}{abs(lat):02d}_{'w' if lon < 0 else 'e'}{abs(lon):03d}_1arc_v3.tif"
        write(f"{directory}/{name}", array, "Int16", [float(lon), 1.0, 0.0, lat + 1.0, 0.0, -1.0])
    try:
        with exceptions(True):
            dem = DigitalElevationModel(SRTMTileSet(), GDALDigitalElevationModelTileFactory(directory), case["cache"])
            for lat, lon in cells + cells[::-1]:
                for fx, fy in ((0.25, 0.5), (0.999, 0.001), (0.001, 0.999)):
                    c = GeodeticWorldCoordinate([math.radians(lon + fx), math.radians(lat + fy), -1.0])
                    ctx.call(dem.set_elevation, c)
                    want = 100 * (lat + 2) + 10 * (lon + 2) + fx + 2 * (1 - fy) if (lat, lon) in present else -1.0
                    ctx.check(abs(float(c.elevation) - want) < 1e-5, "wrong elevation", lat=lat, lon=lon, got=c.elevation, want=want)
            ctx.state(case["present"], case["cache"])
    finally:
        remove(directory)


def run_place(ctx, case):
    """Tiles all over the world, whose posts are on the edges of the cell, beyond them or within them."""
    lat0, lon0 = case["cell"]
    w, h = case["shape"]
    r, c = np.meshgrid(np.arange(h), np.arange(w), indexing="ij")
    array = ((r * 37 + c * 101 + r * c * 7) % 900 - 200).astype(np.int16)
    gt = {
        "edges": lambda: [lon0, 1.0 / (w - 1), 0.0, lat0 + 1.0, 0.0, -1.0 / (h - 1)],
        "beyond": lambda: [lon0 - 0.5 / w, 1.0 / w, 0.0, lat0 + 1.0 + 0.5 / h, 0.0, -1.0 / h],
        "within": lambda: [lon0 + 0.5 / w, 1.0 / w, 0.0, lat0 + 1.0 - 0.5 / h, 0.0, -1.0 / h],
    }[case["posts"]]()
    directory = data.fresh()
    folder = f"{directory}/{abs(lon0):03d}{'w' if lon0 < 0 else 'e'}"
    gdal.Mkdir(directory, 0o777), gdal.Mkdir(folder, 0o777)
    write(f"{folder}/{abs(lat0):02d}{'s' if lat0 < 0 else 'n'}.dt2", array, "Int16", gt)
    try:
        with exceptions(True):
            dem = ctx.call(DigitalElevationModel, GenericDEMTileSet(), GDALDigitalElevationModelTileFactory(directory))
            for fx in (0.001, 0.02, 0.3, 0.5, 0.77, 0.98, 0.999):
                for fy in (0.001, 0.02, 0.3, 0.5, 0.77, 0.98, 0.999):
                    for old in (0.0, -55.5, 8000.0):
                        at = GeodeticWorldCoordinate([math.radians(lon0 + fx), math.radians(lat0 + fy), old])
                        ctx.call(dem.set_elevation, at)
                        want = bilinear(array, (lon0 + fx - gt[0]) / gt[1], (lat0 + fy - gt[3]) / gt[5])
                        ctx.check(abs(float(at.elevation) - want) < 1e-4, "wrong elevation between the posts", at=(fx, fy), got=at.elevation, want=want)
                        ctx.check(
                            abs(math.degrees(at.longitude) - lon0 - fx) < 1e-12 * 180 and abs(math.degrees(at.latitude) - lat0 - fy) < 1e-12 * 90,
                            "the location was changed",
                        )
            ctx.state(case["cell"], case["shape"], case["posts"])
    finally:
        remove(directory)


def place_cases():
    for lat in (-90, -72, -60, -1, 0, 33, 60, 75, 84, 89):
        for lon in (-180, -179, -100, -1, 0, 99, 170, 179):
            for shape in ([2, 2], [7, 5], [40, 31]):
                for posts in ("edges", "beyond", "within"):
                    yield {"cell": [lat, lon], "shape": shape, "posts": posts}


def spaces(tier):
    quick = tier == "quick"
    return [
        Space("arrays", arrays(quick), run_arrays, bound="all arrays of 2x2 posts over 3 values, 2x3, 3x2 and (a 16th of, thorough all) 3x3 over 2"),
        Space("places", lambda: place_cases(), run_place, bound="cells at 10 latitudes and 8 longitudes, 3 shapes, posts on, beyond and within the edges of the cell"),
        Space("peaks", peaks(quick), run_peak, bound="one extreme post at every pair of chosen rows and columns of 301x301 (1201x1201)"),
        Space(
            "unusable",
            lambda: product(
                what=["missing", "no georeference", "not an image", "empty", "all void", "flat geo transform"],
                exceptions=[True, False], times=[1, 2]
            ),
            run_unusable,
            bound="6 reasons, both GDAL error modes",
        ),
        Space("layouts", layouts(quick), run_layout, bound="14 file layouts x orientations x shapes x pixel types"),
        Space("voids", voids(quick), run_voids, bound="every set of void posts in tiles of 2x2 to 3x3 posts, no-data values of 5 pixel types"),
        Space("damaged", lambda: product(exceptions=[True, False]), run_damaged, bound="every prefix of a tile's file"),
        Space(
            "s3",
            lambda: product(
                root=["s3://bucket", "s3://bucket/srtm", "s3://my-bucket/dem/srtm"],
                key=["x.tif", "n47_e034_1arc_v3.tif", "47/34.tif"],
                present=[True, False],
                exceptions=[True, False],
            ),
            run_s3,
            bound="3 roots x 3 names on a local S3 server, present and missing",
        ),
        Space(
            "mosaic",
            lambda: product(present=range(0, 65536, 257) if quick else range(0, 65536, 17), cache=[1, 3, 20]),
            run_mosaic,
            bound="sets of present tiles of a 4x4 degree area around (0,0)",
        ),
    ]
