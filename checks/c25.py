"""C25: an orthophoto tile shows, at every pixel, the image at the place the sensor model assigns to that pixel."""

import math

import cv2
import numpy as np
from osgeo import gdal

from mc import data
from mc.core import Space, product

from aws.osml.gdal import GDALImageFormats as Fmt
from aws.osml.image_processing import GDALTileFactory, MapTileId, MapTileSetFactory
from aws.osml.photogrammetry import GeodeticWorldCoordinate, ImageCoordinate, SensorModel

gdal.UseExceptions()
gdal.PushErrorHandler("CPLQuietErrorHandler")

NOTES = {
    "assumptions": [
        "cv2.remap interpolates linearly on 1/32 of a pixel",
        "between one and three source pixels outside of the image the tile may show anything",
        "tiles of at least 2x2 pixels and a non-empty bounding box",
    ]
}

LON, LAT, STEP = 12.0, 34.0, 1e-4
HEIGHT = 250.0


class Camera(SensorModel):
    """pixel = M * ((lon, lat) - origin) / step, shifted with the elevation; optionally curved."""

    def __init__(self, matrix, origin, curve=0.0, limit=None, place=(LON, LAT), step=STEP):
        super().__init__()
        self.lon, self.lat = place
        self.step = step
        self.m, self.o, self.curve, self.limit = matrix, origin, curve, limit

    def image_to_world(self, image_coordinate, elevation_model=None, options=None):
        # only the elevation matters for orthophotos; it depends on the place in the image
        return GeodeticWorldCoordinate([math.radians(self.lon), math.radians(self.lat), HEIGHT + image_coordinate.x - 2 * image_coordinate.y])

    def pixel(self, lon, lat, h, center):
        a, b = (lon - self.lon) / self.step, (lat - self.lat) / self.step
        x = self.m[0] * a + self.m[1] * b + self.o[0] + self.curve * a * a
        y = self.m[2] * a + self.m[3] * b + self.o[1] - self.curve * b * b
        dh = h - (HEIGHT + center[0] - 2 * center[1])
        return x + 3 * dh, y - 2 * dh

    def world_to_image(self, world_coordinate):
        lon, lat = math.degrees(world_coordinate.longitude), math.degrees(world_coordinate.latitude)
        if self.limit is not None and abs(lon - self.lon) > self.limit:
            raise RuntimeError("far away from the image")
        return ImageCoordinate(self.pixel(lon, lat, world_coordinate.elevation, self.center))


C30, S30 = math.cos(math.pi / 6), math.sin(math.pi / 6)
SHAPES = {
    "north": (1, 0, 0, -1),
    "flip": (-1, 0, 0, 1),
    "turned": (0, 1, 1, 0),
    "rotated": (C30, S30, S30, -C30),
    "stretched": (2, 0, 0, -0.5),
    "skewed": (1, 0.4, -0.2, -1),
}


def ramp(width, height, bands, level=0):
    x, y = np.meshgrid(np.arange(width) * 2**level, np.arange(height) * 2**level)
    planes = [20 + x + 0.5 * y, 120 - 0.5 * x + y, 30 + 0.5 * x + 0.75 * y, 200 - 0 * x]
    return np.clip(np.floor(np.stack(planes[:bands]) + 40 * level), 1, 255).astype(np.uint8)


def noise(width, height, bands):
    i = np.arange(width * height * bands)
    return (1 + (i * 7919 + i * i * 31) % 255).astype(np.uint8).reshape(bands, height, width)


_cache = {}


def factory(ctx, case):
    key = (case["pattern"], tuple(case["size"]), case["bands"], case["levels"], case["shape"], tuple(case["origin"]), case.get("curve", 0.0), case.get("limit"), tuple(case["place"]), case["dtype"], case["step"])
    if key in _cache:
        return _cache[key]
    if len(_cache) > 40:
        names = [v[3] for v in _cache.values()]
        _cache.clear()
        for n in names:
            gdal.GetDriverByName("GTiff").Delete(n)
    width, height = case["size"]
    levels = []
    array = ramp(width, height, case["bands"]) if case["pattern"] == "ramp" else noise(width, height, case["bands"])
    name = data.file_dataset(array.astype(data.NP[case["dtype"]]), case["dtype"], "GTiff")
    levels.append(array)
    if case["levels"]:
        ds = gdal.Open(name, gdal.GA_Update)
        ds.BuildOverviews("NEAREST", [2 ** (i + 1) for i in range(case["levels"])])
        for i in range(case["levels"]):
            for b in range(case["bands"]):
                ov = ds.GetRasterBand(b + 1).GetOverview(i)
                content = ramp(ov.XSize, ov.YSize, case["bands"], i + 1)
                ov.WriteArray(content[b].astype(data.NP[case["dtype"]]))
            levels.append(content)
        ds = None
    ds = gdal.Open(name)
    model = Camera(SHAPES[case["shape"]], case["origin"], case.get("curve", 0.0), case.get("limit"), case["place"], case["step"])
    model.center = (width / 2, height / 2)
    f = ctx.call(GDALTileFactory, ds, model, tile_format=Fmt.PNG)
    _cache[key] = (f, model, levels, name, ds)
    return _cache[key]


def decode(ctx, encoded, tile):
    image = cv2.imdecode(np.frombuffer(bytes(encoded), np.uint8), cv2.IMREAD_UNCHANGED)
    ctx.check(image is not None, "not a readable image")
    ctx.check(bytes(encoded)[:8] == b"\x89PNG\r\n\x1a\n", "not a PNG")
    ctx.check(image.shape == (tile[1], tile[0], 4) and image.dtype == np.uint8, "not of the requested size", shape=image.shape)
    return image[:, :, [2, 1, 0, 3]]


def bilinear(plane, u, v):
    h, w = plane.shape
    u, v = min(max(u, 0.0), w - 1.0), min(max(v, 0.0), h - 1.0)
    i, j = min(int(u), max(w - 2, 0)), min(int(v), max(h - 2, 0))
    a, b = u - i, v - j
    i2, j2 = min(i + 1, w - 1), min(j + 1, h - 1)
    p = plane.astype(np.float64)
    value = (p[j, i] * (1 - a) + p[j, i2] * a) * (1 - b) + (p[j2, i] * (1 - a) + p[j2, i2] * a) * b
    window = p[max(j - 1, 0) : j2 + 2, max(i - 1, 0) : i2 + 2]
    return value, float(window.max() - window.min())


def locations(model, bbox, tile):
    """Source position of every pixel of the tile."""
    w, h = tile
    xs = np.empty((h, w))
    ys = np.empty((h, w))
    for r in range(h):
        for c in range(w):
            lon = bbox[0] + (bbox[2] - bbox[0]) * c / (w - 1)
            lat = bbox[3] - (bbox[3] - bbox[1]) * r / (h - 1)
            center = model.center
            xs[r, c], ys[r, c] = model.pixel(lon, lat, HEIGHT + center[0] - 2 * center[1], center)
    return xs, ys


def run(ctx, case):
    f, model, levels, _, _ = factory(ctx, case)
    (lon, lat), step = case["place"], case["step"]
    bbox = [lon + case["bbox"][0] * step, lat + case["bbox"][1] * step, lon + case["bbox"][2] * step, lat + case["bbox"][3] * step]
    tile = tuple(case["tile"])
    width, height = case["size"]
    encoded = ctx.call(f.create_orthophoto_tile, tuple(math.radians(v) for v in bbox), tile)
    xs, ys = locations(model, bbox, tile)
    apart = max(xs.min() - width, -xs.max(), ys.min() - height, -ys.max())
    if case.get("limit") is not None:
        ctx.check(encoded is None, "a tile from a place the sensor model does not reach")
        return
    if apart > 0.6:
        ctx.check(encoded is None, "a tile of a place outside of the image", x=(xs.min(), xs.max()), y=(ys.min(), ys.max()))
        ctx.state("outside", case["bbox"])
        return
    within = xs.min() >= 0 and xs.max() <= width and ys.min() >= 0 and ys.max() <= height
    if apart > -1.1 and not within:
        return  # touching: with or without a tile
    ctx.check(encoded is not None, "no tile of a place in the image", x=(xs.min(), xs.max()), y=(ys.min(), ys.max()))
    image = decode(ctx, encoded, tile)
    ctx.state(case["shape"], case["tile"], image.tobytes())
    # the coarsest level that still has a pixel for every pixel of the tile
    least = min(xs.max() - xs.min(), ys.max() - ys.min())
    wanted = {min(max(int(math.floor(math.log2(max(d, 1e-9) / tile[0]))), 0), len(levels) - 1) for d in (least - 1e-6, least + 2)}
    slack = case.get("slack", 0.0)
    last = None
    for level in sorted(wanted):
        last = compare(image, levels[level], xs / 2**level, ys / 2**level, slack + (0.55 if level else 0.0))
        if last is None:
            return
    ctx.check(False, "the tile does not show the image at its place: " + last[0], **last[1])


def compare(image, planes, us, vs, slack):
    bands, h, w = planes.shape
    for r in range(image.shape[0]):
        for c in range(image.shape[1]):
            u, v = us[r, c], vs[r, c]
            out = max(-u, u - (w - 1), -v, v - (h - 1))
            got = image[r, c].astype(int)
            if out > 3.1 + slack:
                if got[3] != 0:
                    return "a pixel outside of the image is not transparent", {"pixel": (c, r), "source": (u, v), "got": got}
                continue
            if out > 1 - slack:
                continue
            if got[3] != 255:
                return "a pixel of the image is transparent", {"pixel": (c, r), "source": (u, v), "got": got}
            for channel in range(3):
                want, swing = bilinear(planes[channel if bands >= 3 else 0], u, v)
                tolerance = 1.5 + swing * (0.05 + slack)
                if abs(got[channel] - want) > tolerance:
                    return "another value", {"pixel": (c, r), "source": (u, v), "channel": channel, "got": got, "want": want, "tolerance": tolerance}
    return None


def base(**changes):
    case = {"pattern": "noise", "size": [24, 18], "bands": 1, "levels": 0, "shape": "north", "origin": [10.0, 8.0], "bbox": None, "tile": [8, 8], "place": [LON, LAT], "dtype": "Byte", "step": STEP}
    case.update(changes)
    return case


def boxes(values, least=2.0):
    for x0 in values:
        for x1 in values:
            if x1 - x0 >= least:
                for y0 in values:
                    for y1 in values:
                        if y1 - y0 >= least:
                            yield [x0, y0, x1, y1]


def windows(quick):
    def gen():
        values = [-40.0, -9.0, -3.25, 2.0, 7.5, 30.0] if quick else [-60.0, -25.0, -9.0, -3.25, 0.0, 2.0, 7.5, 13.0, 30.0]
        for shape in SHAPES:
            for i, bbox in enumerate(boxes(values)):
                for j, tile in enumerate(([8, 8], [2, 2], [3, 7], [16, 5])):
                    if quick and (i + j) % 2:
                        continue
                    yield base(shape=shape, bbox=bbox, tile=tile)

    return gen


def nearby():
    """Areas that end just before the image, or just reach it."""
    for shape in SHAPES:
        for x0, x1 in ((-40.0, -10.75), (-40.0, -8.5), (14.75, 40.0), (12.5, 40.0), (-8.0, 9.0), (-12.0, 16.0)):
            for y0, y1 in ((-40.0, -10.75), (-40.0, -8.5), (8.75, 40.0), (6.5, 40.0), (-8.0, 6.0)):
                for tile in ([8, 8], [5, 16]):
                    yield base(shape=shape, bbox=[x0, y0, x1, y1], tile=tile)


def inside():
    """Areas of a fraction of a source pixel, at the first and last pixels of the image and in its middle."""
    spots = lambda n: ((0.1, 0.9), (0.05, 0.35), (n - 1.9, n - 1.1), (n - 0.9, n - 0.2), (n / 2 + 0.3, n / 2 + 0.8))
    for shape in ("north", "flip", "turned"):
        m = SHAPES[shape]
        for x0, x1 in spots(24):
            for y0, y1 in spots(18):
                for tile in ([8, 8], [3, 5]):
                    corners = []
                    for x, y in ((x0 - 10.0, y0 - 8.0), (x1 - 10.0, y1 - 8.0)):
                        det = m[0] * m[3] - m[1] * m[2]
                        corners.append(((m[3] * x - m[1] * y) / det, (m[0] * y - m[2] * x) / det))
                    (a0, b0), (a1, b1) = corners
                    for pattern in ("noise", "ramp"):
                        yield base(shape=shape, pattern=pattern, bbox=[min(a0, a1), min(b0, b1), max(a0, a1), max(b0, b1)], tile=tile)


def colors():
    for bands in (1, 3, 4):
        for pattern in ("noise", "ramp"):
            for shape in ("north", "rotated"):
                for bbox in boxes([-9.0, -2.0, 6.0, 11.0]):
                    yield base(bands=bands, pattern=pattern, shape=shape, bbox=bbox, tile=[9, 6])


def resolutions(quick):
    def gen():
        for levels in (0, 1, 2, 3):
            for shape in ("north", "rotated", "flip", "stretched"):
                for size in ([96, 80],) if quick else ([96, 80], [97, 83], [64, 128]):
                    # tile sizes in both directions on areas of all sizes, inside of the image and across its edges
                    for tile in ([8, 8], [16, 8], [4, 12], [32, 32]):
                        for span in (6.0, 20.0, 45.0, 70.0, 150.0):
                            for x, y in ((0.0, 0.0), (-33.0, 9.0), (20.0, -25.0), (-70.0, -60.0)):
                                for aspect in (1.0, 0.7):
                                    yield base(
                                        pattern="ramp",
                                        bands=3,
                                        size=size,
                                        levels=levels,
                                        shape=shape,
                                        origin=[40.0, 36.0],
                                        tile=tile,
                                        bbox=[x - span / 2, y - span * aspect / 2, x + span / 2, y + span * aspect / 2],
                                    )

    return gen


def curved():
    """Cameras that are not linear: the tile follows them up to the error of a 3x3 grid of correspondences."""
    for curve in (0.002, 0.006, -0.004):
        for span in (20.0, 40.0, 60.0):
            for x, y in ((0.0, 0.0), (-5.0, 4.0), (8.0, -3.0)):
                for tile in ([16, 16], [31, 17]):
                    error = abs(curve) * (span / 2) ** 2 / 4  # |f''| h^2 / 8
                    yield base(
                        pattern="ramp",
                        bands=3,
                        size=[96, 80],
                        origin=[48.0, 40.0],
                        curve=curve,
                        # swing of the ramp is about 3 per 3 pixels
                        slack=error * 0.45 + 0.1,
                        bbox=[x - span / 2, y - span / 2, x + span / 2, y + span / 2],
                        tile=tile,
                    )


def unreachable():
    for limit in (0.0001, 0.001):
        for bbox in ([-30.0, -5.0, 5.0, 5.0], [-5.0, -5.0, 40.0, 5.0], [100.0, 100.0, 120.0, 120.0]):
            yield base(limit=limit, bbox=bbox)


def run_map(ctx, case):
    """Tiles of a well known tile set, as a map server requests them."""
    tiles = MapTileSetFactory.get_for_id("WebMercatorQuad")
    case = base(
        size=[96, 80],
        origin=[40.0, 36.0],
        pattern="ramp",
        bands=case["bands"],
        levels=case["levels"],
        shape=case["shape"],
        map=case["map"],
        place=case.get("place", [LON, LAT]),
    )
    lon, lat = case["place"]
    z, dr, dc = case["map"]
    n = 2**z
    col = int((lon + 180) / 360 * n) + dc
    y = math.log(math.tan(math.radians(lat)) + 1 / math.cos(math.radians(lat)))
    # rows of this tile set count from the south
    row = int((1 + y / math.pi) / 2 * n) + dr
    tile = ctx.call(tiles.get_tile, MapTileId(tile_matrix=z, tile_row=row, tile_col=col))
    b = [math.degrees(v) for v in tile.bounds]
    case["bbox"] = [(b[0] - lon) / STEP, (b[1] - lat) / STEP, (b[2] - lon) / STEP, (b[3] - lat) / STEP]
    case["tile"] = [64, 64]
    run(ctx, case)


def map_cases():
    for shape in ("north", "rotated"):
        for bands in (1, 3):
            for levels in (0, 2):
                for z in (14, 15, 16, 17, 18):
                    for dr in (-1, 0, 1):
                        for dc in (-1, 0, 1):
                            yield {"shape": shape, "bands": bands, "levels": levels, "map": [z, dr, dc]}


PLACES = [[-71.25, 42.5], [139.75, 35.5], [151.25, -33.5], [-68.5, -22.25], [0.0, 0.0], [18.5, 69.5], [-45.0, -78.25], [178.5, -17.75], [-179.25, 51.5], [5.0, 84.0]]


def places():
    for place in PLACES:
        for shape in ("north", "rotated", "flip"):
            for bbox in ([-4.0, -5.0, 9.0, 6.0], [-30.0, -30.0, 2.0, 1.0], [-60.0, 0.0, -20.0, 20.0], [3.0, -2.0, 20.0, 30.0]):
                for tile in ([8, 8], [5, 16]):
                    for bands in (1, 3):
                        yield base(place=place, shape=shape, bbox=bbox, tile=tile, bands=bands)
        for z in (15, 17):
            for dr in (-1, 0, 1):
                for dc in (-1, 0, 1):
                    yield {"shape": "north", "bands": 1, "levels": 1, "map": [z, dr, dc], "place": place}


def run_place(ctx, case):
    (run_map if case.get("map") else run)(ctx, case)


def types():
    for dtype in ("UInt16", "Int16", "UInt32", "Int32", "Float32", "Float64"):
        for bands in (1, 3, 4):
            for levels in (0, 2):
                for shape in ("north", "rotated"):
                    for span in (6.0, 30.0, 70.0):
                        for x, y in ((0.0, 0.0), (-33.0, 9.0)):
                            yield base(
                                pattern="ramp",
                                dtype=dtype,
                                bands=bands,
                                levels=levels,
                                size=[96, 80],
                                origin=[40.0, 36.0],
                                shape=shape,
                                bbox=[x - span / 2, y - span / 2, x + span / 2, y + span / 2],
                            )


def extents():
    """Images of more than 1000 pixels, tiles of more than 256 pixels, areas of more than a degree."""
    for size in ([1300, 200], [200, 1300], [18, 24]):
        w, h = size
        for shape in ("north", "flip", "turned"):
            for spot in (0.1, 0.5, 0.85):
                for levels in (0, 1):
                    x, y = w * spot, h * spot
                    for tile in ([8, 8], [6, 12]):
                        yield base(pattern="noise", size=size, shape=shape, origin=[x, y], levels=levels, tile=tile, bbox=[-3.5, -2.5, 2.25, 3.0])
    for tile in ([300, 40], [40, 300], [512, 260], [1030, 20]):
        for bbox in ([-8.0, -7.0, 9.0, 8.0], [-20.0, -14.0, 4.0, 5.0]):
            yield base(tile=tile, bbox=bbox)
    for step in (0.05, 0.5, 1e-7):
        for bbox in ([-8.0, -7.0, 9.0, 8.0], [-20.0, -14.0, 4.0, 5.0], [-60.0, -60.0, 60.0, 60.0]):
            for shape in ("north", "rotated"):
                yield base(step=step, bbox=bbox, shape=shape)


def spaces(tier):
    quick = tier == "quick"
    return [
        Space("windows", windows(quick), run, bound="6 orientations, all bounding boxes over 6 (9) values per side, 4 tile sizes"),
        Space("nearby", lambda: nearby(), run, bound="6 orientations, areas that end within a pixel of the image or reach into it"),
        Space("inside", lambda: inside(), run, bound="areas within a single pixel, at the edges and in the middle of the image"),
        Space("colors", lambda: colors(), run, bound="1, 3 and 4 bands, 2 orientations, all bounding boxes over 4 values per side"),
        Space("resolutions", resolutions(quick), run, bound="0 to 3 overviews, 4 orientations, 5 areas, 4 tile sizes, 4 places"),
        Space("curved", lambda: curved(), run, bound="3 curvatures, 3 areas, 3 places"),
        Space("places", lambda: places(), run_place, bound="10 places in all quadrants, at 84 degrees and next to the antimeridian"),
        Space("types", lambda: types(), run, bound="6 other pixel types, 1, 3 and 4 bands, with and without overviews"),
        Space("extents", lambda: extents(), run, bound="images of 1300 pixels in either direction, tiles of up to 1030 pixels, pixels from a centimetre to 0.5 degrees"),
        Space("unreachable", lambda: unreachable(), run, bound="places the sensor model refuses"),
        Space("map", lambda: map_cases(), run_map, bound="5 zoom levels, 3x3 tiles around the image"),
    ]
