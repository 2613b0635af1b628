"""C09: transform based sensor models (affine, projective, chipped, composite) are what they say and invert each other."""

import itertools
import math

import numpy as np
import pyproj

from mc.core import Space, product

from aws.osml.photogrammetry import (
    ChippedImageSensorModel,
    CompositeSensorModel,
    ConstantElevationModel,
    ElevationModel,
    GDALAffineSensorModel,
    GeodeticWorldCoordinate,
    ImageCoordinate,
    ProjectiveSensorModel,
    SensorModel,
    SensorModelOptions,
)

POINTS = [(0, 0), (100, 0), (100, 80), (0, 80), (33.3, 71.9), (-10, 5), (50.5, 40.5), (1e-3, 79.999), (12.625, -7.75), (-3.5, -2)]
FAR = [(20000.0, 100.0), (150.25, 30000.75), (70000.0, 65000.0), (-9000.5, -8000.0)]
HEIGHTS = (0.0, 1500.0, -400.0, 8800.0, 30.0)



OPTIONS = [{}, {"a": 1}, {SensorModelOptions.INITIAL_GUESS: [0.1, 0.2], SensorModelOptions.INITIAL_SEARCH_DISTANCE: 0.01}]


class Watch(ElevationModel):
    """An elevation model that depends on the location it is asked for."""

    def __init__(self):
        super().__init__()
        self.asked = []

    @staticmethod
    def at(lon, lat):
        return 1000.0 + 100 * math.sin(50 * lon) + 70 * math.cos(40 * lat)

    def set_elevation(self, c):
        self.asked.append((c.longitude, c.latitude))
        c.elevation = self.at(c.longitude, c.latitude)

    def describe_region(self, c):
        return None


def close_angle(a, b, tol):
    d = abs(a - b) % (2 * math.pi)
    return min(d, 2 * math.pi - d) <= tol


# -- affine ----------------------------------------------------------------------------------------------------------
GEO = {
    "north-up": (0.01, 0.0, 0.0, -0.01),
    "south-up": (0.01, 0.0, 0.0, 0.02),
    "mirrored": (-0.01, 0.0, 0.0, -0.01),
    "rotated": (0.006, 0.008, 0.008, -0.006),
    "sheared": (0.01, 0.004, 0.0, -0.01),
    "turned": (0.0, 0.01, 0.01, 0.0),
    "tiny": (1e-6, 0.0, 0.0, -1e-6),
}
# name -> (EPSG code or None, origin, metres per "degree" step, is the datum WGS84)
CRS = {
    "degrees": (None, [(10.0, 50.0), (-120.0, -33.0), (-0.5, 0.5), (179.0, 80.0), (0.0, 0.0), (-180.0, 89.5)], 1.0),
    "utm33n": (32633, [(500000.0, 5500000.0), (300000.0, 100000.0)], 1000.0),
    "utm19s": (32719, [(350000.0, 6300000.0)], 1000.0),
    "mercator": (3857, [(1113194.9, 6446275.8), (-13358338.9, -3895303.9)], 1000.0),
    "antarctic": (3031, [(500000.0, 800000.0)], 1000.0),
    "nad27": (26711, [(500000.0, 4000000.0)], 1000.0),
    "wgs84": (4326, [(10.0, 50.0)], 1.0),
}
_wkt = {}
_to_wgs84 = {}


def wkt(code):
    if code not in _wkt:
        _wkt[code] = pyproj.CRS.from_epsg(code).to_wkt()
    return _wkt[code]


def run_affine(ctx, case):
    code, origins, unit = CRS[case["crs"]]
    ox, oy = origins[case["origin"]]
    a, b, d, e = (v * unit for v in GEO[case["shape"]])
    gt = [ox, a, b, oy, d, e]
    given = list(gt)
    model = ctx.call(GDALAffineSensorModel, given, wkt(code)) if code else ctx.call(GDALAffineSensorModel, given)
    given[0] = 1e9  # the caller's list is the caller's
    if code and code != 4326 and code not in _to_wgs84:
        _to_wgs84[code] = pyproj.Transformer.from_crs(f"EPSG:{code}", "EPSG:4326", always_xy=True)
    for x, y in POINTS + (FAR if case["shape"] == "tiny" else []):
        if code is None and abs(oy + x * d + y * e) > 90:
            continue
        p = ImageCoordinate([x, y])
        w = ctx.call(model.image_to_world, p)
        ctx.check(list(p.coordinate) == [x, y], "the image coordinate was changed")
        ctx.check(float(w.elevation) == 0.0, "elevation without an elevation model", got=w.elevation)
        ex, ey = ox + x * a + y * b, oy + x * d + y * e
        if code in (None, 4326):
            lon, lat = ex, ey
        else:
            lon, lat = _to_wgs84[code].transform(ex, ey)
        tol = 1e-12 if code in (None, 4326) else 2e-11
        if case["crs"] == "nad27":
            tol = 5e-5  # the choice of the datum shift is that of the projection library
        ctx.check(
            close_angle(w.longitude, math.radians(lon), tol) and close_angle(w.latitude, math.radians(lat), tol),
            "the pixel is not where the geo transform puts it",
            pixel=(x, y),
            got=np.degrees(w.coordinate[:2]),
            want=(lon, lat),
        )
        for elevation in HEIGHTS:
            # the transform has no notion of height
            q = ctx.call(model.world_to_image, GeodeticWorldCoordinate([w.longitude, w.latitude, elevation]))
            # a nano pixel of a tiny pixel is below the resolution of a double
            limit = 1e-3 if case["shape"] == "tiny" or case["crs"] == "nad27" else 1e-6
            ctx.check(float(np.max(np.abs(q.coordinate - (x, y)))) < limit, "round trip", pixel=(x, y), got=q.coordinate)
        watch = Watch()
        w2 = ctx.call(model.image_to_world, ImageCoordinate([x, y]), elevation_model=watch)
        ctx.check(w2.longitude == w.longitude and w2.latitude == w.latitude, "the elevation model moved the location")
        ctx.check(w2.elevation == Watch.at(w.longitude, w.latitude), "elevation of another place", got=w2.elevation)
        for options in OPTIONS:
            w3 = ctx.call(model.image_to_world, ImageCoordinate([x, y]), Watch(), options)
            ctx.check(list(w3.coordinate) == list(w2.coordinate), "the search options matter", options=options)
            w3 = ctx.call(model.image_to_world, ImageCoordinate([x, y]), options=options)
            ctx.check(list(w3.coordinate) == list(w.coordinate), "the search options matter", options=options)
        ctx.state(case["crs"], case["origin"], case["shape"], x, y)


def affine_cases():
    for crs, (_, origins, _u) in CRS.items():
        for origin in range(len(origins)):
            for shape in GEO:
                if crs == "nad27" and shape == "tiny":
                    continue  # millimetre pixels are smaller than the error of the datum shift
                yield {"crs": crs, "origin": origin, "shape": shape}


def run_singular(ctx, case):
    ctx.state(case["gt"])
    ctx.call_raises(ValueError, GDALAffineSensorModel, case["gt"])


# -- projective ------------------------------------------------------------------------------------------------------
# homographies from the unit square to (longitude, latitude) degrees around a centre: matrix rows
SHAPES = {
    "square": ((1, 0, 0), (0, -1, 0), (0, 0)),
    "rotated": ((0.8, 0.6, 0), (0.6, -0.8, 0), (0, 0)),
    "oblique": ((1.2, 0.3, 0.1), (0.2, -0.9, 0.05), (0.1, 0.2)),
    "keystone": ((1.0, 0.0, 0.0), (0.0, -1.0, 0.0), (0.0, 0.3)),
    "mirrored": ((-1.0, 0.2, 0), (0.1, -1.1, 0), (0.05, -0.1)),
}
CENTRES = [(10.0, 50.0), (-120.5, -33.3), (0.0, 0.0), (151.0, 5.0), (180.0, -17.0), (-45.0, 85.0)]
SIZES = [0.01, 0.2]
EXTENT = (400, 300)


def homography(shape, centre, size, EXTENT=EXTENT):
    (a, b, c), (d, e, f), (g, h) = SHAPES[shape]

    def world(x, y):
        u, v = x / EXTENT[0] - 0.5, y / EXTENT[1] - 0.5
        den = 1 + g * u + h * v
        return (
            math.radians(centre[0] + size * (a * u + b * v + c) / den),
            math.radians(centre[1] + size * (d * u + e * v + f) / den),
        )

    return world


CORNERS = [(0, 0), (400, 0), (400, 300), (0, 300)]
EXTRA = {9: [(200, 0), (0, 150), (200, 150), (400, 150), (200, 300)], 4: [], 5: [(200, 150)], 6: [(200, 0), (100, 250)], 8: [(200, 0), (400, 150), (200, 300), (0, 150)]}
INSIDE = [(0, 0), (400, 300), (200, 150), (37.5, 260.25), (399, 1), (120, 80), (-20, 30.5), (40.25, -15), (410, 333)]


def run_projective(ctx, case):
    zoom = case["zoom"]
    world = homography(case["shape"], CENTRES[case["centre"]], case["size"], (EXTENT[0] * zoom, EXTENT[1] * zoom))
    points = [(x * zoom, y * zoom) for x, y in CORNERS + EXTRA[case["n"]]]
    order = case["order"] + list(range(4, len(points)))
    points = [points[i] for i in order]
    if case["n"] == 9:
        # a grid, row by row: no four in a row are spread over the image
        points.sort(key=lambda p: (p[1], p[0]))
    gcps = [GeodeticWorldCoordinate([*world(*p), 100.0]) for p in points]
    model = ctx.call(ProjectiveSensorModel, gcps, [ImageCoordinate(list(p)) for p in points])
    # one pixel is size/400 degrees (in the small image)
    pixel = math.radians(case["size"]) / 400 / zoom
    for x, y in [(x * zoom, y * zoom) for x, y in INSIDE] + points:
        lon, lat = world(x, y)
        w = ctx.call(model.image_to_world, ImageCoordinate([x, y]))
        ctx.check(
            abs(math.remainder(w.longitude - lon, 2 * math.pi)) < 0.02 * pixel and abs(w.latitude - lat) < 0.02 * pixel,
            "the tie points do not agree with the sensor model",
            pixel=(x, y),
            error_in_pixels=((w.longitude - lon) / pixel, (w.latitude - lat) / pixel),
        )
        ctx.check(float(w.elevation) == 0.0, "elevation without an elevation model")
        for elevation in (55.0, -55.0, 5500.0):
            q = ctx.call(model.world_to_image, GeodeticWorldCoordinate([lon, lat, elevation]))
            ctx.check(float(np.max(np.abs(q.coordinate - (x, y)))) < 0.02, "world to image", pixel=(x, y), got=q.coordinate)
        q = ctx.call(model.world_to_image, w)
        ctx.check(float(np.max(np.abs(q.coordinate - (x, y)))) < 0.01, "round trip", pixel=(x, y), got=q.coordinate)
        w2 = ctx.call(model.image_to_world, ImageCoordinate([x, y]), elevation_model=Watch())
        ctx.check(
            w2.longitude == w.longitude and w2.latitude == w.latitude and w2.elevation == Watch.at(w.longitude, w.latitude),
            "elevation of another place",
        )
        for options in OPTIONS:
            w3 = ctx.call(model.image_to_world, ImageCoordinate([x, y]), Watch(), options)
            ctx.check(list(w3.coordinate) == list(w2.coordinate), "the search options matter", options=options)
        ctx.state(case["shape"], case["centre"], case["size"], x, y)


def projective_cases(quick):
    def gen():
        orders = list(itertools.permutations(range(4)))
        for n in EXTRA:
            for shape in SHAPES:
                for centre in range(len(CENTRES)):
                    for size in SIZES:
                        for order in orders if n == 4 or not quick else orders[:3]:
                            yield {"shape": shape, "centre": centre, "size": size, "n": n, "order": list(order), "zoom": 1}
                        # the same of an image of 40000 x 30000 pixels
                        yield {"shape": shape, "centre": centre, "size": size, "n": n, "order": list(orders[0]), "zoom": 100}

    return gen


# -- chipped ---------------------------------------------------------------------------------------------------------
class Full(SensorModel):
    """A sensor model that records what it is asked for."""

    def __init__(self):
        super().__init__()
        self.calls = []

    def image_to_world(self, image_coordinate, elevation_model=None, options=None):
        self.calls.append((tuple(image_coordinate.coordinate), elevation_model, options))
        return GeodeticWorldCoordinate([image_coordinate.x * 1e-6, image_coordinate.y * 2e-6, 5.0])

    def world_to_image(self, world_coordinate):
        self.asked = tuple(world_coordinate.coordinate)
        return ImageCoordinate([world_coordinate.longitude * 1e6, world_coordinate.latitude / 2e-6])


# every kind of location
WORLD = list(itertools.product((-math.pi, -3.12, -0.5, 0.0, 1e-4, 3.12, math.pi, 3.2), (-1.57, -0.7, 0.0, 1e-4, 0.7, 1.45), (-420.0, 0.0, 12.5, 8800.0)))


# chip pixel (x, y) -> full image pixel
CHIPS = {
    "same": lambda x, y: (x, y),
    "offset": lambda x, y: (x + 1000, y + 2000),
    "half": lambda x, y: (2 * x + 300, 2 * y + 10),
    "double": lambda x, y: (0.5 * x + 7, 0.5 * y + 70),
    "uneven": lambda x, y: (3 * x + 5, 0.25 * y + 6),
    "rotated": lambda x, y: (400 - y, 100 + x),
    "flipped": lambda x, y: (500 - x, 40 + y),
    "oblique": lambda x, y: (0.8 * x - 0.6 * y + 500, 0.6 * x + 0.8 * y + 20),
}
CHIP_SIZES = [(100, 80), (2, 2), (1024, 512), (30000, 45000)]


def run_chip(ctx, case):
    to_full = CHIPS[case["chip"]]
    w, h = CHIP_SIZES[case["size"]]
    corners = [(0, 0), (w, 0), (w, h), (0, h)]
    corners = [corners[i] for i in case["order"]]
    full = Full()
    model = ctx.call(
        ChippedImageSensorModel,
        [ImageCoordinate(list(to_full(*c))) for c in corners],
        [ImageCoordinate(list(c)) for c in corners],
        full,
    )
    em, options = ConstantElevationModel(3.0), {"some": "option"}
    for fx, fy in ((0, 0), (1, 0), (1, 1), (0, 1), (0.5, 0.25), (0.123, 0.987), (-0.1, 0.5), (0.75, -0.25), (1.1, 1.2)):
        x, y = fx * w, fy * h
        want = to_full(x, y)
        got = ctx.call(model.image_to_world, ImageCoordinate([x, y]), elevation_model=em, options=options)
        asked, e, o = full.calls[-1]
        ctx.check(max(abs(asked[0] - want[0]), abs(asked[1] - want[1])) < 1e-4, "the wrong full image pixel", got=asked, want=want)
        ctx.check(e is em and o == {"some": "option"}, "the elevation model or the options were not passed on", e=e, o=o)
        ctx.check(float(got.elevation) == 5.0, "the location is not that of the full image")
        back = ctx.call(model.world_to_image, GeodeticWorldCoordinate([want[0] * 1e-6, want[1] * 2e-6, 5.0]))
        ctx.check(float(np.max(np.abs(back.coordinate - (x, y)))) < 1e-4 * max(1, w / 100), "chip pixel", got=back.coordinate, want=(x, y))
        ctx.state(case["chip"], case["size"], fx, fy)
        ctx.check(full.asked == (want[0] * 1e-6, want[1] * 2e-6, 5.0), "the full image was asked for another location", got=full.asked)
    for location in WORLD if case["size"] == 0 else ():
        ctx.call(model.world_to_image, GeodeticWorldCoordinate(list(location)))
        ctx.check(full.asked == location, "the full image was asked for another location", got=full.asked, want=location)
    got = ctx.call(model.image_to_world, ImageCoordinate([0.0, 0.0]))
    ctx.check(full.calls[-1][1] is None and not full.calls[-1][2], "an elevation model out of nothing")


# -- composite -------------------------------------------------------------------------------------------------------
class Part(SensorModel):
    def __init__(self, shift, elevation):
        super().__init__()
        self.shift, self.elevation, self.calls = shift, elevation, []

    def image_to_world(self, image_coordinate, elevation_model=None, options=None):
        self.calls.append(("i2w", tuple(image_coordinate.coordinate), elevation_model, dict(options) if options else options))
        c = GeodeticWorldCoordinate([image_coordinate.x * 1e-3 + self.shift, image_coordinate.y * 1e-3, self.elevation])
        if elevation_model:
            # seen from the side: the place depends on the height
            elevation_model.set_elevation(c)
            c.longitude += c.elevation * 1e-4
        if options and "a" in options:
            c.latitude += 1e-2
        return c

    def world_to_image(self, world_coordinate):
        self.calls.append(("w2i", tuple(world_coordinate.coordinate)))
        return ImageCoordinate([(world_coordinate.longitude - self.shift) * 1e3, world_coordinate.latitude * 1e3])


def run_composite(ctx, case):
    approximate, precise = Part(0.25, 1.0), Part(0.0, 2.0)
    model = ctx.call(CompositeSensorModel, approximate, precise)
    em = ConstantElevationModel(9.0) if case["elevation"] else None
    options = None if case["options"] is None else dict(case["options"])
    for location in WORLD:
        ctx.call(model.world_to_image, GeodeticWorldCoordinate(list(location)))
        ctx.check(precise.calls[-1] == ("w2i", location), "the precise model was asked for another location", got=precise.calls[-1])
    for x, y in POINTS + FAR:
        got = ctx.call(model.image_to_world, ImageCoordinate([x, y]), em, options)
        want = Part(0.0, 2.0).image_to_world(ImageCoordinate([x, y]), em, options)
        ctx.check(np.allclose(got.coordinate, want.coordinate, rtol=0, atol=1e-12), "not the location the precise model gives")
        ctx.check(options == case["options"], "the caller's options were changed", options=options)
        kind, at, e, o = precise.calls[-1]
        ctx.check(at == (x, y) and e is em, "the precise model was asked for something else")
        # the documented help from the approximate model
        guess = (o or {}).get(SensorModelOptions.INITIAL_GUESS)
        rough = Part(0.25, 1.0).image_to_world(ImageCoordinate([x, y]), em, options)
        ctx.check(guess is not None and abs(guess[0] - rough.longitude) < 1e-12 and abs(guess[1] - rough.latitude) < 1e-12, "the initial guess is not that of the approximate model", got=guess)
        for k, v in (case["options"] or {}).items():
            ctx.check(o.get(k) == v, "an option of the caller did not reach the precise model", option=k)
        back = ctx.call(model.world_to_image, want)
        pixel = Part(0.0, 2.0).world_to_image(want)
        ctx.check(float(np.max(np.abs(back.coordinate - pixel.coordinate))) < 1e-9, "not the pixel the precise model gives")
        ctx.state(case["elevation"], case["options"], x, y)


def spaces(tier):
    quick = tier == "quick"
    singular = [
        [0, 0, 0, 0, 0, 0],
        [10, 1, 0, 50, 0, 0],
        [10, 0, 0, 50, 0, 1],
        [10, 1, 2, 50, 2, 4],
        [10, 1, 1, 50, 1, 1],
    ]
    orders = [list(o) for o in itertools.permutations(range(4))]
    return [
        Space("affine", affine_cases, run_affine, bound="7 shapes of geo transforms in 7 coordinate systems"),
        Space("singular", [{"gt": g} for g in singular], run_singular, bound="5 geo transforms without an inverse"),
        Space("projective", projective_cases(quick), run_projective, bound="5 shapes, 5 places, 2 sizes, all orders of 4 to 8 tie points"),
        Space(
            "chipped",
            lambda: product(chip=list(CHIPS), size=range(len(CHIP_SIZES)), order=orders),
            run_chip,
            bound="8 chip geometries, 3 sizes, all 24 orders of the corners",
        ),
        Space(
            "composite",
            lambda: product(elevation=[False, True], options=[None, {}, {"a": 1}]),
            run_composite,
            bound="with and without elevation model and options",
        ),
    ]
