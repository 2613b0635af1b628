"""C21: geolocated features are where the sensor model places their image geometry."""

import copy
import itertools
import json
import math

import geojson
import shapely
import shapely.geometry

from mc.core import Space, sequences

from aws.osml.features import Geolocator, ImagedFeaturePropertyAccessor
from aws.osml.photogrammetry import (
    ConstantElevationModel,
    ElevationModel,
    GDALAffineSensorModel,
    GeodeticWorldCoordinate,
    ImageCoordinate,
    SensorModel,
)

NOTES = {
    "assumptions": [
        "the approximation grid is exact for cameras that are linear over the features; for others the error of linear interpolation is allowed",
        "bounding boxes are not checked across the antimeridian",
    ]
}


class Linear(SensorModel):
    """Longitude, latitude and elevation are linear in the pixel; the location shifts with the elevation it is asked for."""

    def __init__(self, lon, lat, curve=0.0, mirror=1.0):
        super().__init__()
        self.lon, self.lat, self.curve, self.mirror = lon, lat, curve, mirror

    def place(self, x, y, terrain=None):
        h = terrain if terrain is not None else 12.0 + 0.01 * x - 0.02 * y
        lon = self.lon + self.mirror * 2e-5 * x + 3e-6 * y + self.curve * (x * x + 0.5 * x * y) + (1e-7 * h if terrain is not None else 0.0)
        lat = self.lat - 1e-5 * y + 2e-6 * x + self.curve * (y * y - 0.25 * x * y) - (2e-7 * h if terrain is not None else 0.0)
        lon = math.remainder(lon, 360.0)
        return lon, lat, h

    def image_to_world(self, image_coordinate, elevation_model=None, options=None):
        terrain = None
        if elevation_model is not None:
            probe = GeodeticWorldCoordinate([math.radians(self.lon), math.radians(self.lat), 0.0])
            elevation_model.set_elevation(probe)
            terrain = probe.elevation
        lon, lat, h = self.place(image_coordinate.x, image_coordinate.y, terrain)
        return GeodeticWorldCoordinate([math.radians(lon), math.radians(lat), h])

    def world_to_image(self, world_coordinate):
        raise NotImplementedError


class Slope(ElevationModel):
    """Terrain that rises to the north; the camera above only probes it at its origin."""

    def set_elevation(self, c):
        c.elevation = 50.0 + math.degrees(c.latitude) * 3.0

    def describe_region(self, c):
        return None


def camera(name):
    if name == "affine":
        gt = [34.5, 2e-5, 3e-6, -12.25, 2e-6, -1e-5]
        return GDALAffineSensorModel(gt), lambda x, y, t: (gt[0] + gt[1] * x + gt[2] * y, gt[3] + gt[4] * x + gt[5] * y, t if t is not None else 0.0)
    if name == "linear":
        m = Linear(-100.25, 40.5)
    elif name == "antimeridian":
        m = Linear(179.999, -30.0)
    elif name == "antimeridian-west":
        m = Linear(-179.9995, 10.0)
    elif name == "antimeridian-mirrored":
        # eastwards is to the left: the first column of a grid is east of the antimeridian, the last one west of it
        m = Linear(-179.999, 10.0, mirror=-1.0)
    elif name == "north":
        m = Linear(-20.5, 84.25)
    elif name == "south":
        m = Linear(151.0, -77.5, mirror=-1.0)
    else:
        m = Linear(15.0, 5.0, curve=1e-9)
    return m, m.place


# -- features ----------------------------------------------------------------------------------------------------------
GEOMETRIES = {
    "point": {"type": "Point", "coordinates": [10.0, 20.0]},
    "line": {"type": "LineString", "coordinates": [[0.0, 0.0], [100.5, 30.0], [40.0, 80.0]]},
    "ring": {"type": "LinearRing", "coordinates": [[0.0, 0.0], [10.0, 0.0], [10.0, 10.0], [0.0, 0.0]]},
    "polygon": {"type": "Polygon", "coordinates": [[[5.0, 5.0], [60.0, 5.0], [60.0, 35.0], [5.0, 5.0]]]},
    "holed": {
        "type": "Polygon",
        "coordinates": [
            [[0.0, 0.0], [90.0, 0.0], [90.0, 90.0], [0.0, 90.0], [0.0, 0.0]],
            [[10.0, 10.0], [20.0, 10.0], [20.0, 20.0], [10.0, 10.0]],
            [[50.0, 50.0], [60.0, 50.0], [60.0, 65.0], [50.0, 50.0]],
        ],
    },
    "multipoint": {"type": "MultiPoint", "coordinates": [[1.0, 2.0], [70.0, 3.0], [4.0, 99.0]]},
    "multiline": {"type": "MultiLineString", "coordinates": [[[0.0, 0.0], [9.0, 9.0]], [[50.0, 0.0], [50.0, 60.0], [55.0, 60.0]]]},
    "multipolygon": {
        "type": "MultiPolygon",
        "coordinates": [
            [[[0.0, 0.0], [20.0, 0.0], [20.0, 10.0], [0.0, 0.0]]],
            [[[50.0, 50.0], [60.0, 50.0], [60.0, 70.0], [50.0, 50.0]], [[55.0, 52.0], [56.0, 52.0], [56.0, 53.0], [55.0, 52.0]]],
        ],
    },
    "collection": {
        "type": "GeometryCollection",
        "geometries": [{"type": "Point", "coordinates": [3.0, 4.0]}, {"type": "LineString", "coordinates": [[0.0, 9.0], [80.0, 9.0]]}],
    },
    # points on the way between their neighbours, repeated points, a line that ends where it began
    "straight": {"type": "LineString", "coordinates": [[0.0, 0.0], [10.0, 10.0], [20.0, 20.0], [30.0, 30.0]]},
    "dense": {
        "type": "Polygon",
        "coordinates": [[[0.0, 0.0], [25.0, 0.0], [50.0, 0.0], [50.0, 50.0], [25.0, 50.0], [0.0, 50.0], [0.0, 50.0], [0.0, 20.0], [0.0, 0.0]]],
    },
    "closed": {"type": "LineString", "coordinates": [[5.0, 5.0], [15.0, 5.0], [15.0, 5.0], [15.0, 25.0], [5.0, 5.0]]},
    "clockwise": {"type": "Polygon", "coordinates": [[[5.0, 5.0], [5.0, 35.0], [60.0, 35.0], [60.0, 5.0], [5.0, 5.0]]]},
    "tiny": {"type": "Polygon", "coordinates": [[[5.0, 5.0], [5.25, 5.0], [5.25, 5.5], [5.0, 5.0]]]},
    "level": {"type": "LineString", "coordinates": [[12.0, 30.0], [72.0, 30.0]]},
    "upright": {"type": "LineString", "coordinates": [[33.0, 8.0], [33.0, 58.0]]},
    "outside": {"type": "Point", "coordinates": [-30.5, 400.25]},
    "distant": {"type": "Polygon", "coordinates": [[[500.0, -80.0], [640.0, -80.0], [640.0, -20.0], [500.0, -80.0]]]},
    "remote": {"type": "Polygon", "coordinates": [[[8000.0, 9100.0], [8040.0, 9100.0], [8040.0, 9160.5], [8000.0, 9100.0]]]},
}
FLAT = ["point", "line", "polygon", "holed", "outside", "distant", "dense", "straight", "clockwise", "level", "upright", "remote"]


def feature(spec, serial):
    """spec: [encoding, geometry name]"""
    encoding, name = spec
    properties = {"serial": serial, "other": {"keep": [1, 2]}}
    geometry = GEOMETRIES.get(name)
    if encoding in ("imageGeometry", "both"):
        properties["imageGeometry"] = copy.deepcopy(geometry)
    if encoding == "imageBBox":
        properties["imageBBox"] = list(shapely.geometry.shape(geometry).bounds)
    if encoding == "both":
        # a box that is not the one of the geometry
        b = shapely.geometry.shape(geometry).bounds
        properties["imageBBox"] = [b[0] - 15.0, b[1] - 2.0, b[2] + 40.0, b[3] + 33.0]
    if encoding == "bounds_imcoords":
        properties["bounds_imcoords"] = list(shapely.geometry.shape(geometry).bounds)
    if encoding == "geom_imcoords":
        properties["geom_imcoords"] = copy.deepcopy(geometry["coordinates"][0])
    if encoding == "detection":
        properties["detection"] = {"type": geometry["type"], "pixelCoordinates": copy.deepcopy(geometry["coordinates"])}
    world = {"type": "Point", "coordinates": [1.0, 2.0]} if encoding == "old" else None
    return geojson.Feature(id=f"id{serial}", geometry=world, properties=properties)


def expected(spec, deprecated, place):
    """(geometry as GeoJSON with located coordinates or None, bbox pixel corners or None, center pixel or None)"""
    encoding, name = spec
    geometry = GEOMETRIES.get(name)
    if encoding in ("none", "old") or (not deprecated and encoding in ("bounds_imcoords", "geom_imcoords", "detection")):
        return None, None, None
    shape = shapely.geometry.shape(geometry)
    b = shape.bounds
    if encoding == "imageGeometry":
        return geometry, None, (shape.centroid.x, shape.centroid.y)
    if encoding == "imageBBox":
        return None, b, ((b[0] + b[2]) / 2, (b[1] + b[3]) / 2)
    if encoding == "both":
        return geometry, (b[0] - 15.0, b[1] - 2.0, b[2] + 40.0, b[3] + 33.0), (shape.centroid.x, shape.centroid.y)
    if encoding == "bounds_imcoords":
        box = shapely.geometry.mapping(shapely.geometry.box(*b))
        return {"type": "Polygon", "coordinates": box["coordinates"]}, None, ((b[0] + b[2]) / 2, (b[1] + b[3]) / 2)
    if encoding == "geom_imcoords":
        outline = shapely.geometry.Polygon(geometry["coordinates"][0])
        return {"type": "Polygon", "coordinates": [geometry["coordinates"][0]]}, None, (outline.centroid.x, outline.centroid.y)
    return geometry, None, (shape.centroid.x, shape.centroid.y)


def degrees_apart(a, b):
    return abs(math.remainder(a - b, 360.0))


def check_coordinates(ctx, got, want, locate, tolerance):
    if isinstance(want[0], (int, float)):
        lon, lat, h = locate(want[0], want[1])
        ctx.check(len(got) in (2, 3), "not a position", got=got)
        ctx.check(-180.0 - 1e-9 <= got[0] <= 180.0 + 1e-9 and -90.0 <= got[1] <= 90.0, "not degrees", got=got)
        ok = degrees_apart(got[0], lon) <= tolerance and abs(got[1] - lat) <= tolerance
        ctx.check(ok, "a vertex is not where the sensor model places it", pixel=want, got=got, want=(lon, lat, h))
        if len(got) == 3:
            ctx.check(abs(got[2] - h) <= 1e-3, "wrong elevation", pixel=want, got=got, want=(lon, lat, h))
    else:
        ctx.check(len(got) == len(want), "a different number of parts", got=got, want=want)
        for g, w in zip(got, want):
            check_coordinates(ctx, g, w, locate, tolerance)


def check_geometry(ctx, got, want, locate, tolerance):
    kind = "LineString" if want["type"] == "LinearRing" else want["type"]
    ctx.check(got is not None and got["type"] == kind, "a different type of geometry", got=got, want=want["type"])
    if kind == "GeometryCollection":
        ctx.check(len(got["geometries"]) == len(want["geometries"]), "a different number of parts", got=got)
        for g, w in zip(got["geometries"], want["geometries"]):
            check_geometry(ctx, g, w, locate, tolerance)
    else:
        check_coordinates(ctx, got["coordinates"], want["coordinates"], locate, tolerance)


def run(ctx, case):
    model, place = camera(case["camera"])
    elevation = {None: None, "constant": ConstantElevationModel(77.0), "slope": Slope(), "high": ConstantElevationModel(4321.0), "below": ConstantElevationModel(-412.0)}[case["elevation"]]
    deprecated = case.get("deprecated", True)
    accessor = ImagedFeaturePropertyAccessor(allow_deprecated=deprecated)
    kwargs = {}
    if case["grid"] is not None:
        kwargs["approximation_grid_size"] = case["grid"]
    if elevation is not None:
        kwargs["elevation_model"] = elevation
    locator = ctx.call(Geolocator, accessor, model, **kwargs)

    def terrain_at(lat):
        if case["elevation"] == "constant":
            return 77.0
        if case["elevation"] in ("high", "below"):
            return 4321.0 if case["elevation"] == "high" else -412.0
        return 50.0 + lat * 3.0

    def locate(x, y):
        if elevation is None:
            return place(x, y, None)
        if case["camera"] == "affine":
            lon, lat, _ = place(x, y, None)
        else:
            lon, lat, _ = place(x, y, terrain_at(model.lat))
        return lon, lat, terrain_at(lat)

    for who, specs in case.get("previous", []):
        # what was located before, by this locator or by another one, does not matter
        other = locator
        if isinstance(who, int):
            # the camera fails at the given call
            answer, calls = model.image_to_world, itertools.count(1)

            def failing(*args, **kwargs):
                if next(calls) == who:
                    raise ValueError("no location")
                return answer(*args, **kwargs)

            model.image_to_world = failing
            try:
                locator.geolocate_features([feature(s, 100 + i) for i, s in enumerate(specs)])
            except ValueError:
                pass
            finally:
                del model.image_to_world
            continue
        if who != "same":
            other_model, other_elevation = {"camera": (camera("linear")[0], elevation), "terrain": (model, ConstantElevationModel(-20.0))}[who]
            other = ctx.call(Geolocator, accessor, other_model, elevation_model=other_elevation)
        ctx.call(other.geolocate_features, [feature(s, 100 + i) for i, s in enumerate(specs)])

    features = [feature(s, i) for i, s in enumerate(case["features"])]
    before = copy.deepcopy(features)
    wants = [expected(s, deprecated, place) for s in case["features"]]
    tolerance = 1e-9
    if case["camera"] == "curved":
        xs = [0.0] + [v for s in case["features"] for v in spread(s)]
        span = max(xs) - min(xs) + 40.0
        cells = (case["grid"] or 11) - 1
        # linear interpolation in a cell: h^2/8 per second derivative, summed over the three of them
        tolerance = 1e-9 * (span / cells) ** 2 / 8 * (2 + 1 + 2) + 1e-9
    for repeat in range(case.get("repeat", 1)):
        ctx.call(locator.geolocate_features, features)
    ctx.check(len(features) == len(before), "features were added or removed")
    for f, old, (geometry, bbox, center), spec in zip(features, before, wants, case["features"]):
        props = {k: v for k, v in f["properties"].items() if k not in ("center_longitude", "center_latitude")}
        ctx.check(json.dumps(props, sort_keys=True) == json.dumps(old["properties"], sort_keys=True), "other properties were changed", got=props)
        ctx.check(f["id"] == old["id"], "the id was changed")
        if geometry is None:
            ctx.check(f["geometry"] == old["geometry"], "a geometry was made up", spec=spec, got=f["geometry"])
        else:
            # GeoJSON geometries are written with 6 decimals
            check_geometry(ctx, f["geometry"], geometry, locate, tolerance + 5.1e-7)
        if bbox is None:
            ctx.check("bbox" not in f, "a bounding box was made up", spec=spec)
        elif not case["camera"].startswith("antimeridian"):
            corners = [locate(x, y)[:2] for x in (bbox[0], bbox[2]) for y in (bbox[1], bbox[3])]
            want = [min(c[0] for c in corners), min(c[1] for c in corners), max(c[0] for c in corners), max(c[1] for c in corners)]
            got = list(f["bbox"])
            ctx.check(len(got) == 4 and all(abs(g - w) <= tolerance for g, w in zip(got, want)), "wrong bounding box", got=got, want=want)
        if center is None:
            ctx.check("center_longitude" not in f["properties"] and "center_latitude" not in f["properties"], "a center was made up", spec=spec)
        else:
            lon, lat, _ = locate(*center)
            got = (f["properties"]["center_longitude"], f["properties"]["center_latitude"])
            ctx.check(degrees_apart(got[0], lon) <= tolerance and abs(got[1] - lat) <= tolerance, "wrong center", got=got, want=(lon, lat))
        ctx.state(case["camera"], case["elevation"], spec, len(features))


def spread(spec):
    if spec[0] in ("none", "old"):
        return [0.0]
    b = shapely.geometry.shape(GEOMETRIES[spec[1]]).bounds
    return [b[0] - 15.0, b[1] - 2.0, b[2] + 40.0, b[3] + 33.0]


CAMERAS = ["affine", "linear", "antimeridian", "antimeridian-west", "antimeridian-mirrored", "curved"]


def singles():
    for name in CAMERAS:
        for elevation in (None, "constant", "slope"):
            for grid in (None, 2, 3, 20):
                for spec in all_specs():
                    yield {"camera": name, "elevation": elevation, "grid": grid, "features": [spec]}
                    if grid is None:
                        yield {"camera": name, "elevation": elevation, "grid": grid, "features": [spec], "deprecated": False}
                        yield {"camera": name, "elevation": elevation, "grid": grid, "features": [spec], "repeat": 2}


def places():
    """Cameras at high latitudes, high and low terrain, long lists of features."""
    for name in ("north", "south", "linear", "antimeridian"):
        for elevation in (None, "high", "below"):
            for spec in all_specs():
                yield {"camera": name, "elevation": elevation, "grid": None, "features": [spec]}
            specs = list(all_specs())
            for n in (11, 25, len(specs), 3 * len(specs)):
                yield {"camera": name, "elevation": elevation, "grid": None, "features": (specs * 3)[:n]}


def all_specs():
    for name in GEOMETRIES:
        yield ["imageGeometry", name]
        yield ["both", name]
    for name in FLAT:
        yield ["imageBBox", name]
        yield ["bounds_imcoords", name]
        yield ["detection", name]
    yield ["geom_imcoords", "polygon"]
    yield ["geom_imcoords", "distant"]
    yield ["geom_imcoords", "dense"]
    yield ["geom_imcoords", "clockwise"]
    yield ["none", None]
    yield ["old", None]


POOL = [
    ["imageGeometry", "point"],
    ["imageGeometry", "holed"],
    ["imageGeometry", "outside"],
    ["imageGeometry", "multipolygon"],
    ["imageBBox", "distant"],
    ["both", "line"],
    ["bounds_imcoords", "polygon"],
    ["none", None],
    ["old", None],
]


def lists(length, cameras):
    def gen():
        for name in cameras:
            for elevation in (None, "slope"):
                for specs in sequences(POOL, length):
                    yield {"camera": name, "elevation": elevation, "grid": None, "features": specs}

    return gen


def batches(lengths, cameras):
    """Requests in a row: to one locator, and to locators that share the accessor and the camera or the terrain."""
    for name in cameras:
        for elevation in (None, "slope"):
            for who in ("same", "camera", "terrain"):
                for length in lengths:
                    for specs in itertools.product(POOL, repeat=length):
                        for spec in POOL:
                            yield {"camera": name, "elevation": elevation, "grid": None, "features": [spec], "previous": [[who, [s]] for s in specs]}
                # one that spreads over everything, and requests that fail
                if who == "same":
                    for spec in POOL:
                        for fail_at in (1, 2, 12, 121):
                            yield {"camera": name, "elevation": elevation, "grid": None, "features": [spec], "previous": [[fail_at, POOL]]}
                            yield {"camera": name, "elevation": elevation, "grid": None, "features": [spec], "previous": [[fail_at, [spec]]]}
                for spec in POOL:
                    yield {"camera": name, "elevation": elevation, "grid": None, "features": [spec], "previous": [[who, POOL]]}


def spaces(tier):
    quick = tier == "quick"
    return [
        Space("singles", lambda: singles(), run, bound="5 cameras, 3 elevation models, 4 grids, every geometry type in every encoding"),
        Space("places", lambda: places(), run, bound="4 cameras, 3 kinds of terrain, every geometry type in every encoding; lists of up to 270 features"),
        Space("lists", lists(2 if quick else 3, ["linear", "curved"] if quick else CAMERAS), run, bound="all lists of up to 2 (3) of 9 features"),
        Space("batches", lambda: batches([1] if quick else [1, 2], ["linear", "curved", "affine"] if quick else CAMERAS), run, bound="all sequences of 2 (3) requests of 9 features to one locator or to locators that share a camera or terrain; the camera failing at 4 calls of an earlier request"),
    ]
