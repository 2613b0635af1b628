"""C22: reading and updating the image geometry of a feature follows one precedence and touches nothing else."""

import copy
import itertools
import json

import geojson
import shapely
import shapely.geometry

from mc.core import Space, sequences, subsets

from aws.osml.features import ImagedFeaturePropertyAccessor

NOTES = {"assumptions": ["geometries are compared by type and coordinates"]}

# What every property holds at first; all different
INITIAL = {
    "imageGeometry": {"type": "LineString", "coordinates": [[1.0, 2.0], [3.0, 5.0]]},
    "imageBBox": [10.0, 20.0, 13.0, 24.0],
    "geom_imcoords": [[30.0, 30.0], [30.0, 35.0], [36.0, 35.0], [30.0, 30.0]],
    "detection": {"type": "Point", "pixelCoordinates": [40.0, 41.0], "score": 0.25},
    "bounds_imcoords": [50.0, 51.0, 52.0, 55.0],
}
CURRENT = ["imageGeometry", "imageBBox"]
GEOMETRIES = {
    "point": {"type": "Point", "coordinates": [7.0, 8.0]},
    "line": {"type": "LineString", "coordinates": [[7.0, 8.0], [9.0, 4.0], [2.0, 2.0]]},
    "polygon": {"type": "Polygon", "coordinates": [[[0.0, 0.0], [9.0, 0.0], [9.0, 4.0], [0.0, 0.0]]]},
    "holed": {
        "type": "Polygon",
        "coordinates": [[[0.0, 0.0], [9.0, 0.0], [9.0, 9.0], [0.0, 9.0], [0.0, 0.0]], [[1.0, 1.0], [2.0, 1.0], [2.0, 2.0], [1.0, 1.0]]],
    },
    "fractions": {"type": "LineString", "coordinates": [[1 / 3, 2 / 7], [1e5 + 1 / 9, 12.3456789012], [-0.1, 1e-7]]},
    "raised": {"type": "LineString", "coordinates": [[7.0, 8.0, 1.5], [9.0, 4.0, -2.0], [2.0, 2.0, 0.0]]},
    "raised-polygon": {"type": "Polygon", "coordinates": [[[0.0, 0.0, 3.0], [9.0, 0.0, 4.0], [9.0, 4.0, 5.0], [0.0, 0.0, 3.0]]]},
    "clockwise": {"type": "Polygon", "coordinates": [[[0.0, 0.0], [0.0, 4.0], [9.0, 4.0], [9.0, 1.0], [0.0, 0.0]]]},
    "multiline": {"type": "MultiLineString", "coordinates": [[[1.0, 1.0], [4.0, 2.0]], [[5000.5, 6.0], [7.0, -8.0], [9.0, 9.0]]]},
    "multipoint": {"type": "MultiPoint", "coordinates": [[1.0, 1.0], [4.0, 2.0]]},
    "multipolygon": {
        "type": "MultiPolygon",
        "coordinates": [[[[0.0, 0.0], [2.0, 0.0], [2.0, 1.0], [0.0, 0.0]]], [[[5.0, 5.0], [6.0, 5.0], [6.0, 7.0], [5.0, 5.0]]]],
    },
}


# What else features carry
EXTRA = {
    "featureClasses": [{"iri": "a", "score": 0.5}],
    "image_id": "i:1",
    "other": None,
    "geometry": {"type": "Point", "coordinates": [0.0, 0.0]},
    "coordinates": [1.0, 2.0],
    "bbox": [9.0, 9.0, 9.5, 9.5],
    "type": "Point",
    "pixelCoordinates": [3.0, 3.0],
    "center_longitude": 12.5,
}


def points(coordinates):
    if isinstance(coordinates[0], (int, float)):
        yield coordinates
    else:
        for c in coordinates:
            yield from points(c)


def bounds(geometry):
    xs, ys = zip(*((p[0], p[1]) for p in points(geometry["coordinates"])))
    return [min(xs), min(ys), max(xs), max(ys)]


def plain(value):
    return json.loads(json.dumps(value))


def box(b):
    return {"corners": sorted([[b[0], b[1]], [b[0], b[3]], [b[2], b[1]], [b[2], b[3]]]), "bounds": list(b)}


def check_shape(ctx, got, want, message):
    """want: None, a GeoJSON geometry, or a box"""
    if want is None:
        ctx.check(got is None, message, got=got)
        return
    ctx.check(got is not None, message, got=got, want=want)
    if "corners" in want:
        ring = sorted({tuple(c) for c in got.exterior.coords})
        ctx.check(got.geom_type == "Polygon" and not list(got.interiors), message, got=got.wkt, want=want)
        ctx.check([list(c) for c in ring] == [list(c) for c in sorted({tuple(c) for c in want["corners"]})], message, got=got.wkt, want=want)
    else:
        ctx.check(got.geom_type == want["type"], message, got=got.wkt, want=want)
        ctx.check(plain(shapely.geometry.mapping(got)["coordinates"]) == plain(want["coordinates"]), message, got=got.wkt, want=want)


class Model:
    """The properties of a feature as plain data."""

    def __init__(self, properties):
        self.p = properties

    def image_geometry(self):
        return self.p.get("imageGeometry")

    def image_bbox(self):
        return box(self.p["imageBBox"]) if "imageBBox" in self.p else None

    def find(self, deprecated):
        if "imageGeometry" in self.p:
            return self.p["imageGeometry"]
        if "imageBBox" in self.p:
            return box(self.p["imageBBox"])
        if deprecated:
            if "geom_imcoords" in self.p:
                return {"type": "Polygon", "coordinates": [self.p["geom_imcoords"]]}
            if "pixelCoordinates" in self.p.get("detection", {}):
                return {"type": self.p["detection"]["type"], "coordinates": self.p["detection"]["pixelCoordinates"]}
            if "bounds_imcoords" in self.p:
                return box(self.p["bounds_imcoords"])
        return None

    def set_geometry(self, g):
        self.p["imageGeometry"] = plain(g)

    def set_bbox(self, g):
        self.p["imageBBox"] = bounds(g)

    def update(self, g, deprecated):
        if "imageGeometry" in self.p:
            self.set_geometry(g)
        if "imageBBox" in self.p:
            self.set_bbox(g)
        if deprecated:
            if "geom_imcoords" in self.p:
                self.p["geom_imcoords"] = plain(g["coordinates"][0] if g["type"] == "Polygon" else g["coordinates"])
            if "pixelCoordinates" in self.p.get("detection", {}):
                self.p["detection"]["type"] = g["type"]
                self.p["detection"]["pixelCoordinates"] = plain(g["coordinates"])
            if "bounds_imcoords" in self.p:
                self.p["bounds_imcoords"] = bounds(g)


def start(case):
    properties = {k: copy.deepcopy(INITIAL[k]) for k in case["properties"]}
    if case.get("bare_detection") and "detection" in properties:
        del properties["detection"]["pixelCoordinates"]
    properties["keep"] = {"imageGeometry": 1, "list": [1, 2]}
    if case.get("extra"):
        properties.update(copy.deepcopy(EXTRA))
    feature = geojson.Feature(id="f", geometry={"type": "Point", "coordinates": [100.0, 50.0]}, properties=copy.deepcopy(properties))
    return feature, Model(properties)


def shape_readable(geometry):
    """geom_imcoords can only be read back as a polygon ring."""
    return geometry["type"] == "Polygon"


def observe(ctx, feature, model, accessor, deprecated):
    got = plain(feature["properties"])
    ctx.check(got == plain(model.p), "the properties are not what was asked for", got=got, want=model.p)
    ctx.check(
        feature["id"] == "f" and plain(feature["geometry"]) == {"type": "Point", "coordinates": [100.0, 50.0]}, "something else was changed"
    )
    check_shape(ctx, ctx.call(ImagedFeaturePropertyAccessor.get_image_geometry, feature), model.image_geometry(), "wrong image geometry")
    check_shape(ctx, ctx.call(accessor.get_image_bbox, feature), model.image_bbox(), "wrong image bounding box")
    want = model.find(deprecated)
    ring = want is not None and "imageGeometry" not in model.p and "imageBBox" not in model.p and "geom_imcoords" in model.p
    if ring and not isinstance(model.p["geom_imcoords"][0][0], (int, float)) or ring and len(model.p["geom_imcoords"]) < 3:
        return  # overwritten with something that is not a ring
    if ring and model.p["geom_imcoords"][0] != model.p["geom_imcoords"][-1]:
        want = {"type": "Polygon", "coordinates": [model.p["geom_imcoords"] + [model.p["geom_imcoords"][0]]]}
    check_shape(ctx, ctx.call(accessor.find_image_geometry, feature), want, "wrong geometry found")
    ctx.check(plain(feature["properties"]) == got, "reading changed the feature")


def run_history(ctx, case):
    feature, model = start(case)
    deprecated = case["deprecated"]
    accessor = ImagedFeaturePropertyAccessor() if deprecated is None else ImagedFeaturePropertyAccessor(allow_deprecated=deprecated)
    deprecated = deprecated is not False
    ring_ok = True
    observe(ctx, feature, model, accessor, deprecated)
    for operation, name in case["history"]:
        geometry = GEOMETRIES[name]
        shape = shapely.geometry.shape(geometry)
        if operation == "set_geometry":
            ctx.call(accessor.set_image_geometry, feature, shape)
            model.set_geometry(geometry)
        elif operation == "set_bbox":
            ctx.call(accessor.set_image_bbox, feature, shape)
            model.set_bbox(geometry)
        else:
            ctx.call(accessor.update_existing_image_geometries, feature, shape)
            model.update(geometry, deprecated)
        if "geom_imcoords" in model.p and geometry["type"] == "Point" and operation == "update":
            # a bare position in place of a ring: not readable, the rest has to be right all the same
            ring_ok = False
        if ring_ok or "imageGeometry" in model.p or "imageBBox" in model.p:
            observe(ctx, feature, model, accessor, deprecated)
        else:
            ctx.check(plain(feature["properties"]) == plain(model.p), "the properties are not what was asked for", got=feature["properties"], want=model.p)
        ring_ok = True
        ctx.state(json.dumps(plain(feature["properties"]), sort_keys=True), deprecated)


def histories(length, geometries):
    def gen():
        operations = [[o, g] for o in ("set_geometry", "set_bbox", "update") for g in geometries]
        for names in subsets(INITIAL):
            for deprecated in (None, True, False):
                for bare in (False, True):
                    if bare and "detection" not in names:
                        continue
                    for history in sequences(operations, length):
                        yield {"properties": names, "deprecated": deprecated, "bare_detection": bare, "history": history}

    return gen


def orders():
    """The precedence does not depend on the order of the properties in the feature."""
    for names in subsets(INITIAL):
        for order in itertools.permutations(names):
            for deprecated in (True, False):
                yield {"properties": list(order), "deprecated": deprecated, "history": []}
        for deprecated in (True, False):
            for operation in ("set_geometry", "set_bbox", "update"):
                yield {"properties": names, "deprecated": deprecated, "history": [[operation, "clockwise"]], "extra": True}


def spaces(tier):
    quick = tier == "quick"
    return [
        Space("all_geometries", histories(1, list(GEOMETRIES)), run_history, bound="all subsets of 5 properties, one operation with 11 kinds of geometries"),
        Space("histories", histories(2 if quick else 3, ["line", "polygon", "holed"]), run_history, bound="all subsets of 5 properties, all histories of 2 (3) of 9 operations"),
        Space("orders", lambda: orders(), run_history, bound="all orders of all subsets of 5 properties; among 9 other properties"),
    ]
