"""C20: a spatial query returns exactly the features a scan of the whole collection would find."""

import itertools

import geojson
import shapely
import shapely.geometry

from mc.core import Space, subsets

from aws.osml.features import ImagedFeaturePropertyAccessor, STRFeature2DSpatialIndex

NOTES = {"assumptions": ["shapely's pairwise predicates intersects and distance are correct"]}

# Image or geographic geometries; distances between them are exact multiples of small integers
POOL = {
    "p00": {"type": "Point", "coordinates": [0, 0]},
    "p31": {"type": "Point", "coordinates": [3, 1]},
    "p00b": {"type": "Point", "coordinates": [0, 0]},
    "far": {"type": "Point", "coordinates": [60, 1]},
    "box": {"type": "Polygon", "coordinates": [[[1, 0], [3, 0], [3, 2], [1, 2], [1, 0]]]},
    "ring": {
        "type": "Polygon",
        "coordinates": [[[-4, -4], [8, -4], [8, 8], [-4, 8], [-4, -4]], [[-2, -2], [6, -2], [6, 6], [-2, 6], [-2, -2]]],
    },
    "line": {"type": "LineString", "coordinates": [[-3, 4], [5, 4]]},
    "multi": {"type": "MultiPoint", "coordinates": [[-3, -3], [5, 5], [0, 7]]},
    "ell": {"type": "Polygon", "coordinates": [[[2, 2], [6, 2], [6, 3], [3, 3], [3, 6], [2, 6], [2, 2]]]},
}
QUERIES = {
    "point": {"type": "Point", "coordinates": [1, 1]},
    "origin": {"type": "Point", "coordinates": [0, 0]},
    "hole": {"type": "Polygon", "coordinates": [[[4, 4], [5, 4], [5, 5], [4, 5], [4, 4]]]},
    "corner": {"type": "Polygon", "coordinates": [[[3, 2], [5, 2], [5, 4], [3, 4], [3, 2]]]},
    "all": {"type": "Polygon", "coordinates": [[[-9, -9], [99, -9], [99, 99], [-9, 99], [-9, -9]]]},
    "line": {"type": "LineString", "coordinates": [[2, -9], [2, 9]]},
    "far": {"type": "Point", "coordinates": [111, 1]},
    "near": {"type": "Point", "coordinates": [20, 1]},
    "crossed": {"type": "Polygon", "coordinates": [[[-1, -1], [4, 4], [4, -1], [-1, 4], [-1, -1]]]},
}


# Queries of other kinds: of several parts, with holes, with heights, with nothing in them
SHAPES = {
    "parts": {"type": "MultiPolygon", "coordinates": [[[[1, 0], [2, 0], [2, 1], [1, 0]]], [[[60, 0], [62, 0], [62, 3], [60, 0]]]]},
    "points": {"type": "MultiPoint", "coordinates": [[0, 0], [4000, 1]]},
    "lines": {"type": "MultiLineString", "coordinates": [[[0, -5], [0, 5]], [[-3, 4], [-3, -4]]]},
    "holed": {"type": "Polygon", "coordinates": [[[-6, -6], [9, -6], [9, 9], [-6, 9], [-6, -6]], [[-1, -1], [4, -1], [4, 7], [-1, 7], [-1, -1]]]},
    "collection": {"type": "GeometryCollection", "geometries": [{"type": "Point", "coordinates": [60, 1]}, {"type": "LineString", "coordinates": [[1, 1], [2, 2]]}]},
    "raised": {"type": "Point", "coordinates": [3, 1, 250]},
    "raised box": {"type": "Polygon", "coordinates": [[[1, 0, 7], [3, 0, 7], [3, 2, 8], [1, 2, 7], [1, 0, 7]]]},
    "remote": {"type": "Polygon", "coordinates": [[[5000, 4000], [5100, 4000], [5100, 4100], [5000, 4000]]]},
    "wide": {"type": "Polygon", "coordinates": [[[-1e4, -1e4], [1e4, -1e4], [1e4, 1e4], [-1e4, 1e4], [-1e4, -1e4]]]},
    "no point": {"type": "Point", "coordinates": []},
    "no polygon": {"type": "Polygon", "coordinates": []},
}


def feature(name, encoding, serial):
    """A feature whose geometry of the given name is stored in the given way; the other place holds a decoy."""
    decoy = {"type": "Point", "coordinates": [0.5, 0.5]}
    geometry = POOL.get(name)
    shape = shapely.geometry.shape(geometry) if geometry else None
    properties, world = {"serial": serial}, decoy
    if encoding == "world":
        world = geometry
        properties["imageGeometry"] = decoy
    elif geometry is None:
        pass
    elif encoding == "imageGeometry":
        properties["imageGeometry"] = geometry
    elif encoding == "imageBBox":
        properties["imageBBox"] = list(shape.bounds)
        shape = shapely.geometry.box(*shape.bounds)
    elif encoding == "bounds_imcoords":
        properties["bounds_imcoords"] = list(shape.bounds)
        shape = shapely.geometry.box(*shape.bounds)
    elif encoding == "detection":
        properties["detection"] = {"type": geometry["type"], "pixelCoordinates": geometry["coordinates"]}
    if encoding == "bare":
        # nothing but a place on the ground
        world, properties = geometry, {}
    return geojson.Feature(id=serial, geometry=world, properties=properties), shape


def build(ctx, case):
    pairs = [feature(n, e, i) for i, (n, e) in enumerate(case["features"])]
    collection = geojson.FeatureCollection([f for f, _ in pairs])
    kwargs = {}
    if case["mode"] == "world":
        kwargs["use_image_geometries"] = False
    elif case["mode"] == "image":
        kwargs["use_image_geometries"] = True
    elif case["mode"] == "accessor":
        kwargs["property_accessor"] = ImagedFeaturePropertyAccessor(allow_deprecated=False)
    index = ctx.call(STRFeature2DSpatialIndex, collection, **kwargs)
    if case["mode"] == "accessor":
        pairs = [(f, None if e in ("bounds_imcoords", "detection") else s) for (f, s), (_, e) in zip(pairs, case["features"])]
    return index, [(f, s) for f, s in pairs if s is not None]


def serials(ctx, found):
    found = list(found)
    result = sorted(f["id"] for f in found)
    ctx.check(len(set(result)) == len(result), "a feature is listed twice", got=result)
    return result


def run_queries(ctx, case):
    index, entries = build(ctx, case)
    before = [geojson.dumps(f, sort_keys=True) for f, _ in entries]
    for q, geometry in (SHAPES if case.get("shapes") else QUERIES).items():
        shape = shapely.geometry.shape(geometry)
        want = sorted(f["id"] for f, s in entries if s.intersects(shape))
        found = list(ctx.call(index.find_intersects, shape))
        got = serials(ctx, found)
        ctx.check(got == want, "not the features that intersect", query=q, got=got, want=want)
        ctx.check(all(any(f is e for e, _ in entries) for f in found), "not the features of the collection", query=q)
        ctx.state(case["mode"], q, tuple(want), len(entries))
        for limit in case["limits"]:
            largest = limit if limit is not None else (1.0 if case["mode"] == "world" else 50)
            distances = [(s.distance(shape), f["id"]) for f, s in entries]
            distances = [(d, n) for d, n in distances if d == d]
            least = min((d for d, _ in distances), default=None)
            want = sorted(n for d, n in distances if d == least and d <= largest)
            got = serials(ctx, ctx.call(index.find_nearest, shape, *([] if limit is None else [limit])))
            if least == largest:
                # features exactly as far as the limit: with or without them
                ctx.check(got in (want, []), "not the nearest features", query=q, limit=limit, got=got, want=want)
            else:
                ctx.check(got == want, "not the nearest features", query=q, limit=limit, got=got, want=want)
            ctx.state(case["mode"], q, limit, tuple(want))
    ctx.check(before == [geojson.dumps(f, sort_keys=True) for f, _ in entries], "the features were changed")


def collections(size, modes):
    def gen():
        for mode in modes:
            encodings = ["world"] if mode == "world" else ["imageGeometry"]
            for names in subsets([n for n in POOL if n not in POOL_REMOTE] + ["none"], size):
                for order in (names, names[::-1]) if len(names) > 1 else (names,):
                    yield {"features": [[n, encodings[0]] for n in order], "mode": mode, "limits": [None, 0.5, 2, 1000]}

    return gen


POOL_REMOTE = {
    "away": {"type": "Polygon", "coordinates": [[[5010, 4010], [5090, 4010], [5090, 4090], [5010, 4010]]]},
    "parts": {"type": "MultiPolygon", "coordinates": [[[[0, 0], [1, 0], [1, 1], [0, 0]]], [[[4000, 0], [4100, 0], [4100, 50], [4000, 0]]]]},
    "mixed": {"type": "GeometryCollection", "geometries": [{"type": "Point", "coordinates": [3, 1]}, {"type": "LineString", "coordinates": [[-3, 4], [-3, 0]]}]},
}
POOL.update(POOL_REMOTE)


def others(size):
    def gen():
        for mode in ("image", "world"):
            for names in subsets(list(POOL) + ["none"], size):
                if names:
                    yield {
                        "features": [[n, "world" if mode == "world" else "imageGeometry"] for n in names],
                        "mode": mode,
                        "limits": [None, 0.001, 100, 5000.5, 1e7],
                        "shapes": True,
                    }

    return gen


def encodings(size):
    def gen():
        kinds = ["imageGeometry", "imageBBox", "bounds_imcoords", "detection"]
        for mode in ("image", "accessor"):
            for names in itertools.combinations(["p31", "box", "ell", "far", "none"], size):
                for kind in itertools.product(kinds, repeat=size):
                    yield {"features": [[n, k] for n, k in zip(names, kind)], "mode": mode, "limits": [None, 3]}
        for names in itertools.permutations(["p31", "box", "ell", "far", "none"], size):
            for kind in itertools.product(["world", "bare"], repeat=size):
                yield {"features": [[n, k] for n, k in zip(names, kind)], "mode": "world", "limits": [None, 3]}

    return gen


def run_grid(ctx, case):
    """Many features (several levels of the tree): boxes on a grid."""
    n, step, size = case["n"], case["step"], case["size"]
    features = []
    for r in range(n):
        for c in range(n):
            box = [c * step, r * step, c * step + size, r * step + size]
            features.append(geojson.Feature(id=r * n + c, geometry=None, properties={"imageBBox": box, "serial": r * n + c}))
    index = ctx.call(STRFeature2DSpatialIndex, geojson.FeatureCollection(features))
    for r in range(-1, n + 1):
        for c in range(-1, n + 1):
            for dx, dy, w, h in ((0, 0, 0, 0), (size, size, 0, 0), (size + 0.5, 0, 0, 0), (0.25, 0.25, step, step), (size, 0, step - size, 0.5), (-0.5, 0.5, 7 * step, 4 * step), (0, 0, n * step, n * step)):
                x, y = c * step + dx, r * step + dy
                shape = shapely.geometry.box(x, y, x + w, y + h) if w else shapely.geometry.Point(x, y)
                want = sorted(
                    j * n + i
                    for j in range(n)
                    for i in range(n)
                    if i * step <= x + w and x <= i * step + size and j * step <= y + h and y <= j * step + size
                )
                got = serials(ctx, ctx.call(index.find_intersects, shape))
                ctx.check(got == want, "not the features that intersect", query=shape.wkt, got=got, want=want)
                gaps = [
                    (max(i * step - x - w, x - i * step - size, 0) ** 2 + max(j * step - y - h, y - j * step - size, 0) ** 2, j * n + i)
                    for j in range(n)
                    for i in range(n)
                ]
                least = min(gaps)[0]
                want = sorted(k for g, k in gaps if abs(g - least) < 1e-9)
                got = serials(ctx, ctx.call(index.find_nearest, shape))
                ctx.check(got == want, "not the nearest features", query=shape.wkt, got=got, want=want)
                ctx.state(n, step, size, x, y, w)


def run_twins(ctx, case):
    """Features that are equal in everything are features all the same."""
    shapes = [POOL[n] for n in case["features"]]
    world = case["mode"] == "world"
    features = [geojson.Feature(geometry=g if world else None, properties={} if world else {"imageGeometry": g}) for g in shapes]
    index = ctx.call(STRFeature2DSpatialIndex, geojson.FeatureCollection(features), use_image_geometries=not world)
    for q, geometry in QUERIES.items():
        shape = shapely.geometry.shape(geometry)
        distances = [shapely.geometry.shape(g).distance(shape) for g in shapes]
        for what, found, want in (
            ("find_intersects", ctx.call(index.find_intersects, shape), [i for i, d in enumerate(distances) if d == 0]),
            ("find_nearest", ctx.call(index.find_nearest, shape, 1000), [i for i, d in enumerate(distances) if d == min(distances)]),
        ):
            got = sorted(next((i for i, f in enumerate(features) if f is g), -1) for g in found)
            ctx.check(got == want, "not the features a scan finds", query=q, call=what, got=got, want=want)
        ctx.state(case["features"], q)


def twins(size):
    def gen():
        for mode in ("image", "world"):
            for n in range(2, size + 1):
                for names in itertools.product(["p00", "box", "far"], repeat=n):
                    yield {"features": list(names), "mode": mode}

    return gen


def spaces(tier):
    quick = tier == "quick"
    grids = [{"n": n, "step": s, "size": z} for n in ((1, 2, 5, 12) if quick else (1, 2, 3, 5, 8, 12, 20, 33)) for s, z in ((10, 5), (10, 10), (4, 3))]
    return [
        Space("collections", collections(3 if quick else 5, ["image", "world", "default"]), run_queries, bound="all collections of up to 3 (5) of 10 features, 9 queries, 4 limits"),
        Space("encodings", encodings(2 if quick else 3), run_queries, bound="all pairs (triples) of features in 4 encodings, with and without the deprecated ones"),
        Space("others", others(2 if quick else 4), run_queries, bound="all collections of up to 2 (4) of 13 features, 11 queries of several parts, with holes, with heights, empty or far away, 5 limits"),
        Space("twins", twins(4 if quick else 6), run_twins, bound="all collections of up to 4 (6) features that may be equal to each other"),
        Space("grids", grids, run_grid, bound="grids of up to 12x12 (33x33) features, queries in every cell"),
    ]
