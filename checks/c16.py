"""C16: the WebMercatorQuad tile sets partition the world and agree with the OGC definition."""

from itertools import combinations
from math import atan, pi, radians, sinh

from mc.core import Space, product

from aws.osml.image_processing import MapTileId, MapTileSetFactory, WellKnownMapTileSet
from aws.osml.photogrammetry import GeodeticWorldCoordinate

SETS = {"WebMercatorQuad": 256, "WebMercatorQuadx2": 512}
# Shared by all the cases a worker explores: a tile set must not remember anything about earlier requests.
TILE_SETS = {name: MapTileSetFactory.get_for_id(name) for name in SETS}
TOL = 2e-11  # radians, about 0.1 mm; the narrowest tile explored is 3.7e-7 radians wide


def lon_of(col, z):
    return 2 * pi * col / 2**z - pi


def lat_of(row, z):
    return atan(sinh(pi * (2 * row / 2**z - 1)))


def ref_bounds(z, row, col):
    return lon_of(col, z), lat_of(row, z), lon_of(col + 1, z), lat_of(row + 1, z)


def check_tile(ctx, name, tile, z, row, col):
    ctx.check(tuple(tile.id) == (z, row, col), "wrong tile id", id=tile.id, want=(z, row, col))
    ctx.check(tuple(tile.size) == (SETS[name],) * 2, "wrong tile size", size=tile.size)
    want = ref_bounds(z, row, col)
    ctx.check(
        len(tile.bounds) == 4 and all(abs(a - b) < TOL for a, b in zip(tile.bounds, want)),
        "wrong tile bounds",
        bounds=tile.bounds,
        want=want,
    )


FRACTIONS = (0.001, 0.3, 0.5, 0.999)


def run_tile(ctx, case):
    name, z, row, col = case["set"], case["z"], case["row"], case["col"]
    ts = TILE_SETS[name]
    ctx.check(ts.tile_matrix_set_id == name, "tile matrix set id", id=ts.tile_matrix_set_id)
    tile = ctx.call(ts.get_tile, MapTileId(tile_matrix=z, tile_row=row, tile_col=col))
    check_tile(ctx, name, tile, z, row, col)
    ctx.state(name, z, row, col)
    # every location inside the tile is assigned to it, and to no other tile
    for fx in FRACTIONS:
        for fy in FRACTIONS:
            lon = lon_of(col, z) + fx * (lon_of(col + 1, z) - lon_of(col, z))
            lat = lat_of(row, z) + fy * (lat_of(row + 1, z) - lat_of(row, z))
            for elevation in (0.0, 8000.0):
                found = ctx.call(ts.get_tile_for_location, GeodeticWorldCoordinate([lon, lat, elevation]), z)
                check_tile(ctx, name, found, z, row, col)
    # a location on the boundary belongs to a tile of the matrix that contains it
    for cx in (col, col + 0.5, col + 1):
        for cy in (row, row + 0.5, row + 1):
            lon, lat = lon_of(cx, z), lat_of(cy, z)
            found = ctx.call(ts.get_tile_for_location, GeodeticWorldCoordinate([lon, lat, 0.0]), z)
            _, frow, fcol = found.id
            ctx.check(0 <= frow < 2**z and 0 <= fcol < 2**z, "no such tile in the matrix", id=found.id)
            check_tile(ctx, name, found, z, frow, fcol)
            b = ref_bounds(z, frow, fcol)
            ctx.check(
                b[0] - TOL <= lon <= b[2] + TOL and b[1] - TOL <= lat <= b[3] + TOL,
                "the tile returned for a location does not contain it",
                location=(lon, lat),
                id=found.id,
            )
    # a hair (2 / 10000 of a pixel) on either side of an edge is inside the tile of that side
    if z <= 16:
        hair = 2e-4 / SETS[name]
        for cx, wx in ((col + hair, col), (col + 1 - hair, col), (col + 0.4, col), (col + 1 + hair, col + 1)):
            for cy, wy in ((row + hair, row), (row + 1 - hair, row), (row + 0.7, row), (row + 1 + hair, row + 1)):
                if wx < 2**z and wy < 2**z:
                    at = GeodeticWorldCoordinate([lon_of(cx, z), lat_of(cy, z), 0.0])
                    check_tile(ctx, name, ctx.call(ts.get_tile_for_location, at, z), z, wy, wx)
    # neighbours share an edge and the four tiles of the next level fill this one
    if col + 1 < 2**z:
        other = ctx.call(ts.get_tile, MapTileId(z, row, col + 1))
        ctx.check(abs(tile.bounds[2] - other.bounds[0]) < TOL, "gap or overlap between neighbours in a row")
    if row + 1 < 2**z:
        other = ctx.call(ts.get_tile, MapTileId(z, row + 1, col))
        ctx.check(abs(tile.bounds[3] - other.bounds[1]) < TOL, "gap or overlap between neighbours in a column")
    if z < 24:
        kids = [ctx.call(ts.get_tile, MapTileId(z + 1, 2 * row + i, 2 * col + j)).bounds for i in (0, 1) for j in (0, 1)]
        hull = (min(k[0] for k in kids), min(k[1] for k in kids), max(k[2] for k in kids), max(k[3] for k in kids))
        ctx.check(all(abs(a - b) < TOL for a, b in zip(hull, tile.bounds)), "tiles of the next level do not fill the tile")


def all_tiles(max_z):
    def gen():
        for name in SETS:
            for z in range(0, max_z + 1):
                for row in range(2**z):
                    for col in range(2**z):
                        yield {"set": name, "z": z, "row": row, "col": col}

    return gen


def deep_tiles(zooms):
    def gen():
        for name in SETS:
            for z in zooms:
                n = 2**z
                picks = sorted({0, 1, n // 3, n // 2 - 1, n // 2, (2 * n) // 3, n - 2, n - 1})
                for row in picks:
                    for col in picks:
                        yield {"set": name, "z": z, "row": row, "col": col}

    return gen


AREA_POINTS = [(-179.9, -80), (-120.5, 33.2), (-0.1, 51.5), (0.1, -0.1), (2.113, 0.395), (45.3, 45.2), (77.2, 28.6), (151.2, -33.8), (179.9, 84.9)]


def run_area(ctx, case):
    ts = TILE_SETS[case["set"]]
    z = case["z"]
    coords = [GeodeticWorldCoordinate([radians(AREA_POINTS[i][0]), radians(AREA_POINTS[i][1]), 0.0]) for i in case["points"]]
    before = [tuple(c.coordinate) for c in coords]
    limits = ctx.call(ts.get_tile_matrix_limits_for_area, coords, z)
    from math import floor, log, tan

    def exact(i):
        lon, lat = (radians(v) for v in AREA_POINTS[i])
        return (
            floor((lon + pi) / (2 * pi) * 2**z),
            floor((log(tan(pi / 4 + lat / 2)) / pi + 1) / 2 * 2**z),
        )

    cols, rows = zip(*[exact(i) for i in case["points"]])
    want = (min(cols), min(rows), max(cols), max(rows))
    ctx.state("area", tuple(limits), z)
    ctx.check(tuple(limits) == want, "limits (min_col, min_row, max_col, max_row) of an area", limits=limits, want=want)
    ctx.check([tuple(c.coordinate) for c in coords] == before, "the boundary coordinates were changed")


def areas(zooms, size):
    def gen():
        for name in SETS:
            for z in zooms:
                for n in range(1, size + 1):
                    for points in combinations(range(len(AREA_POINTS)), n):
                        yield {"set": name, "z": z, "points": list(points)}
                        if n > 1:
                            yield {"set": name, "z": z, "points": list(reversed(points))}

    return gen


def run_factory(ctx, case):
    ts = ctx.call(MapTileSetFactory.get_for_id, case["id"])
    ctx.state("factory", case["id"])
    if case["id"] in SETS:
        ctx.check(ts is not None and ts.tile_matrix_set_id == case["id"], "known tile set", ts=ts)
        check_tile(ctx, case["id"], ctx.call(ts.get_tile, MapTileId(3, 5, 2)), 3, 5, 2)
    else:
        ctx.check(ts is None, "an unknown tile set id has to be answered with None", ts=ts)


def spaces(tier):
    quick = tier == "quick"
    ids = [w.value for w in WellKnownMapTileSet] + ["", "webmercatorquad", "WebMercatorQuadx3", "WorldCRS84Quad"]
    max_z = 6 if quick else 8
    zooms = range(max_z + 1, 25)
    return [
        Space("factory", [{"id": i} for i in ids], run_factory, parallel=False, bound="all known ids and four unknown ones"),
        Space("all_tiles", all_tiles(max_z), run_tile, bound=f"every tile of zoom levels 0..{max_z} of both sets"),
        Space("deep_tiles", deep_tiles(zooms), run_tile, bound="8x8 first/middle/last rows and columns of the levels up to 24"),
        Space(
            "areas",
            areas([0, 1, 2, 5, 10, 17] if quick else range(0, 25), 3 if quick else 4),
            run_area,
            bound="every subset of 9 locations up to size 3 (quick) or 4",
        ),
    ]
