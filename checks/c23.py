"""C23: geodetic and geocentric coordinates are WGS 84 and inverse to each other; coordinates are plain values."""

import math

import numpy as np

from mc.core import Space, product, sequences

from aws.osml.photogrammetry import (
    GeodeticWorldCoordinate,
    ImageCoordinate,
    WorldCoordinate,
    geocentric_to_geodetic,
    geodetic_to_geocentric,
)

NOTES = {"assumptions": ["locations from 11 km below to 1000 km above the ellipsoid"]}

A = 6378137.0
F = 1 / 298.257223563
E2 = F * (2 - F)
ELEVATIONS = [-11000.0, -430.0, 0.0, 0.5, 1234.5, 8849.0, 20000.0, 600000.0, 1000000.0]


def ecef(lon, lat, h):
    n = A / math.sqrt(1 - E2 * math.sin(lat) ** 2)
    return [
        (n + h) * math.cos(lat) * math.cos(lon),
        (n + h) * math.cos(lat) * math.sin(lon),
        (n * (1 - E2) + h) * math.sin(lat),
    ]


def run_row(ctx, case):
    lat = math.radians(case["lat"])
    for lon_degrees in case["lons"]:
        lon = math.radians(lon_degrees)
        for h in case["elevations"]:
            given = GeodeticWorldCoordinate([lon, lat, h])
            got = ctx.call(geodetic_to_geocentric, given)
            ctx.check(isinstance(got, WorldCoordinate) and not isinstance(got, GeodeticWorldCoordinate), "not a geocentric coordinate", got=got)
            want = ecef(lon, lat, h)
            error = max(abs(g - w) for g, w in zip((got.x, got.y, got.z), want))
            ctx.check(error < 1e-5, "not the geocentric location", lon=lon_degrees, lat=case["lat"], h=h, got=got, want=want)
            ctx.check([given.longitude, given.latitude, given.elevation] == [lon, lat, h], "the input was changed")
            source = WorldCoordinate(want)
            back = ctx.call(geocentric_to_geodetic, source)
            ctx.check(isinstance(back, GeodeticWorldCoordinate), "not a geodetic coordinate", got=back)
            ctx.check([source.x, source.y, source.z] == want, "the input was changed")
            ctx.check(abs(back.latitude - lat) < 1e-10 + abs(h) * 1e-14 and abs(back.elevation - h) < 1e-4 + abs(h) * 2e-8, "not the geodetic location", lon=lon_degrees, lat=case["lat"], h=h, got=back)
            difference = math.remainder(back.longitude - lon, 2 * math.pi)
            # metres along the parallel: at a pole every longitude is the same place
            ctx.check(abs(difference) * math.cos(lat) * A < 1e-4, "not the geodetic location", lon=lon_degrees, lat=case["lat"], h=h, got=back)
            ctx.check(abs(back.longitude) <= math.pi + 1e-12 and abs(back.latitude) <= math.pi / 2 + 1e-12, "not an angle of the earth", got=back)
            ctx.state(lon_degrees, case["lat"], h)


def rows(step, elevations):
    def gen():
        lats = sorted({-90.0, 90.0, -89.9999, 89.9999, 1e-9, 0.0, -1e-9} | set(np.arange(-90, 90.001, step).tolist()))
        lons = sorted({-180.0, 180.0, -179.9999, 179.9999, 0.0, 1e-9, -1e-9, 90.0, -90.0} | set(np.arange(-180, 180.001, step * 1.7).tolist()))
        for lat in lats:
            yield {"lat": lat, "lons": lons, "elevations": elevations}

    return gen


def run_axes(ctx, case):
    """Geocentric locations on the axes and diagonals, where components are zero or equal."""
    direction, h = case["direction"], case["h"]
    radius = math.hypot(direction[0], direction[1])
    lat = math.atan2(direction[2], radius)  # of the direction; exact for the poles and the equator
    if direction[2] == 0:
        scale = (A + h) / radius
        want = [math.atan2(direction[1], direction[0]), 0.0, h]
    else:
        scale = A * math.sqrt(1 - E2) + h
        want = [None, lat, h]
    given = WorldCoordinate([v * scale for v in direction])
    back = ctx.call(geocentric_to_geodetic, given)
    ctx.check(
        abs(back.latitude - want[1]) < 1e-10 + abs(h) * 1e-14 and abs(back.elevation - h) < 1e-4 + abs(h) * 2e-8, "not the geodetic location", got=back, want=want
    )
    if want[0] is not None:
        ctx.check(abs(math.remainder(back.longitude - want[0], 2 * math.pi)) < 1e-11, "not the geodetic location", got=back, want=want)
    again = ctx.call(geodetic_to_geocentric, back)
    error = max(abs(a - b) for a, b in zip((again.x, again.y, again.z), (given.x, given.y, given.z)))
    ctx.check(error < 1e-3 + abs(h) * 3e-8, "not the location it started from", got=again, want=given)
    ctx.state(direction, h)


def axes():
    directions = [[x, y, 0] for x in (-1, 0, 1) for y in (-1, 0, 1) if x or y] + [[0, 0, 1], [0, 0, -1]]
    for direction in directions:
        for h in ELEVATIONS:
            yield {"direction": direction, "h": h}


def run_far(ctx, case):
    """Satellites, and longitudes named beyond 180 degrees."""
    lon, lat, h = math.radians(case["lon"]), math.radians(case["lat"]), case["h"]
    got = ctx.call(geodetic_to_geocentric, GeodeticWorldCoordinate([lon, lat, h]))
    want = ecef(lon, lat, h)
    error = max(abs(g - w) for g, w in zip((got.x, got.y, got.z), want))
    ctx.check(error < 1e-5 + abs(h) * 1e-12, "not the geocentric location", got=got, want=want)
    ctx.state(case)


# -- values ------------------------------------------------------------------------------------------------------------
KINDS = {
    "world": (WorldCoordinate, 3, [("x", 0), ("y", 1), ("z", 2)]),
    "geodetic": (GeodeticWorldCoordinate, 3, [("x", 0), ("y", 1), ("z", 2), ("longitude", 0), ("latitude", 1), ("elevation", 2)]),
    "image": (ImageCoordinate, 2, [("x", 0), ("y", 1), ("c", 0), ("r", 1)]),
}


def run_values(ctx, case):
    """Three coordinates built in different ways; assignments change one component of one of them and nothing else."""
    cls, n, names = KINDS[case["kind"]]
    values = [float(i + 1) for i in range(n)]
    source = {"list": list, "tuple": tuple, "array": np.array, "ints": lambda v: [int(x) for x in v], "floats": lambda v: np.array(v, dtype=np.float32), "int array": lambda v: np.array(v, dtype=np.int32)}[case["source"]](values)
    first = ctx.call(cls, source)
    second = ctx.call(cls, first.coordinate)
    third = ctx.call(cls)
    objects = [first, second, third]
    model = [list(values), list(values), [0.0] * n]
    if isinstance(source, np.ndarray):
        source[0] = 99.0  # does not reach into the coordinate
    value = 10.1  # not a 32 bit number
    for target, name in case["history"]:
        value += 1.5
        setattr(objects[target], name, value)
        ctx.transitions += 1
        model[target][dict(names)[name]] = value
        for o, m in zip(objects, model):
            got = [float(v) for v in o.coordinate]
            ctx.check(got == m, "an assignment changed something else", got=got, want=m)
            ctx.check(all(float(getattr(o, k)) == m[i] for k, i in names), "a component has another value", want=m)
    if not isinstance(source, np.ndarray):
        ctx.check(list(source) == values, "the source was changed", got=source)
    fourth = ctx.call(cls)
    ctx.check([float(v) for v in fourth.coordinate] == [0.0] * n, "a new coordinate is not zero", got=fourth)
    ctx.state(case["kind"], model)


def value_cases(length):
    def gen():
        for kind, (_, _, names) in KINDS.items():
            operations = [[t, name] for t in (0, 1, 2) for name, _ in names]
            for source in ("list", "tuple", "array", "ints", "floats", "int array"):
                for history in sequences(operations, length):
                    yield {"kind": kind, "source": source, "history": history}

    return gen


def run_bad(ctx, case):
    cls, n, _ = KINDS[case["kind"]]
    if case["length"] == n:
        ctx.call(cls, [0.0] * n)
    else:
        ctx.call_raises(ValueError, cls, [0.0] * case["length"])


def spaces(tier):
    quick = tier == "quick"
    return [
        Space("grid", rows(5 if quick else 1, ELEVATIONS), run_row, bound="every 5 (1) degrees of latitude, every 8.5 (1.7) of longitude, 9 elevations"),
        Space("axes", lambda: axes(), run_axes, bound="10 directions along the axes and diagonals, 9 elevations"),
        Space(
            "far",
            list(product(lon=[-350.0, -190.0, -75.0, 0.0, 139.5, 181.0, 200.0, 359.0], lat=[-90.0, -61.5, -10.0, 0.0, 45.0, 89.9], h=[0.0, 1.5e6, 2.02e7, 3.5786e7, 4e8])),
            run_far,
            bound="8 longitudes up to a full turn, 6 latitudes, 5 elevations up to 400000 km",
        ),
        Space("values", value_cases(2 if quick else 3), run_values, bound="3 kinds, 6 ways to build, all histories of 2 (3) assignments to 3 coordinates"),
        Space("bad", list(product(kind=list(KINDS), length=range(0, 6))), run_bad, bound="0 to 5 components"),
    ]
