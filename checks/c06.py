"""C06: the elevation tile selected for a location is the one degree cell that contains it."""

import math

from mc.core import Space

from aws.osml.photogrammetry import GenericDEMTileSet, GeodeticWorldCoordinate, SRTMTileSet

INSETS = [(0.5, 0.5), (1e-6, 1e-6), (1 - 1e-6, 1e-6), (1e-6, 1 - 1e-6), (1 - 1e-6, 1 - 1e-6), (1e-9, 1 - 1e-9), (1 - 1e-9, 1e-9)]


def srtm(prefix, version, extension):
    def name(lat, lon):
        return f"{prefix}{'s' if lat < 0 else 'n'}{abs(lat):02d}_{'w' if lon < 0 else 'e'}{abs(lon):03d}_{version}{extension}"

    return SRTMTileSet(prefix, version, extension), name


def generic(spec, expected):
    def name(lat, lon):
        return expected.format(
            lon=abs(lon), lat=abs(lat), h="w" if lon < 0 else "e", v="s" if lat < 0 else "n", H="W" if lon < 0 else "E", V="S" if lat < 0 else "N"
        )

    return GenericDEMTileSet(spec), name


TILE_SETS = {
    "srtm": srtm("", "1arc_v3", ".tif"),
    "srtm-3arc": srtm("srtm/", "3arc_v2", ".dt1"),
    "generic": (GenericDEMTileSet(), generic("", "{lon:03d}{h}/{lat:02d}{v}.dt2")[1]),
    "dted": generic("dted/%oh%od/%lh%ld.dt2", "dted/{h}{lon:03d}/{v}{lat:02d}.dt2"),
    "upper": generic("%lH%ld%oH%od_%lm%ls%om%os.hgt", "{V}{lat:02d}{H}{lon:03d}_00000000.hgt"),
}


def run_row(ctx, case):
    """All the cells of one degree of latitude."""
    tile_set, name = TILE_SETS[case["set"]]
    lat = case["lat"]
    seen = {}
    for lon in range(-180, 180):
        want = name(lat, lon)
        if case["set"].startswith("srtm") and (lat > 59 or lat < -56):
            want = None
        for fx, fy in case["insets"]:
            for elevation in (0.0, -100.0, 6543.2):
                c = GeodeticWorldCoordinate([math.radians(lon + fx), math.radians(lat + fy), elevation])
                got = ctx.call(tile_set.find_tile_id, c)
                ctx.check(got == want, "wrong elevation tile", lat=lat + fy, lon=lon + fx, got=got, want=want)
        if want is not None:
            ctx.check(want not in seen, "two cells share a tile")
            seen[want] = lon
        ctx.state(case["set"], want)


def run_edges(ctx, case):
    """Locations on a parallel or meridian between cells: one of the cells that meet there."""
    tile_set, name = TILE_SETS[case["set"]]
    lat = case["lat"]
    for lon in range(-180, 180):
        for fx, fy in ((0.5, 0.0), (0.25, 0.0), (0.0, 0.5), (0.0, 0.25), (0.0, 0.0)):
            wants = set()
            for la in (lat, lat - 1) if fy == 0 else (lat,):
                for lo in (lon, lon - 1) if fx == 0 else (lon,):
                    la, lo = max(la, -90), lo if lo >= -180 else 179
                    wants.add(None if case["set"].startswith("srtm") and (la > 59 or la < -56) else name(la, lo))
            c = GeodeticWorldCoordinate([math.radians(lon + fx), math.radians(lat + fy), 12.5])
            got = ctx.call(tile_set.find_tile_id, c)
            ctx.check(got in wants, "wrong elevation tile", lat=lat + fy, lon=lon + fx, got=got, want=wants)
            ctx.state("edge", case["set"], got)


def rows(insets):
    def gen():
        for s in TILE_SETS:
            for lat in range(-90, 90):
                yield {"set": s, "lat": lat, "insets": insets}

    return gen


LIMITS = [(-90, 90, -180, 180), (-10, 10, -20, 20), (0, 5, 0, 7), (30, 40, -125, -110), (-56, 59, -180, 180)]


def run_limited(ctx, case):
    lat0, lat1, lon0, lon1 = case["limits"]
    tile_set = GenericDEMTileSet("%ld%lh%od%oh", lat0, lat1, lon0, lon1)
    lat, lon = case["lat"], case["lon"]
    inside = lat0 <= lat and lat + 1 <= lat1 and lon0 <= lon and lon + 1 <= lon1
    outside = lat + 1 <= lat0 or lat > lat1 or lon + 1 <= lon0 or lon > lon1
    got = ctx.call(tile_set.find_tile_id, GeodeticWorldCoordinate([math.radians(lon + 0.5), math.radians(lat + 0.5), 0.0]))
    want = f"{abs(lat):02d}{'s' if lat < 0 else 'n'}{abs(lon):03d}{'w' if lon < 0 else 'e'}"
    ctx.state(case["limits"], got)
    if inside:
        ctx.check(got == want, "no or a wrong tile inside the coverage", got=got, want=want)
    elif outside:
        ctx.check(got is None, "a tile outside the coverage", got=got)


def limited(step):
    def gen():
        for limits in LIMITS:
            for lat in range(-90, 90, 1):
                for lon in sorted(set(range(-180, 180, step)) | set(range(-22, 23)) | set(range(-127, -107))):
                    yield {"limits": list(limits), "lat": lat, "lon": lon}

    return gen


def spaces(tier):
    quick = tier == "quick"
    return [
        Space("cells", rows(INSETS), run_row, bound="all 64800 one degree cells, 7 places in each, 5 naming conventions"),
        Space("edges", rows(None), run_edges, bound="all parallels and meridians between the cells, 5 naming conventions"),
        Space("coverage", limited(12 if quick else 1), run_limited, bound="5 coverage limits"),
    ]
