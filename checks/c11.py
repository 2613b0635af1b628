"""C11: SICD and SIDD sensor models put a pixel on the ground where its range, its range rate and the terrain say."""

import functools
import itertools
import math
import re
from xml.etree import ElementTree as ET

import numpy as np

from mc import data, sar
from mc.core import Space, product

from aws.osml.gdal import SensorModelFactory
from aws.osml.photogrammetry import (
    ConstantElevationModel,
    ElevationModel,
    ElevationRegionSummary,
    GeodeticWorldCoordinate,
    ImageCoordinate,
    SensorModelOptions,
    WorldCoordinate,
)
from aws.osml.photogrammetry.sicd_sensor_model import (
    GroundPlaneRRDotSurfaceProjection,
    HAERRDotSurfaceProjection,
    INCAProjectionSet,
    PFAProjectionSet,
    PlaneProjectionSet,
    Polynomial2D,
    PolynomialXYZ,
    RGAZCOMPProjectionSet,
    SARImageCoordConverter,
)

KNOWN = "sidd-world-to-image-off-plane"


class Slope(ElevationModel):
    """Terrain that is a smooth function of the location; exact is the height it gives."""

    def __init__(self, base, gradient, spacing=30.0):
        super().__init__()
        self.base, self.gradient, self.spacing = base, gradient, spacing

    def at(self, lon, lat):
        return self.base + self.gradient * 25.0 * (math.sin(3000 * lon) + math.cos(2500 * lat))

    def set_elevation(self, c):
        c.elevation = self.at(c.longitude, c.latitude)

    def describe_region(self, c):
        low = 50.0 * self.gradient
        return ElevationRegionSummary(self.base - low - 1, self.base + low + 1, -32767, self.spacing)


class Level(Slope):
    """Level ground at the highest or lowest elevation of its region, or in between."""

    def __init__(self, base, low, high, spacing=30.0):
        super().__init__(base, 0.0, spacing)
        self.low, self.high = low, high

    def at(self, lon, lat):
        return self.base

    def describe_region(self, c):
        return ElevationRegionSummary(self.base - self.low, self.base + self.high, -32767, self.spacing)


class Step(Slope):
    """Two levels with a cliff between them, so that the contour of a pixel meets the terrain three times."""

    def __init__(self, base, other, place, away, edge):
        super().__init__(base, 0.0, 10.0)
        self.other, self.place, self.away, self.edge = other, place, away, edge

    def at(self, lon, lat):
        s = float(np.dot(sar.ecef(lon, lat, self.base) - self.place, self.away))
        return self.other if (s > self.edge) == (self.edge > 0) else self.base

    def describe_region(self, c):
        return ElevationRegionSummary(min(self.base, self.other) - 5, max(self.base, self.other) + 5, -32767, self.spacing)


class Patchy(Slope):
    """Level ground that is known only in places."""

    def __init__(self, base, place, away, known):
        super().__init__(base, 0.0, 10.0)
        self.place, self.away, self.known = place, away, known

    def set_elevation(self, c):
        if self.known(float(np.dot(sar.ecef(c.longitude, c.latitude, self.base) - self.place, self.away))):
            c.elevation = self.base

    def describe_region(self, c):
        return ElevationRegionSummary(self.base - 80, self.base + 80, -32767, self.spacing)


KNOWN_AT = {
    "beyond": (lambda d: d > -20, True),
    "before": (lambda d: d < 20, True),
    "around": (lambda d: -30 < d < 25, True),
    "in strips": (lambda d: abs(d) < 12 or 30 < abs(d) < 45, True),
    "far beyond": (lambda d: d > 20, False),
    "far before": (lambda d: d < -20, False),
    "nowhere": (lambda d: False, False),
}


class Elsewhere(Slope):
    def set_elevation(self, c):
        return None

    def describe_region(self, c):
        return None


MOVES = {"north": (100.0, 88.5), "south": (-60.0, -85.5), "dateline": (180.0, -20.0), "null": (0.0, 0.0)}


@functools.lru_cache(None)
def xml(kind):
    base, *changes = kind.split("+")
    text = data.sar_xml({"rgazcomp": "pfa", "xctyat": "rma", "xrgycr": "rma", "plane": "rma"}.get(base, base))
    if base == "rgazcomp":
        text = text.replace("<ImageFormAlgo>PFA<", "<ImageFormAlgo>RGAZCOMP<")
        s = sar.Sar(data.sar_xml("pfa"))
        # the derivative of the cosine of the doppler cone angle with the azimuth at the scene centre
        az = 1.0 / np.linalg.norm(s.arp(s.coa(0, 0)) - s.scp)
        comp = f'<RgAzComp><AzSF>{-s.side() * az!r}</AzSF><KazPoly order1="0"><Coef exponent1="0">1.0</Coef></KazPoly></RgAzComp>'
        text = re.sub(r"<PFA>.*</PFA>", comp, text, flags=re.S)
    elif base in ("xctyat", "xrgycr", "plane"):
        text = re.sub(r"(<Grid>.*?<Type>)[A-Z]+(</Type>)", rf"\g<1>{base.upper()}\g<2>", text, count=1, flags=re.S)
    for c in changes:
        if c == "mirror":
            text = sar.mirrored(text)
        elif c in MOVES:
            text = sar.moved(text, *MOVES[c])
        elif c == "1.3.0":
            text = text.replace("urn:SICD:1.2.1", "urn:SICD:1.3.0")
        elif c == "3.0.0":
            text = text.replace("urn:SIDD:2.0.0", "urn:SIDD:3.0.0")
    return text


@functools.lru_cache(None)
def chip_xml(kind, first_row, first_col):
    text = xml(kind)
    part = text[text.index("<ImageData>") : text.index("<FullImage>")]
    new = data._set_element(data._set_element(part, "FirstRow", first_row), "FirstCol", first_col)
    return text.replace(part, new)


@functools.lru_cache(None)
def model_of(text, style="base64"):
    return SensorModelFactory(1000, 1000, xml_dess=sar.des_list([text], style)).build()


@functools.lru_cache(None)
def reference(text):
    return sar.Sar(text)


def height_model(name, scp_height):
    kind, *args = name.split(":")
    if kind == "none":
        return None
    if kind == "const":
        return ConstantElevationModel(scp_height + float(args[0]))
    if kind == "slope":
        return Slope(scp_height + float(args[0]), float(args[1]), float(args[2]))
    if kind == "level":
        return Level(scp_height, float(args[0]), float(args[1]))
    return Elsewhere(0.0, 0.0)


def geodetic(p):
    """Longitude, latitude, height of an ECF location."""
    r = math.hypot(p[0], p[1])
    lat = math.atan2(p[2], r * (1 - sar.E2))
    for _ in range(20):
        n = sar.A / math.sqrt(1 - sar.E2 * math.sin(lat) ** 2)
        h = r * math.cos(lat) + p[2] * math.sin(lat) - sar.A * math.sqrt(1 - sar.E2 * math.sin(lat) ** 2)
        lat = math.atan2(p[2], r * (1 - sar.E2 * n / (n + h)))
    return math.atan2(p[1], p[0]), lat, h


def up(lon, lat):
    return np.array([math.cos(lat) * math.cos(lon), math.cos(lat) * math.sin(lon), math.sin(lat)])


def off_reference(s, p):
    """Distance from the reference plane of the image."""
    if s.sidd:
        normal = np.cross(s.u_row, s.u_col)
    elif s.form == "PFA":
        normal = s.fpn / np.linalg.norm(s.fpn)
    else:
        normal = up(*geodetic(s.scp)[:2])
    return abs(float(np.dot(p - s.scp, normal)))


def check_pixel(ctx, text, model, pixel, elevation, tag, round_trip=True):
    s = reference(text)
    scp = geodetic(s.scp)
    em = height_model(elevation, scp[2])
    given = ImageCoordinate(list(pixel))
    w = ctx.call(model.image_to_world, given, em)
    ctx.check(list(given.coordinate) == list(pixel), "the image coordinate was changed")
    # options that are meant for other sensor models
    for options in ({}, {"unrelated": 1}, {SensorModelOptions.INITIAL_GUESS: [0.1, 0.2], SensorModelOptions.INITIAL_SEARCH_DISTANCE: 0.01}):
        again = ctx.call(model.image_to_world, given, em, options)
        off = float(np.linalg.norm(sar.ecef(*again.coordinate) - sar.ecef(*w.coordinate)))
        ctx.check(off < 1e-3, "options of other sensor models move the location", off=off, options=list(options))
    p = sar.ecef(w.longitude, w.latitude, w.elevation)
    arp, varp, r, rdot = s.contour(*pixel)
    d = arp - p
    got_r = float(np.linalg.norm(d))
    got_rdot = float(np.dot(varp, d)) / got_r
    ctx.check(abs(got_r - r) < 1e-2, "the location is not at the range of the pixel", got=got_r, want=r, pixel=pixel)
    ctx.check(
        abs(got_rdot - rdot) / np.linalg.norm(varp) * r < 2e-2,
        "the location does not have the range rate of the pixel",
        got=got_rdot,
        want=rdot,
        pixel=pixel,
    )
    look = float(np.dot(np.cross(arp - p, varp), p))
    ctx.check(look * s.side() > 0, "the location is on the other side of the track")
    if em is None or isinstance(em, Elsewhere):
        off = off_reference(s, p)
        ctx.check(off < 1e-2, "the location is not in the reference plane", off=off, pixel=pixel)
    elif isinstance(em, ConstantElevationModel):
        ctx.check(abs(w.elevation - em.constant_elevation) < 0.01, "not at the height of the elevation model", got=w.elevation)
    else:
        want = em.at(w.longitude, w.latitude)
        ctx.check(abs(w.elevation - want) < 0.5, "not on the terrain", got=w.elevation, want=want, pixel=pixel)
    ctx.state(tag, pixel, elevation)
    if round_trip:
        back = ctx.call(model.world_to_image, w)
        error = math.hypot(back.x - pixel[0], back.y - pixel[1])
        if s.sidd and em is not None and not isinstance(em, Elsewhere):
            if error > 0.1:
                # known: the location is dropped onto the reference plane along its normal
                drop = [float(np.dot(p - s.scp, u)) / ss + o for u, ss, o in zip((s.u_col, s.u_row), s.ss[::-1], s.scp_pixel[::-1])]
                off = math.hypot(back.x - drop[0], back.y - drop[1])
                ctx.check(off < 0.1, "the way back does not lead to the pixel", pixel=pixel, error=error, off=off, elevation=elevation)
                ctx.known_finding(KNOWN, f"round trip of {pixel} with {elevation} is off by {error:.1f} pixels")
        else:
            ctx.check(error < 0.1, "the way back does not lead to the pixel", pixel=pixel, error=error, elevation=elevation)
    return w


def pixel_at(s, fx, fy):
    return [round(fx * s.size[1], 2), round(fy * s.size[0], 2)]


def run_pixel(ctx, case):
    text = xml(case["image"])
    s = reference(text)
    model = model_of(text, case["style"])
    ctx.check(model is not None, "no sensor model from valid metadata", image=case["image"])
    check_pixel(ctx, text, model, pixel_at(s, *case["at"]), case["elevation"], case["image"])


def run_ground(ctx, case):
    """The pixel of a location: it has the range and the range rate of the pixel, by whichever name it goes."""
    text = xml(case["image"])
    s = reference(text)
    model = model_of(text)
    lon, lat, h = geodetic(s.scp)
    if case["image"].endswith("+null"):
        lon = lat = 0.0
    elif case["image"].endswith("+dateline"):
        lon = math.pi
    east, north, rise = case["at"]
    lon, lat, h = lon + east * 5e-5 / max(math.cos(lat), 0.05), lat + north * 5e-5, h + rise
    p = sar.ecef(lon, lat, h)
    pixel = ctx.call(model.world_to_image, GeodeticWorldCoordinate([lon, lat, h]))
    arp, varp, r, rdot = s.contour(pixel.x, pixel.y)
    d = arp - p
    got_r = float(np.linalg.norm(d))
    ctx.check(abs(got_r - r) < 0.05, "the pixel of a location has another range", got=r, want=got_r)
    ctx.check(abs(float(np.dot(varp, d)) / got_r - rdot) / np.linalg.norm(varp) * r < 0.1, "the pixel of a location has another range rate")
    for turn in (-2 * math.pi, 2 * math.pi):
        other = ctx.call(model.world_to_image, GeodeticWorldCoordinate([lon + turn, lat, h]))
        ctx.check(math.hypot(other.x - pixel.x, other.y - pixel.y) < 1e-2, "another pixel for another name of the location")
    ctx.state("ground", case)


def crossing(ctx, case):
    """Where the contour of a pixel crosses level ground, and in which direction it rises there, and how steeply."""
    text = xml(case["image"])
    s = reference(text)
    model = model_of(text)
    pixel = pixel_at(s, *case["at"])
    base = geodetic(s.scp)[2]
    w = ctx.call(model.image_to_world, ImageCoordinate(list(pixel)), ConstantElevationModel(base))
    place = sar.ecef(w.longitude, w.latitude, base)
    vertical = up(w.longitude, w.latitude)
    arp, varp, r, rdot = s.contour(*pixel)
    # the contour runs perpendicular to the line of sight and to the velocity, and rises away from the track
    tangent = np.cross(place - arp, varp)
    tangent *= np.sign(float(np.dot(tangent, vertical)))
    rise = float(np.dot(tangent, vertical))
    away = tangent - rise * vertical
    slope = rise / float(np.linalg.norm(away))
    return s, model, pixel, base, place, away / np.linalg.norm(away), slope


def run_patchy(ctx, case):
    """Terrain that is known only in places, near the location of the pixel or not."""
    s, model, pixel, base, place, away, _ = crossing(ctx, case)
    known, meets = KNOWN_AT[case["known"]]
    got = ctx.call(model.image_to_world, ImageCoordinate(list(pixel)), Patchy(base, place, away, known))
    p = sar.ecef(got.longitude, got.latitude, got.elevation)
    arp, varp, r, rdot = s.contour(*pixel)
    ctx.check(abs(float(np.linalg.norm(arp - p)) - r) < 1e-2, "the location is not at the range of the pixel")
    if meets:
        ctx.check(abs(got.elevation - base) < 0.1, "not on the terrain", got=got.elevation, want=base)
        ctx.check(float(np.linalg.norm(p - place)) < 1.0, "not where the pixel meets the terrain", off=float(np.linalg.norm(p - place)))
    else:
        ctx.check(off_reference(s, p) < 1e-2, "the location is not in the reference plane", off=off_reference(s, p))
    ctx.state("patchy", case)


def run_layover(ctx, case):
    """Of several locations of a pixel on the terrain the lowest one is chosen."""
    s, model, pixel, base, place, away, slope = crossing(ctx, case)
    arp, varp, r, rdot = s.contour(*pixel)
    sign = 1 if case["side"] == "hill" else -1
    # the cliff is at 60 m, where the contour has risen (fallen) by a part of the height of the other level only
    other = base + sign * (60.0 * slope + 40.0)
    terrain = Step(base, other, place, away, sign * 60.0)
    got = ctx.call(model.image_to_world, ImageCoordinate(list(pixel)), terrain)
    want = min(base, other)
    ctx.check(abs(got.elevation - want) < 0.5, "not the lowest of the locations", got=got.elevation, want=want, levels=(base, other))
    p = sar.ecef(got.longitude, got.latitude, got.elevation)
    ctx.check(abs(float(np.linalg.norm(arp - p)) - r) < 1e-2, "the location is not at the range of the pixel")
    ctx.state("layover", case)


def run_mirror(ctx, case):
    a, b = xml(case["image"]), xml(case["image"] + "+mirror")
    s = reference(a)
    pixel = pixel_at(s, *case["at"])
    scp = geodetic(s.scp)
    em = height_model(case["elevation"], scp[2])
    wa = ctx.call(model_of(a).image_to_world, ImageCoordinate(list(pixel)), em)
    wb = ctx.call(model_of(b).image_to_world, ImageCoordinate(list(pixel)), em)
    off = float(np.linalg.norm(sar.ecef(wa.longitude, wa.latitude, wa.elevation) - sar.ecef(wb.longitude, -wb.latitude, wb.elevation)))
    ctx.check(off < 1e-3, "the mirrored image is not at the mirrored place", off=off)
    ctx.state("mirror", case)


def run_chip(ctx, case):
    """A chip of an image: its pixels are those of the image it was cut from."""
    full, chip = xml(case["image"]), chip_xml(case["image"], *case["first"])
    s = reference(full)
    x, y = [float(int(v)) for v in pixel_at(s, *case["at"])]
    em = height_model(case["elevation"], geodetic(s.scp)[2])
    wf = ctx.call(model_of(full).image_to_world, ImageCoordinate([x, y]), em)
    pixel = [x - case["first"][1], y - case["first"][0]]
    wc = check_pixel(ctx, chip, model_of(chip), pixel, case["elevation"], ("chip", case["image"], tuple(case["first"])))
    off = float(np.linalg.norm(sar.ecef(*wf.coordinate) - sar.ecef(*wc.coordinate)))
    ctx.check(off < 1e-3, "the pixel of the chip is not where it was in the full image", off=off)
    back = ctx.call(model_of(chip).world_to_image, wf)
    ctx.check(math.hypot(back.x - pixel[0], back.y - pixel[1]) < 0.1, "chip pixel of a location", got=back.coordinate, want=pixel)


def sidd_chip(version, corners, size):
    text = xml("sidd-chip" + version)
    start, end = text.index("<ChipSize>"), text.index("</GeometricChip>")
    names = ["OriginalUpperLeft", "OriginalUpperRight", "OriginalLowerLeft", "OriginalLowerRight"]
    part = f"<ChipSize><si:Row>{size[1]}</si:Row><si:Col>{size[0]}</si:Col></ChipSize>"
    for n, (c, r) in zip(names, corners):
        part += f"<{n}Coordinate><si:Row>{r}</si:Row><si:Col>{c}</si:Col></{n}Coordinate>"
    return text[:start] + part + text[end:]


# full image pixel of a chip pixel
CHIPS = {
    "crop": lambda c, r: (c + 1000, r + 2000),
    "reduced": lambda c, r: (4 * c + 100, 4 * r + 300),
    "enlarged": lambda c, r: (0.5 * c + 7000, 0.5 * r + 7000),
    "turned": lambda c, r: (9000 - r, 3000 + c),
    "flipped": lambda c, r: (9000 - c, 3000 + r),
}


def run_sidd_chip(ctx, case):
    to_full = CHIPS[case["chip"]]
    w, h = case["size"]
    corners = [to_full(c, r) for c, r in ((0, 0), (w - 1, 0), (0, h - 1), (w - 1, h - 1))]
    model = model_of(sidd_chip("", tuple(corners), (w, h)))
    s = reference(xml("sidd"))
    ctx.check(model is not None, "no sensor model from valid metadata")
    for fx, fy in ((0, 0), (1, 0), (0, 1), (1, 1), (0.5, 0.25), (0.1, 0.8)):
        x, y = fx * (w - 1), fy * (h - 1)
        # the model of a whole SIDD image counts its pixels from zero
        want = s.plane_point(*to_full(x, y))
        got = ctx.call(model.image_to_world, ImageCoordinate([x, y]))
        off = float(np.linalg.norm(sar.ecef(*got.coordinate) - want))
        ctx.check(off < 1e-2, "the chip pixel is not where it was in the full image", off=off, pixel=(x, y))
        back = ctx.call(model.world_to_image, got)
        ctx.check(math.hypot(back.x - x, back.y - y) < 0.1, "the way back does not lead to the pixel", got=back.coordinate, want=(x, y))
        ctx.state("sidd-chip", case["chip"], w, h, fx, fy)


# -- every number of the metadata ---------------------------------------------------------------------------------------
def _coefficient(poly, exponents):
    """The Coef element of a polynomial for the given exponents, which is added if there is none."""
    for c in poly:
        if tuple(int(c.get(f"exponent{i + 1}")) for i in range(len(exponents))) == tuple(exponents):
            return c
    c = ET.SubElement(poly, poly[0].tag)
    for i, e in enumerate(exponents):
        c.set(f"exponent{i + 1}", str(e))
        poly.set(f"order{i + 1}", str(max(e, int(poly.get(f"order{i + 1}")))))
    # every combination up to the order is there
    for combination in itertools.product(*[range(int(poly.get(f"order{i + 1}")) + 1) for i in range(len(exponents))]):
        if combination != tuple(exponents):
            if not any(tuple(int(o.get(f"exponent{i + 1}")) for i in range(len(exponents))) == combination for o in poly):
                o = ET.SubElement(poly, c.tag)
                o.text = "0.0"
                for i, e in enumerate(combination):
                    o.set(f"exponent{i + 1}", str(e))
    c.text = "0.0"
    return c


def rewrite(root, how):
    """The same polynomials, without the terms that are zero or with their terms in the opposite order."""
    for poly in root.iter():
        terms = [c for c in poly if sar.local(c.tag) == "Coef"]
        if not terms:
            continue
        for c in terms:
            poly.remove(c)
        keep = [c for c in terms if float(c.text) != 0.0] or terms[:1]
        for c in keep if how == "sparse" else terms[::-1]:
            poly.append(c)


def change(text, edits, how="full"):
    """Adds to (or, with *, multiplies) numbers of the metadata: path[,exponents] -> amount."""
    root = ET.fromstring(text)
    for path, exponents, kind, amount in edits:
        e = sar.find(root, path)
        if exponents is not None:
            e = _coefficient(e, exponents)
        value = float(e.text or 0.0)
        value = value * amount if kind == "*" else value + amount
        e.text = str(int(value)) if path.startswith("ImageData") else repr(value)
    if how != "full":
        rewrite(root, how)
    return ET.tostring(root, encoding="unicode")


ARP = [((0,), 40.0), ((1,), -6.0), ((2,), 0.4), ((3,), 0.02)]
COA = [((0, 0), 0.05), ((1, 0), 3e-5), ((0, 1), -4e-5), ((1, 1), 5e-9), ((2, 0), 4e-9), ((0, 2), 3e-9), ((2, 1), 1e-12), ((1, 2), 1e-12)]


def edits_of(kind):
    """Every number that matters for the projection of an image of this kind, and by how much it is changed."""
    base = kind.split("+")[0]
    if base == "sidd":
        m = "Measurement/PlaneProjection/"
        yield [(m + "ReferencePoint/Point/Row", None, "+", 371.0)]
        yield [(m + "ReferencePoint/Point/Col", None, "+", -533.0)]
        yield [(m + "SampleSpacing/Row", None, "*", 1.5)]
        yield [(m + "SampleSpacing/Col", None, "*", 0.6)]
        coa, arp = m + "TimeCOAPoly", "Measurement/ARPPoly/"
    else:
        yield [("ImageData/SCPPixel/Row", None, "+", 371)]
        yield [("ImageData/SCPPixel/Col", None, "+", -133)]
        yield [("ImageData/FirstRow", None, "+", 47), ("ImageData/FirstCol", None, "+", 211)]
        yield [("Grid/Row/SS", None, "*", 1.5)]
        yield [("Grid/Col/SS", None, "*", 0.6)]
        yield [("Grid/Row/SS", None, "*", 8.0), ("Grid/Col/SS", None, "*", 8.0)]
        coa, arp = "Grid/TimeCOAPoly", "Position/ARPPoly/"
    for exponents, amount in COA:
        yield [(coa, exponents, "+", amount)]
    for axis in "XYZ":
        for exponents, amount in ARP:
            yield [(arp + axis, exponents, "+", amount)]
    # an antenna that accelerates, seen at another time
    for axis in "XYZ":
        yield [(arp + axis, (2,), "+", 1.0), (coa, (0, 0), "+", 0.4)]
    if base == "pfa":
        # the output plane is tilted: its normal is no longer that of the ellipsoid
        fpn = reference(xml(kind)).fpn
        for tilt in np.vstack([0.1 * np.eye(3), -0.2 * np.eye(3)]):
            n = (fpn + tilt) / np.linalg.norm(fpn + tilt)
            yield [(f"PFA/FPN/{axis}", None, "+", float(n[i] - fpn[i])) for i, axis in enumerate("XYZ")]
        for exponents, amount in [((0,), 0.01), ((1,), 3e-4), ((2,), 1e-4), ((3,), 1e-5)]:
            yield [("PFA/PolarAngPoly", exponents, "+", amount)]
        for exponents, amount in [((0,), 0.01), ((1,), 0.02), ((2,), 0.1), ((3,), 0.3)]:
            yield [("PFA/SpatialFreqSFPoly", exponents, "+", amount)]
    if base == "rgazcomp":
        yield [("RgAzComp/AzSF", None, "*", 1.1)]
    if base == "capella":
        yield [("RMA/INCA/R_CA_SCP", None, "+", 35.0)]
        for exponents, amount in [((0,), 0.01), ((1,), 1e-6), ((2,), 1e-10), ((3,), 1e-14)]:
            yield [("RMA/INCA/TimeCAPoly", exponents, "+", amount)]
        for exponents, amount in [((0, 0), 0.01), ((1, 0), 2e-6), ((0, 1), -5e-6), ((1, 1), 1e-9), ((2, 0), 1e-9), ((0, 2), 1e-9)]:
            # away from the closest approach, where the Doppler rate does not matter
            yield [("RMA/INCA/DRateSFPoly", exponents, "+", amount), (coa, (0, 0), "+", 0.4)]


@functools.lru_cache(maxsize=8)
def _changed(kind, index, how):
    return change(xml(kind), list(edits_of(kind))[index], how)


def run_changed(ctx, case):
    text = _changed(case["image"], case["index"], case["how"])
    s = reference(text)
    model = ctx.call(model_of, text)
    ctx.check(model is not None, "no sensor model from valid metadata", image=case["image"])
    for at in ((0.21, 0.37), (0.9, 0.08), (0.5, 0.93)):
        for elevation in ("none", "const:25"):
            check_pixel(ctx, text, model, pixel_at(s, *at), elevation, (case["image"], case["index"], case["how"]))


# -- the parts of a sensor model, put together by hand -----------------------------------------------------------------
def _coefs(element):
    """The array of the coefficients of a polynomial."""
    terms = [(tuple(int(c.get(k)) for k in sorted(c.keys()) if k.startswith("exponent")), float(c.text)) for c in element if sar.local(c.tag) == "Coef"]
    out = np.zeros([max(e[i] for e, _ in terms) + 1 for i in range(len(terms[0][0]))])
    for e, v in terms:
        out[e] = v
    return out


ADJUSTED = {
    "none": {},
    "all": dict(delta_arp=np.array([12.0, -7.0, 3.0]), delta_varp=np.array([0.3, 0.2, -0.1]), range_bias=21.0),
    "arp": dict(delta_arp=np.array([-40.0, 11.0, 9.0])),
    "varp": dict(delta_varp=np.array([-0.5, 0.4, 0.2])),
    "bias": dict(range_bias=-13.0),
}


@functools.lru_cache(None)
def parts_of(kind, adjusted):
    root, s = ET.fromstring(xml(kind)), reference(xml(kind))
    measurement = "Measurement/" if s.sidd else "Position/"
    grid = "Measurement/PlaneProjection/" if s.sidd else "Grid/"
    scp = WorldCoordinate(list(s.scp))
    arp = PolynomialXYZ(*[np.polynomial.Polynomial(_coefs(sar.find(root, measurement + "ARPPoly/" + a))) for a in "XYZ"])
    common = dict(coa_time_poly=Polynomial2D(_coefs(sar.find(root, grid + "TimeCOAPoly"))), arp_poly=arp, **{k: np.copy(v) for k, v in ADJUSTED[adjusted].items()})
    if s.form == "PFA":
        one = [np.polynomial.Polynomial(_coefs(sar.find(root, "PFA/" + n))) for n in ("PolarAngPoly", "SpatialFreqSFPoly")]
        contours = PFAProjectionSet(scp, *one, **common)
    elif s.form == "RGAZCOMP":
        contours = RGAZCOMPProjectionSet(scp, s.az_sf, **common)
    elif s.form == "INCA":
        one = np.polynomial.Polynomial(_coefs(sar.find(root, "RMA/INCA/TimeCAPoly")))
        contours = INCAProjectionSet(s.r_ca, one, Polynomial2D(_coefs(sar.find(root, "RMA/INCA/DRateSFPoly"))), **common)
    else:
        contours = PlaneProjectionSet(scp, s.u_row, s.u_col, **common)
    # the pixels are counted in columns and rows
    place = ImageCoordinate([s.scp_pixel[1], s.scp_pixel[0]])
    return scp, SARImageCoordConverter(place, scp, s.u_row, s.u_col, s.ss[0], s.ss[1]), contours


def run_parts(ctx, case):
    s = reference(xml(case["image"]))
    scp, converter, contours = parts_of(case["image"], case["adjusted"])
    change = {"delta_arp": np.zeros(3), "delta_varp": np.zeros(3), "range_bias": 0.0, **ADJUSTED[case["adjusted"]]}
    x, y = pixel_at(s, *case["at"])
    row_col = np.array([y + s.first[0], x + s.first[1]])
    offsets = np.array([(row_col[i] - s.scp_pixel[i]) * s.ss[i] for i in (0, 1)])
    plane = s.plane_point(x, y)
    got = ctx.call(converter.rowcol_to_xrowycol, row_col)
    ctx.check(np.allclose(got, offsets, atol=1e-6), "wrong distances from the scene centre", got=got.tolist(), want=offsets.tolist())
    ctx.check(np.allclose(ctx.call(converter.xrowycol_to_rowcol, got), row_col, atol=1e-6), "the pixel does not come back")
    ipp = ctx.call(converter.xrowycol_to_ipp, offsets)
    ctx.check(np.linalg.norm(ipp - plane) < 1e-3, "wrong point of the image plane")
    ctx.check(np.allclose(ctx.call(converter.ipp_to_xrowycol, plane), offsets, atol=1e-3), "wrong distances of a point of the image plane")
    arp, varp, r, rdot = s.contour(x, y)
    for _ in range(2):
        # asked twice, to see what the first question left behind
        got_r, got_rdot, _, got_arp, got_varp = ctx.call(contours.precise_rrdot_computation, offsets)
        ctx.check(abs(got_r - r - change["range_bias"]) < 1e-3, "wrong range", got=float(got_r), want=r)
        ctx.check(abs(got_rdot - rdot) < 1e-5, "wrong range rate", got=float(got_rdot), want=rdot)
        ctx.check(np.linalg.norm(got_arp - arp - change["delta_arp"]) < 1e-3, "wrong position of the antenna")
        ctx.check(np.linalg.norm(got_varp - varp - change["delta_varp"]) < 1e-6, "wrong velocity of the antenna")
    ctx.state("parts", case["image"], case["adjusted"], *case["at"])
    lon, lat, height = geodetic(s.scp)
    side = "L" if s.side() > 0 else "R"
    vertical = up(lon, lat)
    tilted = 3.0 * vertical + 0.2 * s.u_row
    ground = GroundPlaneRRDotSurfaceProjection
    centre = s.scp / np.linalg.norm(s.scp)
    surfaces = {
        "geodetic": (lambda: ground(scp, None), vertical, None),
        "spherical": (lambda: ground(scp, None, ground.GroundPlaneNormalType.SPHERICAL_EARTH), centre, None),
        "tilted": (lambda: ground(scp, tilted), tilted / np.linalg.norm(tilted), None),
    }
    for above in (-60.0, 0.0, 300.0):
        surfaces[f"height{above}"] = (lambda h=height + above: HAERRDotSurfaceProjection(scp, side, h), None, height + above)
    for name, (make, normal, level) in surfaces.items():
        p = ctx.call(ctx.call(make).rrdot_to_ground, got_r, got_rdot, got_arp, got_varp)[0]
        d = got_arp - p
        dist = float(np.linalg.norm(d))
        rate = float(np.dot(got_varp, d)) / dist
        ctx.check(abs(dist - got_r) < 1e-2, "the point is not at the range", surface=name, got=dist, want=float(got_r))
        ctx.check(abs(rate - got_rdot) / np.linalg.norm(got_varp) * got_r < 2e-2, "the point does not have the range rate", surface=name)
        ctx.check(float(np.dot(np.cross(d, got_varp), p)) * s.side() > 0, "the point is on the other side of the track", surface=name)
        if level is None:
            ctx.check(abs(float(np.dot(p - s.scp, normal))) < 1e-3, "the point is not in the plane", surface=name)
        else:
            ctx.check(abs(geodetic(p)[2] - level) < 1e-3, "the point is not at the height", surface=name, got=geodetic(p)[2], want=level)


def spaces(tier):
    quick = tier == "quick"
    grid = [0.0, 0.37, 1.0] if quick else [0.0, 0.12, 0.37, 0.5, 0.81, 1.0]
    sicd = ["capella", "pfa", "rma", "rgazcomp", "xctyat", "xrgycr", "plane"]
    heights = ["none", "const:0", "const:120", "const:2500", "slope:10:1:30", "level:150:0", "level:0:150", "level:80:70", "elsewhere"]
    if not quick:
        heights += ["const:-40", "const:900", "slope:200:1:90", "slope:-10:0.2:10"]
    images = sicd + ["sidd"] + [i + "+mirror" for i in sicd + ["sidd"]] + ["pfa+1.3.0", "capella+1.3.0", "rma+1.3.0", "sidd+3.0.0"]
    moved = [f"{i}+{m}" for i in sicd + ["sidd"] for m in MOVES]

    def pixel_cases():
        for c in product(image=images, fx=grid, fy=grid, elevation=heights):
            yield dict(image=c["image"], at=[c["fx"], c["fy"]], elevation=c["elevation"], style="base64")
        for c in product(image=moved, fx=grid, fy=grid, elevation=[h for h in heights if h.split(":")[0] in ("none", "const", "elsewhere")]):
            yield dict(image=c["image"], at=[c["fx"], c["fy"]], elevation=c["elevation"], style="base64")
        for c in product(image=["capella", "pfa", "rma"], fx=grid[1:2], fy=grid, elevation=heights[:2]):
            yield dict(image=c["image"], at=[c["fx"], c["fy"]], elevation=c["elevation"], style="expanded")

    return [
        Space(
            "pixel",
            pixel_cases,
            run_pixel,
            bound=f"{len(images) + len(moved)} images (all grid types, both sides, both hemispheres, at the poles, at the antimeridian and where it all starts, all schema versions), {len(grid)}x{len(grid)} pixels, {len(heights)} terrains",
        ),
        Space(
            "ground",
            lambda: (dict(image=c["image"], at=[c["east"], c["north"], c["rise"]]) for c in product(image=sicd + [i + "+mirror" for i in sicd] + [f"{i}+{m}" for i in sicd for m in MOVES], east=[-1, 0, 0.5], north=[-0.7, 0, 1], rise=[-600.0, 0.0, 40.0, 3000.0])),
            run_ground,
            bound="3x3x4 locations around the scene centers, by three names each",
        ),
        Space(
            "layover",
            lambda: ({"image": c["image"], "at": [c["fx"], c["fy"]], "side": c["side"]} for c in product(image=sicd + ["sidd"] + [i + "+mirror" for i in sicd], fx=grid, fy=grid, side=["hill", "pit"])),
            run_layover,
            bound="terrain with a cliff: three locations per pixel",
        ),
        Space(
            "patchy",
            lambda: ({"image": c["image"], "at": [c["fx"], c["fy"]], "known": c["known"]} for c in product(image=sicd + ["sidd"] + [i + "+mirror" for i in sicd], fx=grid, fy=grid, known=list(KNOWN_AT))),
            run_patchy,
            bound="terrain known in 7 arrangements around the pixel",
        ),
        Space(
            "mirror",
            lambda: ({"image": c["image"], "at": [c["fx"], c["fy"]], "elevation": c["elevation"]} for c in product(image=sicd + ["sidd"], fx=grid, fy=grid, elevation=["none", "const:50"])),
            run_mirror,
            bound="each image against its mirror image",
        ),
        Space(
            "chip",
            lambda: ({"image": c["image"], "first": list(c["first"]), "at": [c["fx"], c["fy"]], "elevation": c["elevation"]} for c in product(image=sicd, first=[(0, 0), (100, 0), (0, 200), (700, 300)], fx=grid, fy=grid[:2], elevation=["none", "const:30"])),
            run_chip,
            bound="4 chip origins",
        ),
        Space(
            "changed",
            lambda: (dict(image=i, index=n, how=h) for h in ("full", "sparse", "reversed") for i in sicd + ["sidd", "pfa+mirror", "capella+mirror", "sidd+mirror"] for n in range(len(list(edits_of(i))))),
            run_changed,
            bound="every number of the metadata that takes part in the projection changed, polynomials of up to third order written in three ways, 3 pixels, 2 terrains",
        ),
        Space(
            "parts",
            lambda: (dict(image=c["image"], adjusted=c["adjusted"], at=[c["fx"], c["fy"]]) for c in product(image=sicd + ["sidd", "pfa+mirror", "capella+mirror", "sidd+mirror"], adjusted=list(ADJUSTED), fx=grid, fy=grid)),
            run_parts,
            bound="coordinate conversions, contours with every adjustable parameter, 3 kinds of ground plane and 3 heights, for parts put together by hand",
        ),
        Space(
            "sidd-chip",
            lambda: product(chip=list(CHIPS), size=[[512, 512], [300, 700], [1000, 40], [2, 2]]),
            run_sidd_chip,
            bound="5 chip geometries, 4 sizes",
        ),
    ]


NOTES = {
    "assumptions": [
        "terrain is given to the sensor model by an elevation model that describes the heights around the scene centre",
        "SIDD locations above or below the reference plane are listed as a known finding for world_to_image only",
    ]
}
