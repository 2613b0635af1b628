"""C10: RPC00B and RSM polynomial sensor models are the polynomials of their metadata, and invert them."""

import math

import numpy as np

from mc import tre
from mc.core import Space, product

from aws.osml.gdal import SensorModelFactory
from aws.osml.photogrammetry import (
    ConstantElevationModel,
    ElevationModel,
    GeodeticWorldCoordinate,
    ImageCoordinate,
    RPCPolynomial,
    RPCSensorModel,
    RSMContext,
    RSMGroundDomain,
    RSMGroundDomainForm,
    RSMImageDomain,
    RSMLowOrderPolynomial,
    RSMPolynomial,
    RSMPolynomialSensorModel,
    SensorModelOptions,
    WorldCoordinate,
)

A, E2 = 6378137.0, 6.69437999014131699614e-3
UNIT = [(0.3, -0.7, 0.45), (-0.9, 0.2, -0.6), (1.1, 1.3, 0.8), (0.0, 0.0, 0.0), (0.55, 0.65, -1.2)]


def ecef(lon, lat, h):
    n = A / math.sqrt(1 - E2 * math.sin(lat) ** 2)
    return np.array(
        [(n + h) * math.cos(lat) * math.cos(lon), (n + h) * math.cos(lat) * math.sin(lon), (n * (1 - E2) + h) * math.sin(lat)]
    )


class Hills(ElevationModel):
    """Terrain that varies over the image; knows=False for a model that covers another part of the world."""

    def __init__(self, knows=True):
        super().__init__()
        self.knows = knows

    @staticmethod
    def at(lon, lat):
        return 300.0 + 60.0 * math.sin(2000 * lon) + 40.0 * math.cos(1700 * lat)

    def set_elevation(self, c):
        if not self.knows:
            return False
        c.elevation = self.at(c.longitude, c.latitude)
        return True

    def describe_region(self, c):
        return None


# -- RPC -------------------------------------------------------------------------------------------------------------
NORM = {
    "ERR_BIAS": 1.0,
    "ERR_RAND": 0.5,
    "LINE_OFF": 1500.0,
    "SAMP_OFF": 2000.0,
    "LAT_OFF": -33.25,
    "LONG_OFF": 151.5,
    "HEIGHT_OFF": 120.0,
    "LINE_SCALE": 1600.0,
    "SAMP_SCALE": 2100.0,
    "LAT_SCALE": 0.021,
    "LONG_SCALE": 0.033,
    "HEIGHT_SCALE": 510.0,
}
KEYS = {
    "ERR_BIAS": "err_bias",
    "ERR_RAND": "err_rand",
    "LINE_OFF": "line_off",
    "SAMP_OFF": "samp_off",
    "LAT_OFF": "lat_off",
    "LONG_OFF": "long_off",
    "HEIGHT_OFF": "height_off",
    "LINE_SCALE": "line_scale",
    "SAMP_SCALE": "samp_scale",
    "LAT_SCALE": "lat_scale",
    "LONG_SCALE": "long_scale",
    "HEIGHT_SCALE": "height_scale",
    "LINE_NUM_COEFF": "line_num_poly",
    "LINE_DEN_COEFF": "line_den_poly",
    "SAMP_NUM_COEFF": "samp_num_poly",
    "SAMP_DEN_COEFF": "samp_den_poly",
}


def coefficients(kind, name):
    n = tre.RPC_POLYNOMIALS.index(name)
    base = [0.0] * 20
    if "NUM" in name:
        base[1 if "SAMP" in name else 2] = 1.0 if "SAMP" in name else -1.0
    else:
        base[0] = 1.0
    if kind == "all":
        # as in real cameras: quadratic and cubic terms are small
        size = [2e-3, 2e-2, 2e-4, 1e-6]
        base = [b + size[sum(tre.RPC_POWERS[i])] * math.sin(1.3 * (i + 1) + 2 * n) for i, b in enumerate(base)]
    return base


def rpc(norm, polynomials, via):
    if via == "constructor":
        kw = {KEYS[k]: v for k, v in norm.items()}
        kw.update({KEYS[k]: RPCPolynomial(list(v)) for k, v in polynomials.items()})
        return RPCSensorModel(**kw)
    root = tre.tres(tre.rpc_tre(norm, polynomials))
    if via == "shuffled":  # the groups of a repeated element carry an index; their order means nothing
        for repeated in root.iter("repeated"):
            groups = list(repeated)
            for g in groups:
                repeated.remove(g)
            repeated.extend(groups[::-1])
    return SensorModelFactory(4000, 3000, xml_tres=root).build()


def run_rpc_terms(ctx, case):
    polynomials = {p: coefficients("plain", p) for p in tre.RPC_POLYNOMIALS}
    if case["term"] == "all":
        polynomials = {p: coefficients("all", p) for p in tre.RPC_POLYNOMIALS}
    else:
        polynomials[case["polynomial"]][case["term"]] += 0.37
    norm = dict(NORM)
    if case["norm"]:
        norm[case["norm"]] *= 1.5 if "OFF" in case["norm"] else 0.5
        if case["norm"] in ("LAT_OFF", "LONG_OFF"):
            norm[case["norm"]] = -norm[case["norm"]] / 1.5
    if case.get("place"):
        norm["LONG_OFF"], norm["LAT_OFF"], norm["HEIGHT_OFF"] = case["place"]
    model = ctx.call(rpc, norm, polynomials, case["via"])
    ctx.check(model is not None, "no sensor model from valid RPC00B metadata")
    for u, v, w in UNIT:
        lon, lat = norm["LONG_OFF"] + u * norm["LONG_SCALE"], norm["LAT_OFF"] + v * norm["LAT_SCALE"]
        h = norm["HEIGHT_OFF"] + w * norm["HEIGHT_SCALE"]
        want = tre.rpc_reference(norm, polynomials, lon, lat, h)
        c = GeodeticWorldCoordinate([math.radians(lon), math.radians(lat), h])
        got = ctx.call(model.world_to_image, c)
        ctx.check(
            abs(got.x - want[0]) < 1e-4 and abs(got.y - want[1]) < 1e-4,
            "the location is not where the polynomials put it",
            got=got.coordinate,
            want=want,
            at=(u, v, w),
        )
        ctx.state("rpc", case["polynomial"], case["term"], case["norm"], case.get("place"), round(want[0], 3), round(want[1], 3))


def rpc_term_cases():
    for via in ("constructor", "factory", "shuffled"):
        yield {"via": via, "polynomial": None, "term": "all", "norm": None}
        for place in ((0.0, 0.0, 0.0), (0.0, 45.0, 3000.0), (-77.5, 0.0, 4500.0), (12.5, 83.5, 60.0), (179.99, -84.5, 2800.0), (-179.99, 20.0, -350.0)):
            yield {"via": via, "polynomial": None, "term": "all", "norm": None, "place": place}
        for name in tre.RPC_POLYNOMIALS:
            for term in range(20):
                yield {"via": via, "polynomial": name, "term": term, "norm": None}
        for name in tre.RPC_FIELDS:
            yield {"via": via, "polynomial": None, "term": "all", "norm": name}


# -- round trips of any model with a search --------------------------------------------------------------------------
LIMIT = 0.5  # pixels, and it is also what the search is told to stop at


def elevation_model(name):
    return {"none": None, "constant": ConstantElevationModel(450.0), "hills": Hills(), "elsewhere": Hills(False)}[name]


def check_round_trip(ctx, model, pixel, elevation, default_height, options, tag, limit=LIMIT):
    em = elevation_model(elevation)
    given = ImageCoordinate(list(pixel))
    w = ctx.call(model.image_to_world, given, em, options)
    ctx.check(list(given.coordinate) == list(pixel), "the image coordinate was changed")
    want = {
        "none": default_height,
        "constant": 450.0,
        "hills": Hills.at(w.longitude, w.latitude),
        "elsewhere": default_height,
    }[elevation]
    ctx.check(abs(w.elevation - want) < 1e-6, "not the height of that place", got=w.elevation, want=want, elevation=elevation)
    back = ctx.call(model.world_to_image, w)
    error = math.hypot(back.x - pixel[0], back.y - pixel[1])
    ctx.check(error <= limit, "the way back does not lead to the pixel", pixel=pixel, error=error, elevation=elevation)
    ctx.state(tag, pixel, elevation, round(w.longitude, 9), round(w.latitude, 9))
    return w


PLACES = [(151.5, -33.25), (-117.1, 32.7), (0.001, 0.002), (12.5, 65.0), (179.998, 10.0), (-179.998, -45.0)]


def synthetic_rpc(place, kind):
    norm = dict(NORM, LONG_OFF=PLACES[place][0], LAT_OFF=PLACES[place][1])
    return norm, {p: coefficients(kind, p) for p in tre.RPC_POLYNOMIALS}


def run_rpc_search(ctx, case):
    if case["model"] == "sample":
        model = SensorModelFactory(8820, 9408, xml_tres=tre.sample("sample-metadata-ms-rpc00b.xml")).build()
        t = tre.sample("sample-metadata-ms-rpc00b.xml").find("./tre[@name='RPC00B']")
        value = lambda n: float(t.find(f"./field[@name='{n}']").get("value"))
        lon, lat, h = value("LONG_OFF"), value("LAT_OFF"), value("HEIGHT_OFF")
        so, ss, lo, ls = value("SAMP_OFF"), value("SAMP_SCALE"), value("LINE_OFF"), value("LINE_SCALE")
    else:
        norm, polynomials = synthetic_rpc(case["model"], "all")
        model = rpc(norm, polynomials, "factory")
        lon, lat, h = norm["LONG_OFF"], norm["LAT_OFF"], norm["HEIGHT_OFF"]
        so, ss, lo, ls = norm["SAMP_OFF"], norm["SAMP_SCALE"], norm["LINE_OFF"], norm["LINE_SCALE"]
    pixel = [round(so + case["at"][0] * ss, 2), round(lo + case["at"][1] * ls, 2)] if case["pixel"] is None else list(case["pixel"])
    guess = [math.radians(lon + 0.01), math.radians(lat - 0.01)]
    options = {
        "none": None,
        "empty": {},
        "list": {SensorModelOptions.INITIAL_GUESS: guess},
        "array": {SensorModelOptions.INITIAL_GUESS: np.array(guess)},
        "near": {SensorModelOptions.INITIAL_GUESS: guess, SensorModelOptions.INITIAL_SEARCH_DISTANCE: math.radians(0.005)},
        "other": {"unrelated": 1},
    }[case["options"]]
    before = repr(options)
    w = check_round_trip(ctx, model, pixel, case["elevation"], h, options, ("rpc", case["model"]))
    ctx.check(repr(options) == before, "the caller's options were changed")
    for turn in (-2 * math.pi, 2 * math.pi):
        # the same place by another name
        p = ctx.call(model.world_to_image, GeodeticWorldCoordinate([w.longitude + turn, w.latitude, w.elevation]))
        ctx.check(math.hypot(p.x - pixel[0], p.y - pixel[1]) <= LIMIT, "the pixel of a longitude beyond 180 degrees", got=p.coordinate)
    if case["model"] != "sample":
        # and the place itself, from the reference polynomials
        want = tre.rpc_reference(norm, polynomials, math.degrees(w.longitude), math.degrees(w.latitude), w.elevation)
        ctx.check(math.hypot(want[0] - pixel[0], want[1] - pixel[1]) <= LIMIT, "another place", pixel=pixel, want=want)


# -- RSM -------------------------------------------------------------------------------------------------------------
RSM_PLACES = {
    "G": [(151.5, -33.25), (-117.1, 32.7), (0.0, 0.0), (12.5, 83.5)],
    "H": [(179.9999, 10.0), (-179.98, -45.0), (190.0, 20.0)],
    "R": [(151.5, -33.25), (-117.1, 32.7), (179.9999, 10.0), (0.0, 0.0), (-45.0, -84.0)],
}
SIZE = (4000, 3000)


def rsm(form, place, powers, change=None, reference=False, via="constructor", section=(1, 1)):
    """A camera that looks at the place; powers is (x, y, z)."""
    lon, lat = RSM_PLACES[form][place]
    h = 150.0
    if form == "R":
        la, ph = math.radians(lat), math.radians(lon)
        vectors = [
            [-math.sin(ph), math.cos(ph), 0.0],
            [-math.sin(la) * math.cos(ph), -math.sin(la) * math.sin(ph), math.cos(la)],
            [math.cos(la) * math.cos(ph), math.cos(la) * math.sin(ph), math.sin(la)],
        ]
        # a turn of the axes so that the matrix is not symmetric
        t = 0.3
        turn = [[math.cos(t), math.sin(t), 0], [-math.sin(t), math.cos(t), 0], [0, 0, 1]]
        vectors = np.dot(turn, vectors)
        origin = ecef(ph, la, h)
        centre, scale = (10.0, -20.0, 5.0), (2500.0, 2000.0, 600.0)
    else:
        vectors = origin = None
        if form == "H":
            lon %= 360
        centre, scale = (math.radians(lon), math.radians(lat), h), (math.radians(0.02), math.radians(0.015), 600.0)
    corners = [(x, y, z) for z in (-0.5, 0.5) for y in (-1.6, 1.6) for x in (-1.6, 1.6)]
    vertices = [tuple(c + s * f for c, s, f in zip(centre, scale, corner)) for corner in corners]
    grp = tuple(c + s * f for c, s, f in zip(centre, scale, (0.1, 0.2, 0.25))) if reference else None
    norm = {
        "RNRMO": 1500.0,
        "CNRMO": 2000.0,
        "XNRMO": centre[0],
        "YNRMO": centre[1],
        "ZNRMO": centre[2],
        "RNRMSF": 1600.0,
        "CNRMSF": 2100.0,
        "XNRMSF": scale[0],
        "YNRMSF": scale[1],
        "ZNRMSF": scale[2],
    }
    order = tre.rsm_powers(*powers)
    polynomials = {}
    for n, name in enumerate(("RN", "RD", "CN", "CD")):
        c = [0.004 * math.sin(1.7 * (i + 1) + n) for i in range(len(order))]
        lead = {"RN": (0, 1, 0), "CN": (1, 0, 0)}.get(name, (0, 0, 0))
        if lead in order:
            c[order.index(lead)] += {"RN": -1.0, "CN": 1.0}.get(name, 1.0)
        if change and change[0] == name:
            c[change[1]] += 0.21
        polynomials[name] = (powers, c)
    if via == "constructor":
        domain = RSMGroundDomain(
            RSMGroundDomainForm(form),
            [WorldCoordinate(list(v)) for v in vertices],
            rectangular_coordinate_origin=WorldCoordinate(list(origin)) if origin is not None else None,
            rectangular_coordinate_unit_vectors=vectors,
            ground_reference_point=WorldCoordinate(list(grp)) if grp else None,
        )
        order4 = ["RNRMO", "CNRMO", "XNRMO", "YNRMO", "ZNRMO", "RNRMSF", "CNRMSF", "XNRMSF", "YNRMSF", "ZNRMSF"]
        model = RSMPolynomialSensorModel(
            RSMContext(domain, RSMImageDomain(0, SIZE[1], 0, SIZE[0])),
            1,
            1,
            *[norm[n] for n in order4],
            *[RSMPolynomial(*powers, list(polynomials[n][1])) for n in ("RN", "RD", "CN", "CD")],
        )
    else:
        root = tre.tres(
            tre.rsmid_tre(form, vertices, (0, SIZE[1], 0, SIZE[0]), origin, vectors, grp),
            tre.rsmpc_tre(section, norm, polynomials),
        )
        model = SensorModelFactory(*SIZE, xml_tres=root).build()
    if form == "R":
        frame = lambda p: np.linalg.solve(np.array(vectors), np.array(p)) + origin
        heights = [geodetic_height(frame(v)) for v in vertices]
        height = geodetic_height(frame(grp)) if grp else sum(heights) / 8
    else:
        height = grp[2] if grp else h
    return model, dict(norm=norm, polynomials=polynomials, origin=origin, vectors=vectors, centre=centre, scale=scale, height=height)


def geodetic_height(p):
    r = math.hypot(p[0], p[1])
    lat = math.atan2(p[2], r * (1 - E2))
    for _ in range(12):
        n = A / math.sqrt(1 - E2 * math.sin(lat) ** 2)
        h = r * math.cos(lat) + p[2] * math.sin(lat) - A * math.sqrt(1 - E2 * math.sin(lat) ** 2)
        lat = math.atan2(p[2], r * (1 - E2 * n / (n + h)))
    return h


def to_domain(form, info, lon, lat, h):
    """Geodetic radians and metres to the ground domain."""
    if form == "R":
        return np.dot(info["vectors"], ecef(lon, lat, h) - info["origin"])
    return (lon % (2 * math.pi) if form == "H" else lon, lat, h)


def near(form, place, u, v, w):
    lon, lat = RSM_PLACES[form][place]
    return math.radians(lon + 0.02 * u), math.radians(lat + 0.015 * v), 150.0 + 300 * w


def run_rsm_terms(ctx, case):
    form, place = case["form"], case["place"]
    change = None if case["term"] is None else (case["polynomial"], case["term"])
    model, info = ctx.call(rsm, form, place, tuple(case["powers"]), change, via=case["via"])
    ctx.check(model is not None, "no sensor model from valid RSM metadata")
    for u, v, w in UNIT + [(0.5, -0.5, 8.5), (-0.5, 0.25, -1.9), (0.25, 0.25, -0.4)]:
        lon, lat, h = near(form, place, u, v, w)
        for turn in (0, 2 * math.pi, -2 * math.pi) if form == "H" else (0,):
            want = tre.rsm_reference(info["norm"], info["polynomials"], *to_domain(form, info, lon, lat, h))
            got = ctx.call(model.world_to_image, GeodeticWorldCoordinate([lon + turn, lat, h]))
            ctx.check(
                abs(got.x - want[0]) < 1e-4 and abs(got.y - want[1]) < 1e-4,
                "the location is not where the polynomials put it",
                got=got.coordinate,
                want=want,
                at=(u, v, w),
            )
        ctx.state(form, place, case["powers"], case["polynomial"], case["term"], round(want[0], 3), round(want[1], 3))


def rsm_term_cases(quick):
    def gen():
        top = 2 if quick else 3
        places = [(f, p) for f in RSM_PLACES for p in range(len(RSM_PLACES[f]))]
        for via in ("constructor", "factory"):
            for form, place in places:
                for powers in ((1, 1, 1), (3, 2, 1), (0, 1, 2)):
                    yield dict(via=via, form=form, place=place, powers=list(powers), polynomial=None, term=None)
        for p in product(x=range(top + 1), y=range(top + 1), z=range(top + 1)):
            powers = [p["x"], p["y"], p["z"]]
            for name in ("RN", "RD", "CN", "CD"):
                for term in range((powers[0] + 1) * (powers[1] + 1) * (powers[2] + 1)):
                    yield dict(via="factory", form="R", place=0, powers=powers, polynomial=name, term=term)

    return gen


def run_rsm_search(ctx, case):
    if case["form"] == "sample":
        root = tre.sample("i_6130a_truncated_tres.xml")
        model = SensorModelFactory(9122, 9292, xml_tres=root).build()
        height = None
        size = (9122, 9292)
        guess = None
    else:
        model, info = rsm(case["form"], case["place"], (2, 2, 1), reference=case["reference"], via="factory")
        height, size = info["height"], SIZE
        lon, lat = RSM_PLACES[case["form"]][case["place"]]
        if case["form"] == "H":
            lon %= 360
        guess = [math.radians(lon + 0.004), math.radians(lat + 0.003)]
    pixel = [round(case["at"][0] * size[0], 2), round(case["at"][1] * size[1], 2)] if case["pixel"] is None else list(case["pixel"])
    options = {
        "none": None,
        "empty": {},
        "list": {SensorModelOptions.INITIAL_GUESS: guess},
        "near": {SensorModelOptions.INITIAL_GUESS: guess, SensorModelOptions.INITIAL_SEARCH_DISTANCE: math.radians(0.005)},
    }[case["options"]]
    if height is None:
        if case["elevation"] in ("none", "elsewhere"):
            # the average of the heights of the vertices of the ground domain
            t = root.find("./tre[@name='RSMIDA']")
            value = lambda n: float(t.find(f"./field[@name='{n}']").get("value"))
            m = np.array([[value(f"{c}U{r}R") for c in "XYZ"] for r in "XYZ"])
            o = np.array([value(f"{c}UOR") for c in "XYZ"])
            hs = [geodetic_height(np.linalg.solve(m, [value(f"V{n}{c}") for c in "XYZ"]) + o) for n in range(1, 9)]
            height = sum(hs) / 8
    elif case["form"] == "R" and not case["reference"]:
        height = info["height"]
    before = repr(options)
    w = check_round_trip(ctx, model, pixel, case["elevation"], height, options, ("rsm", case["form"], case["place"], case["reference"]))
    ctx.check(repr(options) == before, "the caller's options were changed")
    if case["form"] != "sample":
        d = to_domain(case["form"], info, w.longitude, w.latitude, w.elevation)
        want = tre.rsm_reference(info["norm"], info["polynomials"], *d)
        ctx.check(math.hypot(want[0] - pixel[0], want[1] - pixel[1]) <= LIMIT, "another place", pixel=pixel, want=want)


# -- the polynomials on their own ------------------------------------------------------------------------------------
def run_polynomials(ctx, case):
    if case["kind"] == "rsm":
        p = case["powers"]
        n = (p[0] + 1) * (p[1] + 1) * (p[2] + 1)
        for bad in (n - 1, n + 1):
            ctx.call_raises(ValueError, RSMPolynomial, *p, [1.0] * bad)
        c = [1.0 + 0.1 * i for i in range(n)]
        poly, order = ctx.call(RSMPolynomial, *p, list(c)), tre.rsm_powers(*p)
    elif case["kind"] == "low":
        for bad in (0, 9, 11):
            ctx.call_raises(ValueError, RSMLowOrderPolynomial, [1.0] * bad)
        c = [0.0 if case["term"] is not None and i != case["term"] else 1.0 + 0.1 * i for i in range(10)]
        poly, order = ctx.call(RSMLowOrderPolynomial, list(c)), tre.LOW_POWERS
    else:
        c = [0.0 if case["term"] is not None and i != case["term"] else 1.0 + 0.1 * i for i in range(20)]
        poly, order = ctx.call(RPCPolynomial, list(c)), tre.RPC_POWERS
    for at in UNIT + [(2.0, 3.0, 5.0), (-2.0, -3.0, -5.0)]:
        want = tre.polynomial(order, c, *at)
        for got in (ctx.call(poly, WorldCoordinate(list(at))), ctx.call(poly.evaluate, WorldCoordinate(list(at)))):
            ctx.check(abs(got - want) <= 1e-9 * max(1.0, abs(want)), "the value of the polynomial", got=got, want=want, at=at)
        ctx.state(case["kind"], case.get("powers"), case.get("term"), at)


def polynomial_cases():
    for term in [None] + list(range(20)):
        yield {"kind": "rpc", "term": term}
    for term in [None] + list(range(10)):
        yield {"kind": "low", "term": term}
    for p in product(x=range(6), y=range(6), z=range(6)):
        yield {"kind": "rsm", "powers": [p["x"], p["y"], p["z"]]}


def run_domain(ctx, case):
    """Ground domain coordinates and back."""
    model, info = rsm(case["form"], case["place"], (1, 1, 1))
    domain = model.context.ground_domain
    for u, v, w in UNIT:
        lon, lat, h = near(case["form"], case["place"], u, v, w)
        c = GeodeticWorldCoordinate([lon, lat, h])
        d = ctx.call(domain.geodetic_to_ground_domain_coordinate, c)
        want = to_domain(case["form"], info, lon, lat, h)
        ctx.check(np.allclose(d.coordinate, want, rtol=0, atol=1e-5 if case["form"] == "R" else 1e-12), "domain", got=d.coordinate, want=want)
        ctx.check(list(c.coordinate) == [lon, lat, h], "the world coordinate was changed")
        back = ctx.call(domain.ground_domain_coordinate_to_geodetic, WorldCoordinate([float(x) for x in d.coordinate]))
        turn = abs(back.longitude - lon) % (2 * math.pi)
        ctx.check(
            min(turn, 2 * math.pi - turn) < 1e-11 and abs(back.latitude - lat) < 1e-11 and abs(back.elevation - h) < 1e-4,
            "ground domain round trip",
            got=back.coordinate,
            want=(lon, lat, h),
        )
        # the normalisations, each way
        n = info["norm"]
        offsets, scales = np.array([n[k + "NRMO"] for k in "XYZ"]), np.array([n[k + "NRMSF"] for k in "XYZ"])
        at = offsets + scales * (0.3 * u, -0.4 * v, 0.2 + w)
        normal = ctx.call(model.normalize_world_coordinate, WorldCoordinate(list(at)))
        ctx.check(np.allclose(normal.coordinate, (at - offsets) / scales, rtol=0, atol=1e-9), "the normalised location", got=normal.coordinate)
        back = ctx.call(model.denormalize_world_coordinate, normal)
        ctx.check(np.allclose(back.coordinate, at, rtol=1e-12, atol=1e-9), "the normalisation of a location is not undone", got=back.coordinate, want=at)
        column, row = 700.0 + 311.0 * u, 900.0 - 217.0 * v
        normal = ctx.call(model.normalize_image_coordinate, ImageCoordinate([column, row]))
        want = ((column - n["CNRMO"]) / n["CNRMSF"], (row - n["RNRMO"]) / n["RNRMSF"])
        ctx.check(np.allclose(normal.coordinate, want, rtol=0, atol=1e-12), "the normalised pixel", got=normal.coordinate, want=want)
        back = ctx.call(model.denormalize_image_coordinate, normal)
        ctx.check(np.allclose(back.coordinate, (column, row), rtol=0, atol=1e-9), "the normalisation of a pixel is not undone", got=back.coordinate)
        ctx.state("domain", case["form"], case["place"], u)


def spaces(tier):
    quick = tier == "quick"
    grid = [-0.9, -0.4, 0.0, 0.7] if quick else [-0.95, -0.7, -0.4, -0.1, 0.0, 0.25, 0.6, 0.9]
    unit = [0.02, 0.3, 0.5, 0.97] if quick else [0.01, 0.15, 0.3, 0.45, 0.5, 0.7, 0.85, 0.99]
    every = ["none", "constant", "hills", "elsewhere"]
    # the first pixel, the edges, between pixels and slightly outside
    special = [(0.0, 0.0), (0.0, 1234.0), (1234.0, 0.0), (321.125, 0.625), (-7.5, 100.0), (100.0, -7.25), (-0.5, -0.5)]

    def rpc_search():
        models = ["sample"] + list(range(len(PLACES)))
        for c in product(model=models, ax=grid, ay=grid, elevation=every):
            yield dict(model=c["model"], at=[c["ax"], c["ay"]], elevation=c["elevation"], options="none", pixel=None)
        for c in product(model=models, pixel=special, elevation=every):
            yield dict(model=c["model"], at=None, elevation=c["elevation"], options="none", pixel=c["pixel"])
        for c in product(model=["sample"], pixel=[(6200.5, 7100.25), (8819.5, 9407.5), (10.0, 9300.0), (8000.0, 12.5)], elevation=every):
            yield dict(model=c["model"], at=None, elevation=c["elevation"], options="none", pixel=c["pixel"])
        for c in product(model=models, ax=grid[:3], ay=grid[1:], options=["empty", "list", "array", "near", "other"]):
            yield dict(model=c["model"], at=[c["ax"], c["ay"]], elevation="hills", options=c["options"], pixel=None)

    def rsm_search():
        models = [("sample", 0, False)] + [
            (f, p, r) for f in RSM_PLACES for p in range(len(RSM_PLACES[f])) for r in (False, True)
        ]
        for c in product(model=models, ax=unit, ay=unit, elevation=every):
            f, p, r = c["model"]
            yield dict(form=f, place=p, reference=r, at=[c["ax"], c["ay"]], elevation=c["elevation"], options="none", pixel=None)
        for c in product(model=models, pixel=special, elevation=every):
            f, p, r = c["model"]
            yield dict(form=f, place=p, reference=r, at=None, elevation=c["elevation"], options="none", pixel=c["pixel"])
        for c in product(model=models, ax=unit[1:3], ay=unit[1:3], options=["empty", "list", "near"]):
            f, p, r = c["model"]
            if f == "sample" and c["options"] != "empty":
                continue
            yield dict(form=f, place=p, reference=r, at=[c["ax"], c["ay"]], elevation="hills", options=c["options"], pixel=None)

    return [
        Space("polynomials", polynomial_cases, run_polynomials, bound="every term; RSM powers up to 5 per axis"),
        Space("rpc-terms", rpc_term_cases, run_rpc_terms, bound="every coefficient of every polynomial, every normalisation field, 3 ways to build"),
        Space("rsm-terms", rsm_term_cases(quick), run_rsm_terms, bound="powers up to %d per axis, every coefficient, all ground domain forms" % (2 if quick else 3)),
        Space(
            "rsm-domain",
            [{"form": f, "place": p} for f in RSM_PLACES for p in range(len(RSM_PLACES[f]))],
            run_domain,
            bound="3 forms of ground domains, 9 places",
        ),
        Space("rpc-search", rpc_search, run_rpc_search, bound=f"7 cameras, {len(grid)}x{len(grid)} and 7 special pixels, 4 elevation models, 6 kinds of options"),
        Space("rsm-search", rsm_search, run_rsm_search, bound=f"19 cameras, {len(unit)}x{len(unit)} and 7 special pixels, 4 elevation models, 4 kinds of options"),
    ]


NOTES = {
    "assumptions": [
        "cameras are nearly affine over their image, as those of real images are",
        "the way back from a location found by the iterative search is judged against half a pixel",
    ]
}
