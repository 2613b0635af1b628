"""C14: the sensor model factory uses the best metadata there is, and metadata it cannot use is as good as absent."""

import copy
import functools
import math
import re
from xml.etree import ElementTree as ET

import numpy as np
from osgeo import gdal

from mc import data, sar, tre
from mc.core import Space, product, subsets

from aws.osml.gdal import SensorModelFactory, SensorModelTypes
from aws.osml.photogrammetry import CompositeSensorModel, GeodeticWorldCoordinate, ImageCoordinate

# Every source of metadata describes the same kind of camera, a little further east and south than the one before it, so
# that the location of a pixel tells the source.
STEP = 1e-5  # degrees per pixel
LON, LAT = 10.0, 50.0
SHIFT = {"gt": 0.001, "gcp": 0.002, "cscrna": 0.003, "rpc": 0.004, "rsm": 0.005}
FULL = (4000, 3000)
CHIP = (1000, 800)
PIXELS = [(0.0, 0.0), (640.0, 210.0), (1000.0, 800.0)]


def place(source, x, y):
    return LON + SHIFT[source] + STEP * x, LAT - SHIFT[source] / 2 - STEP * y


def to_full(x, y):
    return 2.0 * x + 500.0, 2.0 * y + 300.0


def tre_of(source):
    if source == "rpc":
        cx, cy = 2000.0, 1500.0
        lon, lat = place("rpc", cx, cy)
        norm = dict(zip(tre.RPC_FIELDS, [1.0, 1.0, cy, cx, lat, lon, 100.0, 1500.0, 2000.0, 1500 * STEP, 2000 * STEP, 500.0]))
        poly = {p: [0.0] * 20 for p in tre.RPC_POLYNOMIALS}
        poly["LINE_NUM_COEFF"][2], poly["LINE_DEN_COEFF"][0], poly["SAMP_NUM_COEFF"][1], poly["SAMP_DEN_COEFF"][0] = -1.0, 1.0, 1.0, 1.0
        return [tre.rpc_tre(norm, poly)]
    if source == "rsm":
        cx, cy = 2000.0, 1500.0
        lon, lat = (math.radians(v) for v in place("rsm", cx, cy))
        sx, sy = math.radians(2000 * STEP), math.radians(1500 * STEP)
        vertices = [(lon + a * 1.5 * sx, lat + b * 1.5 * sy, 100.0 + c) for c in (-300, 300) for b in (-1, 1) for a in (-1, 1)]
        norm = dict(RNRMO=cy, CNRMO=cx, XNRMO=lon, YNRMO=lat, ZNRMO=100.0, RNRMSF=1500.0, CNRMSF=2000.0, XNRMSF=sx, YNRMSF=sy, ZNRMSF=500.0)
        one, lin = [1.0] + [0.0] * 7, [0.0] * 8
        poly = {"RN": ((1, 1, 1), lin[:2] + [-1.0] + lin[3:]), "RD": ((1, 1, 1), one), "CN": ((1, 1, 1), [0.0, 1.0] + lin[2:]), "CD": ((1, 1, 1), one)}
        return [
            tre.rsmid_tre("G", vertices, (0, FULL[1], 0, FULL[0]), reference=(lon, lat, 100.0)),
            tre.rsmpc_tre((1, 1), norm, poly),
        ]
    if source == "cscrna":
        return None  # depends on the size of the image
    raise KeyError(source)


def cscrna(size):
    corners = {}
    for name, (fx, fy) in tre.CORNERS.items():
        lon, lat = place("cscrna", fx * size[0], fy * size[1])
        corners[name] = (lat, lon, 0.0)
    return tre.cscrna_tre(corners)


def ichipb():
    chip = [(0.0, 0.0), (CHIP[0], 0.0), (0.0, CHIP[1]), CHIP]
    return tre.ichipb_tre([to_full(*c) for c in chip], FULL, chip)


GCPS = {
    "corners": [(0, 0), (1000, 0), (1000, 800), (0, 800), (500, 400)],
    "centres": [(0.5, 0.5), (999.5, 0.5), (999.5, 799.5), (0.5, 799.5), (500.5, 400.5)],
    "scattered": [(313.37, 97.81), (40.6, 611.2), (870.25, 702.49), (955.55, 12.3), (512.75, 388.6)],
    # row by row, so that no four in a row are spread over the image
    "grid": [(x, y) for y in (0, 400, 800) for x in (0, 250, 500, 750, 1000)],
}


def gcps(n=4, where="corners"):
    return [gdal.GCP(*place("gcp", x, y), 0.0, float(x), float(y)) for x, y in GCPS[where][:n]]


def geo_transform():
    lon, lat = place("gt", 0, 0)
    return [lon, STEP, 0.0, lat, 0.0, -STEP]


OTHER = "<Other><SomeThing>1</SomeThing></Other>"
DES = {
    "none": [],
    "sicd": ["pfa"],
    "sidd": ["sidd"],
    "sidd+sicd": ["sidd", "pfa"],
    "sicd+sicd": ["pfa", "rma"],
    "sicd+other+sicd": ["rma", "other", "pfa"],
    "sidd+sidd": ["sidd", "sidd-prolog"],
    "sidd+sicd+sicd": ["sidd", "rma", "pfa"],
    "other": ["other"],
    "other+sicd": ["other", "rma"],
    "other+sidd": ["other", "sidd"],
    "empty+sicd": ["empty", "pfa"],
    "empty+sidd": ["empty", "empty", "sidd"],
    "mention+sicd": ["mention", "rma"],
    "mention+sidd": ["mention", "sidd"],
    "named sicd": ["pfa-named"],
    "prolog sicd": ["rma-prolog"],
    "prolog sidd": ["sidd-prolog"],
}
PROLOG = '<?xml version="1.0" encoding="UTF-8"?>\n<!-- ' + 60 * "some remark " + "-->\n"


@functools.lru_cache(None)
def document(kind):
    if kind == "empty":
        return ""
    if kind == "other":
        return OTHER
    if kind == "mention":
        return "<Report>a SIDD made from a SICD</Report>"
    base, *how = kind.split("-")
    text = data.sar_xml(base)
    if how == ["named"]:
        return data._set_element(data._set_element(text, "CoreName", "source of a SIDD"), "Application", "SIDD maker")
    return PROLOG + re.sub(r"^\s*<\?xml.*?\?>", "", text) if how else text


def factory(sources, des=None, selected=None, elements=None, dess=None):
    root = None
    if elements is None:
        elements = []
        for s in ("rsm", "rpc"):
            if s in sources:
                elements.extend(tre_of(s))
        if "cscrna" in sources:
            elements.append(cscrna(FULL if "ichipb" in sources else CHIP))
        if "ichipb" in sources:
            elements.append(ichipb())
        if "unrelated" in sources:
            elements.insert(0, tre.tre("USE00A", {"MEAN_GSD": 1.0, "LINE_OFF": 3.0}))
    if elements:
        root = tre.tres(*elements)
    if dess is None and des and des != "none":
        dess = sar.des_list([document(k) for k in DES[des]])
    return SensorModelFactory(
        *CHIP,
        xml_tres=root,
        xml_dess=dess,
        geo_transform=geo_transform() if "gt" in sources else None,
        ground_control_points=gcps() if "gcp" in sources else None,
        selected_sensor_model_types=None if selected is None else [SensorModelTypes(s) for s in selected],
    )


@functools.lru_cache(None)
def sar_model(kind):
    """The location of the pixels by the reference model of the metadata, on the reference plane."""
    return SensorModelFactory(*CHIP, xml_dess=sar.des_list([document(kind)])).build()


def expect(sources, des, selected):
    """(approximate source, precise source) of the reference model; None where there is none."""
    has = lambda t: selected is None or t in selected
    approximate = None
    if "gt" in sources and has("AFFINE"):
        approximate = "gt"
    if "gcp" in sources and has("PROJECTIVE"):
        approximate = "gcp"
    if "cscrna" in sources and has("PROJECTIVE"):
        approximate = "cscrna"
    precise = None
    if "rpc" in sources and has("RPC"):
        precise = "rpc"
    if "rsm" in sources and has("RSM"):
        precise = "rsm"
    for kind in DES[des or "none"]:
        kind = kind.split("-")[0]
        if kind == "sidd" or (kind in ("pfa", "rma") and has("SICD")):
            precise = kind
            break
    return approximate, precise


def check_source(ctx, model, source, chipped, what):
    for x, y in PIXELS:
        w = ctx.call(model.image_to_world, ImageCoordinate([x, y]))
        if source in SHIFT:
            fx, fy = to_full(x, y) if chipped and source in ("rpc", "rsm", "cscrna") else (x, y)
            lon, lat = place(source, fx, fy)
            off = max(abs(math.degrees(w.longitude) - lon), abs(math.degrees(w.latitude) - lat)) / STEP
            limit = 0.6
        else:
            want = sar_model(source).image_to_world(ImageCoordinate([x, y]))
            off, limit = float(np.max(np.abs(want.coordinate - w.coordinate)[:2])), 1e-12
        ctx.check(off <= limit, f"the {what} sensor model does not come from {source}", pixel=(x, y), off=off, got=np.degrees(w.coordinate[:2]))
        back = ctx.call(model.world_to_image, w)
        ctx.check(math.hypot(back.x - x, back.y - y) < 1.0, f"the way back of the {what} sensor model", got=back.coordinate, want=(x, y))


def check_model(ctx, model, approximate, precise, chipped):
    if approximate is None and precise is None:
        ctx.check(model is None, "a sensor model out of nothing", model=model)
        return
    ctx.check(model is not None, "no sensor model", approximate=approximate, precise=precise)
    check_source(ctx, model, precise or approximate, chipped, "resulting")
    if approximate and precise:
        ctx.check(isinstance(model, CompositeSensorModel), "the faster sensor model is not offered", model=model)
        check_source(ctx, model.approximate_sensor_model, approximate, chipped, "approximate")
        check_source(ctx, model.precision_sensor_model, precise, chipped, "precise")
    else:
        ctx.check(not isinstance(model, CompositeSensorModel), "a composite of one")


def run_precedence(ctx, case):
    selected = case["selected"]
    f = ctx.call(factory, case["sources"], case["des"], selected)
    model = ctx.call(f.build)
    approximate, precise = expect(case["sources"], case["des"], selected)
    check_model(ctx, model, approximate, precise, "ichipb" in case["sources"])
    ctx.state(case["sources"], case["des"], selected)


# -- all sorts of chips ----------------------------------------------------------------------------------------------
# full image coordinate of a chip coordinate, size of the full image
CHIPS = {
    "crop": (lambda x, y: (x + 500.0, y + 300.0), FULL),
    "reduced": (to_full, FULL),
    "enlarged": (lambda x, y: (0.25 * x + 100.5, 0.25 * y + 20.25), (500, 300)),
    "turned": (lambda x, y: (900.0 - y, x + 7.0), (1000, 1100)),
    "flipped": (lambda x, y: (1000.0 - x, 800.0 - y), CHIP),
    "shifted": (lambda x, y: (x - 3.5, y + 2.5), CHIP),
    "whole": (lambda x, y: (x, y), CHIP),
    "stretched": (lambda x, y: (3.0 * x + 10.0, y + 1200.0), FULL),
}


def run_chip(ctx, case):
    to, full = CHIPS[case["layout"]]
    sources = case["sources"]
    corners = [(0.0, 0.0), (CHIP[0], 0.0), (0.0, CHIP[1]), CHIP]
    elements = []
    for s in ("rsm", "rpc"):
        if s in sources:
            elements.extend(tre_of(s))
    if "cscrna" in sources:
        elements.append(cscrna(full))
    elements.append(tre.ichipb_tre([to(*c) for c in corners], full, corners))
    model = ctx.call(factory(sources, elements=elements).build)
    approximate, precise = expect(sources, None, None)
    parts = {precise or approximate: model}
    if approximate and precise:
        parts = {approximate: model.approximate_sensor_model, precise: model.precision_sensor_model}
    for source, part in parts.items():
        for x, y in PIXELS + [(17.25, 790.5)]:
            w = ctx.call(part.image_to_world, ImageCoordinate([x, y]))
            lon, lat = place(source, *to(x, y))
            off = max(abs(math.degrees(w.longitude) - lon), abs(math.degrees(w.latitude) - lat)) / STEP
            ctx.check(off <= 0.6, f"the pixel of the chip is not where {source} places it in the full image", pixel=(x, y), off=off)
            back = ctx.call(part.world_to_image, GeodeticWorldCoordinate([math.radians(lon), math.radians(lat), 100.0]))
            ctx.check(math.hypot(back.x - x, back.y - y) < 0.01, f"the location of {source} is at another pixel of the chip", got=back.coordinate, want=(x, y))
    ctx.state(case)


# -- unusable metadata -----------------------------------------------------------------------------------------------
REQUIRED = {
    "RPC00B": ["SUCCESS"] + tre.RPC_FIELDS + tre.RPC_POLYNOMIALS,
    "CSCRNA": [f"{c}CNR_{f}" for c in tre.CORNERS for f in ("LAT", "LONG", "HT")],
    "ICHIPB": [f"{k}_{a}_{n}" for k in ("OP", "FI") for a in ("ROW", "COL") for n in ("11", "12", "21", "22")] + ["FI_ROW", "FI_COL"],
    "RSMIDA": ["GRNDD"] + [f"V{n}{a}" for n in range(1, 9) for a in "XYZ"] + ["MINR", "MAXR", "MINC", "MAXC"],
    "RSMPCA": ["RSN", "CSN"]
    + [f"{v}NRM{k}" for v in "RCXYZ" for k in ("O", "SF")]
    + [f"{p}PWR{a}" for p in ("RN", "RD", "CN", "CD") for a in "XYZ"]
    + [f"{p}PCF" for p in ("RN", "RD", "CN", "CD")],
}
OPTIONAL = {"RSMIDA": ["GRPX", "GRPY", "GRPZ"]}
SOURCE = {"RPC00B": "rpc", "CSCRNA": "cscrna", "ICHIPB": "ichipb", "RSMIDA": "rsm", "RSMPCA": "rsm"}
FAULTS = ["removed", "blank", "text", "no value"]
REPEATED_FAULTS = ["removed", "no number", "bad number", "short", "no index", "bad index", "big index", "negative index", "no field", "no value", "bad value"]


def damage(element, name, fault):
    e = element.find(f"./field[@name='{name}']")
    if e is not None:
        if fault == "removed":
            element.remove(e)
        elif fault == "no value":
            del e.attrib["value"]
        else:
            e.set("value", {"blank": "", "text": "abc"}[fault])
        return True
    r = element.find(f"./repeated[@name='{name}']")
    if r is None:
        return False
    if fault == "removed":
        element.remove(r)
    elif fault == "no number":
        del r.attrib["number"]
    elif fault == "bad number":
        r.set("number", "many")
    elif fault == "short":
        r.set("number", str(len(r) - 1))
    elif fault == "no index":
        del r[1].attrib["index"]
    elif fault == "bad index":
        r[1].set("index", "x")
    elif fault == "big index":
        r[1].set("index", "1000")
    elif fault == "negative index":
        r[1].set("index", "-1")
    elif fault == "no field":
        r[1].remove(r[1][0])
    elif fault == "no value":
        del r[1][0].attrib["value"]
    else:
        r[1][0].set("value", "?")
    return True


def run_fault(ctx, case):
    sources = list(case["sources"])
    elements = []
    for s in ("rsm", "rpc"):
        if s in sources:
            elements.extend(tre_of(s))
    usable_chip = "ichipb" in sources and case["tre"] != "ICHIPB"
    if "cscrna" in sources:
        elements.append(cscrna(FULL if usable_chip else CHIP))
    if "ichipb" in sources:
        elements.append(ichipb())
    hit = False
    for e in elements:
        if e.get("name") == case["tre"]:
            hit = damage(e, case["field"], case["fault"]) or hit
    assert hit, case
    f = factory(sources, case["des"], elements=elements)
    model = ctx.call(f.build)
    left = list(sources)
    if case["field"] not in OPTIONAL.get(case["tre"], []):
        left.remove(SOURCE[case["tre"]])
    approximate, precise = expect(left, case["des"], None)
    check_model(ctx, model, approximate, precise, "ichipb" in left)
    ctx.state(case["tre"], case["field"], case["fault"], sources, case["des"])


def fault_cases(quick):
    companions = [[], ["gt", "gcp", "rpc", "rsm", "cscrna", "ichipb"]]
    if not quick:
        companions += [["gt"], ["rpc", "cscrna"], ["rsm", "gcp"], ["ichipb", "rpc"]]

    def gen():
        for name, fields in REQUIRED.items():
            for field in fields + OPTIONAL.get(name, []):
                repeated = field.endswith("COEFF") or field.endswith("PCF")
                for fault in REPEATED_FAULTS if repeated else FAULTS:
                    for others in companions:
                        sources = sorted(set(others) | {SOURCE[name]})
                        if name == "ICHIPB":
                            sources = sorted(set(sources) | {"rpc"})
                        for des in ("none",) if quick else ("none", "sicd"):
                            yield dict(tre=name, field=field, fault=fault, sources=sources, des=des)

    return gen


def run_pair(ctx, case):
    """Two TREs are damaged at the same time."""
    sources = ["gt", "gcp", "rpc", "rsm", "cscrna", "ichipb"]
    usable_chip = "ICHIPB" not in case["tres"]
    elements = tre_of("rsm") + tre_of("rpc") + [cscrna(FULL if usable_chip else CHIP), ichipb()]
    left = list(sources)
    for name in case["tres"]:
        for e in elements:
            if e.get("name") == name:
                damage(e, REQUIRED[name][case["field"]], case["fault"])
        if SOURCE[name] in left:
            left.remove(SOURCE[name])
    model = ctx.call(factory(sources, case["des"], elements=elements).build)
    check_model(ctx, model, *expect(left, case["des"], None), "ichipb" in left)
    ctx.state(case)


# -- other things that are not usable --------------------------------------------------------------------------------
def run_sar_fault(ctx, case):
    """A SICD or SIDD document that cannot be used leaves the other metadata in charge."""
    text = document(case["kind"])
    if case["fault"] == "truncated":
        text = text[: len(text) // 2]
    elif case["fault"] == "version":
        text = text.replace("urn:SICD:1.2.1", "urn:SICD:9.9.9").replace("urn:SIDD:2.0.0", "urn:SIDD:9.9.9")
    elif case["fault"].startswith("algorithm:"):
        # there is no such combination with the range and azimuth grid of this image
        text = data._set_element(text, "ImageFormAlgo", case["fault"].split(":")[1])
    elif case["fault"] == "empty":
        root = {"pfa": "SICD", "rma": "SICD", "capella": "SICD"}.get(case["kind"], "SIDD")
        text = f'<{root} xmlns="urn:{root}:{"1.2.1" if root == "SICD" else "2.0.0"}"/>'
    else:
        root = ET.fromstring(text)
        parts = case["fault"].split("/")
        parent = sar.find(root, "/".join(parts[:-1])) if len(parts) > 1 else root
        parent.remove(sar.find(parent, parts[-1]))
        text = ET.tostring(root, encoding="unicode")
    f = factory(case["sources"], dess=sar.des_list([text]))
    model = ctx.call(f.build)
    check_model(ctx, model, *expect(case["sources"], "none", None), "ichipb" in case["sources"])
    ctx.state(case)


SAR_FAULTS = {
    "pfa": ["truncated", "version", "empty", "GeoData", "GeoData/SCP", "ImageData", "ImageData/SCPPixel", "Grid", "Grid/TimeCOAPoly", "Grid/Row", "Position", "Position/ARPPoly", "SCPCOA", "SCPCOA/ARPPos", "PFA", "PFA/PolarAngPoly", "PFA/FPN", "algorithm:OTHER", "algorithm:RMA", "algorithm:RGAZCOMP"],
    "capella": ["RMA", "RMA/INCA", "RMA/INCA/TimeCAPoly", "RMA/INCA/DRateSFPoly", "GeoData", "Grid/Col/UVectECF"],
    "rma": ["Grid/TimeCOAPoly", "Grid/Row/UVectECF", "Position"],
    "sidd": ["truncated", "version", "empty", "Measurement", "Measurement/PlaneProjection", "Measurement/ARPPoly", "Measurement/PlaneProjection/ReferencePoint", "Measurement/PlaneProjection/ProductPlane", "Measurement/PlaneProjection/TimeCOAPoly", "Measurement/PlaneProjection/SampleSpacing"],
}


def sar_fault_cases():
    for kind, faults in SAR_FAULTS.items():
        for fault in faults:
            for sources in ([], ["gt"], ["rpc"], ["gt", "rpc", "rsm", "cscrna", "ichipb"]):
                yield dict(kind=kind, fault=fault, sources=sources)


def run_small(ctx, case):
    kind = case["kind"]
    ctx.state(case)
    if kind == "chip":
        run_chip(ctx, case)
    elif kind == "gcps":
        n = case["n"]
        f = SensorModelFactory(*CHIP, geo_transform=geo_transform() if case["gt"] else None, ground_control_points=gcps(n, case["where"]) if n else [])
        model = ctx.call(f.build)
        check_model(ctx, model, "gcp" if n > 3 else "gt" if case["gt"] else None, None, False)
    elif kind == "singular":
        f = SensorModelFactory(*CHIP, geo_transform=list(case["gt"]), ground_control_points=gcps() if case["gcp"] else None, xml_tres=tre.tres(*tre_of("rpc")) if case["rpc"] else None)
        model = ctx.call(f.build)
        check_model(ctx, model, "gcp" if case["gcp"] else None, "rpc" if case["rpc"] else None, False)
    elif kind == "success":
        element = tre_of("rpc")[0]
        element.find("./field[@name='SUCCESS']").set("value", case["value"])
        f = SensorModelFactory(*CHIP, xml_tres=tre.tres(element), geo_transform=geo_transform())
        check_model(ctx, ctx.call(f.build), "gt", "rpc" if case["value"] in ("1", "01") else None, False)
    elif kind == "nothing":
        f = SensorModelFactory(*CHIP, xml_tres=tre.tres() if case["tres"] else None, xml_dess=[] if case["dess"] else None)
        ctx.check(ctx.call(f.build) is None, "a sensor model out of nothing")
    elif kind == "twice":
        f = factory(["gt", "gcp", "rpc", "cscrna", "ichipb"], "sicd")
        for _ in range(case["times"]):
            check_model(ctx, ctx.call(f.build), "cscrna", "pfa", True)
    elif kind == "inputs":
        sources = ["gt", "gcp", "rpc", "rsm", "cscrna", "ichipb"]
        f = factory(sources)
        before = ET.tostring(f.xml_tres), list(f.geo_transform), [(g.GCPX, g.GCPY, g.GCPPixel, g.GCPLine) for g in f.ground_control_points]
        ctx.call(f.build)
        after = ET.tostring(f.xml_tres), list(f.geo_transform), [(g.GCPX, g.GCPY, g.GCPPixel, g.GCPLine) for g in f.ground_control_points]
        ctx.check(before == after, "the metadata was changed")


def small_cases():
    for where in GCPS:
        for n in (0, 7, 10, 15) if where == "grid" else range(6):
            for gt in (False, True):
                yield {"kind": "gcps", "n": n, "gt": gt, "where": where}
    for layout in CHIPS:
        for sources in (["rpc"], ["rsm"], ["cscrna"], ["rpc", "cscrna"], ["gt", "gcp", "rsm", "rpc", "cscrna"]):
            yield {"kind": "chip", "layout": layout, "sources": sources}
    for g in ([0, 0, 0, 0, 0, 0], [10, 1, 0, 50, 0, 0], [10, 1, 2, 50, 2, 4]):
        for c in product(gcp=[False, True], rpc=[False, True]):
            yield {"kind": "singular", "gt": g, **c}
    for v in ("1", "0", "2", "01", "-1", "00"):
        yield {"kind": "success", "value": v}
    for c in product(tres=[False, True], dess=[False, True]):
        yield {"kind": "nothing", **c}
    yield {"kind": "twice", "times": 3}
    yield {"kind": "inputs"}


def spaces(tier):
    quick = tier == "quick"
    everything = ["gt", "gcp", "rsm", "rpc", "cscrna", "ichipb"]
    types = ["AFFINE", "PROJECTIVE", "RPC", "RSM", "SICD"]

    def precedence():
        for des in ["none", "sicd", "sidd"] if quick else list(DES):
            for sources in subsets(everything):
                for selected in [None] + list(subsets(types)):
                    if selected is not None and "sidd" in des and "SICD" not in selected:
                        continue  # whether SIDD metadata can be deselected is not specified
                    yield dict(sources=sources, des=des, selected=selected)
        for des in DES:
            for sources in ([], ["gt"], ["unrelated"], ["unrelated", "rpc", "ichipb"], everything):
                yield dict(sources=sources, des=des, selected=None)

    def pairs():
        names = list(REQUIRED)
        for a in range(len(names)):
            for b in range(a + 1, len(names)):
                for fault in FAULTS:
                    for field in (1, 3):
                        for des in ("none", "sicd"):
                            yield dict(tres=[names[a], names[b]], fault=fault, field=field, des=des)

    return [
        Space("precedence", precedence, run_precedence, bound="all subsets of 6 sources, 3 (7) kinds of DES, all subsets of selected types"),
        Space("faults", fault_cases(quick), run_fault, bound="every field and every repeated group of 5 TREs, 4 and 11 kinds of damage"),
        Space("two-faults", pairs, run_pair, bound="all pairs of TREs"),
        Space("sar-faults", sar_fault_cases, run_sar_fault, bound="every element the SAR models need, missing; 4 sets of other metadata"),
        Space("small", small_cases, run_small, bound="numbers of GCPs, singular geo transforms, success flags, repeated builds"),
    ]
