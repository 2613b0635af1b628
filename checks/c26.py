"""C26: an image file is opened with its own pixels and the sensor model of its own metadata, or refused with ValueError."""

import functools
import math
import os
import shutil
import tempfile
from xml.etree import ElementTree as ET

import numpy as np
from osgeo import gdal, osr

from mc import data, sar, tre
from mc.core import Space, product, subsets

from aws.osml.gdal import GDALConfigEnv, SensorModelFactory, load_gdal_dataset, set_gdal_default_configuration
from aws.osml.gdal.gdal_utils import get_image_extension
from aws.osml.photogrammetry import CompositeSensorModel, GeodeticWorldCoordinate, ImageCoordinate

NOTES = {
    "assumptions": [
        "GDAL decides which files are images (gdal.Open is the oracle for the refusal)",
        "ground control points are in geographic coordinates",
    ]
}
gdal.PushErrorHandler("CPLQuietErrorHandler")

W, H = 40, 30
PIXELS = [(0.0, 0.0), (W * 1.0, 0.0), (11.5, 7.25), (0.0, H * 1.0), (W * 1.0, H * 1.0)]


class mode:
    """GDAL exceptions on or off, GDAL's own defaults or those of the toolkit; all put back on exit."""

    KEYS = "VSI_CACHE VSI_CACHE_SIZE GDAL_DISABLE_READDIR_ON_OPEN GDAL_CACHEMAX GDAL_NUM_THREADS GDAL_GCPS_TO_GEOTRANSFORM_APPROX_OK GDAL_MAX_DATASET_POOL_SIZE BIGTIFF_OVERVIEW USE_TILE_AS_BLOCK CPL_DEBUG CPL_VSIL_CURL_CHUNK_SIZE CPL_VSIL_CURL_CACHE_SIZE".split()

    def __init__(self, exceptions, defaults=False):
        self.exceptions, self.defaults = exceptions, defaults

    def __enter__(self):
        self.before = gdal.GetUseExceptions()
        self.options = {k: gdal.GetConfigOption(k) for k in self.KEYS}
        (gdal.UseExceptions if self.exceptions else gdal.DontUseExceptions)()
        if self.defaults:
            set_gdal_default_configuration()

    def __exit__(self, *a):
        (gdal.UseExceptions if self.before else gdal.DontUseExceptions)()
        for k, v in self.options.items():
            gdal.SetConfigOption(k, v)


# -- georeferences of the file ---------------------------------------------------------------------------------------
STEP = 1.0 / 360  # ten arc seconds, so that the arc seconds of a NITF header are exact
LON, LAT = -71.5, 33.25


def transform(kind):
    if kind == "rotated":
        return [LON, STEP, STEP / 4, LAT, STEP / 3, -STEP]
    if kind == "utm":
        return [500000.0, 10.0, 0.0, 3700000.0, 0.0, -10.0]
    if kind == "utm-south":
        return [300000.0, 20.0, 1.0, 6100000.0, 2.0, -20.0]
    # the centre of the first pixel is on a whole arc second
    return [LON - STEP / 2, STEP, 0.0, LAT + STEP / 2, 0.0, -STEP]


def apply(gt, x, y):
    return gt[0] + gt[1] * x + gt[2] * y, gt[3] + gt[4] * x + gt[5] * y


EPSG = {"utm": 32619, "utm-south": 32756}
# ground control points in the coordinates of a map
GRID = {"utm4": "utm", "utm6": "utm", "utm-south4": "utm-south"}
SPOTS = [(0, 0), (W, 0), (W, H), (0, H), (20, 15), (7, 22)]


def truth(kind, x, y):
    if kind in GRID:
        kind = GRID[kind]
    if kind in EPSG:
        source, target = osr.SpatialReference(), osr.SpatialReference()
        source.ImportFromEPSG(EPSG[kind])
        target.ImportFromEPSG(4326)
        for s in (source, target):
            s.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
        lon, lat, _ = osr.CoordinateTransformation(source, target).TransformPoint(*apply(transform(kind), x, y))
        return lon, lat
    if kind == "tilted":
        # a projective map that is not affine
        d = 1.0 + 0.002 * x - 0.001 * y
        lon, lat = apply(transform("rotated"), x, y)
        return LON + (lon - LON) / d, LAT + (lat - LAT) / d
    return apply(transform("rotated" if kind.startswith("gcp") else kind), x, y)


def write(driver, georef, array, dtype):
    name = data.fresh({"NITF": ".ntf", "GTiff": ".tif", "PNG": ".png", "HFA": ".img", "VRT": ".vrt", "JP2OpenJPEG": ".jp2"}[driver])
    source = data.mem_dataset(array, dtype)
    wgs = osr.SpatialReference()
    wgs.ImportFromEPSG(4326)
    if georef in GRID:
        wgs.ImportFromEPSG(EPSG[GRID[georef]])
        source.SetGCPs([gdal.GCP(*apply(transform(GRID[georef]), x, y), 0.0, float(x), float(y)) for x, y in SPOTS[: int(georef[-1])]], wgs.ExportToWkt())
    elif georef.startswith("gcp") or georef == "tilted":
        n = int(georef[3:]) if georef != "tilted" else 6
        source.SetGCPs([gdal.GCP(*truth(georef, x, y), 0.0, float(x), float(y)) for x, y in SPOTS[:n]], wgs.ExportToWkt())
    elif georef != "none":
        source.SetGeoTransform(transform(georef))
        if georef in EPSG:
            wgs.ImportFromEPSG(EPSG[georef])
        source.SetProjection(wgs.ExportToWkt())
    options = ["QUALITY=100", "REVERSIBLE=YES", "YCBCR420=NO"] if driver == "JP2OpenJPEG" else []
    if driver == "VRT":
        # a file that refers to another one
        inner = write("GTiff", georef, array, dtype)
        gdal.Translate(name, inner, format="VRT")
    else:
        out = gdal.Translate(name, source, format=driver, creationOptions=options)
        assert out is not None
        del out
    return name


def run_files(ctx, case):
    array = data.pattern(case["dtype"], W, H, case["bands"])
    name = write(case["driver"], case["georef"], array, case["dtype"])
    with mode(case["exceptions"], case["defaults"]):
        ds, model = ctx.call(load_gdal_dataset, name)
        ctx.check(data.same_pixels(data.pixels(ds), array), "not the pixels of the file")
        georef = case["georef"]
        if georef in ("none", "gcp1", "gcp3"):
            ctx.check(model is None, "a sensor model without metadata that defines one", model=model)
        else:
            ctx.check(model is not None, "no sensor model for a georeferenced image")
            ctx.check(not isinstance(model, CompositeSensorModel), "a composite of one")
            limit = 0.02 * STEP if case["driver"] == "NITF" else 2e-7 if georef in GRID else 1e-9
            for x, y in PIXELS:
                lon, lat = truth(georef, x, y)
                w = ctx.call(model.image_to_world, ImageCoordinate([x, y]))
                off = max(abs(math.degrees(w.longitude) - lon), abs(math.degrees(w.latitude) - lat))
                ctx.check(off <= limit, "the sensor model is not that of the file", pixel=(x, y), got=np.degrees(w.coordinate[:2]), want=(lon, lat))
                back = ctx.call(model.world_to_image, GeodeticWorldCoordinate([math.radians(lon), math.radians(lat), 0.0]))
                ctx.check(math.hypot(back.x - x, back.y - y) < 0.05, "the way back", got=back.coordinate, want=(x, y))
    ds = None
    gdal.Unlink(name)
    ctx.state(case["driver"], case["georef"], case["dtype"], case["bands"])


def file_cases(tier):
    kinds = ["none", "gt", "rotated", "utm", "utm-south", "gcp1", "gcp3", "gcp4", "gcp5", "gcp6", "tilted", *GRID]
    holds = {
        "GTiff": kinds,
        "VRT": kinds,
        "HFA": ["none", "gt", "rotated", "utm", "utm-south"],
        "JP2OpenJPEG": ["none", "gt", "rotated", "utm", "gcp1", "gcp3", "gcp4", "gcp5", "tilted", *GRID],
        "PNG": kinds,
        "NITF": ["none", "gt"],
    }
    images = [("Byte", 1), ("Byte", 3), ("UInt16", 1)]
    for driver, georefs in holds.items():
        for georef in georefs:
            for exceptions in (True, False):
                for defaults in (False, True):
                    if driver == "PNG" and defaults and georef != "none":
                        continue  # the toolkit's defaults switch side car files off
                    for dtype, bands in images + ([("Int16", 2), ("Float32", 1)] if driver in ("GTiff", "NITF", "HFA", "VRT") else []):
                        yield dict(driver=driver, georef=georef, exceptions=exceptions, defaults=defaults, dtype=dtype, bands=bands)


# -- metadata segments of NITF files ---------------------------------------------------------------------------------
FULL = (400, 300)
PLACE = {
    "gt": (LON - STEP / 2, LAT + STEP / 2, STEP),
    "cscrna": (-70.0, 34.0, 1e-3),
    "rpc": (-69.0, 35.0, 1e-3),
    "rsm": (-68.0, 36.0, 1e-3),
}


def place(source, x, y):
    lon, lat, step = PLACE[source]
    return lon + step * x, lat - step * y


def to_full(x, y):
    return 2.0 * x + 50.0, 3.0 * y + 30.0


@functools.lru_cache(None)
def spec(name):
    for path in (gdal.FindFile("gdal", "nitf_spec.xml"), "/usr/share/gdal/nitf_spec.xml"):
        if path and os.path.exists(path):
            return ET.parse(path).getroot().find(f".//tre[@name='{name}']")
    raise FileNotFoundError("nitf_spec.xml")


def number(value, field):
    width = int(field.get("length"))
    try:
        v = float(value)
    except (TypeError, ValueError):
        return str(value or "").ljust(width)[:width]
    if width == 21:
        return "%+.14E" % v
    if width == 12 and field.get("longname"):
        # one digit of exponent
        m, e = ("%+.6E" % v).split("E")
        return m + "E" + e[0] + e[2]
    if v == int(v):
        text = ("%0*d" if v >= 0 else "%0*d") % (width, int(v))
    else:
        text = ("%0*.*f" % (width, max(width - 5, 1), v))
        while len(text) > width:
            text = text[:-1]
    assert len(text) == width, (field.attrib, value, text)
    assert abs(float(text) - v) < 1e-9, (field.attrib, value, text)
    return text


def raw(element):
    """The text of a TRE in a NITF file, for the XML form of it the sensor model builders are given."""
    values = {f.get("name"): f.get("value") for f in element.findall("field")}
    text = ""
    for part in spec(element.get("name")):
        if part.tag == "loop":
            group = element.find(f"repeated[@name='{part.get('name')}']")
            for f in group.iter("field"):
                text += number(f.get("value"), part.find("field"))
        else:
            text += number(values.get(part.get("name")), part)
    return f"TRE={element.get('name')}={text}"


def elements(sources):
    out = []
    cx, cy = FULL[0] / 2, FULL[1] / 2
    if "rsm" in sources:
        lon, lat = (math.radians(v) for v in place("rsm", cx, cy))
        sx, sy = math.radians(cx * 1e-3), math.radians(cy * 1e-3)
        vertices = [(lon + a * 1.5 * sx, lat + b * 1.5 * sy, 100.0 + c) for c in (-300, 300) for b in (-1, 1) for a in (-1, 1)]
        norm = dict(RNRMO=cy, CNRMO=cx, XNRMO=lon, YNRMO=lat, ZNRMO=100.0, RNRMSF=cy, CNRMSF=cx, XNRMSF=sx, YNRMSF=sy, ZNRMSF=500.0)
        one, lin = [1.0] + [0.0] * 7, [0.0] * 8
        poly = {"RN": ((1, 1, 1), lin[:2] + [-1.0] + lin[3:]), "RD": ((1, 1, 1), one), "CN": ((1, 1, 1), [0.0, 1.0] + lin[2:]), "CD": ((1, 1, 1), one)}
        out.append(tre.rsmid_tre("G", vertices, (0, FULL[1], 0, FULL[0]), reference=(lon, lat, 100.0)))
        out.append(tre.rsmpc_tre((1, 1), norm, poly))
    if "rpc" in sources:
        lon, lat = place("rpc", cx, cy)
        norm = dict(zip(tre.RPC_FIELDS, [1.0, 1.0, cy, cx, lat, lon, 100.0, cy, cx, cy * 1e-3, cx * 1e-3, 500.0]))
        poly = {p: [0.0] * 20 for p in tre.RPC_POLYNOMIALS}
        poly["LINE_NUM_COEFF"][2], poly["LINE_DEN_COEFF"][0], poly["SAMP_NUM_COEFF"][1], poly["SAMP_DEN_COEFF"][0] = -1.0, 1.0, 1.0, 1.0
        out.append(tre.rpc_tre(norm, poly))
    if "cscrna" in sources:
        size = FULL if "ichipb" in sources else (W, H)
        out.append(tre.cscrna_tre({n: (lambda p: (p[1], p[0], 0.0))(place("cscrna", fx * size[0], fy * size[1])) for n, (fx, fy) in tre.CORNERS.items()}))
    if "ichipb" in sources:
        chip = [(0.0, 0.0), (float(W), 0.0), (0.0, float(H)), (float(W), float(H))]
        out.append(tre.ichipb_tre([to_full(*c) for c in chip], FULL, chip))
    return out


DES = {"none": [], "sicd": ["pfa"], "sidd": ["sidd"], "sidd+sicd": ["sidd", "pfa"], "other": ["other"], "other+sicd": ["other", "rma"]}


def document(kind):
    return "<Other><SomeThing>1</SomeThing></Other>" if kind == "other" else data.sar_xml(kind)


@functools.lru_cache(None)
def sar_model(kind):
    return SensorModelFactory(W, H, xml_dess=sar.des_list([document(kind)])).build()


def check_place(ctx, model, source, chipped, what):
    for x, y in [(0.0, 0.0), (11.5, 7.25), (W * 1.0, H * 1.0)]:
        w = ctx.call(model.image_to_world, ImageCoordinate([x, y]))
        if source in PLACE:
            lon, lat = place(source, *(to_full(x, y) if chipped and source != "gt" else (x, y)))
            off, limit = max(abs(math.degrees(w.longitude) - lon), abs(math.degrees(w.latitude) - lat)) / PLACE[source][2], 0.3
        else:
            off = float(np.max(np.abs(sar_model(source).image_to_world(ImageCoordinate([x, y])).coordinate - w.coordinate)[:2]))
            limit = 1e-12
        ctx.check(off <= limit, f"the {what} sensor model is not that of the {source} metadata of the file", pixel=(x, y), off=off, got=np.degrees(w.coordinate[:2]))


def run_nitf(ctx, case):
    sources = case["sources"]
    dtype, bands = case["pixels"]
    array = data.pattern(dtype, W, H, bands)
    source = data.mem_dataset(array, dtype)
    if "gt" in sources:
        source.SetGeoTransform(transform("gt"))
        wgs = osr.SpatialReference()
        wgs.ImportFromEPSG(4326)
        source.SetProjection(wgs.ExportToWkt())
    records = [raw(e) for e in elements(sources)]
    if case["order"] == "reversed":
        records.reverse()
    records.insert(len(records) // 2, "TRE=VERIF1=some unknown record")
    options = records + [f"DES=XML_DATA_CONTENT={data.des_header()}{document(d)}" for d in DES[case["des"]]]
    name = data.fresh(".ntf")
    out = gdal.Translate(name, source, format="NITF", creationOptions=options)
    assert out is not None
    out = None
    with mode(case["exceptions"], case["defaults"]):
        ds, model = ctx.call(load_gdal_dataset, name)
        ctx.check(data.same_pixels(data.pixels(ds), array), "not the pixels of the file")
    approximate = "cscrna" if "cscrna" in sources else "gt" if "gt" in sources else None
    precise = "rsm" if "rsm" in sources else "rpc" if "rpc" in sources else None
    for kind in DES[case["des"]]:
        if kind != "other":
            precise = kind
            break
    chipped = "ichipb" in sources
    if approximate is None and precise is None:
        ctx.check(model is None, "a sensor model out of nothing", model=model)
    else:
        ctx.check(model is not None, "no sensor model", approximate=approximate, precise=precise)
        check_place(ctx, model, precise or approximate, chipped, "resulting")
        if approximate and precise:
            ctx.check(isinstance(model, CompositeSensorModel), "the faster sensor model is not offered")
            check_place(ctx, model.approximate_sensor_model, approximate, chipped, "approximate")
    ds = None
    gdal.Unlink(name)
    ctx.state(sources, case["des"], case["order"])


# -- files GDAL cannot read ------------------------------------------------------------------------------------------
@functools.lru_cache(None)
def content(kind):
    driver, georef = kind.split("/")
    array = data.pattern("Byte", 6, 5, 1)
    name = data.fresh(".bin")
    source = data.mem_dataset(array, "Byte")
    options = []
    if georef == "gt":
        source.SetGeoTransform(transform("gt"))
        wgs = osr.SpatialReference()
        wgs.ImportFromEPSG(4326)
        source.SetProjection(wgs.ExportToWkt())
    if georef == "tre":
        options = [raw(e) for e in elements(("cscrna", "ichipb"))]
    if georef == "des":
        options = [f"DES=XML_DATA_CONTENT={data.des_header()}<Other>1</Other>"]
    gdal.Translate(name, source, format=driver, creationOptions=options)
    f = gdal.VSIFOpenL(name, "rb")
    out = bytes(gdal.VSIFReadL(1, 1 << 20, f))
    gdal.VSIFCloseL(f)
    gdal.Unlink(name)
    return out


def judge(ctx, path, exceptions, what):
    with mode(exceptions):
        try:
            expected = gdal.Open(path)
        except RuntimeError:
            expected = None
        readable, expected = expected is not None, None
        try:
            ds, model = load_gdal_dataset(path)
        except ValueError as e:
            ctx.check(not readable, "an image GDAL reads was refused", what=what, error=str(e))
            ctx.check(path in str(e), "the error does not name the file", what=what, error=str(e))
            return False
        except Exception as e:
            ctx.check(False, "neither an image nor a ValueError", what=what, error=f"{type(e).__name__}: {e}")
        ctx.check(readable and ds is not None, "an image out of a file GDAL does not read", what=what)
        ds = None
        return True


def run_prefix(ctx, case):
    whole = content(case["kind"])
    for n in range(case["first"], min(case["first"] + 64, len(whole) + 1)):
        name = data.fresh(".bin")
        gdal.FileFromMemBuffer(name, whole[:n])
        judge(ctx, name, case["exceptions"], n)
        ctx.transitions += 1
        gdal.Unlink(name)
        ctx.state(case["kind"], n)


def run_path(ctx, case):
    folder = tempfile.mkdtemp(prefix="verif_c26_")
    try:
        path = {
            "missing": os.path.join(folder, "missing.tif"),
            "folder": folder,
            "missing folder": os.path.join(folder, "no", "image.ntf"),
            "empty": os.path.join(folder, "empty.tif"),
            "zeros": os.path.join(folder, "zeros.ntf"),
            "text": os.path.join(folder, "text.png"),
            "empty name": "",
            "vsimem": "/vsimem/verif_there_is_none.tif",
            "unicode": os.path.join(folder, "bild-\u00e4\u00f6.tif"),
            "spaces": os.path.join(folder, "a b  c.tif"),
            "good": os.path.join(folder, "good.xyz123"),
        }[case["path"]]
        if case["path"] in ("empty", "zeros", "text"):
            with open(path, "wb") as f:
                f.write({"empty": b"", "zeros": bytes(4096), "text": b"not an image at all\n"}[case["path"]])
        if case["path"] in ("unicode", "spaces", "good"):
            with open(path, "wb") as f:
                f.write(content("GTiff/gt"))
        got = judge(ctx, path, case["exceptions"], case["path"])
        ctx.check(got == (case["path"] in ("unicode", "spaces", "good")), "image or not", path=case["path"], got=got)
        ctx.state(case["path"])
    finally:
        shutil.rmtree(folder)


# -- format names ----------------------------------------------------------------------------------------------------
FORMATS = {"GTiff": "TIFF", "NITF": "NITF", "PNG": "PNG", "JPEG": "JPEG", "JP2OpenJPEG": "JP2", "BMP": "BMP", "HFA": "IMG", "VRT": "VRT", "WEBP": "WEBP"}
NAMES = ["image", "image.tif", "image.TIFF", "image.ntf", "image.NITF", "image.png", "image.jpg", "image.JPEG", "image.dat", "a.tif.d/image", "tif/ntf", "ntf_tif", "image.ntf.r0"]


def run_format(ctx, case):
    array = data.pattern("Byte", 20, 20, 3)
    folder = data.fresh("_f")
    name = f"{folder}/{case['name']}"
    source = data.mem_dataset(array, "Byte")
    out = gdal.Translate(name, source, format=case["driver"])
    ctx.check(out is not None, "harness: the image could not be written")
    out = None
    with mode(False):
        known = gdal.Open(name)
        if known is None or known.GetDriver().ShortName != case["driver"]:
            return  # a name this driver does not go with
    with mode(case["exceptions"]):
        got = ctx.call(get_image_extension, name)
    ctx.check(got == FORMATS[case["driver"]], "not the format of the image", got=got, want=FORMATS[case["driver"]])
    ctx.state(case["driver"], case["name"])


# -- the toolkit's GDAL defaults -------------------------------------------------------------------------------------
def run_defaults(ctx, case):
    """They are in force once set, give way to a GDALConfigEnv and come back after it."""
    with mode(True):
        for k in mode.KEYS:
            gdal.SetConfigOption(k, case["before"])
        ctx.call(set_gdal_default_configuration)
        first = {k: gdal.GetConfigOption(k) for k in mode.KEYS}
        ctx.check(all(first[k] not in (None, case["before"]) for k in ("VSI_CACHE", "VSI_CACHE_SIZE", "GDAL_DISABLE_READDIR_ON_OPEN", "GDAL_CACHEMAX", "CPL_VSIL_CURL_CHUNK_SIZE", "CPL_VSIL_CURL_CACHE_SIZE")), "the defaults are not set", got=first)
        ctx.check(first["GDAL_DISABLE_READDIR_ON_OPEN"] == "EMPTY_DIR" and first["VSI_CACHE"] == "YES" and first["GDAL_CACHEMAX"] == "75%", "not the values for reading large remote images", got=first)
        ctx.check(int(first["CPL_VSIL_CURL_CHUNK_SIZE"]) == 10 * 1024 * 1024, "the chunk size GDAL allows", got=first)
        ctx.check(int(first["CPL_VSIL_CURL_CACHE_SIZE"]) > int(first["CPL_VSIL_CURL_CHUNK_SIZE"]), "a cache of less than a chunk", got=first)
        key = case["key"]
        with GDALConfigEnv({key: "other"}):
            ctx.check(gdal.GetConfigOption(key) == "other", "the environment is not in force")
            if case["again"]:
                ctx.call(set_gdal_default_configuration)
                ctx.check({k: gdal.GetConfigOption(k) for k in mode.KEYS} == first, "setting the defaults again")
        ctx.check({k: gdal.GetConfigOption(k) for k in mode.KEYS} == first, "the defaults did not come back")
        ctx.state(key, case["again"], case["before"])


def spaces(tier):
    full = tier == "thorough"
    sources = ["gt", "cscrna", "rpc", "rsm", "ichipb"]
    kinds = ["NITF/none", "NITF/tre", "NITF/des", "GTiff/none", "GTiff/gt", "PNG/none"] + (["JPEG/none", "GIF/none", "BMP/none", "NITF/gt", "JP2OpenJPEG/none"] if full else [])
    stride = 64

    def prefixes():
        for kind in kinds:
            for first in range(0, len(content(kind)) + 1, stride):
                for exceptions in (True, False):
                    yield dict(kind=kind, first=first, exceptions=exceptions)

    return [
        Space("files", lambda: file_cases(tier), run_files, bound="6 formats x 14 georeferences x pixel types x exceptions x configuration"),
        Space(
            "nitf",
            lambda: product(
                sources=[tuple(s) for s in subsets(sources)],
                des=list(DES) if full else ["none", "sicd", "sidd", "other+sicd"],
                order=["given", "reversed"],
                pixels=[["Byte", 1], ["Byte", 5], ["UInt16", 4]] + ([["Byte", 3], ["Float32", 1], ["Int16", 2]] if full else []),
                exceptions=[True, False] if full else [True],
                defaults=[False, True] if full else [False],
            ),
            run_nitf,
            bound="all subsets of geotransform, CSCRNA, RPC00B, RSM and ICHIPB x data segments x 3 (6) kinds of pixels, written to and read from NITF files",
        ),
        Space("prefixes", list(prefixes()), run_prefix, bound="every prefix of small image files of each format"),
        Space(
            "paths",
            lambda: product(
                path=["missing", "folder", "missing folder", "empty", "zeros", "text", "empty name", "vsimem", "unicode", "spaces", "good"],
                exceptions=[True, False],
            ),
            run_path,
        ),
        Space("formats", lambda: product(driver=list(FORMATS), name=NAMES, exceptions=[True, False]), run_format, bound="10 formats under every kind of file name"),
        Space("defaults", lambda: product(key=mode.KEYS, again=[False, True], before=[None, "x"]), run_defaults),
    ]
