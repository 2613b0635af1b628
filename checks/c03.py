"""C03: the metadata of a tile locates its pixels where the source image has them."""

import re
import xml.etree.ElementTree as ET

import numpy as np
from osgeo import gdal

from mc import data
from mc.core import Space, Violation

from aws.osml.gdal import GDALCompressionOptions as Comp
from aws.osml.gdal import GDALImageFormats as Fmt
from aws.osml.gdal import NITFDESAccessor, load_gdal_dataset
from aws.osml.image_processing import GDALTileFactory
from aws.osml.photogrammetry import ImageCoordinate, geodetic_to_geocentric

gdal.UseExceptions()
gdal.PushErrorHandler("CPLQuietErrorHandler")

W, H = 40, 32
# images larger than any constant an offset could be confused with
LARGE = (2300, 1240)
_sources = {}


def size_of(kind):
    return LARGE if kind.endswith("/large") else (W, H)


def rpc_metadata():
    def c(**k):
        v = [0.0] * 20
        for i, x in k.items():
            v[int(i[1:])] = x
        return " ".join(str(x) for x in v)

    return dict(
        ERR_BIAS="0",
        ERR_RAND="0",
        LINE_OFF="16",
        SAMP_OFF="20",
        LAT_OFF="30.5",
        LONG_OFF="45.25",
        HEIGHT_OFF="100",
        LINE_SCALE="16",
        SAMP_SCALE="20",
        LAT_SCALE="0.0100",
        LONG_SCALE="0.0120",
        HEIGHT_SCALE="500",
        LINE_NUM_COEFF=c(c0=0.01, c1=0.02, c2=-1.0, c3=0.03, c7=0.001),
        LINE_DEN_COEFF=c(c0=1.0, c1=0.0001),
        SAMP_NUM_COEFF=c(c0=0.02, c1=1.0, c2=0.03, c3=0.02),
        SAMP_DEN_COEFF=c(c0=1.0, c2=0.0002),
    )


def ichipb():
    def f(x):
        return "%012.3f" % x

    pts = [(0.5, 0.5), (0.5, W - 0.5), (H - 0.5, 0.5), (H - 0.5, W - 0.5)]
    s = "00" + "0001.00000" + "00" + "00"
    s += "".join(f(r) + f(c) for r, c in pts)
    s += "".join(f(r + 6) + f(c + 10) for r, c in pts)
    return s + "%08d%08d" % (400, 400)


def sidd_chip_xml(xml, chip, corners):
    """A SIDD whose image is a chip of (rows, cols) with the (row, col) corners ul, ur, ll, lr in the full image."""
    start, end = xml.index("<GeometricChip>"), xml.index("</GeometricChip>")
    parts = [("ChipSize", chip)] + list(
        zip(
            (
                "OriginalUpperLeftCoordinate",
                "OriginalUpperRightCoordinate",
                "OriginalLowerLeftCoordinate",
                "OriginalLowerRightCoordinate",
            ),
            corners,
        )
    )
    body = "".join(f"<{n}><si:Row>{r}</si:Row><si:Col>{c}</si:Col></{n}>" for n, (r, c) in parts)
    return xml[:start] + "<GeometricChip>" + body + xml[end:]


WARPED = [(1000, 2000), (1010.5, 2080), (1064, 1990), (1050, 2110.25)]


# segments with other XML documents, and other headers, before the one of the SAR metadata
PRECEDED = [
    "DES=XML_DATA_CONTENT=" + data.des_header("a note", DESCTLH="ZZ", DESREL="ABC", DESCLTX="nothing here") + "<note>see below</note>",
    "DES=XML_DATA_CONTENT=" + data.des_header("", DESCTLH="YY", DESCRSN="A") + '<catalog xmlns="urn:other:1.0"><entry>1</entry></catalog>',
]


def build(kind):
    """Name of a dataset with the given kind of georeferencing."""
    if kind in _sources:
        return _sources[kind]
    base, _, variant = kind.partition("/")
    W, H = size_of(kind)

    def pixels(dtype, bands):
        return np.zeros((bands, H, W), dtype=data.NP[dtype]) if variant == "large" else data.pattern(dtype, W, H, bands)

    if base in ("capella", "pfa", "rma"):
        first = {"": (0, 0), "large": (1020, 33), "chip": (317, 481), "v130": (0, 0), "v130chip": (1201, 77), "preceded": (12, 34)}[variant]
        xml = data.sicd_xml(base, first[0], first[1], H, W)
        if variant.startswith("v130"):
            xml = xml.replace("urn:SICD:1.2.1", "urn:SICD:1.3.0")
        name = data.sar_dataset(pixels("Float32", 2), "Float32", [xml], options=PRECEDED if variant == "preceded" else ())
    elif base == "sidd":
        full, chip = data.sar_xml("sidd"), data.sar_xml("sidd-chip")
        r1, c1 = 1000 + H - 1, 2000 + W - 1
        xmls = {
            "": [full],
            "large": [full],
            "v300": [full.replace("urn:SIDD:2.0.0", "urn:SIDD:3.0.0")],
            "chip": [sidd_chip_xml(chip, (H, W), [(1000, 2000), (1000, c1), (r1, 2000), (r1, c1)])],
            # the chip is rotated and has half the resolution of the original
            "turned": [sidd_chip_xml(chip, (H, W), [(1000, 2000), (1010, 2080), (1064, 1990), (1074, 2070)])],
            # the corners of the chip are not those of a parallelogram
            "warped": [sidd_chip_xml(chip, (H, W), WARPED)],
            "v300chip": [
                sidd_chip_xml(
                    chip.replace("urn:SIDD:2.0.0", "urn:SIDD:3.0.0"),
                    (H, W),
                    [(1000, 2000), (1000, c1), (r1, 2000), (r1, c1)],
                )
            ],
            "processed": [
                full.replace(
                    "<ErrorStatistics>",
                    "<DownstreamReprocessing><ProcessingEvent><ApplicationName>Tone Table</ApplicationName>"
                    "<AppliedDateTime>2021-02-03T04:05:06Z</AppliedDateTime><InterpolationMethod>LINEAR</InterpolationMethod>"
                    '<Descriptor name="step">first</Descriptor></ProcessingEvent></DownstreamReprocessing><ErrorStatistics>',
                    1,
                )
            ],
            # SIDD products carry the metadata of the SICD they were made from
            "preceded": [full, data.sicd_xml("pfa", 0, 0, 700, 800)],
            "with-sicd": [full, data.sicd_xml("pfa", 0, 0, 700, 800)],
        }[variant]
        name = data.sar_dataset(pixels("Byte", 1), "Byte", xmls, options=PRECEDED if variant == "preceded" else ())
    elif base == "affine":
        ds = data.mem_dataset(pixels("UInt16", 1), "UInt16")
        ds.SetGeoTransform([-70.5, 0.001, 0.0003, -30.25, 0.0002, -0.0012])
        ds.SetProjection(
            'GEOGCS["WGS 84",DATUM["WGS_1984",SPHEROID["WGS 84",6378137,298.257223563]],PRIMEM["Greenwich",0],'
            'UNIT["degree",0.0174532925199433]]'
        )
        name = data.fresh(".tif")
        gdal.Translate(name, ds, format="GTiff")
    else:
        ds = data.mem_dataset(pixels("Byte", 1), "Byte")
        ds.SetMetadata(rpc_metadata(), "RPC")
        name = data.fresh(".ntf")
        gdal.Translate(name, ds, format="NITF", creationOptions=["TRE=ICHIPB=" + ichipb()] if base == "rpc-ichipb" else [])
    _sources[kind] = name
    return name


# metres on the ground; a pixel is about 1 m (SAR), 100 m (affine) and 60 m (RPC, whose inverse is iterative)
TOLERANCE = {"affine": 1e-3, "rpc": 5.0, "rpc-ichipb": 5.0}
PIXEL_TOLERANCE = {"affine": 1e-4, "rpc": 0.05, "rpc-ichipb": 0.05}


def text_of(element):
    t = (element.text or "").strip()
    try:
        return float(t)
    except ValueError:
        return t.lower() if t.lower() in ("true", "false") else t


def flatten(xml, drop):
    """The leaves of an XML document: (path, value), without the given elements."""
    root = ET.fromstring(xml)
    leaves = []

    def walk(e, path):
        tag = re.sub(r"\{.*\}", "", e.tag)
        if tag in drop:
            return
        path = path + (tag,)
        attributes = {}
        for k, v in e.attrib.items():
            try:
                attributes[re.sub(r"\{.*\}", "", k)] = float(v)
            except ValueError:
                attributes[re.sub(r"\{.*\}", "", k)] = v
        leaves.append(("/".join(path), text_of(e) if len(e) == 0 else None, tuple(sorted(attributes.items()))))
        for child in e:
            walk(child, path)

    walk(root, ())
    return root.tag, leaves


def is_sar(xml):
    return xml is not None and re.sub(r"\{.*\}", "", ET.fromstring(xml).tag) in ("SICD", "SIDD")


def xml_segment(ds):
    """The first document with SAR metadata, and the number of documents."""
    accessor = NITFDESAccessor(ds.GetMetadata("xml:DES"))
    documents = [accessor.extract_desdata_xml(s) for s in accessor.get_segments_by_name("XML_DATA_CONTENT")]
    return next(d for d in documents if is_sar(d)), len(documents)


def des_fields(ds):
    """The header fields (classification markings and so on) of the first segment with SAR metadata."""
    for segment in ET.fromstring(ds.GetMetadata("xml:DES")[0]).iter("des"):
        if segment.get("name") == "XML_DATA_CONTENT" and is_sar(NITFDESAccessor.extract_desdata_xml(segment)):
            fields = {f.get("name"): f.get("value", f.text) for f in segment.iter("field")}
            return {k: (v or "").rstrip() for k, v in fields.items() if k.startswith("DES") and k != "DESDATA" or k == "DECLAS"}


DATE = re.compile(r"\d{4}-\d\d-\d\d(T\d\d:\d\d:\d\d)?")


def value_equal(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= 1e-12 * max(abs(a), abs(b))
    if isinstance(a, str) and isinstance(b, str) and DATE.match(a) and DATE.match(b):
        # dates may be written with a different number of digits
        return DATE.match(a).group() == DATE.match(b).group()
    return a == b


# What depends on the window: the size and the position of the chip (the size of the full image does not)
CHIP_LEAVES = {"SICD/ImageData/" + n for n in ("NumRows", "NumCols", "FirstRow", "FirstCol")}


def compare_documents(ctx, before, after):
    root_b, leaves_b = flatten(before, {"GeometricChip"})
    root_a, leaves_a = flatten(after, {"GeometricChip"})
    ctx.check(root_a == root_b, "the metadata of the tile is of another kind or version", before=root_b, after=root_a)
    # a chip needs a place for its parameters, so that this element may be new
    leaves_b, leaves_a = (
        [(p, v if p not in CHIP_LEAVES else None, a) for p, v, a in leaves if not p.endswith("/DownstreamReprocessing")]
        for leaves in (leaves_b, leaves_a)
    )
    ctx.check(
        len(leaves_a) == len(leaves_b)
        and all(
            pa == pb and value_equal(va, vb) and (aa == ab or "DateTime" in pa)
            for (pa, va, aa), (pb, vb, ab) in zip(leaves_a, leaves_b)
        ),
        "metadata that does not depend on the window was not retained",
        first=next(((a, b) for a, b in zip(leaves_a, leaves_b) if a != b), (len(leaves_a), len(leaves_b))),
    )


def check_chip(ctx, before, after, start, size):
    """The size and position of the chip are stated as such too: size and start are (x, y)."""
    def numbers(xml):
        return {p: v for p, v, _ in flatten(xml, set())[1] if isinstance(v, float)}

    old, new = numbers(before), numbers(after)
    if "SICD/ImageData/NumRows" in new:
        at = "SICD/ImageData/"
        got = [new[at + n] for n in ("NumCols", "NumRows", "FirstCol", "FirstRow")]
        want = [size[0], size[1], old[at + "FirstCol"] + start[0], old[at + "FirstRow"] + start[1]]
    else:
        at = "SIDD/DownstreamReprocessing/GeometricChip/ChipSize/"
        got, want = [new.get(at + "Col"), new.get(at + "Row")], list(size)
    ctx.check(got == want, "the metadata states another size or position of the tile", got=got, want=want)


def check_declared(ctx, tds, is_complex):
    """The tile states that its image is a SAR image and, if it is complex, which band holds I and which Q."""
    category = tds.GetMetadataItem("NITF_ICAT")
    ctx.check(category == "SAR", "the tile is not declared to be a SAR image", got=category)
    if is_complex:
        got = [tds.GetRasterBand(i + 1).GetMetadataItem("NITF_ISUBCAT") for i in range(tds.RasterCount)]
        ctx.check(got == ["I", "Q"], "the bands of the tile are not declared to be I and Q", got=got)


def run(ctx, case):
    kind = case["kind"]
    base = kind.split("/")[0]
    name = build(kind)
    ds, model = ctx.call(load_gdal_dataset, name)
    ctx.check(model is not None, "no sensor model for the source")
    fmt = Fmt.GTIFF if base == "affine" else Fmt.NITF
    factory = ctx.call(GDALTileFactory, ds, model, fmt, Comp.NONE)
    opened = []

    # Each step cuts a window out of the image of the previous step; the other windows are requested from the same
    # factory before and must not matter. locate maps the pixels of the current image to those of the source.
    def identity(p):
        return p

    current = (ds, model, factory, identity, *size_of(kind))
    try:
        for step in case["steps"]:
            ds0, model0, factory0, locate0, w0, h0 = current
            for other in case.get("before", []):
                ctx.call(factory0.create_encoded_tile, list(other))
            x, y, w, h = step["window"]
            size = step.get("size")
            encoded = ctx.call(factory0.create_encoded_tile, [x, y, w, h], tuple(size) if size else None)
            ctx.check(encoded is not None, "no tile was produced")
            tile = data.Tile(encoded, ".ntf" if fmt == Fmt.NITF else ".tif")
            opened.append(tile)
            tds, tmodel = ctx.call(load_gdal_dataset, tile.name)
            ctx.check(tmodel is not None, "no sensor model for the tile")
            ow, oh = size or (w, h)
            ctx.check((tds.RasterXSize, tds.RasterYSize) == (ow, oh), "wrong tile size")
            sx = (w - 1) / (ow - 1) if ow > 1 else 1.0
            sy = (h - 1) / (oh - 1) if oh > 1 else 1.0

            def locate(p, locate0=locate0, x=x, y=y, sx=sx, sy=sy):
                return locate0((x + p[0] * sx, y + p[1] * sy))

            points = [(0, 0), (ow - 1, 0), (0, oh - 1), (ow - 1, oh - 1), ((ow - 1) / 2, (oh - 1) / 3)]
            if ow > 1 and oh > 1:
                points.append((1, oh - 2))
            for p in points:
                q = locate(p)
                want = ctx.call(model.image_to_world, ImageCoordinate(list(q)))
                got = ctx.call(tmodel.image_to_world, ImageCoordinate(list(p)))
                a = geodetic_to_geocentric(want).coordinate
                b = geodetic_to_geocentric(got).coordinate
                distance = float(np.linalg.norm(a - b))
                ctx.check(
                    distance < TOLERANCE.get(base, 1e-2),
                    "a pixel of the tile is located somewhere else than the same pixel of the source",
                    pixel=p,
                    source_pixel=q,
                    distance_m=distance,
                )
                back = ctx.call(tmodel.world_to_image, want).coordinate
                ctx.check(
                    float(np.max(np.abs(back - np.array(p)))) < PIXEL_TOLERANCE.get(base, 0.02),
                    "a location on the ground is not at the same pixel of the tile",
                    pixel=p,
                    got=back,
                )
                ctx.state(kind, [round(float(v), 6) for v in q])
            if base in ("capella", "pfa", "rma", "sidd"):
                before, _ = xml_segment(ds)
                after, count = xml_segment(tds)
                ctx.check(count == 1, "the tile has to have one XML metadata segment", count=count)
                compare_documents(ctx, before, after)
                check_chip(ctx, before, after, [locate((0, 0))[0], locate((0, 0))[1]], (ow, oh))
                ctx.check(
                    des_fields(tds) == des_fields(ds), "the header of the metadata segment was not retained", got=des_fields(tds)
                )
                check_declared(ctx, tds, base != "sidd")
            current = (tds, tmodel, GDALTileFactory(tds, tmodel, fmt, Comp.NONE), locate, ow, oh)
    finally:
        for tile in opened:
            tile.close()


def windows(w, h):
    return [
        [0, 0, w, h],
        [0, 0, 2, 2],
        [w - 2, h - 2, 2, 2],
        [3, 5, w - 3, h - 5],
        [1, 0, w // 2, h // 3],
        [w // 3, h // 2, w // 2, h // 2],
    ]


SICD = ["capella", "pfa", "rma", "capella/chip", "pfa/chip", "rma/chip", "pfa/v130", "capella/v130chip", "capella/preceded"]
SIDD = ["sidd", "sidd/chip", "sidd/turned", "sidd/v300", "sidd/v300chip", "sidd/with-sicd", "sidd/processed", "sidd/preceded"]


def cases(depth, kinds):
    def gen():
        for kind in kinds:
            for win in windows(W, H):
                yield {"kind": kind, "steps": [{"window": win}]}
        for kind in kinds:
            for win in windows(W, H)[2:]:
                yield {"kind": kind, "steps": [{"window": win}], "before": [[7, 3, 11, 13], [2, 2, 5, 6]]}
        for kind in kinds:
            for win in windows(W, H)[3:]:
                for second in windows(win[2], win[3])[1:]:
                    yield {"kind": kind, "steps": [{"window": win}, {"window": second}], "before": [[0, 1, 3, 4]]}
                    if depth > 2 and second[2] > 8 and second[3] > 6:
                        for third in windows(second[2], second[3])[1:]:
                            yield {"kind": kind, "steps": [{"window": win}, {"window": second}, {"window": third}]}

    return gen


def narrow():
    """Windows that are one pixel wide or high (the corners of such a SIDD chip are not four)."""
    for kind in SICD + ["affine"]:
        for win in [[0, 0, 1, 1], [7, 0, 1, H], [0, 9, W, 1], [W - 1, H - 1, 1, 1], [5, 3, 1, 20], [3, 5, 20, 1], [4, 6, 2, 1], [4, 6, 1, 2]]:
            yield {"kind": kind, "steps": [{"window": win}]}
            yield {"kind": kind, "steps": [{"window": win, "size": win[2:]}]}
            yield {"kind": kind, "steps": [{"window": [2, 1, W - 2, H - 1]}, {"window": [min(win[0], 4), 2, min(win[2], 9), min(win[3], 8)]}]}


def large():
    """Windows at the far end of an image."""
    for kind in ("pfa/large", "capella/large", "rma/large", "sidd/large", "affine/large"):
        w, h = LARGE
        for win in [
            [1001, 3, 40, 30],
            [3, 1002, 30, 40],
            [1100, 1010, 64, 48],
            [w - 9, h - 7, 9, 7],
            [5, 7, 1030, 30],
            [7, 5, 30, 1033],
            [100, 100, 2100, 1100],
        ]:
            yield {"kind": kind, "steps": [{"window": win}], "before": [[1200, 1100, 16, 16]]}
            yield {"kind": kind, "steps": [{"window": win}, {"window": [win[2] - 5, win[3] - 6, 5, 6]}]}
            if kind.startswith("sidd"):
                yield {"kind": kind, "steps": [{"window": win, "size": [win[2] // 2 + 1, win[3] // 3 + 1]}]}


def scaled():
    for kind in SIDD:
        for win in windows(W, H)[3:]:
            for size in ([win[2] // 2, win[3] // 2], [2 * win[2], win[3]], [5, 7], [win[2], win[3]]):
                yield {"kind": kind, "steps": [{"window": win, "size": size}]}
                yield {"kind": kind, "steps": [{"window": win, "size": size}, {"window": [1, 1, 3, 3]}]}


def run_sicd_scaled(ctx, case):
    ds, model = ctx.call(load_gdal_dataset, build(case["kind"]))
    factory = ctx.call(GDALTileFactory, ds, model, Fmt.NITF, Comp.NONE)
    x, y, w, h = case["window"]
    ctx.state(case["kind"], case["window"], case["size"])
    if [w, h] == case["size"]:
        ctx.check(ctx.call(factory.create_encoded_tile, [x, y, w, h], (w, h)) is not None, "no tile")
    else:
        # A SICD image can not describe resampled pixels, so that a tile with wrong metadata must not be made.
        ctx.call_raises(ValueError, factory.create_encoded_tile, [x, y, w, h], tuple(case["size"]))


def sicd_scaled():
    for kind in SICD:
        for win in windows(W, H)[:4]:
            for size in ([win[2], win[3]], [win[2] + 1, win[3]], [win[2], max(1, win[3] - 1)], [1, 1]):
                yield {"kind": kind, "window": win, "size": size}


def run_warped(ctx, case):
    """
    The metadata of a SIDD chip states the corners of the chip in the original image, between which positions are
    interpolated bilinearly: the corners of a chip of the chip are the interpolated ones.
    """
    ds, model = ctx.call(load_gdal_dataset, build("sidd/warped"))
    corners, size = [np.array(c, dtype=float) for c in WARPED], (W, H)
    opened = []
    try:
        for step in case["steps"]:
            factory = ctx.call(GDALTileFactory, ds, model, Fmt.NITF, Comp.NONE)
            for other in case.get("before", []):
                ctx.call(factory.create_encoded_tile, list(other))
            x, y, w, h = step["window"]
            out = step.get("size")
            encoded = ctx.call(factory.create_encoded_tile, [x, y, w, h], tuple(out) if out else None)
            ctx.check(encoded is not None, "no tile was produced")
            tile = data.Tile(encoded, ".ntf")
            opened.append(tile)

            def at(c, r):
                v, u = c / (size[0] - 1), r / (size[1] - 1)
                ul, ur, ll, lr = corners
                return (1 - u) * ((1 - v) * ul + v * ur) + u * ((1 - v) * ll + v * lr)

            want = [at(x, y), at(x + w - 1, y), at(x, y + h - 1), at(x + w - 1, y + h - 1)]
            xml, _ = xml_segment(tile.ds)
            values = {p: v for p, v, _ in flatten(xml, set())[1]}
            got = [
                np.array([values[f"SIDD/DownstreamReprocessing/GeometricChip/Original{c}Coordinate/{n}"] for n in ("Row", "Col")])
                for c in ("UpperLeft", "UpperRight", "LowerLeft", "LowerRight")
            ]
            ctx.check(np.allclose(got, want, rtol=0, atol=1e-6), "not the corners of the chip in the original image", got=got, want=want)
            corners, size = want, tuple(out or (w, h))
            ctx.state("warped", [[float(v) for v in c] for c in want], size)
            ds, model = ctx.call(load_gdal_dataset, tile.name)
    finally:
        for tile in opened:
            tile.close()


def warped():
    for win in windows(W, H):
        for size in (None, [win[2] // 2 + 2, win[3] + 3]):
            first = {"window": win, "size": size}
            yield {"steps": [first], "before": [[7, 3, 11, 13]]}
            w, h = size or win[2:]
            for second in windows(w, h):
                if second[2] > 1 and second[3] > 1 and second[0] + second[2] <= w and second[1] + second[3] <= h:
                    yield {"steps": [first, {"window": second}]}


def origin(case):
    return [sum(step["window"][k] for step in case["steps"]) for k in (0, 1)]


def run_rpc(ctx, case):
    """
    Two recorded defects: GDAL writes the RPC00B of a tile without the ICHIPB of the source, and an RPC00B can not hold
    the negative offsets of a tile that begins to the right of, or below, the RPC reference pixel.
    """
    known = None
    if case["kind"] == "rpc-ichipb":
        known = "nitf-tile-of-ichipb-source"
    elif origin(case)[0] > 20 or origin(case)[1] > 16:
        known = "nitf-tile-beyond-rpc-offset"
    try:
        run(ctx, case)
    except Violation as v:
        if known and ("located somewhere else" in v.message or "not at the same pixel" in v.message):
            ctx.known_finding(known, v.message)
        else:
            raise


def spaces(tier):
    quick = tier == "quick"
    return [
        Space("sicd", cases(2 if quick else 3, SICD), run, bound="windows, chips of chips (thorough: of chips)"),
        Space("sidd", cases(2 if quick else 3, SIDD), run, bound="windows, chips of chips (thorough: of chips)"),
        Space("affine", cases(2 if quick else 3, ["affine"]), run, bound="GeoTIFF source, windows and chips of chips"),
        Space("rpc", cases(2 if quick else 3, ["rpc"]), run_rpc, bound="NITF RPC source, windows and chips of chips"),
        Space("narrow", lambda: narrow(), run, bound="windows one pixel wide or high, and chips of chips of that size"),
        Space("large", lambda: large(), run, bound="2300 x 1240 images, windows beyond row and column 1000 and larger than 1000 pixels"),
        Space("scaled_sidd", scaled, run, bound="output sizes smaller and larger than the window"),
        Space("warped_sidd", warped, run_warped, bound="a SIDD chip with four unrelated corners, chips of chips of it"),
        Space("scaled_sicd", sicd_scaled, run_sicd_scaled, bound="every kind of SICD, scaled and unscaled requests"),
        Space(
            "chipped_rpc",
            [{"kind": "rpc-ichipb", "steps": [{"window": w}]} for w in windows(W, H)],
            run_rpc,
            bound="the source is itself a chip (ICHIPB)",
        ),
    ]
