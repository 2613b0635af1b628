"""C02: what a tile request returns does not depend on the requests made before it, and nothing is left behind."""

import itertools
import multiprocessing
import os

from mc import sched

sched.install()

import numpy as np
from osgeo import gdal

from mc import data
from mc.core import Space, Violation, sequences

from aws.osml.gdal import GDALCompressionOptions as Comp
from aws.osml.gdal import GDALImageFormats as Fmt
from aws.osml.gdal import RangeAdjustmentType as Range
from aws.osml.gdal import load_gdal_dataset
from aws.osml.image_processing import GDALTileFactory
from aws.osml.photogrammetry import GDALAffineSensorModel, RPCPolynomial, RPCSensorModel

gdal.UseExceptions()
gdal.PushErrorHandler("CPLQuietErrorHandler")

W, H = 40, 32
GT = [10.0, 0.001, 0.0002, 50.0, -0.0001, -0.001]

CONFIGS = {
    "nitf": dict(source="NITF", type="Int16", bands=1, format="NITF", model=True),
    "gtiff": dict(source="GTiff", type="UInt16", bands=3, format="GTiff", model=True),
    "png-dra": dict(source="MEM", type="UInt16", bands=3, format="PNG", model=True, output=gdal.GDT_Byte, range="DRA"),
    "png-minmax": dict(source="GTiff", type="Float32", bands=1, format="PNG", model=True, output=gdal.GDT_Byte, range="MINMAX"),
    "png-float": dict(source="MEM", type="Float32", bands=1, format="PNG", model=False),
    "nitf-int64": dict(source="MEM", type="Int64", bands=1, format="NITF", model=False),
    "jpeg-5": dict(source="MEM", type="Byte", bands=5, format="JPEG", model=False),
    "sicd": dict(source="sicd", type="Float32", bands=2, format="NITF", model=False),
    "sicd-chip": dict(source="sicd-chip", type="Float32", bands=2, format="NITF", model=False),
    "sidd": dict(source="sidd", type="Byte", bands=1, format="NITF", model=False),
    "sidd-chip": dict(source="sidd-chip", type="Byte", bands=1, format="NITF", model=False),
    "sicd-png": dict(source="sicd", type="Float32", bands=2, format="GTiff", model=False),
    "png-complex": dict(source="MEM", type="Float32", bands=2, format="PNG", model=True, output=gdal.GDT_Byte, range="DRA"),
    # twins of others: the same size, with other pixels or another sensor model
    "png-dra-twin": dict(source="MEM", type="UInt16", bands=3, format="PNG", model=True, output=gdal.GDT_Byte, range="DRA", invert=True),
    "nitf-twin": dict(source="NITF", type="Int16", bands=1, format="NITF", model="shifted", invert=True),
    "rpc-low": dict(source="MEM", type="Byte", bands=1, format="PNG", model="rpc-low"),
    "rpc-high": dict(source="MEM", type="Byte", bands=1, format="PNG", model="rpc-high"),
    "rpc-nitf": dict(source="MEM", type="Byte", bands=1, format="NITF", model="rpc-high"),
}
TWINS = ("png-dra-twin", "nitf-twin", "rpc-low", "rpc-high", "rpc-nitf")
# tile requests, good ones, ones that are refused and orthophotos
REQUESTS = {
    "a": ("tile", [0, 0, 16, 16], None),
    "b": ("tile", [7, 5, 20, 11], None),
    "c": ("tile", [24, 20, 16, 12], None),
    "half": ("tile", [4, 4, 32, 24], (16, 12)),
    "same": ("tile", [1, 2, 10, 8], (10, 8)),
    "full": ("tile", [0, 0, W, H], None),
    "empty": ("tile", [3, 3, 0, 5], None),
    "wild": ("tile", ["x", 0, 4, 4], None),
    "ortho": ("ortho", (10.005, 49.98, 10.03, 49.995), (12, 10)),
    "away": ("ortho", (20.0, 20.0, 20.1, 20.1), (8, 8)),
}

# windows, output sizes and areas of which any two agree in some of their numbers and differ in others
GRID = {}
for _x in (0, 9):
    for _y in (0, 7):
        for _w in (16, 24):
            for _h in (16, 20):
                GRID[f"g{_x}-{_y}-{_w}-{_h}"] = ("tile", [_x, _y, _w, _h], None)
for _x, _y, _size in ((0, 0, (16, 16)), (9, 0, (16, 16)), (0, 7, (16, 16)), (0, 0, (8, 16)), (0, 0, (16, 8)), (9, 7, (8, 8))):
    GRID[f"s{_x}-{_y}-{_size[0]}-{_size[1]}"] = ("tile", [_x, _y, 16, 16], _size)
for _lon in (10.005, 10.01):
    for _lat in (49.98, 49.985):
        for _size in ((12, 10), (12, 12)):
            GRID[f"o{_lon}-{_lat}-{_size[1]}"] = ("ortho", (_lon, _lat, 10.03, 49.995), _size)
REQUESTS.update(GRID)
LETTERS = [r for r in REQUESTS if r not in GRID]


def build_source(cfg):
    array = data.pattern(cfg["type"], W, H, cfg["bands"])
    if cfg["type"].startswith("Float"):
        array = np.abs(np.clip(array, -1000, 1000))
    if cfg.get("invert"):
        array = (array[:, ::-1, ::-1] // 3 + 1).astype(array.dtype)
    kind = cfg["source"]
    if kind in ("sicd", "sicd-chip"):
        off = (300, 500) if kind == "sicd-chip" else (0, 0)
        xml = data.sicd_xml("pfa", off[0], off[1], H, W)
        return data.sar_dataset(array, cfg["type"], [xml])
    if kind in ("sidd", "sidd-chip"):
        xml = data.sar_xml(kind)
        if kind == "sidd-chip":
            # the chip is the size of this image: 40x32 pixels whose corners are at (100..139, 200..231)
            for name, value in (("ChipSize", (H, W)),):
                start = xml.index("<GeometricChip>")
                part = xml[start:].replace("<si:Row>512</si:Row>", f"<si:Row>{H}</si:Row>", 1)
                part = part.replace("<si:Col>512</si:Col>", f"<si:Col>{W}</si:Col>", 1)
                xml = xml[:start] + part
        return data.sar_dataset(array, cfg["type"], [xml])
    if kind == "MEM":
        return array
    return data.file_dataset(array, cfg["type"], kind)


_sources = {}


def sensor_model(kind):
    if not kind:
        return None
    if kind is True:
        return GDALAffineSensorModel(GT)
    if kind == "shifted":
        return GDALAffineSensorModel([GT[0] + 0.5, GT[1], GT[2], GT[3] - 0.25, GT[4], GT[5]])
    # oblique cameras over the same place whose reference heights differ: the ground moves by 10 pixels per 100 m
    height = {"rpc-low": 0.0, "rpc-high": 150.0}[kind]

    def poly(**terms):
        return RPCPolynomial([terms.get(f"c{i}", 0.0) for i in range(20)])

    one = poly(c0=1.0)
    return RPCSensorModel(
        0.0, 0.0, H / 2, W / 2, 49.985, 10.02, height, H / 2, W / 2, 0.02, 0.02, 100.0,
        poly(c2=-1.0, c3=0.2, c9=0.1), one, poly(c1=1.0, c3=0.4, c9=0.1), one,
    )


def new_factory(name):
    cfg = CONFIGS[name]
    if name not in _sources:
        _sources[name] = build_source(cfg)
    src = _sources[name]
    ds = data.mem_dataset(src, cfg["type"]) if isinstance(src, np.ndarray) else gdal.Open(src)
    sm = sensor_model(cfg["model"])
    return (
        GDALTileFactory(
            ds,
            sm,
            Fmt(cfg["format"]),
            Comp.NONE,
            output_type=cfg.get("output"),
            range_adjustment=Range(cfg.get("range", "NONE")),
        ),
        ds,
    )


def ask(factory, request):
    """The observable outcome of one request."""
    kind, where, size = REQUESTS[request]
    try:
        if kind == "tile":
            window = list(where)
            result = factory.create_encoded_tile(window, size)
            assert window == list(where), "the request was changed"
        else:
            result = factory.create_orthophoto_tile([float(np.radians(v)) for v in where], size)
    except Exception as e:
        return ("refused", type(e).__name__)
    if result is None:
        return ("none",)
    if kind == "ortho":
        return ("ortho", bytes(result))
    tile = data.Tile(result)
    try:
        d = data.describe(tile.ds)
        # the statistics GDAL keeps with the source are not part of what a tile is requested for
        d["metadata"] = {k: v for k, v in d["metadata"].items() if not k.startswith("STATISTICS_")}
        return ("tile", repr(d))
    finally:
        tile.close()


# What each request is answered when it is the very first one: asked in a process of its own, forked from one in which
# no request was ever made.
_alone = {}


def _answer_alone(key):
    mode, name, r = key
    if not mode:
        gdal.DontUseExceptions()
    f, ds = new_factory(name)
    return ask(f, r)


def ask_alone():
    keys = []
    for name in CONFIGS:
        for r in LETTERS + list(GRID):
            if usable(name, r):
                keys.append((True, name, r))
                if r in LETTERS and not name.startswith("s"):
                    keys.append((False, name, r))
        if name not in _sources:
            _sources[name] = build_source(CONFIGS[name])
    with multiprocessing.get_context("fork").Pool(os.cpu_count() or 1, maxtasksperchild=1) as pool:
        _alone.update(zip(keys, pool.map(_answer_alone, keys, chunksize=1)))


def run(ctx, case):
    if not case.get("exceptions", True):
        gdal.DontUseExceptions()
    try:
        run_history(ctx, case)
    finally:
        gdal.UseExceptions()


def run_history(ctx, case):
    name = case["config"]
    mode = case.get("exceptions", True)
    before_files = data.vsimem_files()
    f, ds = ctx.call(new_factory, name)
    before = data.pixels(ds).tobytes()
    before_metadata = all_metadata(ds)
    for i, r in enumerate(case["requests"]):
        outcome = ctx.call(ask, f, r)
        ctx.state(name, r, outcome)
        ctx.check(
            outcome == _alone[(mode, name, r)],
            "a request is answered differently after other requests",
            request=r,
            after=case["requests"][:i],
            answer=outcome,
            first_answer=_alone[(mode, name, r)],
        )
        left = [x for x in data.vsimem_files() if x not in before_files]
        ctx.check(not left, "files are left in memory after a request", files=left)
    ctx.check(data.pixels(ds).tobytes() == before, "the source image was changed")
    after = all_metadata(ds)
    ctx.check(after == before_metadata, "the metadata of the source image was changed", before=before_metadata, after=after)


def all_metadata(ds):
    """The metadata of the dataset and of its bands, as a user can see them."""
    result = []
    for part in [ds] + [ds.GetRasterBand(b + 1) for b in range(ds.RasterCount)]:
        result.append({domain: part.GetMetadata(domain) for domain in sorted(part.GetMetadataDomainList() or []) + [""]})
    for b in range(ds.RasterCount):
        band = ds.GetRasterBand(b + 1)
        result.append((band.GetNoDataValue(), band.GetColorInterpretation(), band.GetDescription(), band.GetOverviewCount(), band.GetOffset(), band.GetScale()))
    return repr((result, ds.GetGeoTransform(can_return_null=True), ds.GetProjection(), ds.GetGCPCount()))


def run_sane(ctx, case):
    """The reference answers themselves: the right requests are answered, the others refused or empty."""
    f, _ds = ctx.call(new_factory, case["config"])
    outcome = ctx.call(ask, f, case["request"])
    ctx.state("sane", case["config"], outcome)
    kind, where, size = REQUESTS[case["request"]]
    if case["request"] in ("a", "b", "c", "same") and case["config"] not in UNSUPPORTED:
        ctx.check(outcome[0] == "tile", "no tile for a window inside the image", outcome=outcome)
        want = repr((where[2], where[3]))[1:-1]
        ctx.check(f"'size': ({want}," in outcome[1], "wrong size", outcome=outcome)


UNSUPPORTED = ("png-float", "nitf-int64", "jpeg-5")  # the format can not hold such pixels


def usable(name, r):
    cfg = CONFIGS[name]
    if REQUESTS[r][0] == "ortho":
        return cfg["model"] and cfg["format"] == "PNG"
    return True


def histories(depth, configs):
    def gen():
        for n in range(1, depth + 1):
            for name in configs:
                letters = [r for r in LETTERS if usable(name, r)]
                for seq in sequences(letters, n, n):
                    yield {"config": name, "requests": seq}

    return gen


def pairs():
    """For every request, one history in which every other request follows it: all ordered pairs of grid requests."""
    for name in CONFIGS:
        letters = [r for r in GRID if usable(name, r)]
        for first in letters:
            yield {"config": name, "requests": [r for second in letters for r in (first, second)]}


def silent(depth):
    def gen():
        for case in histories(depth, [c for c in CONFIGS if not c.startswith("s")])():
            yield dict(case, exceptions=False)

    return gen


def run_two(ctx, case):
    """Two factories on the same dataset do not influence each other."""
    name = case["config"]
    cfg = CONFIGS[name]
    f1, ds = ctx.call(new_factory, name)
    f2 = ctx.call(
        GDALTileFactory, ds, None, Fmt.GTIFF, Comp.NONE, output_type=cfg.get("output"), range_adjustment=Range(cfg.get("range", "NONE"))
    )
    g, gds = new_factory(name)
    other = GDALTileFactory(
        gds, None, Fmt.GTIFF, Comp.NONE, output_type=cfg.get("output"), range_adjustment=Range(cfg.get("range", "NONE"))
    )
    for i, (which, r) in enumerate(case["requests"]):
        got = ctx.call(ask, f1 if which == 0 else f2, r)
        if which == 0:
            fresh, _keep = new_factory(name)
            want = ask(fresh, r)
        else:
            want = ask(other, r)
        ctx.state("two", name, which, got)
        ctx.check(got == want, "the other factory changed the answer", request=r, after=case["requests"][:i], got=got, want=want)


def two_histories(depth, configs):
    def gen():
        for name in configs:
            letters = [[w, r] for w in (0, 1) for r in ("a", "b", "half")]
            for seq in sequences(letters, depth, depth):
                if len({w for w, _ in seq}) == 2:
                    yield {"config": name, "requests": seq}

    return gen


def run_others(ctx, case):
    """Factories of several datasets in one process."""
    made = {}
    for i, (name, r) in enumerate(case["requests"]):
        if name not in made:
            made[name] = ctx.call(new_factory, name)
        got = ctx.call(ask, made[name][0], r)
        want = _alone[(True, name, r)]
        ctx.state("others", name, r, got)
        ctx.check(got == want, "requests to the factory of another dataset changed the answer", request=(name, r), after=case["requests"][:i], got=got, want=want)


def other_histories():
    for a, b in itertools.permutations(CONFIGS, 2):
        for r1 in ("a", "half", "ortho"):
            for r2 in ("a", "half", "ortho"):
                if usable(a, r1) and usable(b, r2):
                    yield {"requests": [[a, r1], [b, r2], [a, r1]]}


# -- sources some of whose pixels can not be read ------------------------------------------------------------------
BLOCK = 16


def damaged_source(bands, block):
    """A tiled GeoTIFF and a copy of it in which the given block is destroyed."""
    key = ("damaged", bands, block)
    if key not in _sources:
        name = data.file_dataset(
            data.pattern("Byte", W, H, bands), "Byte", "GTiff", ["TILED=YES", f"BLOCKXSIZE={BLOCK}", f"BLOCKYSIZE={BLOCK}", "COMPRESS=DEFLATE"]
        )
        if block is not None:
            ds = gdal.Open(name)
            band = ds.GetRasterBand(1)
            at = int(band.GetMetadataItem(f"BLOCK_OFFSET_{block[0]}_{block[1]}", "TIFF"))
            size = int(band.GetMetadataItem(f"BLOCK_SIZE_{block[0]}_{block[1]}", "TIFF"))
            del ds, band
            f = gdal.VSIFOpenL(name, "rb+")
            gdal.VSIFSeekL(f, at, 0)
            gdal.VSIFWriteL(b"\xff" * size, 1, size, f)
            gdal.VSIFCloseL(f)
        _sources[key] = name
    return _sources[key]


BLOCKS = [(i, j) for i in range(3) for j in range(2)]
FAULTY = {
    "left": ("tile", [0, 0, 16, 16], None),
    "inner": ("tile", [3, 17, 11, 9], None),
    "right": ("tile", [32, 0, 8, 32], None),
    "across": ("tile", [15, 15, 2, 2], None),
    "all": ("tile", [0, 0, W, H], None),
    "small": ("tile", [0, 0, W, H], (10, 8)),
    "large": ("tile", [16, 16, 16, 16], (32, 32)),
    "map": ("ortho", (10.005, 49.98, 10.03, 49.995), (12, 10)),
}
REQUESTS.update(FAULTY)


def run_damaged(ctx, case):
    """Pixels that can not be read: such requests fail, the others are answered as if nothing was wrong."""
    if not case["exceptions"]:
        gdal.DontUseExceptions()
    try:
        bad, good = damaged_source(case["bands"], case["block"] and tuple(case["block"])), damaged_source(case["bands"], None)
        before_files = data.vsimem_files()

        def factory(name):
            return GDALTileFactory(gdal.Open(name), sensor_model(True), Fmt(case["format"]), Comp.NONE)

        f = ctx.call(factory, bad)
        for i, r in enumerate(case["requests"]):
            got = ctx.call(ask, f, r)
            want = ask(factory(good), r)
            ctx.state("damaged", case["format"], case["bands"], case["block"], r, got)
            kind, where, size = REQUESTS[r]
            about = dict(request=r, after=case["requests"][:i], got=got, want=want)
            ctx.check(want[0] in ("tile", "ortho"), "the undamaged image is not answered", **about)
            if kind == "tile" and size is None:
                x, y, w, h = where
                b = case["block"]
                hit = b and x < (b[0] + 1) * BLOCK and x + w > b[0] * BLOCK and y < (b[1] + 1) * BLOCK and y + h > b[1] * BLOCK
                if hit:
                    ctx.check(got[0] in ("refused", "none"), "a tile whose pixels can not be read is returned", **about)
                else:
                    ctx.check(got == want, "pixels elsewhere that can not be read change the answer", **about)
            else:
                ctx.check(got == want or got[0] in ("refused", "none"), "pixels that can not be read are shown", **about)
            left = [x for x in data.vsimem_files() if x not in before_files]
            ctx.check(not left, "files are left in memory after a request that failed", files=left, **about)
    finally:
        gdal.UseExceptions()


def damaged(depth):
    def gen():
        for n in range(1, depth + 1):
            for fmt, bands in (("NITF", 1), ("GTiff", 3), ("PNG", 1), ("PNG", 3), ("JPEG", 1)):
                letters = [r for r in FAULTY if r != "map" or fmt == "PNG"]
                for block in [None] + BLOCKS:
                    for exceptions in (True, False):
                        for seq in sequences(letters, n, n):
                            yield {"format": fmt, "bands": bands, "block": block, "exceptions": exceptions, "requests": seq}

    return gen


TRACED = [os.path.join(os.path.realpath(os.path.dirname(__import__("aws.osml.image_processing", fromlist=["x"]).__file__)), "")]


def run_threads(ctx, case):
    """Two threads, each with a dataset and a factory of its own, at work at the same time."""
    programs = case["threads"]
    before_files = data.vsimem_files()
    factories = [new_factory(name) for name, _ in programs]

    def make():
        # the first request of a factory computes statistics: the factories are only made anew where that matters
        used = [new_factory(name) for name, _ in programs] if case["fresh"] else factories
        return used, [lambda f=f, r=r: ask(f, r) for (f, _), (_, r) in zip(used, programs)]

    def check(_, run):
        where = {"preempted at": [i for i, (_, p, _) in enumerate(run.decisions) if p]}
        if run.deadlock:
            raise Violation("the threads wait for each other forever", where)
        for slot, (name, r) in zip(run.slots, programs):
            if slot.error is not None:
                raise Violation(f"a thread failed with {type(slot.error).__name__}: {slot.error}", where)
            ctx.check(slot.result == _alone[(True, name, r)], "a request is answered differently while another thread is at work", request=(name, r), got=slot.result, want=_alone[(True, name, r)], **where)
        left = [x for x in data.vsimem_files() if x not in before_files]
        ctx.check(not left, "files are left in memory after a request", files=left, **where)
        ctx.state(programs, tuple(where["preempted at"][:2]))

    executions, steps = sched.explore(make, check, case["bound"], TRACED, case["shard"], case["shards"])
    ctx.traces += executions - 1
    ctx.transitions += steps


def thread_cases(quick):
    programs = [("nitf", "a"), ("nitf", "half"), ("gtiff", "b"), ("png-dra", "ortho"), ("png-minmax", "c"), ("sicd", "b"), ("sicd-chip", "a"), ("sidd-chip", "half"), ("png-float", "a")]

    def gen():
        pairs = list(itertools.combinations_with_replacement(programs, 2))
        if quick:
            pairs = [(programs[a], programs[b]) for a, b in ((0, 1), (1, 1), (0, 2), (3, 4), (5, 6), (5, 7), (2, 8))]
        for pair in pairs:
            for shard in range(4):
                yield {"threads": [list(p) for p in pair], "fresh": False, "bound": 1, "shard": shard, "shards": 4}
        if not quick:
            for pair in ((programs[0], programs[1]), (programs[0], programs[2])):
                for shard in range(16):
                    yield {"threads": [list(p) for p in pair], "fresh": False, "bound": 2, "shard": shard, "shards": 16}

    return gen


def spaces(tier):
    quick = tier == "quick"
    ask_alone()
    light = [c for c in CONFIGS if not c.startswith("s") and c not in TWINS]
    sar = [c for c in CONFIGS if c.startswith("s")]
    return [
        Space(
            "answers",
            lambda: ({"config": c, "request": r} for c in CONFIGS for r in LETTERS if usable(c, r)),
            run_sane,
            bound="every request on every kind of source",
        ),
        Space("plain", histories(3 if quick else 4, light), run, bound="all request histories of length 3 (thorough 4)"),
        Space("pairs", pairs, run, bound="all ordered pairs of requests that differ in any subset of position, size, output size or area"),
        Space("no_exceptions", silent(2 if quick else 3), run, bound="histories of length 2 (thorough 3), GDAL exceptions disabled"),
        Space("sar", histories(2 if quick else 3, sar), run, bound="all request histories of length 2 (thorough 3), SICD/SIDD sources"),
        Space("two_factories", two_histories(2 if quick else 3, [c for c in CONFIGS if c not in UNSUPPORTED]), run_two, bound="two factories sharing a dataset"),
        Space("other_datasets", other_histories, run_others, bound="all ordered pairs of datasets (some equal in all but pixels or sensor model) and of 3 requests, A B A"),
        Space("damaged", damaged(2 if quick else 3), run_damaged, bound="histories of length 2 (thorough 3), each block of the image unreadable in turn, 5 formats, GDAL exceptions on and off"),
        Space("threads", thread_cases(quick), run_threads, bound="7 (all) pairs of 9 requests in two threads with a dataset each, at most 1 preemption (2 of them at most 2) at any line of the image processing package"),
    ]
