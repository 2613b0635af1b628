"""C12: a sensor model is a function: the answer depends on the question only, not on what was asked before or meanwhile."""

import functools
import math

from mc import sched

sched.install()

import os

import numpy as np
from osgeo import gdal

from mc import core, data, sar, tre
from mc.core import Space, Violation, product, sequences

from aws.osml.gdal import SensorModelFactory
from aws.osml.photogrammetry import (
    ChippedImageSensorModel,
    ConstantElevationModel,
    ElevationModel,
    ElevationRegionSummary,
    GeodeticWorldCoordinate,
    ImageCoordinate,
    ProjectiveSensorModel,
    SensorModelOptions,
)

from checks import c10, c13

TRACED = (os.path.join(os.path.realpath(core.REPO), "src/aws/osml"), os.path.join(core.REPO, "src/aws/osml"))


class Terrain(ElevationModel):
    def __init__(self, base=180.0):
        super().__init__()
        self.base = base

    def set_elevation(self, c):
        c.elevation = self.base + 20.0 * math.sin(2000 * c.longitude) + 10.0 * math.cos(1500 * c.latitude)

    def describe_region(self, c):
        return ElevationRegionSummary(self.base - 40.0, self.base + 40.0, -32767, 30.0)


def gcps(world, size):
    return [GeodeticWorldCoordinate([*world[i], 0.0]) for i in range(4)], [
        ImageCoordinate(list(p)) for p in ((0, 0), (size[0], 0), (size[0], size[1]), (0, size[1]))
    ]


def build(kind):
    """A new sensor model, and the size of its image. Kinds that end with ' 2' are other images of the kind."""
    if kind == "affine 2":
        return SensorModelFactory(400, 300, geo_transform=[-70.0, 2e-4, -1e-5, -20.0, 1e-5, -2e-4]).build(), (400, 300)
    if kind == "utm 2":
        from osgeo import osr

        srs = osr.SpatialReference()
        srs.ImportFromEPSG(32721)
        return (
            SensorModelFactory(400, 300, geo_transform=[450000.0, 12.0, -1.0, 6600000.0, 2.0, -9.0], proj_wkt=srs.ExportToWkt()).build(),
            (400, 300),
        )
    if kind == "projective 2":
        corners = [(-1.2, -0.5), (-1.199, -0.5002), (-1.1988, -0.5013), (-1.2001, -0.5011)]
        return ProjectiveSensorModel(*gcps(corners, (400, 300))), (400, 300)
    if kind == "rpc 2":
        return c10.rpc(*c10.synthetic_rpc(0, "all"), "factory"), (4000, 3000)
    if kind in ("rsm-G 2", "rsm-H 2", "rsm-R 2"):
        return c10.rsm(kind[4], 1, (1, 1, 1), via="factory")[0], c10.SIZE
    if kind == "chipped 2":
        model, size = build("rpc")
        full = [(300, 100), (1300, 100), (1300, 900), (300, 900)]
        chip = [(0, 0), (500, 0), (500, 400), (0, 400)]
        return ChippedImageSensorModel([ImageCoordinate(list(p)) for p in full], [ImageCoordinate(list(p)) for p in chip], model), (500, 400)
    if kind in ("capella 2", "pfa 2", "rma 2"):
        name = kind[:-2]
        s = sar.Sar(data.sar_xml(name))
        xml = data.sicd_xml(name, 10, 20, s.size[0], s.size[1])
        return SensorModelFactory(100, 100, xml_dess=sar.des_list([xml])).build(), (s.size[1], s.size[0])
    if kind == "sidd 2":
        s = sar.Sar(data.sar_xml("sidd"))
        return SensorModelFactory(100, 100, xml_dess=sar.des_list([data.sar_xml("sidd-chip")])).build(), (512, 512)
    if kind == "affine":
        return SensorModelFactory(400, 300, geo_transform=[10.0, 1e-4, 2e-5, 50.0, 1e-5, -1e-4]).build(), (400, 300)
    if kind == "utm":
        from osgeo import osr

        srs = osr.SpatialReference()
        srs.ImportFromEPSG(32633)
        return (
            SensorModelFactory(400, 300, geo_transform=[500000.0, 10.0, 1.0, 5500000.0, 2.0, -10.0], proj_wkt=srs.ExportToWkt()).build(),
            (400, 300),
        )
    if kind == "projective":
        corners = [(0.2, 0.5), (0.201, 0.5002), (0.2012, 0.4993), (0.1999, 0.4991)]
        return ProjectiveSensorModel(*gcps(corners, (400, 300))), (400, 300)
    if kind == "rpc":
        return c10.rpc(*c10.synthetic_rpc(1, "all"), "factory"), (4000, 3000)
    if kind in ("rsm-G", "rsm-H", "rsm-R"):
        return c10.rsm(kind[-1], 0, (1, 1, 1), via="factory")[0], c10.SIZE
    if kind == "sections":
        every = [(r, c) for r in (1, 2) for c in (1, 2)]
        root, *_ = c13.metadata("R", 2, 2, every)
        return SensorModelFactory(*c10.SIZE, xml_tres=root).build(), c10.SIZE
    if kind == "chipped":
        model, size = build("rpc")
        full = [(100, 200), (1100, 200), (1100, 1000), (100, 1000)]
        chip = [(0, 0), (500, 0), (500, 400), (0, 400)]
        return ChippedImageSensorModel([ImageCoordinate(list(p)) for p in full], [ImageCoordinate(list(p)) for p in chip], model), (500, 400)
    if kind == "composite":
        norm, polynomials = c10.synthetic_rpc(1, "all")
        at = {}
        for name, (fx, fy) in tre.CORNERS.items():
            at[name] = (norm["LAT_OFF"] + 0.03 * (0.5 - fy), norm["LONG_OFF"] + 0.06 * (fx - 0.5), 0.0)
        root = tre.tres(tre.rpc_tre(norm, polynomials), tre.cscrna_tre(at))
        return SensorModelFactory(4000, 3000, xml_tres=root).build(), (4000, 3000)
    s = sar.Sar(data.sar_xml(kind))
    return SensorModelFactory(100, 100, xml_dess=sar.des_list([data.sar_xml(kind)])).build(), (s.size[1], s.size[0])


KINDS = ["affine", "utm", "projective", "rpc", "rsm-G", "rsm-H", "rsm-R", "sections", "chipped", "composite", "capella", "pfa", "rma", "sidd"]
OTHERS = [k for k in KINDS if k not in ("sections", "composite")]
AT = {"a": (0.25, 0.3), "b": (0.7, 0.85), "x": (0.25, 0.85), "y": (0.7, 0.3), "n": (0.25002, 0.29998)}
# i: image to world, w: world to image, h: image to world at a height, t: image to world on terrain, o: with options
LETTERS = [k + p for k in "iwht" for p in "ab"] + ["oa"]
# pixels that share a row, a column or their integer part with another, and more elevation models and options:
# k: at another height, s: on another terrain, v: world to image at another height, p: with other options,
# l: with the guess in a list
MORE = LETTERS + [k + p for k in "iw" for p in "xyn"] + ["ha", "hx", "ka", "ta", "sa", "va", "vb", "pa", "hn", "tn", "la"]
MORE = list(dict.fromkeys(MORE))


@functools.lru_cache(None)
def size_of(kind):
    return build(kind)[1]


@functools.lru_cache(None)
def answers(kind):
    """What a new model answers to each question on its own."""
    out = {}
    for op in MORE:
        if op[0] == "w":
            model, size = build(kind)
            w = model.image_to_world(ImageCoordinate(pixel(size, op[1])))
            out["at" + op[1]] = tuple(float(v) for v in w.coordinate)
    for op in MORE:
        out[op] = ask(build(kind)[0], kind, op, out)[0]
    return out


def pixel(size, where):
    fx, fy = AT[where]
    return [round(fx * size[0], 3), round(fy * size[1], 3)]


def ask(model, kind, op, known):
    """The answer, and whether everything the caller passed in is as it was; the answer is then overwritten."""
    what, where = op
    if what in "wv":
        given = GeodeticWorldCoordinate(list(known["at" + where]))
        if what == "v":
            given.elevation += 60.0
        before = tuple(float(v) for v in given.coordinate)
        got = model.world_to_image(given)
        same = before == tuple(float(v) for v in given.coordinate)
    else:
        given = ImageCoordinate(pixel(size_of(kind), where))
        before = tuple(float(v) for v in given.coordinate)
        em = {"h": ConstantElevationModel(150.0), "k": ConstantElevationModel(210.0), "t": Terrain(), "s": Terrain(120.0)}.get(what)
        options = None
        if what == "p":
            options = {SensorModelOptions.INITIAL_SEARCH_DISTANCE: 2e-3}
        if what == "o":
            base = known["at" + where]
            options = {
                SensorModelOptions.INITIAL_GUESS: np.array([base[0] + 1e-4, base[1] - 1e-4]),
                SensorModelOptions.INITIAL_SEARCH_DISTANCE: 1e-3,
            }
        if what == "l":
            base = known["at" + where]
            guess = [base[0] + 1e-4, base[1] - 1e-4]
            options = {SensorModelOptions.INITIAL_GUESS: guess, SensorModelOptions.INITIAL_SEARCH_DISTANCE: 1e-3}
        kept = repr(options)
        got = model.image_to_world(given, elevation_model=em, options=options)
        same = before == tuple(float(v) for v in given.coordinate) and repr(options) == kept
    answer = tuple(float(v) for v in got.coordinate)
    # what the caller does with its copies of the coordinates is none of the business of the model
    got.coordinate[:] = 1.2345
    given.coordinate[:] = -5.4321
    return answer, same


def run_history(ctx, case):
    kind = case["kind"]
    expected = ctx.call(answers, kind)
    model = ctx.call(build, kind)[0]
    for n, op in enumerate(case["ops"]):
        got, same = ctx.call(ask, model, kind, op, expected)
        ctx.check(same, "what the caller passed in was changed", op=op)
        ctx.check(got == expected[op], "another answer than that of a new model", op=op, after=case["ops"][:n], got=got, want=expected[op])
        ctx.state(kind, op, tuple(case["ops"][:n]))


class Failing(Terrain):
    """A terrain model that fails at the given call."""

    def __init__(self, fail_at):
        super().__init__()
        self.left = fail_at

    def count(self):
        self.left -= 1
        if self.left == 0:
            raise OSError("the elevations can not be read")

    def set_elevation(self, c):
        self.count()
        super().set_elevation(c)

    def describe_region(self, c):
        self.count()
        return super().describe_region(c)


ODD = {
    "nan pixel": [math.nan, 3.0],
    "far pixel": [1e9, -1e9],
    "no number": [math.inf, -math.inf],
    "nan place": [math.nan, 0.1, 0.0],
    "antipode": "antipode",
    "center of the earth": [0.1, 0.2, -6378137.0],
    "far above": [0.1, 0.2, 1e9],
}


def run_interrupted(ctx, case):
    """A question that fails in the middle, or has no sensible answer, does not change the answers to later ones."""
    kind = case["kind"]
    expected = ctx.call(answers, kind)
    model = ctx.call(build, kind)[0]
    failed = "answered"
    try:
        if "fail_at" in case:
            given = ImageCoordinate(pixel(size_of(kind), case["where"]))
            model.image_to_world(given, elevation_model=Failing(case["fail_at"]))
        else:
            value = ODD[case["odd"]]
            if value == "antipode":
                at = expected["ata"]
                value = [at[0] - math.pi * (1 if at[0] > 0 else -1), -at[1], 0.0]
            if len(value) == 2:
                model.image_to_world(ImageCoordinate(list(value)), elevation_model=Terrain() if case.get("terrain") else None)
            else:
                model.world_to_image(GeodeticWorldCoordinate(list(value)))
    except Exception as e:
        failed = type(e).__name__
    for op in case["then"]:
        got, same = ctx.call(ask, model, kind, op, expected)
        ctx.check(same and got == expected[op], "another answer after a question that failed or made no sense", op=op, failed=failed, got=got, want=expected[op])
    ctx.state(kind, failed, case.get("fail_at"), case.get("odd"), case["then"])


def run_two(ctx, case):
    """Two models of the same or of different kinds do not influence each other."""
    kinds = case["kinds"]
    expected = [ctx.call(answers, k) for k in kinds]
    models = [ctx.call(build, k)[0] for k in kinds]
    for i in case["order"]:
        for op in ("ia", "wb", "hb"):
            got, same = ctx.call(ask, models[i], kinds[i], op, expected[i])
            ctx.check(same and got == expected[i][op], "another answer than that of the only model", op=op, got=got, want=expected[i][op])
    ctx.state(kinds, case["order"])


def run_same_kind(ctx, case):
    """Two images of the same kind: every question to one, then to the other, and again."""
    kinds = [case["kind"], case["kind"] + " 2"]
    expected = [ctx.call(answers, k) for k in kinds]
    models = [ctx.call(build, k)[0] for k in kinds]
    for op in MORE:
        for i in case["order"]:
            got, same = ctx.call(ask, models[i], kinds[i], op, expected[i])
            ctx.check(same and got == expected[i][op], "another answer than that of the only model", op=op, model=i, got=got, want=expected[i][op])
        ctx.state(case["kind"], op, case["order"])
    ctx.check(expected[0]["ia"] != expected[1]["ia"], "the harness compares equal images")


def run_threads(ctx, case):
    kind, programs = case["kind"], case["threads"]
    expected = answers(kind)
    shared = build(kind)[0]

    def make():
        model = build(kind)[0] if case["fresh"] else shared
        return model, [lambda ops=ops: [ask(model, kind, op, expected) for op in ops] for ops in programs]

    def check(model, run):
        schedule = [p for _, p, _ in run.decisions]
        where = {"preempted at": [i for i, p in enumerate(schedule) if p]}
        if run.deadlock:
            raise Violation("the threads wait for each other forever", where)
        for slot, ops in zip(run.slots, programs):
            if slot.error is not None:
                raise Violation(f"a thread failed with {type(slot.error).__name__}: {slot.error}", where)
            for op, (got, same) in zip(ops, slot.result):
                ctx.check(same and got == expected[op], "another answer than that to one thread", op=op, got=got, want=expected[op], **where)
        ctx.state(kind, programs, tuple(where["preempted at"][:2]))

    executions, steps = sched.explore(make, check, case["bound"], TRACED, case["shard"], case["shards"])
    ctx.traces += executions - 1
    ctx.transitions += steps


def spaces(tier):
    quick = tier == "quick"
    fast = ["affine", "utm", "projective", "capella", "pfa", "rma", "sidd"]
    slow = [k for k in KINDS if k not in fast]

    def histories():
        for kind in KINDS:
            depth = (3 if kind in fast else 2) if quick else (4 if kind in fast else 3)
            for ops in sequences(LETTERS, depth, 1):
                yield {"kind": kind, "ops": ops}

    def thread_cases():
        for kind in fast:
            for threads in ([["ia"], ["wb"]], [["ia"], ["ib"]], [["wa"], ["wb"]], [["ha"], ["ib"]]):
                if threads[0] == ["ha"] and kind in ("capella", "pfa", "rma", "sidd") and quick:
                    continue
                for shard in range(4):
                    yield dict(kind=kind, threads=threads, bound=1 if quick else 2 if kind in ("affine", "utm", "projective") else 1, fresh=False, shard=shard, shards=4)
        for kind in slow:
            if quick and kind in ("rsm-G", "rsm-H"):
                continue
            pairs = [[["wa"], ["wb"]]]
            if not quick and kind == "rpc":
                pairs.append([["wa"], ["ib"]])
            for threads in pairs:
                for shard in range(8):
                    yield dict(kind=kind, threads=threads, bound=1, fresh=False, shard=shard, shards=8)

    def two_cases():
        for c in product(a=KINDS, b=KINDS, order=[[0, 1, 0], [1, 0, 0, 1]]):
            yield {"kinds": [c["a"], c["b"]], "order": c["order"]}

    def pairs():
        for kind in KINDS:
            for first in MORE:
                yield {"kind": kind, "ops": [op for second in MORE for op in (first, second)]}

    def interrupted():
        for kind in KINDS:
            for then in ([] if quick else [[op] for op in LETTERS]) + [LETTERS, LETTERS[::-1]]:
                for where in "ab":
                    for k in (range(1, 13) if quick else range(1, 60)):
                        yield {"kind": kind, "where": where, "fail_at": k, "then": then}
                for odd in ODD:
                    yield {"kind": kind, "odd": odd, "then": then}
                    yield {"kind": kind, "odd": odd, "terrain": True, "then": then}

    def same_kind():
        for kind in OTHERS:
            for order in ([0, 1], [1, 0], [0, 1, 0, 1]):
                yield {"kind": kind, "order": order}

    return [
        Space("pairs", pairs, run_history, bound="all ordered pairs of 24 questions that agree in some of pixel, place, elevation model and options"),
        Space("same_kind", same_kind, run_same_kind, bound="two different images of the same kind, all questions"),
        Space("histories", histories, run_history, bound="14 kinds of models, all sequences of 9 questions up to length 3 (4), 2 (3) for iterative models"),
        Space("interrupted", interrupted, run_interrupted, bound="the elevation model fails at each of its first 12 (60) calls, 7 questions without a sensible answer; then every question, and all in a row"),
        Space("two_models", two_cases, run_two, bound="all pairs of kinds of models"),
        Space("threads", thread_cases, run_threads, bound="2 threads on one model, at most 1 (2) preemption at any line of the toolkit"),
    ]


NOTES = {"assumptions": ["threads are switched between lines of Python code of the toolkit"]}
