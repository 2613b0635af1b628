"""C07: the cache of a digital elevation model is not observable, whatever the history or the thread schedule."""

import os

from mc import sched

sched.install()

import cachetools  # noqa: E402
import numpy as np  # noqa: E402

from mc.core import REPO, Space, Violation, sequences  # noqa: E402

from aws.osml.photogrammetry import (  # noqa: E402
    DigitalElevationModel,
    DigitalElevationModelTileFactory,
    DigitalElevationModelTileSet,
    ElevationRegionSummary,
    GDALAffineSensorModel,
    GeodeticWorldCoordinate,
)

TRACED = [os.path.join(REPO, "src/aws/osml"), os.path.dirname(cachetools.__file__)]
# Places: the tile they are in, and their position in it (fractions of its 2x2 posts)
TILES = ["A", "B", "C", "D"]
# The names of their files agree in all parts but one: the directory, the ending, the case
NAMES = ["e000/n00.dt2", "e001/n00.dt2", "e000/n00.tif", "e000/N00.dt2"]


class TileSet(DigitalElevationModelTileSet):
    def find_tile_id(self, c):
        i = int(np.floor(np.degrees(c.longitude)))
        return {**dict(enumerate(NAMES)), 4: "missing", 5: "faulty"}.get(i)


class LoadError(Exception):
    pass


class TileFactory(DigitalElevationModelTileFactory):
    def __init__(self, shift=0.0):
        super().__init__()
        self.loads = []
        self.failing = set()
        self.shift = shift
        self.hook = lambda: None

    def get_tile(self, tile_path):
        name = TILES[NAMES.index(tile_path)] if tile_path in NAMES else tile_path
        self.loads.append(name)
        self.hook()
        if name == "faulty" or name in self.failing:
            raise LoadError(tile_path)
        if name == "missing":
            return None, None, None
        i = TILES.index(name)
        self.hook()
        array = np.array([[0.0, 10.0], [20.0, 30.0]]) + 100.0 * i + self.shift
        # posts at the corners of the one degree cell
        model = GDALAffineSensorModel([float(i), 1.0, 0.0, 1.0, 0.0, -1.0])
        summary = ElevationRegionSummary(array.min(), array.max(), -1, 100.0 + i)
        return array, model, summary


FRACTIONS = [(0.25, 0.75), (0.5, 0.5)]


def location(tile, k=0):
    i = (TILES + ["missing", "faulty", "none"]).index(tile)
    fx, fy = FRACTIONS[k]
    return GeodeticWorldCoordinate([np.radians(i + fx), np.radians(fy), -7.0])


def reference(tile, k=0, shift=0.0):
    if tile not in TILES:
        return -7.0
    fx, fy = FRACTIONS[k]
    return 100.0 * TILES.index(tile) + shift + 10.0 * fx + 20.0 * (1 - fy)


def check_elevation(ctx, c, tile, k, shift=0.0):
    value = float(c.elevation)
    ctx.check(abs(value - reference(tile, k, shift)) < 1e-6, "wrong elevation", tile=tile, got=value, want=reference(tile, k, shift))
    before = location(tile, k)
    ctx.check(
        c.longitude == before.longitude and c.latitude == before.latitude, "the horizontal position was changed", tile=tile
    )


def check_summary(ctx, s, tile, shift=0.0):
    if tile not in TILES:
        ctx.check(s is None, "a summary of a region without elevation data", tile=tile, summary=s)
        return
    i = TILES.index(tile)
    want = (100.0 * i + shift, 100.0 * i + 30.0 + shift, -1, 100.0 + i)
    got = s and (s.min_elevation, s.max_elevation, s.no_data_value, s.post_spacing)
    ctx.check(got == want, "wrong summary", tile=tile, got=got, want=want)


def model_lru(cache, tile, size):
    """The tiles kept in memory after an access, and whether the access had to load the tile."""
    if tile in cache:
        cache.remove(tile)
        cache.append(tile)
        return False
    cache.append(tile)
    if len(cache) > size:
        cache.pop(0)
    return True


def run_history(ctx, case):
    size = case["size"]
    factory = TileFactory()
    dem = DigitalElevationModel(TileSet(), factory, raster_cache_size=size)
    cache = []
    loads = 0
    for op in case["ops"]:
        what, tile = op[0], op[1:]
        if what == "!":  # loading this tile fails for a while
            factory.failing ^= {tile}
            continue
        fails = tile == "faulty" or (tile in factory.failing and tile not in cache)
        k = 0 if what == "e" else 1
        c = location(tile, k)
        if fails:
            # The error is reported, or nothing is known about the region; it is not remembered.
            loads += 1
            try:
                result = dem.describe_region(c) if what == "d" else dem.set_elevation(c)
                ctx.check(result is None and c.elevation == -7.0, "data without a tile", tile=tile)
            except LoadError:
                pass
            ctx.transitions += 1
            factory.loads = factory.loads[:loads]
            loads = len(factory.loads)
            continue
        if what == "d":
            check_summary(ctx, ctx.call(dem.describe_region, c), tile)
        else:
            ctx.call(dem.set_elevation, c)
            check_elevation(ctx, c, tile, k)
        if tile in TILES:
            if model_lru(cache, tile, size):
                loads += 1
            ctx.check(len(factory.loads) >= loads, "a tile that is not in memory was not loaded", ops=case["ops"])
            ctx.check(len(factory.loads) <= loads, "a tile that is in memory was loaded again", loads=factory.loads, ops=case["ops"])
        else:
            # whether the absence of a tile is remembered is not specified, but it may take up room
            return_loads = len(factory.loads)
            loads = return_loads
        ctx.state(tuple(cache), tuple(sorted(factory.failing)))


def histories(size, depth, tiles, faults, what="ed"):
    # e and f: the elevation of two different places, d: the summary, !: loading the tile fails, or works again
    letters = [w + t for t in tiles for w in what] + ["!" + t for t in faults]

    def gen():
        for n in range(1, depth + 1):
            for ops in sequences(letters, n, n):
                yield {"size": size, "ops": ops}

    return gen


def run_absent(ctx, case):
    """Histories with missing, failing and unknown regions: every answer is right, nothing else is claimed."""
    factory = TileFactory()
    dem = DigitalElevationModel(TileSet(), factory, raster_cache_size=case["size"])
    for op in case["ops"]:
        what, tile = op[0], op[1:]
        c = location(tile, 0)
        if tile == "faulty":
            try:
                dem.set_elevation(c) if what == "e" else dem.describe_region(c)
            except LoadError:
                pass
            ctx.transitions += 1
            ctx.check(c.elevation == -7.0, "the elevation was changed by a failure")
            continue
        if what == "e":
            ctx.call(dem.set_elevation, c)
            check_elevation(ctx, c, tile, 0)
        else:
            check_summary(ctx, ctx.call(dem.describe_region, c), tile)
        ctx.state(op, len(factory.loads))


def absent(depth):
    letters = ["eA", "dB", "emissing", "dmissing", "efaulty", "dfaulty", "enone", "dnone"]

    def gen():
        for size in (1, 2):
            for ops in sequences(letters, depth, 1):
                yield {"size": size, "ops": ops}

    return gen


def run_two_models(ctx, case):
    """Two elevation models with tiles of the same name do not see each other's data."""
    shifts = [0.0, 1000.0]
    factories = [TileFactory(s) for s in shifts]
    dems = [DigitalElevationModel(TileSet(), f, raster_cache_size=case["size"]) for f in factories]
    for op in case["ops"]:
        m, what, tile = int(op[0]), op[1], op[2:]
        c = location(tile, 1)
        if what == "e":
            ctx.call(dems[m].set_elevation, c)
            check_elevation(ctx, c, tile, 1, shifts[m])
        else:
            check_summary(ctx, ctx.call(dems[m].describe_region, c), tile, shifts[m])
        ctx.state(op, tuple(len(f.loads) for f in factories))


def two_models(depth):
    letters = [f"{m}{w}{t}" for m in "01" for w in "ed" for t in "AB"]

    def gen():
        for size in (1, 2):
            for ops in sequences(letters, depth, 1):
                yield {"size": size, "ops": ops}

    return gen


# -- threads ---------------------------------------------------------------------------------------------------------
def run_threads(ctx, case):
    programs = case["threads"]

    def make():
        factory = TileFactory()
        factory.hook = lambda: (sched._me().point() if sched._me() is not None else None)
        dem = DigitalElevationModel(TileSet(), factory, raster_cache_size=case["size"])
        for op in case.get("warm", []):
            dem.set_elevation(location(op))
        factory.loads.clear()

        def program(ops):
            def body():
                out = []
                for op in ops:
                    what, tile = op[0], op[1:]
                    c = location(tile, 0)
                    try:
                        if what == "e":
                            dem.set_elevation(c)
                            out.append(c)
                        else:
                            out.append(dem.describe_region(c))
                    except LoadError:
                        out.append(c if what == "e" else None)
                        if tile != "faulty":
                            raise
                return out

            return body

        return (dem, factory), [program(ops) for ops in programs]

    def check(state, run):
        dem, factory = state
        schedule = [p for _, p, _ in run.decisions]
        where = {"schedule": [i for i, p in enumerate(schedule) if p], "choices": [p for p in schedule if p]}
        if run.deadlock:
            raise Violation("the threads wait for each other forever", where)
        for slot, ops in zip(run.slots, programs):
            if slot.error is not None:
                raise Violation(f"a thread failed with {type(slot.error).__name__}: {slot.error}", where)
            for op, out in zip(ops, slot.result):
                try:
                    if op[0] == "e":
                        check_elevation(ctx, out, op[1:], 0)
                    else:
                        check_summary(ctx, out, op[1:])
                except Violation as v:
                    raise Violation(v.message, dict(where, detail=v.detail))
        ctx.state(tuple(factory.loads), tuple(where["schedule"][:2]))
        # whatever the schedule was, the model still works, with the configured amount of memory
        for tile in TILES[::-1]:
            c = location(tile, 1)
            ctx.call(dem.set_elevation, c)
            check_elevation(ctx, c, tile, 1)
        n = len(factory.loads)
        dem.set_elevation(location(TILES[0]))
        ctx.check(len(factory.loads) == n, "the tile used last is not in memory any more", **where)

    executions, steps = sched.explore(make, check, case["bound"], TRACED, case["shard"], case["shards"])
    ctx.traces += executions - 1
    ctx.transitions += steps


SCENARIOS = [
    dict(size=1, warm=[], threads=[["eA"], ["eB"]]),
    dict(size=1, warm=["A"], threads=[["eA"], ["eB"]]),
    dict(size=1, warm=["A"], threads=[["eA"], ["eA"]]),
    dict(size=2, warm=[], threads=[["eA"], ["eA"]]),
    dict(size=2, warm=["A", "B"], threads=[["eA"], ["eC"]]),
    dict(size=2, warm=["A"], threads=[["dA"], ["eB"]]),
    dict(size=1, warm=["A"], threads=[["dmissing"], ["eA"]]),
    dict(size=1, warm=["A"], threads=[["efaulty"], ["eA"]]),
    dict(size=1, warm=[], threads=[["efaulty", "eA"], ["efaulty", "eB"]]),
]
LONG = [
    dict(size=1, warm=["A"], threads=[["eA", "eB"], ["eB"]]),
    dict(size=2, warm=["A", "B"], threads=[["eA", "eC"], ["eB", "eD"]]),
    dict(size=1, warm=["A"], threads=[["eA"], ["eB"], ["eA"]]),
    dict(size=2, warm=["A", "B"], threads=[["eA"], ["eC"], ["dB"]]),
]


def threads(scenarios, bound, shards):
    def gen():
        for s in scenarios:
            for shard in range(shards):
                yield dict(s, bound=bound, shard=shard, shards=shards)

    return gen


def spaces(tier):
    quick = tier == "quick"
    return [
        Space("one_tile_cache", histories(1, 4 if quick else 5, ["A", "B"], ["A"], "efd"), run_history, bound="histories of 4 (5), cache of 1"),
        Space("cache", histories(2, 4 if quick else 5, ["A", "B", "C"], ["B"]), run_history, bound="histories of 4 (5), cache of 2"),
        Space("big_cache", histories(3, 4 if quick else 5, ["A", "B", "C", "D"], []), run_history, bound="histories of 4 (5), cache of 3"),
        Space("absent", absent(4 if quick else 5), run_absent, bound="histories of 4 (5) with missing and failing tiles"),
        Space("two_models", two_models(4 if quick else 5), run_two_models, bound="histories of 4 (5) over two models"),
        Space("threads1", threads(SCENARIOS + LONG, 1, 1), run_threads, bound="2 and 3 threads, at most 1 preemption per schedule"),
        Space(
            "threads2",
            threads(SCENARIOS[:2] if quick else SCENARIOS + LONG[:2], 2, 16),
            run_threads,
            bound="2 threads, at most 2 preemptions per schedule, every line of the toolkit and of cachetools",
        ),
    ]


NOTES = {
    "assumptions": [
        "threads are switched between lines of Python code of the toolkit and of cachetools and at lock operations; a "
        "switch inside a line, or inside C code, is not explored",
    ]
}
