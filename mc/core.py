"""
Bounded exhaustive exploration of the real code against reference models.

A check is a module in /verif/checks with a function ``spaces(tier)`` returning a list of Space objects. A Space is a
finite set of cases: ``cases()`` enumerates all of them, simplest first, and ``run(ctx, case)`` executes one of them on
the real implementation and compares everything it observes with the reference model. A case is plain JSON data (an
input, an operation history, a schedule), so that the one that fails can be written to a file and replayed alone.

Nothing in here is random: the set of cases is a function of the tier only.
"""

import hashlib
import itertools
import json
import os
import signal
import sys
import time
import traceback
from concurrent.futures import ProcessPoolExecutor
import multiprocessing

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    def __init__(self, message, detail=None, known=None):
        super().__init__(message)
        self.message = message
        self.detail = detail
        self.known = known


def product(**domains):
    """All the combinations of the given domains as dictionaries; the last domain varies fastest."""
    names = list(domains)
    for values in itertools.product(*[list(domains[n]) for n in names]):
        yield dict(zip(names, values))


def sequences(alphabet, max_len, min_len=0):
    """All the sequences over an alphabet up to a given length, shortest first."""
    for n in range(min_len, max_len + 1):
        for s in itertools.product(alphabet, repeat=n):
            yield list(s)


def subsets(items, max_len=None):
    items = list(items)
    for n in range(0, (len(items) if max_len is None else max_len) + 1):
        for s in itertools.combinations(items, n):
            yield list(s)


class Space:
    def __init__(self, name, cases, run, parallel=True, bound=""):
        self.name = name
        self._cases = cases
        self.run = run
        self.parallel = parallel
        self.bound = bound

    def cases(self):
        return self._cases() if callable(self._cases) else iter(self._cases)


class Ctx:
    """What one worker measured."""

    MAX_STATES = 4_000_000

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.known = {}

    # -- observation ---------------------------------------------------------------------------------------------
    def call(self, fn, *args, **kwargs):
        """One step of the implementation. The reference models never expect an exception here."""
        self.transitions += 1
        try:
            return fn(*args, **kwargs)
        except Violation:
            raise
        except Exception as e:
            raise Violation(
                f"{getattr(fn, '__qualname__', fn)} raised {type(e).__name__}: {e}", traceback.format_exc(limit=-6)
            )

    def call_raises(self, expected, fn, *args, **kwargs):
        """One step of the implementation that has to be refused with one of the expected exceptions."""
        self.transitions += 1
        try:
            value = fn(*args, **kwargs)
        except expected:
            return
        except Exception as e:
            raise Violation(f"{getattr(fn, '__qualname__', fn)} raised {type(e).__name__}: {e} instead of {expected}")
        raise Violation(f"{getattr(fn, '__qualname__', fn)} returned {value!r:.200} instead of raising {expected}")

    def state(self, *key):
        """Record a distinct observable state of the system under exploration."""
        if len(self.states) < self.MAX_STATES:
            self.states.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def check(self, condition, message, **detail):
        if not condition:
            raise Violation(message, {k: repr(v)[:600] for k, v in detail.items()})

    def known_finding(self, ident, what):
        self.known[ident] = what

    def sample(self, case):
        if len(self.samples) < 3:
            self.samples.append(case)


CASE_LIMIT_S = 240


def _out_of_time(signum, frame):
    raise Violation(f"no answer within {CASE_LIMIT_S} s (every case takes a fraction of a second on a correct tree)")


def _run_one(space, ctx, case):
    """Returns None or a dict describing the violation."""
    try:
        ctx.traces += 1
        signal.signal(signal.SIGALRM, _out_of_time)
        signal.alarm(CASE_LIMIT_S)
        try:
            space.run(ctx, case)
        finally:
            signal.alarm(0)
        return None
    except Violation as v:
        return {"space": space.name, "case": case, "message": v.message, "detail": v.detail}
    except Exception as e:
        # The harness itself does not fail on the values the real code returns on a correct tree, so that an exception
        # means the code returned something of the wrong shape.
        return {
            "space": space.name,
            "case": case,
            "message": f"unusable result: {type(e).__name__}: {e}",
            "detail": traceback.format_exc(limit=-6),
        }


_SPACES = None


def _worker(arg):
    index, shard, shards, deadline = arg
    space = _SPACES[index]
    ctx = Ctx()
    if multiprocessing.current_process().name != "MainProcess":
        sys.stdout = open(os.devnull, "w")
    first = None
    done = True
    for i, case in enumerate(space.cases()):
        if i % shards != shard:
            continue
        if deadline and time.time() > deadline:
            done = False
            break
        bad = _run_one(space, ctx, case)
        if i < shards or i % 977 == 0:
            ctx.sample({"space": space.name, "case": case})
        if bad is not None:
            first = (i, bad)
            break
    return index, ctx.states, ctx.transitions, ctx.traces, ctx.samples, ctx.known, first, done


def explore(spaces, workers, deadline=None):
    """Explores every case of every space. Returns the merged measurements and the first violation, if any."""
    global _SPACES
    _SPACES = spaces
    states, transitions, traces, samples, known, violations, complete = set(), 0, 0, [], {}, [], True
    per_space = {}
    jobs = []
    for index, space in enumerate(spaces):
        shards = workers if space.parallel else 1
        jobs.extend((index, s, shards, deadline) for s in range(shards))

    def merge(result):
        nonlocal transitions, traces, complete
        index, st, tr, n, sm, kn, first, done = result
        states.update(bytes([index % 256]) + s for s in st)
        transitions += tr
        traces += n
        samples.extend(sm)
        known.update(kn)
        complete = complete and done
        per_space[spaces[index].name] = per_space.get(spaces[index].name, 0) + n
        if first is not None:
            violations.append((index,) + first)

    if workers <= 1:
        for job in jobs:
            merge(_worker(job))
            if violations:
                break
    else:
        context = multiprocessing.get_context("fork")
        with ProcessPoolExecutor(max_workers=workers, mp_context=context) as pool:
            for result in pool.map(_worker, jobs):
                merge(result)
    violations.sort(key=lambda v: (v[0], v[1]))
    return {
        "states": len(states),
        "transitions": transitions,
        "traces": traces,
        "samples": samples[:12],
        "known": known,
        "violations": [v[2] for v in violations],
        "complete": complete,
        "per_space": per_space,
    }


def jsonable(value):
    try:
        json.dumps(value)
        return value
    except TypeError:
        return json.loads(json.dumps(value, default=repr))
