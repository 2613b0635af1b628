"""
Systematic exploration of thread interleavings of the real code.

Threads run one at a time. They can be switched at every line executed in the traced source trees and at every lock
operation. Starting from the schedule without preemptions, every schedule with at most ``bound`` preemptions is run
(iterative context bounding); the switches that are forced because a thread blocks or ends are all explored as well and
do not count as preemptions.

install() has to be called before the code under test is imported: it replaces threading.Lock and threading.RLock by
locks that know about the scheduler. Outside a scheduled thread they are ordinary locks.
"""

import _thread
import sys
import threading

_local = threading.local()
_real_lock = _thread.allocate_lock
_installed = False
_traced = {}


class _Abort(BaseException):
    pass


def _me():
    return getattr(_local, "slot", None)


class CoopLock:
    """A lock (reentrant or not) which a scheduled thread waits for by giving way to the others."""

    def __init__(self, reentrant=False):
        self._reentrant = reentrant
        self._guard = _real_lock()  # protects the fields when threads outside of a scheduler use the lock
        self._owner = None
        self._count = 0
        self._waiters = []

    def _try(self, who):
        with self._guard:
            if self._owner is None or (self._reentrant and self._owner == who):
                self._owner = who
                self._count += 1
                return True
            return False

    def acquire(self, blocking=True, timeout=-1):
        slot = _me()
        who = _thread.get_ident()
        if slot is not None:
            slot.point()
            while not self._try(who):
                if not blocking:
                    return False
                slot.block(self)
            return True
        while not self._try(who):
            if not blocking:
                return False
            w = _real_lock()
            w.acquire()
            with self._guard:
                self._waiters.append(w)
            if not w.acquire(True, timeout if timeout is not None and timeout >= 0 else 0.05) and timeout >= 0:
                return False
        return True

    def release(self):
        with self._guard:
            if self._owner is None or (self._reentrant and self._owner != _thread.get_ident()):
                raise RuntimeError("release unlocked lock")
            self._count -= 1
            if self._count == 0:
                self._owner = None
            waiters, self._waiters = self._waiters, []
        for w in waiters:
            w.release()
        slot = _me()
        if slot is not None:
            slot.unblock(self)
            slot.point()

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    # used by threading.Condition
    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        count = self._count
        for _ in range(count):
            self.release()
        return count

    def _acquire_restore(self, count):
        for _ in range(count):
            self.acquire()

    def _at_fork_reinit(self):
        self.__init__(self._reentrant)


def install():
    global _installed
    if not _installed:
        _installed = True
        threading.Lock = lambda: CoopLock(False)
        threading.RLock = lambda: CoopLock(True)


class _Slot:
    def __init__(self, run, index, fn):
        self.run, self.index, self.fn = run, index, fn
        self.gate = _real_lock()
        self.gate.acquire()
        self.blocked_on = None
        self.done = False
        self.result = None
        self.error = None

    def main(self):
        _local.slot = self
        self.gate.acquire()
        try:
            if not self.run.aborting:
                sys.settrace(self.trace)
                try:
                    self.result = self.fn()
                finally:
                    sys.settrace(None)
        except _Abort:
            pass
        except BaseException as e:
            self.error = e
        _local.slot = None
        self.done = True
        self.run.leave(self)

    def trace(self, frame, event, arg):
        name = frame.f_code.co_filename
        traced = _traced.get(name)
        if traced is None:
            traced = _traced[name] = any(name.startswith(p) for p in self.run.prefixes)
        return self.trace_line if traced else None

    def trace_line(self, frame, event, arg):
        if event == "line":
            self.point()
        return self.trace_line

    def point(self):
        self.run.decide(self, preempt=True)

    def block(self, lock):
        self.blocked_on = lock
        self.run.decide(self, preempt=False)

    def unblock(self, lock):
        for s in self.run.slots:
            if s.blocked_on is lock:
                s.blocked_on = None


class Run:
    """One execution. prefix is the list of choices (positions in the list of enabled threads) to follow first."""

    def __init__(self, fns, prefix, prefixes, max_steps=20000):
        self.prefixes = prefixes
        self.prefix = prefix
        self.slots = [_Slot(self, i, f) for i, f in enumerate(fns)]
        self.decisions = []  # (number of alternatives, chosen, was the running thread able to continue)
        self.end = _real_lock()
        self.end.acquire()
        self.aborting = False
        self.deadlock = False
        self.max_steps = max_steps

    def enabled(self, current):
        rest = [s for s in self.slots if not s.done and s.blocked_on is None and s is not current]
        return ([current] if current is not None and not current.done and current.blocked_on is None else []) + rest

    def choose(self, options, could_continue):
        step = len(self.decisions)
        pick = self.prefix[step] if step < len(self.prefix) else 0
        if pick >= len(options):
            pick = 0
        self.decisions.append((len(options), pick, could_continue))
        return options[pick]

    def decide(self, slot, preempt):
        if self.aborting:
            raise _Abort()
        if len(self.decisions) > self.max_steps:
            self.abort(deadlock=True)
            raise _Abort()
        options = self.enabled(slot)
        if not options:
            self.abort(deadlock=True)
            raise _Abort()
        chosen = self.choose(options, slot.blocked_on is None)
        if chosen is not slot:
            chosen.gate.release()
            slot.gate.acquire()
            if self.aborting:
                raise _Abort()

    def abort(self, deadlock):
        self.deadlock = deadlock
        self.aborting = True
        me = _me()
        for s in self.slots:
            if not s.done and s is not me:
                s.gate.release()

    def leave(self, slot):
        if all(s.done for s in self.slots):
            self.end.release()
            return
        if self.aborting:
            return
        options = self.enabled(None)
        if not options:
            self.deadlock = True
            self.aborting = True
            for s in self.slots:
                if not s.done:
                    s.gate.release()
            return
        self.choose(options, False).gate.release()

    def go(self):
        for s in self.slots:
            _thread.start_new_thread(s.main, ())
        options = self.enabled(None)
        self.choose(options, False).gate.release()
        if not self.end.acquire(True, 60):
            self.hung = True
            return False
        return True


def preemptions(decisions):
    return sum(1 for _, pick, cont in decisions if cont and pick > 0)


def explore(make, check, bound, prefixes, shard=0, shards=1):
    """
    make() returns (state, list of functions); check(state, run) is called after every execution.
    Returns (executions, steps).
    """
    executions = steps = 0
    stack = [[]]
    while stack:
        prefix = stack.pop()
        state, fns = make()
        run = Run(fns, prefix, prefixes)
        if not run.go():
            raise RuntimeError("a thread is waiting for something the scheduler does not control")
        # The schedules without a preemption are run in every shard, to find the places of the first preemption, and
        # counted in the first shard; the subtree below a first preemption belongs to one shard.
        free = preemptions(run.decisions[: len(prefix)]) == 0
        if not free or shard == 0:
            executions += 1
            steps += len(run.decisions)
            check(state, run)
        base = [p for _, p, _ in run.decisions]
        for j in range(len(prefix), len(run.decisions)):
            n, pick, cont = run.decisions[j]
            if n < 2:
                continue
            if free and cont and j % shards != shard:
                continue
            spent = preemptions(run.decisions[:j])
            for alt in range(1, n):
                if cont and spent + 1 > bound:
                    break
                stack.append(base[:j] + [alt])
    return executions, steps
