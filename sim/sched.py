"""The seeded thread scheduler.

Each simulated thread is a real thread that runs only while it holds the
baton.  At every yield point (each source line of the library, each lock
operation, each operation boundary) the scheduler decides who runs next.
Decisions come from a seeded policy or from an explicit list of switches; the
switches made are always recorded, so a run can be replayed and minimised.
"""
import _thread
import random
import sys
import threading
import types

from .world import Violation

MON = sys.monitoring
TOOL = 4


class StepLimit(BaseException):
    pass


class Deadlock(BaseException):
    pass


class Killed(BaseException):
    """Unwinds parked threads at the end of a run."""


_current = None            # the active Scheduler of this process
LIBDIR = None


class SimLock:
    """Replaces threading.Lock in the library."""

    reentrant = False

    def __init__(self):
        self.owner = None
        self.depth = 0

    def _me(self):
        return _thread.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        s = _current
        insched = s is not None and s.in_sim()
        if insched:
            s.yield_point("acq")
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            if not insched:
                raise Deadlock("lock held and no other thread could release it")
            if timeout is not None and timeout >= 0:
                if not s.wait_timeout(self):
                    return False
                continue
            s.block(self)
        self.owner = me
        self.depth += 1
        if insched:
            s.log("acq", s.cur)
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        if self.reentrant and self.owner != self._me():
            raise RuntimeError("cannot release un-acquired lock")
        self.depth -= 1
        if self.depth == 0:
            self.owner = None
        s = _current
        if s is not None and s.in_sim():
            s.log("rel", s.cur)
            s.unblock(self)
            s.yield_point("rel")

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    # used by threading.Condition
    def _is_owned(self):
        return self.owner == self._me()

    def _at_fork_reinit(self):
        self.owner = None
        self.depth = 0


class SimRLock(SimLock):
    reentrant = True

    def _release_save(self):
        d, self.depth = self.depth, 1
        self.release()
        return d

    def _acquire_restore(self, d):
        self.acquire()
        self.depth = d


_real_Lock, _real_RLock = threading.Lock, threading.RLock


def _from_lib():
    f = sys._getframe(2)
    while f is not None and f.f_globals.get("__name__") == "threading":
        f = f.f_back
    return f is not None and str(f.f_globals.get("__name__", "")).startswith("hdf5storage")


class LockType(type(SimLock)):
    pass


def _Lock():
    return SimLock() if _from_lib() else _real_Lock()


def _RLock(*a, **k):
    return SimRLock() if _from_lib() else _real_RLock(*a, **k)


def patch_locks():
    """Before the library is imported."""
    threading.Lock = _Lock
    threading.RLock = _RLock


class Scheduler:
    def __init__(self, world, spec, max_steps=400000):
        self.w = world
        self.spec = spec
        self.mode = spec.get("mode", "list")
        self.map = {int(a): int(b) for a, b in spec.get("switches", [])}
        self.rng = random.Random("sched-%s" % spec.get("seed"))
        self.p = spec.get("p", 0.1)
        self.every = max(1, spec.get("every", 1))      # granularity of line yields
        self.prio = None
        self.step = 0
        self.max_steps = max_steps
        self.switches = []
        self.threads = {}
        self.cur = None
        self.blocked = {}
        self.done = set()
        self.failure = None
        self.main = _real_Lock()
        self.phil = None
        self.nswitch = 0
        self.line_hook = None      # (code, line) -> None; may raise
        self.hist = []
        self.interleave = 0
        self.quantum_left = 0

    # -- set up
    def spawn(self, tid, fn):
        gate = _real_Lock()
        gate.acquire()
        self.threads[tid] = gate

        def body():
            gate.acquire()
            try:
                if self.failure is None:
                    fn()
            except Killed:
                pass
            except (Deadlock, StepLimit) as e:
                self.fail(e)
            except Violation as e:
                self.fail(e)
            except BaseException as e:
                self.fail(e)
            finally:
                self.finish(tid)
        self.threads[tid] = gate
        self.idents = getattr(self, "idents", {})

        def run():
            self.idents[_thread.get_ident()] = tid
            body()
        self._starts = getattr(self, "_starts", [])
        self._starts.append(run)

    def in_sim(self):
        return self.cur is not None and self.idents.get(_thread.get_ident()) == self.cur

    def fail(self, e):
        if self.failure is None:
            self.failure = e

    def log(self, *a):
        self.w.log(*a)

    # -- decisions
    def runnable(self):
        return sorted(t for t in self.threads if t not in self.done and t not in self.blocked)

    def _pick(self, others, forced):
        """Which thread runs next; None to continue."""
        if self.mode == "list":
            t = self.map.get(self.step)
            if t is not None and t in others:
                return t
            return others[0] if forced else None
        if self.mode == "pct":
            if self.prio is None:
                ts = sorted(self.threads)
                self.prio = dict(zip(ts, self.rng.sample(range(100, 100 + len(ts)), len(ts))))
                n = max(1, self.spec.get("len", 2000))
                self.change = {self.rng.randrange(n): i for i in range(self.spec.get("depth", 3))}
            if self.step in self.change and self.cur in self.prio:
                self.prio[self.cur] = self.change[self.step]
            best = max(others, key=lambda t: self.prio[t])
            if forced or self.prio[best] > self.prio.get(self.cur, -1):
                return best
            return None
        if forced or self.rng.random() < self.p:
            return self.rng.choice(others)
        return None

    def yield_point(self, why):
        if self.failure is not None:
            raise Killed()
        self.step += 1
        if self.step > self.max_steps:
            self.fail(StepLimit("no end after %d steps" % self.step))
            raise Killed()
        if self.phil is not None and self.phil._is_owned():
            return
        others = [t for t in self.runnable() if t != self.cur]
        if not others:
            return
        t = self._pick(others, False)
        if t is not None:
            self.switches.append([self.step, t])
            self.switch(t)

    def block(self, lock):
        me = self.cur
        if self.failure is not None:
            raise Killed()
        self.step += 1
        self.blocked[me] = lock
        others = self.runnable()
        if not others:
            self.fail(Deadlock("every thread waits for a lock"))
            raise Killed()
        t = self._pick(others, True)
        if t != others[0]:
            self.switches.append([self.step, t])
        self.w.stats["sched.blocked"] += 1
        self.switch(t)

    def wait_timeout(self, lock):
        """A timed wait: time passes only if nobody else can run."""
        others = [t for t in self.runnable() if t != self.cur]
        if not others:
            return False
        self.block(lock)
        return True

    def unblock(self, lock):
        for t in [t for t, l in self.blocked.items() if l is lock]:
            del self.blocked[t]

    def switch(self, t):
        me = self.cur
        self.nswitch += 1
        self.w.log("sw", self.step, me, t)
        self.interleave = (self.interleave * 1000003 + self.step * 31 + t) & 0xFFFFFFFFFFFF
        self.cur = t
        self.threads[t].release()
        self.threads[me].acquire()
        if self.failure is not None:
            raise Killed()

    def finish(self, tid):
        self.done.add(tid)
        if self.failure is not None:
            # let the others unwind, one at a time
            rest = [t for t in sorted(self.threads) if t not in self.done]
            if rest:
                self.blocked.clear()
                self.cur = rest[0]
                self.threads[rest[0]].release()
            else:
                self.cur = None
                self.main.release()
            return
        self.step += 1
        others = self.runnable()
        if others:
            t = self._pick(others, True)
            if t != others[0]:
                self.switches.append([self.step, t])
            self.w.log("end", tid, t)
            self.cur = t
            self.threads[t].release()
            return
        if len(self.done) < len(self.threads):
            self.fail(Deadlock("a lock is still held after its thread ended"))
            rest = [t for t in sorted(self.threads) if t not in self.done]
            self.blocked.clear()
            self.cur = rest[0]
            self.threads[rest[0]].release()
            return
        self.cur = None
        self.main.release()

    # -- run
    def run(self):
        global _current
        import h5py._objects
        self.phil = h5py._objects.phil
        _current = self
        self.main.acquire()
        ths = [threading.Thread(target=r, daemon=True) for r in self._starts]
        for th in ths:
            th.start()
        while len(self.idents) < len(self.threads):
            pass
        trace_lines(self._line)
        first = sorted(self.threads)
        t = self._pick(first, True)
        if t != first[0]:
            self.switches.append([self.step, t])
        self.cur = t
        self.threads[t].release()
        self.main.acquire()
        for th in ths:
            th.join()
        untrace()
        _current = None
        w = self.w
        w.stats["sched.steps"] += self.step
        w.stats["sched.switches"] += self.nswitch
        if self.failure is not None:
            raise self.failure

    def _line(self, code, line):
        if not self.in_sim():
            return None
        if self.line_hook is not None:
            self.line_hook(code, line)
        if self.every == 1 or self.step % self.every == 0:
            self.yield_point("line")
        else:
            self.step += 1


# ------------------------------------------------------------- line events

def is_lib(code):
    return code.co_filename.startswith(LIBDIR)


def trace_lines(fn, instructions=False):
    """fn(code, line) at every source line of the library."""
    MON.use_tool_id(TOOL, "sim")
    ev = MON.events.LINE

    def cb(code, line):
        if not code.co_filename.startswith(LIBDIR):
            return MON.DISABLE
        fn(code, line)
        return None
    MON.register_callback(TOOL, ev, cb)
    MON.set_events(TOOL, ev)
    MON.restart_events()


def untrace():
    MON.set_events(TOOL, 0)
    MON.register_callback(TOOL, MON.events.LINE, None)
    MON.free_tool_id(TOOL)


class Budget:
    """Bounds the number of library lines of a single-threaded run."""

    def __init__(self, limit=2_000_000, hook=None):
        self.limit = limit
        self.n = 0
        self.hook = hook

    def __enter__(self):
        trace_lines(self._line)
        return self

    def _line(self, code, line):
        self.n += 1
        if self.n > self.limit:
            raise StepLimit("no end after %d lines" % self.n)
        if self.hook is not None:
            self.hook(code, line)

    def __exit__(self, *a):
        untrace()
