"""One simulated world: disk, clock, randomness, log and statistics.

Everything nondeterministic that the library can see goes through here.  A
World lives in a process of its own (forked for the run), so it may patch
whatever it needs.
"""
import collections
import ctypes
import errno
import hashlib
import os
import random
import sys

# kinds of the shim
OPEN, READ, WRITE, TRUNC, FSYNC, CLOSE, UNLINK, RENAME, FLOCK, STAT = range(1, 11)
LETTER = {OPEN: "o", READ: "r", WRITE: "w", TRUNC: "t", FSYNC: "s", CLOSE: "c",
          UNLINK: "u", RENAME: "n", FLOCK: "l", STAT: "a"}

CB = ctypes.CFUNCTYPE(ctypes.c_long, ctypes.c_int, ctypes.c_int, ctypes.c_long, ctypes.c_long,
                      ctypes.c_void_p, ctypes.c_char_p)
CLK = ctypes.CFUNCTYPE(ctypes.c_int64)


class Violation(Exception):
    """The property does not hold in this run."""

    def __init__(self, cls, msg, narrow=None):
        Exception.__init__(self, msg)
        self.cls = cls
        self.msg = msg
        self.narrow = narrow      # a smaller trace that shows the same, if known


class Abort(BaseException):
    """Ends the run at once (raised through the library)."""


def lib():
    return ctypes.CDLL(os.environ["VERIF_SHIM"])


class World:
    EPOCH = 1_700_000_000_000_000_000

    def __init__(self, root, debug=False):
        self.root = root
        self.debug = debug
        self.lines = []
        self.h = hashlib.blake2b(digest_size=8)
        self.nlog = 0
        self.stats = collections.Counter()
        self.disk = Disk(self)
        self.now = self.EPOCH
        self.clock_reads = 0
        self.clock_hook = None
        self.sched = None
        self._lib = lib()
        self._cb = CB(self._syscall)
        self._clk = CLK(self._clock)
        self.states = set()

    # -- log: never draws randomness, reads a clock or contains addresses
    def log(self, *a):
        s = " ".join(str(x) for x in a)
        self.h.update(s.encode("utf-8", "backslashreplace") + b"\n")
        self.nlog += 1
        if self.debug:
            self.lines.append(s)

    def digest(self):
        return self.h.hexdigest()

    def state(self, *a):
        """Records a reached state (for the distinct-state measure)."""
        self.states.add(hashlib.blake2b(repr(a).encode("utf-8", "backslashreplace"), digest_size=6).hexdigest())

    # -- seams
    def start(self):
        os.makedirs(self.root, exist_ok=True)
        self._lib.simdisk_set_clock(self._clk)
        self._lib.simdisk_set(self._cb, (self.root + "/").encode())
        self.seed_random(0)

    def stop(self):
        self._lib.simdisk_set(ctypes.cast(None, CB), b"")
        self._lib.simdisk_set_clock(ctypes.cast(None, CLK))

    def seed_random(self, seed):
        """Randomness: the global generator and os.urandom."""
        random.seed("world-%s" % seed)
        r = random.Random("urandom-%s" % seed)
        os.urandom = random._urandom = lambda n: r.randbytes(n)
        self._lib.simdisk_set_random(ctypes.c_uint64(r.getrandbits(63) | 1))

    def _clock(self):
        self.clock_reads += 1
        if self.clock_hook is not None:
            return self.clock_hook()
        self.now += 1_000_000
        return self.now

    def _syscall(self, kind, fd, a, b, buf, path):
        try:
            return self.disk.event(kind, fd, a, b, buf, path)
        except Violation as e:           # found by an observer
            if self.disk.pending is None:
                self.disk.pending = e
            return 0
        except RecursionError:           # the library is at the end of the stack
            return 0
        except BaseException as e:       # an error of the harness
            sys.stderr.write("HARNESS: %r in syscall hook\n" % (e,))
            self.disk.broken = repr(e)
            return 0

    def foreign_locale(self, on=True):
        self._lib.simdisk_set_locale(int(on))

    def p(self, name):
        return os.path.join(self.root, name)


class Disk:
    """Fault injection and observation of the file system calls."""

    def __init__(self, world):
        self.w = world
        self.plan = []            # armed faults
        self.rand = None          # (rng, p_eintr, p_short)
        self.counts = collections.Counter()
        self.fired = []
        self.total = 0
        self.observers = []       # called before an event takes place
        self.broken = None
        self.pending = None
        self.fds = {}
        self.quiet = False        # harness I/O: no faults, no log
        self.rw = 0
        self.writes_forbidden = False
        self.forbidden_seen = []

    def arm(self, plan):
        self.plan = [dict(x, seen=0) for x in plan]
        self.fired = []

    def disarm(self):
        fired, self.plan, self.rand = self.fired, [], None
        return fired

    def event(self, kind, fd, a, b, buf, path):
        if self.quiet:
            return 0
        k = LETTER.get(kind, "?")
        if kind == OPEN and fd >= 0:
            self.fds[fd] = (os.path.basename(os.fsdecode(path)), a)
            return 0
        name = os.path.basename(os.fsdecode(path)) if path else self.fds.get(fd, ("?", 0))[0]
        self.total += 1
        self.counts[k] += 1
        if k in "rw":
            self.rw += 1
        if self.writes_forbidden and (
            k in "wtun" or (kind == OPEN and (a & (os.O_WRONLY | os.O_RDWR | os.O_TRUNC | os.O_CREAT)))):
            self.forbidden_seen.append((k, name))
        for o in self.observers:
            o(k, name, fd, a, b, buf)
        res = 0
        do = None
        for x in self.plan:
            if k not in x["on"] or ("name" in x and x["name"] != name) or ("off" in x and x["off"] != b):
                continue
            x["seen"] += 1
            if x["seen"] - 1 == x["n"] or (x.get("k") and x["seen"] - 1 > x["n"]):
                do = x["do"]
                arg = x.get("len", 1)
        if do is None and self.rand is not None and k in "rw":
            rng, pe, ps = self.rand
            u = rng.random()
            if u < pe:
                do, arg = "EINTR", 0
            elif u < pe + ps and a > 1:
                do, arg = "short", rng.randint(1, max(1, a - 1))
        if do is not None:
            if do == "short":
                if k in "rw" and a > 1:
                    res = max(1, min(arg, a - 1))
                    self.w.stats["fault.short-%s" % ("read" if k == "r" else "write")] += 1
                    self.fired.append({"on": "rw", "n": self.rw - 1, "do": "short", "len": res})
            elif do == "EINTR":
                if k in "rw":
                    res = -errno.EINTR
                    self.w.stats["fault.EINTR"] += 1
                    self.fired.append({"on": "rw", "n": self.rw - 1, "do": "EINTR"})
            else:
                res = -getattr(errno, do)
                self.w.stats["fault.%s-%s" % (do, {"r": "read", "w": "write", "o": "open", "t": "truncate",
                                                     "c": "close", "l": "flock", "s": "fsync", "a": "stat",
                                                     "u": "unlink", "n": "rename"}[k])] += 1
                self.fired.append({"on": k, "do": do})
        self.w.log("sys", k, name, a, b if k in "rw" else 0, res)
        if kind == CLOSE:
            self.fds.pop(fd, None)
        return res

    def open_fds(self):
        return sorted(n for n, f in self.fds.values())


def image(path):
    """The bytes of a file, read without going through the simulated disk."""
    # a process of the simulator, not of the system under test
    with open(path, "rb") as f:
        return f.read()
