"""C04 Files used by different threads do not affect each other."""
from .. import sched, values as V
from ..world import Violation
from . import common as C
from . import threads as T

ID = "C04"
LEVEL = "exploration"
RULE = ("a run is 2-4 threads, each with 2-6 operations on files of its own (and reads of one common read-only file) "
        "through File objects or the convenience functions, with its own options and random values of every type, "
        "while options objects and the default marshaller collection are changed; under a seeded random or PCT "
        "schedule with a preemption possible at every library line. Every result is compared with the one the same "
        "program gives alone. Non-trivial: at least two threads switched at least twice")
RUNS = {"quick": 1500, "thorough": 70000}
STATE_RULE = "hash of the sequence of (step, thread) switches of a run"
MUST_HIT = ("probe.preempted", "probe.first-use", "probe.mutated-options", "probe.new-default", "probe.common-file",
            "probe.poisoned-default")
STUBS = ["threading.Lock in the library: a simulated lock with the same interface", "thread scheduling: seeded",
         "disk: tmpfs behind the system call shim, no faults", "random numbers: seeded, shared by the threads"]
ASSUMPTIONS = ["h5py calls are atomic (h5py holds its global lock in them)"]


def gen(rng, tier, index):
    nt = rng.choice([2, 2, 3, 3, 4])
    opts = [C.gen_opts(rng, mat=rng.random() < .5) for _ in range(nt)]
    poison = rng.random() < .2
    threads = []
    for t in range(nt):
        kw = opts[t]
        g = V.Gen(rng, mat_ok=bool(kw["matlab_compatible"]), depth=rng.choice([1, 2, 2, 3]), big=0)

        def val():
            for _ in range(30):
                s = g.value()
                if C.acceptable(kw, s) and V.size(s) < 25:
                    return s
            return ["fraction", "1", "3"]
        ops = []
        for _ in range(rng.randint(2, {2: 6, 3: 4, 4: 3}[nt])):
            u = rng.random()
            n = rng.choice("abc")
            if u < .33:
                ops.append({"op": "write", "n": n, "v": val()})
            elif u < .45:
                ops.append({"op": "read", "n": n})
            elif u < .53 and not poison:
                ops.append({"op": "cwrite", "n": n, "v": val()})
            elif u < .60 and not poison:
                ops.append({"op": "cread", "n": n})
            elif u < .66 and not poison:
                ops.append({"op": "reopen"})
            elif u < .74:
                ops.append({"op": "common", "n": rng.choice("xyz")} if not poison else {"op": "read", "n": n})
            elif u < .80:
                ops.append({"op": "mutopts", "k": rng.choice(list(MUT))})
            elif u < .85:
                ops.append({"op": "newdefault"})
            elif u < .91:
                ops.append({"op": "bad", "n": n})
            elif u < .95:
                ops.append({"op": "del", "n": n})
            else:
                ops.append({"op": "names"})
        threads.append(ops)
    if poison:
        threads[rng.randrange(nt)].insert(0, {"op": "poison"})
    g = V.Gen(rng, depth=2, big=0)
    return {"opts": opts, "threads": threads, "sched": T.gen_sched(rng), "rnd": rng.getrandbits(16),
            "common": [{"v": g.value(1)} for _ in range(3)], "asopts": [rng.random() < .6 for _ in range(nt)]}


MUT = {"oned_as": "column", "matlab_compatible": False, "compress_size_threshold": 0, "dict_like_keys_name": "other",
       "dict_like_values_name": "other2", "store_python_metadata": False, "structs_as_dicts": True,
       "action_for_matlab_incompatible": "discard", "uncompressed_fletcher32_filter": True,
       "group_for_references": "/elsewhere", "make_atleast_2d": True, "delete_unused_variables": False,
       "reverse_dimension_order": False}

LISTS = ("switches",)


def valid(t):
    for th, kw in zip(t["threads"], t["opts"]):
        for op in th:
            if "v" in op and not C.acceptable(kw, op["v"]):
                return False
    return True


def shrink(t):
    yield from T.shrink_sched(t)
    for i, ops in enumerate(t["threads"]):
        for j in range(len(ops)):
            th = list(t["threads"])
            th[i] = ops[:j] + ops[j + 1:]
            yield dict(t, threads=th)


class Prog:
    """The program of one thread on files of its own."""

    def __init__(self, w, t, tid, tag, opened):
        import hdf5storage
        self.hs = hdf5storage
        self.w, self.t, self.tid = w, t, tid
        self.kw = t["opts"][tid]
        self.name = w.p("%s%d.mat" % (tag, tid))
        self.o = C.options(self.kw) if t["asopts"][tid] else None
        self.f = None
        self.results = []
        self.poison = any(op["op"] == "poison" for th in t["threads"] for op in th)
        if opened:
            self.open()

    def open(self):
        if self.o is not None:
            # what happens to self.o afterwards must not matter
            self.f = self.hs.File(self.name, writable=True, options=self.o)
        else:
            self.f = self.hs.File(self.name, writable=True, **self.kw)

    def fresh_opts(self):
        if self.o is not None:
            self.o = C.options(self.kw)

    def step(self, op):
        hs, k = self.hs, op["op"]
        if k == "write":
            if self.f is None:
                self.open()
            self.f.write(V.build(op["v"]), "/" + op["n"])
            return self.f.read("/" + op["n"])
        if k == "read":
            if self.f is None:
                self.open()
            return self.f.read("/" + op["n"])
        if k == "del":
            if self.f is None:
                self.open()
            del self.f["/" + op["n"]]
            return "deleted"
        if k == "names":
            if self.f is None:
                self.open()
            return sorted(self.f), len(self.f)
        if k == "reopen":
            if self.f is not None:
                self.f.close()
            self.fresh_opts()
            self.open()
            return "reopened"
        if k in ("cwrite", "cread"):
            if self.f is not None:
                self.f.close()
                self.f = None
                self.fresh_opts()
            if k == "cwrite":
                hs.write(V.build(op["v"]), "/" + op["n"], filename=self.name, **self.kw)
                return "written"
            return hs.read("/" + op["n"], filename=self.name, **self.kw)
        if k == "common":
            return hs.read("/" + op["n"], filename=self.w.p("common.mat"))
        if k == "mutopts":
            if self.o is not None and self.f is not None:
                setattr(self.o, op["k"], MUT[op["k"]])
                self.w.stats["probe.mutated-options"] += 1
            return None
        if k == "newdefault":
            if not self.poison:
                hs.make_new_default_marshaller_collection()
                self.w.stats["probe.new-default"] += 1
            return None
        if k == "poison":
            # files that are open keep the collection they were opened with
            hs.make_new_default_marshaller_collection(priority=("user", "plugin", "builtin"), marshallers=[Poison()])
            self.w.stats["probe.poisoned-default"] += 1
            return None
        if k == "bad":
            if self.f is None:
                self.open()
            self.f.write([1, V.Unsupported()], "/" + op["n"])
            return "accepted"

    def run(self, h=None):
        for op in self.t["threads"][self.tid]:
            e = h.call(self.tid, op) if h is not None else None
            try:
                r = ("ok", self.step(op))
            except Exception as ex:
                r = ("raised", type(ex).__name__)
                if self.poison and self.t["asopts"] and op["op"] in ("common",):
                    r = ("raised", "?")
            self.results.append((op, r))
            if h is not None:
                h.ret(e, r[0] if r[0] == "ok" else r[1])

    def finish(self):
        """What is in the file at the end."""
        if self.f is not None:
            self.f.close()
        self.fresh_opts()
        out = []
        try:
            with self.hs.File(self.name, **self.kw) as f:
                for n in sorted(f):
                    try:
                        out.append((n, f.read(n)))
                    except Exception as ex:
                        out.append((n, "unreadable: " + type(ex).__name__))
        except OSError:
            return None
        return out


def Poison():
    import collections
    import datetime
    import fractions
    import numpy as np
    from hdf5storage import Marshallers

    class PoisonMarshaller(Marshallers.TypeMarshaller):
        def __init__(self):
            Marshallers.TypeMarshaller.__init__(self)
            self.types = (int, str, list, dict, np.ndarray, np.uint8, np.float64, fractions.Fraction, tuple,
                          datetime.date, bool, float, bytes, collections.OrderedDict, set)
            self.python_type_strings = ("int", "str", "list", "dict", "numpy.ndarray", "numpy.uint8", "numpy.float64",
                                        "fractions.Fraction", "tuple", "bool", "float", "bytes", "set")
            self.update_type_lookups()

        def write(self, f, grp, name, data, type_string):
            raise RuntimeError("poisoned")

        def read(self, f, dsetgrp, attributes):
            return "poisoned"
    return PoisonMarshaller()


def execute(w, t):
    import hdf5storage as hs
    w.seed_random(t["rnd"])
    nt = len(t["threads"])
    with hs.File(w.p("common.mat"), writable=True) as f:
        for n, c in zip("xyz", t["common"]):
            f.write(V.build(c["v"]), "/" + n)
    # a fresh default collection: the modules it needs are not imported yet
    hs.make_new_default_marshaller_collection()
    poison = any(op["op"] == "poison" for th in t["threads"] for op in th)
    w.stats["probe.first-use"] += 1
    together = [Prog(w, t, i, "t", poison) for i in range(nt)]
    h = T.History(w)

    def body(p):
        return lambda: p.run(h)
    s = T.run_threads(w, t, [body(p) for p in together])
    if poison:
        hs.make_new_default_marshaller_collection()
    got = [p.finish() for p in together]
    # each alone
    alone = []
    want = []
    for i in range(nt):
        p = Prog(w, t, i, "alone", poison)
        p.run()
        if poison:
            hs.make_new_default_marshaller_collection()
        alone.append(p)
        want.append(p.finish())
    for a, b in zip(alone, together):
        for (op, ra), (_, rb) in zip(a.results, b.results):
            if op["op"] == "common":
                w.stats["probe.common-file"] += 1
            if ra[0] != rb[0] or (ra[0] == "raised" and ra[1] != rb[1]):
                raise Violation("outcome", "%s in thread %d: %s alone, %s together" % (
                    op["op"], a.tid, _s(ra), _s(rb)))
            why = []
            if ra[0] == "ok" and not V.same(ra[1], rb[1], why):
                raise Violation("value", "%s in thread %d differs from the same alone: %s" % (op["op"], a.tid, why))
    for i, (x, y) in enumerate(zip(want, got)):
        why = []
        if not V.same(x, y, why):
            raise Violation("content", "the file of thread %d differs from the one written alone: %s" % (i, why))
    # and what the model says of the common file
    for n, c in zip("xyz", t["common"]):
        for p in together:
            for op, r in p.results:
                if op["op"] == "common" and op["n"] == n and r[0] == "ok":
                    C.check_equal(c["v"], r[1], "common", "the common file's %s" % n)
    # what each thread read back right after its write is what it wrote
    for p in together:
        for op, r in p.results:
            if op["op"] == "write" and r[0] == "ok" and not skipped(p.kw, p, op):
                C.check_equal(op["v"], r[1], "read-after-write", "thread %d" % p.tid)
    for p in together:
        w.stats["ops.threads"] += 1
    left = w.disk.open_fds()
    if left:
        raise Violation("fd-left", "descriptors left open: %r" % left)
    return {"nontrivial": s.nswitch >= 2}


def skipped(kw, p, op):
    """Overwrites that merge, as documented."""
    return not (kw.get("matlab_compatible") or kw.get("delete_unused_variables")) and C.group_stored(op["v"])


def _s(r):
    return r[1] if r[0] == "raised" else "a result"
