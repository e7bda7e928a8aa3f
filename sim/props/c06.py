"""C06 What was flushed or closed survives a crash of the process."""
import hashlib
import os

from .. import values as V
from ..world import Violation
from . import common as C
from . import c01
from . import proc

ID = "C06"
LEVEL = "exploration"
RULE = ("a run is a history of phases: modifications, then a flush, a close, the end of a with block (with or without an "
        "exception), a convenience call or a garbage collected file, then operations that change nothing (reads, listings, "
        "failing writes and deletions, another flush, close, opening to read). At every system call that changes the file "
        "and every operation boundary after the flush or close returned, the file as a dead process would leave it is "
        "given to a new process that reads everything acknowledged before. Also, the writing process really dies at one "
        "system call. Non-trivial: at least one image was checked after a non-modifying operation")
RUNS = {"quick": 2500, "thorough": 30000}
STATE_RULE = "what made the data durable, the operation during which the process died, the kinds of the values in the file"
MUST_HIT = ("probe.image", "probe.image-in-call", "probe.flush", "probe.close", "probe.with", "probe.with-exception",
            "probe.convenience", "probe.cleared", "probe.failed-write", "fault.process-crash", "fault.short-write")
ASSUMPTIONS = ["a crash of the process: what was handed to the operating system stays"]
LISTS = ("ops", "items")


def gen(rng, tier, index):
    from .c05 import value
    mat = rng.random() < .6
    kw = C.gen_opts(rng, mat=mat, actions=False)
    g = V.Gen(rng, mat_ok=True, depth=rng.choice([1, 2, 2]), big=rng.choice([0, 0, .2]))
    names = C.pick_names(rng, 5, C.NAMES)
    ops = []
    last = {}

    simple = rng.random() < .2

    def val(n):
        if simple:
            return rng.choice([["int", str(rng.randrange(99))], ["str", "s%d" % rng.randrange(9)], ["arr", "f8", [3, 2], rng.getrandbits(9), "C", "ndarray"]])
        s = V.vary(rng, last[repr(n)]) if repr(n) in last and rng.random() < .4 else value(g)
        if not (C.acceptable({"matlab_compatible": True}, s) and C.acceptable({"matlab_compatible": False}, s)):
            s = value(g)
        last[repr(n)] = s
        return s

    def mods(k):
        out = []
        for _ in range(k):
            u = rng.random()
            n = rng.choice(names)
            if u < .65:
                out.append({"op": "write", "n": n, "v": val(n)})
            elif u < .7:
                out.append({"op": "clear"})
            elif u < .8:
                out.append({"op": "writes", "items": [{"n": x, "v": val(x)} for x in rng.sample(names, 2)]})
            else:
                out.append({"op": "del", "n": n})
        return out

    def idle(k):
        out = []
        for _ in range(k):
            o = rng.choice(["read", "read", "list", "items", "bad", "badlist", "badmany", "nomat", "delmissing", "missing",
                            "flush", "openread", "in", "refs", "loadmat"])
            d = {"op": o, "n": rng.choice(names)}
            if o in ("bad", "badlist", "nomat"):
                d["n"] = ["bad%d" % rng.randrange(3)]
                d["v"] = {"bad": ["bad"], "badlist": ["list", [value(g), ["bad"], ["int", "1"]]],
                          "nomat": ["list", [["num", "f2", 1], ["int", "3"]]]}[o]
            out.append(d)
        return out
    for _ in range(rng.randint(1, 3)):
        k = rng.choice(["flush", "flush", "close", "close", "with", "with", "withexc", "conv", "gc"])
        ops.append({"op": "phase", "by": k, "mods": mods(rng.randint(1, 3)), "idle": idle(rng.randint(0, 4)),
                    "end": rng.choice(["close", "none", "gc"])})
    io = None
    if rng.random() < .5:
        io = {"seed": rng.getrandbits(32), "pe": .05, "ps": .2}
    return {"kw": kw, "ops": ops, "rnd": rng.getrandbits(16), "die": rng.random(), "io": io}


LISTS = ("ops", "mods", "idle", "items")


def valid(t):
    return bool(t["ops"]) and all(C.acceptable({"matlab_compatible": m}, x["v"]) for p in t["ops"] for o in p["mods"]
                                  for x in [o] + o.get("items", []) if "v" in x for m in (True, False))


def shrink(t):
    for k in list(t["kw"]):
        if k != "matlab_compatible":
            yield dict(t, kw={a: b for a, b in t["kw"].items() if a != k})
    if t["io"]:
        yield dict(t, io=None)
    if t.get("die") is not None:
        yield dict(t, die=None)


class Stop(Exception):
    pass


class Hist:
    def __init__(self, w, t, probe):
        import hdf5storage
        self.hs, self.w, self.t = hdf5storage, w, t
        self.kw = t["kw"]
        self.f = None
        self.old = []
        self.model = {}
        self.dirty = set()
        self.safe = None          # what must be found after a crash now
        self.by = None
        self.now = "-"
        self.seen = set()
        self.probe = probe        # called at every point where a crash is looked at
        self.gone = set()

    # -- the model
    def put(self, n, v):
        n = tuple(n)
        if C.merges(self.kw, self.model.get(n), v) or (n in self.dirty and C.merges(self.kw, v, v)):
            self.dirty.add(n)
        else:
            self.dirty.discard(n)
        self.model[n] = v
        self.gone.discard(n)

    def durable(self, by):
        self.safe = ({n: v for n, v in self.model.items() if n not in self.dirty}, set(self.gone))
        self.by = by
        self.w.stats["probe." + by] += 1
        self.probe(self, "after " + by)

    def changing(self):
        self.safe = None

    def modify(self, o):
        k = o["op"]
        self.now = k
        self.changing()
        if k == "write":
            self.f.write(V.build(o["v"]), C.as_path(o["n"]))
            self.put(o["n"], o["v"])
        elif k == "writes":
            self.f.writes({C.as_path(i["n"]): V.build(i["v"]) for i in o["items"]})
            for i in o["items"]:
                self.put(i["n"], i["v"])
        elif k == "clear":
            self.f.clear()
            self.w.stats["probe.cleared"] += 1
            self.gone.update(self.model)
            self.model.clear()
            self.dirty.clear()
        else:
            n = tuple(o["n"])
            if n in self.model:
                del self.f[C.as_path(o["n"])]
                del self.model[n]
                self.dirty.discard(n)
                self.gone.add(n)

    def idle(self, o):
        k = self.now = o["op"]
        f, hs = self.f, self.hs
        p = C.as_path(o["n"])
        before = set()
        if f is None and k not in ("openread", "loadmat", "flush"):
            # a session that only reads
            try:
                f = hs.File(self.w.p("f.mat"), **self.kw)
            except OSError:
                return
            self.idle_on(o, f, p, reading=True)
            f.close()
            return
        self.idle_on(o, f, p)

    def idle_on(self, o, f, p, reading=False):
        hs, k = self.hs, o["op"]
        try:
            if k in ("read", "missing"):
                f.read(p if k == "read" else "/nonesuch")
            elif k == "list":
                list(f), len(f)
            elif k == "items":
                list(f.items())
            elif k in ("bad", "badlist"):
                self.w.stats["probe.failed-write"] += 1
                f.write(V.build(o["v"]), p)
                raise Violation("accepted", "an unsupported value was accepted")
            elif k == "nomat":
                if not self.kw["matlab_compatible"] and not reading:
                    return
                f.write(V.build(o["v"]), p)
                raise Violation("accepted", "a value MATLAB cannot hold was accepted")
            elif k == "badmany":
                f.writes({"/bad1": V.Unsupported(), "/bad2": 1})
            elif k == "delmissing":
                del f["/nonesuch"]
            elif k == "flush":
                if f is not None:
                    f.flush()
            elif k == "in":
                p in f
            elif k == "refs":
                f.write(1, "/#refs#/a")
            elif k == "openread":
                if f is None:
                    with hs.File(self.w.p("f.mat"), **self.kw) as g:
                        list(g)
            elif k == "loadmat":
                if f is None:
                    hs.loadmat(self.w.p("f.mat"))
        except Violation:
            raise
        except Exception as e:
            self.w.log("idle", k, type(e).__name__)

    def run(self):
        hs = self.hs
        p = self.w.p("f.mat")
        for ph in self.t["ops"]:
            by = ph["by"]
            if by == "conv":
                self.shut()
                for o in ph["mods"]:
                    items = o.get("items") or ([o] if "v" in o else [])
                    if not items:
                        continue
                    self.now = "conv"
                    self.changing()
                    if len(items) == 1:
                        hs.write(V.build(items[0]["v"]), C.as_path(items[0]["n"]), filename=p, **self.kw)
                    else:
                        hs.writes({C.as_path(i["n"]): V.build(i["v"]) for i in items}, filename=p, **self.kw)
                    for i in items:
                        self.put(i["n"], i["v"])
                    self.durable("convenience")
            elif by in ("with", "withexc"):
                self.shut()
                try:
                    self.now = "open"
                    self.changing()
                    with hs.File(p, writable=True, **self.kw) as self.f:
                        for o in ph["mods"]:
                            self.modify(o)
                        if by == "withexc":
                            self.now = "exit"
                            raise Stop
                        self.now = "exit"
                except Stop:
                    pass
                self.shutdown("the with block")
                self.durable("with" if by == "with" else "with-exception")
            else:
                if self.f is None:
                    self.now = "open"
                    self.changing()
                    self.f = hs.File(p, writable=True, options=C.options(self.kw))
                for o in ph["mods"]:
                    self.modify(o)
                self.now = by
                if by == "flush":
                    self.f.flush()
                elif by == "close":
                    self.f.close()
                    self.shutdown("close")
                else:
                    self.f = None          # the last reference
                self.durable(by)
            self.now = "-"
            for o in ph["idle"]:
                self.now = o["op"]
                self.idle(o)
                self.now = "-"
                self.probe(self, "after " + o["op"])
            if ph["end"] == "close":
                self.now = "close"
                self.shut()
                self.probe(self, "after close")
            elif ph["end"] == "gc":
                self.now = "gc"
                self.f = None
                self.probe(self, "after gc")
        self.now = "end"
        self.shut()
        self.probe(self, "at the end")

    def shut(self):
        if self.f is not None:
            self.now = "close"
            self.f.close()
            self.shutdown("close")

    def shutdown(self, what):
        """The file object stays alive, it is the close that counts."""
        if not self.f.closed:
            raise Violation("not-closed", "the file is not closed after %s" % what)
        self.old.append(self.f)
        self.f = None


def verify(w, t, name, model, gone, what):
    def go():
        import hdf5storage as hs
        w.disk.quiet = True
        bad = []
        with hs.File(w.p(name), **t["kw"]) as f:
            for n, spec in sorted(model.items()):
                try:
                    got = f.read(C.as_path(list(n)))
                except Exception as e:
                    bad.append((n, "%s: %.120s" % (type(e).__name__, e)))
                    continue
                why = []
                if not V.same(V.build(spec), got, why):
                    bad.append((n, "; ".join(why)[:200]))
            for n in sorted(gone):
                if C.as_path(list(n)) in f:
                    bad.append((n, "was deleted and is back"))
        return bad
    r = proc.process(w, go)
    if r.how != "ok":
        raise Violation("lost", "a process that died %s left a file that cannot be read: %s %s" % (what, r.how, r.value))
    if r.value:
        raise Violation("lost", "a process that died %s left: %s" % (what, r.value[:2]))


def execute(w, t):
    w.seed_random(t["rnd"])
    if t.get("io"):
        import random
        w.disk.rand = (random.Random(t["io"]["seed"]), t["io"]["pe"], t["io"]["ps"])
    seen = set()
    idle = [0]

    def look(h, what):
        if h.safe is None:
            return
        data = C.get(w, "f.mat")
        key = hashlib.blake2b(data or b"", digest_size=12).digest() + repr(sorted(h.safe[0])).encode()
        w.stats["probe.image"] += 1
        w.state(h.by, what, sorted(v[0] for v in h.safe[0].values()))
        if key in seen:
            return
        seen.add(key)
        C.put(w, "dead.mat", data)
        verify(w, t, "dead.mat", h.safe[0], h.safe[1], "%s (made durable by %s)" % (what, h.by))
        if what != "after " + h.by:
            idle[0] += 1
    h = Hist(w, t, look)

    def obs(k, name, fd, a, b, buf):
        # HDF5 itself leaves moments within a flush or close at which the file is not readable
        if k in "wtcs" and h.safe is not None and h.now not in ("close", "flush", "gc", "bad", "badlist", "nomat", "badmany", "refs", "delmissing"):
            w.stats["probe.image-in-call"] += 1
            look(h, "during %s" % h.now)
    w.disk.observers.append(obs)
    t0 = w.disk.total
    h.run()
    ncalls = w.disk.total - t0
    w.disk.observers.clear()
    w.disk.rand = None
    # now let the process really die somewhere
    if t.get("die") is not None and ncalls:
        C.fresh(w, "f.mat")
        at = int(t["die"] * ncalls)
        import pickle
        note = w.p("note")

        def tell(h, what):
            q, w.disk.quiet = w.disk.quiet, True
            with open(note + ".tmp", "wb") as f:
                pickle.dump((h.safe, h.by, h.now), f)
            os.rename(note + ".tmp", note)
            w.disk.quiet = q

        class Told(Hist):
            def changing(self):
                Hist.changing(self)
                tell(self, "")

            def __setattr__(self, k, v):
                object.__setattr__(self, k, v)
                if k == "now" and hasattr(self, "gone"):
                    tell(self, "")
        r = proc.process(w, lambda: Told(w, t, tell).run(), die_at=at)
        if r.how == "died" and os.path.exists(note):
            w.disk.quiet = True
            with open(note, "rb") as f:
                safe, by, now = pickle.load(f)
            w.disk.quiet = False
            if safe is not None and now not in ("close", "flush", "gc"):
                w.stats["probe.died-in-between"] += 1
                verify(w, t, "f.mat", safe[0], safe[1], "at system call %d (%s, durable by %s)" % (at, now, by))
                idle[0] += 1
        elif r.how == "raised":
            raise Violation("fails", "the history raised %s" % (r.value,))
    return {"nontrivial": idle[0] > 0}
