"""C03 Every call returns: no deadlock, no lock left held, clean close."""
from .. import values as V
from ..world import Violation
from . import common as C
from . import inject
from . import threads as T

ID = "C03"
LEVEL = "exploration"
RULE = ("a run is 2-4 threads with 1-5 operations each on one or two shared Files, among them failing ones (missing "
        "variable, unsupported or MATLAB-incompatible value, forbidden or invalid path, EIO when reading from the disk, "
        "MemoryError or KeyboardInterrupt at a library line, OSError, RuntimeError or MemoryError from an h5py call), re-entrant ones (iterables and mappings that use the "
        "file, copies between the two files in both directions) and close, under a seeded random or PCT schedule; "
        "non-trivial: an operation failed or raced with a close")
RUNS = {"quick": 4500, "thorough": 120000}
STATE_RULE = "hash of the sequence of (step, thread) switches of a run, and outcomes of operations"
MUST_HIT = ("probe.preempted", "sched.blocked", "probe.failed-op", "probe.after-close", "probe.close-race",
            "fault.MemoryError-at-a-line", "fault.EIO-read", "fault.OSError-in-h5py")
STUBS = ["threading.Lock in the library: a simulated lock with the same interface", "thread scheduling: seeded",
         "disk: tmpfs behind the system call shim", "random numbers: seeded"]
ASSUMPTIONS = ["h5py calls are atomic (h5py holds its global lock in them)",
               "asynchronous exceptions are raised at lines of Marshallers.py and utilities.py, not at the with "
               "statements themselves", "failing disk writes are left to C08: HDF5 itself can crash after them", "a close that itself fails with a disk error is not required to have closed"]
NAMES = ["a", "b", "c", "zz"]
KINDS = ["write", "writes", "read", "reads", "del", "len", "in", "iter", "items", "flush", "close", "bad", "badsub",
         "nomat", "refs", "badpath", "missing", "delmissing", "gen", "map", "copy", "writesfile", "eq", "pop", "mixed",
         "clear", "setdefault"]
WEIGHT = [5, 4, 5, 4, 2, 2, 2, 2, 2, 2, 2, 3, 2, 3, 2, 2, 3, 2, 2, 2, 2, 1, 1, 1, 3, 1, 1]


def gen(rng, tier, index):
    mat = rng.random() < .6
    kw = {"matlab_compatible": mat}
    n = [0]

    def val():
        n[0] += 1
        return T.uval(rng, n[0])
    nt = rng.choice([2, 2, 2, 3, 3, 4])
    two = rng.random() < .4
    noclose = rng.random() < .4
    threads = []
    for t in range(nt):
        ops = []
        for _ in range(rng.randint(1, {2: 5, 3: 4, 4: 3}[nt])):
            k = rng.choices(KINDS, WEIGHT)[0]
            if k == "close" and noclose or k in ("copy", "writesfile", "eq") and not two:
                continue
            op = {"op": k, "n": rng.choice(NAMES), "f": rng.randrange(2) if two else 0}
            if k in ("write", "map", "setdefault"):
                op["v"] = val()
            elif k == "writes":
                op["items"] = [{"n": x, "v": val()} for x in rng.sample(NAMES, 2)]
            elif k == "bad":
                op["v"] = rng.choice([["bad"], ["list", [["int", "1"], ["bad"]]], ["dict", [[["str", "k"], ["bad"]]]]])
            elif k == "nomat":
                op["v"] = rng.choice([["num", "f2", 1], ["list", [["num", "f2", 1]]], ["arr", "f2", [3], 1, "C", "ndarray"]])
            ops.append(op)
        threads.append(ops)
    io = []
    inj = None
    u = rng.random()
    if u < .2:
        for _ in range(rng.randint(1, 2)):
            e = rng.choice([("r", "EIO"), ("r", "EIO"), ("r", "ENOMEM"), ("rw", "EINTR")])
            io.append({"on": e[0], "do": e[1], "n": rng.randint(0, 15), "k": e[1] == "EIO" and rng.random() < .3})
    elif u < .35:
        inj = {"tid": rng.randrange(nt), "call": rng.choice([rng.randint(0, 6), rng.randint(0, 60)]),
               "exc": rng.choice(["OSError", "RuntimeError", "MemoryError"])}
        if rng.random() < .4:
            inj["only"] = rng.choice(["flush", "close", "__delitem__", "__len__", "__iter__", "create_dataset"])
            inj["call"] = rng.choice([0, 0, 0, 1, 2, 5])
    elif u < .5:
        inj = {"tid": rng.randrange(nt), "at": rng.randint(0, 600), "exc": rng.choice(["MemoryError", "KeyboardInterrupt"])}
    return {"opts": kw, "two": two, "init": [{"n": x, "v": val()} for x in NAMES[:2]], "threads": threads,
            "sched": T.gen_sched(rng), "faults": io, "inject": inj, "rnd": rng.getrandbits(16),
            "noclose": noclose, "write_first": rng.random() < .5}


LISTS = ("switches", "init", "faults")


def shrink(t):
    yield from T.shrink_sched(t)
    if t.get("inject"):
        yield dict(t, inject=None)
    for i, ops in enumerate(t["threads"]):
        for j in range(len(ops)):
            th = list(t["threads"])
            th[i] = ops[:j] + ops[j + 1:]
            yield dict(t, threads=th)


class ReadingMap(dict):
    """A mapping that uses the file while it is being written."""

    def __init__(self, f, d):
        dict.__init__(self, d)
        self.f = f

    def items(self):
        for k, v in dict.items(self):
            try:
                len(self.f)
            except OSError:
                pass
            yield k, v


def do(fs, t, op):
    f = fs[op["f"]]
    k, p = op["op"], "/" + op["n"]
    if k == "write":
        f.write(V.build(op["v"]), p)
    elif k == "writes":
        f.writes({"/" + i["n"]: V.build(i["v"]) for i in op["items"]})
    elif k == "read":
        f.read(p)
    elif k == "reads":
        f.reads(["/a", "/b"])
    elif k == "del":
        del f[p]
    elif k == "len":
        len(f)
    elif k == "in":
        p in f
    elif k == "iter":
        list(f)
    elif k == "items":
        list(f.items())
    elif k == "flush":
        f.flush()
    elif k == "close":
        f.close()
    elif k == "bad" or k == "nomat":
        f.write(V.build(op["v"]), p)
    elif k == "badsub":
        f.write(V.build(["badsub"]), p)
    elif k == "mixed":
        f.writes({"/m1": 1, "/m2": V.build(["bad"]), "/m3": 3})
    elif k == "refs":
        f.write(1, "/#refs#/x")
    elif k == "badpath":
        f.write(1, 7)
    elif k == "missing":
        f.read("/nonesuch")
    elif k == "delmissing":
        del f["/nonesuch"]
    elif k == "gen":
        def g():
            for x in ("/a", "/b"):
                if x in f:
                    yield x
        f.reads(g())
    elif k == "map":
        f.writes(ReadingMap(f, {p: V.build(op["v"])}))
    elif k == "copy":
        f.update(fs[1 - op["f"]])
    elif k == "writesfile":
        f.writes(fs[1 - op["f"]])
    elif k == "eq":
        fs[0] == fs[1]
    elif k == "pop":
        f.pop(p, None)
    elif k == "clear":
        f.clear()
    elif k == "setdefault":
        f.setdefault(p, V.build(op["v"]))


def expected(t, op):
    """Exceptions the operation may raise on an open file; None among them
    means it may return."""
    k = op["op"]
    mat = t["opts"]["matlab_compatible"]
    if k == "eq":
        return (None, "KeyError", "ValueError")     # comparing dicts of NumPy arrays is ambiguous in Python too
    if k in ("read", "reads", "del", "items", "gen", "pop", "copy", "writesfile", "clear"):
        return (None, "KeyError")        # others may delete meanwhile
    if k == "setdefault":
        return (None,)
    if k in ("bad", "badsub", "mixed"):
        return ("NotImplementedError",)
    if k == "nomat":
        return ("TypeNotMatlabCompatibleError",) if mat else (None,)
    if k == "refs":
        return ("ValueError",)
    if k == "badpath":
        return ("TypeError",)
    if k in ("missing", "delmissing"):
        return ("KeyError",)
    return (None,)


def execute(w, t):
    import hdf5storage as hs
    w.seed_random(t["rnd"])
    nf = 2 if t["two"] else 1
    fs = [hs.File(w.p("s%d.mat" % i), writable=True, options=C.options(t["opts"])) for i in range(nf)]
    for i in t["init"]:
        for f in fs:
            f.write(V.build(i["v"]), "/" + i["n"])
    if not t["write_first"]:
        # force reads from the disk
        for i in range(nf):
            fs[i].close()
            fs[i] = hs.File(w.p("s%d.mat" % i), writable=True, options=C.options(t["opts"]))
    h = T.History(w)
    early = []
    w.disk.arm(t["faults"])
    io = bool(t["faults"])
    inj = None
    if t.get("inject") and "call" in t["inject"]:
        inj = inject.CallInjector(w, t["inject"])
    elif t.get("inject"):
        inj = inject.Injector(w, t["inject"]["at"], t["inject"]["exc"])

    def hook(code, line):
        if inj is not None and inj.fired is None and w.sched.cur == t["inject"]["tid"]:
            inj.hook(code, line)

    def body(tid):
        def run():
            for op in t["threads"][tid]:
                if op["f"] >= nf:
                    continue
                e = h.call(tid, op)
                before = inj.fired if inj else None
                try:
                    do(fs, t, op)
                    res = "ok"
                    if op["op"] == "close" and not io:
                        if any("s%d.mat" % op["f"] in str(x) for x in w.disk.open_fds()):
                            early.append("close returned in thread %d while the file was still open" % tid)
                        elif not fs[op["f"]].closed:
                            early.append("closed is False after close in thread %d" % tid)
                except (MemoryError, KeyboardInterrupt) as ex:
                    res = type(ex).__name__
                except Exception as ex:
                    res = type(ex).__name__
                    e["msg"] = str(ex)[:160]
                e["inj"] = inj is not None and inj.fired != before
                h.ret(e, res)
        return run
    s = T.run_threads(w, t, [body(i) for i in range(len(t["threads"]))], line_hook=hook if inj and "call" not in t["inject"] else None)
    w.disk.disarm()
    if inj and "call" in t["inject"]:
        inj.stop()
    if early:
        raise Violation("not-closed", early[0])
    closes = {}
    for e in h.ops:
        if e["op"]["op"] == "close":
            closes.setdefault(e["op"]["f"], []).append((e["call"], e["ret"], e["res"]))
    nontrivial = False
    injected = any(e.get("inj") for e in h.ops)
    for e in h.ops:
        op, res = e["op"], e["res"]
        files = (0, 1) if op["op"] in ("copy", "writesfile", "eq") else (op["f"],)
        cl = [c for f in files for c in closes.get(f, [])]
        if op["op"] == "close":
            if res != "ok" and not io and not e["inj"]:
                raise Violation("close-fails", "close raised %s" % res)
            continue
        maybe = any(c[0] < e["ret"] for c in cl)
        sure = any(c[1] < e["call"] and c[2] == "ok" for c in closes.get(op["f"], []))
        if res != "ok":
            nontrivial = True
            w.stats["probe.failed-op"] += 1
        if sure:
            nontrivial = True
            w.stats["probe.after-close"] += 1
            ok = ("OSError",)
            if op["op"] in ("refs", "badpath"):
                ok = expected(t, op)
            if res == "ok" and op["op"] not in ("eq", "copy", "writesfile"):
                raise Violation("served-after-close", "%s returned normally after the close of its file had returned" % op["op"])
            if res not in ok and not e["inj"] and op["op"] not in ("eq", "copy", "writesfile"):
                raise Violation("wrong-error", "%s after close raised %s" % (op["op"], res))
            continue
        if maybe:
            w.stats["probe.close-race"] += 1
        if io or e["inj"]:
            continue
        if injected and (op["op"] in ("items", "copy", "writesfile", "eq", "read", "reads", "gen", "pop", "clear")):
            continue        # the value may have been half written by the interrupted operation
        allowed = [x or "ok" for x in expected(t, op)] + (["OSError"] if maybe else [])
        if res not in allowed:
            raise Violation("wrong-error", "%s ended with %s (%s), expected %s" % (op["op"], res, e.get("msg", ""), allowed))
    # the next call from another thread is served
    for i, f in enumerate(fs):
        ok = [c for c in closes.get(i, []) if c[2] == "ok"]
        bad = [c for c in closes.get(i, []) if c[2] != "ok"]
        served(w, f, i, bool(ok), bool(bad) or io)
    for f in fs:
        try:
            f.close()
            f.close()
        except Exception as e:
            if not io:
                raise Violation("close-fails", "the second close raised %s: %.100s" % (type(e).__name__, e))
            continue
        if not f.closed:
            raise Violation("not-closed", "closed is False after close")
        after_close(f)
    unclosed = any(c[2] != "ok" for cs in closes.values() for c in cs)
    if not io and not unclosed:
        left = w.disk.open_fds()
        if left:
            raise Violation("fd-left", "descriptors left open: %r" % left)
        for i in range(nf):
            g = hs.File(w.p("s%d.mat" % i), writable=True, options=C.options(t["opts"]))
            g.write(1, "/new")
            if g.read("/new") != 1:
                raise Violation("not-usable", "the reopened file does not work")
            g.close()
    w.state(tuple(sorted((e["op"]["op"], str(e["res"])) for e in h.ops)))
    return {"nontrivial": nontrivial}


def served(w, f, i, closed, unsure):
    """Nothing is left locked; the state is what the calls said."""
    try:
        n = len(f)
    except OSError:
        if not closed and not unsure:
            raise Violation("closed-unasked", "the file says it is closed, nobody closed it")
        return
    except Exception as e:
        if unsure:
            return
        raise Violation("not-usable", "len raised %s: %.150s" % (type(e).__name__, e))
    if closed and not unsure:
        raise Violation("not-closed", "a closed file answers")
    if unsure:
        return
    try:
        f.write(["fine"], "/after")
        if f.read("/after") != ["fine"]:
            raise Violation("not-usable", "a later write is not read back")
        f.flush()
    except Violation:
        raise
    except Exception as e:
        raise Violation("not-usable", "a later operation raised %s: %.150s" % (type(e).__name__, e))


def after_close(f):
    for what, fn in (("read", lambda: f.read("/a")), ("write", lambda: f.write(1, "/a")), ("len", lambda: len(f)),
                     ("in", lambda: "/a" in f), ("iter", lambda: list(f)), ("flush", f.flush),
                     ("reads", lambda: f.reads(["/a", "/b"])), ("writes", lambda: f.writes({"/a": 1})),
                     ("items", lambda: list(f.items())), ("del", lambda: f.__delitem__("/a")),
                     ("get", lambda: f["/a"]), ("clear", lambda: f.clear())):
        try:
            fn()
        except OSError:
            continue
        except Exception as e:
            raise Violation("wrong-error", "%s on a closed file raised %s" % (what, type(e).__name__))
        raise Violation("served-after-close", "%s on a closed file returned" % what)
