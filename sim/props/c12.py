"""C12 A file opened for reading is never changed."""
import hashlib
import os

from .. import values as V
from ..world import Violation
from . import common as C
from . import inject
from . import proc

ID = "C12"
LEVEL = "exploration"
RULE = ("a run is a file (of the library with random values and options, or of h5py alone, complete or damaged, absent, empty, "
        "without write permission) and a history of calls through a file object opened for reading or through the reading "
        "functions: reads, mapping operations, attempts to write and delete of every kind, wrong arguments, flush, close; "
        "executed plainly and again with failing system calls, and with MemoryError or KeyboardInterrupt at a library line. "
        "Any system call that could change a file, and any changed byte, is a violation. Non-trivial: an attempt to modify was refused")
RUNS = {"quick": 4000, "thorough": 60000}
STATE_RULE = "operation, state of the file, options, cause of failure, outcome"
MUST_HIT = ("probe.refused-write", "probe.refused-delete", "probe.read", "probe.fault-in-call", "fault.MemoryError-at-a-line",
            "fault.KeyboardInterrupt-at-a-line", "fault.EIO-read", "probe.refused-after-close", "probe.open-failed")
ASSUMPTIONS = ["locks of the file and its access time are not part of its bytes"]
LISTS = ("ops", "variants", "vars")
STARTS = ["mat", "mat", "plain", "plain", "h5", "h5-0", "cut", "garbage", "empty", "none", "readonly"]
FILES = ("__init__.py", "Marshallers.py", "utilities.py", "pathesc.py")
MODS = ["write", "write", "writes", "set", "setpath", "del", "delmissing", "pop", "popitem", "clear", "update", "setdefault", "writeroot", "writesnone"]
READS = ["read", "read", "reads", "items", "values", "keys", "len", "in", "get", "eq", "repr", "flush", "missing", "badpath", "refs",
         "iter-keep", "popdefault"]


def gen(rng, tier, index):
    from .c05 import value
    mat = rng.random() < .6
    kw = C.gen_opts(rng, mat=mat, actions=False)
    g = V.Gen(rng, mat_ok=True, depth=rng.choice([1, 2, 2]), big=.03)
    names = C.pick_names(rng, 4, C.NAMES)
    ops = []
    for _ in range(rng.randint(2, 9)):
        u = rng.random()
        if u < .45:
            o = {"op": rng.choice(MODS), "n": rng.choice(names)}
            o["v"] = value(g) if rng.random() < .8 else ["bad"]
        elif u < .93:
            o = {"op": rng.choice(READS), "n": rng.choice(names)}
        else:
            o = {"op": "close"}
        ops.append(o)
    variants = []
    for _ in range(rng.randint(2, 4)):
        u = rng.random()
        if u < .4:
            variants.append({"do": "fail", "on": rng.choice(["r", "r", "r", "o", "a", "l"]), "at": rng.random(),
                             "e": rng.choice(["EIO", "EIO", "ENOMEM", "EINTR", "EACCES"]), "k": rng.random() < .3})
        else:
            variants.append({"do": "line", "at": rng.random(), "exc": rng.choice(["MemoryError", "KeyboardInterrupt"])})
    return {"kw": kw, "start": rng.choice(STARTS), "vars": [{"n": n, "v": value(g)} for n in names[:3]],
            "via": rng.choice(["File", "File", "File", "with", "drop", "read", "reads", "loadmat"]),
            "rkw": kw if rng.random() < .6 else C.gen_opts(rng, mat=rng.random() < .6, actions=False),
            "te": rng.random() < .3, "ti": rng.random() < .3, "default": rng.random() < .5,
            "ops": ops, "variants": variants, "rnd": rng.getrandbits(16)}


def shrink(t):
    for q in ("kw", "rkw"):
        for k in list(t[q]):
            if k != "matlab_compatible":
                yield dict(t, **{q: {a: b for a, b in t[q].items() if a != k}})
    for k in ("te", "ti"):
        if t[k]:
            yield dict(t, **{k: False})


def start(w, t):
    import h5py
    import hdf5storage as hs
    p = w.p("f.mat")
    s = t["start"]
    if s == "none":
        return
    if s in ("garbage", "empty"):
        C.put(w, "f.mat", b"this is not an HDF5 file" * 60 if s == "garbage" else b"")
        return
    if s in ("h5", "h5-0"):
        with h5py.File(p, "w", userblock_size=512 if s == "h5" else 0) as f:
            f["a"] = 1.0
            f["g/x"] = [1, 2, 3]
            f["s"] = "text"
            f["#refs#/a"] = 4
        return
    hs.writes({**{C.as_path(i["n"]): V.build(i["v"]) for i in t["vars"]}, "/ds": 1.0}, filename=p, **dict(t["kw"]))
    if s == "cut":
        d = C.get(w, "f.mat")
        C.put(w, "f.mat", d[:len(d) * 2 // 3])
    if s == "readonly":
        os.chmod(p, 0o444)


def call(w, f, o, keep):
    """Returns what kind of attempt it was."""
    k, p = o["op"], C.as_path(o["n"])
    if k in MODS:
        v = V.build(o["v"])
        here = p in f
        n = len(f)
    if k in ("pop", "popitem", "clear"):
        # these read first, and what cannot be read (KF4) is not their matter
        try:
            for x in [p] if k == "pop" and here else f:
                f.read(x)
        except Exception as e:
            if isinstance(e, OSError):
                raise
            return "read"
    if k == "write":
        f.write(v, p)
    elif k == "writes":
        f.writes({p: v, "/zz9": 1})
    elif k == "set":
        f[p] = v
    elif k == "setpath":
        f[list(o["n"])] = v
    elif k == "writeroot":
        f.write({"q": 1}, "/q/r/s")
    elif k == "writesnone":
        f.writes({p: 1})
    elif k == "del":
        if not here:
            return "read"
        del f[p]
    elif k == "delmissing":
        try:
            del f["/nonesuch"]
        except KeyError:
            return "read"
    elif k == "pop":
        if not here:
            return "read"
        f.pop(p)
    elif k == "popitem":
        if not n:
            return "read"
        f.popitem()
    elif k == "clear":
        if not n:
            return "read"
        f.clear()
    elif k == "update":
        f.update({p: v})
    elif k == "setdefault":
        if here:
            f.setdefault(p, v)
            return "read"
        f.setdefault(p, v)
    if k in MODS:
        return "modified"
    if k == "read":
        f.read(p)
    elif k == "reads":
        f.reads([p, "/ds"])
    elif k == "items":
        list(f.items())
    elif k == "values":
        list(f.values())
    elif k == "keys":
        list(f.keys())
    elif k == "len":
        len(f)
    elif k == "in":
        p in f
    elif k == "get":
        f.get(p, 3)
    elif k == "eq":
        try:
            f == {}
        except ValueError:
            pass
    elif k == "repr":
        repr(f)
    elif k == "flush":
        f.flush()
    elif k == "missing":
        f.read("/nonesuch/x")
    elif k == "badpath":
        f.read(7)
    elif k == "refs":
        f.read("/#refs#/a")
    elif k == "iter-keep":
        it = iter(f)
        next(it, None)
        keep.append(it)
    elif k == "popdefault":
        f.pop("/nonesuch", None)
    return "read"


def use(w, t, v, only):
    import hdf5storage as hs
    p = w.p("f.mat")
    what = "%s of a %s file" % (t["via"], t["start"])
    plain = v["do"] == "nothing"
    refused = 0
    if t["via"] in ("read", "reads", "loadmat"):
        o = t["ops"][0]
        if t["via"] == "read":
            hs.read(C.as_path(o["n"]), filename=p, **t["rkw"])
        elif t["via"] == "reads":
            hs.reads([C.as_path(x["n"]) for x in t["ops"]], filename=p, **t["rkw"])
        else:
            hs.loadmat(p, variable_names=[C.as_path(o["n"])] if t["te"] else None, appendmat=False)
        w.stats["probe.read"] += 1
        return 0
    kw = dict(t["rkw"], truncate_existing=t["te"], truncate_invalid_matlab=t["ti"])
    if not t["default"]:
        kw["writable"] = False
    f = hs.File(p, **kw)
    keep = []
    try:
        closed = False
        for o in t["ops"]:
            if o["op"] == "close":
                f.close()
                closed = True
                continue
            try:
                if closed and o["op"] in ("write", "writes", "set", "setpath", "writeroot", "writesnone", "update"):
                    # nothing to look at first
                    k, q = o["op"], C.as_path(o["n"])
                    f.write(V.build(o["v"]), q) if k == "write" else f.update({q: 1}) if k == "update" else f.writes({q: 1})
                    res = "modified"
                else:
                    res = call(w, f, o, keep)
            except (MemoryError, KeyboardInterrupt):
                w.stats["probe.fault-in-call"] += 1
                res = "fault"
            except OSError as e:
                res = "OSError"
                if o["op"] in MODS and plain:
                    w.stats["probe.refused-after-close" if closed else
                            "probe.refused-delete" if o["op"] in ("del", "pop", "popitem", "clear", "delmissing") else "probe.refused-write"] += 1
                    refused += 1
                if w.disk.fired:
                    w.stats["probe.fault-in-call"] += 1
            except Exception as e:
                res = C.exname(e)
                if o["op"] in MODS and plain and t["start"] in ("mat", "plain", "h5", "h5-0", "readonly"):
                    raise Violation("wrong-exception", "%s: %s raised %s: %.200s" % (what, o["op"], res, e), only)
            w.log(o["op"], res)
            w.state(o["op"], t["start"], v["do"], closed, res)
            if res == "modified":
                raise Violation("not-refused", "%s: %s of %r did not raise" % (what, o["op"], o["n"]), only)
            if res == "read":
                w.stats["probe.read"] += 1
            if w.disk.forbidden_seen:
                raise Violation("changed", "%s: %s made calls that change a file: %r" % (what, o["op"], w.disk.forbidden_seen[:4]), only)
    finally:
        if t["via"] == "drop":
            del f
        else:
            f.close()
    if t["via"] != "drop" and not f.closed:
        raise Violation("not-closed", "%s: not closed after close()" % what, only)
    return refused


def execute(w, t):
    w.seed_random(t["rnd"])
    w.disk.quiet = True
    start(w, t)
    w.disk.quiet = False
    before = C.get(w, "f.mat")
    h0 = hashlib.sha1(before or b"").digest()
    ls = sorted(os.listdir(w.root))
    counts = {}

    def obs(k, *a):
        counts[k] = counts.get(k, 0) + 1
    w.disk.observers.append(obs)
    nt = False
    n = 0
    for v in [{"do": "nothing"}] + t["variants"]:
        only = dict(t, variants=[] if v["do"] == "nothing" else [v])
        if v["do"] == "nothing":
            inj = inject.Injector(w, None, files=FILES)
            with inj:
                nt |= bool(one(w, t, v, only))
            n = inj.n
            w.disk.observers.remove(obs)
        elif v["do"] == "fail":
            c = counts.get(v["on"], 0)
            if not c:
                continue
            fl = {"on": v["on"], "n": int(v["at"] * c), "do": v["e"], "k": v["k"] and v["e"] != "EINTR"}
            r = proc.process(w, lambda: one(w, t, v, only, [fl]))
            if r.how == "signal":
                w.stats["probe.hdf5-crashed"] += 1
            elif r.how != "ok":
                raise RuntimeError("%s %s" % (r.how, r.value))
        else:
            with inject.Injector(w, int(v["at"] * n), v["exc"], files=FILES):
                one(w, t, v, only)
        now = C.get(w, "f.mat")
        if (now is None) != (before is None) or hashlib.sha1(now or b"").digest() != h0:
            raise Violation("changed", "%s of a %s file changed its bytes" % (t["via"], t["start"]), only)
        if sorted(os.listdir(w.root)) != ls:
            raise Violation("changed", "%s of a %s file changed the directory: %r" % (t["via"], t["start"], sorted(os.listdir(w.root))), only)
    return {"nontrivial": nt}


def one(w, t, v, only, faults=()):
    w.disk.writes_forbidden = True
    w.disk.forbidden_seen = []
    if faults:
        w.disk.arm(faults)
    res = 0
    try:
        res = use(w, t, v, only)
    except Violation:
        raise
    except BaseException as e:
        w.log("ended", C.exname(e))
        w.stats["probe.open-failed"] += 1
    w.disk.disarm()
    w.disk.writes_forbidden = False
    if w.disk.forbidden_seen:
        raise Violation("changed", "%s of a %s file made calls that change a file: %r" % (t["via"], t["start"], w.disk.forbidden_seen[:4]), only)
    return res
