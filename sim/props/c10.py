"""C10 No file handle outlives its call or its close."""
import os

from .. import values as V
from ..world import Violation
from . import common as C
from . import inject
from . import proc

ID = "C10"
LEVEL = "exploration"
RULE = ("a run is one way of using a file (write, writes, savemat, read, reads, loadmat, a with block, a file object that "
        "is closed or dropped), a start state of the file, arguments that may be wrong (value, path, variable, file name, "
        "options), and several variants of it: no fault, one system call failing once or for good, MemoryError or "
        "KeyboardInterrupt at one library line, one call into h5py raising, or an exception leaving the with block. After each, no descriptor is "
        "open, HDF5 knows of no open file, and the file can be truncated, written and deleted. Non-trivial: the call failed")
RUNS = {"quick": 2500, "thorough": 50000}
STATE_RULE = "way of use, start state, cause of failure, exception"
MUST_HIT = ("fault.OSError-in-h5py", "probe.failed-write", "probe.failed-read", "probe.failed-with", "probe.failed-open", "probe.dropped", "probe.exception-kept",
            "fault.MemoryError-at-a-line", "fault.KeyboardInterrupt-at-a-line", "fault.EIO-read", "fault.EIO-open")
ASSUMPTIONS = ["an open that fails part way may keep the descriptor while the exception that left it is alive",
               "no interrupt at the lines of close(), __exit__() and __del__() themselves",
               "what HDF5 does with its descriptor when the disk refuses its last reads or writes is its own matter: write errors "
               "are injected into the open only, and after a read error in a session that modifies the file it is enough that "
               "HDF5 knows of no open file"]
VIA = ["write", "write", "writes", "savemat", "read", "reads", "loadmat", "with", "with", "with", "close", "drop", "iter"]
STARTS = ["none", "mat", "mat", "mat", "plain", "h5-0", "garbage", "empty", "cut", "dir"]
LISTS = ("ops", "variants", "vars")
SKIP = ("close", "__exit__", "__del__", "closed")
FILES = ("__init__.py", "Marshallers.py", "utilities.py", "pathesc.py")
BODY = ["ValueError", "KeyboardInterrupt", "SystemExit", "GeneratorExit", "closed"]


def gen(rng, tier, index):
    from .c05 import value
    g = V.Gen(rng, mat_ok=True, depth=rng.choice([1, 2]), big=.02)
    kw = C.gen_opts(rng, mat=rng.random() < .6)
    names = C.pick_names(rng, 3, C.PLAIN_NAMES + [["g", "x"]])
    via = rng.choice(VIA)

    def op():
        u = rng.random()
        o = {"op": rng.choice(["write", "write", "writes", "read", "reads", "del", "flush", "iter", "items"]), "n": rng.choice(names)}
        if o["op"] in ("write", "writes"):
            o["v"] = value(g)
            if u < .2:
                o["v"] = rng.choice([["bad"], ["list", [["int", "1"], ["bad"]]], ["dict", [[["str", "a"], ["bad"]]]], ["num", "f2", 1]])
            elif u < .3:
                o["path"] = rng.choice(["refs", "type", "through"])
        elif u < .2:
            o["n"] = ["nonesuch"]
        elif u < .26:
            o["path"] = "type"
        return o
    variants = [{"do": "nothing"}]
    for _ in range(rng.randint(4, 8)):
        u = rng.random()
        if u < .35:
            variants.append({"do": "fail", "on": rng.choice(["r", "r", "o", "a", "l", "any"]), "at": rng.random(),
                             "e": rng.choice(["EIO", "EIO", "ENOMEM", "EACCES", "EMFILE", "EINTR"]), "k": rng.random() < .3})
        elif u < .45:
            variants.append({"do": "failw", "at": rng.random(), "e": rng.choice(["ENOSPC", "EIO"])})
        elif u < .6:
            variants.append({"do": "line", "h5": True, "at": rng.random(), "exc": rng.choice(["OSError", "RuntimeError", "MemoryError"])})
        else:
            variants.append({"do": "line", "at": rng.random(), "exc": rng.choice(["MemoryError", "KeyboardInterrupt"])})
    return {"kw": kw, "start": rng.choice(STARTS), "vars": [{"n": n, "v": value(g)} for n in names[:2]], "via": via,
            "ops": [op() for _ in range(rng.randint(1, 4) if via in ("with", "close", "drop", "iter") else 1)],
            "wrong": rng.choice([None] * 10 + ["filename", "options", "both", "writable"]),
            "te": rng.random() < .15, "ti": rng.random() < .2, "writable": rng.random() < .8,
            "body": rng.choice([None, None] + BODY), "variants": variants, "rnd": rng.getrandbits(16)}


def shrink(t):
    for k in list(t["kw"]):
        if k != "matlab_compatible":
            yield dict(t, kw={a: b for a, b in t["kw"].items() if a != k})
    for k in ("wrong", "body"):
        if t[k]:
            yield dict(t, **{k: None})
    for k in ("te", "ti"):
        if t[k]:
            yield dict(t, **{k: False})


def path(o):
    p = o.get("path")
    if p == "refs":
        return "/#refs#/x"
    if p == "type":
        return 7
    if p == "through":
        return "/ds/sub"
    return C.as_path(o["n"])


def do(f, o):
    k = o["op"]
    if k == "write":
        f.write(V.build(o["v"]), path(o))
    elif k == "writes":
        f.writes({"/w": 1, path(o): V.build(o["v"])})
    elif k == "read":
        return f.read(path(o))
    elif k == "reads":
        return f.reads([path(o)])
    elif k == "del":
        del f[path(o)]
    elif k == "flush":
        f.flush()
    elif k == "iter":
        it = iter(f)
        next(it, None)
        return it
    elif k == "items":
        it = iter(f.items())
        next(it, None)
        return it


EXC = {"ValueError": ValueError, "KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit, "GeneratorExit": GeneratorExit}


def use(w, t):
    """Uses the file; stage reached is noted in t['_stage']."""
    import hdf5storage as hs
    p, kw, via, o = w.p("f.mat"), dict(t["kw"]), t["via"], t["ops"][0]
    kw.update({"truncate_existing": t["te"], "truncate_invalid_matlab": t["ti"]})
    if t["wrong"] == "filename":
        p = b"f"
    elif t["wrong"] == "options":
        kw["no_such_option"] = 1
    elif t["wrong"] == "both":
        kw["options"] = hs.Options()
    v = V.build(o["v"]) if "v" in o else 1
    if via == "write":
        hs.write(v, path(o), filename=p, **kw)
    elif via == "writes":
        hs.writes({"/w": 1, path(o): v}, filename=p, **kw)
    elif via == "savemat":
        hs.savemat(p, {path(o): v}, appendmat=False, truncate_existing=t["te"], truncate_invalid_matlab=t["ti"])
    elif via == "read":
        hs.read(path(o), filename=p, **t["kw"])
    elif via == "reads":
        hs.reads([path(o), C.as_path(t["vars"][0]["n"]) if t["vars"] else "/"], filename=p, **t["kw"])
    elif via == "loadmat":
        hs.loadmat(p, appendmat=False)
    else:
        kw["writable"] = t["writable"] if t["wrong"] != "writable" else 1
        if via == "with":
            with hs.File(p, **kw) as f:
                for x in t["ops"]:
                    do(f, x)
                if t["body"] == "closed":
                    f.close()
                elif t["body"]:
                    raise EXC[t["body"]]("leaving the block")
        elif via == "close":
            f = hs.File(p, **kw)
            keep = []
            try:
                for x in t["ops"]:
                    keep.append(do(f, x))
            finally:
                f.close()
                return None, keep, f     # what it handed out is still alive
        elif via == "drop":
            f = hs.File(p, **kw)
            for x in t["ops"]:
                do(f, x)
            w.stats["probe.dropped"] += 1
            del f
        elif via == "iter":
            f = hs.File(p, **kw)
            it = iter(f)
            next(it, None)
            del f
            it2 = it
            del it, it2
            w.stats["probe.dropped"] += 1


def start(w, t):
    import h5py
    import hdf5storage as hs
    p = w.p("f.mat")
    s = t["start"]
    if os.path.isdir(p):
        os.rmdir(p)
    C.fresh(w, "f.mat")
    if s == "none":
        return
    if s == "dir":
        os.mkdir(p)
        return
    if s == "garbage":
        C.put(w, "f.mat", b"this is not an HDF5 file" * 60)
        return
    if s == "empty":
        C.put(w, "f.mat", b"")
        return
    if s == "h5-0":
        with h5py.File(p, "w") as f:
            f["ds"] = 1.0
        return
    hs.writes({**{C.as_path(i["n"]): V.build(i["v"]) for i in t["vars"]}, "/ds": 1.0}, filename=p, matlab_compatible=s != "plain")
    if s == "cut":
        d = C.get(w, "f.mat")
        C.put(w, "f.mat", d[:len(d) // 2])


def execute(w, t):
    w.seed_random(t["rnd"])
    w.disk.quiet = True
    start(w, t)
    isdir = t["start"] == "dir"
    data = None if isdir else C.get(w, "f.mat")
    w.disk.quiet = False

    def restore():
        if isdir:
            return
        if data is None:
            C.fresh(w, "f.mat")
        else:
            C.put(w, "f.mat", data)
    nt = False
    # once to count lines and calls
    counts = dict.fromkeys("rwtcolsa", 0)

    def obs(k, *a):
        counts[k] = counts.get(k, 0) + 1
    inj = inject.Injector(w, None, files=FILES, skip=SKIP)
    w.disk.observers.append(obs)
    calls = inject.CallInjector(w, {"call": None, "exc": "", "skip": ("close",)})
    with inj, calls:
        err = one(w, t, {"do": "nothing"}, t)
    w.disk.observers.remove(obs)
    nt |= err is not None
    for v in t["variants"]:
        if v["do"] == "nothing":
            continue
        restore()
        only = dict(t, variants=[v])
        if v["do"] == "fail":
            k = v["on"]
            if k == "any":
                n = sum(counts[x] for x in "rola")
                f = {"on": "rola", "n": int(v["at"] * n), "do": v["e"], "k": v["k"] and v["e"] != "EINTR"}
            else:
                n = counts[k]
                f = {"on": k, "n": int(v["at"] * n), "do": v["e"], "k": v["k"] and v["e"] != "EINTR"}
            if not n:
                continue
            r = proc.process(w, lambda: one(w, t, v, only, [f]))
            if r.how == "ok":
                nt |= r.value is not None
            elif r.how == "signal":
                w.stats["probe.hdf5-crashed"] += 1
            else:
                raise RuntimeError("%s %s" % (r.how, r.value))
        elif v["do"] == "failw":
            # the write of the header, or the first of HDF5
            f = {"on": "w", "n": 0, "do": v["e"], "k": False, "opening": True}
            r = proc.process(w, lambda: one(w, t, v, only, [f]))
            if r.how == "signal":
                w.stats["probe.hdf5-crashed"] += 1
            elif r.how != "ok":
                raise RuntimeError("%s %s" % (r.how, r.value))
        else:
            v = dict(v, call=int(v["at"] * calls.n)) if v.get("h5") else dict(v, line=int(v["at"] * inj.n))
            err = one(w, t, v, only)
            nt |= err is not None
    return {"nontrivial": nt}


def one(w, t, v, only, faults=()):
    import h5py
    import hdf5storage as hs
    keep = None
    err = None
    inj = None
    entered = [0]
    init = hs.File.__init__

    def noting(self, *a, **k):
        init(self, *a, **k)
        entered[0] += 1
    opening = any(f.get("opening") for f in faults)
    if opening:
        t = dict(t, ops=[{"op": "flush", "n": ["x"]}] if t["via"] not in ("write", "writes", "savemat") else t["ops"])
    w.disk.arm([{k: x for k, x in f.items() if k != "opening"} for f in faults])
    alive = None
    hs.File.__init__ = noting
    try:
        if v["do"] == "line":
            inj = inject.Injector(w, v["line"], v["exc"], files=FILES, skip=SKIP) if "line" in v else \
                inject.CallInjector(w, {"call": v["call"], "exc": v["exc"], "skip": ("close",)})
            with inj:
                keep = use(w, t)
        else:
            keep = use(w, t)
    except Violation:
        raise
    except BaseException as e:
        err = C.exname(e)
        if entered[0] and t["via"] not in ("close", "drop", "iter") and not (inj and inj.fired and "__enter__" in inj.fired):
            # the caller looks at the exception, with all frames it left
            alive = e
    finally:
        hs.File.__init__ = init
    fired = w.disk.disarm()
    if fired and modifies(t):
        alive = None          # closing may have failed in HDF5
    if alive is not None:
        w.stats["probe.exception-kept"] += 1
    w.log("ended", err)
    what = "%s (%s) of a %s file %s ended with %s" % (
        t["via"], ",".join(o["op"] for o in t["ops"]), t["start"],
        inj.fired if inj and inj.fired else "with %s" % fired if fired else "", err)
    w.state(t["via"], t["start"], v["do"], inj.fired if inj else v.get("e"), err)
    if err:
        k = {"read": "read", "reads": "read", "loadmat": "read", "with": "with", "write": "write", "writes": "write",
             "savemat": "write"}.get(t["via"], "object")
        w.stats["probe.failed-%s" % k] += 1
        if t["start"] in ("garbage", "cut", "dir") or t["wrong"]:
            w.stats["probe.failed-open"] += 1
    if opening and err is None:
        return None
    n = h5py.h5f.get_obj_count(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_FILE)
    left = w.disk.open_fds()
    if left and fired and not n and modifies(t):
        # closed by the library and forgotten by HDF5, which could not write
        # its last pages (it had to read something for that)
        w.stats["probe.hdf5-kept-descriptor"] += 1
        return err
    if left:
        raise Violation("fd-left", "%s; descriptors left open: %r" % (what, left), only)
    real = [x for x in map(_link, os.listdir("/proc/self/fd")) if x.startswith(w.root)]
    if real:
        raise Violation("fd-left", "%s; descriptors left open: %r" % (what, [os.path.basename(x) for x in real]), only)
    if n:
        raise Violation("fd-left", "%s; HDF5 has %d open files" % (what, n), only)
    if t["start"] != "dir":
        again(w, t, what, only)
    del keep, alive
    return err


def modifies(t):
    return t["via"] in ("write", "writes", "savemat") or t["via"] not in ("read", "reads", "loadmat") and t["writable"]


def again(w, t, what, only):
    """The file can be truncated and deleted at once."""
    import hdf5storage as hs
    w.disk.quiet = True
    try:
        p = w.p("f.mat")
        with hs.File(p, writable=True, truncate_existing=True) as f:
            f["/n"] = 5
        with hs.File(p) as f:
            if f["/n"] != 5:
                raise Violation("not-usable", "%s; then the file was truncated and written, but gives %r" % (what, f["/n"]), only)
        os.unlink(p)
    except Violation:
        raise
    except Exception as e:
        raise Violation("not-usable", "%s; truncating the file then raised %s: %.200s" % (what, C.exname(e), e), only)
    finally:
        w.disk.quiet = False


def _link(x):
    try:
        return os.readlink("/proc/self/fd/" + x)
    except OSError:
        return ""
