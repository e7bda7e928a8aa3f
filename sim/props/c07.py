"""C07 A failing disk read never yields a wrong value."""
from .. import sched, values as V
from ..world import Violation
from . import common as C
from . import inject

ID = "C07"
LEVEL = "exploration"
RULE = ("a run is a file of 1-4 variables (random values, options and history) read in one of many ways (read, reads, item "
        "access, get with a default, pop with a default, items, values, loadmat with and without names, read()), executed once to count its "
        "disk reads and then again with the n-th read failing (all n when few, else a sample; once or for good; EIO, "
        "ENOMEM, interrupted, or short and then failing) or with memory exhausted at one library line, or with one call into h5py raising; then read again "
        "from a working disk. Non-trivial: a fault fired")
RUNS = {"quick": 600, "thorough": 20000}
STATE_RULE = "kind of the value, way of reading, fault, outcome"
MUST_HIT = ("fault.OSError-in-h5py", "probe.raised", "probe.right-anyway", "fault.EIO-read", "probe.mapping-lacks-entries", "probe.reread",
            "fault.MemoryError-at-a-line")
ASSUMPTIONS = ["an error of pread() is the only way the disk reports a failure; wrong bytes are C15 and C18"]
LISTS = ("vars", "variants", "old")
HOW = ["read", "read", "reads", "item", "get", "items", "values", "loadmat", "cread", "creads", "eqread", "setdefault", "pop", "names", "names"]


def gen(rng, tier, index):
    from .c05 import value
    mat = rng.random() < .5
    kw = C.gen_opts(rng, mat=mat, actions=False)
    g = V.Gen(rng, mat_ok=True, depth=rng.choice([1, 2, 2, 3]), big=rng.choice([0, .1, .4]))
    names = C.pick_names(rng, 4, C.PLAIN_NAMES + [["g", "x"], ["g", "y"], ["é"]])
    vs = []
    for n in names[:rng.randint(1, 4)]:
        v = value(g, rng.choice([1, 2]))
        u = rng.random()
        if u < .25:      # stored with members each
            v = rng.choice([["date", 2020, 2, 29], ["datetime", 1999, 12, 31, 23, 59, 59, 999999, g.tz()],
                            ["time", 3, 4, 5, 6, g.tz()], ["timedelta", -5, 7, 12], ["fraction", "-7", "3"],
                            ["slice", ["int", "1"], ["none"], ["int", "-2"]], ["range", 0, 10, 3], g.tz(),
                            ["list", [["date", 1, 1, 1], ["fraction", "1", "2"], ["range", 5, 1, -1]]]])
        vs.append({"n": n, "v": v})
    return {"kw": kw, "vars": vs, "old": [{"n": x["n"], "v": value(g)} for x in vs if rng.random() < .2],
            "how": rng.choice(HOW), "pad": rng.choice([0, 0, 0, 30]),
            "variants": [{"all": "EIO", "k": False}] + ([{"all": "EIO", "k": True}] if rng.random() < .4 else []) +
            ([{"all": "h5", "exc": rng.choice(["OSError", "RuntimeError", "MemoryError"])}] if rng.random() < .4 else []) +
            [{"at": rng.random(), "do": rng.choice(["EIO", "ENOMEM", "EINTR", "EIO", "line", "line", "line", "h5", "h5"]),
              "k": rng.random() < .3, "short": rng.random() < .2, "exc": rng.choice(["OSError", "RuntimeError", "MemoryError"])} for _ in range(rng.randint(2, 8))],
            "rnd": rng.getrandbits(16)}


def valid(t):
    return bool(t["vars"]) and all(C.acceptable({"matlab_compatible": m}, x["v"]) for x in t["vars"] + t["old"] for m in (True, False))


def shrink(t):
    for k in list(t["kw"]):
        if k != "matlab_compatible":
            yield dict(t, kw={a: b for a, b in t["kw"].items() if a != k})
    if t["pad"]:
        yield dict(t, pad=0)
    if t["how"] != "read":
        yield dict(t, how="read")


DEFAULT = "the default"
OLD = object()


def read(w, t, names):
    """Reads the variables; {name: value} of those that came back."""
    import hdf5storage as hs
    p, kw, how = w.p("f.mat"), dict(t["kw"]), t["how"]
    paths = [C.as_path(list(n)) for n in names]
    if how in ("cread", "creads"):
        if how == "creads":
            return dict(zip(names, hs.reads(paths, filename=p, **kw)))
        return {n: hs.read(q, filename=p, **kw) for n, q in zip(names, paths)}
    if how == "loadmat":
        if not kw["matlab_compatible"]:
            how = "read"
        else:
            d = hs.loadmat(p)
            return {n: d[n[0]] for n in names if len(n) == 1 and n[0] in d}
    if how == "names":
        # what cannot be read is left out, or keeps the entry it had
        had = {q: OLD for q in paths[::2]}
        d = hs.loadmat(p, mdict=had, variable_names=paths, options=C.options(kw))
        if d is not had or set(d) - set(paths) or set(paths[::2]) - set(d):
            raise Violation("wrong-value", "loadmat with variable_names gave the entries %r" % sorted(map(str, d)))
        return {n: d[q] for n, q in zip(names, paths) if q in d and d[q] is not OLD}
    out = {}
    with hs.File(p, writable=how in ("setdefault", "pop"), **kw) as f:
        if how == "reads":
            return dict(zip(names, f.reads(paths)))
        if how in ("items", "values"):
            from hdf5storage import pathesc
            if how == "items":
                d = {pathesc.unescape_path(k): v for k, v in f.items()}
            else:
                d = dict(zip([pathesc.unescape_path(k) for k in f], f.values()))
            for n in names:
                if len(n) == 1:
                    out[n] = d.get(n[0], DEFAULT)
                else:
                    out[n] = f.read(C.as_path(list(n)))
            return out
        for n, q in zip(names, paths):
            if how in ("read", "eqread"):
                out[n] = f.read(q)
            elif how == "item":
                out[n] = f[q]
            elif how == "get":
                out[n] = f.get(q, DEFAULT)
            elif how == "setdefault":
                out[n] = f.setdefault(q, DEFAULT)
            elif how == "pop":
                out[n] = f.pop(q, DEFAULT)
            else:
                out[n] = f.read(q)
    return out


def check(w, t, want, got, what, only):
    for n, v in got.items():
        exact, why = [], []
        if V.same(V.build(want[n]), v, exact):
            continue
        if not V.same(V.build(want[n]), v, why, approx=True):
            raise Violation("wrong-value", "%s of %r %s gave: %s" % (t["how"], n, what, "; ".join(exact)[:300]), only)
        w.stats["probe.mapping-lacks-entries"] += 1


def execute(w, t):
    import hdf5storage as hs
    w.seed_random(t["rnd"])
    want = {}
    w.disk.quiet = True
    with hs.File(w.p("f.mat"), writable=True, options=C.options(t["kw"])) as f:
        if t["pad"]:
            f.writes({"/pad%02d" % i: float(i) for i in range(t["pad"])})
        for i in t["old"]:
            f.write(V.build(i["v"]), C.as_path(i["n"]))
        for i in t["vars"]:
            if C.as_path(i["n"]) in f:
                del f[C.as_path(i["n"])]
            f.write(V.build(i["v"]), C.as_path(i["n"]))
            want[tuple(i["n"])] = i["v"]
    w.disk.quiet = False
    data = C.get(w, "f.mat")
    names = sorted(want)
    c = w.disk.counts["r"]
    try:
        got = read(w, t, names)
    except Exception as e:
        raise Violation("fails-without-fault", "%s raised %s: %.200s" % (t["how"], C.exname(e), e))
    nreads = w.disk.counts["r"] - c
    if t["how"] == "names" and set(got) != set(names):
        raise Violation("wrong-without-fault", "loadmat left out %r" % sorted(set(names) - set(got)))
    for n, v in got.items():
        C.check_equal(want[n], v, "wrong-without-fault", repr(n))
    lines = inject.Injector(w, None, "MemoryError")
    C.put(w, "f.mat", data)
    with lines:
        read(w, t, names)
    calls = inject.CallInjector(w, {"call": None, "exc": ""})
    C.put(w, "f.mat", data)
    with calls:
        read(w, t, names)
    fired = 0
    for v in t["variants"]:
        if "exact" in v or "line" in v or "call" in v:
            todo = [dict(v, n=v["exact"])] if "exact" in v else [v]
        elif v.get("all") == "h5":
            todo = [{"call": i, "do": "h5", "exc": v["exc"]} for i in range(0, calls.n, max(1, calls.n // 24))]
        elif "all" in v:
            step = max(1, nreads // 24)
            todo = [{"n": i, "do": v["all"], "k": v["k"]} for i in range(0, nreads, step)]
        elif v["do"] == "h5":
            todo = [{"call": int(v["at"] * calls.n), "do": "h5", "exc": v.get("exc", "OSError")}]
        elif v["do"] == "line":
            todo = [{"line": int(v["at"] * lines.n), "do": "line"}]
        else:
            todo = [dict(v, n=int(v["at"] * nreads))]
        for x in todo:
            fired += one(w, t, want, names, x, data)
    return {"nontrivial": fired > 0}


def one(w, t, want, names, x, data):
    only = dict(t, variants=[dict(x, exact=x["n"]) if "n" in x else x])
    C.put(w, "f.mat", data)
    err = None
    n0 = len(w.disk.fired)
    if x["do"] in ("line", "h5"):
        inj = inject.Injector(w, x.get("line", 0), "MemoryError") if x["do"] == "line" else \
            inject.CallInjector(w, dict(x, skip=("close", "__delitem__")))
        with inj:
            try:
                got = read(w, t, names)
            except Violation:
                raise
            except Exception as e:
                err = C.exname(e)
        hit = inj.fired is not None
    else:
        plan = [{"on": "r", "n": x["n"], "do": x["do"], "k": x.get("k") and x["do"] != "EINTR"}]
        if x.get("short") and x["n"]:
            plan.insert(0, {"on": "r", "n": x["n"] - 1, "do": "short", "len": 5})
        w.disk.arm(plan)
        try:
            got = read(w, t, names)
        except Violation:
            raise
        except Exception as e:
            err = C.exname(e)
        hit = bool(w.disk.disarm())
    what = "with %s" % {k: v for k, v in x.items() if k in ("n", "do", "k", "line", "call", "exc")}
    w.state(sorted(s[0] for s in want.values()), t["how"], x["do"], bool(x.get("k")), err if err else "ok")
    if err is not None:
        w.stats["probe.raised"] += 1
        w.log("raised", err)
    else:
        if hit:
            w.stats["probe.right-anyway"] += 1
        check(w, t, want, got, what, only)
    left = w.disk.open_fds()
    if left:
        raise Violation("fd-left", "%s %s left descriptors open: %r" % (t["how"], what, left), only)
    # the disk works again
    if t["how"] == "pop":       # what a failing deletion leaves is not a matter of reading
        return hit
    try:
        with_all = reread(w, t, names, err is not None and t["how"] == "pop")
    except Exception as e:
        raise Violation("not-readable-later", "%s %s ended with %s; reading again raised %s: %.200s" % (
            t["how"], what, err if err else "a value", C.exname(e), e), only)
    for n, v in with_all.items():
        C.check_equal(want[n], v, "wrong-later", "reading %r again after %s %s" % (n, t["how"], what))
    w.stats["probe.reread"] += 1
    return hit


def reread(w, t, names, some):
    import hdf5storage as hs
    with hs.File(w.p("f.mat"), **t["kw"]) as f:
        return {n: f.read(C.as_path(list(n))) for n in names if not some or C.as_path(list(n)) in f}
