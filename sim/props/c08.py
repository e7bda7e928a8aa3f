"""C08 A failing or full disk is reported, never silently swallowed."""
from .. import values as V
from ..world import Violation
from . import common as C
from . import inject
from . import proc

ID = "C08"
LEVEL = "exploration"
RULE = ("a run is one session (writes of random values with random options, overwrites, deletions, flushes, through a "
        "file object or the convenience functions, on a new or existing file), executed once to count its system calls "
        "and then again for each of 6-14 fault positions: the n-th write, truncate, close, open, read or lock fails with "
        "ENOSPC, EIO, EDQUOT, ... once, or from then on, or after a short transfer, or the n-th call into h5py (and some or all after it) raises. If every call of the session returns, "
        "another process must find all of it; some sessions end with a flush and the death of the process instead of a close. Non-trivial: a fault fired")
RUNS = {"quick": 1500, "thorough": 30000}
STATE_RULE = "kind of the value last written, fault and system call it hit, outcome"
MUST_HIT = ("probe.reported", "probe.all-there", "fault.ENOSPC-write", "fault.EIO-write", "fault.EIO-close", "fault.OSError-in-h5py", "probe.flush-reported")
ASSUMPTIONS = ["HDF5 itself can crash the process at a close after a failed write or read (seen with HDF5 2.0.0); the death of the "
               "process counts as reported",
               "EIO of close() is reported by the kernel after the descriptor is gone"]
LISTS = ("ops", "items", "variants", "vars")


def gen(rng, tier, index):
    from .c05 import value
    mat = rng.random() < .5
    kw = C.gen_opts(rng, mat=mat, actions=False)
    g = V.Gen(rng, mat_ok=True, depth=rng.choice([1, 1, 2, 3]), big=rng.choice([0, 0, .3]))
    names = C.pick_names(rng, 4, C.PLAIN_NAMES + [["g", "x"], ["g", "y"]])
    start = rng.choice(["none", "none", "mat", "plain"])
    ops = []
    have = [{"n": x, "v": value(g)} for x in names[:2]] if start != "none" else []
    last = {repr(i["n"]): i["v"] for i in have}

    def val(n, depth=1):
        s = None
        if repr(n) in last and rng.random() < .4:
            s = V.vary(rng, last[repr(n)])
            if not all(C.acceptable({"matlab_compatible": m}, s) for m in (True, False)):
                s = None
        last[repr(n)] = s or value(g, depth)
        return last[repr(n)]
    via = rng.choice(["File", "File", "File", "with", "with", "write", "savemat", "die", "die"])
    n = 1 if via in ("write", "savemat") else rng.randint(1, 5)
    for i in range(n):
        u = rng.random()
        if u < .6 or n == 1:
            x = rng.choice(names)
            ops.append({"op": "write", "n": x, "v": val(x, 2 if rng.random() < .6 else 1)})
        elif u < .75:
            ops.append({"op": "writes", "items": [{"n": x, "v": val(x)} for x in rng.sample(names, 2)]})
        elif u < .85:
            ops.append({"op": "del", "n": rng.choice(names)})
        elif u < .95:
            ops.append({"op": "flush"})
        else:
            ops.append({"op": "read", "n": rng.choice(names)})
    variants = []
    for _ in range(rng.randint(6, 14)):
        u = rng.random()
        v = {"at": rng.random(), "k": rng.random() < .4}
        if u < .3:
            v.update(on="h5", do=rng.choice(["OSError", "OSError", "RuntimeError", "MemoryError"]))
            v.pop("k")
            if rng.random() < .5:
                v["times"] = rng.choice([2, 2, 3, 5, 1000])
        elif u < .75:
            v.update(on="w", do=rng.choice(["ENOSPC", "ENOSPC", "EIO", "EIO", "EDQUOT", "EFBIG", "ENOMEM"]))
        elif u < .85:
            v.update(on="r", do="EIO")
        elif u < .93:
            v.update(on="c", do=rng.choice(["EIO", "ENOSPC"]))
        else:
            v.update(on=rng.choice("tols"), do=rng.choice(["EIO", "ENOSPC"]))
        if rng.random() < .2:
            v["short"] = rng.randint(1, 200)
        variants.append(v)
    return {"kw": kw, "start": start, "via": via, "ops": ops, "variants": variants,
            "vars": have, "rnd": rng.getrandbits(16)}


def valid(t):
    vs = [i["v"] for i in t["vars"]] + [x["v"] for o in t["ops"] for x in [o] + o.get("items", []) if "v" in x]
    if t["via"] in ("write", "savemat") and (len(t["ops"]) != 1 or t["ops"][0]["op"] != "write"):
        return False
    return all(C.acceptable({"matlab_compatible": m}, v) for v in vs for m in (True, False))


def shrink(t):
    for k in list(t["kw"]):
        if k != "matlab_compatible":
            yield dict(t, kw={a: b for a, b in t["kw"].items() if a != k})
    if t["via"] == "File":
        yield dict(t, via="with")
    for i, v in enumerate(t["variants"]):
        for k in ("k", "short", "times"):
            if v.get(k):
                yield dict(t, variants=t["variants"][:i] + [{a: b for a, b in v.items() if a != k}] + t["variants"][i + 1:])


KEEP = []


def session(w, t):
    """Runs the session; tells the first call that raises, if one does."""
    import hdf5storage as hs
    p = w.p("f.mat")
    kw = dict(t["kw"])
    f = None
    stage = "open"

    def op(o):
        k = o["op"]
        if k == "write":
            f.write(V.build(o["v"]), C.as_path(o["n"]))
        elif k == "writes":
            f.writes({C.as_path(i["n"]): V.build(i["v"]) for i in o["items"]})
        elif k == "del":
            if C.as_path(o["n"]) in f:
                del f[C.as_path(o["n"])]
        elif k == "flush":
            f.flush()
        elif k == "read":
            if C.as_path(o["n"]) in f and not (t["start"] == "plain" and C.rdo(kw)):     # KF4
                f.read(C.as_path(o["n"]))
    try:
        if t["via"] == "write":
            stage = "write()"
            hs.write(V.build(t["ops"][0]["v"]), C.as_path(t["ops"][0]["n"]), filename=p, **kw)
        elif t["via"] == "savemat":
            stage = "savemat"
            hs.savemat(p, {C.as_path(t["ops"][0]["n"]): V.build(t["ops"][0]["v"])}, appendmat=False)
        elif t["via"] == "with":
            with hs.File(p, writable=True, **kw) as f:
                for o in t["ops"]:
                    stage = o["op"]
                    op(o)
                stage = "close"
        else:
            f = hs.File(p, writable=True, options=C.options(kw))
            for o in t["ops"]:
                stage = o["op"]
                op(o)
            if t["via"] == "die":
                # the process dies without closing the file, but it was told that all was flushed
                stage = "flush"
                f.flush()
                KEEP.append(f)
            else:
                stage = "close"
                f.close()
    except Exception as e:
        w.log("reported", stage, type(e).__name__)
        return stage, type(e).__name__
    return None


def model(t):
    m = {tuple(i["n"]): i["v"] for i in t["vars"]}
    kw = t["kw"] if t["via"] != "savemat" else {"matlab_compatible": True}
    dirty = set()

    def put(n, v):
        n = tuple(n)
        if C.merges(kw, m.get(n), v) or (n in dirty and C.merges(kw, v, v)):
            dirty.add(n)
        else:
            dirty.discard(n)
        m[n] = v
    for o in t["ops"]:
        if o["op"] == "write":
            put(o["n"], o["v"])
        elif o["op"] == "writes":
            for i in o["items"]:
                put(i["n"], i["v"])
        elif o["op"] == "del":
            m.pop(tuple(o["n"]), None)
    last = {}
    return {n: v for n, v in m.items() if n not in dirty}


def execute(w, t):
    import hdf5storage as hs
    w.seed_random(t["rnd"])
    data = None
    w.disk.quiet = True
    if t["start"] != "none":
        hs.writes({C.as_path(i["n"]): V.build(i["v"]) for i in t["vars"]}, filename=w.p("f.mat"),
                  matlab_compatible=t["start"] == "mat")
        data = C.get(w, "f.mat")
    w.disk.quiet = False
    want = model(t)
    touched = {tuple(x["n"]) for o in t["ops"] for x in [o] + o.get("items", []) if "v" in x}

    def restore():
        if data is None:
            C.fresh(w, "f.mat")
        else:
            C.put(w, "f.mat", data)

    def called(v, n):
        inj = inject.CallInjector(w, {"call": n, "exc": v["do"], "times": v.get("times", 1)})
        return session(w, t), inj.fired

    def counted():
        inj = inject.CallInjector(w, {"call": None, "exc": ""})
        c = dict.fromkeys("rwtcols", 0)
        w.disk.observers.append(lambda k, *a: c.__setitem__(k, c.get(k, 0) + 1))
        r = session(w, t)
        c["h5"] = inj.n
        return r, c
    restore()
    r = proc.process(w, counted)
    if r.how != "ok" or r.value[0] is not None:
        raise Violation("fails-without-fault", "the session without faults ended with %s %s" % (r.how, r.value))
    counts = r.value[1]
    check(w, t, want, touched, None, "without faults")
    nontrivial = False
    for v in t["variants"]:
        c = counts.get(v["on"], 0)
        if not c:
            continue
        at = min(c - 1, int(v["at"] * c))
        if v["on"] == "h5":
            restore()
            r = proc.process(w, lambda: called(v, at))
            fired, r.value = (r.value[1], r.value[0]) if r.how == "ok" else (None, r.value)
            if fired:
                w.stats["fault.%s-in-h5py" % v["do"]] += 1
        else:
            plan = [{"on": v["on"], "n": at, "do": v["do"], "k": v.get("k", False)}]
            if v.get("short") and v["on"] in "rw" and at:
                plan.insert(0, {"on": v["on"], "n": at - 1, "do": "short", "len": v["short"]})
            restore()
            r = proc.process(w, lambda: session(w, t), faults=plan)
            fired = [x for x in r.fired if x.get("do") == v["do"]]
        last = t["ops"][-1]
        w.state(last["op"], last.get("v", ["-"])[0], v["do"], v["on"], bool(v.get("k")), r.how, r.value)
        only = dict(t, variants=[v])
        if r.how in ("signal", "died"):
            w.stats["probe.hdf5-crashed"] += 1
            continue
        if r.how != "ok":
            raise Violation("harness", "%s %s" % (r.how, r.value), only)
        if r.value is not None:
            w.stats["probe.reported"] += 1
            w.stats["probe.%s-reported" % r.value[0]] += 1
            nontrivial = True
            continue
        if not fired:
            continue
        nontrivial = True
        w.stats["probe.unreported"] += 1
        check(w, t, want, touched, only, "after %s at %s number %d%s that no call reported" % (
            v["do"], v["on"], at, " (%s)" % fired if v["on"] == "h5" else ""))
    return {"nontrivial": nontrivial}


def check(w, t, want, touched, only, what):
    def go():
        import hdf5storage as hs
        w.disk.quiet = True
        bad = []
        kw = dict(t["kw"]) if t["via"] != "savemat" else {}
        with hs.File(w.p("f.mat"), **kw) as f:
            for n, spec in sorted(want.items()):
                o = C.order_of(kw or {"matlab_compatible": True}, spec) if n in touched else \
                    C.order_of({"matlab_compatible": t["start"] == "mat"}, spec)
                if o is not None and o != C.rdo(kw or {"matlab_compatible": True}):
                    continue
                try:
                    got = f.read(C.as_path(list(n)))
                except Exception as e:
                    bad.append((n, "raises %s: %.100s" % (type(e).__name__, e)))
                    continue
                why = []
                if not V.same(V.build(spec), got, why):
                    bad.append((n, "; ".join(why)[:200]))
            for o in t["ops"]:
                if o["op"] == "del" and tuple(o["n"]) not in want and tuple(o["n"]) not in touched \
                        and C.as_path(o["n"]) in f:
                    bad.append((o["n"], "was deleted, is still there"))
        return bad
    r = proc.process(w, go)
    if r.how != "ok":
        raise Violation("lost", "%s the file cannot be read: %s %s" % (what, r.how, r.value), only)
    if r.value:
        raise Violation("lost", "%s: %s" % (what, r.value[:2]), only)
    if only is not None:
        w.stats["probe.all-there"] += 1
