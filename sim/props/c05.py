"""C05 Opening a file never destroys what it holds, unless asked to."""
import os

from .. import sched, values as V
from ..world import Violation
from . import common as C
from . import inject
from . import proc
from . import threads as T

ID = "C05"
LEVEL = "exploration"
RULE = ("a run is one start state (no file; a file written by the library or h5py with or without user block; an empty, "
        "cut, garbage or signature-only file; a directory; a dangling link), one way of opening it, and a set of "
        "variants: one system call of the open failing or interrupted, the process dying before it, an exception at "
        "one library line, another process creating, changing or holding the file at one library line; or several "
        "threads that open and write the same file under a seeded schedule. After each variant the file is read by "
        "another process. Non-trivial: at least one fault fired or one variant met the file in another state")
RUNS = {"quick": 1200, "thorough": 25000}
STATE_RULE = "start state, kind of open, fault and system call or line it hit, outcome"
MUST_HIT = ("probe.kept", "probe.refused-untouched", "probe.truncated-as-asked", "probe.created-meanwhile",
            "probe.changed-meanwhile", "fault.process-crash", "probe.header-written")
ASSUMPTIONS = ["a crash of the process, not of the machine: what was written to the file system stays",
               "files in HDF5's default format (with the opt-in 'latest' format HDF5 itself marks files as open)"]
STARTS = ["none", "none", "mat", "mat", "plain", "h5-0", "h5-0", "h5-512", "h5-2048", "h5-16384", "garbage", "garbage", "empty", "cut", "sig",
          "matgarbage", "dir", "link", "old"]
LISTS = ("vars", "variants")
EMPTY_OK = True


def gen(rng, tier, index):
    if rng.random() < .25:
        return gen_threads(rng)
    start = rng.choice(STARTS)
    g = V.Gen(rng, mat_ok=True, depth=1, big=0)
    kw = C.gen_opts(rng, mat=rng.random() < .7, actions=False)
    op = {"via": rng.choice(["File", "File", "File", "write", "writes", "savemat"]), "kw": kw,
          "te": rng.random() < .12, "ti": rng.random() < .3, "asopts": rng.random() < .5}
    if (start in ("mat", "plain", "old", "link") or start.startswith("h5-")) and op["te"] and rng.random() < .6:
        op["te"] = False
    variants = [{"do": "nothing"}]
    for _ in range(rng.randint(4, 8)):
        u = rng.random()
        at = rng.random()
        if u < .3:
            variants.append({"do": "die", "at": at})
        elif u < .62:
            variants.append({"do": "fail", "at": at, "e": rng.choice(["EIO", "EIO", "EIO", "ENOSPC", "EACCES", "EINTR", "EMFILE",
                                                                        "short", "ENOMEM"]), "k": rng.random() < .25,
                             "on": rng.choice(["any", "any", "any", "a", "o", "r", "w", "c", "t"])})
        elif u < .78:
            variants.append({"do": "raise", "at": at, "exc": rng.choice(["MemoryError", "KeyboardInterrupt"])})
        else:
            variants.append({"do": "other", "at": at, "what": rng.choice(["create", "create", "add", "add", "hold", "holdr"])})
    return {"mode": "open", "start": start, "vars": [{"n": n, "v": value(g)} for n in C.pick_names(rng, 3, C.PLAIN_NAMES)],
            "open": op, "variants": variants, "rnd": rng.getrandbits(16),
            "glen": rng.choice([1, 4, 7, 50, 95, 128, 511, 513, 1680, 1680, 5000]), "ubzero": rng.random() < .3}


def value(g, depth=1):
    """A value that any options store."""
    while True:
        s = g.value(depth)
        if C.acceptable({"matlab_compatible": True}, s) and C.acceptable({"matlab_compatible": False}, s):
            return s


def gen_threads(rng):
    nt = rng.choice([2, 2, 3])
    kws = [{"matlab_compatible": rng.random() < .8} for _ in range(nt)]
    return {"mode": "threads", "start": rng.choice(["none", "none", "mat", "plain", "h5-0", "h5-512"]),
            "vars": [{"n": [n], "v": ["num", "f8", i]} for i, n in enumerate("ab")], "kws": kws,
            "threads": [[{"op": rng.choice(["write", "write", "File", "read", "savemat"]), "n": "t%d%d" % (t, j),
                          "v": ["num", "i4", t * 10 + j], "ti": rng.random() < .3}
                         for j in range(rng.randint(1, 3))] for t in range(nt)],
            "sched": T.gen_sched(rng), "rnd": rng.getrandbits(16)}


def valid(t):
    if t["mode"] == "threads":
        return True
    return all(C.acceptable({"matlab_compatible": m}, i["v"]) for i in t["vars"] for m in (True, False))


def shrink(t):
    if t["mode"] == "threads":
        yield from T.shrink_sched(t)
        for i, ops in enumerate(t["threads"]):
            for j in range(len(ops)):
                th = list(t["threads"])
                th[i] = ops[:j] + ops[j + 1:]
                yield dict(t, threads=th)
    else:
        for k in list(t["open"]["kw"]):
            if k != "matlab_compatible":
                yield dict(t, open=dict(t["open"], kw={a: b for a, b in t["open"]["kw"].items() if a != k}))
        for k in ("te", "ti", "asopts"):
            if t["open"][k]:
                yield dict(t, open=dict(t["open"], **{k: False}))


# ------------------------------------------------------------- start states

def setup(w, t):
    """Makes the start state; the bytes (or None), whether it is HDF5, and
    its user block."""
    import h5py
    import hdf5storage as hs
    p = w.p("f.mat")
    s = t["start"]
    w.disk.quiet = True
    q = w.p("make.mat")
    try:
        if s in ("none", "dir"):
            if s == "dir":
                os.mkdir(p)
            return None, False, 0
        if s in ("garbage", "empty", "sig", "matgarbage"):
            data = {"garbage": (b"Some text that is nobody else's business.\n" * 120)[:t.get("glen", 1680)], "empty": b"",
                    "sig": b"\x89HDF\r\n\x1a\n" + b"\x07" * 600,
                    "matgarbage": b"MATLAB 5.0 MAT-file, Platform: GLNXA64".ljust(124) + b"\x00\x01IM" + b"\x01" * 900}[s]
            C.put(w, "f.mat", data)
            w.disk.quiet = True
            return data, s == "empty", 0      # HDF5 takes an empty file for an HDF5 file without content
        if s in ("mat", "plain", "cut", "link", "old"):
            hs.writes({C.as_path(i["n"]): V.build(i["v"]) for i in t["vars"]}, filename=q,
                      matlab_compatible=s != "plain")
            ub = 512
        else:
            ub = int(s[3:])
            with h5py.File(q, "w", userblock_size=ub) as f:
                pass
            with hs.File(q, writable=True, matlab_compatible=False) as f:
                f.writes({C.as_path(i["n"]): V.build(i["v"]) for i in t["vars"]})
            if ub:
                with open(q, "r+b") as f:
                    f.write((bytes(256) if t.get("ubzero") else bytes(range(256))) * (ub // 256))
        with open(q, "rb") as f:
            data = f.read()
        if s == "old":
            data = b"MATLAB 7.3 MAT-file, Platform: GLNXA64, Created on: Mon Jan 03 10:00:00 2011 HDF5 schema 1.00 .".ljust(116) + \
                bytes(8) + b"\x00\x02IM" + data[128:]
        if s == "cut":
            data = data[:len(data) - len(data) // 3]
            C.put(w, "f.mat", data)
            w.disk.quiet = True
            return data, False, 0
        if s == "link":
            C.put(w, "target.mat", data)
            w.disk.quiet = True
            os.symlink(w.p("target.mat"), p)
        else:
            C.put(w, "f.mat", data)
        return data, True, ub
    finally:
        w.disk.quiet = True
        if os.path.exists(q):
            os.unlink(q)
        w.disk.quiet = False


def restore(w, t, data):
    w.disk.quiet = True
    p = w.p("f.mat")
    try:
        if t["start"] == "dir":
            return
        if data is None:
            if os.path.exists(p):
                os.unlink(p)
        else:
            C.put(w, "f.mat", data)
    finally:
        w.disk.quiet = False


def readback(w, t, names, mat):
    """What another process finds in the file: {name: ("ok", equal?)} or a
    string if it cannot be opened."""
    def go():
        import hdf5storage as hs
        w.disk.quiet = True
        out = {}
        # options that read it back: those of the writing
        with hs.File(w.p("f.mat"), matlab_compatible=mat) as f:
            out[""] = sorted(f)
            for n, spec in names:
                try:
                    got = f.read(C.as_path(n))
                except Exception as e:
                    out[tuple(n)] = "%s: %.100s" % (type(e).__name__, e)
                    continue
                why = []
                out[tuple(n)] = "same" if V.same(V.build(spec), got, why) else "differs: %s" % why
        return out
    r = proc.process(w, go)
    return r.value if r.how == "ok" else "cannot be opened: %s %s" % (r.how, r.value or r.sig)


def do_open(w, t):
    """The operation under test."""
    import hdf5storage as hs
    o = t["open"]
    kw = dict(o["kw"])
    p = w.p("f.mat")
    via = o["via"]
    if via == "File":
        if o["asopts"]:
            f = hs.File(p, writable=True, truncate_existing=o["te"], truncate_invalid_matlab=o["ti"], options=C.options(kw))
        else:
            f = hs.File(p, writable=True, truncate_existing=o["te"], truncate_invalid_matlab=o["ti"], **kw)
        f.close()
    elif via == "write":
        hs.write(5, "/written", filename=p, truncate_existing=o["te"], truncate_invalid_matlab=o["ti"], **kw)
    elif via == "writes":
        hs.writes({"/written": 5}, filename=p, truncate_existing=o["te"], truncate_invalid_matlab=o["ti"], **kw)
    else:
        hs.savemat(p, {"written": 5}, appendmat=False, truncate_existing=o["te"], truncate_invalid_matlab=o["ti"])
    return via


def asked(t, isvalid, ub):
    """Whether truncation was asked for."""
    o = t["open"]
    if o["te"]:
        return True
    mat = o["kw"]["matlab_compatible"] or o["via"] == "savemat"
    return o["ti"] and mat and isvalid and ub < 128


def other(w):
    def serve(state, what, path, name, val, mat):
        import h5py
        import hdf5storage as hs
        if what == "create":
            if os.path.exists(path):
                raise FileExistsError
            hs.write(val, name, filename=path, matlab_compatible=mat)
        elif what == "add":
            if not os.path.exists(path):
                raise FileNotFoundError
            with hs.File(path, writable=True, matlab_compatible=False) as f:
                f.write(val, name)
        elif what in ("hold", "holdr"):
            state["f"] = h5py.File(path, "r+" if what == "hold" else "r")
        elif what == "let":
            if "f" in state:
                state.pop("f").close()
        return what
    return proc.Actor(w, serve)


def execute(w, t):
    w.seed_random(t["rnd"])
    if t["mode"] == "threads":
        return execute_threads(w, t)
    data, isvalid, ub = setup(w, t)
    mat = t["start"] != "plain" and not t["start"].startswith("h5-")
    mat0 = t["start"] in ("mat", "old", "link")
    names = [(i["n"], i["v"]) for i in t["vars"]] if t["start"] != "empty" else []
    # how many system calls and lines does it make?
    restore(w, t, data)
    inj = inject.Injector(w, None, "MemoryError", ("__init__.py",))

    def counted():
        with inj:
            try:
                return do_open(w, t), None
            except Exception as e:
                return None, type(e).__name__
            finally:
                w.nlines = inj.n

    def wrap():
        r = counted()
        return r, inj.n
    base = proc.process(w, wrap)
    ncalls = max(1, base.calls)
    nlines = base.value[1] if base.how == "ok" else 50
    nontrivial = False
    for i, v in enumerate(t["variants"]):
        if one(w, t, v, data, isvalid, ub, names, mat0, ncalls, nlines):
            nontrivial = True
    return {"nontrivial": nontrivial}


def one(w, t, v, data, isvalid, ub, names, mat0, ncalls, nlines):
    o = t["open"]
    restore(w, t, data)
    what = v["do"]
    actor = None
    fired = [None]
    added = []
    try:
        if what == "other":
            actor = other(w)

        def go():
            if what == "raise":
                inj = inject.Injector(w, int(v["at"] * nlines), v["exc"], ("__init__.py", "utilities.py"))
                with inj:
                    try:
                        return do_open(w, t)
                    finally:
                        fired[0] = inj.fired
            if what == "other":
                # the other process acts before one line of the library
                at = int(v["at"] * nlines)
                n = [0]
                did = [None]

                def hook(code, line):
                    if os.path.basename(code.co_filename) == "__init__.py" and did[0] is None:
                        n[0] += 1
                        if n[0] - 1 == at:
                            q, w.disk.quiet = w.disk.quiet, True
                            did[0] = actor.ask(v["what"], w.p("f.mat"), "/byother", 77, t["open"]["kw"]["matlab_compatible"])
                            w.disk.quiet = q
                sched.trace_lines(hook)
                try:
                    return do_open(w, t), did[0], None
                except Exception as e:
                    return None, did[0], type(e).__name__
                finally:
                    sched.untrace()
            return do_open(w, t)
        kw = {}
        if what == "die":
            kw["die_at"] = int(v["at"] * ncalls)
        elif what == "fail":
            on = "oracwtsnlu" if v["on"] == "any" else v["on"]
            n = int(v["at"] * (ncalls if v["on"] == "any" else max(2, ncalls // 5)))
            e = v["e"]
            if e in ("EINTR", "short"):
                on = "".join(x for x in on if x in "rw") or "rw"
            if e == "ENOSPC":
                on = "wt"
            if e in ("EACCES", "EMFILE"):
                on = "oa" if v["on"] == "any" else on
            kw["faults"] = [{"on": on, "n": n, "do": e, "k": v["k"] and e != "EINTR", "len": 7}]
        r = proc.process(w, go, **kw)
        if what == "other":
            did = r.value[1] if r.how == "ok" else None
            if did is not None and did[0] == "ok":
                if v["what"] in ("create", "add"):
                    added = [(["byother"], ["int", "77"])]
                    w.stats["probe.%s-meanwhile" % ("created" if v["what"] == "create" else "changed")] += 1
                actor.ask("let", "", "", 0, False)
            if r.how == "ok":
                r = proc.Outcome("ok" if r.value[2] is None else "raised", r.value[2] or r.value[0])
    finally:
        if actor is not None:
            actor.close()
    w.state(t["start"], o["via"], o["te"], o["ti"], what, v.get("e"), v.get("exc"), v.get("what"),
            [x["on"] for x in r.fired], r.how)
    only = dict(t, variants=[v])
    after = C.get(w, "f.mat") if t["start"] != "dir" else None
    # a file that is not HDF5
    if t["start"] == "dir":
        if r.how == "ok":
            raise Violation("opened-directory", "a directory was opened for writing", only)
        if not os.path.isdir(w.p("f.mat")):
            raise Violation("destroyed", "the directory is gone", only)
        return True
    if data is not None and not isvalid and not o["te"]:
        if r.how == "ok":
            raise Violation("opened-invalid", "opening a file that is not HDF5 (%s) for writing succeeded" % t["start"], only)
        if after != data:
            raise Violation("destroyed", "a file that is not HDF5 (%s) was changed by opening it: %s" % (
                t["start"], "gone" if after is None else "%d bytes, were %d" % (len(after), len(data))), only)
        w.stats["probe.refused-untouched"] += 1
        return True
    if asked(t, isvalid, ub):
        if r.how == "ok" and not (what == "other"):
            got = readback(w, t, [], False)
            want = ["written"] if o["via"] != "File" else []
            if isinstance(got, str):
                raise Violation("truncated-unreadable", "after a truncation that was asked for: %s" % got, only)
            if [x for x in got[""] if x != "#refs#"] != want:
                raise Violation("not-truncated", "truncation was asked for, the file still holds %r" % got[""], only)
            w.stats["probe.truncated-as-asked"] += 1
        return True
    if r.how == "ok":
        mat = o["kw"]["matlab_compatible"] or o["via"] == "savemat"
        w.stats["probe.header-written"] += bool(mat and after and after[:6] == b"MATLAB" and after != data)
    elif what == "nothing":
        raise Violation("open-fails", "opening %s for writing ended with %s %s" % (t["start"], r.how, r.value), only)
    keep = (names if isvalid else []) + added
    if r.how == "ok" and o["via"] != "File" and what != "fail":        # failing writes: C08
        keep = keep + [(["written"], ["int", "5"])]
    if not keep:
        return r.how != "ok"
    got = readback(w, t, keep, mat0)
    if isinstance(got, str):
        raise Violation("destroyed", "after %s (%s, outcome %s %s) the file %s" % (
            desc(v), o["via"], r.how, r.value, got), only)
    for n, spec in keep:
        if got[tuple(n)] != "same":
            raise Violation("lost", "after %s (%s, outcome %s %s) the variable %r is: %s" % (
                desc(v), o["via"], r.how, r.value, n, got[tuple(n)]), only)
    w.stats["probe.kept"] += 1
    return True


def desc(v):
    return " ".join("%s=%s" % x for x in sorted(v.items()))


# ------------------------------------------------------------------ threads

def execute_threads(w, t):
    import hdf5storage as hs
    data, isvalid, ub = setup(w, t)
    mat0 = t["start"] == "mat"
    h = T.History(w)
    p = w.p("f.mat")

    def body(tid):
        def run():
            kw = t["kws"][tid]
            for op in t["threads"][tid]:
                e = h.call(tid, op)
                try:
                    if op["op"] == "write":
                        hs.write(V.build(op["v"]), "/" + op["n"], filename=p, truncate_existing=False,
                                 truncate_invalid_matlab=False, **kw)
                    elif op["op"] == "savemat":
                        hs.savemat(p, {op["n"]: V.build(op["v"])}, appendmat=False, truncate_existing=False)
                    elif op["op"] == "File":
                        with hs.File(p, writable=True, **kw) as f:
                            f.write(V.build(op["v"]), "/" + op["n"])
                    else:
                        with hs.File(p, **kw) as f:
                            list(f)
                    res = "ok"
                except Exception as ex:
                    res = type(ex).__name__
                h.ret(e, res)
        return run
    s = T.run_threads(w, t, [body(i) for i in range(len(t["threads"]))])
    keep = [(i["n"], i["v"]) for i in t["vars"]] if isvalid else []
    for e in h.ops:
        op = e["op"]
        if e["res"] == "ok" and op["op"] != "read":
            keep.append(([op["n"]], op["v"]))
            w.stats["probe.thread-wrote"] += 1
        elif e["res"] != "ok":
            w.stats["probe.thread-refused"] += 1
    left = w.disk.open_fds()
    if left:
        raise Violation("fd-left", "descriptors left open: %r" % left)
    if keep:
        got = readback(w, t, keep, mat0)
        if isinstance(got, str):
            raise Violation("destroyed", "after threads opened the file together, it %s" % got)
        for n, spec in keep:
            if got[tuple(n)] != "same":
                raise Violation("lost", "after threads opened the file together, %r is: %s" % (n, got[tuple(n)]))
    w.state("threads", t["start"], s.interleave)
    return {"nontrivial": s.nswitch >= 2}
