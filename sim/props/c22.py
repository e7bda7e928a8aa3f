"""C22 What is read depends only on the last write, with or without metadata."""
import os
import random

from .. import values as V
from ..world import Violation
from . import common as C
from . import c16

ID = "C22"
LEVEL = "exploration"
RULE = ("a run is a history of sessions with 2-4 sets of options (with and without Python metadata, MATLAB compatibility, custom "
        "names of keys, values and complex parts) and of another writer on one file, that write, overwrite with other or alike "
        "values, delete and fail to write, with short and interrupted system calls. After each session every variable is "
        "compared, as stored and as read by 2-4 readers with options of their own, with the same value written with the same "
        "options to a new file; values without metadata also with the documented conversion. Non-trivial: a variable was overwritten")
RUNS = {"quick": 2500, "thorough": 60000}
STATE_RULE = "kinds of the old and the new value, and whether each had metadata and MATLAB compatibility"
MUST_HIT = ("probe.overwritten", "probe.no-metadata", "probe.metadata-lost", "probe.metadata-gained", "probe.mat-to-plain",
            "probe.plain-to-mat", "probe.foreign", "probe.converted", "probe.read-raises", "probe.as-dict", "probe.refused")
ASSUMPTIONS = ["the target of a failed write is judged again once it is rewritten", "how a dataset is chunked is not part of its form",
               "variables are overwritten with delete_unused_variables on (otherwise old members stay, as documented)",
               "the documented conversion is checked for numbers, booleans, text, sequences and mappings with str keys"]
LISTS = ("ops", "readers")


def gen(rng, tier, index):
    from .c05 import value

    def opts(mat=None):
        kw = C.gen_opts(rng, mat=mat)
        kw.pop("action_for_matlab_incompatible", None)
        if not kw["matlab_compatible"]:
            kw["delete_unused_variables"] = True
        if rng.random() < .55:
            kw["store_python_metadata"] = False
        if not kw["matlab_compatible"] and rng.random() < .3:
            kw["complex_names"] = rng.choice([["real", "imag"], ["re", "im"], ["i", "r"]])
        return kw

    def reader():
        kw = C.gen_opts(rng, actions=False)
        if rng.random() < .4:
            kw["structs_as_dicts"] = True
        if rng.random() < .2:
            kw["complex_names"] = rng.choice([["real", "imag"], ["re", "im"], ["i", "r"]])
        return kw
    kws = [opts(), opts()] + [opts() for _ in range(rng.choice([0, 1, 2]))]
    readers = [{"matlab_compatible": True}, {"matlab_compatible": True, "structs_as_dicts": True}] + [reader() for _ in range(rng.choice([0, 1, 2]))]
    names = C.pick_names(rng, rng.choice([1, 2, 3]), C.PLAIN_NAMES + [["g", "x"], ["g", "y"], ["é"]])
    last = {}
    now = [0]
    ops = [{"op": "open", "o": 0}]
    hung = rng.random() < .15

    def val(n):
        g = V.Gen(rng, mat_ok=rng.random() < .75, depth=rng.choice([1, 2, 2, 3]), big=.02)
        k = repr(n)
        s = V.vary(rng, last[k]) if k in last and rng.random() < .4 else g.value()
        if hung and rng.random() < .6:
            s = ["arr", "f8", rng.choice([[0, 3], [0], [2, 0]]), 0, "C", "ndarray"]
            s = V.alike(rng, last[k] if k in last and rng.random() < .6 else s) or s
        if V.has_bad(s) or not C.acceptable(kws[now[0]], s):
            s = value(g)
        last[k] = s
        return s
    for _ in range(rng.randint(2, 8)):
        u = rng.random()
        n = rng.choice(names)
        if u < .6:
            ops.append({"op": "write", "n": n, "v": val(n)})
        elif u < .65:
            ops.append({"op": "del", "n": n})
        elif u < .7:
            ops.append({"op": "fail", "n": n, "v": rng.choice([["bad"], ["list", [["int", "1"], ["bad"]]], ["dict", [[["str", "a"], ["int", "1"]], [["str", "b"], ["bad"]]]],
                                                               ["dict", [[["int", "1"], ["bad"]]]]])})
        elif u < .93:
            now[0] = rng.randrange(len(kws))
            ops.append({"op": "open", "o": now[0]})
            if rng.random() < .7:
                ops.append({"op": "write", "n": n, "v": val(n)})
        else:
            ops.append({"op": "foreign", "n": n, "k": rng.choice(c16.FOREIGN)})
            if rng.random() < .6:
                ops.append({"op": "write", "n": n, "v": val(n) if rng.random() < .5 or repr(n) not in last else last[repr(n)]})
    return {"kws": kws, "readers": readers, "ops": ops, "noise": rng.random() < .25, "rnd": rng.getrandbits(16)}


def valid(t):
    return t["ops"] and t["ops"][0]["op"] == "open" and t["readers"]


def shrink(t):
    yield from c16.shrink(t)
    for i, kw in enumerate(t["readers"]):
        for k in list(kw):
            if k != "matlab_compatible":
                yield dict(t, readers=t["readers"][:i] + [{a: b for a, b in kw.items() if a != k}] + t["readers"][i + 1:])


def look(f, n):
    try:
        return "value", f.read(C.as_path(n))
    except Exception as e:
        return "raises", type(e).__name__


# ------------------------------------------- the documented conversion

def loose(x):
    import numpy as np
    return np.asarray(x).squeeze()


def number(want, got, why, path):
    import numpy as np
    a, b = loose(want), loose(got)
    if not isinstance(got, (np.ndarray, np.generic)):
        why.append("%s: a number or array came back as %s" % (path, type(got).__name__))
    elif b.dtype.newbyteorder("=") != a.dtype.newbyteorder("="):
        why.append("%s: %s came back as %s" % (path, a.dtype, b.dtype))
    elif a.size != b.size or a.ndim == b.ndim and a.shape != b.shape or not np.array_equal(a.ravel(), b.ravel(), equal_nan=a.dtype.kind in "fc"):
        why.append("%s: %.100r came back as %.100r" % (path, want, got))


def conv(want, got, why, path, mat, dicts):
    """What can be said of a value read back without metadata."""
    import numpy as np
    t = type(want)
    if t is int and -2 ** 63 <= want < 2 ** 63:
        number(np.int64(want), got, why, path)
    elif t is float or t in (bool, complex) and mat:
        number(np.array(want), got, why, path)
    elif isinstance(want, (np.ndarray, np.generic)) and want.dtype.kind in "iufc" + "b" * mat and want.size and (mat or want.dtype.kind != "c"):
        number(want, got, why, path)
    elif t is str and mat and want and not any(0xd800 <= ord(c) < 0xe000 for c in want) and not want.endswith("\0"):
        if not isinstance(got, (np.ndarray, np.str_)) or got.dtype.kind != "U" or got.size != 1 or str(loose(got)[()]) != want:
            why.append("%s: text %.80r came back as %.80r of %s" % (path, want, got, type(got).__name__))
    elif t in (list, tuple) and want:
        if not isinstance(got, np.ndarray) or got.dtype != object or got.size != len(want):
            why.append("%s: %d elements came back as %.100r" % (path, len(want), got))
        else:
            for i, (x, y) in enumerate(zip(want, got.ravel())):
                conv(x, y, why, "%s[%d]" % (path, i), mat, dicts)
    elif t is dict and dicts and mat and want and all(type(k) is str and k.isascii() and k.isprintable() and k for k in want):
        if not isinstance(got, dict) or set(map(str, got)) != set(want):
            why.append("%s: the keys %.100r came back as %.100r" % (path, sorted(want), list(got) if isinstance(got, dict) else type(got).__name__))
        else:
            for k, v in want.items():
                conv(v, got[k], why, path + "." + k, mat, dicts)
    else:
        return
    return True


def execute(w, t):
    import h5py
    import hdf5storage as hs
    w.seed_random(t["rnd"])
    p = w.p("f.mat")
    rnd = random.Random(t["rnd"])
    if t["noise"]:
        w.disk.rand = (rnd, .02, .05)
    model = {}      # name -> (options, spec, form in a new file, what the readers get there)
    spoilt = set()
    foreign = set()
    readers = [C.options(x) for x in t["readers"]]
    f = kw = None
    nt = False

    def fresh(n, v, k):
        was, w.disk.quiet = w.disk.quiet, True
        q = w.p("fresh.mat")
        try:
            if os.path.exists(q):
                os.unlink(q)
            with hs.File(q, writable=True, options=C.options(k)) as g:
                g.write(V.build(v), C.as_path(n))
            with h5py.File(q, "r") as g:
                fm = c16.form(g, c16.find(g, n))
            return fm, [seen(q, o, n) for o in readers]
        finally:
            w.disk.quiet = was

    def seen(q, o, n):
        with hs.File(q, options=o) as g:
            return look(g, n)

    def judge(what):
        was, w.disk.quiet = w.disk.quiet, True
        try:
            with h5py.File(p, "r") as g:
                for n, (k, v, fm, _) in sorted(model.items()):
                    if n not in spoilt:
                        o = c16.find(g, n)
                        if o is None:
                            raise Violation("lost", "%s: %s is not in the file" % (what, n))
                        d = c16.diff(c16.form(g, o), fm, "/".join(n))
                        if d:
                            raise Violation("form-depends", "%s: the form of %.200s, written with %s, differs from the one in a new file at %s"
                                            % (what, v, k, d))
        finally:
            w.disk.quiet = was
        for i, o in enumerate(readers):
            with hs.File(p, options=o) as g:
                for n, (k, v, _, rs) in sorted(model.items()):
                    if n in spoilt:
                        continue
                    how, x = look(g, n)
                    why = []
                    w.stats["probe.read-raises"] += how == "raises"
                    if how != rs[i][0] or how == "raises" and x != rs[i][1]:
                        raise Violation("read-depends", "%s: %.200s, written with %s and read with %s: %s %.100r, from a new file %s %.100r"
                                        % (what, v, k, t["readers"][i], how, x, *rs[i]))
                    if how == "value" and not V.same(rs[i][1], x, why):
                        raise Violation("read-depends", "%s: %.200s, written with %s and read with %s differs from what a new file gives: %s"
                                        % (what, v, k, t["readers"][i], "; ".join(why)[:300]))
                    if k.get("store_python_metadata", True) or how == "raises":
                        continue
                    mat = bool(k.get("matlab_compatible"))
                    rk = t["readers"][i]
                    if not mat and any(k.get(z) for z in C.FLAGS if z != "delete_unused_variables"):
                        continue
                    if mat and not C.rdo(rk):
                        continue
                    dicts = bool(rk.get("structs_as_dicts"))
                    if conv(V.build(v), x, why, "/".join(n), mat, dicts):
                        w.stats["probe.converted"] += 1
                        w.stats["probe.as-dict"] += dicts and isinstance(x, dict)
                    if why:
                        raise Violation("conversion", "%s: %.200s, written with %s and read with %s: %s" % (what, v, k, rk, "; ".join(why)[:300]))

    for i, op in enumerate(t["ops"] + [{"op": "open", "o": 0}]):
        k = op["op"]
        what = "op %d (%s)" % (i, k)
        try:
            if k in ("open", "foreign") and f is not None:
                f.close()
                f = None
                judge("before " + what)
            if k == "open":
                kw = t["kws"][op["o"] % len(t["kws"])]
            elif k == "foreign":
                was, w.disk.quiet = w.disk.quiet, True
                with h5py.File(p, "a") as g:
                    c16.plant(g, "/".join(op["n"]), op["k"])
                w.disk.quiet = was
                model.pop(tuple(op["n"]), None)
                foreign.add(tuple(op["n"]))
            if f is None:
                f = hs.File(p, writable=True, options=C.options(kw))
            n = tuple(op.get("n", ()))
            if k == "write" and C.acceptable(kw, op["v"]):
                f.write(V.build(op["v"]), C.as_path(op["n"]))
                old = model.get(n)
                meta, mat = kw.get("store_python_metadata", True), bool(kw.get("matlab_compatible"))
                w.stats["probe.no-metadata"] += not meta
                w.stats["probe.foreign"] += n in foreign
                if old:
                    nt = True
                    om, oc = old[0].get("store_python_metadata", True), bool(old[0].get("matlab_compatible"))
                    w.stats["probe.overwritten"] += 1
                    w.stats["probe.metadata-lost"] += om and not meta
                    w.stats["probe.metadata-gained"] += meta and not om
                    w.stats["probe.mat-to-plain"] += oc and not mat
                    w.stats["probe.plain-to-mat"] += mat and not oc
                    w.state(old[1][0], op["v"][0], om, oc, meta, mat)
                model[n] = (kw, op["v"]) + fresh(op["n"], op["v"], kw)
                spoilt.discard(n)
                foreign.discard(n)
            elif k == "del":
                if C.as_path(op["n"]) in f:
                    del f[C.as_path(op["n"])]
                model.pop(n, None)
                spoilt.discard(n)
            elif k == "fail":
                try:
                    f.write(V.build(op["v"]), C.as_path(op["n"]))
                except (OSError, KeyError):
                    raise
                except Exception:
                    w.stats["probe.refused"] += 1
                spoilt.add(n)
        except Violation:
            raise
        except Exception as e:
            raise Violation("refused", "%s raised %s: %.200s" % (what, C.exname(e), e))
        w.log(k, len(model))
    f.close()
    return {"nontrivial": nt}
