"""C16 The MATLAB form of a file is valid in every reachable state."""
import random

from .. import values as V
from ..world import Violation
from . import common as C

ID = "C16"
LEVEL = "exploration"
RULE = ("a run is a history of sessions (MATLAB-compatible ones with varied options, sometimes a plain one, savemat, or another "
        "writer that leaves a foreign object under a name) that write, overwrite with other kinds of values, delete and fail to "
        "write, with short and interrupted system calls. After every operation every variable that was last written for MATLAB "
        "is scanned with h5py against the rules of the MATLAB 7.3 format and compared, attributes and elements included, with "
        "the form the same value gets in a new file. Non-trivial: a variable was overwritten")
RUNS = {"quick": 3000, "thorough": 50000}
STATE_RULE = "kinds of the old and the new value, and options of the write"
MUST_HIT = ("probe.overwritten", "probe.cell", "probe.struct", "probe.char", "probe.logical", "probe.empty", "probe.numeric", "probe.refused",
            "probe.foreign", "probe.after-plain", "probe.discard", "probe.struct-array", "probe.complex")
ASSUMPTIONS = ["the target of a failed write is judged again once it is rewritten", "values written with 'ignore' are only compared with the "
               "form in a new file", "how a dataset is chunked is not part of its form",
               "the library lists the fields of a struct only when all their names are ASCII, and not for a mapping stored as keys and values (by design)",
               "byte strings that are not ASCII are stored as bytes (by design)"]
LISTS = ("ops",)
CLASSES = {"double": "f8", "single": "f4", "int8": "i1", "int16": "i2", "int32": "i4", "int64": "i8", "uint8": "u1", "uint16": "u2",
           "uint32": "u4", "uint64": "u8"}
FOREIGN = ["sparse", "resizable", "null", "vlen", "attrs", "compound", "group", "enum", "attrs", "scalar", "table", "twin", "twin", "twin"]


def gen(rng, tier, index):
    from .c05 import value

    def mopts():
        kw = C.gen_opts(rng, mat=True)
        if rng.random() < .2:
            kw["store_python_metadata"] = False
        if rng.random() < .4:
            kw["action_for_matlab_incompatible"] = rng.choice(["discard", "discard", "ignore"])
        return kw
    kws = [mopts() for _ in range(rng.choice([1, 2, 2]))]
    plain = rng.random() < .35
    if plain:
        kws.append(dict(C.gen_opts(rng, mat=False), delete_unused_variables=True))
    names = C.pick_names(rng, 3, C.PLAIN_NAMES + [["g", "x"], ["g", "y"], ["é"], ["with space"]])
    last = {}
    now = [0]
    empties = rng.random() < .12
    ops = [{"op": "open", "o": 0}]

    def val(n):
        g = V.Gen(rng, mat_ok=rng.random() < .75, depth=rng.choice([1, 2, 2, 3]), big=.02)
        k = repr(n)
        s = V.vary(rng, last[k]) if k in last and rng.random() < .35 else g.value()
        if empties and rng.random() < .6:
            s = ["arr", "f8", rng.choice([[0, 3], [0], [2, 0]]), 0, "C", "ndarray"]
            s = V.alike(rng, last[k] if k in last and rng.random() < .6 else s) or s
        if kws[now[0]].get("action_for_matlab_incompatible", "error") != "error" and rng.random() < .5:
            s = V.implant(rng, s if rng.random() < .6 else ["struct", [["a", "i4"], ["b", "f8"]], rng.choice([[1], [2], [1, 2], []]), 1, "ndarray"], rng.choice([["num", "f2", rng.getrandbits(16)], ["arr", "f2", [2], rng.getrandbits(16), "C", "ndarray"]]))
        if V.has_bad(s) or not C.acceptable({"matlab_compatible": False}, s):
            s = value(g)
        last[k] = s
        return s
    for _ in range(rng.randint(3, 9)):
        u = rng.random()
        n = rng.choice(names)
        if u < .55:
            ops.append({"op": "write", "n": n, "v": val(n)})
        elif u < .65:
            ops.append({"op": "writes", "items": [{"n": x, "v": val(x)} for x in rng.sample(names, 2)]})
        elif u < .7:
            ops.append({"op": "del", "n": n})
        elif u < .77:
            ops.append({"op": "fail", "n": n, "v": rng.choice([["bad"], ["list", [["int", "1"], ["bad"]]], ["dict", [[["str", "a"], ["int", "1"]], [["str", "b"], ["bad"]]]],
                                                               ["dict", [[["int", "1"], ["bad"]]]]])})
        elif u < .9:
            now[0] = rng.randrange(len(kws))
            ops.append({"op": "open", "o": now[0]})
        elif u < .95:
            ops.append({"op": "savemat", "n": n, "v": val(n)})
        else:
            ops.append({"op": "foreign", "n": n, "k": rng.choice(FOREIGN)})
    return {"kws": kws, "ops": ops, "noise": rng.random() < .25, "rnd": rng.getrandbits(16)}


def valid(t):
    return t["ops"] and t["ops"][0]["op"] == "open"


def shrink(t):
    if t["noise"]:
        yield dict(t, noise=False)
    for i, kw in enumerate(t["kws"]):
        for k in list(kw):
            if k not in ("matlab_compatible", "delete_unused_variables"):
                yield dict(t, kws=t["kws"][:i] + [{a: b for a, b in kw.items() if a != k}] + t["kws"][i + 1:])


# ------------------------------------------------------------ the form

def attr(v):
    import numpy as np
    if isinstance(v, np.ndarray) and v.dtype == object:
        return [attr(x) for x in v.ravel()]
    if isinstance(v, (np.ndarray, np.generic)):
        return (str(v.dtype), v.shape, v.tobytes() if v.dtype.kind != "O" else repr(v))
    return repr(v)


def form(f, o, depth=0):
    """Everything that MATLAB or a reader can see of an object."""
    import h5py
    import numpy as np
    a = {k: attr(v) for k, v in o.attrs.items()}
    if "H5PATH" in a and a["H5PATH"] == attr(np.bytes_((o.name or "").rsplit("/", 1)[0].encode("utf-8"))):
        a["H5PATH"] = "the parent"
    if isinstance(o, h5py.Group):
        return ("group", a, {k: form(f, o[k], depth + 1) for k in o})
    head = (str(o.dtype), o.shape, o.compression, o.compression_opts, bool(o.shuffle), bool(o.fletcher32))
    if o.shape is None:
        return ("dataset", a, head, None)
    d = o[()]
    if h5py.check_dtype(ref=o.dtype) is h5py.Reference:
        return ("cells", a, head, [form(f, f[r], depth + 1) if r else None for r in np.ravel(d)])
    return ("dataset", a, head, d.tobytes() if isinstance(d, (np.ndarray, np.generic)) and d.dtype.kind != "O" else repr(d))


def diff(a, b, path=""):
    """Where two forms differ (first place)."""
    if type(a) is not type(b):
        return "%s: %.120r instead of %.120r" % (path, a, b)
    if isinstance(a, tuple) and len(a) == len(b) and a and a[0] in ("group", "dataset", "cells") and a[0] == b[0]:
        for k in sorted(set(a[1]) | set(b[1])):
            if a[1].get(k) != b[1].get(k):
                return "%s: attribute %s is %.120r instead of %.120r" % (path, k, a[1].get(k), b[1].get(k))
        for x, y in zip(a[2:], b[2:]):
            d = diff(x, y, path)
            if d:
                return d
        return None
    if isinstance(a, dict):
        if set(a) != set(b):
            return "%s: members %r instead of %r" % (path, sorted(a), sorted(b))
        for k in a:
            d = diff(a[k], b[k], path + "/" + k)
            if d:
                return d
        return None
    if isinstance(a, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, path + "{%d}" % i)
            if d:
                return d
        return None
    return None if a == b else "%s: %.120r instead of %.120r" % (path, a, b)


# ------------------------------------------------------------ the rules

def text(v):
    return bytes(v).decode("ascii") if v is not None else None


def rules(w, f, o, path, refs, pairs, element=False):
    """The MATLAB 7.3 rules for one object; raises Violation."""
    import h5py
    import numpy as np

    def no(msg):
        raise Violation("bad-form", "%s: %s" % (path, msg))
    a = o.attrs
    cls = a.get("MATLAB_class")
    if cls is None:
        no("no MATLAB class (attributes %r)" % sorted(a))
    if not isinstance(cls, (bytes, np.bytes_)):
        no("the MATLAB class is stored as %r" % type(cls))
    cls = text(cls)
    if element and text(a.get("H5PATH")) != refs:
        no("an element's H5PATH is %r" % (a.get("H5PATH"),))
    dec = a.get("MATLAB_int_decode")
    em = a.get("MATLAB_empty")
    width = 2 if em else getattr(getattr(o, "dtype", None), "itemsize", None)
    if cls == "struct" and isinstance(o, h5py.Group):
        fields = a.get("MATLAB_fields")
        names = [] if fields is None else ["".join(c.decode("ascii") for c in np.ravel(x)) for x in fields]
        if fields is None and (not all(k.isascii() for k in o) or sorted(o) in pairs):
            names = list(o)     # names that cannot be listed, or the keys and values of a mapping
        if sorted(names) != sorted(o) or len(set(names)) != len(names):
            no("the struct lists the fields %r and has %r" % (names, sorted(o)))
        if em:
            no("a struct with members is flagged empty")
        w.stats["probe.struct"] += 1
        shapes = []
        for k in o:
            m = o[k]
            if m.attrs.get("H5PATH") is None or bytes(m.attrs["H5PATH"]) != o.name.encode("utf-8"):
                no("H5PATH of the field %r is %r, not %r" % (k, m.attrs.get("H5PATH"), o.name))
            if isinstance(m, h5py.Dataset) and h5py.check_dtype(ref=m.dtype) is h5py.Reference and "MATLAB_class" not in m.attrs:
                shapes.append(m.shape)
                w.stats["probe.struct-array"] += 1
                cells(w, f, m, path + "/" + k, refs, pairs, no)
            else:
                shapes.append(None)
                rules(w, f, m, path + "/" + k, refs, pairs)
        if len(set(shapes)) > 1:
            no("the fields of the struct array have the shapes %r" % shapes)
        return
    if not isinstance(o, h5py.Dataset):
        no("a Group of class %r" % cls)
    if em is not None and not (isinstance(em, np.uint8) and em in (0, 1)):
        no("MATLAB_empty is %r" % (em,))
    dt = o.dtype
    ref = h5py.check_dtype(ref=dt) is h5py.Reference
    if em == 1:
        w.stats["probe.empty"] += 1
        d = o[()]
        if dt != np.dtype("u8") or d.ndim != 1 or len(d) < 2 or np.all(d):
            no("an empty stores %s %r as its shape" % (dt, d))
        if cls not in CLASSES and cls not in ("char", "logical", "cell", "struct", "canonical empty"):
            no("an empty has the class %r" % cls)
    else:
        if o.shape is None or len(o.shape) < 2:
            no("has the shape %r" % (o.shape,))
        if 0 in o.shape:
            no("has the shape %r but is not flagged empty" % (o.shape,))
        if cls in CLASSES:
            w.stats["probe.numeric"] += 1
            want = np.dtype(CLASSES[cls])
            if dt.names:
                if tuple(dt.names) != ("real", "imag") or any(dt[n].newbyteorder("=") != want for n in dt.names):
                    no("class %s holds %s" % (cls, dt))
                w.stats["probe.complex"] += 1
            elif dt.newbyteorder("=") != want:
                no("class %s holds %s" % (cls, dt))
        elif cls == "char":
            w.stats["probe.char"] += 1
            if dt.kind == "S" and (np.frombuffer(o[()].tobytes(), "u1") >= 128).any():
                width = 1   # bytes beyond ASCII are kept
            elif dt not in (np.dtype("u2"), np.dtype("u4"), np.dtype("u1")):
                no("characters are stored as %s" % dt)
        elif cls == "logical":
            w.stats["probe.logical"] += 1
            if dt != np.dtype("u1") or not np.isin(o[()], (0, 1)).all():
                no("logicals are stored as %s" % dt)
        elif cls == "cell":
            w.stats["probe.cell"] += 1
            if not ref:
                no("a cell array holds %s" % dt)
            cells(w, f, o, path, refs, pairs, no)
        else:
            no("the class %r with %s" % (cls, dt))
        if ref and cls != "cell":
            no("class %r holds references" % cls)
    if cls == "char":
        if not isinstance(dec, np.integer) or dec not in (1, 2, 4) or dec != width:
            no("characters with MATLAB_int_decode %r" % (dec,))
    elif cls == "logical":
        if not isinstance(dec, np.integer) or dec != 1:
            no("logicals with MATLAB_int_decode %r" % (dec,))
    elif dec is not None:
        no("class %s with MATLAB_int_decode %r" % (cls, dec))
    if "MATLAB_fields" in a and cls != "struct":
        no("class %s lists fields" % cls)
    if "MATLAB_sparse" in a:
        no("is marked sparse")


def pairs_of(kw):
    """The members of a mapping that is stored as its keys and values."""
    from hdf5storage.pathesc import escape_path
    return [sorted(escape_path(kw.get("dict_like_%s_name" % x, x)) for x in ("keys", "values"))]


def cells(w, f, o, path, refs, pairs, no):
    import numpy as np
    for i, r in enumerate(np.ravel(o[()])):
        if not r:
            no("element %d is a null reference" % i)
        x = f[r]
        if not x.name or x.name.rsplit("/", 1)[0] != refs:
            no("element %d is %r, not in the references group" % (i, x.name))
        if text(x.attrs.get("MATLAB_class")) == "canonical empty":
            continue
        rules(w, f, x, "%s{%d}" % (path, i), refs, pairs, element=True)


def canonical(f, refs):
    import numpy as np
    g = f[refs]
    a = g.get("a")
    if a is None:
        if len(g):
            raise Violation("bad-form", "the references group has no canonical empty")
        return
    if a.shape != (2,) or a.dtype != np.dtype("u8") or np.any(a[()]) or text(a.attrs.get("MATLAB_class")) != "canonical empty" or \
       a.attrs.get("MATLAB_empty") != 1:
        raise Violation("bad-form", "the canonical empty is %s of %s with %r" % (a.dtype, a.shape, dict(a.attrs)))


def plant(f, n, k):
    """What another writer leaves under a name."""
    import h5py
    import numpy as np
    if k == "attrs":
        todo = [f[n]] if n in f else []
        if todo and isinstance(f[n], h5py.Group):
            f[n].visititems(lambda _, o: todo.append(o))
        for o in todo:
            for x, v in (("MATLAB_sparse", np.uint64(3)), ("MATLAB_int_decode", np.uint8(1)), ("MATLAB_empty", np.uint8(1)),
                         ("MATLAB_fields", np.bytes_("x")), ("Python.Type", np.bytes_("dict")), ("note", 1.5), ("Python.Empty", np.uint8(1)),
                         ("MATLAB_class", np.bytes_("cell")), ("MATLAB_object_decode", np.int32(1)), ("Python.numpy.Container", np.bytes_("matrix")),
                         ("Python.Fields", np.bytes_("x")), ("Python.dict.StoredAs", np.bytes_("keys_values")), ("H5PATH", np.bytes_("/q"))):
                o.attrs[x] = v
        if todo:
            return
        k = "group"
    if k == "twin":
        # the same shape and NumPy type, but another HDF5 type
        todo = [(n, f[n])] if n in f else []
        if todo and isinstance(f[n], h5py.Group):
            f[n].visititems(lambda x, o: todo.append((n + "/" + x, o)))
        todo = [(x, o.dtype, o.shape) for x, o in todo if isinstance(o, h5py.Dataset) and o.shape is not None]
        for x, dt, shape in todo:
            if dt.kind in "iu":
                new = h5py.enum_dtype({"A": 0, "B": 1}, basetype=dt)
            elif dt.kind == "S":
                new = h5py.string_dtype("utf-8", dt.itemsize)
            elif dt.kind == "O":
                new = h5py.regionref_dtype if len(shape) == 1 else h5py.string_dtype()
            else:
                continue
            a = dict(f[x].attrs)
            del f[x]
            f.create_dataset(x, shape, dtype=new)
            if len(n) % 2:
                f[x].attrs.update(a)
        if todo:
            return
        k = "enum"
    if n in f:
        del f[n]
    if k == "sparse":
        g = f.create_group(n)
        g["data"], g["ir"], g["jc"] = np.ones(2), np.arange(2, dtype="u8"), np.arange(3, dtype="u8")
        g.attrs["MATLAB_sparse"], g.attrs["MATLAB_class"] = np.uint64(3), np.bytes_("double")
    elif k == "resizable":
        f.create_dataset(n, data=np.ones((1, 3)), maxshape=(None, None))
        f[n].attrs["MATLAB_class"], f[n].attrs["MATLAB_global"] = np.bytes_("double"), np.int32(1)
    elif k == "null":
        f.create_dataset(n, data=h5py.Empty("f8"))
    elif k == "vlen":
        f.create_dataset(n, data=["text", "more"], dtype=h5py.string_dtype())
    elif k == "compound":
        f.create_dataset(n, data=np.zeros(2, dtype=[("r", "f8"), ("i", "f8")]))
    elif k == "group":
        g = f.create_group(n)
        g["zz9"], g["sub/x"] = 3, [1, 2]
        g.attrs["note"] = 1
    elif k == "enum":
        f.create_dataset(n, data=np.array([[True, False]]))
    elif k == "scalar":
        f[n] = 2.5
    elif k == "table":
        f.create_dataset(n, data=np.zeros((1, 1)), compression="gzip", shuffle=True, chunks=(1, 1), fletcher32=True)


def execute(w, t):
    import os
    import h5py
    import hdf5storage as hs
    w.seed_random(t["rnd"])
    p, q = w.p("f.mat"), w.p("fresh.mat")
    rnd = random.Random(t["rnd"])
    if t["noise"]:
        w.disk.rand = (rnd, .02, .05)
    model = {}      # name -> (kw, form in a new file, spec)
    spoilt = set()
    plainly = set()
    f = None
    kw = None
    nt = False

    def fresh(n, v, k, via):
        """The form that the value gets in a new file (None: it is not stored)."""
        was, w.disk.quiet = w.disk.quiet, True
        try:
            if os.path.exists(q):
                os.unlink(q)
            if via == "savemat":
                hs.savemat(q, {C.as_path(n): V.build(v)}, appendmat=False)
            else:
                with hs.File(q, writable=True, **k) as g:
                    g.write(V.build(v), C.as_path(n))
            with h5py.File(q, "r") as g:
                o = find(g, n)
                return None if o is None else form(g, o)
        finally:
            w.disk.quiet = was

    def note(n, v, k, via="write"):
        key = tuple(n)
        old = model.get(key)
        w.stats["probe.overwritten"] += old is not None
        w.stats["probe.after-plain"] += key in plainly
        w.stats["probe.discard"] += k.get("action_for_matlab_incompatible") == "discard" and V.mat_incompatible(v)
        w.state(old and old[2][0], v[0], sorted(k.items()))
        if not k.get("matlab_compatible"):
            spoilt.discard(key)
            plainly.add(key)
            model.pop(key, None)
            return old is not None
        fm = fresh(n, v, k, via)
        if fm is None:      # discarded as a whole: nothing is written
            return False
        spoilt.discard(key)
        plainly.discard(key)
        model[key] = (k, fm, v)
        return old is not None
    for i, op in enumerate(t["ops"]):
        k = op["op"]
        what = "op %d (%s)" % (i, k)
        if k in ("open", "savemat", "foreign") and f is not None:
            f.close()
            f = None
        try:
            if k == "open":
                kw = t["kws"][op["o"] % len(t["kws"])]
            if k == "savemat":
                if not C.acceptable({"matlab_compatible": True}, op["v"]):
                    op = dict(op, v=["int", "1"])
                hs.savemat(p, {C.as_path(op["n"]): V.build(op["v"])}, appendmat=False)
                nt |= note(op["n"], op["v"], {"matlab_compatible": True}, "savemat")
            elif k == "foreign":
                was, w.disk.quiet = w.disk.quiet, True
                with h5py.File(p, "a") as g:
                    plant(g, "/".join(op["n"]), op["k"])
                w.disk.quiet = was
                w.stats["probe.foreign"] += 1
                model.pop(tuple(op["n"]), None)
                plainly.add(tuple(op["n"]))
            if f is None:
                f = hs.File(p, writable=True, **kw)
            if k in ("write", "writes"):
                items = [x for x in (op["items"] if k == "writes" else [op]) if allowed(kw, x["v"])]
                if k == "write" and items:
                    f.write(V.build(op["v"]), C.as_path(op["n"]))
                elif items:
                    f.writes({C.as_path(x["n"]): V.build(x["v"]) for x in items})
                for x in items:
                    nt |= note(x["n"], x["v"], kw)
            elif k == "del":
                if C.as_path(op["n"]) in f:
                    del f[C.as_path(op["n"])]
                model.pop(tuple(op["n"]), None)
                spoilt.discard(tuple(op["n"]))
                plainly.discard(tuple(op["n"]))
            elif k == "fail":
                try:
                    f.write(V.build(op["v"]), C.as_path(op["n"]))
                except (OSError, KeyError):
                    raise
                except Exception:
                    w.stats["probe.refused"] += 1
                spoilt.add(tuple(op["n"]))
        except Violation:
            raise
        except Exception as e:
            raise Violation("refused", "%s raised %s: %.200s" % (what, C.exname(e), e))
        w.log(k, len(model))
        check(w, p, f, what, model, spoilt)
    f.close()
    check(w, p, None, "after the last close", model, spoilt)
    return {"nontrivial": nt}


def allowed(kw, v):
    if kw.get("matlab_compatible"):
        return not V.mat_incompatible(v) or kw.get("action_for_matlab_incompatible", "error") != "error"
    return C.acceptable(kw, v)


def find(g, n):
    o = g
    for part in n:
        o = o.get(part)
        if o is None:
            return None
    return o


def check(w, p, f, what, model, spoilt):
    import h5py
    was, w.disk.quiet = w.disk.quiet, True
    try:
        if f is not None:
            f.flush()
        with h5py.File(p, "r" if f is None else "r+") as g:
            for key, (k, fm, spec) in sorted(model.items()):
                if key in spoilt:
                    continue
                o = find(g, key)
                if o is None:
                    raise Violation("lost", "%s: %s is not in the file" % (what, key))
                d = diff(form(g, o), fm, "/".join(key))
                if d:
                    raise Violation("form-depends", "%s: the form of the value %.200s differs from the one in a new file at %s" % (what, spec, d))
                if k.get("action_for_matlab_incompatible") != "ignore" or not V.mat_incompatible(spec):
                    try:
                        rules(w, g, o, "/".join(key), "/#refs#", pairs_of(k))
                    except Violation as e:
                        raise Violation(e.cls, "%s: the value %.200s: %s" % (what, spec, e.msg))
            if "#refs#" in g and any(x[0].get("matlab_compatible") for x in model.values()):
                canonical(g, "/#refs#")
    finally:
        w.disk.quiet = was
