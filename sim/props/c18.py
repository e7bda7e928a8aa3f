"""C18 Stored bytes are data: reading never executes or imports from them."""
import os
import sys

from .. import sched
from .. import values as V
from ..world import Violation
from . import common as C

ID = "C18"
LEVEL = "exploration"
RULE = ("a run writes some variables and then damages or forges one of them: attributes (type names, field names, shapes, flags, any "
        "name) are replaced by hostile text, wrong types, huge numbers or references, added or deleted, members and elements are "
        "replaced, removed, linked to each other, to themselves or to nothing, stored values are replaced. Then everything is read in "
        "several ways with interrupted and short system calls. An audit hook reports what is executed, imported, opened and started, the "
        "simulated disk reports every modifying call, the library's lines are counted, and the other variables are compared exactly. "
        "Non-trivial: a read of the forged variable ended with an exception or another value than before")
RUNS = {"quick": 5000, "thorough": 150000}
STATE_RULE = "kinds of forgery, what they hit and how the read ended"
MUST_HIT = ("probe.raised", "probe.other-value", "probe.same-value", "probe.hostile-type", "probe.cycle", "probe.element", "probe.loadmat",
            "probe.values", "probe.payload", "probe.text")
ASSUMPTIONS = ["objects are forged as a whole, through h5py: damage that HDF5 itself cannot parse is outside", "memory is limited to 3 GB, "
               "so that requests for huge arrays fail", "importing scipy is what the library does with a file that is not HDF5"]
STUBS = []
LISTS = ("ops", "vars")
TYPES = ["dict", "collections.OrderedDict", "collections.Counter", "collections.ChainMap", "collections.deque", "list", "tuple", "set", "frozenset",
         "int", "long", "float", "complex", "bool", "str", "bytes", "bytearray", "slice", "range", "fractions.Fraction", "datetime.datetime",
         "datetime.timezone", "datetime.time", "datetime.date", "datetime.timedelta", "numpy.dtype", "numpy.ndarray", "numpy.matrix", "numpy.chararray",
         "numpy.recarray", "numpy.void", "numpy.object_", "numpy.str_", "numpy.bytes_", "numpy.float64", "numpy.bool_", "builtins.NoneType",
         "builtins.ellipsis", "builtins.NotImplementedType"]
EVIL = ["simevil", "simevil.run", "simevil.Thing", "os.system", "__import__('simevil').run()", "builtins.eval", "subprocess.Popen",
        "exec('import simevil')", "[__import__('simevil').run() for x in [1]]", "lambda: simevil", "numpy.lib.npyio.load", "pickle.loads", "cos\nsystem\n(S'x'\ntR.",
        "{}.__class__.__base__.__subclasses__()", "__main__.execute", "%(simevil)s", "{0.__class__}", "collections.abc.Mapping", "types.FunctionType",
        "ctypes.CDLL", "\x80\x04\x95", "os", "simevil:Thing", "..simevil", "(" * 300, "[" * 3000, "9" * 5000, "-" * 100000 + "1", "1" + "+1j" * 2000]
UNDER = ["object", "str32", "bytes8", "str0", "bytes0", "str99999999999", "bytes7", "str33", "void8", "void", "datetime64[s]", "float64", "int8", "O", "V8", "U3",
         "complex128", "[('a', 'O')]", "i4,O", "bool", "structured", "str-32", "record", "M8[ns]", "('O', 3)", "bytes", "str", "", "timedelta64", "longdouble"]
CLASSES = ["struct", "cell", "char", "logical", "double", "single", "canonical empty", "function_handle", "uint64", "int8", "sparse"]
ATTRS = ["Python.Type", "Python.Type", "Python.Shape", "Python.Empty", "Python.numpy.UnderlyingType", "Python.numpy.Container", "Python.Fields", "Python.dict.StoredAs",
         "Python.dict.keys_values_names", "Python.dict.key_str_types", "MATLAB_class", "MATLAB_empty", "MATLAB_fields", "MATLAB_int_decode", "H5PATH", "MATLAB_sparse", "x"]


def gen(rng, tier, index):
    g = V.Gen(rng, mat_ok=True, depth=rng.choice([1, 2, 2, 3]), big=.01)
    from .c05 import value

    def val():
        s = g.value()
        return s if not V.has_bad(s) and C.acceptable({"matlab_compatible": True}, s) and C.acceptable({"matlab_compatible": False}, s) else value(g)
    kw = C.gen_opts(rng, actions=False)
    if rng.random() < .15:
        kw["store_python_metadata"] = False
    vs = [val() for _ in range(rng.choice([2, 2, 3]))]

    def text():
        u = rng.random()
        return rng.choice(EVIL if u < .4 else TYPES if u < .8 else UNDER if u < .9 else CLASSES)

    def attr(a):
        u = rng.random()
        if rng.random() < .12:
            # what a name that is looked up could stand for
            e = rng.choice(["simevil", "simevil.run", "simevil.Thing", "simevil.Thing", "simevil.sub", "__import__('simevil').run()"])
            return rng.choice([["bytes", e], ["bytes", e], ["str", e], ["strs", [e]], ["strs", [e, "a"]], ["vlen", [e]]])
        if a == "Python.Type" and u < .75:
            return [rng.choice(["bytes", "bytes", "bytes", "str"]), rng.choice(TYPES) if rng.random() < .6 else rng.choice(EVIL)]
        if a == "Python.numpy.UnderlyingType" and u < .75:
            return ["bytes", rng.choice(UNDER)]
        if a == "MATLAB_class" and u < .7:
            return ["bytes", rng.choice(CLASSES)]
        if a == "Python.numpy.Container" and u < .7:
            return ["bytes", rng.choice(["scalar", "ndarray", "matrix", "chararray", "recarray", "simevil"])]
        if a == "Python.Shape" and u < .8:
            return ["ints", rng.choice([[], [0], [1], [2, 3], [0, 5], [10 ** 5], [2 ** 40], [2 ** 31, 2 ** 31], [2 ** 63], [1] * 33, [1] * 70, [3, 0, 2 ** 62]]),
                    rng.choice(["u8", "u8", "f8"])]
        if a in ("Python.Empty", "MATLAB_empty") and u < .7:
            return ["num", rng.choice([0, 1, 2, 255]), "u1"]
        if a in ("Python.Fields", "Python.dict.keys_values_names") and u < .8:
            return ["strs", rng.choice([[], ["a"], ["a", "a"], ["keys", "values"], ["a", "b", "c"], ["."], [".."], ["/"], ["../v0"], ["/v0"], ["\\x"], ["\\xzz"], ["simevil"],
                                        ["keys"], [""], ["x" * 70000], ["\\U00110000"], ["keys", "keys"], ["__class__"], ["microsecond"], ["a"] * 300])]
        if a == "Python.dict.StoredAs" and u < .7:
            return ["bytes", rng.choice(["individually", "keys_values", "simevil", ""])]
        if a == "Python.dict.key_str_types" and u < .8:
            return ["bytes", rng.choice(["", "t", "b", "N", "n", "bbbb", "tttttttt", "x", "\x01", "é"])]
        if a == "MATLAB_fields" and u < .8:
            return ["vlen", rng.choice([[], [""], ["a"], ["a", "a"], ["simevil", "a"], ["../v0"], ["start", "stop", "step"], ["numerator", "denominator"]])]
        return rng.choice([["bytes", text()], ["str", text()], ["num", rng.choice([-1, 0, 1, 2 ** 62]), "i8"], ["num", rng.choice([1.5, float("nan"), float("inf")]), "f8"],
                           ["ints", [rng.randrange(5) for _ in range(rng.randint(0, 4))], rng.choice(["i8", "u1", "f4", "c16", "bool"])],
                           ["strs", [text() for _ in range(rng.randint(0, 3))]], ["empty"], ["ref", rng.randrange(9)], ["null"], ["vlen", [text()]],
                           ["compound"], ["opaque", text()], ["big"], ["matrix"]])
    ops = []
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3, 5])):
        u = rng.random()
        i = rng.choice([0, 0, rng.randrange(30)])
        if u < .5:
            a = rng.choice(ATTRS)
            ops.append({"op": "attr", "i": i, "a": a, "v": attr(a)})
        elif u < .57:
            ops.append({"op": "delattr", "i": i, "a": rng.choice(ATTRS), "j": rng.randrange(9)})
        elif u < .8:
            k = rng.choice(["text", "text", "ints", "floats", "refs", "selfref", "null", "vlen", "compound", "opaque", "enum", "huge", "empty", "group", "region", "scalar", "nullref", "strs"])
            ops.append({"op": "value", "i": i, "k": k, "v": text() if k in ("text", "opaque", "strs", "vlen") else rng.randrange(9), "keep": rng.random() < .85})
        elif u < .88:
            ops.append({"op": "link", "i": i, "j": rng.choice([0, i, rng.randrange(30)]), "n": rng.choice(["a", "keys", "values", "zz", "start", "old"]), "k": rng.choice(["hard", "hard", "soft", "dangling", "external"])})
        elif u < .94:
            ops.append({"op": "remove", "i": i, "j": rng.randrange(5)})
        else:
            ops.append({"op": "retarget", "i": i, "j": rng.randrange(30), "n": rng.choice([1, 1, 99])})
    if rng.random() < .1:
        if rng.random() < .6:
            vs[0] = rng.choice([["dtype", "i4"], ["bytes", "abc"], ["str", "abcd"], vs[0]])
        ops.insert(0, {"op": "text", "i": rng.randrange(9), "v": rng.choice(EVIL) if rng.random() < .75 else text(), "t": rng.choice(["", "numpy.dtype", "numpy.dtype", rng.choice(TYPES)])})
    if rng.random() < .12:      # cycles and webs
        for _ in range(rng.choice([2, 3, 4])):
            ops.append({"op": "link", "i": rng.choice([0, 0, rng.randrange(6)]), "j": rng.choice([0, 0, rng.randrange(6)]), "n": rng.choice(["a", "b", "c", "d", "e"]), "k": "hard"})
        if rng.random() < .5:
            ops.append({"op": "attr", "i": 0, "a": "Python.Fields", "v": ["strs", ["a", "b", "c", "d", "e"]]})
        else:
            ops.append({"op": "delattr", "i": 0, "a": "Python.Type", "j": 0})
    return {"kw": kw, "vars": vs, "ops": ops, "ways": [rng.choice(["get", "read", "reads", "values", "items", "loadmat", "func", "get2", "again", "getd"]) for _ in range(rng.choice([1, 2, 3]))],
            "refs": rng.random() < .12, "noise": rng.random() < .2, "rnd": rng.getrandbits(16), "rkw": C.gen_opts(rng, actions=False) if rng.random() < .2 and kw["matlab_compatible"] else None}


def valid(t):
    return len(t["vars"]) >= 1 and t["ops"]


def shrink(t):
    if t["noise"]:
        yield dict(t, noise=False)
    if t["rkw"]:
        yield dict(t, rkw=None)
    if t["refs"]:
        yield dict(t, refs=False)
    for i in range(len(t["ways"])):
        if len(t["ways"]) > 1:
            yield dict(t, ways=t["ways"][:i] + t["ways"][i + 1:])
    for i, v in enumerate(t["vars"]):
        for s in V.simpler(v):
            yield dict(t, vars=t["vars"][:i] + [s] + t["vars"][i + 1:])
    for k in list(t["kw"]):
        if k != "matlab_compatible":
            yield dict(t, kw={a: b for a, b in t["kw"].items() if a != k})


# ------------------------------------------------------------- forging

def reach(f, o, out=None):
    """The objects a variable consists of."""
    import h5py
    import numpy as np
    out = [] if out is None else out
    if len(out) > 30 or any(o == x for x in out):
        return out
    out.append(o)
    if isinstance(o, h5py.Group):
        for k in o:
            x = None
            try:
                x = o.get(k)
            except Exception:
                pass
            if x is not None:
                reach(f, x, out)
    elif o.shape is not None and h5py.check_dtype(ref=o.dtype) is h5py.Reference and o.size < 1000:
        for r in np.ravel(o[()]):
            if r:
                try:
                    reach(f, f[r], out)
                except Exception:
                    pass
    return out


def hostile(f, objs, v):
    import h5py
    import numpy as np
    k = v[0]
    if k == "bytes":
        return np.bytes_(v[1].encode("utf-8")[:60000]), None
    if k == "str":
        return v[1][:30000].replace("\x00", "?"), None
    if k == "num":
        return np.dtype(v[2]).type(v[1]), None
    if k == "ints":
        return np.array(v[1], dtype=v[2]), None
    if k == "strs":
        return np.array([x[:9000] for x in v[1]], dtype=object), h5py.string_dtype()
    if k == "empty":
        return np.zeros((0, 3)), None
    if k == "ref":
        return objs[v[1] % len(objs)].ref, h5py.ref_dtype
    if k == "null":
        return h5py.Empty("f8"), None
    if k == "vlen":
        a = np.empty(len(v[1]), object)
        for i, s in enumerate(v[1]):
            a[i] = np.array([c.encode("ascii", "replace") for c in s[:4000]], dtype="S1")
        return a, h5py.vlen_dtype(np.dtype("S1"))
    if k == "compound":
        return np.zeros(2, dtype=[("real", "f8"), ("imag", "S3")]), None
    if k == "opaque":
        return np.void(v[1].encode("utf-8")[:1000] or b"x"), None
    if k == "big":
        return np.zeros(7000, "u8"), None
    return np.ones((2, 2)), None


def forge(w, f, op, name):
    import h5py
    import numpy as np
    objs = reach(f, f[name])
    o = objs[op["i"] % len(objs)]
    k = op["op"]
    if o.name is None:      # an element that is in no group
        return
    w.stats["probe.element"] += o.name.startswith("/#refs#/")
    if k == "attr":
        a, dt = hostile(f, objs, op["v"])
        if op["a"] in o.attrs:
            del o.attrs[op["a"]]
        if dt is None:
            o.attrs[op["a"]] = a
        else:
            o.attrs.create(op["a"], a, dtype=dt)
        w.stats["probe.hostile-type"] += op["a"] == "Python.Type"
        w.stats["probe.payload"] += len(op["v"]) > 1 and isinstance(op["v"][1], str) and op["v"][1] in EVIL
    elif k == "text":
        # Other text in the place of text, with all that describes it right.
        s = [x for x in objs if isinstance(x, h5py.Dataset) and x.shape is not None and x.name and
             (x.dtype.kind == "S" or x.dtype in (np.dtype("u2"), np.dtype("u4"), np.dtype("u1")))]
        if not s:
            return
        o = s[op["i"] % len(s)]
        under = o.attrs.get("Python.numpy.UnderlyingType")
        b = op["v"].encode("ascii", "replace").replace(b"\x00", b"?")[:6000] or b"x"
        at = {x: (y, o.attrs.get_id(x).dtype) for x, y in o.attrs.items()}
        n, sh, dt = o.name, o.shape, o.dtype
        for r in objs:      # an element can't get another dataset without its reference
            if isinstance(r, h5py.Dataset) and r.shape is not None and h5py.check_dtype(ref=r.dtype) is h5py.Reference:
                return
        del f[n]
        if dt.kind == "S":
            d = f.create_dataset(n, data=np.full(sh, b) if sh else np.bytes_(b))
        else:
            a = np.frombuffer(b, "u1").astype(dt)
            d = f.create_dataset(n, data=a.reshape((-1, 1) if len(sh) == 2 and sh[1] == 1 else (1, -1) if len(sh) == 2 else (-1,)))
        for x, (y, dt) in at.items():
            d.attrs.create(x, y, dtype=dt)
        if under is not None:
            u = bytes(under).decode()
            d.attrs["Python.numpy.UnderlyingType"] = np.bytes_("%s%d" % (u.rstrip("0123456789"), len(b) * (8 if u.startswith("bytes") else 32)))
        if op["t"]:
            d.attrs["Python.Type"] = np.bytes_(op["t"])
        w.stats["probe.payload"] += op["v"] in EVIL
        w.stats["probe.text"] += 1
    elif k == "delattr":
        names = sorted(o.attrs)
        a = op["a"] if op["a"] in o.attrs else names[op["j"] % len(names)] if names else None
        if a:
            del o.attrs[a]
    elif k == "value":
        at = {x: (y, o.attrs.get_id(x).dtype) for x, y in o.attrs.items()}
        n = o.name
        up, last = f[n.rsplit("/", 1)[0] or "/"], n.rsplit("/", 1)[1]
        if last not in up or not last:
            return
        full = [r for r in objs if isinstance(r, h5py.Dataset) and r.shape is not None and h5py.check_dtype(ref=r.dtype) is h5py.Reference and r != o and r.size]
        hit = [(r.name, i) for r in full for i, x in enumerate(np.ravel(r[()])) if x and f[x] == o]
        del up[last]
        v = op["v"]
        kind = op["k"]
        txt = v if isinstance(v, str) else "x"
        if kind == "text":
            d = up.create_dataset(last, data=np.array([[ord(c) & 0xffff for c in txt[:6000]]], dtype="u2").T)
        elif kind == "ints":
            d = up.create_dataset(last, data=np.arange(v, dtype=["i8", "u1", "u2", "u4", "i1"][v % 5]).reshape([[v], [v, 1], [1, v]][v % 3]))
        elif kind == "floats":
            d = up.create_dataset(last, data=np.full((1, v), [np.nan, np.inf, -1.5][v % 3]))
        elif kind in ("refs", "nullref", "region"):
            d = up.create_dataset(last, (1, v + 1), dtype=h5py.regionref_dtype if kind == "region" else h5py.ref_dtype)
            if kind == "refs":
                rest = [x for x in objs if x != o and x.name] or [f[name]] if last != name else []
                for i in range(v + 1):
                    if rest:
                        d[0, i] = rest[(i + v) % len(rest)].ref
        elif kind == "selfref":
            d = up.create_dataset(last, (v % 3 + 1,), dtype=h5py.ref_dtype)
            for i in range(v % 3 + 1):
                d[i] = d.ref
            w.stats["probe.cycle"] += 1
        elif kind == "null":
            d = up.create_dataset(last, data=h5py.Empty(["f8", "S5", "u2"][v % 3]))
        elif kind == "vlen":
            d = up.create_dataset(last, data=[txt[:3000].replace("\x00", "?"), "b"], dtype=h5py.string_dtype())
        elif kind == "compound":
            d = up.create_dataset(last, data=np.zeros((1, v), dtype=[("real", "f8"), ("imag", "f4"), ("o", h5py.ref_dtype)]))
        elif kind == "opaque":
            d = up.create_dataset(last, data=np.void(txt.encode("utf-8")[:1000] or b"x"))
        elif kind == "strs":
            d = up.create_dataset(last, data=np.array([[txt.encode("utf-8")[:3000] or b"x"]]))
        elif kind == "enum":
            d = up.create_dataset(last, data=np.array([[True, False]]))
        elif kind == "huge":
            d = up.create_dataset(last, shape=[(2 ** 40,), (2 ** 33, 4), (2 ** 50, 0)][v % 3], dtype="u1", chunks=(1024,) + (1,) * (v % 3 > 0))
        elif kind == "empty":
            d = up.create_dataset(last, data=np.zeros([(0,), (0, 3), (2, 0)][v % 3], dtype=["u8", "u2", "S1"][v % 3]))
        elif kind == "group":
            d = up.create_group(last)
            d["x"] = 3
        else:
            d = up.create_dataset(last, data=[3.5, 2 ** 40, True, np.bytes_(b"simevil")][v % 4])
        if op["keep"]:
            for x, (y, dt) in at.items():
                try:
                    d.attrs.create(x, y, dtype=dt)
                except Exception:
                    pass
        for r, i in hit:
            a = f[r][()]
            if isinstance(a, np.ndarray):
                a.flat[i] = d.ref
            else:
                a = d.ref
            f[r][()] = a
        w.stats["probe.payload"] += txt in EVIL
    elif k == "link":
        if not isinstance(o, h5py.Group):
            gs = [x for x in objs if isinstance(x, h5py.Group)]
            if not gs:
                return
            o = gs[op["i"] % len(gs)]
        x = objs[op["j"] % len(objs)]
        if x.name is None or o.name is None:
            return
        n = op["n"] if op["n"] != "old" or not len(o) else sorted(o)[0]
        if n in o or o.get(n, getlink=True, default=None) is not None:
            if x.name.startswith(o.name.rstrip("/") + "/" + n):
                return
            del o[n]
        if op["k"] == "hard":
            o[n] = x
            w.stats["probe.cycle"] += o.name.startswith(x.name)
        elif op["k"] == "soft":
            o[n] = h5py.SoftLink(x.name)
        elif op["k"] == "dangling":
            o[n] = h5py.SoftLink("/nowhere")
        else:
            o[n] = h5py.ExternalLink("other.h5", "/x")
    elif k == "remove":
        if isinstance(o, h5py.Group) and len(o):
            del o[sorted(o)[op["j"] % len(o)]]
        elif o.name.startswith("/#refs#/") and o.name != "/#refs#/a":
            del f[o.name]
    elif k == "retarget":
        rs = [x for x in objs if isinstance(x, h5py.Dataset) and x.shape is not None and h5py.check_dtype(ref=x.dtype) is h5py.Reference and x.size]
        if rs:
            d = rs[op["i"] % len(rs)]
            a = d[()]
            flat = a if not d.shape else a.reshape(-1)
            if d.shape:
                for i in range(min(op["n"], flat.size)):
                    flat[i] = objs[(op["j"] + i) % len(objs)].ref
                d[...] = flat.reshape(d.shape)
                w.stats["probe.cycle"] += 1


def forged(w, p, t):
    """Forges in a process of its own, as HDF5 can die of what it is made to do."""
    import h5py
    import json
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        ok = False
        try:
            os.close(r)
            os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
            before = dict(w.stats)
            log = []
            with h5py.File(p, "r+") as f:
                for op in t["ops"]:
                    try:
                        forge(w, f, op, "v0")
                    except (KeyError, ValueError, OSError, RuntimeError, TypeError, MemoryError) as e:   # HDF5 refuses this one
                        log.append(C.exname(e))
                    if "v0" not in f:
                        f["v0"] = 1
                if t["refs"]:       # a foreign mark on all of the elements' group
                    try:
                        f.require_group("#refs#").attrs["Python.Type"] = "simevil.Thing"
                    except OSError:
                        pass
            os.write(wr, json.dumps([{k: n - before.get(k, 0) for k, n in w.stats.items() if n != before.get(k, 0)}, log]).encode())
            ok = True
        finally:
            os._exit(0 if ok else 1)
    os.close(wr)
    out = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        out += b
    os.close(r)
    if os.waitpid(pid, 0)[1]:
        return False
    stats, log = json.loads(out)
    for k, n in stats.items():
        w.stats[k] += n
    for x in log:
        w.log("refused", x)
    return True


# --------------------------------------------------------------- the watch

class Watch:
    """The audit hook: what code runs, is imported or has effects."""
    BAD = ("os.", "subprocess.", "socket.", "pty.", "ctypes.", "pickle.", "shutil.", "tempfile.", "urllib.", "webbrowser.", "code.", "cpython.run", "ftplib.",
           "smtplib.", "sqlite3.", "syslog.", "signal.", "mmap.", "msvcrt.", "builtins.input", "builtins.breakpoint", "sys.addaudithook", "setopencodehook", "fcntl.",
           "glob.", "http.", "imaplib.", "resource.setrlimit", "marshal.loads", "marshal.dumps")
    FINE = ("os.listdir", "os.scandir", "os.fspath", "os.walk", "os.stat", "os.getxattr", "os.listxattr", "os.fwalk")
    TOPS = ("encodings", "numpy", "h5py", "hdf5storage", "scipy", "_codecs")

    def __init__(self):
        self.on = False
        self.seen = None
        self.importing = 0
        self.learn = False
        self.known = set()
        sys.addaudithook(self.hook)

    def hook(self, event, args):
        if not self.on:
            return
        msg = None
        if event == "import":
            top = args[0].split(".")[0]
            if self.learn:
                self.known.add(args[0])
            elif top not in self.TOPS and args[0] not in self.known and args[0] not in sys.modules:
                msg = "imported %s" % args[0]
        elif event == "exec":
            code = args[0]
            fn = getattr(code, "co_filename", "?")
            if self.learn:
                self.known.add(fn)
            elif fn not in self.known and not any("/%s/" % x in fn for x in self.TOPS) and not fn.startswith("<frozen"):
                msg = "executed code from %r" % (fn,)
        elif event == "open":
            path, mode, flags = args
            if (isinstance(mode, str) and set(mode) & set("wax+")) or (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)):
                msg = "opened %r for writing" % (path,)
        elif event.startswith(self.BAD) and event not in self.FINE:
            if event == "marshal.loads":      # what the import of a module does
                return
            msg = "did %s%r" % (event, args)
        if msg and self.seen is None:
            self.seen = msg[:300]


def execute(w, t):
    import resource
    import warnings
    import h5py
    import hdf5storage as hs

    warnings.simplefilter("ignore")
    lim = 3 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    w.seed_random(t["rnd"])
    kw = t["kw"]
    rkw = t["rkw"] or kw
    p = w.p("f.mat")
    w.disk.quiet = True
    with open(w.p("simevil.py"), "w") as f:
        f.write("import builtins\nbuiltins.SIMEVIL = True\ndef run(*a):\n    builtins.SIMEVIL = True\nclass Thing:\n    pass\n")
    sys.path.insert(0, w.root)
    names = ["v%d" % i for i in range(len(t["vars"]))]
    specs = dict(zip(names, t["vars"]))
    with hs.File(p, writable=True, **kw) as f:
        for n in names:
            f[n] = V.build(specs[n])
    with h5py.File(w.p("other.h5"), "w") as f:
        f["x"] = [1., 2.]
    watch = Watch()
    before = {}
    budget = sched.Budget(20_000_000)
    with budget:
        watch.on = watch.learn = True
        with hs.File(p, **rkw) as f:
            for n in names:
                before[n] = outcome(lambda: f[n])
        watch.on = watch.learn = False
    lines = budget.n
    if not forged(w, p, t):
        w.log("impossible")
        return {"nontrivial": False}
    other = {}
    w.disk.quiet = False
    w.disk.writes_forbidden = True
    import random
    if t["noise"]:
        w.disk.rand = (random.Random(t["rnd"]), .02, .05)
    nt = False
    f = None
    for way in t["ways"]:
        res = {}
        if f is None:
            f = hs.File(p, **rkw)

        def go():
            if way in ("get", "again"):
                return f["v0"]
            if way == "get2":
                try:
                    f["v0"]
                except Exception:
                    pass
                return f.get("v0")
            if way == "getd":
                return f.get("v0", 3)
            if way == "read":
                return f.read("/v0")
            if way == "reads":
                return f.reads(names)[0]
            if way == "values":
                w.stats["probe.values"] += 1
                r = list(f.values())
                res.update(zip(list(f), r))
                return r[0]
            if way == "items":
                res.update(f.items())
                return res["v0"]
            if way == "loadmat":
                w.stats["probe.loadmat"] += 1
                r = hs.loadmat(p, appendmat=False, options=hs.Options(**rkw), variable_names=names)
                res.update((k, r[k]) for k in r)
                return r["v0"]
            return hs.read(path="/v0", filename=p, **rkw)
        limit = 300 * lines + 1_000_000
        b = sched.Budget(limit)
        try:
            with b:
                watch.on = True
                try:
                    got = outcome(go)
                finally:
                    watch.on = False
        except sched.StepLimit:
            raise Violation("no-end", "%s: reading the forged variable took more than %d lines of the library (%d for the original)" % (way, limit, lines))
        audit(w, watch, way)
        same = equal(got, before["v0"])
        w.stats["probe.raised" if got[0] == "raised" else "probe.same-value" if same else "probe.other-value"] += 1
        w.state(tuple((o["op"], o.get("a"), o.get("k"), str(o.get("v"))[:60]) for o in t["ops"][:2]), got[0], got[1] if got[0] == "raised" else type(got[1]).__name__)
        w.log(way, got[0], got[1] if got[0] == "raised" else type(got[1]).__name__)
        nt |= not same
        # the others
        for n, v in res.items():
            if n in before and n != "v0":
                other.setdefault(n, []).append(("value", v))
        for n in names[1:]:
            watch.on = True
            x = outcome(lambda: f[n])
            watch.on = False
            other.setdefault(n, []).append(x)
        for n in names[1:]:
            for x in other.pop(n):
                if not equal(x, before[n]):
                    raise Violation("other-changed", "%s: the untouched %s is read as %.200r instead of %.200r" % (way, specs[n], x, before[n]))
        audit(w, watch, way)
        if way == "again":
            f.close()
            f = None
    if f is not None:
        f.close()
    if w.disk.forbidden_seen:
        raise Violation("wrote", "reading changed files: %s" % w.disk.forbidden_seen[:3])
    return {"nontrivial": nt}


def audit(w, watch, way):
    import builtins
    if watch.seen:
        raise Violation("executed", "%s: reading %s" % (way, watch.seen))
    if getattr(builtins, "SIMEVIL", False) or "simevil" in sys.modules:
        raise Violation("executed", "%s: reading ran code of a module that the file names" % way)


def outcome(fn):
    try:
        return ("value", fn())
    except Exception as e:
        return ("raised", C.exname(e))


def equal(a, b):
    if a[0] != b[0]:
        return False
    try:
        return a[1] == b[1] if a[0] == "raised" else V.same(a[1], b[1])
    except Exception:       # what a forgery made cannot even be compared
        return False
