"""Values: JSON specs, construction, generation, exact comparison, shrinking.

A spec is a JSON list [kind, ...].  build(spec) makes the Python value; the
same spec always makes an equal value, so specs are what replay files hold.
"""
import collections
import datetime
import fractions
import random
import struct as _struct

import numpy as np

NUM_DTYPES = ["bool", "u1", "u2", "u4", "u8", "i1", "i2", "i4", "i8", "f4", "f8", "c8", "c16"]
NONMAT_DTYPES = ["f2"]
NUMPY_KINDS = ("num", "arr", "objarr", "struct", "ostruct", "npstr", "npbytes", "dtype")


# ---------------------------------------------------------------- building

def _edge(dt, r):
    k = dt.kind
    if k == "b":
        return bool(r.getrandbits(1))
    if k in "iu":
        ii = np.iinfo(dt)
        return r.choice([0, 1, ii.max, ii.min, ii.max - 1, r.randint(ii.min, ii.max),
                         r.randint(max(ii.min, -3), 3)])
    if k == "f":
        return r.choice([0.0, -0.0, 1.0, float("inf"), float("-inf"), float("nan"),
                         r.uniform(-1e4, 1e4), r.uniform(-1, 1), float(np.finfo(dt).tiny),
                         float(np.finfo(dt).max), r.randint(-9, 9) * 1.0])
    if k == "c":
        f = np.dtype("f%d" % (dt.itemsize // 2))
        return complex(_edge(f, r), _edge(f, r))
    if k == "S":
        n = dt.itemsize
        m = r.choice([n, n, r.randint(0, n)])
        return bytes(r.choice(b"abcxyz 09\x7f\x01\xe9\xff" if r.random() < .3 else b"abcxyz 09") for _ in range(m))
    if k == "U":
        n = dt.itemsize // 4
        m = r.choice([n, n, r.randint(0, n)])
        al = "abcxyz 09" if r.random() < .6 else "abé世\U0001F600z\u2028"
        return "".join(r.choice(al) for _ in range(m))
    raise ValueError(dt)


NEAR = 1 << 40


def _near(a, how):
    """The same but for the sign of the zeros (1) or one element (2 and up)."""
    shape, a = a.shape, a.reshape(-1).copy()
    k = a.dtype.kind
    if k in "fc" and how == 1 and (a == 0).any():
        for x in ((a,) if k == "f" else (a.real, a.imag)):
            x[x == 0] = -x[x == 0]
    elif a.size:
        i = (how * 7919) % a.size
        if k in "SU":
            n = a.dtype.itemsize // (4 if k == "U" else 1)
            c = "y" if k == "U" else b"y"
            a[i] = (a[i][:-1] + c if len(a[i]) == n else a[i] + c) if n else a[i]
        else:
            a[i] = a[i] == 0
    return a.reshape(shape)


def _fill(dtstr, shape, seed):
    """A deterministic array of a plain dtype."""
    if seed >= NEAR:
        return _near(_fill(dtstr, shape, seed % NEAR), seed // NEAR)
    dt = np.dtype(dtstr)
    r = random.Random("fill-%s-%s-%s" % (dtstr, shape, seed))
    n = int(np.prod(shape)) if len(shape) else 1
    a = np.zeros(n, dtype=dt)
    if n > 512:
        # compressible or random bulk, with edges sprinkled in
        if dt.kind in "iuf" and r.random() < .5:
            g = np.random.RandomState(seed & 0x7fffffff)
            a = (g.random_sample(n) * 100).astype(dt)
        for _ in range(16):
            a[r.randrange(n)] = _edge(dt, r)
    else:
        for i in range(n):
            with np.errstate(all="ignore"):
                a[i] = _edge(dt, r)
    return a.reshape(shape)


def _mkdtype(fields):
    out = []
    for f in fields:
        name, d = f[0], f[1]
        if isinstance(d, list):
            d = _mkdtype(d)
        out.append((name, d, tuple(f[2])) if len(f) > 2 else (name, d))
    return np.dtype(out)


def _fill_struct(dt, shape, r, narrow=False):
    a = np.zeros(shape, dtype=dt)
    for name in dt.names:
        fdt = dt[name]
        base, sub = (fdt.subdtype if fdt.subdtype else (fdt, ()))
        if base.names:
            a[name] = _fill_struct(base, tuple(shape) + tuple(sub), r, narrow)
        elif base.kind in "SU":
            full = base.itemsize // (4 if base.kind == "U" else 1)
            x = np.zeros(int(np.prod(tuple(shape) + tuple(sub))), base)
            for i in range(x.size):
                w = r.randint(0, full) if narrow == "mix" else 1 if narrow else full
                t = "".join(r.choice("abcxyz09") for _ in range(w))
                x[i] = t if base.kind == "U" else t.encode()
            a[name] = x.reshape(tuple(shape) + tuple(sub))
        else:
            a[name] = _fill(base.str, tuple(shape) + tuple(sub), r.getrandbits(30))
    return a


def _arr_layout(a, order):
    if order == "F":
        return np.asfortranarray(a)
    if order == "T":
        return np.ascontiguousarray(a.T).T
    if order == "N" and a.ndim >= 1:                          # negative stride
        return np.ascontiguousarray(a[::-1])[::-1]
    if order == "W":                                          # read-only
        a = a.copy()
        a.flags.writeable = False
        return a
    if order == "B" and a.size:                               # broadcast
        return np.broadcast_to(a.reshape(-1)[:1].reshape((1,) * a.ndim).copy(), a.shape)
    if order == "S" and a.ndim >= 1 and a.shape[-1] >= 1:   # strided view
        b = np.zeros(a.shape[:-1] + (a.shape[-1] * 2,), a.dtype)
        b[..., ::2] = a
        return b[..., ::2]
    return a


def build(s):
    k = s[0]
    if k == "none":
        return None
    if k == "ellipsis":
        return ...
    if k == "notimpl":
        return NotImplemented
    if k == "bool":
        return bool(s[1])
    if k == "int":
        return int(s[1])
    if k == "float":
        return float.fromhex(s[1])
    if k == "complex":
        return complex(float.fromhex(s[1]), float.fromhex(s[2]))
    if k == "str":
        return s[1]
    if k == "bytes":
        return s[1].encode("latin-1")
    if k == "bytearray":
        return bytearray(s[1].encode("latin-1"))
    if k == "npstr":
        return np.str_(s[1])
    if k == "npbytes":
        return np.bytes_(s[1].encode("latin-1"))
    if k == "num":                       # numpy scalar [num, dtype, seed]
        return _fill(s[1], (1,), s[2])[0]
    if k == "full":                      # [full, dtype, shape, number]
        return np.full(tuple(s[2]), s[3], dtype=s[1])
    if k == "arr":                       # [arr, dtype, shape, seed, order, container]
        a = _arr_layout(_fill(s[1], tuple(s[2]), s[3]), s[4])
        c = s[5]
        if c == "matrix":
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return np.asmatrix(a)
        if c == "chararray":
            return a.view(np.chararray)
        return a
    if k == "objarr":                    # [objarr, shape, [specs]]
        a = np.empty(tuple(s[1]), dtype=object)
        f = a.reshape(-1)
        for i, x in enumerate(s[2]):
            f[i] = build(x)
        return a
    if k == "struct":                    # [struct, fields, shape, seed, container]
        a = _fill_struct(_mkdtype(s[1]), tuple(s[2]), random.Random("st-%s" % s[3]), len(s) > 5 and s[5])
        if s[4] == "recarray":
            return a.view(np.recarray)
        if s[4] == "void":
            return a.reshape(-1)[0]
        return a
    if k == "ostruct":                   # struct array with object fields [ostruct, names, shape, [[specs]..]]
        names = s[1]
        a = np.zeros(tuple(s[2]), dtype=[(n, object) for n in names])
        f = a.reshape(-1)
        for i, row in enumerate(s[3]):
            f[i] = tuple(build(x) for x in row)
        return a
    if k == "dtype":
        d = s[1]
        return _mkdtype(d) if isinstance(d, list) else np.dtype(d)
    if k in ("list", "tuple", "set", "frozenset", "deque"):
        v = [build(x) for x in s[1]]
        return {"list": list, "tuple": tuple, "set": set, "frozenset": frozenset,
                "deque": collections.deque}[k](v)
    if k in ("dict", "odict", "counter"):
        items = [(build(a), build(b)) for a, b in s[1]]
        if k == "counter":
            c = collections.Counter()
            for a, b in items:
                c[a] = b
            return c
        return (dict if k == "dict" else collections.OrderedDict)(items)
    if k == "chainmap":
        return collections.ChainMap(*[build(x) for x in s[1]])
    if k == "slice":
        return slice(*[build(x) for x in s[1:4]])
    if k == "range":
        return range(s[1], s[2], s[3])
    if k == "date":
        return datetime.date(*s[1:4])
    if k == "time":
        return datetime.time(*s[1:5], tzinfo=None if s[5] is None else build(s[5]))
    if k == "datetime":
        return datetime.datetime(*s[1:8], tzinfo=None if s[8] is None else build(s[8]))
    if k == "timedelta":
        return datetime.timedelta(*s[1:4])
    if k == "timezone":
        off = datetime.timedelta(0, *s[1:3])
        return datetime.timezone(off) if s[3] is None else datetime.timezone(off, s[3])
    if k == "fraction":
        return fractions.Fraction(int(s[1]), int(s[2]))
    # values that must be refused
    if k == "bad":
        return Unsupported()
    if k == "badsub":
        return ListSub([1, 2])
    raise ValueError("spec %r" % (s,))


class Unsupported:
    def __repr__(self):
        return "<Unsupported>"

    def __eq__(self, o):
        return type(o) is Unsupported

    def __hash__(self):
        return 7


class ListSub(list):
    pass


# ---------------------------------------------------------------- comparing

def _fbits(x):
    return "nan" if x != x else _struct.pack("<d", x)


def _ndt(dt):
    return dt.newbyteorder("=")


# Whether what is compared may have been stored as a struct: then the known
# findings on structured arrays apply (KF1 empty ones lose their field types,
# KF2 string fields shrink, KF3 object fields of like NumPy values become
# typed).  None: no exception at all.
AS_STRUCT = True


def looks_complex(dt):
    """Such structured arrays are stored as structs even plainly."""
    if dt.subdtype:
        return looks_complex(dt.subdtype[0])
    if not dt.names:
        return False
    f = [dt[n] for n in dt.names]
    return dt.names == ("r", "i") and f[0] == f[1] and f[0].kind == "f" or any(looks_complex(x) for x in f)


def _finding(a, b, top=True):
    """Whether the structured array b differs from a in type only, as the
    known findings say: then with equal content."""
    if AS_STRUCT is None or not isinstance(a, (np.ndarray, np.void)) or not a.dtype.names or a.dtype.names != b.dtype.names:
        return False
    if top and not AS_STRUCT and not a.dtype.hasobject and not looks_complex(a.dtype):
        return False
    x, y = np.asarray(a), np.asarray(b)
    if x.shape != y.shape or x.dtype.itemsize == 0:
        return False
    if x.size == 0:
        return all(y.dtype[n] == object for n in y.dtype.names)
    for n in x.dtype.names:
        dx, dy, p, q = x.dtype[n], y.dtype[n], x[n], y[n]
        if _ndt(dx) == _ndt(dy):
            if not same(np.asarray(p), np.asarray(q)):
                return False
        elif dx.kind in "SU" and dy.kind == dx.kind:
            w = max(1, max(len(z) for z in p.ravel()))
            if dy.itemsize != w * (4 if dx.kind == "U" else 1) or not np.array_equal(p, q):
                return False
        elif dx.kind in "SU" and dy == object:
            if len({len(z) for z in p.ravel()}) < 2 or not all(same(i, j) for i, j in zip(p.ravel(), q.ravel())):
                return False
        elif dx == object:
            sub = dy.shape
            for i, j in zip(p.ravel(), q.reshape((p.size,) + sub)):
                if not isinstance(i, (np.ndarray, np.generic)) or i.shape != sub or not same(np.array(i, subok=False), np.array(j, dy.base)):
                    return False
        elif dx.base.names and dy == object:
            for i, j in zip(p.reshape((x.size,) + dx.shape), q.ravel()):
                if not (_finding(i, j, False) or same(np.asarray(i), np.asarray(j))):
                    return False
        elif dx.base.names and dx.shape == dy.shape:
            if not (_finding(p, q, False) or same(p, q)):
                return False
        else:
            return False
    return True


def same(a, b, why=None, path="", approx=False):
    """Exact equality of type and content.  approx=True allows b (the value
    read) to lack entries of mappings."""
    def no(msg):
        if why is not None and not why:
            why.append("%s: %s" % (path or ".", msg))
        return False
    if type(a) is not type(b):
        return no("type %s != %s (%.80r vs %.80r)" % (type(a).__name__, type(b).__name__, a, b))
    if a is None or a is ... or a is NotImplemented:
        return a is b or no("singleton")
    if isinstance(a, np.ndarray) or isinstance(a, np.generic):
        if isinstance(a, (np.str_, np.bytes_)):
            return a == b or no("%.80r != %.80r" % (a, b))
        if _ndt(a.dtype) != _ndt(b.dtype):
            if _finding(a, b):
                return True
            return no("dtype %s != %s" % (a.dtype, b.dtype))
        if a.shape != b.shape:
            return no("shape %s != %s" % (a.shape, b.shape))
        if a.dtype.names:
            for n in a.dtype.names:
                x, y = np.asarray(a[n]), np.asarray(b[n])
                if a.dtype[n] == object and not isinstance(a, np.ndarray):
                    x, y = np.empty((), object), np.empty((), object)
                    x[()], y[()] = a[n], b[n]
                if not same(x, y, why, path + "." + n, approx):
                    return no("field " + n)
            return True
        if a.dtype == object:
            for i, (x, y) in enumerate(zip(a.ravel(), b.ravel())):
                if not same(x, y, why, "%s[%d]" % (path, i), approx):
                    return False
            return True
        x, y = np.asarray(a), np.asarray(b)
        x, y = x.astype(_ndt(x.dtype)), y.astype(_ndt(y.dtype))
        if x.tobytes() == y.tobytes():
            return True
        if x.dtype.kind in "fc":
            v = "f%d" % (x.dtype.itemsize // (2 if x.dtype.kind == "c" else 1))
            x, y = np.ascontiguousarray(x).reshape(-1).view(v), np.ascontiguousarray(y).reshape(-1).view(v)
            n = np.isnan(x)
            if np.array_equal(n, np.isnan(y)) and x[~n].tobytes() == y[~n].tobytes():
                return True
        return no("array content %.120r != %.120r" % (a, b))
    if isinstance(a, np.dtype):
        return (a == b and a.names == b.names) or no("dtype %s != %s" % (a, b))
    if isinstance(a, bool) or isinstance(a, (int, str, bytes, bytearray)):
        return a == b or no("%.80r != %.80r" % (a, b))
    if isinstance(a, float):
        return _fbits(a) == _fbits(b) or no("%r != %r" % (a, b))
    if isinstance(a, complex):
        return (_fbits(a.real), _fbits(a.imag)) == (_fbits(b.real), _fbits(b.imag)) or no("%r != %r" % (a, b))
    if isinstance(a, collections.ChainMap):
        return same(a.maps, b.maps, why, path + ".maps", approx)
    if isinstance(a, dict):
        ka, kb = list(a), list(b)
        if approx:
            kk = {(type(k), k) for k in map(_hashkey, ka)}
            for k in kb:
                hk = _hashkey(k)
                if (type(hk), hk) not in kk:
                    return no("extra key %.60r" % (k,))
            m = {(type(_hashkey(k)), _hashkey(k)): v for k, v in a.items()}
            for k, v in b.items():
                hk = _hashkey(k)
                if not same(m[(type(hk), hk)], v, why, "%s[%.30r]" % (path, k), approx):
                    return False
            return True
        if len(ka) != len(kb):
            return no("keys %.120r != %.120r" % (ka, kb))
        for x, y in zip(ka, kb):
            if not same(x, y, why, path + ".key"):
                return False
        for x, y, k in zip(a.values(), b.values(), ka):
            if not same(x, y, why, "%s[%.30r]" % (path, k), approx):
                return False
        return True
    if isinstance(a, (list, tuple, collections.deque)):
        if len(a) != len(b):
            return no("length %d != %d" % (len(a), len(b)))
        for i, (x, y) in enumerate(zip(a, b)):
            if not same(x, y, why, "%s[%d]" % (path, i), approx):
                return False
        return True
    if isinstance(a, (set, frozenset)):
        x = sorted(a, key=_setkey)
        y = sorted(b, key=_setkey)
        if len(x) != len(y):
            return no("set %.100r != %.100r" % (a, b))
        for p, q in zip(x, y):
            if not same(p, q, why, path + "{}", approx):
                return False
        return True
    if isinstance(a, slice):
        return same([a.start, a.stop, a.step], [b.start, b.stop, b.step], why, path + ".slice", approx)
    if isinstance(a, range):
        return (a.start, a.stop, a.step) == (b.start, b.stop, b.step) or no("%r != %r" % (a, b))
    if isinstance(a, datetime.timezone):
        return a.__reduce__()[1] == b.__reduce__()[1] or no("%r != %r" % (a, b))
    if isinstance(a, (datetime.time, datetime.datetime)):
        if a.replace(tzinfo=None) != b.replace(tzinfo=None):
            return no("%r != %r" % (a, b))
        return same(a.tzinfo, b.tzinfo, why, path + ".tz")
    return a == b or no("%.80r != %.80r" % (a, b))


def _hashkey(k):
    try:
        hash(k)
        return k
    except TypeError:
        return repr(k)


def _setkey(x):
    return (type(x).__name__, repr(x))


def clone_check(spec):
    """Returns (value, checker): checker(value) tells whether the caller's
    object is still what the spec says."""
    return build(spec)


# ---------------------------------------------------------------- predicates

def walk(s):
    """All sub-specs, s included."""
    yield s
    k = s[0]
    if k in ("list", "tuple", "set", "frozenset", "deque", "chainmap"):
        for x in s[1]:
            yield from walk(x)
    elif k in ("dict", "odict", "counter"):
        for a, b in s[1]:
            yield from walk(a)
            yield from walk(b)
    elif k == "objarr":
        for x in s[2]:
            yield from walk(x)
    elif k == "ostruct":
        for row in s[3]:
            for x in row:
                yield from walk(x)
    elif k == "slice":
        for x in s[1:4]:
            yield from walk(x)
    elif k in ("time", "datetime"):
        if s[-1] is not None:
            yield s[-1]


def has_bad(s):
    return any(x[0] in ("bad", "badsub") for x in walk(s))


def mat_incompatible(s):
    """Contains something MATLAB cannot hold (refused with action 'error')."""
    return any(x[0] in ("num", "arr") and x[1].lstrip("<>=|") in NONMAT_DTYPES or
               x[0] == "struct" and 0 not in x[2] and any(f in NONMAT_DTYPES for f in field_types(x[1])) for x in walk(s))


def field_types(fields):
    for f in fields:
        if isinstance(f[1], list):
            yield from field_types(f[1])
        else:
            yield f[1]


def size(s):
    return sum(1 for _ in walk(s))


def implant(r, s, x):
    """s with a part replaced by x (the whole, if it has no parts)."""
    k = s[0]
    if k in ("list", "tuple", "deque", "chainmap") and s[1] and k != "chainmap":
        l = list(s[1])
        i = r.randrange(len(l))
        l[i] = implant(r, l[i], x) if r.random() < .5 else x
        return [k, l] + list(s[2:])
    if k in ("dict", "odict") and s[1]:
        l = list(s[1])
        i = r.randrange(len(l))
        l[i] = [l[i][0], implant(r, l[i][1], x) if r.random() < .5 else x]
        return [k, l] + list(s[2:])
    if k == "objarr" and s[2]:
        l = list(s[2])
        i = r.randrange(len(l))
        l[i] = implant(r, l[i], x) if r.random() < .5 else x
        return [k, s[1], l] + list(s[3:])
    if k == "struct" and s[1] and x[0] == "num":
        l = list(s[1])
        i = r.randrange(len(l))
        l[i] = [l[i][0], x[1]] + list(l[i][2:])
        return [k, l] + list(s[2:])
    return x


# ------------------------------------------------------------------ varying

def alike(r, s):
    """A value of another kind that may be stored as an array of the same type
    and shape, so that only attributes tell them apart."""
    k = s[0]
    seed = r.getrandbits(30)

    def word(n):
        return "".join(r.choice("abcxyz") for _ in range(n))
    if k in ("none", "str", "bytes", "bytearray", "npstr", "npbytes") and (k == "none" or not s[1]):
        return r.choice([["none"], ["str", ""], ["bytes", ""], ["bytearray", ""], ["npstr", ""], ["npbytes", ""], ["list", []],
                         ["arr", "f8", [0], seed, "C", "ndarray"], ["arr", "u2", [0, 0], seed, "C", "ndarray"],
                         ["arr", "U1", [0], seed, "C", "ndarray"], ["arr", "S1", [0], seed, "C", "ndarray"]])
    if k == "arr" and 0 in s[2] and s[5] == "ndarray":
        if len(s[2]) == 1 and r.random() < .2:
            return r.choice([["none"], ["str", ""], ["bytes", ""], ["list", []]])
        return ["arr", r.choice(NUM_DTYPES if r.random() < .4 else ["S1", "S3", "U1", "U3", "bool", "u2"]), s[2], seed, "C", "ndarray"]
    if k == "arr" and s[5] == "ndarray":
        n = s[2][-1] if s[2] else 1
        if s[1] in ("bool", "u1"):
            return ["arr", {"bool": "u1", "u1": "bool"}[s[1]], s[2], seed, "C", "ndarray"]
        if s[1] in ("u2", "u4") and n and s[2] in ([n], [1, n]):
            return r.choice([["str", word(n)], ["bytes", word(n)], ["npstr", word(n)], ["arr", "U%d" % n, [1], seed, "C", "ndarray"],
                             ["arr", "S%d" % n, [1], seed, "C", "ndarray"]])
        if s[1][0] in "SU":
            return r.choice([["arr", r.choice("SU") + s[1][1:], s[2], seed, "C", "ndarray"],
                             ["arr", r.choice(["u2", "u4", "u1"]), list(s[2][:-1]) + [n * int(s[1][1:])], seed, "C", "ndarray"]])
        if s[2] in ([], [1], [1, 1]) and s[1] in ("i8", "f8", "c16"):
            return {"i8": ["int", str(r.randint(-9, 9))], "f8": ["float", (1.5).hex()], "c16": ["complex", (1.5).hex(), (0.0).hex()]}[s[1]]
    if k in ("str", "bytes", "npstr", "npbytes", "bytearray"):
        n = len(s[1])
        return r.choice([["str", word(n)], ["bytes", word(n)], ["bytearray", word(n)], ["npstr", word(n)], ["npbytes", word(n)],
                         ["arr", "u2", [1, n], seed, "C", "ndarray"], ["arr", "u2", [n], seed, "C", "ndarray"],
                         ["arr", r.choice("SU") + "1", [n], seed, "C", "ndarray"]])
    if k in ("bool", "int", "float", "complex"):
        dt = {"bool": "bool", "int": "i8", "float": "f8", "complex": "c16"}[k]
        return r.choice([["num", dt, seed], ["arr", dt, r.choice([[], [1], [1, 1]]), seed, "C", "ndarray"],
                         ["arr", "u1" if k == "bool" else dt, [1, 1], seed, "C", "matrix"]])
    if k in ("list", "tuple", "deque", "set", "frozenset"):
        return [r.choice(["list", "tuple", "deque"]), s[1]] if r.random() < .7 else ["objarr", r.choice([[len(s[1])], [1, len(s[1])]]), s[1]]
    if k in ("dict", "odict"):
        return [{"dict": "odict", "odict": "dict"}[k], s[1]]
    return None


def vary(r, s):
    """A value much like s: what in-place overwrites have to tell apart."""
    k = s[0]
    if r.random() < .1:
        return s
    if r.random() < .25:
        a = alike(r, s)
        if a is not None:
            return a
    if k in ("num", "arr") and r.random() < .15:
        # all but the same
        i = 2 if k == "num" else 3
        return list(s[:i]) + [s[i] % NEAR + NEAR * r.choice([0, 1, 1, r.randint(2, 999)])] + list(s[i + 1:])
    if k == "num":
        return ["num", s[1] if r.random() < .6 else r.choice(NUM_DTYPES), r.getrandbits(30)]
    if k == "arr":
        u = r.random()
        dt, shape = s[1], list(s[2])
        if r.random() < .12 and dt[-1] in "248" and dt[0] in ">iufc":
            # the other byte order
            return ["arr", dt[1:] if dt[0] == ">" else ">" + dt] + list(s[2:])
        if u < .2:
            if 0 in shape and r.random() < .7:
                # what is stored for the empty one is an array of this form
                return ["arr", "u8", r.choice([[len(shape)], [1, len(shape)], [len(shape), 1]]), r.getrandbits(30), "C", "ndarray"]
            dt = {"i4": "u4", "u4": "f4", "f4": "i4", "u1": "bool", "bool": "u1", "i8": "f8", "f8": "c8", "u2": "i2",
                  "i2": "u2", "c8": "i8"}.get(dt, dt)
        elif u < .35:
            shape = shape[::-1]
        elif u < .45 and s[5] not in ("matrix",):
            shape = r.choice([shape + [1], [1] + shape])
        return ["arr", dt, shape, s[3] if u > .9 else r.getrandbits(30), s[4] if len(shape) == len(s[2]) else "C", s[5]]
    if k == "struct":
        f = list(s[1])
        if len(f) > 1 and r.random() < .4:
            r.shuffle(f)
            if r.random() < .5:
                f = f[:-1]
        return [k, f, s[2], r.getrandbits(30)] + list(s[4:])
    if k in ("list", "tuple", "deque"):
        l = list(s[1])
        if l and r.random() < .7:
            i = r.randrange(len(l))
            l[i] = vary(r, l[i])
        if r.random() < .2:
            l = l[:-1]
        return [k if r.random() < .7 else r.choice(["list", "tuple", "deque"]), l]
    if k in ("dict", "odict"):
        l = list(s[1])
        if l and r.random() < .7:
            i = r.randrange(len(l))
            l[i] = [l[i][0], vary(r, l[i][1])]
        if r.random() < .3:
            r.shuffle(l)
        if r.random() < .2:
            l = l[:-1]
        return [k if r.random() < .7 else r.choice(["dict", "odict"]), l]
    if k == "objarr" and s[2]:
        l = list(s[2])
        i = r.randrange(len(l))
        l[i] = vary(r, l[i])
        return [k, s[1], l]
    if k in ("str", "bytes", "bytearray", "npstr", "npbytes"):
        u = r.random()
        if u < .5:
            return [k, s[1][::-1].rstrip("\x00") if k.startswith("np") else s[1][::-1]]
        if k in ("bytes", "bytearray", "npbytes"):
            return [r.choice(["bytes", "bytearray"]), s[1]]
        return [r.choice(["str", "npstr"]), s[1].rstrip("\x00")]
    if k == "int":
        return ["int", str(int(s[1]) + r.choice([1, -1, 2 ** 40]))]
    if k == "bool":
        return [k, not s[1]]
    if k == "float":
        x = float.fromhex(s[1])
        return [k, float(r.choice([-x, -x, x + 1, 0.0, -0.0])).hex()]
    if k == "complex":
        a, b = float.fromhex(s[1]), float.fromhex(s[2])
        return [k] + [float(x).hex() for x in r.choice([(-a, b), (a, -b), (-a, -b), (b, a), (a, 0.0), (0.0, b)])]
    if k == "slice":
        return [k] + [vary(r, x) if r.random() < .5 else x for x in s[1:4]]
    return s


# ---------------------------------------------------------------- generating

KEYCH = ["a", "b", "key", "x_1", "Z9", "é", "a/b", "/", "\\", "a\\b", "\\x2f", ".", "..", ".x",
         "a.b", "世界", "\U0001F600", "with space", "#refs#", "a\x00b", "keys", "values", "A" * 40,
         "\\\\", "x\\", "\n", "\u2028", "0", "1a", "~", "!q", "", "\ud800", "keys/values"]


class Gen:
    """Random specs.  `mat` restricts to what MATLAB mode accepts."""

    def __init__(self, rng, mat_ok=True, big=0.02, depth=3, exotic=True, uniq=None):
        self.r = rng
        self.mat_ok = mat_ok
        self.big = big
        self.depth = depth
        self.exotic = exotic

    # -- leaves
    def text(self, maxlen=12):
        r = self.r
        n = r.choice([0, 1, 1, 2, 3, 5, r.randint(0, maxlen)])
        al = r.choice(["abcxyz09 _", "abcxyz09 _", "aé ü\x7f\x80\xff", "世界\u2028ab", "\U0001F600\U00010000a",
                       "a\x00b", "/\\.x", "\n\t\r'\"", "\u4e00\u0100b", "a\x00", "\udc80\ud83da"])
        t = "".join(r.choice(al) for _ in range(n))
        return t

    def raw(self, maxlen=12):
        r = self.r
        n = r.choice([0, 1, 1, 2, 3, 5, r.randint(0, maxlen)])
        al = r.choice([b"abcxyz09 ", b"abcxyz09 ", bytes(range(1, 256)), b"a\x00b", bytes([0x80, 0xff, 0xc3, 0xa9])])
        return bytes(r.choice(al) for _ in range(n)).decode("latin-1")

    def key(self):
        r = self.r
        if r.random() < .35:
            return r.choice(KEYCH)
        return "".join(r.choice("abcdefgh_XYZ012") for _ in range(r.randint(1, 6)))

    def fl(self):
        r = self.r
        return float(r.choice([0.0, -0.0, 1.5, float("inf"), float("-inf"), float("nan"), r.uniform(-1e6, 1e6),
                               5e-324, 1.7976931348623157e308, r.randint(-5, 5) / 2])).hex()

    def integer(self):
        r = self.r
        return str(r.choice([0, 1, -1, 255, 2 ** 31, -2 ** 31, 2 ** 53 + 1, 2 ** 63 - 1, -2 ** 63, 2 ** 63, -2 ** 63 - 1,
                             2 ** 64, 10 ** 30, -10 ** 30, r.randint(-100, 100), r.getrandbits(70)]))

    def tz(self):
        r = self.r
        off = r.choice([0, 3600, -3600, 19800, -12600, 86340, -86340, 45, r.randint(-86000, 86000)])
        us = r.choice([0, 0, 0, r.randint(1, 999999)])
        nm = r.choice([None, None, "EST", "zone é", "", " pad ", "UTC", "a/b\n", "x\x00"])
        return ["timezone", off, us, nm]

    def leaf(self, hashable=False):
        r = self.r
        c = r.randrange(24)
        if c == 0:
            return r.choice([["none"], ["ellipsis"], ["notimpl"]])
        if c == 1:
            return ["bool", r.random() < .5]
        if c in (2, 3):
            return ["int", self.integer()]
        if c == 4:
            return ["float", self.fl()]
        if c == 5:
            return ["complex", self.fl(), self.fl()]
        if c in (6, 7):
            return ["str", self.text()]
        if c == 8:
            return ["bytes", self.raw()]
        if c == 9:
            return ["bytes", self.raw()] if hashable else ["bytearray", self.raw()]
        if c == 10:
            return ["npstr", self.text().rstrip("\x00")]
        if c == 11:
            return ["npbytes", self.raw().rstrip("\x00")]
        if c in (12, 13):
            return ["num", self.numdt(), r.getrandbits(30)]
        if c == 14:
            y = r.choice([1, 9999, r.randint(1, 9999)])
            return ["date", y, r.randint(1, 12), r.randint(1, 28)]
        if c == 15:
            return ["time", r.randint(0, 23), r.randint(0, 59), r.randint(0, 59), r.choice([0, 999999, r.randint(0, 999999)]),
                    r.choice([None, self.tz()])]
        if c == 16:
            return ["datetime", r.choice([1, 9999, r.randint(1, 9999)]), r.randint(1, 12), r.randint(1, 28),
                    r.randint(0, 23), r.randint(0, 59), r.randint(0, 59), r.choice([0, r.randint(0, 999999)]),
                    r.choice([None, self.tz()])]
        if c == 17:
            return ["timedelta", r.choice([0, -1, 999999999, r.randint(-1000, 1000)]), r.randint(0, 86399),
                    r.randint(0, 999999)]
        if c == 18:
            return self.tz()
        if c == 19:
            return ["fraction", self.integer(), str(r.choice([1, 2, 7, 10 ** 20 + 1, r.randint(1, 1000)]))]
        if c == 20:
            if r.random() < .1:
                return ["range", -10 ** r.choice([2, 20]), 10 ** r.choice([3, 19, 30]), r.choice([7, -1, 2 ** 64])]
            return ["range", r.randint(-5, 5), r.randint(-5, 50), r.choice([1, 2, -1, -3])]
        if c == 21 and not hashable:
            return ["slice"] + [r.choice([["none"], ["int", str(r.randint(-9, 9))]] if r.random() < .9 else
                                         [["str", self.text()], ["float", self.fl()], ["int", self.integer()], ["ellipsis"]]) for _ in range(3)]
        if c == 22 and not hashable:
            return ["dtype", r.choice(["f8", "<i4", ">u2", "S5", "U7", "bool", "c16", [["a", "i4"], ["b é", "f8", [2, 3]]],
                                       [["q", [["z", "u1"], ["w", "S3"]]]], [["s", "U2"], ["t", "?"]], "O", "<M8[us]", "V7", ">c16", "f2", "m8",
                                       {"names": ["p", "q"], "formats": ["u1", "f8"], "offsets": [0, 8], "itemsize": 24},
                                       [["d", [["e", "<U3", [2]]], [1, 2]]]])]
        return ["int", str(r.randint(0, 9))]

    def numdt(self):
        r = self.r
        if not self.mat_ok and r.random() < .15:
            return r.choice(NONMAT_DTYPES)
        return r.choice(NUM_DTYPES)

    def shape(self):
        r = self.r
        nd = r.choice([0, 1, 1, 1, 2, 2, 2, 3, 4])
        hi = {0: 1, 1: 7, 2: 5, 3: 4, 4: 3}[nd]
        return [r.choice([0, 1, 1, 2, 3, r.randint(1, hi)]) if r.random() < .8 else r.randint(1, hi) for _ in range(nd)]

    def array(self):
        r = self.r
        c = r.randrange(12)
        if r.random() < self.big:
            n = r.choice([2047, 2048, 2049, 1024, 4096, 5000, 16384, 3000])
            sh = r.choice([[n], [n, 1], [1, n], [8, n // 8]])
            return ["arr", r.choice(["f8", "i4", "u1", "c16", "u2", "i8", "bool"]), sh, r.getrandbits(30), r.choice("CF"), "ndarray"]
        order = r.choice("CCCFTSSNWB")
        if c < 6:
            dt = self.numdt()
            if r.random() < .1 and dt not in ("bool", "u1", "i1"):
                dt = ">" + dt
            return ["arr", dt, self.shape(), r.getrandbits(30), order, "ndarray"]
        if c == 6:
            sh = [r.randint(0, 4), r.randint(0, 4)]
            return ["arr", self.numdt(), sh, r.getrandbits(30), r.choice("CF"), "matrix"]
        if c in (7, 8):
            dt = r.choice(["S", "U", "S", "U", ">U"]) + str(r.choice([1, 2, 3, 5, 9]))
            return ["arr", dt, self.shape(), r.getrandbits(30), order, "ndarray"]
        if c == 9:
            dt = r.choice("SU") + str(r.choice([1, 2, 5]))
            sh = [x or 1 for x in self.shape()] or [1]
            return ["arr", dt, sh, r.getrandbits(30), "C", "chararray"]
        if c == 10:
            return self.structarr()
        return ["arr", r.choice(NUM_DTYPES), self.shape(), r.getrandbits(30), order, "ndarray"]

    def fieldname(self):
        r = self.r
        if r.random() < .8:
            return "".join(r.choice("abcxyz_") for _ in range(r.randint(1, 4)))
        return r.choice(["a/b", ".x", "é", "a\\b", "世", "with space", "n\\x2f"])

    def structarr(self, nest=1):
        r = self.r
        names = []
        for _ in range(r.randint(1, 3)):
            n = self.fieldname()
            if n not in names:
                names.append(n)
        if r.random() < .12:
            names = r.choice([["r", "i"], ["real", "imag"], ["re", "im"], ["i", "r"]])
        fields = []
        for n in names:
            f = [n, r.choice(["f8", "i4", "u1", "bool", "c8", "i8", "S3", "U2" if self.mat_ok else "i2", "f4"])]
            if len(names) == 2 and len(fields) == 1 and names[0] in ("r", "real", "re", "i") and r.random() < .7:
                f[1] = fields[0][1]
            if nest and r.random() < .07:
                f[1] = self.structarr(nest - 1)[1]
            if r.random() < .25 and f[1] not in ("S3", "U2"):
                f.append([r.randint(1, 3)] + ([r.randint(1, 2)] if r.random() < .4 else []))
            fields.append(f)
        c = r.choice(["ndarray", "ndarray", "recarray", "void"])
        sh = self.shape()[:2]
        if r.random() < .7:
            sh = [x or 1 for x in sh]
        if c == "void":
            sh = [1]
        if c == "recarray" and not sh:
            sh = [1]
        return ["struct", fields, sh, r.getrandbits(30), c] + ([r.choice([True, "mix"])] if r.random() < .3 else [])

    def twins(self):
        """Values that are alike: equal or nearly so, of different types."""
        r = self.r
        n = r.choice([0, 1, r.randint(-9, 300)])
        t = r.choice(["a", "ab", "", "1", "é"])
        b = t.encode().decode("latin-1")
        f = float(n).hex()
        k = r.randrange(4)
        if k == 0:
            pool = [["int", str(n)], ["float", f], ["complex", f, (0.0).hex()], ["int", str(n)], ["fraction", str(n), "1"]]
            if n in (0, 1):
                pool += [["bool", bool(n)], ["bool", bool(n)]]
            if n == 0:
                pool += [["float", (-0.0).hex()], ["float", (-0.0).hex()], ["none"], ["complex", (-0.0).hex(), (-0.0).hex()]]
        elif k == 1:
            pool = [["str", t], ["bytes", b], ["bytearray", b], ["npstr", t], ["npbytes", b], ["str", t], ["list", []], ["tuple", []]]
        elif k == 2:
            e = self.leaf()
            pool = [["list", [e]], ["tuple", [e]], ["deque", [e]], ["objarr", [1], [e]], ["dict", [[["str", "a"], e]]],
                    ["odict", [[["str", "a"], e]]], e, e]
        else:
            e = self.leaf()
            pool = [e, e, e, self.leaf()]
        return [r.choice(pool) for _ in range(r.randint(2, 5))]

    # -- containers
    def value(self, depth=None):
        r = self.r
        if depth is None:
            depth = self.depth
        if depth > 0 and r.random() < .035:
            x = self.twins()
            return r.choice([["list", x], ["tuple", x], ["deque", x], ["objarr", [len(x)], x],
                             ["dict", [[["str", "k%d" % i], y] for i, y in enumerate(x)]],
                             ["dict", [[["int", str(i)], y] for i, y in enumerate(x)]]])
        c = r.randrange(100)
        if depth <= 0 or c < 38:
            return self.leaf()
        if c < 58:
            return self.array()
        n = r.choice([0, 1, 1, 2, 2, 3, 4])
        if c < 66:
            return ["list", [self.value(depth - 1) for _ in range(n)]]
        if c < 71:
            return ["tuple", [self.value(depth - 1) for _ in range(n)]]
        if c < 74:
            return ["deque", [self.value(depth - 1) for _ in range(n)]]
        if c < 77:
            return [r.choice(["set", "frozenset"]), self.uniq(n)]
        if c < 80:
            sh = r.choice([[n], [1, n], [n, 1], [2, 2], [], [0, 2]])
            m = int(np.prod(sh)) if sh else 1
            return ["objarr", sh, [self.value(depth - 1) for _ in range(m)]]
        if c < 92:
            return [r.choice(["dict", "dict", "odict"]), self.items(n, depth)]
        if c < 94:
            return ["counter", [[["str", k], ["int", str(r.randint(-3, 9))]] for k in dict.fromkeys(self.key() for _ in range(n))]]
        if c < 96:
            return ["chainmap", [["dict", self.items(r.randint(0, 2), depth - 1)] for _ in range(r.randint(1, 3))]]
        if c < 98:
            names = list(dict.fromkeys(self.fieldname() for _ in range(r.randint(1, 3))))
            sh = r.choice([[1], [2], [2, 1], [3]])
            if r.random() < .4:      # NumPy values of one or several types
                pool = [self.array() if r.random() < .5 else ["num", self.numdt(), r.getrandbits(30)] for _ in range(r.randint(1, 3))]
                return ["ostruct", names, sh, [[r.choice(pool) if r.random() < .9 else self.pyvalue(0) for _ in names] for _ in range(int(np.prod(sh)))]]
            return ["ostruct", names, sh, [[self.pyvalue(min(depth - 1, 1)) for _ in names] for _ in range(int(np.prod(sh)))]]
        return self.structarr()

    def pyvalue(self, depth):
        """A value that is no NumPy object (see the known finding on fields)."""
        while True:
            s = self.value(depth)
            if s[0] not in NUMPY_KINDS:
                return s

    def uniq(self, n):
        out, seen = [], set()
        for _ in range(n):
            s = self.leaf(hashable=True)
            if s[0] == "dtype" or s[0] == "slice":
                continue
            v = build(s)
            if v != v or v in seen:
                continue
            seen.add(v)
            out.append(s)
        return out

    def items(self, n, depth):
        r = self.r
        mode = r.random()
        out, seen = [], set()
        for _ in range(n):
            if mode < .75:
                ks = ["str", self.key()]
                if mode < .2:
                    ks = r.choice([ks, ["bytes", self.key().encode("utf-8", "surrogatepass").decode("latin-1")], ["npstr", self.key().rstrip("\x00") or "n"],
                                   ["npbytes", (self.key().encode("utf-8", "surrogatepass").rstrip(b"\x00") or b"n").decode("latin-1")]])
            else:
                ks = self.leaf(hashable=True)
                if ks[0] in ("dtype", "slice"):
                    continue
            v = build(ks)
            if v != v or v in seen:
                continue
            seen.add(v)
            out.append([ks, self.value(depth - 1)])
        return out


def simpler(s):
    """Candidate simplifications of a spec, simplest first."""
    out = []
    if s != ["int", "1"]:
        out.append(["int", "1"])
    k = s[0]
    if k in ("list", "tuple", "deque", "set", "frozenset", "chainmap"):
        out += [x for x in s[1]]
        for i in range(len(s[1])):
            out.append([k, s[1][:i] + s[1][i + 1:]])
            for y in simpler(s[1][i])[:4]:
                if k in ("list", "tuple", "deque"):
                    out.append([k, s[1][:i] + [y] + s[1][i + 1:]])
    elif k in ("dict", "odict", "counter"):
        out += [b for a, b in s[1]]
        for i in range(len(s[1])):
            out.append([k, s[1][:i] + s[1][i + 1:]])
            if k != "counter":
                for y in simpler(s[1][i][1])[:4]:
                    out.append([k, s[1][:i] + [[s[1][i][0], y]] + s[1][i + 1:]])
                if s[1][i][0][0] != "str" or len(s[1][i][0][1]) > 1:
                    out.append([k, s[1][:i] + [[["str", "k%d" % i], s[1][i][1]]] + s[1][i + 1:]])
    elif k == "objarr":
        out += list(s[2])
        out.append(["list", s[2]])
    elif k == "arr":
        if s[4] != "C":
            out.append(s[:4] + ["C", s[5]])
        if s[5] != "ndarray":
            out.append(s[:5] + ["ndarray"])
        if s[2] not in ([1], [2]) :
            out.append([k, s[1], [1], s[3], "C", "ndarray"])
            out.append([k, s[1], [2], s[3], "C", "ndarray"])
    elif k == "struct":
        for i in range(len(s[1])):
            if len(s[1]) > 1:
                out.append([k, s[1][:i] + s[1][i + 1:], s[2], s[3], s[4]])
        if s[2] != [1]:
            out.append([k, s[1], [1], s[3], s[4]])
    elif k in ("str", "bytes", "bytearray") and len(s[1]) > 1:
        out.append([k, s[1][:len(s[1]) // 2]])
        out.append([k, s[1][1:]])
        out.append([k, s[1][:-1]])
    return out
