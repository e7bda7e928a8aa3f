"""Shared by the properties: options, variables, sessions and the model."""
import copy
import os
import pathlib

from .. import values as V
from ..world import Violation

ACTIONS = ["error", "discard", "ignore"]

# names of variables: each is the list of its (unescaped) parts
NAMES = [["a"], ["b"], ["c"], ["zz"], ["A1"], ["g", "x"], ["g", "y"], ["h", "k", "z"], ["g", "w", "deep"],
         ["é"], ["a/b"], [".hid"], ["back\\slash"], ["世界"], ["with space"], ["~t"], ["!x"], ["#a"], ["#z"], ["nul\x00l"]]
PLAIN_NAMES = [["a"], ["b"], ["c"], ["zz"], ["A1"], ["k"], ["m"]]


def gen_opts(rng, mat=None, refs="/#refs#", actions=True, custom=True, checksum=False):
    """Keywords of Options."""
    if mat is None:
        mat = rng.random() < .6
    kw = {"matlab_compatible": mat}
    if rng.random() < .4:
        kw["oned_as"] = rng.choice(["row", "column"])
    if rng.random() < .5:
        kw["compress"] = rng.random() < .6
        kw["compress_size_threshold"] = rng.choice([0, 1, 16, 100, 1000, 16384])
        kw["gzip_compression_level"] = rng.choice([1, 7, 9])
        kw["shuffle_filter"] = rng.random() < .5
        kw["compressed_fletcher32_filter"] = rng.random() < .5
        kw["uncompressed_fletcher32_filter"] = rng.random() < .5
        if not mat:
            kw["compression_algorithm"] = rng.choice(["gzip", "lzf"])
    if rng.random() < .25:
        # some of them are each other's, or the default ones swapped
        kw["dict_like_keys_name"], kw["dict_like_values_name"] = rng.choice([
            ("k", "v"), ("k", "v"), ("v", "k"), ("values", "keys"), ("the keys", ".values"), ("keys/é", "b"), ("a", "v"),
            ("keys", "v"), ("k", "values"), ("v", "keys")])
    if actions and mat:
        kw["action_for_matlab_incompatible"] = rng.choice(["error", "error", "error", "discard", "ignore"])
    if not mat:
        if refs != "/#refs#":
            kw["group_for_references"] = refs
        if custom and rng.random() < .5:
            for k in FLAGS:
                if rng.random() < .4:
                    kw[k] = True
    return kw


FLAGS = ["delete_unused_variables", "structured_numpy_ndarray_as_struct", "make_atleast_2d",
         "convert_numpy_bytes_to_utf16", "convert_numpy_str_to_utf16", "convert_bools_to_uint8",
         "reverse_dimension_order", "store_shape_for_empty"]


def options(kw):
    import hdf5storage
    kw = dict(kw)
    if "complex_names" in kw:
        kw["complex_names"] = tuple(kw["complex_names"])
    return hdf5storage.Options(**kw)


def as_path(parts, form=0):
    """One of the ways to spell the path of a variable."""
    from hdf5storage import pathesc
    if form == 3:
        return list(parts)
    if form == 4:
        return tuple(p.encode("utf-8") if i % 2 else p for i, p in enumerate(parts))
    s = "/" + "/".join(pathesc.escape_path(p) for p in parts)
    if form == 1:
        return s.encode("utf-8")
    if form == 2:
        return pathlib.PurePosixPath(s)
    if form == 5:
        return s[1:]
    return s


FORMS = [0, 0, 0, 1, 2, 3, 4, 5]


def exname(e):
    return type(e).__name__


def mutate(v, depth=0):
    """Changes a value in place wherever it can be changed."""
    import collections
    import numpy as np
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            for x in v.ravel():
                mutate(x, depth + 1)
            if v.size:
                v.reshape(-1)[0] = "mutated"
        elif v.size and v.flags.writeable and v.dtype.names is None:
            b = v.reshape(-1)[:1]
            try:
                v[...] = np.zeros(1, v.dtype)[0] if b.tobytes().strip(b"\0") else np.ones(1, v.dtype)[0]
            except (ValueError, TypeError):
                pass
    elif isinstance(v, dict):
        for x in v.values():
            mutate(x, depth + 1)
        v["mutated"] = 1
    elif isinstance(v, collections.ChainMap):
        v.maps.append({})
    elif isinstance(v, (list, collections.deque)):
        for x in v:
            mutate(x, depth + 1)
        v.append("mutated")
    elif isinstance(v, tuple):
        for x in v:
            mutate(x, depth + 1)
    elif isinstance(v, set):
        v.add("mutated")
    elif isinstance(v, bytearray):
        v.extend(b"mutated")


def recycle(v, pool, used):
    """Puts the content of a new value into mutable objects of the pool, as
    far as it has some of the kind, and returns the object to use."""
    import numpy as np
    t = type(v)
    if t is np.ndarray and v.flags.writeable and v.dtype != object and not v.dtype.hasobject:
        k = (t, str(v.dtype), v.shape, v.strides, v.flags.owndata)
    elif t in (list, dict, bytearray):
        k = t
    else:
        return v
    if t is list:
        v[:] = [recycle(x, pool, used) for x in v]
    elif t is dict:
        for a in list(v):
            v[a] = recycle(v[a], pool, used)
    if pool.get(k):
        o = pool[k].pop()
        if t is np.ndarray:
            o[...] = v
        elif t is dict:
            o.clear()
            o.update(v)
        else:
            o[:] = v
        v = o
    used.append((k, v))
    return v


def check_equal(spec, got, cls, what, approx=False):
    why = []
    if not V.same(V.build(spec), got, why, approx=approx):
        raise Violation(cls, "%s: %s" % (what, "; ".join(why)[:400]))


def fresh(w, name):
    """Removes a file without the simulated disk taking notice."""
    q, w.disk.quiet = w.disk.quiet, True
    try:
        os.unlink(w.p(name))
    except FileNotFoundError:
        pass
    w.disk.quiet = q


def put(w, name, data):
    q, w.disk.quiet = w.disk.quiet, True
    with open(w.p(name), "wb") as f:
        f.write(data)
    w.disk.quiet = q


def get(w, name):
    q, w.disk.quiet = w.disk.quiet, True
    try:
        with open(w.p(name), "rb") as f:
            return f.read()
    except FileNotFoundError:
        return None
    finally:
        w.disk.quiet = q


def compatible(names, used):
    """Names that do not lie inside each other."""
    for u in used:
        n = min(len(u), len(names))
        if u[:n] == names[:n]:
            return False
    return True


def pick_names(rng, k, pool=NAMES):
    out = []
    pool = list(pool)
    rng.shuffle(pool)
    for n in pool:
        if compatible(n, out):
            out.append(n)
        if len(out) == k:
            break
    return out


def acceptable(kw, spec):
    """Whether a value can be stored with the options in a way that it must
    read back the same (not refused, not discarded)."""
    if V.has_bad(spec):
        return False
    if kw.get("matlab_compatible") and V.mat_incompatible(spec):
        return kw.get("action_for_matlab_incompatible", "error") == "ignore"
    if not kw.get("matlab_compatible") and plain_refused(kw, spec):
        return False
    return True


def plain_refused(kw, spec):
    """Structured arrays with str fields can be stored only as structs."""
    if kw.get("structured_numpy_ndarray_as_struct"):
        return False
    return any(x[0] == "struct" and any(f.startswith(("U", "<U", ">U")) for f in V.field_types(x[1])) and not V.looks_complex(V._mkdtype(x[1]))
               for x in V.walk(spec))


GROUPED = ("dict", "odict", "counter", "slice", "range", "date", "time", "datetime", "timedelta", "timezone",
           "fraction", "struct", "ostruct")
FIXED = ("slice", "range", "date", "time", "datetime", "timedelta", "timezone", "fraction")


def group_stored(spec):
    """Whether the value may be stored as a Group with a member each."""
    return spec[0] in GROUPED


def merges(kw, old, new):
    """With delete_unused_variables off, members of the old value that the
    new one lacks are documented to stay, inside it and inside its members."""
    if kw is None or kw.get("matlab_compatible") or kw.get("delete_unused_variables"):
        return False
    return old is not None and group_stored(old) and group_stored(new) and new[0] not in FIXED


def rdo(kw):
    return bool(kw.get("matlab_compatible") or kw.get("reverse_dimension_order"))


def order_of(kw, spec):
    """None if any options read it back, else the reverse_dimension_order
    that the reading options need."""
    if kw.get("matlab_compatible") and not V.mat_incompatible(spec):
        return None
    return rdo(kw)
