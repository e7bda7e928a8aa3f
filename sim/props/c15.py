"""C15 Checksummed data that rots on disk is detected."""
import random

from .. import values as V
from ..world import Violation
from . import common as C

ID = "C15"
LEVEL = "exploration"
RULE = ("a run is a history of sessions with their own compression, threshold and checksum options that write and overwrite "
        "variables (often by values of the same shape and type), with short and interrupted system calls. Then the filters "
        "of every dataset of every variable (members and elements included) are compared with what the options of the session "
        "that last wrote it ask for, and in copies of the file one stored bit of a checksummed dataset's data is flipped: "
        "reading must raise, or leave out the entry. Non-trivial: a bit was flipped")
RUNS = {"quick": 6500, "thorough": 60000}
STATE_RULE = "options of the last two sessions of a variable, and kind of its value"
MUST_HIT = ("fault.bit-flip", "probe.detected", "probe.compressed", "probe.uncompressed", "probe.element", "probe.member", "probe.changed-options",
            "probe.in-place", "probe.checksum-off", "probe.at-threshold")
ASSUMPTIONS = ["a value may read back unaltered after a flip of bytes that carry nothing (the filler that stands for None or an empty value)",
               "the stored bits are those of the chunks, checksums included; HDF5's own indexes have no checksum in its default format",
               "the group for references keeps the canonical empty as MATLAB writes it, without filters"]
LISTS = ("ops", "flips")


def gen(rng, tier, index):
    from .c05 import value
    g = V.Gen(rng, mat_ok=True, depth=rng.choice([1, 2]), big=rng.choice([0, .2, .5]))
    mat = rng.random() < .5

    def opts():
        kw = {"matlab_compatible": mat, "compress": rng.random() < .7, "compress_size_threshold": rng.choice([0, 1, 8, 16, 24, 32, 64, 100, 1000, 16384]),
              "gzip_compression_level": rng.choice([0, 1, 5, 7, 9]), "shuffle_filter": rng.random() < .5,
              "compressed_fletcher32_filter": rng.random() < .7, "uncompressed_fletcher32_filter": rng.random() < .6,
              "compression_algorithm": rng.choice(["gzip", "gzip", "lzf"]) if not mat else "gzip"}
        if not mat:
            kw["delete_unused_variables"] = True
            if rng.random() < .3:
                kw["store_shape_for_empty"] = True
        for k in list(kw):
            if rng.random() < .15 and k not in ("matlab_compatible", "delete_unused_variables"):
                del kw[k]
        return kw
    kws = [opts() for _ in range(rng.choice([1, 2, 2, 3]))]
    names = C.pick_names(rng, 3, C.PLAIN_NAMES + [["g", "x"]])
    last = {}
    ops = [{"op": "open", "o": 0}]

    def val(n):
        k = repr(n)
        if k in last and rng.random() < .65:
            s = last[k]
            if s[0] == "arr" and rng.random() < .7:
                s = s[:3] + [rng.getrandbits(30)] + s[4:]
            elif rng.random() < .5:
                s = V.vary(rng, s)
        elif rng.random() < .55:
            s = ["arr", rng.choice(["u1", "i4", "f8", "f8", "i2", "c16", "bool", "U3", "S5"]),
                 rng.choice([[1], [4], [8], [2, 4], [3, 3], [16], [17], [5, 7], [300], [1, 128], [0], [2, 0]]), rng.getrandbits(30), "C", "ndarray"]
        else:
            s = value(g)
        if not (C.acceptable({"matlab_compatible": True}, s) and C.acceptable({"matlab_compatible": False}, s)):
            s = value(g)
        last[k] = s
        return s
    for _ in range(rng.randint(2, 8)):
        u = rng.random()
        n = rng.choice(names)
        if u < .7:
            ops.append({"op": rng.choice(["write", "write", "writes"]), "n": n, "v": val(n)})
        elif u < .95:
            ops.append({"op": "open", "o": rng.randrange(len(kws))})
        else:
            ops.append({"op": "savemat", "n": n, "v": val(n)})
    return {"kws": kws, "ops": ops, "noise": rng.random() < .3, "via": rng.choice(["read", "File", "reads", "items", "loadmat"]),
            "flips": [[rng.random(), rng.random(), rng.randrange(8)] for _ in range(rng.randint(2, 8))], "rnd": rng.getrandbits(16)}


def valid(t):
    return t["ops"] and t["ops"][0]["op"] == "open"


def shrink(t):
    if t["noise"]:
        yield dict(t, noise=False)
    if t["via"] != "read":
        yield dict(t, via="read")
    for i, kw in enumerate(t["kws"]):
        for k in list(kw):
            if k != "matlab_compatible":
                yield dict(t, kws=t["kws"][:i] + [{a: b for a, b in kw.items() if a != k}] + t["kws"][i + 1:])


DEFAULTS = {"compress": True, "compress_size_threshold": 16 * 1024, "compression_algorithm": "gzip", "gzip_compression_level": 7,
            "shuffle_filter": True, "compressed_fletcher32_filter": True, "uncompressed_fletcher32_filter": False}


def wanted(kw, dset):
    """(compression, its level, shuffle, checksum) for a dataset."""
    o = dict(DEFAULTS, **{k: v for k, v in kw.items() if k in DEFAULTS})
    if dset.shape == () or dset.shape is None:
        return (None, None, False, False)
    n = dset.size * dset.dtype.itemsize
    if o["compress"] and n >= o["compress_size_threshold"]:
        a = o["compression_algorithm"]
        return (a, o["gzip_compression_level"] if a == "gzip" else None, o["shuffle_filter"], o["compressed_fletcher32_filter"])
    return (None, None, False, o["uncompressed_fletcher32_filter"])


def datasets(f, o, path=""):
    """All datasets of a variable, with the way to each."""
    import h5py
    import numpy as np
    if isinstance(o, h5py.Group):
        for k in sorted(o):
            yield from datasets(f, o[k], path + "/" + k)
        return
    c = o.attrs.get("MATLAB_class")
    if c is not None and bytes(c) == b"canonical empty":
        return
    yield path, o
    if h5py.check_dtype(ref=o.dtype) is h5py.Reference:
        for i, r in enumerate(np.ravel(o[()])):
            yield from datasets(f, f[r], path + "{%d}" % i)


def execute(w, t):
    import h5py
    import hdf5storage as hs
    w.seed_random(t["rnd"])
    p = w.p("f.mat")
    if t["noise"]:
        w.disk.rand = (random.Random(t["rnd"]), .03, .1)
    model = {}
    f = None
    kw = None
    for i, op in enumerate(t["ops"]):
        try:
            if op["op"] == "open":
                if f is not None:
                    f.close()
                kw = t["kws"][op["o"] % len(t["kws"])]
                f = hs.File(p, writable=True, **kw)
                continue
            key = tuple(op["n"])
            k = kw
            v = V.build(op["v"])
            if op["op"] == "savemat":
                k = {"matlab_compatible": True}
                if key in model and C.merges(k, model[key][0], op["v"]):
                    continue
                f.close()
                hs.savemat(p, {C.as_path(op["n"]): v}, appendmat=False)
                f = hs.File(p, writable=True, **kw)
            elif key in model and C.merges(k, model[key][0], op["v"]):
                continue
            elif op["op"] == "write":
                f.write(v, C.as_path(op["n"]))
            else:
                f.writes({C.as_path(op["n"]): v})
        except Exception as e:
            raise Violation("refused", "op %d (%s) raised %s: %.200s" % (i, op["op"], C.exname(e), e))
        old = model.get(key)
        w.stats["probe.changed-options"] += old is not None and old[1] != k
        w.stats["probe.in-place"] += old is not None and old[0][:3] == op["v"][:3] and old[1] == k
        model[key] = (op["v"], k)
        w.state(old and sorted(old[1].items()), sorted(k.items()), op["v"][0])
    f.close()
    w.disk.disarm()
    w.disk.quiet = True
    data = C.get(w, "f.mat")
    places = []         # (key, where, offset, length)
    with h5py.File(p, "r") as f:
        ub = f.userblock_size
        for key, (spec, k) in sorted(model.items()):
            o = f
            for part in key:
                o = o[part]
            for path, d in datasets(f, o):
                got = (d.compression, d.compression_opts, bool(d.shuffle), bool(d.fletcher32))
                want = wanted(k, d)
                where = "%s%s, %s of %s" % (key, path, d.dtype, d.shape)
                if got != want:
                    raise Violation("filters", "%s: last written with %s, the compression, level, shuffle and checksum are %s, not %s"
                                    % (where, {a: b for a, b in k.items() if a in DEFAULTS}, got, want))
                n = d.size * d.dtype.itemsize if d.shape else 0
                w.stats["probe.at-threshold"] += bool(d.shape) and n == dict(DEFAULTS, **k)["compress_size_threshold"]
                w.stats["probe.element"] += "{" in path
                w.stats["probe.member"] += "/" in path
                if not want[3]:
                    w.stats["probe.checksum-off"] += 1
                    continue
                w.stats["probe.compressed" if want[0] else "probe.uncompressed"] += 1
                for c in range(d.id.get_num_chunks()):
                    ci = d.id.get_chunk_info(c)
                    off = ci.byte_offset
                    raw = d.id.read_direct_chunk(ci.chunk_offset)[1]
                    if data[off:off + ci.size] != raw:
                        off += ub
                    if data[off:off + ci.size] != raw:
                        raise RuntimeError("a chunk was not found in the file")
                    places.append((key, where, off, ci.size))
    nt = False
    for a, b, bit in t["flips"]:
        if not places:
            break
        key, where, off, n = places[int(a * len(places))]
        x = off + int(b * n)
        bad = bytearray(data)
        bad[x] ^= 1 << bit
        C.put(w, "f.mat", bytes(bad))
        w.stats["fault.bit-flip"] += 1
        nt = True
        spec, k = model[key]
        try:
            got = read(w, t, key, k, model)
        except Exception as e:
            w.stats["probe.detected"] += 1
            w.log("flip", C.exname(e))
            continue
        what = "bit %d of byte %d of the %d stored for %s was flipped" % (bit, x - off, n, where)
        if got is MISSING:
            w.stats["probe.left-out"] += 1
            continue
        judge(w, spec, got, what, dict(t, flips=[[a, b, bit]]))
    C.put(w, "f.mat", data)
    for key, (spec, k) in sorted(model.items()):
        C.check_equal(spec, hs.read(C.as_path(list(key)), filename=p, matlab_compatible=False, reverse_dimension_order=C.rdo(k)),
                      "wrong-value", "%s in the undamaged file" % (key,))
    return {"nontrivial": nt}


MISSING = object()


def read(w, t, key, k, model):
    import hdf5storage as hs
    p = w.p("f.mat")
    kw = {"matlab_compatible": False, "reverse_dimension_order": C.rdo(k)}
    n = C.as_path(list(key))
    via = t["via"]
    if via == "loadmat" and (not k.get("matlab_compatible") or len(key) > 1):
        via = "read"
    if via == "read":
        return hs.read(n, filename=p, **kw)
    if via == "reads":
        return hs.reads([n], filename=p, **kw)[0]
    if via == "loadmat":
        d = hs.loadmat(p, appendmat=False)
        return d[key[0]] if key[0] in d else MISSING
    with hs.File(p, **kw) as f:
        if via == "items" and len(key) == 1:
            return dict(f.items())[key[0]]
        return f[n]


def judge(w, spec, got, what, only):
    """The value must be as it was, but for entries of mappings that are missing."""
    why = []
    if V.same(V.build(spec), got, why):
        w.stats["probe.unaltered"] += 1
        return
    if V.same(V.build(spec), got, [], approx=True):
        w.stats["probe.left-out"] += 1
        return
    raise Violation("altered", "%s, and reading gave %.200r without an error: %s" % (what, got, "; ".join(why)[:200]), only)
