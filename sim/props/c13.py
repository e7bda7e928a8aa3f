"""C13 Container elements never collide, whatever the random numbers."""
import os
import posixpath
import random

from .. import values as V
from ..world import Violation
from . import common as C

ID = "C13"
LEVEL = "exploration"
RULE = ("a run is a history of sessions on one file (one or two file objects at a time) that write, overwrite, delete and fail to "
        "write containers, with a random number generator that is re-seeded alike in every session, stutters, draws from a "
        "handful of numbers or is constant for a while, on a file whose references group may hold what another writer put "
        "there, under the very names the generator will give. After each operation every variable of the file is compared "
        "with what was stored, every reference of another writer with its old target, and no element is referred to twice. "
        "Non-trivial: the generator repeated a number")
RUNS = {"quick": 2000, "thorough": 60000}
STATE_RULE = "generator, start state, operation, kind of the value, sessions so far"
MUST_HIT = ("probe.repeated-number", "probe.foreign-name-taken", "probe.foreign-a", "probe.two-objects", "probe.sessions",
            "probe.failed-write", "probe.overwritten", "probe.deleted", "probe.unique", "probe.refused-over")
ASSUMPTIONS = ["the generator gives a new number eventually: none of the repeated runs lasts forever",
               "variables are read back with the reverse_dimension_order they were written with"]
LISTS = ("ops", "foreign")
RNGS = ["same-seed", "same-seed", "stutter", "tiny", "constant", "op-seed", "good"]
STARTS = ["none", "none", "lib", "lib", "plain", "foreign", "foreign", "foreign"]
REFS = ["/#refs#", "/#refs#", "/#refs#", "/#refs#", "/r", "/in/side"]


def gen(rng, tier, index):
    from .c05 import value
    g = V.Gen(rng, mat_ok=True, depth=2, big=0)
    refs = rng.choice(REFS)
    kws = [C.gen_opts(rng, mat=rng.random() < (.6 if refs == "/#refs#" else 0), actions=False, refs=refs) for _ in range(2)]
    if refs == "/#refs#" and rng.random() < .1:
        kws.append({"matlab_compatible": False, "group_for_references": "/r2"})
    names = C.pick_names(rng, 5, C.PLAIN_NAMES + [["q", "x"]])

    def cont():
        while True:
            k = rng.choice(["list", "tuple", "deque", "objarr", "dict", "any", "nest"])
            n = rng.choice([0, 1, 2, 3, 5, 8])
            el = [value(g) for _ in range(n)]
            s = {"list": ["list", el], "tuple": ["tuple", el], "deque": ["deque", el], "nest": ["list", [["list", el], ["tuple", el[:2]], ["list", [["list", []]]]]],
                 "dict": ["dict", [[["int", str(i)], e] for i, e in enumerate(el)]], "objarr": ["objarr", [n], el, "C"], "any": value(g, 3)}[k]
            if k == "objarr":
                s = value(g, 2)
            if C.acceptable({"matlab_compatible": True}, s) and C.acceptable({"matlab_compatible": False}, s):
                return s
    ops = [{"op": "open", "o": 0}]
    for _ in range(rng.randint(3, 10)):
        u = rng.random()
        f = int(rng.random() < .3)
        if u < .55:
            ops.append({"op": "write", "n": rng.choice(names), "v": cont(), "f": f})
        elif u < .65:
            ops.append({"op": "del", "n": rng.choice(names), "f": f})
        elif u < .73:
            ops.append({"op": "fail", "n": rng.choice(names), "f": f, "k": rng.randint(0, 4)})
        elif u < .93:
            ops.append({"op": "open", "o": rng.randrange(len(kws))})
        elif u < .96:
            ops.append({"op": "flush", "f": f})
        else:
            ops.append({"op": "second", "o": rng.randrange(len(kws))})
    if rng.random() < .3:
        ops.insert(rng.randint(1, len(ops)), {"op": "overrefs", "f": int(rng.random() < .3), "k": rng.randrange(6)})
    start = rng.choice(STARTS)
    if index % 45 == 20:
        # A session that goes through many names, so that a counter or a narrow name runs over.
        n = rng.choice([250, 270, 300, 520]) if rng.random() < .96 else 4150
        small = lambda i: rng.choice([["int", str(i)], ["str", "v%d" % i], ["list", [["int", str(i)], ["int", str(-i)]]], ["float", str(float(i))]])
        wide = ["list", [["int", str(i)] if n > 1000 else small(i) for i in range(n)]]
        kept = [o for o in ops[1:] if o["op"] in ("write", "del")][:2]
        ops = ops[:1] + kept[:1] + [{"op": "write", "n": names[0], "v": wide, "f": 0}] + kept[1:] + [{"op": "write", "n": names[1], "v": cont(), "f": 0}]
        start = rng.choice(["none", "none", "none", start])
    foreign = rng.sample(["a", "a", "b", "c", "d", "e", "A", "rng0", "rng1", "rng2", "rng3", "0" * 16, "0", "f" * 16, "10"], rng.randint(1, 6))
    return {"rng": rng.choice(RNGS), "k": rng.randint(1, 5), "rseed": rng.getrandbits(16), "kws": kws, "start": start,
            "foreign": sorted(set(foreign)), "akind": rng.choice(["data", "group", "empty", "almost", "almost2", "float", "string", "link", "alias"]),
            "two": rng.random() < .3, "refs": refs, "ops": ops, "vars": [cont(), cont()]}


def valid(t):
    return t["ops"] and t["ops"][0]["op"] == "open"


def shrink(t):
    for k, v in (("two", False), ("rng", "constant"), ("rng", "same-seed")):
        if t[k] != v:
            yield dict(t, **{k: v})
    for i, kw in enumerate(t["kws"]):
        for k in list(kw):
            if k not in ("matlab_compatible", "group_for_references"):
                yield dict(t, kws=t["kws"][:i] + [{a: b for a, b in kw.items() if a != k}] + t["kws"][i + 1:])


class Low(random.Random):
    """A generator that repeats itself."""

    def setup(self, w, mode, k, seed):
        self.w, self.mode, self.k = w, mode, k
        self.seed_ = seed
        self.good = random.Random("good-%d" % seed)
        self.src = random.Random("src-%d" % seed)
        self.pool = [self.src.getrandbits(1024) for _ in range(k)]
        self.n = 0
        self.last = None
        self.seen = set()
        self.budget = 200000
        self.draws = 0

    def restart(self):
        """A new session in which the program seeds its generator."""
        self.src = random.Random("src-%d" % self.seed_)

    def raw(self):
        self.draws += 1
        if self.draws > self.budget:
            raise Violation("no-progress", "more than %d random numbers for one operation" % self.budget)
        m = self.mode
        self.n += 1
        if m == "good":
            x = self.good.getrandbits(1024)
        elif m in ("same-seed", "op-seed"):
            x = self.src.getrandbits(1024)
        elif m == "stutter":
            if self.last is None or self.n % (self.k + 1) == 0:
                self.last = self.good.getrandbits(1024)
            x = self.last
        elif m == "tiny":
            x = self.good.choice(self.pool)
            if self.n % 7 == 0:
                x = self.good.getrandbits(1024)
                self.pool.append(x)
        else:       # constant for a while, again and again
            x = 0 if self.n % 40 else self.good.getrandbits(1024)
        if x in self.seen:
            self.w.stats["probe.repeated-number"] += 1
        self.seen.add(x)
        return x

    def getrandbits(self, k):
        x = self.raw()
        out = x & ((1 << k) - 1)
        while k > 1024:
            k -= 1024
            out = (out << 1024) | x
        return out

    def random(self):
        return (self.raw() & ((1 << 53) - 1)) / (1 << 53)

    def randbytes(self, n):
        return self.getrandbits(8 * n).to_bytes(n, "little") if n else b""


def install(w, t):
    low = Low()
    low.setup(w, t["rng"], t["k"], t["rseed"])
    for n in ("random", "getrandbits", "randint", "randrange", "choice", "choices", "sample", "shuffle", "uniform", "randbytes", "betavariate",
              "gauss", "triangular"):
        if hasattr(random, n):
            setattr(random, n, getattr(low, n))
    random._inst = low
    os.urandom = random._urandom = low.randbytes
    return low


def names_of(t, low):
    """The names of another writer: some that the generator is about to give."""
    save = (low.n, low.last, low.good.getstate(), low.src.getstate(), list(low.pool), set(low.seen))
    st = low.w.stats["probe.repeated-number"]
    nums = [low.raw() & ((1 << 64) - 1) for _ in range(4)]
    low.n, low.last, low.pool, low.seen = save[0], save[1], save[4], save[5]
    low.good.setstate(save[2])
    low.src.setstate(save[3])
    low.w.stats["probe.repeated-number"] = st
    return [("%016x" % nums[int(n[3])]) if n.startswith("rng") else n for n in t["foreign"]]


def execute(w, t):
    import h5py
    import numpy as np
    import hdf5storage as hs
    low = install(w, t)
    p = w.p("f.mat")
    model = {}
    foreign = {}
    w.disk.quiet = True
    if t["start"] in ("lib", "plain"):
        kw = {"matlab_compatible": t["start"] == "lib" and t["refs"] == "/#refs#"}
        if t["refs"] != "/#refs#":
            kw["group_for_references"] = t["refs"]
        hs.writes({"/o%d" % i: V.build(v) for i, v in enumerate(t["vars"])}, filename=p, **kw)
        for i, v in enumerate(t["vars"]):
            model[("o%d" % i,)] = (v, C.rdo(kw))
    elif t["start"] == "foreign":
        names = sorted(set(names_of(t, low)))
        with h5py.File(p, "w", userblock_size=512) as f:
            g = f.create_group(t["refs"])
            for i, n in enumerate(names):
                if n == "a":
                    w.stats["probe.foreign-a"] += 1
                    k = t["akind"]
                    if k == "group":
                        g.create_group("a")["x"] = 5
                    elif k == "link":
                        g["the_other"] = [4, 5]
                        g["a"] = h5py.SoftLink(t["refs"] + "/the_other")
                    elif k == "alias":
                        f["visible"] = [9, 9]
                        g["a"] = f["visible"]
                    else:
                        g["a"] = {"data": np.arange(3.0), "empty": np.zeros(2, "u8"), "almost": np.zeros(2, "u8"), "almost2": np.zeros(2, "u4"),
                                  "float": np.zeros(2), "string": "text"}[k]
                        if k in ("empty", "almost2"):
                            g["a"].attrs["MATLAB_class"] = np.bytes_("canonical empty")
                            g["a"].attrs["MATLAB_empty"] = np.uint8(1 if k == "empty" else 0)
                else:
                    g[n] = 100.0 + i
                foreign[n] = None
            refs = [g[n].ref for n in names]
            f.create_dataset("cell", data=np.array(refs, dtype=h5py.ref_dtype), dtype=h5py.ref_dtype)
            for i, r in enumerate(refs):
                foreign[i] = image(f[r])
            for n in names:
                del foreign[n]
    w.disk.quiet = False
    objs = [None, None]
    kws = [None, None]
    sessions = 0

    def close():
        for i in (1, 0):
            if objs[i] is not None:
                objs[i].close()
                objs[i] = None

    def op_open(i, o):
        kws[i] = t["kws"][o % len(t["kws"])]
        objs[i] = hs.File(p, writable=True, **kws[i])
    for n, op in enumerate(t["ops"]):
        k = op["op"]
        low.draws = 0
        if t["rng"] == "op-seed":
            low.restart()
        i = op.get("f", 0) if t["two"] else 0
        if i and objs[1] is None:
            i = 0
        what = "op %d (%s) of session %d" % (n, k, sessions)
        try:
            if k == "open":
                close()
                low.restart()
                sessions += 1
                w.stats["probe.sessions"] += sessions > 1
                op_open(0, op["o"])
                if t["two"]:
                    op_open(1, op["o"])
                    w.stats["probe.two-objects"] += 1
            elif k == "second":
                if t["two"]:
                    if objs[1] is not None:
                        objs[1].close()
                    op_open(1, op["o"])
            elif k == "flush":
                objs[i].flush()
            elif k == "del":
                if tuple(op["n"]) in model:
                    del objs[i][C.as_path(op["n"])]
                    del model[tuple(op["n"])]
                    w.stats["probe.deleted"] += 1
            elif k == "fail":
                if tuple(op["n"]) not in model:
                    try:
                        objs[i].write([["x"]] * op["k"] + [V.Unsupported()], C.as_path(op["n"]))
                    except Exception as e:
                        if isinstance(e, (OSError, KeyError)):
                            raise
                        w.stats["probe.failed-write"] += 1
            elif k == "overrefs":
                # a value that has a member where the Group for references is
                parent, leaf = posixpath.split(kws[i].get("group_for_references", "/#refs#"))
                if not leaf:
                    continue
                v = [{leaf: 5, "other": 6}, {"other": 6, leaf: [1, "x"]}, {leaf: {}}, np.zeros(1, [("z", "i4"), (leaf, "f8")]),
                     np.zeros(3, [(leaf, "f8"), ("z", "i4")]), np.zeros((), [(leaf, "S3"), ("z", "i4")])[()]][op["k"]]
                try:
                    objs[i].write(v, parent)
                except Exception as e:
                    if isinstance(e, (OSError, KeyError)):
                        raise
                    w.stats["probe.refused-over"] += 1
            else:
                key = tuple(op["n"])
                if key in model and C.merges(kws[i], model[key][0], op["v"]):
                    continue
                w.stats["probe.overwritten"] += key in model
                objs[i].write(V.build(op["v"]), C.as_path(op["n"]))
                model[key] = (op["v"], C.rdo(kws[i]))
        except Violation:
            raise
        except Exception as e:
            raise Violation("refused", "%s raised %s: %.200s" % (what, C.exname(e), e))
        w.state(t["rng"], t["start"], k, op.get("v", [None])[0], min(sessions, 3), t["two"])
        w.log(k, low.n)
        if n % 3 == 2 or n == len(t["ops"]) - 1 or k == "open":
            verify(w, t, what, model, foreign, objs)
    close()
    verify(w, t, "at the end", model, foreign, objs)
    return {"nontrivial": bool(w.stats.get("probe.repeated-number"))}


def image(o, depth=0):
    import h5py
    if isinstance(o, h5py.Group):
        return {k: image(o[k], depth + 1) for k in o} if depth < 5 else None
    d = o[()]
    return (str(o.dtype), o.shape, d.tobytes() if hasattr(d, "tobytes") and o.dtype != object else repr(d),
            sorted((k, repr(v)) for k, v in o.attrs.items() if k != "H5PATH"))


def verify(w, t, what, model, foreign, objs):
    import h5py
    import hdf5storage as hs
    q, w.disk.quiet = w.disk.quiet, True
    p = w.p("f.mat")
    for o in objs:
        if o is not None:
            o.flush()
    try:
        for rdo in (False, True):
            ks = [k for k, v in model.items() if v[1] == rdo]
            if not ks:
                continue
            kw = {"matlab_compatible": False, "reverse_dimension_order": rdo}
            # while it is open for writing, the same mode is needed
            with hs.File(p, writable=any(o is not None for o in objs), **kw) as f:
                for k in ks:
                    why = []
                    try:
                        got = f.read(C.as_path(list(k)))
                    except Exception as e:
                        raise Violation("element-lost", "%s: %s cannot be read: %s %.200s" % (what, k, C.exname(e), e))
                    if not V.same(V.build(model[k][0]), got, why):
                        raise Violation("element-changed", "%s: %s has changed: %s" % (what, k, "; ".join(why)[:300]))
        with h5py.File(p, "r+" if any(o is not None for o in objs) else "r") as f:
            if foreign:
                refs = f["cell"][()]
                for i, r in enumerate(refs):
                    try:
                        got = image(f[r])
                    except Exception as e:
                        raise Violation("foreign-lost", "%s: a reference of another writer is dead: %s %.100s" % (what, C.exname(e), e))
                    if got != foreign[i]:
                        raise Violation("foreign-changed", "%s: the target of a reference of another writer changed from %.150r to %.150r"
                                        % (what, foreign[i], got))
            seen = {}
            for k in model:
                o = f
                for part in k:
                    o = o[part]
                walk(w, f, o, k, seen, what)
            w.stats["probe.unique"] += len(seen)
            for g in {t["refs"], *(kw.get("group_for_references", "/#refs#") for kw in t["kws"])}:
                if g in f and t["start"] == "foreign":
                    w.stats["probe.foreign-name-taken"] += sum(1 for n in f[g] if len(n) == 16)
    finally:
        w.disk.quiet = q


def empty(o):
    import h5py
    c = o.attrs.get("MATLAB_class")
    return isinstance(o, h5py.Dataset) and c is not None and bytes(c) == b"canonical empty"


def walk(w, f, o, path, seen, what, depth=0):
    """No two references of the containers lead to the same object."""
    import h5py
    import numpy as np
    if depth > 30:
        raise Violation("shared", "%s: the elements of %r contain each other" % (what, path))
    if isinstance(o, h5py.Group):
        for k in o:
            walk(w, f, o[k], path + (k,), seen, what, depth + 1)
        return
    if h5py.check_dtype(ref=o.dtype) is not h5py.Reference:
        return
    if o.shape is None:
        return
    for i, r in enumerate(np.ravel(o[()])):
        if not r:
            continue
        x = f[r]
        if empty(x):
            continue
        a = h5py.h5o.get_info(x.id).addr
        if a in seen:
            raise Violation("shared", "%s: element %d of %r is also element of %r" % (what, i, path, seen[a]))
        seen[a] = path
        walk(w, f, x, path + (i,), seen, what, depth + 1)
