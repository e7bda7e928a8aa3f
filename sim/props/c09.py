"""C09 A failed write harms nothing but its own target."""
from .. import values as V
from ..world import Violation
from . import common as C
from . import inject

ID = "C09"
LEVEL = "exploration"
RULE = ("a run is a history of 4-12 operations on one file over 2-5 variables where about half of the writes fail: an "
        "unsupported or MATLAB-incompatible value at any depth of a container, a path through a dataset, into the "
        "references group or of a wrong type, MemoryError or KeyboardInterrupt at a library line while the value is "
        "stored, a call into h5py that raises, an item in the middle of a multi-item write, through one file object or the convenience functions; "
        "incompatible values also discarded and ignored. After each failure all other variables are read through the "
        "same file object, at the end through a new one. Non-trivial: a write failed")
RUNS = {"quick": 3000, "thorough": 60000}
STATE_RULE = "cause of the failure, kinds of the value that failed and of the one it would have replaced, options"
MUST_HIT = ("fault.OSError-in-h5py", "probe.refused-whole", "probe.failed-inside", "probe.failed-path", "probe.earlier-items-complete", "probe.discarded",
            "probe.ignored", "fault.MemoryError-at-a-line", "fault.KeyboardInterrupt-at-a-line", "probe.rewritten", "probe.conv-failed")
ASSUMPTIONS = ["asynchronous exceptions are raised at lines of Marshallers.py and utilities.py outside exception handlers",
               "a failed write may leave its target (or an empty parent Group) in any state"]
LISTS = ("ops", "items", "vars")


def plant(rng, s, leaf):
    """Puts a leaf somewhere inside the value, a container is made if needed."""
    k = s[0]
    if k in ("list", "tuple", "deque") and s[1]:
        l = list(s[1])
        i = rng.randrange(len(l))
        if rng.random() < .4:
            l.insert(i, leaf)
        else:
            l[i] = plant(rng, l[i], leaf) if rng.random() < .6 else leaf
        return [k, l]
    if k in ("dict", "odict") and s[1]:
        l = list(s[1])
        i = rng.randrange(len(l))
        u = rng.random()
        if u < .15 and leaf[0] == "bad":
            l[i] = [leaf, l[i][1]]
        else:
            l[i] = [l[i][0], plant(rng, l[i][1], leaf) if u < .6 else leaf]
        return [k, l]
    if k == "objarr" and s[2]:
        l = list(s[2])
        i = rng.randrange(len(l))
        l[i] = plant(rng, l[i], leaf) if rng.random() < .6 else leaf
        return [k, s[1], l]
    if k == "ostruct" and s[3] and leaf[0] in ("bad", "badsub"):
        rows = [list(r) for r in s[3]]
        r = rng.choice(rows)
        r[rng.randrange(len(r))] = leaf
        return [k, s[1], s[2], rows]
    u = rng.randrange(5)
    if u == 0:
        return ["list", [s, leaf]]
    if u == 1:
        return ["dict", [[["str", "k"], s], [["str", "l"], leaf]]]
    if u == 2:
        return ["dict", [[["int", "1"], leaf], [["int", "2"], s]]]
    if u == 3:
        return ["tuple", [leaf, s]]
    return ["objarr", [2], [s, leaf]]


def half(rng):
    return rng.choice([["num", "f2", rng.getrandbits(8)], ["arr", "f2", [3], rng.getrandbits(8), "C", "ndarray"],
                       ["arr", "f2", [2, 2], rng.getrandbits(8), "F", "ndarray"]])


def nested(rng, depth):
    """A value of simple containers with half precision numbers inside."""
    u = rng.random()
    if depth == 0 or u < .3:
        return half(rng) if rng.random() < .4 else rng.choice([["int", "5"], ["str", "s"], ["num", "f8", 3], ["none"],
                                                              ["arr", "i4", [2, 3], 5, "C", "ndarray"]])
    n = rng.randint(1, 3)
    if u < .5:
        return [rng.choice(["list", "tuple", "deque"]), [nested(rng, depth - 1) for _ in range(n)]]
    if u < .75:
        return [rng.choice(["dict", "odict"]), [[["str", "k%d" % i], nested(rng, depth - 1)] for i in range(n)]]
    if u < .85:
        return ["dict", [[["int", str(i)] if rng.random() < .8 else ["num", "f2", 900 + i], nested(rng, depth - 1)] for i in range(n)]]
    if u < .92:
        return ["objarr", rng.choice([[n], [1, n], [n, 1]]), [nested(rng, depth - 1) for _ in range(n)]]
    return [rng.choice(["set", "frozenset"]), [["int", "1"], ["num", "f2", 40], ["str", "e"]][:n]]


DROP = object()


def individually(keys):
    """Whether a dict is stored with a member for each key."""
    names = []
    for a in keys:
        if a[0] not in ("str", "bytes", "npstr", "npbytes"):
            return False
        v = V.build(a)
        try:
            if isinstance(v, bytes):
                v = v.decode("utf-8")
            v.encode("utf-8")
        except UnicodeError:
            return False
        names.append(str(v))
    return "" not in names and len(set(names)) == len(names)


def discard(s):
    """What is left of a value when half precision numbers are discarded."""
    import collections
    import numpy as np
    k = s[0]
    if k in ("num", "arr") and s[1] == "f2":
        return DROP

    def sub(x):
        v = discard(x)
        return np.zeros((0, 0)) if v is DROP else v
    if k in ("list", "tuple", "deque"):
        return {"list": list, "tuple": tuple, "deque": collections.deque}[k]([sub(x) for x in s[1]])
    if k in ("set", "frozenset"):
        return {"set": set, "frozenset": frozenset}[k](v for v in map(discard, s[1]) if v is not DROP)
    if k == "objarr":
        a = np.empty(len(s[2]), object)
        for i, x in enumerate(s[2]):
            a[i] = sub(x)
        return a.reshape(s[1])
    if k in ("dict", "odict"):
        t = dict if k == "dict" else collections.OrderedDict
        if individually([a for a, b in s[1]]):
            return t((V.build(a), discard(b)) for a, b in s[1] if discard(b) is not DROP)
        return t((V.build(a), sub(b)) for a, b in s[1] if discard(a) is not DROP)
    return V.build(s)


def gen(rng, tier, index):
    from .c05 import value
    mat = rng.random() < .65
    opts = []
    for _ in range(rng.randint(1, 2)):
        kw = C.gen_opts(rng, mat=mat, custom=rng.random() < .5)
        if mat:
            kw["action_for_matlab_incompatible"] = rng.choice(["error", "error", "discard", "ignore"])
        opts.append(kw)
    g = V.Gen(rng, mat_ok=True, depth=rng.choice([1, 2, 3]), big=.01)
    names = C.pick_names(rng, rng.randint(2, 5), C.PLAIN_NAMES + [["g", "x"], ["g", "y"], ["é"]])
    ops = []
    kw = opts[0]
    for _ in range(rng.randint(4, 12)):
        u = rng.random()
        n = rng.choice(names)
        if u < .22:
            ops.append({"op": "write", "n": n, "v": value(g)})
        elif u < .42:
            leaf = rng.choice([["bad"], ["bad"], ["badsub"]]) if not mat or rng.random() < .6 else half(rng)
            v = leaf if rng.random() < .2 else plant(rng, value(g, 2), leaf)
            ops.append({"op": "write", "n": n, "v": v})
        elif u < .60:
            ops.append({"op": "line", "n": n, "v": value(g, 2), "at": int(10 ** rng.uniform(0, 2.9)),
                        "exc": rng.choice(["MemoryError", "KeyboardInterrupt"])})
            if rng.random() < .3:
                ops[-1].update(call=int(10 ** rng.uniform(0, 1.7)), exc=rng.choice(["OSError", "RuntimeError", "MemoryError"]))
        elif u < .68:
            ops.append({"op": "path", "n": n, "how": rng.choice(["through", "refs", "type", "part", "refsdict"]), "v": value(g)})
        elif u < .80:
            k = rng.sample(names, min(len(names), rng.randint(2, 4)))
            items = [{"n": x, "v": value(g)} for x in k]
            i = rng.randrange(len(items))
            items[i]["v"] = rng.choice([["bad"], plant(rng, value(g), ["bad"]), half(rng) if mat else ["badsub"]])
            ops.append({"op": "writes", "items": items, "pathfail": rng.choice([None, None, None, "refs", "type"]),
                        "how": rng.choice(["writes", "update"])})
        elif u < .86 and mat:
            ops.append({"op": "write", "n": n, "v": nested(rng, 3)})
        elif u < .90:
            ops.append({"op": "conv", "n": n, "v": rng.choice([["bad"], plant(rng, value(g), ["bad"])]),
                        "how": rng.choice(["write", "writes", "savemat"] if mat else ["write", "writes"])})
        elif u < .93:
            ops.append({"op": "del", "n": n})
        elif u < .96:
            ops.append({"op": "open", "o": rng.randrange(len(opts))})
        else:
            ops.append({"op": "flush"})
    return {"opts": opts, "vars": [{"n": n, "v": value(g)} for n in names if rng.random() < .6], "ops": ops,
            "fresh": rng.random() < .5, "rnd": rng.getrandbits(16)}


def valid(t):
    for o in t["ops"]:
        for x in [o] + o.get("items", []):
            if "v" in x and V.mat_incompatible(x["v"]) and not t["opts"][0]["matlab_compatible"]:
                return False
    return all(C.acceptable({"matlab_compatible": m}, x["v"]) for x in t["vars"] for m in (True, False))


def shrink(t):
    for i, o in enumerate(t["opts"]):
        for k in list(o):
            if k not in ("matlab_compatible", "action_for_matlab_incompatible"):
                yield dict(t, opts=t["opts"][:i] + [{a: b for a, b in o.items() if a != k}] + t["opts"][i + 1:])


class Run:
    def __init__(self, w, t):
        import hdf5storage
        self.w, self.t, self.hs = w, t, hdf5storage
        self.model = {}          # exact values, as Python objects (never handed out)
        self.spec = {}
        self.dirty = set()       # targets of failed writes
        self.mixed = set()       # may hold members left by earlier values
        self.f = None
        self.failed = 0

    def open(self, o):
        self.close()
        self.kw = self.t["opts"][o]
        self.f = self.hs.File(self.w.p("f.mat"), writable=True, options=C.options(self.kw))

    def close(self):
        if self.f is not None:
            self.f.close()
            self.f = None

    def put(self, n, spec, action=None):
        """The write of n succeeded."""
        import copy
        n = tuple(n)
        old = self.spec.get(n)
        v = discard(spec) if action == "discard" else V.build(spec)
        if v is DROP:            # nothing happened
            return
        if n in self.dirty:
            self.w.stats["probe.rewritten"] += 1
        if C.merges(self.kw, old, spec) or n in self.mixed | self.dirty and C.merges(self.kw, spec, spec):
            self.mixed.add(n)
        else:
            self.mixed.discard(n)
        self.dirty.discard(n)
        self.model[n] = copy.deepcopy(v)
        self.spec[n] = spec
        self.order = C.order_of(self.kw, spec)
        self.orders = getattr(self, "orders", {})
        self.orders[n] = self.order

    def spoil(self, n):
        n = tuple(n)
        self.dirty.add(n)
        self.spec.pop(n, None)
        self.model.pop(n, None)

    def verify(self, f, what, kw=None):
        kw = kw or self.kw
        for n in sorted(self.model):
            if n in self.mixed:
                continue
            o = self.orders[n]
            if o is not None and o != C.rdo(kw):
                continue
            try:
                got = f.read(C.as_path(list(n)))
            except Exception as e:
                raise Violation("harmed", "%s: reading %r raised %s: %.200s" % (what, n, C.exname(e), e))
            why = []
            if not V.same(self.model[n], got, why):
                raise Violation("harmed", "%s: %r (stored: %.150s): %s" % (what, n, self.spec[n], "; ".join(why)[:300]))

    def attempt(self, fn, must=None):
        """None if fn returned, else the name of what it raised."""
        try:
            fn()
        except (Exception, KeyboardInterrupt) as e:
            self.failed += 1
            self.w.log("failed", C.exname(e))
            return C.exname(e)
        return None

    def refuses(self, spec):
        if V.has_bad(spec):
            return True
        if self.kw["matlab_compatible"]:
            return V.mat_incompatible(spec) and self.kw["action_for_matlab_incompatible"] == "error"
        return C.plain_refused(self.kw, spec)

    def whole(self, spec):
        return spec[0] in ("bad", "badsub") or spec[0] in ("num", "arr")

    def after_failure(self, n, spec, what, err):
        """A write of spec to n failed."""
        if spec is not None and self.whole(spec):
            self.w.stats["probe.refused-whole"] += 1
        else:
            self.w.stats["probe.failed-inside"] += 1
            self.spoil(n)
        self.w.state(what, spec and spec[0], self.spec.get(tuple(n), "-")[0], err, sorted(self.kw.items()))

    def do(self, op):
        k, w = op["op"], self.w
        if k == "open":
            self.open(op["o"])
        elif k == "flush":
            self.f.flush()
        elif k == "del":
            n = tuple(op["n"])
            p = C.as_path(op["n"])

            def go():
                del self.f[p]
            e = self.attempt(go)
            if e is not None and (n in self.model or e != "KeyError"):
                raise Violation("stuck", "deleting %r raised %s" % (n, e))
            for d in (self.model, self.spec):
                d.pop(n, None)
            for d in (self.dirty, self.mixed):
                d.discard(n)
        elif k == "write":
            v = V.build(op["v"])
            refused = self.refuses(op["v"])
            e = self.attempt(lambda: self.f.write(v, C.as_path(op["n"])))
            if e is None and refused:
                raise Violation("not-refused", "writing %.200s raised nothing" % (op["v"],))
            if e is not None and not refused:
                raise Violation("stuck", "writing %.200s after %d failures raised %s" % (op["v"], self.failed - 1, e))
            if e is None:
                a = self.kw.get("action_for_matlab_incompatible") if V.mat_incompatible(op["v"]) else None
                if a == "discard":
                    w.stats["probe.discarded"] += 1
                elif a == "ignore":
                    w.stats["probe.ignored"] += 1
                self.put(op["n"], op["v"], a)
            else:
                self.after_failure(op["n"], op["v"], "value", e)
        elif k == "line":
            if self.refuses(op["v"]) or V.mat_incompatible(op["v"]):
                return
            v = V.build(op["v"])
            inj = inject.CallInjector(w, dict(op, skip=("__len__",))) if "call" in op else inject.Injector(w, op["at"], op["exc"])
            with inj:
                e = self.attempt(lambda: self.f.write(v, C.as_path(op["n"])))
            if e is not None and inj.fired is None:
                raise Violation("stuck", "writing %.200s raised %s" % (op["v"], e))
            if e is None:
                self.put(op["n"], op["v"])
            else:
                self.after_failure(op["n"], None, inj.fired, e)
        elif k == "path":
            self.path(op)
        elif k == "writes":
            self.writes(op)
        elif k == "conv":
            self.conv(op)
        self.verify(self.f, "after %s" % what(op))

    def path(self, op):
        n = tuple(op["n"])
        how = op["how"]
        v = V.build(op["v"])
        if how == "through":
            if n not in self.model or C.group_stored(self.spec[n]) or n in self.mixed:
                return
            p = C.as_path(list(n) + ["sub", "x"][:1 + len(self.model) % 2])
            if self.refuses(op["v"]):
                return
        elif how == "refs":
            p = "/#refs#/x"
        elif how == "refsdict":
            if self.kw.get("group_for_references", "/#refs#") != "/#refs#":
                return
            p, v = "/#refs#", {"a": 1}
        elif how == "type":
            p = 7
        else:
            p = ("a", 7)
        e = self.attempt(lambda: self.f.write(v, p))
        if e is None:
            raise Violation("not-refused", "writing to %r raised nothing" % (p,))
        self.w.stats["probe.failed-path"] += 1
        self.w.state("path", how, e)

    def writes(self, op):
        m = {}
        items = [i for i in op["items"]]
        order = []
        for i in items:
            m[C.as_path(i["n"])] = V.build(i["v"])
            order.append(i)
        if op["pathfail"]:
            m["/#refs#/y" if op["pathfail"] == "refs" else 7] = 1
        if op["how"] == "update" and not op["pathfail"]:
            e = self.attempt(lambda: self.f.update(m))
        else:
            e = self.attempt(lambda: self.f.writes(m))
        if op["pathfail"]:
            if e is None:
                raise Violation("not-refused", "writes with an impossible path raised nothing")
            self.w.stats["probe.failed-path"] += 1
            return               # nothing was written
        for j, i in enumerate(order):
            if self.refuses(i["v"]):
                if e is None:
                    raise Violation("not-refused", "writes with %.200s raised nothing" % (i["v"],))
                self.after_failure(i["n"], i["v"], "item %d" % j, e)
                if j:
                    self.w.stats["probe.earlier-items-complete"] += 1
                return
            a = self.kw.get("action_for_matlab_incompatible") if V.mat_incompatible(i["v"]) else None
            self.put(i["n"], i["v"], a)
        if e is not None:
            raise Violation("stuck", "writes of values that can be stored raised %s" % e)

    def conv(self, op):
        self.close()
        v, p, fn = V.build(op["v"]), C.as_path(op["n"]), self.w.p("f.mat")
        kw = dict(self.kw)
        if op["how"] == "write":
            e = self.attempt(lambda: self.hs.write(v, p, filename=fn, **kw))
        elif op["how"] == "writes":
            e = self.attempt(lambda: self.hs.writes({p: v}, filename=fn, **kw))
        else:
            e = self.attempt(lambda: self.hs.savemat(fn, {p: v}, appendmat=False))
        if e is None:
            raise Violation("not-refused", "%s of %.200s raised nothing" % (op["how"], op["v"]))
        self.w.stats["probe.conv-failed"] += 1
        self.after_failure(op["n"], op["v"], "conv", e)
        self.f = self.hs.File(fn, writable=True, options=C.options(self.kw))


def what(op):
    return {k: v for k, v in op.items() if k in ("op", "n", "how", "at", "exc", "pathfail", "call")}


def execute(w, t):
    w.seed_random(t["rnd"])
    r = Run(w, t)
    r.open(0)
    for i in t["vars"]:
        r.f.write(V.build(i["v"]), C.as_path(i["n"]))
        r.put(i["n"], i["v"])
    if t["fresh"]:
        r.open(0)
    for op in t["ops"]:
        w.log("op", op["op"], op.get("n", ""))
        r.do(op)
    # the same file object still stores containers, in the right form
    v = ["list", [["int", "1"], ["dict", [[["str", "k"], ["tuple", [["str", "x"]]]]]], ["objarr", [2], [["none"], ["str", "y"]]]]]
    e = r.attempt(lambda: r.f.write(V.build(v), "/last"))
    if e is not None:
        raise Violation("stuck", "writing a list at the end raised %s" % e)
    r.put(["last"], v)
    r.verify(r.f, "the end")
    r.close()
    if r.kw["matlab_compatible"]:
        form(w, r.failed)
    with r.hs.File(w.p("f.mat"), options=C.options(r.kw)) as f:
        r.verify(f, "in a new file object")
    return {"nontrivial": r.failed > 0}


def form(w, failed):
    import h5py
    import numpy as np
    w.disk.quiet = True
    with h5py.File(w.p("f.mat"), "r") as f:
        for x in f["last"][...].ravel():
            p = f[x].attrs.get("H5PATH")
            if p is None or bytes(np.bytes_(p)) != b"/#refs#":
                raise Violation("form", "an element written after %d failures has H5PATH %r" % (failed, p))
        a = f["#refs#"].get("a")
        if a is None or a.attrs.get("MATLAB_empty") != 1 or a.attrs.get("MATLAB_class") != b"canonical empty":
            raise Violation("form", "the canonical empty is %r after %d failures" % (a and dict(a.attrs), failed))
    w.disk.quiet = False
