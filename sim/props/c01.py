"""C01 Acknowledged writes read back exactly, whatever the history."""
import random

from .. import values as V
from ..world import Violation
from . import common as C

ID = "C01"
LEVEL = "exploration"
RULE = ("a run is a random history of 4-14 operations (write, writes, item assignment, update, savemat, delete, "
        "flush, close, reopen with other options, sometimes through two objects at once, read, reads, loadmat) over 2-5 variables of one file with random "
        "values of every supported type, with EINTR and short transfers; non-trivial: at least one variable was "
        "overwritten or deleted and read again")
RUNS = {"quick": 3200, "thorough": 60000}
STATE_RULE = "kinds of old and new value of every overwrite, with the options in force"
MUST_HIT = ("probe.overwrite-other-kind", "probe.delete", "probe.reopen-other-options", "fault.EINTR",
            "fault.short-write", "fault.short-read", "probe.root", "probe.two-objects")
ASSUMPTIONS = ["values are drawn from a generator of every type the documentation lists; np.str_/np.bytes_ without "
               "trailing null characters, deque without maxlen and datetime with fold=0"]


def gen(rng, tier, index):
    refs = rng.choice(["/#refs#"] * 5 + ["/refs_é", "/zrefs/in"])
    allmat = rng.random() < .35
    opts = [C.gen_opts(rng, mat=True if allmat else None, refs=refs) for _ in range(rng.randint(1, 3))]
    root = refs == "/#refs#" and rng.random() < .06
    names = [[]] if root else C.pick_names(rng, rng.randint(2, 5))
    ops = []
    kw = None
    empties = rng.random() < .1
    if empties:
        for o in opts:
            if not o["matlab_compatible"]:
                o["store_shape_for_empty"] = True
    last = {}
    recycle = rng.random() < .3
    two = rng.random() < .15
    for _ in range(rng.randint(4, 14)):
        u = rng.random()
        if two and kw is not None and (u < .08 or u >= .83) and rng.random() < .8:
            u = rng.random() * .75 + .08
        if kw is None or u < .08:
            o = rng.randrange(len(opts))
            kw = opts[o]
            ops.append({"op": "open", "o": o})
            continue
        g = V.Gen(rng, mat_ok=not any(not o.get("matlab_compatible") for o in opts), depth=rng.choice([1, 2, 3]))

        def val(kw=kw, n=None):
            s = _val(kw, n)
            last[repr(n)] = s
            return s

        def _val(kw, n):
            old = last.get(repr(n))
            if old is not None and not root and rng.random() < .35:
                s = V.vary(rng, old)
                if C.acceptable(kw, s):
                    return s
            for _ in range(50):
                if recycle and not root and rng.random() < .25:
                    # what recycled objects are likely to be found for
                    k = rng.randint(1, 3)
                    x = [["arr", rng.choice(["f8", "f8", "u1"]), [rng.choice([3, 3, 1])], rng.getrandbits(30), "C", "ndarray"]
                         for _ in range(k)]
                    s = rng.choice([["objarr", [k], x], ["list", x], ["tuple", x], ["dict", [[["str", "ab%d" % i], y]
                                    for i, y in enumerate(x)]], x[0]])
                elif root:
                    s = ["dict", g.items(rng.randint(0, 3), 2)]
                    if not rootable(s):
                        continue
                elif empties and old is not None and old[0] == "arr" and 0 in old[2] and rng.random() < .5:
                    # an array like the stored shape of the empty one
                    s = ["arr", "u8", rng.choice([[len(old[2])], [len(old[2])], [1, len(old[2])], [len(old[2]), 1]]),
                         rng.getrandbits(30), "C", "ndarray"]
                elif empties and rng.random() < .4:
                    s = ["arr", rng.choice(["u8", "u8", "f8", "i4", "bool"]),
                         rng.choice([[0, 3], [2, 0], [0], [0, 0, 2], [2], [2, 1], [3, 1], [1, 2]]), rng.getrandbits(30), "C",
                         "ndarray"]
                else:
                    s = g.value()
                if C.acceptable(kw, s):
                    return s
            return ["int", "7"] if not root else ["dict", []]
        n = rng.choice(names)
        f = rng.choice(C.FORMS)
        if u < .50:
            ops.append({"op": rng.choice(["write", "write", "setitem", "update"]), "n": n, "f": f, "v": val(kw, n)})
        elif u < .60 and not root:
            k = C.pick_names(rng, rng.randint(1, 3), names)
            ops.append({"op": "writes", "items": [{"n": x, "f": rng.choice([0, 0, 1]), "v": val(kw, x)} for x in k]})
        elif u < .68 and not root:
            ops.append({"op": "del", "n": n, "f": f})
        elif u < .74:
            ops.append({"op": "read", "n": n, "f": f})
        elif u < .80:
            ops.append({"op": "reads", "twice": rng.getrandbits(16) if rng.random() < .6 else None})
        elif u < .83:
            ops.append({"op": "flush"})
        elif u < .88 and not root:
            o = rng.randrange(len(opts))
            kw = opts[o]
            ops.append({"op": "cwrite", "n": n, "f": f, "v": val(kw, n), "o": o})
            kw = None
        elif u < .92 and not root:
            mk = {"matlab_compatible": True}
            s = val(mk, n)
            ops.append({"op": "savemat", "items": [{"n": n, "f": f if f not in (3, 4) else 0, "v": s}],
                        "oned": rng.choice(["row", "column"])})
            kw = None
        elif u < .95:
            ops.append({"op": "creads", "o": rng.choice([None] + list(range(len(opts))))})
            kw = None
        else:
            ops.append({"op": "close"})
            kw = None
    io = None
    if rng.random() < .7:
        io = {"seed": rng.getrandbits(32), "pe": rng.choice([0, .02, .1, .3]), "ps": rng.choice([0, .05, .3, .6])}
    return {"opts": opts, "refs": refs, "ops": ops, "io": io, "recycle": recycle, "rnd": rng.getrandbits(32),
            "two": two}


LISTS = ("ops", "items", "faults")


def rootable(s):
    return s[0] == "dict" and all(a[0] == "str" and not a[1].startswith("#refs") for a, b in s[1])


def valid(t):
    """Minimised traces stay within what gen makes."""
    for op in t["ops"]:
        for i in [op] + op.get("items", []):
            if "v" in i and i.get("n") == [] and not rootable(i["v"]):
                return False
    return True


def shrink(t):
    if t.get("io"):
        yield dict(t, io=None)
    if t.get("two"):
        yield dict(t, two=False)
    for i, o in enumerate(t["opts"]):
        for k in list(o):
            if k != "matlab_compatible":
                yield dict(t, opts=t["opts"][:i] + [{a: b for a, b in o.items() if a != k}] + t["opts"][i + 1:])
    for i, op in enumerate(t["ops"]):
        if op.get("f"):
            yield dict(t, ops=t["ops"][:i] + [dict(op, f=0)] + t["ops"][i + 1:])


class Run:
    fname = "data.mat"

    def __init__(self, w, t):
        import hdf5storage
        self.hs = hdf5storage
        self.w = w
        self.t = t
        self.f = None
        self.g = None        # another object for the same file
        self.kw = None
        self.model = {}
        self.nontrivial = False
        self.gone = set()
        self.order = {}
        self.struct = {}
        self.dirty = set()
        self.pool = {}

    def matfile(self):
        """The file as savemat and loadmat may be told."""
        p = self.w.p(self.fname)
        self.calls = getattr(self, "calls", 0) + 1
        u = random.Random("name-%s-%d" % (self.t["rnd"], self.calls)).random()
        if u < .35:
            return p, {}
        if u < .6:
            return p, {"appendmat": False}
        return p[:-len(".mat")], {}

    def build(self, spec):
        """The value, possibly in objects that were written before."""
        v = V.build(spec)
        if self.t.get("recycle"):
            used = []
            v = C.recycle(v, self.pool, used)
            for k, o in used:
                self.pool.setdefault(k, []).append(o)
        return v

    def open(self, o):
        self.close()
        kw = self.t["opts"][o]
        if self.kw is not None and self.kw is not kw:
            self.w.stats["probe.reopen-other-options"] += 1
        self.kw = kw
        self.f = self.hs.File(self.w.p(self.fname), writable=True, options=C.options(kw))
        if self.t.get("two"):
            self.g = self.hs.File(self.w.p(self.fname), writable=True, options=C.options(kw))
            self.turn = random.Random("two-%s" % self.t["rnd"])
            self.w.stats["probe.two-objects"] += 1

    def close(self):
        if self.g is not None:
            self.g.close()
            self.g = None
        if self.f is not None:
            self.f.close()
            self.f = None

    def ensure(self):
        if self.f is None:
            self.open(0)

    def note(self, n, spec):
        k = tuple(n)
        old = self.model.get(k)
        kw = self.kw if self.kw is not None else {"matlab_compatible": True}
        self.order[k] = C.order_of(kw, spec)
        self.struct[k] = any(kw.get(x) for x in ("matlab_compatible", "structured_numpy_ndarray_as_struct", "store_shape_for_empty"))
        if C.merges(kw, old, spec) or (k in self.dirty and C.merges(kw, spec, spec)):
            self.dirty.add(k)
        else:
            self.dirty.discard(k)
        if old is not None:
            self.nontrivial = True
            if old[0] != spec[0]:
                self.w.stats["probe.overwrite-other-kind"] += 1
            self.w.state(old[0], old[1] if old[0] == "arr" else "", spec[0], spec[1] if spec[0] == "arr" else "",
                         sorted(self.kw.items()) if self.kw else "savemat")
        if not n:
            self.w.stats["probe.root"] += 1
        self.gone.discard(k)
        self.model[k] = spec

    def ok(self, kw, spec):
        """Guards minimised traces: every write must be one that has to succeed."""
        return C.acceptable(kw, spec)

    def call(self, what, fn):
        try:
            return fn()
        except Violation:
            raise
        except Exception as e:
            raise Violation("%s-fails" % what.split()[0], "%s raised %s: %.200s" % (what, C.exname(e), e))

    def readable(self, n, kw):
        """Whether the options kw read the variable back exactly."""
        k = tuple(n)
        o = self.order.get(k)
        return (k in self.model and k not in self.dirty
                and (self.t.get("strict") or o is None or o == C.rdo(kw)))

    def check(self, n, got, what):
        V.AS_STRUCT = None if self.t.get("strict") else self.struct.get(tuple(n), True)
        C.check_equal(self.model[tuple(n)], got, "wrong-value", "%s of %r (stored: %.120s)" % (what, n, self.model[tuple(n)]))

    def paths(self, kw):
        return [list(k) for k in sorted(self.model) if self.readable(k, kw)]

    def verify_all(self, f, what):
        names = self.paths(self.kw)
        got = self.call("read all", lambda: f.reads([C.as_path(n) if n else "/" for n in names]))
        for n, v in zip(names, got):
            self.check(n, v, what)
        for k in sorted(self.gone):
            try:
                f.read(C.as_path(list(k)))
            except KeyError:
                continue
            except Exception as e:
                raise Violation("deleted", "reading the deleted %r raised %s" % (k, C.exname(e)))
            raise Violation("deleted", "the deleted %r is still there" % (k,))

    def twice(self, seed):
        """One call that reads variables more than once, in any order."""
        names = self.paths(self.kw)
        r = random.Random("twice-%s" % seed)
        names = [n for n in names for _ in range(r.choice([1, 1, 2, 3]))]
        r.shuffle(names)
        forms = [r.choice([0, 0, 1, 3]) for n in names]
        got = self.call("reads of %r" % names, lambda: self.f.reads([C.as_path(n, f) if n else "/" for n, f in zip(names, forms)]))
        if len(names) != len(got):
            raise Violation("wrong-number", "reads of %d gave %d" % (len(names), len(got)))
        for n, v in zip(names, got):
            self.check(n, v, "reads of %r" % names)
            C.mutate(v)

    def do(self, op):
        w, hs = self.w, self.hs
        k = op["op"]
        if self.g is not None:
            if self.turn.random() < .5:
                self.f, self.g = self.g, self.f
        if k == "open":
            self.open(op["o"])
            if self.model:
                self.verify_all(self.f, "reopen")
        elif k in ("write", "setitem", "update"):
            self.ensure()
            if not self.ok(self.kw, op["v"]):
                return
            p = C.as_path(op["n"], op["f"]) if op["n"] else "/"
            if k == "update" and isinstance(p, list):
                p = tuple(p)
            v = self.build(op["v"])

            def go():
                if k == "write":
                    self.f.write(v, p)
                elif k == "setitem":
                    self.f[p] = v
                else:
                    self.f.update({p: v})
            self.call("write of %.200s" % (op["v"],), go)
            self.note(op["n"], op["v"])
            C.check_equal(op["v"], v, "caller-altered", "the caller's object")
            C.mutate(v)
            if self.readable(op["n"], self.kw):
                got = self.call("read", lambda: self.f.read(p))
                self.check(op["n"], got, "read after write")
        elif k == "writes":
            self.ensure()
            items = [i for i in op["items"] if self.ok(self.kw, i["v"])]
            vals = [V.build(i["v"]) for i in items]
            m = {C.as_path(i["n"], i["f"]): v for i, v in zip(items, vals)}
            self.call("writes", lambda: self.f.writes(m))
            for i, v in zip(items, vals):
                self.note(i["n"], i["v"])
                C.check_equal(i["v"], v, "caller-altered", "the caller's object")
        elif k == "del":
            self.ensure()
            key = tuple(op["n"])
            p = C.as_path(op["n"], op["f"])
            if key in self.model:
                def go():
                    del self.f[p]
                self.call("del", go)
                del self.model[key]
                self.gone.add(key)
                self.nontrivial = True
                w.stats["probe.delete"] += 1
            else:
                try:
                    del self.f[p]
                except KeyError:
                    pass
                except Exception as e:
                    raise Violation("del-missing", "deleting the missing %r raised %s" % (p, C.exname(e)))
                else:
                    raise Violation("del-missing", "deleting the missing %r raised nothing" % (p,))
        elif k == "read":
            self.ensure()
            key = tuple(op["n"])
            p = C.as_path(op["n"], op["f"]) if op["n"] else "/"
            if key in self.model:
                if not self.readable(key, self.kw):
                    return
                got = self.call("read", lambda: self.f.read(p))
                self.check(op["n"], got, "read")
                C.mutate(got)
                got = self.call("read", lambda: self.f[p])
                self.check(op["n"], got, "second read")
            elif key:
                try:
                    self.f.read(p)
                except KeyError:
                    pass
                except Exception as e:
                    raise Violation("read-missing", "reading the missing %r raised %s" % (p, C.exname(e)))
                else:
                    raise Violation("read-missing", "reading the missing %r raised nothing" % (p,))
        elif k == "reads":
            self.ensure()
            self.verify_all(self.f, "reads")
            if op.get("twice") is not None:
                self.twice(op["twice"])
        elif k == "flush":
            self.ensure()
            self.call("flush", self.f.flush)
        elif k == "close":
            self.call("close", self.close)
        elif k == "cwrite":
            self.close()
            kw = self.t["opts"][op["o"]]
            if not self.ok(kw, op["v"]):
                return
            v = self.build(op["v"])
            p = C.as_path(op["n"], op["f"])
            self.kw = kw
            self.call("write() of %.200s" % (op["v"],),
                      lambda: hs.write(v, p, filename=w.p(self.fname), **_kw(kw)))
            self.note(op["n"], op["v"])
            C.check_equal(op["v"], v, "caller-altered", "the caller's object")
        elif k == "savemat":
            self.close()
            if self.t["refs"] != "/#refs#":
                return
            items = [i for i in op["items"] if self.ok({"matlab_compatible": True}, i["v"])]
            m = {C.as_path(i["n"], i["f"]): V.build(i["v"]) for i in items}
            self.kw = None
            fn, fk = self.matfile()
            self.call("savemat to %r" % (fn,), lambda: hs.savemat(fn, m, oned_as=op["oned"], **fk))
            for i in items:
                self.note(i["n"], i["v"])
        elif k == "creads":
            self.close()
            if not self.model:
                return
            kw = {} if op["o"] is None else _kw(self.t["opts"][op["o"]])
            names = self.paths(kw)
            if not names:
                return
            if self.t["refs"] != "/#refs#" and not kw.get("matlab_compatible", False):
                kw["group_for_references"] = self.t["refs"]
            got = self.call("reads()", lambda: hs.reads([C.as_path(n) if n else "/" for n in names],
                                                       filename=w.p(self.fname), **kw))
            for n, v in zip(names, got):
                self.check(n, v, "reads()")
            got = self.call("read()", lambda: hs.read(C.as_path(names[0]) if names[0] else "/",
                                                     filename=w.p(self.fname), **kw))
            self.check(names[0], got, "read()")
            names = self.paths({"matlab_compatible": True})
            if self.t["refs"] == "/#refs#" and names and names[0] and len(names) == len(self.model):
                fn, fk = self.matfile()
                had = {"what was there": 7}
                got = self.call("loadmat of %r" % (fn,), lambda: hs.loadmat(fn, had, **fk))
                if got is not had or got.pop("what was there", None) != 7:
                    raise Violation("loadmat-mdict", "loadmat didn't add to the given dict, it gave %.200r" % (got,))
                for n in names:
                    if len(n) == 1:
                        if n[0] not in got:
                            raise Violation("loadmat-lacks", "loadmat lacks %r, has %r" % (n[0], sorted(got)))
                        self.check(n, got[n[0]], "loadmat")
                extra = set(got) - {n[0] for n in self.model} - {n[0] for n in C.NAMES if len(n) > 1}
                if extra:
                    raise Violation("loadmat-extra", "loadmat gave %r too" % sorted(extra))
                some = names[-1]
                got = self.call("loadmat", lambda: hs.loadmat(fn, variable_names=[C.as_path(some), "/nonesuch"], **fk))
                if list(got) != [C.as_path(some)]:
                    raise Violation("loadmat-names", "loadmat of %r gave %r" % (some, list(got)))
                self.check(some, got[C.as_path(some)], "loadmat of one")


def _kw(kw):
    kw = dict(kw)
    return kw


def execute(w, t):
    w.seed_random(t.get("rnd", 0))
    r = Run(w, t)
    io = t.get("io")
    if io and "faults" in io:
        w.disk.arm(io["faults"])
    elif io:
        w.disk.rand = (random.Random("io-%s" % io["seed"]), io["pe"], io["ps"])
    try:
        for i, op in enumerate(t["ops"]):
            w.log("op", i, op["op"], op.get("n", ""))
            r.do(op)
            if r.g is not None and op["op"] in ("write", "setitem", "update", "writes", "del") and r.turn.random() < .6:
                r.verify_all(r.g, "through another object")
        r.close()
        for o in range(len(t["opts"])):
            if r.model:
                r.open(o)
                r.verify_all(r.f, "the end")
                r.close()
    except Violation as e:
        if io and "faults" not in io:
            fired = [x for x in w.disk.fired]
            e.narrow = dict(t, io={"faults": fired})
        raise
    left = w.disk.open_fds()
    if left:
        raise Violation("fd-left", "descriptors left open: %r" % left)
    w.state("end", len(r.model))
    return {"nontrivial": r.nontrivial}
