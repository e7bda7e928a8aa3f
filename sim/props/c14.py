"""C14 The mapping view always matches the variables in the file."""
from .. import values as V
from ..world import Violation
from . import common as C
from . import c02
from . import threads as T

ID = "C14"
LEVEL = "exploration"
RULE = ("a run is either a history of mapping operations of every kind (with containers, failing writes, sessions with other "
        "options, interrupted and short system calls) on a file that may hold what another writer put there, after each of "
        "which length, iteration, keys, values, items, membership, get and equality are compared with a dictionary; or 2-4 "
        "threads that iterate, hold iterators, list items, write, delete and close under a seeded schedule, whose listings "
        "must be the names of one instant (linearizability). Non-trivial: the file held a container, or threads were preempted")
RUNS = {"quick": 3000, "thorough": 80000}
STATE_RULE = "operation and number of variables (single), hash of the interleaving (threads)"
MUST_HIT = ("probe.container", "probe.popitem", "probe.clear", "probe.foreign", "probe.nested", "probe.preempted", "probe.held-iterator", "probe.iter-after-close",
            "probe.items-race", "probe.refused", "probe.closed", "probe.equal")
STUBS = ["threading.Lock in the library: a simulated lock with the same interface", "thread scheduling: seeded",
         "disk: tmpfs behind the system call shim", "random numbers: seeded"]
ASSUMPTIONS = ["membership of the path of the group for references is not judged, nor is emptying the file when that group lies inside of another",
               "items of a concurrent listing may be missing by then (KeyError) when another thread deletes",
               "equality is used where all values compare to a single truth value"]
LISTS = ("ops", "switches", "init", "foreign")
OPS = ["set", "set", "set", "setl", "del", "pop", "popdef", "popitem", "setdefault", "update", "updatepairs", "updatekw", "clear", "get", "bad", "badnew",
       "nest", "reopen", "delmissing", "popmissing", "flush", "savemat", "heldclose", "refused", "writesmany"]
NAMES = ["a", "b", "c", "zz", "A1", "é", "with space", "#a", "~t", "back\\\\slash", "x\\x2fy", "#refs#x", "r1", "a0b"]


def gen(rng, tier, index):
    from .c05 import value
    if rng.random() < .45:
        return gen_threads(rng)
    g = V.Gen(rng, mat_ok=True, depth=rng.choice([1, 2]), big=0)
    refs = rng.choice(["/#refs#", "/#refs#", "/#refs#", "/r", "/a0", "/xr/refs", "/r"])
    kws = [C.gen_opts(rng, mat=rng.random() < .6 and refs == "/#refs#", actions=False, refs=refs) for _ in range(2)]
    if refs != "/#refs#":
        for kw in kws:
            if rng.random() < .4:
                kw["group_for_references"] = rng.choice(["/%s/", "//%s", "/./%s", "/%s/.", "/q/../%s"]) % refs[1:]
    scalar = rng.random() < .3
    names = rng.sample(NAMES, 4)

    def val():
        if scalar:
            return rng.choice([["int", str(rng.randrange(50))], ["str", "t%d" % rng.randrange(9)], ["float", (rng.randrange(9) + .5).hex()],
                               ["list", [["int", "1"]]]])
        return value(g)
    ops = []
    for _ in range(rng.randint(4, 14)):
        k = rng.choice(OPS)
        ops.append({"op": k, "n": rng.choice(names), "v": val(), "m": rng.choice(names), "o": rng.randrange(2)})
    return {"mode": "single", "kws": kws, "refs": refs, "scalar": scalar, "ops": ops,
            "foreign": rng.sample(["ds", "grp", "fa", "~f"], rng.choice([0, 0, 0, 1, 2])), "noise": rng.random() < .3, "rnd": rng.getrandbits(16)}


def gen_threads(rng):
    n = [0]

    def val():
        n[0] += 1
        return T.uval(rng, n[0])
    names = ["a", "b", "c", "d", "e"]
    nt = rng.choice([2, 2, 3, 3, 4])
    threads = []
    close = rng.random() < .35
    for i in range(nt):
        ops = []
        for _ in range(rng.randint(1, 4)):
            k = rng.choice(["iter", "keys", "hold", "hold", "items", "items", "len"] if i == 0 else
                           ["write", "write", "del", "del", "iter", "hold", "items", "len", "in", "write", "writes"] + ["close"] * close)
            op = {"op": k, "n": rng.choice(names)}
            if k == "write":
                op["v"] = val()
            if k == "writes":
                op["items"] = [{"n": x, "v": val()} for x in rng.sample(names, 2)]
            ops.append(op)
        threads.append(ops)
    return {"mode": "threads", "opts": {"matlab_compatible": rng.random() < .6, "delete_unused_variables": True}, "init": [{"n": x, "v": val()} for x in names[:rng.randint(0, 4)]],
            "threads": threads, "sched": T.gen_sched(rng), "rnd": rng.getrandbits(16)}


def valid(t):
    return t["mode"] == "single" or c02.valid(t)


def shrink(t):
    if t["mode"] == "threads":
        yield from c02.shrink(t)
        return
    if t["noise"]:
        yield dict(t, noise=False)
    for i, kw in enumerate(t["kws"]):
        for k in list(kw):
            if k not in ("matlab_compatible", "group_for_references"):
                yield dict(t, kws=t["kws"][:i] + [{a: b for a, b in kw.items() if a != k}] + t["kws"][i + 1:])


def execute(w, t):
    w.seed_random(t["rnd"])
    return threads(w, t) if t["mode"] == "threads" else Single(w, t).run()


class Single:
    def __init__(self, w, t):
        self.w, self.t = w, t
        self.model = {}      # name in the file -> spec, or None if not compared
        self.rdo = {}
        self.p = w.p("f.mat")

    def run(self):
        import h5py
        import random
        import hdf5storage as hs
        w, t = self.w, self.t
        if t["foreign"]:
            w.disk.quiet = True
            with h5py.File(self.p, "w", userblock_size=512) as f:
                for n in t["foreign"]:
                    w.stats["probe.foreign"] += 1
                    if n == "grp":
                        f.create_group("grp")["x"] = 1.5
                    else:
                        f[n] = [1.0, 2.0]
                    self.model[n] = None
            w.disk.quiet = False
        self.kw = t["kws"][0]
        if t["noise"]:
            w.disk.rand = (random.Random(t["rnd"]), .02, .05)
        self.f = hs.File(self.p, writable=True, **self.kw)
        self.nested = t["refs"].count("/") > 1
        if self.nested:
            # the Group that holds the one for the references is a variable as any other, but cannot be deleted
            self.f["first"] = [1]
            del self.f["first"]
            self.model[t["refs"].split("/")[1]] = None
            w.stats["probe.nested"] += 1
        nt = False
        for i, op in enumerate(t["ops"]):
            what = "op %d (%s)" % (i, op["op"])
            try:
                self.step(op, what)
            except (Violation, MemoryError):
                raise
            except Exception as e:
                raise Violation("refused", "%s raised %s: %.300s" % (what, C.exname(e), e))
            w.log(op["op"], len(self.model))
            w.state(op["op"], min(len(self.model), 5), t["refs"], bool(t["foreign"]))
            try:
                self.check(what)
            except (Violation, MemoryError):
                raise
            except Exception as e:
                raise Violation("refused", "after %s the comparison raised %s: %.300s" % (what, C.exname(e), e))
            nt |= any(s is not None and s[0] in ("list", "tuple", "objarr", "set", "dict") for s in self.model.values())
        w.stats["probe.container"] += nt
        it = iter(self.f)
        held = sorted(self.model)
        self.f.close()
        try:
            if sorted(it) != held:
                raise Violation("torn", "an iterator that was finished after close() did not give the names")
        except OSError:
            pass
        w.stats["probe.iter-after-close"] += 1
        for k, fn in (("len", lambda: len(self.f)), ("iter", lambda: list(self.f)), ("keys", lambda: list(self.f.keys())),
                      ("items", lambda: list(self.f.items())), ("in", lambda: "a" in self.f), ("get", lambda: self.f.get("a")),
                      ("popitem", lambda: self.f.popitem()), ("clear", lambda: self.f.clear()), ("pop", lambda: self.f.pop("a", 1)),
                      ("update", lambda: self.f.update({"a": 1})), ("setdefault", lambda: self.f.setdefault("a", 1)),
                      ("values", lambda: list(self.f.values()))):
            try:
                r = fn()
            except OSError:
                w.stats["probe.closed"] += 1
                continue
            except Exception as e:
                raise Violation("after-close", "%s after close() raised %s" % (k, C.exname(e)))
            raise Violation("after-close", "%s after close() gave %.100r" % (k, r))
        return {"nontrivial": nt}

    def put(self, n, spec):
        old = self.model.get(n, 0)
        mixed = old is None and (n in self.t["foreign"] or C.merges(self.kw, spec, spec))     # merged with what is not known
        self.model[n] = None if mixed or C.merges(self.kw, old or None, spec) else spec
        self.rdo[n] = C.rdo(self.kw)

    def readable(self, n):
        s = self.model[n]
        return s is not None and C.order_of({"reverse_dimension_order": self.rdo[n]}, s) in (None, C.rdo(self.kw))

    def same(self, n, got, what):
        if not self.readable(n):
            return
        why = []
        if not V.same(V.build(self.model[n]), got, why):
            raise Violation("wrong-value", "%s: the value of %r is wrong: %s" % (what, n, "; ".join(why)[:300]))

    def key(self, n):
        """The name in the file of the path n: the same, as it is escaped."""
        return n

    def step(self, op, what):
        import hdf5storage as hs
        f, k, n, m = self.f, op["op"], op["n"], op["m"]
        model = self.model
        v = V.build(op["v"])
        if k in ("set", "setl"):
            if k == "setl" and "\\" not in n:
                f[[n]] = v
            else:
                f[n] = v
            self.put(n, op["v"])
        elif k == "writesmany":
            f.writes({n: v, m: 5})
            self.put(n, op["v"])
            self.put(m, ["int", "5"])
        elif k == "del":
            if n in model:
                del f[n]
                del model[n]
        elif k in ("delmissing", "popmissing"):
            try:
                if k == "delmissing":
                    del f["nonesuch"]
                else:
                    f.pop("nonesuch")
            except KeyError:
                self.w.stats["probe.refused"] += 1
            else:
                raise Violation("not-refused", "%s did not raise KeyError" % what)
        elif k == "pop":
            if n in model:
                if not self.readable(n):
                    return
                self.same(n, f.pop(n), what)
                del model[n]
        elif k == "popdef":
            if n not in model and f.pop(n, 77) != 77:
                raise Violation("wrong-default", "%s did not give the default" % what)
        elif k in ("popitem", "clear") and self.nested:
            return
        elif k == "popitem":
            # names that cannot be read back with these options are left out
            if any(not self.readable(x) for x in model if model[x] is not None):
                return
            self.w.stats["probe.popitem"] += 1
            if model:
                r = f.popitem()
                if not isinstance(r, tuple) or len(r) != 2 or r[0] not in model:
                    raise Violation("popitem", "%s gave %.100r of %r" % (what, r, sorted(model)))
                self.same(r[0], r[1], what)
                del model[r[0]]
            else:
                try:
                    f.popitem()
                except KeyError:
                    return
                raise Violation("not-refused", "%s of an empty file did not raise KeyError" % what)
        elif k == "setdefault":
            if n in model:
                if self.readable(n):
                    self.same(n, f.setdefault(n, v), what)
            else:
                r = f.setdefault(n, v)
                self.put(n, op["v"])
                C.check_equal(op["v"], r, "wrong-default", what) if not isinstance(r, type(v)) or r is not v else None
        elif k == "update":
            f.update({n: v, m: 6})
            self.put(n, op["v"])
            self.put(m, ["int", "6"])
        elif k == "updatepairs":
            f.update([(n, v), (m, 7)])
            self.put(n, op["v"])
            self.put(m, ["int", "7"])
        elif k == "updatekw":
            f.update({m: 8}, kwname=v)
            self.put(m, ["int", "8"])
            self.put("kwname", op["v"])
        elif k == "clear":
            if any(not self.readable(x) for x in model if model[x] is not None):
                return
            f.clear()
            model.clear()
            self.w.stats["probe.clear"] += 1
        elif k == "get":
            if f.get("nonesuch") is not None or f.get("nonesuch", 3) != 3:
                raise Violation("wrong-default", "%s did not give the default" % what)
            if n in model and self.readable(n):
                self.same(n, f.get(n), what)
        elif k in ("bad", "badnew"):
            x = n if k == "bad" else "never"
            if x in model and C.group_stored(model[x] or ["dict"]):
                return
            try:
                f[x] = V.Unsupported()
            except Exception as e:
                if isinstance(e, (OSError, KeyError)):
                    raise
                self.w.stats["probe.refused"] += 1
            else:
                raise Violation("not-refused", "%s did not raise" % what)
        elif k == "refused":
            r = self.kw.get("group_for_references", "/#refs#") if len(model) % 2 else self.t["refs"]
            for fn in (lambda: f.__setitem__(r, 1), lambda: f.__delitem__(r), lambda: f[r], lambda: f.pop(r), lambda: f.__setitem__(r + "/b", 1)):
                try:
                    fn()
                except ValueError:
                    self.w.stats["probe.refused"] += 1
                except KeyError:
                    pass
                else:
                    raise Violation("not-refused", "%s: the group for references was written, read or deleted" % what)
        elif k == "nest":
            if "nestgrp" not in model:
                f["/nestgrp/x"] = v
                model["nestgrp"] = None
            elif "/nestgrp/x" not in f:
                f["/nestgrp/x"] = 1
        elif k == "reopen":
            f.close()
            self.kw = self.t["kws"][op["o"]]
            self.f = hs.File(self.p, writable=True, **self.kw)
        elif k == "flush":
            f.flush()
        elif k == "savemat":
            if self.t["refs"] == "/#refs#":
                f.close()
                hs.savemat(self.p, {n: v}, appendmat=False)
                kw, self.kw = self.kw, {"matlab_compatible": True}
                self.put(n, op["v"])
                self.kw = kw
                self.f = hs.File(self.p, writable=True, **kw)
        elif k == "heldclose":
            it = iter(f)
            names = sorted(model)
            f.close()
            try:
                if sorted(it) != names:
                    raise Violation("torn", "%s: an iterator that was finished after close() did not give the names" % what)
            except OSError:
                pass
            self.f = hs.File(self.p, writable=True, **self.kw)

    def check(self, what):
        f, model = self.f, self.model
        want = sorted(model)
        ls = list(f)
        if sorted(ls) != want:
            raise Violation("names", "%s: iteration gives %r, the variables are %r" % (what, sorted(ls), want))
        if len(f) != len(want):
            raise Violation("length", "%s: len() gives %d, the variables are %r" % (what, len(f), want))
        if list(f.keys()) != ls or len(f.keys()) != len(ls) or len(f.items()) != len(ls):
            raise Violation("names", "%s: keys() gives %r, iteration %r" % (what, list(f.keys()), ls))
        if bool(f) != bool(ls):
            raise Violation("length", "%s: bool() gives %r" % (what, bool(f)))
        for n in want:
            if n not in f or n not in f.keys():
                raise Violation("membership", "%s: %r is not in the file" % (what, n))
        for n in ("nonesuch", "never", *NAMES):
            if (n in f) != (n in model):
                raise Violation("membership", "%s: %r in the file is %r" % (what, n, n in f))
        for n in want:
            if "/" + n not in f or "//%s/" % n not in f or n + "/." not in f:
                raise Violation("membership", "%s: %r is not in the file by its whole path" % (what, n))
            for p in (n + "/nonesuch", "/%s/nonesuch/x" % n, "nonesuch/" + n):
                if p in f or f.get(p, self) is not self:
                    raise Violation("membership", "%s: %r is in the file" % (what, p))
        if 7 in f or None in f:
            raise Violation("membership", "%s: something that is no path is in the file" % what)
        for n in model:
            if model[n] is not None and not self.readable(n):
                return
        items = list(f.items())
        if [x[0] for x in items] != ls:
            raise Violation("names", "%s: items() gives %r, iteration %r" % (what, [x[0] for x in items], ls))
        vals = list(f.values())
        if len(vals) != len(ls):
            raise Violation("length", "%s: values() gives %d of %d" % (what, len(vals), len(ls)))
        for (n, v), v2 in zip(items, vals):
            self.same(n, v, what + ", items()")
            self.same(n, v2, what + ", values()")
        if self.t["scalar"] and all(s is not None and s[0] in ("int", "str", "float", "list") for s in model.values()):
            d = {k: V.build(s) for k, s in model.items()}
            self.w.stats["probe.equal"] += 1
            if not (f == d and d == f) or f != d or f == dict(d, extra=1) or d and f == dict(list(d.items())[1:]) or \
               d and f == dict(d, **{next(iter(d)): "another"}):
                raise Violation("equality", "%s: equality with a dict of the variables is wrong" % what)


def do(w, f, op, ident):
    k = op["op"]
    if k not in ("keys", "hold", "items"):
        return c02.do(f, op, ident)
    try:
        if k == "keys":
            return tuple(sorted(f.keys()))
        if k == "hold":
            it = iter(f)
            out = []
            for n in it:
                out.append(n)
                len(f)          # others get to run
            w.stats["probe.held-iterator"] += 1
            return tuple(sorted(out))
        out = []
        try:
            for n, v in f.items():
                out.append((n, ident(v)))
        except KeyError:
            w.stats["probe.items-race"] += 1
            return "missing"
        return tuple(sorted(out))
    except OSError:
        return "OSError"
    except Violation:
        raise
    except Exception as e:
        return "%s: %s" % (C.exname(e), e)


def apply(written, st, e):
    op, res = e["op"], e["res"]
    k = op["op"]
    if k not in ("keys", "hold", "items"):
        return c02.apply(st, e)
    closed, items = st
    if res == "OSError" and k in ("hold", "items"):
        return st if closed else None
    if closed:
        return st if res == "OSError" else None
    if k == "items":
        if res == "missing":
            return st
        if not isinstance(res, tuple):
            return None
        return st if tuple(n for n, _ in res) == tuple(sorted(n for n, _ in items)) and all(x in written for x in res) else None
    return st if res == tuple(sorted(n for n, _ in items)) else None


def threads(w, t):
    import hdf5storage as hs
    ident = c02.Ident(t)
    f = hs.File(w.p("f.mat"), writable=True, **t["opts"])
    init = {}
    written = set()
    for i in t["init"]:
        f.write(V.build(i["v"]), "/" + i["n"])
        init[i["n"]] = repr(i["v"])
        written.add((i["n"], repr(i["v"])))
    for th in t["threads"]:
        for op in th:
            for i in [op] if "v" in op else op.get("items", []):
                written.add((i["n"], repr(i["v"])))
    h = T.History(w)

    def body(tid):
        def run():
            for op in t["threads"][tid]:
                e = h.call(tid, op)
                h.ret(e, do(w, f, op, ident))
        return run
    s = T.run_threads(w, t, [body(i) for i in range(len(t["threads"]))])
    f.close()
    r = T.linearizable(h.ops, (False, tuple(sorted(init.items()))), lambda st, e: apply(written, st, e))
    dels = any(op["op"] == "del" for th in t["threads"] for op in th)
    for e in h.ops:
        w.stats["ops." + e["op"]["op"]] += 1
        if e["res"] == "missing" and not dels:
            raise Violation("torn", "items() raised KeyError although nothing is deleted")
    if r is not True:
        raise Violation("not-linearizable", "no sequential order explains the listings: " + "; ".join(
            "T%d[%d,%d] %s=%s" % (e["tid"], e["call"], e["ret"], c02._op(e["op"]), e["res"]) for e in sorted(h.ops, key=lambda e: e["call"])))
    return {"nontrivial": s.nswitch >= 2}
