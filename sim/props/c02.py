"""C02 A File shared by threads is linearizable."""
from .. import values as V
from ..world import Violation
from . import common as C
from . import threads as T

ID = "C02"
LEVEL = "exploration"
RULE = ("a run is 2-4 threads with 1-5 operations each (write, writes, read, reads, del, len, in, iter, get, pop, flush, "
        "sometimes close) on one shared File, sometimes in Groups that are deleted meanwhile, under a seeded random or PCT schedule with a preemption possible at "
        "every library source line and lock operation; non-trivial: at least two switches between threads happened "
        "and at least one operation wrote")
RUNS = {"quick": 6000, "thorough": 120000}
STATE_RULE = "hash of the sequence of (step, thread) switches of a run"
MUST_HIT = ("probe.preempted", "sched.blocked", "probe.missing", "probe.closed", "probe.multi", "probe.nested")
STUBS = ["threading.Lock in the library: a simulated lock with the same interface", "thread scheduling: seeded",
         "disk: tmpfs behind the system call shim, no faults", "random numbers: seeded"]
ASSUMPTIONS = ["h5py calls are atomic (h5py holds its global lock in them), so threads are not switched inside them"]

NAMES = ["a", "b", "c", "zz", "A", "k", "m", "n"]
NESTED = ["a", "g/a", "g/b", "g/h/c", "h/a"]
GROUPS = ["g", "g/h", "h"]


def gen(rng, tier, index):
    kw = {"matlab_compatible": rng.random() < .5}
    if rng.random() < .3:
        kw["delete_unused_variables"] = True
    if kw["matlab_compatible"] is False:
        kw["delete_unused_variables"] = True
    many = rng.random() < .15
    names = rng.sample(NAMES, rng.randint(5, 8) if many else rng.randint(1, 3))
    nested = not many and rng.random() < .25
    if nested:
        names = rng.sample(NESTED, rng.randint(2, 4))
    n = [0]

    def val():
        n[0] += 1
        return T.uval(rng, n[0])
    init = [{"n": x, "v": val()} for x in names if rng.random() < (.95 if many else .7)]
    nt = rng.choice([2, 2, 2, 3, 3, 4]) if not many else 2

    def some():
        if many and rng.random() < .6:
            return rng.sample(names, rng.randint(5, len(names)))
        return rng.sample(names, rng.randint(1, len(names)))
    closing = rng.random() < .15
    threads = []
    for t in range(nt):
        ops = []
        for _ in range(rng.randint(1, {2: 5, 3: 4, 4: 3}[nt])):
            u = rng.random()
            x = rng.choice(names)
            if u < .22:
                ops.append({"op": "write", "n": x, "v": val()})
            elif u < .40:
                k = some()
                ops.append({"op": "writes", "items": [{"n": y, "v": val()} for y in k]})
            elif u < .52:
                ops.append({"op": "read", "n": x})
            elif u < .70:
                ops.append({"op": "reads", "ns": some()})
            elif u < .78:
                ops.append({"op": "del", "n": rng.choice(GROUPS) if nested and rng.random() < .5 else x})
            elif u < .84:
                ops.append({"op": "len"})
            elif u < .89:
                ops.append({"op": "in", "n": rng.choice(GROUPS) if nested and rng.random() < .5 else x})
            elif u < .96:
                ops.append({"op": "iter"})
            elif closing and u < .98:
                ops.append({"op": "close"})
            else:
                ops.append({"op": "flush"})
        threads.append(ops)
    return {"opts": kw, "init": init, "threads": threads, "sched": T.gen_sched(rng), "rnd": rng.getrandbits(16)}


LISTS = ("switches", "init")


def shrink(t):
    yield from T.shrink_sched(t)
    for i, ops in enumerate(t["threads"]):
        for j in range(len(ops)):
            th = list(t["threads"])
            th[i] = ops[:j] + ops[j + 1:]
            yield dict(t, threads=th)
            if len(ops[j].get("items", [])) > 1:
                for k in range(len(ops[j]["items"])):
                    o = dict(ops[j], items=ops[j]["items"][:k] + ops[j]["items"][k + 1:])
                    th = list(t["threads"])
                    th[i] = ops[:j] + [o] + ops[j + 1:]
                    yield dict(t, threads=th)


def valid(t):
    seen = set()
    for s in specs(t):
        k = repr(s)
        if k in seen:
            return False
        seen.add(k)
    return True


def specs(t):
    out = [i["v"] for i in t["init"]]
    for th in t["threads"]:
        for op in th:
            if "v" in op:
                out.append(op["v"])
            out += [i["v"] for i in op.get("items", [])]
    return out


class Ident:
    """Which written value an object is."""

    def __init__(self, t):
        self.sp = [(repr(s), s) for s in specs(t)]

    def __call__(self, v):
        for k, s in self.sp:
            if V.same(V.build(s), v):
                return k
        raise Violation("never-written", "read a value nobody wrote: %.300r" % (v,))


def put(d, n, v):
    """A variable, and the Groups (None) that it is in."""
    d[n] = v
    for i, c in enumerate(n):
        if c == "/":
            d[n[:i]] = None


def apply(st, e):
    """The sequential model: (closed, ((name, value), ...))."""
    closed, items = st
    op, res = e["op"], e["res"]
    k = op["op"]
    if k == "close":
        return (True, items) if res == "ok" else None
    if closed:
        return st if res == "OSError" else None
    d = dict(items)
    if k == "write" or k == "writes":
        if res != "ok":
            return None
        for i in ([op] if k == "write" else op["items"]):
            put(d, i["n"], repr(i["v"]))
        return (False, tuple(sorted(d.items())))
    if k in ("read", "reads"):
        ns = [op["n"]] if k == "read" else op["ns"]
        if any(n not in d for n in ns):
            return st if res == "KeyError" else None
        return st if res == tuple(d[n] for n in ns) else None
    if k == "del":
        if op["n"] not in d:
            return st if res == "KeyError" else None
        if res != "ok":
            return None
        for n in [n for n in d if n == op["n"] or n.startswith(op["n"] + "/")]:
            del d[n]
        return (False, tuple(sorted(d.items())))
    if k == "len":
        return st if res == sum("/" not in n for n in d) else None
    if k == "in":
        return st if res == (op["n"] in d) else None
    if k == "iter":
        return st if res == tuple(sorted(n for n in d if "/" not in n)) else None
    if k == "flush":
        return st if res == "ok" else None
    raise ValueError(k)


def do(f, op, ident):
    k = op["op"]
    try:
        if k == "write":
            v = V.build(op["v"])
            f.write(v, "/" + op["n"])
            return "ok"
        if k == "writes":
            f.writes({"/" + i["n"]: V.build(i["v"]) for i in op["items"]})
            return "ok"
        if k == "read":
            return (ident(f.read("/" + op["n"])),)
        if k == "reads":
            return tuple(ident(v) for v in f.reads(["/" + n for n in op["ns"]]))
        if k == "del":
            del f["/" + op["n"]]
            return "ok"
        if k == "len":
            return len(f)
        if k == "in":
            return op["n"] in f
        if k == "iter":
            return tuple(sorted(iter(f)))
        if k == "flush":
            f.flush()
            return "ok"
        if k == "close":
            f.close()
            return "ok"
    except (KeyError, OSError) as e:
        return type(e).__name__
    except Violation:
        raise
    except Exception as e:
        return "%s: %s" % (type(e).__name__, e)


def execute(w, t):
    import hdf5storage as hs
    w.seed_random(t["rnd"])
    ident = Ident(t)
    f = hs.File(w.p("shared.mat"), writable=True, options=C.options(t["opts"]))
    init = {}
    for i in t["init"]:
        f.write(V.build(i["v"]), "/" + i["n"])
        put(init, i["n"], repr(i["v"]))
    h = T.History(w)

    def body(tid):
        def run():
            for op in t["threads"][tid]:
                e = h.call(tid, op)
                h.ret(e, do(f, op, ident))
        return run
    s = T.run_threads(w, t, [body(i) for i in range(len(t["threads"]))])
    # what is there afterwards is part of the history
    closed = f.closed
    f.close()
    g = hs.File(w.p("shared.mat"), options=C.options(t["opts"]))
    used = {i["n"] for i in t["init"]} | {i["n"] for th in t["threads"] for op in th for i in op.get("items", [op] if "v" in op else [])}
    nested = any("/" in n for n in used)
    names = sorted(set(g) | {n for n in used | set(GROUPS) if n in g}) if nested else sorted(g)
    fin = {"tid": 99, "op": {"op": "reads", "ns": names}, "call": h.t + 1, "ret": h.t + 2,
           "res": tuple(None if nested and n in GROUPS else ident(g.read("/" + n)) for n in names)}
    g.close()
    w.stats["probe.nested"] += nested
    final = tuple(zip(names, fin["res"]))
    r = T.linearizable(h.ops + [fin], (False, tuple(sorted(init.items()))),
                       lambda st, e: (st if st[1] == final else None) if e is fin else apply(st, e))
    for e in h.ops:
        w.stats["ops." + e["op"]["op"]] += 1
        if e["res"] == "KeyError":
            w.stats["probe.missing"] += 1
        if e["res"] == "OSError":
            w.stats["probe.closed"] += 1
        if e["op"]["op"] in ("reads", "writes") and len(e["op"].get("ns", e["op"].get("items"))) > 1:
            w.stats["probe.multi"] += 1
    if r is not True:
        raise Violation("not-linearizable", "no sequential order explains the history: " + "; ".join(
            "T%d[%d,%d] %s=%s" % (e["tid"], e["call"], e["ret"], _op(e["op"]), e["res"])
            for e in sorted(h.ops, key=lambda e: e["call"])) + "; at the end %s" % (final,))
    left = w.disk.open_fds()
    if left:
        raise Violation("fd-left", "descriptors left open: %r" % left)
    return {"nontrivial": s.nswitch >= 2 and any(e["op"]["op"] in ("write", "writes", "del") for e in h.ops)}


def _op(op):
    if op["op"] == "writes":
        return "writes(%s)" % ", ".join("%s=%s" % (i["n"], i["v"]) for i in op["items"])
    return "%s(%s%s)" % (op["op"], op.get("n", op.get("ns", "")), ", %s" % (op["v"],) if "v" in op else "")
