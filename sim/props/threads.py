"""Concurrent programs: generation, execution under the scheduler, history."""
import os

from .. import sched, values as V
from ..world import Violation
from . import common as C


def gen_sched(rng, length=3000):
    u = rng.random()
    seed = rng.getrandbits(32)
    if u < .35:
        return {"mode": "random", "seed": seed, "p": rng.choice([.002, .01, .03])}
    if u < .65:
        return {"mode": "random", "seed": seed, "p": rng.choice([.1, .3, .6])}
    return {"mode": "pct", "seed": seed, "depth": rng.randint(1, 5), "len": rng.choice([length // 10, length // 3, length])}


def uval(rng, i):
    """A value that holds the number i in several places, so that a torn or
    mixed one is recognised."""
    n = ["int", str(1000 + i)]
    c = rng.randrange(9)
    if c < 2:
        return n
    if c == 2:
        return ["list", [n, n, n]]
    if c == 3:
        return ["dict", [[["str", "a"], n], [["str", "b"], n]]]
    if c == 4:
        return ["full", "f8", [rng.randint(1, 4), rng.randint(1, 4)], 10000 + i]
    if c == 5:
        return ["str", "value %d" % i]
    if c == 6:
        return ["tuple", [n, ["list", [n]]]]
    if c == 7:
        return ["dict", [[n, n]]]
    return ["bytes", "value %d" % i]


class History:
    """Calls and returns in the order they happened."""

    def __init__(self, w):
        self.w = w
        self.t = 0
        self.ops = []

    def call(self, tid, op):
        self.t += 1
        e = {"tid": tid, "op": op, "call": self.t, "ret": None, "res": None}
        self.ops.append(e)
        self.w.log("call", tid, op["op"], op.get("n", ""))
        return e

    def ret(self, e, res):
        self.t += 1
        e["ret"] = self.t
        e["res"] = res
        self.w.log("ret", e["tid"], e["op"]["op"], res if isinstance(res, (str, int)) else repr(res))


def run_threads(w, t, bodies, max_steps=400000, line_hook=None):
    s = sched.Scheduler(w, t["sched"], max_steps)
    w.sched = s
    s.line_hook = line_hook
    for tid, body in enumerate(bodies):
        s.spawn(tid, body)
    s.run()
    w.state("interleaving", s.interleave)
    w.stats["sched.runs"] += 1
    if s.nswitch > 1:
        w.stats["probe.preempted"] += 1
    return s


def shrink_sched(t):
    """Fewer threads and no preemption first."""
    th = t.get("threads")
    if th and len(th) > 1:
        for i in range(len(th)):
            yield dict(t, threads=th[:i] + [[]] + th[i + 1:])
    s = t.get("sched", {})
    if s.get("mode") == "list" and s.get("switches"):
        yield dict(t, sched=dict(s, switches=[]))


def linearizable(ops, init, apply, limit=400000):
    """Wing-Gong search with memoisation.  ops: history entries with call,
    ret, res; apply(state, entry) gives the new state or None when the result
    does not fit; states are hashable.  Returns True, or the longest prefix
    found."""
    n = len(ops)
    ops = sorted(ops, key=lambda e: e["call"])
    full = (1 << n) - 1
    seen = set()
    stack = [(0, init)]
    steps = 0
    best = 0
    while stack:
        done, st = stack.pop()
        if done == full:
            return True
        if (done, st) in seen:
            continue
        seen.add((done, st))
        steps += 1
        if steps > limit:
            return True
        first_ret = min(ops[i]["ret"] for i in range(n) if not done >> i & 1)
        for i in range(n):
            if done >> i & 1 or ops[i]["call"] > first_ret:
                continue
            s2 = apply(st, ops[i])
            if s2 is not None:
                stack.append((done | 1 << i, s2))
                best = max(best, bin(done).count("1") + 1)
    return best
