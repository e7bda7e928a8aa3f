"""Runs, minimises, replays and reports.

A run is a pure function of its trace (a JSON object) and the code: each one
is executed in a process forked from a zygote that has only imported things.
"""
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback

from . import sched, world
from .world import Violation, World

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CHILD_TIMEOUT = float(os.environ.get("VERIF_CHILD_TIMEOUT", "150"))


def real_time():
    return time.monotonic()


# ------------------------------------------------------------ environment

def load_library():
    """Imports everything once, before any fork."""
    import warnings
    warnings.simplefilter("ignore")
    sys.path.insert(0, os.path.join(REPO, "src"))
    import numpy  # noqa: F401
    import h5py  # noqa: F401
    import ast  # noqa: F401
    import fractions  # noqa: F401
    sched.patch_locks()
    import hdf5storage
    lib = os.path.dirname(os.path.abspath(hdf5storage.__file__)) + os.sep
    if not lib.startswith(os.path.realpath(REPO)) and not lib.startswith(REPO):
        raise SystemExit("the library was imported from %s" % lib)
    sched.LIBDIR = lib
    # the h5py machinery that is set up on first use
    with h5py.File("warm", "w", driver="core", backing_store=False) as f:
        f["a"] = numpy.zeros(3)
        f["a"].attrs["x"] = 1
        f.create_group("g")
        list(f.items())


# -------------------------------------------------------------- one child

def _through_library(e):
    lib = sched.LIBDIR if isinstance(sched.LIBDIR, str) else ""
    tb = e.__traceback__
    while tb is not None:
        if lib and tb.tb_frame.f_code.co_filename.startswith(lib):
            return True
        tb = tb.tb_next
    return False


def _child(prop, trace, root, debug):
    import faulthandler
    import gc
    gc.collect()
    gc.disable()
    if not debug:
        try:
            faulthandler.disable()
        except Exception:
            pass
    out = {"viol": None}
    w = World(root, debug)
    n, fr = 0, sys._getframe()
    while fr is not None:       # the stack that is left doesn't depend on who runs this
        n, fr = n + 1, fr.f_back
    sys.setrecursionlimit(n + 1000)
    try:
        w.start()
        r = prop.execute(w, trace) or {}
        out.update(r)
        if w.disk.pending is not None:
            raise w.disk.pending
    except Violation as e:
        w.disk.quiet = True      # what the unwinding frees is not part of the run
        out["viol"] = {"cls": e.cls, "msg": e.msg[:600], "narrow": e.narrow}
    except sched.Deadlock as e:
        w.disk.quiet = True      # what the unwinding frees is not part of the run
        out["viol"] = {"cls": "deadlock", "msg": str(e), "narrow": None}
    except sched.StepLimit as e:
        w.disk.quiet = True      # what the unwinding frees is not part of the run
        out["viol"] = {"cls": "no-progress", "msg": str(e), "narrow": None}
    except BaseException as e:
        w.disk.quiet = True
        if isinstance(e, Exception) and not isinstance(e, MemoryError) and _through_library(e):
            # a call for which the statement of the property has no exception
            out["viol"] = {"cls": "unexpected-exception", "msg": ("the library raised %s: %s" % (type(e).__name__, e))[:600], "narrow": None}
        else:
            out["error"] = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-3000:])
    if w.disk.broken:
        out["error"] = "syscall hook: " + w.disk.broken
    try:
        w.stop()
    except BaseException:
        pass
    if w.sched is not None:
        out.setdefault("switches", w.sched.switches)
    out["log"] = w.digest()
    out["nlog"] = w.nlog
    out["stats"] = dict(w.stats)
    out["states"] = sorted(w.states)[:400]
    out["syscalls"] = w.disk.total
    out["sim_ns"] = w.now - World.EPOCH
    if debug:
        out["lines"] = w.lines
    return out


EMPTY = {"viol": None, "log": "-", "stats": {}, "states": [], "syscalls": 0, "sim_ns": 0, "nlog": 0}


class Zygote:
    """A process that only forks the processes of the runs: each of them
    starts from the same memory, whatever ran before."""
    CMD, STATUS = 900, 901

    def __init__(self, prop, base):
        a, self.cmd = os.pipe()
        self.status, d = os.pipe()
        self.base = base
        os.makedirs(base, exist_ok=True)
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                signal.signal(signal.SIGINT, signal.SIG_IGN)
                os.dup2(a, self.CMD)
                os.dup2(d, self.STATUS)
                os.closerange(3, self.CMD)
                while os.read(self.CMD, 1):
                    pid = os.fork()
                    if pid == 0:
                        self._run(prop)
                    os.write(self.STATUS, struct.pack("<i", pid))
                    os.write(self.STATUS, struct.pack("<i", os.waitpid(pid, 0)[1]))
            finally:
                os._exit(0)
        os.close(a)
        os.close(d)

    def _run(self, prop):
        try:
            os.close(self.CMD)
            os.close(self.STATUS)
            with open(os.path.join(self.base, "job"), "rb") as f:
                job = pickle.load(f)
            if not job["debug"] and not os.environ.get("VERIF_STDERR"):
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 2)
                os.close(dn)
            trace = job.get("trace")
            if trace is None:
                trace = gen_trace(prop, job["seed"], job["tier"], job["index"])
            out = _child(prop, trace, os.path.join(self.base, "w"), job["debug"])
            if out.get("viol") or out.get("error") or job.get("want"):
                out["trace"] = trace
            data = pickle.dumps(out)
            fd = os.open(os.path.join(self.base, "tmp"), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
            mv = memoryview(data)
            while mv:
                mv = mv[os.write(fd, mv):]
            os.close(fd)
            os.rename(os.path.join(self.base, "tmp"), os.path.join(self.base, "result"))
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(0)

    def _int(self, end):
        buf = b""
        while len(buf) < 4:
            rd, _, _ = select.select([self.status], [], [], max(0, end - real_time()))
            if not rd:
                return None
            b = os.read(self.status, 4 - len(buf))
            if not b:
                raise RuntimeError("the zygote died")
            buf += b
        return struct.unpack("<i", buf)[0]

    def run(self, job, timeout=None):
        timeout = timeout or CHILD_TIMEOUT
        for x in ("w", "result", "tmp"):
            x = os.path.join(self.base, x)
            if os.path.isdir(x) and not os.path.islink(x):
                shutil.rmtree(x, ignore_errors=True)
            elif os.path.lexists(x):
                os.unlink(x)
        with open(os.path.join(self.base, "job"), "wb") as f:
            pickle.dump(dict(job, debug=job.get("debug", False)), f)
        os.write(self.cmd, b"x")
        pid = self._int(real_time() + 60)
        status = self._int(real_time() + timeout)
        killed = status is None
        if killed:
            os.kill(pid, signal.SIGKILL)
            status = self._int(real_time() + 60)
        res = os.path.join(self.base, "result")
        out = None
        if os.path.exists(res):
            with open(res, "rb") as f:
                out = pickle.load(f)
        shutil.rmtree(os.path.join(self.base, "w"), ignore_errors=True)
        if out is not None:
            return out
        if killed:
            out = dict(EMPTY, hang=True, error="no answer within %g s" % timeout)
        elif os.WIFSIGNALED(status):
            out = dict(EMPTY, viol={"cls": "crash", "msg": "the process died of signal %d" % os.WTERMSIG(status), "narrow": None})
        else:
            out = dict(EMPTY, error="no answer from the run (exit %d)" % os.WEXITSTATUS(status))
        t = job.get("trace")
        out["trace"] = t if t is not None else gen_trace(prop_module(job["prop"]), job["seed"], job["tier"], job["index"])
        return out

    def close(self):
        os.close(self.cmd)
        os.waitpid(self.pid, 0)
        os.close(self.status)


_zygotes = {}


def run_one(prop, trace, base, debug=False, timeout=None):
    """Executes one trace in a process of its own."""
    if base not in _zygotes:
        _zygotes[base] = Zygote(prop, os.path.join(base, "pm"))
    return _zygotes[base].run({"trace": trace, "debug": debug, "prop": prop.ID}, timeout)


# ---------------------------------------------------------------- parallel

class Pool:
    """Worker processes, each running traces one at a time in forked children.
    A trace is given as an index (generated by the run) or as an object."""

    def __init__(self, prop, nworkers, base):
        self.prop = prop
        self.base = base
        self.w = []
        _zygotes[base] = Zygote(prop, os.path.join(base, "pm"))
        zy = [Zygote(prop, os.path.join(base, "p%d" % i)) for i in range(nworkers)]
        for i in range(nworkers):
            a, b = os.pipe()
            c, d = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(b)
                os.close(c)
                for z in zy + [_zygotes[base]]:
                    if z is not zy[i]:
                        os.close(z.cmd)
                        os.close(z.status)
                for _, fa, fb in self.w:
                    os.close(fa)
                    os.close(fb)
                try:
                    self._loop(zy[i], a, d)
                finally:
                    os._exit(0)
            os.close(a)
            os.close(d)
            self.w.append((pid, b, c))
        for z in zy:
            os.close(z.cmd)
            os.close(z.status)
        self.zy = zy

    def _loop(self, zy, rfd, wfd):
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        rf = os.fdopen(rfd, "rb")
        wf = os.fdopen(wfd, "wb")
        while True:
            h = rf.read(4)
            if len(h) < 4:
                return
            job = pickle.loads(rf.read(struct.unpack("<I", h)[0]))
            try:
                res = zy.run(dict(job, prop=self.prop.ID), job.get("timeout"))
            except BaseException as e:
                res = dict(EMPTY, error="worker: %r\n%s" % (e, traceback.format_exc()[-2000:]))
            data = pickle.dumps(res)
            wf.write(struct.pack("<I", len(data)) + data)
            wf.flush()

    def _send(self, k, job):
        d = pickle.dumps(job)
        mv = memoryview(struct.pack("<I", len(d)) + d)
        while mv:
            mv = mv[os.write(self.w[k][1], mv):]

    def _recv(self, k):
        fd = self.w[k][2]

        def rd(n):
            out = b""
            while len(out) < n:
                b = os.read(fd, n - len(out))
                if not b:
                    raise RuntimeError("worker %d died" % k)
                out += b
            return out
        return pickle.loads(rd(struct.unpack("<I", rd(4))[0]))

    def map(self, jobs, stop=None):
        """Yields (job, result) as they finish; stop() ends early."""
        jobs = iter(jobs)
        busy = {}
        idle = list(range(len(self.w)))
        done = False
        while True:
            while idle and not done:
                if stop is not None and stop():
                    done = True
                    break
                try:
                    j = next(jobs)
                except StopIteration:
                    done = True
                    break
                k = idle.pop(0)
                self._send(k, j)
                busy[self.w[k][2]] = (k, j)
            if not busy:
                return
            rd, _, _ = select.select(list(busy), [], [])
            for fd in rd:
                k, j = busy.pop(fd)
                idle.append(k)
                yield j, self._recv(k)

    def close(self):
        for pid, b, c in self.w:
            os.close(b)
        for pid, b, c in self.w:
            os.waitpid(pid, 0)
            os.close(c)
        for z in self.zy:
            os.waitpid(z.pid, 0)
        _zygotes.pop(self.base).close()


def gen_trace(prop, seed, tier, index):
    rng = random.Random("%s-%s-%d" % (prop.ID, seed, index))
    t = prop.gen(rng, tier, index)
    t["prop"] = prop.ID
    t["seed"] = "%s/%d" % (seed, index)
    # exactly what a replay file would hold
    return json.loads(json.dumps(t))


# ---------------------------------------------------------------- minimise

def candidates(prop, trace):
    from . import values
    if hasattr(prop, "shrink"):
        yield from prop.shrink(trace)
    for key in getattr(prop, "LISTS", ("ops", "faults", "switches")):
        for path, lst in _find_lists(trace, key):
            n = len(lst)
            size = n
            while size >= 1:
                for i in range(0, n, size):
                    if size == n and not getattr(prop, "EMPTY_OK", False) and key == "ops":
                        continue
                    yield _replace(trace, path, lst[:i] + lst[i + size:])
                size //= 2
    for path, v in _find_values(trace):
        for c in values.simpler(v):
            yield _replace(trace, path, c)


def _find_lists(t, key, path=()):
    if isinstance(t, dict):
        for k, v in t.items():
            if k == key and isinstance(v, list) and v:
                yield path + (k,), v
            if k not in ("value", "values_"):
                yield from _find_lists(v, key, path + (k,))
    elif isinstance(t, list):
        for i, v in enumerate(t):
            if isinstance(v, (dict, list)):
                yield from _find_lists(v, key, path + (i,))


def _find_values(t, path=()):
    """Value specs are held under keys named 'v'."""
    if isinstance(t, dict):
        for k, v in t.items():
            if k == "v" and isinstance(v, list) and v and isinstance(v[0], str):
                yield path + (k,), v
            elif isinstance(v, (dict, list)):
                yield from _find_values(v, path + (k,))
    elif isinstance(t, list):
        for i, v in enumerate(t):
            if isinstance(v, (dict, list)):
                yield from _find_values(v, path + (i,))


def _replace(t, path, new):
    if not path:
        return new
    k = path[0]
    if isinstance(t, dict):
        d = dict(t)
        d[k] = _replace(t[k], path[1:], new)
        return d
    l = list(t)
    l[k] = _replace(t[k], path[1:], new)
    return l


def minimise(prop, pool, trace, cls, budget_s, first=None):
    t0 = real_time()
    tried = 0
    seen = set()
    cur = trace
    last = first
    progress = True
    while progress and real_time() - t0 < budget_s:
        progress = False
        cand = []

        def jobs():
            for c in candidates(prop, cur):
                key = hashlib.blake2b(json.dumps(c, sort_keys=True).encode(), digest_size=10).digest()
                if key in seen:
                    continue
                seen.add(key)
                if hasattr(prop, "valid") and not prop.valid(c):
                    continue
                yield {"trace": c, "want": True, "timeout": 60}
        found = []
        for j, res in pool.map(jobs(), stop=lambda: bool(found) or real_time() - t0 > budget_s):
            tried += 1
            v = res.get("viol")
            if v and v["cls"] == cls:
                found.append((len(json.dumps(j["trace"])), json.dumps(j["trace"], sort_keys=True), res))
        if found:
            found.sort(key=lambda x: x[:2])
            last = found[0][2]
            cur = json.loads(found[0][1])
            if last["viol"].get("narrow"):
                cur = last["viol"]["narrow"]
            cur = concrete(cur, last)
            progress = True
    return cur, tried, last


def concrete(trace, res):
    """Turns a random scheduling policy into the switches it made."""
    if res is not None and res.get("switches") is not None and trace.get("sched", {}).get("mode") not in (None, "list"):
        trace = dict(trace)
        trace["sched"] = {"mode": "list", "switches": res["switches"],
                          "every": trace["sched"].get("every", 1)}
    return trace


# ------------------------------------------------------------------- check

def prop_module(pid):
    return importlib.import_module("sim.props." + pid.lower())


def determinism(pool, seed, tier, order, n=24):
    """Executes some of the runs again: the event logs must be the same."""
    first = {i: log for i, log in order if i is not None and i >= 0}
    some = sorted(first)[::max(1, len(first) // n)][:n]
    differ = again = 0
    for j, res in pool.map(iter([{"index": i, "seed": seed, "tier": tier} for i in reversed(some)])):
        if res.get("error"):
            continue
        again += 1
        if res["log"] != first[j["index"]]:
            differ += 1
            print("warning: run %s is not deterministic" % j["index"])
    return differ, again


def known(pid):
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        k = json.load(f)
    return [x for x in k["findings"] if x["property"] == pid]


def check(pid, tier, seed, runs=None, workers=None, wall=None, quiet=False):
    """Runs a batch.  Returns the exit code."""
    prop = prop_module(pid)
    t0 = real_time()
    load_library()
    if hasattr(prop, "warm"):
        prop.warm()
    base = tempfile.mkdtemp(prefix="hs-sim-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    nw = workers or int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    n = runs or int(os.environ.get("VERIF_RUNS", "0")) or (prop.RUNS[tier])
    cap = wall or float(os.environ.get("VERIF_WALL", "0")) or (480 if tier == "quick" else 3000)
    print("check %s tier=%s VERIF_SEED=%s runs=%d workers=%d repo=%s" % (pid, tier, seed, n, nw, REPO))
    sys.stdout.flush()
    pool = Pool(prop, nw, base)
    try:
        return _batch(prop, pool, pid, tier, seed, n, cap, t0, base)
    finally:
        pool.close()
        shutil.rmtree(base, ignore_errors=True)


def _batch(prop, pool, pid, tier, seed, n, cap, t0, base):
    stats, states, logs = {}, set(), set()
    nontriv = set()
    ran = 0
    viols, errors = [], []
    samples = []
    sim_ns = syscalls = nlog = 0
    order = []

    # known findings: still there?
    for k in known(pid):
        res = run_one(prop, k["trace"], base)
        if res.get("viol") and res["viol"]["cls"] == k["cls"]:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        elif res.get("viol"):          # fails in another way than the one listed
            res["trace"] = k["trace"]
            viols.append((-2, res))
        else:
            print("note: known finding %s no longer shows (%s)" % (k["id"], res.get("error") or res.get("viol")))

    # regression corpus of the property, then fresh seeds
    def jobs():
        for t in getattr(prop, "CORPUS", ()):
            yield {"trace": dict(t, prop=pid, seed="corpus"), "index": -1, "want": True}
        for i in range(n):
            yield {"index": i, "seed": seed, "tier": tier, "want": i in (0, 1, n // 2)}

    for j, res in pool.map(jobs(), stop=lambda: bool(viols) or len(errors) > 3 or real_time() - t0 > cap):
        ran += 1
        if res.get("error"):
            errors.append((j.get("index"), res))
            continue
        for k, v in res["stats"].items():
            stats[k] = stats.get(k, 0) + v
        states.update(res["states"])
        logs.add(res["log"])
        if res.get("nontrivial", True):
            nontriv.add(res["log"])
        sim_ns += res["sim_ns"]
        syscalls += res["syscalls"]
        nlog += res["nlog"]
        order.append((j.get("index"), res["log"]))
        if j.get("want") and j.get("index", -1) >= 0 and len(samples) < 3:
            samples.append(_short(res["trace"]))
        if res.get("viol"):
            viols.append((j.get("index"), res))
    wall_batch = real_time() - t0
    order.sort()
    digest = hashlib.blake2b(repr(order).encode(), digest_size=12).hexdigest()
    differ, again = (0, 0) if viols else determinism(pool, seed, tier, order)

    # a run that gave no answer: does the library fail to come back?
    for idx, res in list(errors):
        if res.get("hang") and hasattr(prop, "execute"):
            t = dict(res["trace"], budget=True)
            r2 = run_one(prop, t, base, timeout=CHILD_TIMEOUT * 2)
            if r2.get("viol"):
                r2["trace"] = t
                errors.remove((idx, res))
                viols.append((idx, r2))

    code = 0
    if viols:
        viols.sort(key=lambda x: x[0])
        idx, res = viols[0]
        v = res["viol"]
        print("found at run %s: %s: %s" % (idx, v["cls"], v["msg"]))
        sys.stdout.flush()
        orig = res["trace"]
        start = concrete(v.get("narrow") or orig, res)
        r1 = run_one(prop, start, base)
        if not (r1.get("viol") and r1["viol"]["cls"] == v["cls"]):
            start = orig
        small, tried, last = minimise(prop, pool, start, v["cls"], 45 if tier == "quick" else 240, r1)
        path = write_replay(prop, pid, seed, small, base, v["cls"])
        if path is None:
            path = write_replay(prop, pid, seed, orig, base, v["cls"])
        if path is None:
            errors.append((idx, {"error": "the violation does not replay: %s %s" % (v["cls"], v["msg"])}))
        else:
            print("minimised with %d runs" % tried)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            code = 1
    if code == 0 and errors:
        for idx, res in errors[:3]:
            print("harness error at run %s: %s" % (idx, res["error"]))
            if res.get("trace"):
                print("  trace: %s" % json.dumps(res["trace"])[:2000])
        code = 2
    if code == 0 and ran < max(1, n // 10):
        print("only %d of %d runs within the time limit" % (ran, n))
        code = 2

    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault.")}
    probes = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("probe.")}
    other = {k: v for k, v in sorted(stats.items()) if not k.startswith(("fault.", "probe."))}
    ev = {
        "property": pid, "tier": tier, "seed": int(seed) if str(seed).isdigit() else 0,
        "level": prop.LEVEL,
        "coverage": {
            "evaluations": ran,
            "distinct_nontrivial": len(nontriv),
            "rule": prop.RULE,
            "samples": samples,
            "runs_per_hour": int(ran / max(wall_batch, 1e-3) * 3600),
            "seeds": "VERIF_SEED=%s, run indices 0..%d" % (seed, n - 1),
            "simulated_seconds": round(sim_ns / 1e9, 3),
            "events_logged": nlog,
            "syscalls_simulated": syscalls,
            "faults_fired": faults,
            "probes_hit": probes,
            "counters": other,
            "distinct_event_logs": len(logs),
            "distinct_states": len(states),
            "state_measure": getattr(prop, "STATE_RULE", "hash of the event log of the run"),
            "batch_digest": digest,
            "determinism": "%d runs executed again in other processes, %d with another event log" % (again, differ),
            "real_components": ["hdf5storage (from %s/src)" % REPO, "h5py", "HDF5 C library", "numpy", "CPython"],
            "stubs": getattr(prop, "STUBS", STUBS),
        },
        "assumptions": getattr(prop, "ASSUMPTIONS", []),
        "wall_s": round(real_time() - t0, 2),
        "violations": 1 if code == 1 else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % pid)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    os.replace(tmp, os.path.join(VERIF, "evidence", pid + ".json"))
    missing = [p for p in getattr(prop, "MUST_HIT", ()) if not stats.get(p)]
    if missing and code == 0:
        print("warning: never reached: %s" % ", ".join(missing))
    print("%s: %d runs, %d distinct event logs, %d states, faults %s, probes %s, digest %s, %.1f s"
          % (pid, ran, len(logs), len(states), faults, probes, digest, real_time() - t0))
    return code


STUBS = ["disk and descriptors: the real tmpfs behind a shim that decides the result of every system call",
         "wall clock: simulated", "random numbers: seeded"]


def _short(t):
    s = json.dumps(t)
    return t if len(s) < 3000 else {"truncated": s[:3000]}


def write_replay(prop, pid, seed, trace, base, cls):
    """Writes the replay file and confirms it in a fresh process."""
    res = run_one(prop, trace, base, debug=True)
    if not (res.get("viol") and res["viol"]["cls"] == cls):
        return None
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (pid, hashlib.blake2b(json.dumps(trace).encode(), digest_size=5).hexdigest()))
    with open(path, "w") as f:
        json.dump({"property": pid, "trace": trace, "cls": cls, "msg": res["viol"]["msg"],
                   "log": res["log"], "events": res.get("lines", [])[-400:]}, f, indent=1)
    print("violation: %s: %s" % (res["viol"]["cls"], res["viol"]["msg"]))
    print("trace: %s" % json.dumps(trace)[:1500])
    env = dict(os.environ)
    p = subprocess.run([sys.executable, "-W", "ignore", os.path.join(VERIF, "check.py"), "--inner-replay", path, pid],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    if b"REPRODUCED exactly" not in p.stdout and cls != "crash":
        print("replay in a fresh process: %s" % p.stdout.decode(errors="replace")[-600:])
        if b"REPRODUCED" not in p.stdout:
            return None
    return path


def replay(path, pid, show=True):
    prop = prop_module(pid)
    load_library()
    if hasattr(prop, "warm"):
        prop.warm()
    base = tempfile.mkdtemp(prefix="hs-sim-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    try:
        _zygotes[base] = Zygote(prop, os.path.join(base, "pm"))
        with open(path) as f:
            r = json.load(f)
        res = run_one(prop, r["trace"], base, debug=True)
        _zygotes.pop(base).close()
    finally:
        shutil.rmtree(base, ignore_errors=True)
    if show:
        for l in res.get("lines", [])[-200:]:
            print("  " + l)
    v = res.get("viol")
    if v is None:
        print("not reproduced: %s" % (res.get("error") or "the run shows no violation"))
        return 0 if not res.get("error") else 2
    same = v["cls"] == r["cls"] and (res["log"] == r["log"])
    print("%s: %s" % (v["cls"], v["msg"]))
    print("REPRODUCED exactly" if same else ("REPRODUCED with another event log" if v["cls"] == r["cls"] else "other violation"))
    print("VIOLATION property=%s replay=%s" % (r["property"], path))
    return 1
