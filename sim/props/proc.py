"""Simulated processes.

A simulated process is a real one, forked from the run, so that its death is
the real thing: nothing but what it had handed to the (simulated) disk
survives, no handler or finaliser runs.  It dies when its chosen system call
is reached, or by itself; the parent is blocked meanwhile, so the order of
events is fixed."""
import hashlib
import os
import pickle
import signal
import struct

from ..world import Violation

DIED = 77


class Outcome:
    def __init__(self, how, value=None, sig=0, calls=0, fired=(), info=None):
        self.how = how            # ok, raised, died, signal
        self.value = value        # the result, or the exception's type name
        self.sig = sig
        self.calls = calls        # system calls it made
        self.fired = fired
        self.info = info

    def __repr__(self):
        return "%s(%s)" % (self.how, self.sig or (self.value if self.how == "raised" else ""))


def process(w, fn, die_at=None, faults=(), rand=None, on_call=None, timeout=60):
    """Runs fn() in a process of its own.  die_at: the number of the system
    call at which it dies (before it takes place)."""
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.alarm(timeout)
            d = w.disk
            start = d.total
            base = dict(w.stats)
            w.states = set()
            d.arm(list(faults))
            d.rand = rand
            h0 = w.h
            w.h = hashlib.blake2b(digest_size=8)
            if die_at is not None:
                def die(k, name, fd, a, b, buf):
                    if d.total - start - 1 == die_at:
                        os._exit(DIED)
                d.observers.append(die)
            if on_call is not None:
                d.observers.append(on_call)
            try:
                how, value = "ok", fn()
                if d.pending is not None:
                    raise d.pending
            except Violation as e:
                how, value = "violation", (e.cls, e.msg, e.narrow)
            except Exception as e:
                how, value = "raised", (type(e).__name__, str(e)[:300])
            except BaseException as e:
                how, value = "raised", (type(e).__name__, str(e)[:300])
            quiet = d.quiet
            d.quiet = True
            data = pickle.dumps((how, value, d.total - start, d.fired,
                                 {k: v - base.get(k, 0) for k, v in w.stats.items()}, w.states,
                                 w.h.hexdigest(), w.now, d.broken, w.lines[-200:] if w.debug else []))
            mv = memoryview(struct.pack("<I", len(data)) + data)
            while mv:
                mv = mv[os.write(wr, mv):]
        except BaseException:
            code = 99
        finally:
            os._exit(code)
    os.close(wr)
    buf = bytearray()
    while True:
        b = os.read(r, 1 << 20)
        if not b:
            break
        buf += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if len(buf) >= 4 and len(buf) >= 4 + struct.unpack("<I", bytes(buf[:4]))[0]:
        how, value, calls, fired, stats, states, dig, now, broken, lines = pickle.loads(bytes(buf[4:]))
        for k, v in stats.items():
            w.stats[k] += v
        w.states |= states
        w.now = max(w.now, now)
        if broken:
            w.disk.broken = broken
        if w.debug:
            w.lines.extend("  | " + l for l in lines)
        w.log("process", how, value[0] if how in ("raised", "violation") else "", calls, dig)
        if how == "violation":
            raise Violation(*value)
        return Outcome(how, value, 0, calls, fired)
    if os.WIFSIGNALED(st):
        s = os.WTERMSIG(st)
        w.log("process", "signal", s)
        w.stats["fault.process-killed-by-signal-%d" % s] += 1
        if s == signal.SIGALRM:
            raise RuntimeError("a simulated process did not end")
        return Outcome("signal", None, s)
    c = os.WEXITSTATUS(st)
    w.log("process", "died", c)
    if c != DIED:
        raise RuntimeError("a simulated process ended with %d" % c)
    w.stats["fault.process-crash"] += 1
    return Outcome("died")


class Actor:
    """Another process, started before the run and asked to act at chosen
    moments (the asker waits for it)."""

    def __init__(self, w, serve):
        self.w = w
        a, b = os.pipe()
        c, d = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(b)
                os.close(c)
                signal.alarm(120)
                w.disk.quiet = True
                state = {}
                while True:
                    h = os.read(a, 4)
                    if len(h) < 4:
                        break
                    n = struct.unpack("<I", h)[0]
                    m = b""
                    while len(m) < n:
                        m += os.read(a, n - len(m))
                    try:
                        res = ("ok", serve(state, *pickle.loads(m)))
                    except Exception as e:
                        res = ("raised", type(e).__name__)
                    res = pickle.dumps(res)
                    os.write(d, struct.pack("<I", len(res)) + res)
            finally:
                os._exit(0)
        os.close(a)
        os.close(d)
        self.tx, self.rx = b, c

    def ask(self, *what):
        m = pickle.dumps(what)
        os.write(self.tx, struct.pack("<I", len(m)) + m)
        h = os.read(self.rx, 4)
        if len(h) < 4:
            raise RuntimeError("the other process is gone")
        n = struct.unpack("<I", h)[0]
        m = b""
        while len(m) < n:
            m += os.read(self.rx, n - len(m))
        res = pickle.loads(m)
        self.w.log("actor", what[0], res[0], res[1] if res[0] == "raised" else "")
        return res

    def close(self):
        os.close(self.tx)
        os.close(self.rx)
        os.waitpid(self.pid, 0)
