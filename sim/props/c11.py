"""C11 Every file opened for MATLAB gets a valid, consistent header."""
import os
import re
import time

from .. import values as V
from ..world import Violation
from . import common as C
from . import proc

ID = "C11"
LEVEL = "exploration"
RULE = ("a run is a history of opens (File objects, with blocks, write, writes, savemat, read, loadmat; with and without MATLAB "
        "compatibility, writing, truncation) of one file that starts as absent or with a user block of a seeded size, content "
        "and variables, under a simulated clock that ticks, jumps, stands still and runs backwards between readings, near "
        "roll-overs of seconds to centuries, in a seeded time zone and a locale with names of its own, with short and "
        "interrupted writes. After each open the header is compared with the instants that the clock gave during the open. "
        "Non-trivial: a header was written")
RUNS = {"quick": 8000, "thorough": 80000}
STATE_RULE = "way of opening, user block before, options, clock step, zone"
MUST_HIT = ("probe.header", "probe.no-header-plain", "probe.no-header-block", "probe.header-kept", "fault.clock-jump", "fault.clock-backwards",
            "fault.clock-still", "fault.short-write", "fault.EINTR", "probe.user-block-kept", "probe.truncated", "probe.failed-open")
ASSUMPTIONS = ["the clock stays between 1970 and 2200",
               "what HDF5 itself puts after the user block when a file is opened and closed unchanged is judged by the values "
               "that are read from it"]
LISTS = ("opens", "vars", "jumps")
BLOCKS = [0, 0, 512, 512, 1024, 2048, 8192]
S = 1_000_000_000
DAY = 86400
ZONES = ["UTC", "UTC", "XXX-14", "YYY+12", "EST5EDT,M3.2.0,M11.1.0", "ZZZ-5:45", "CET-1CEST,M3.5.0,M10.5.0/3"]
MON = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]
WD = ["Thu", "Fri", "Sat", "Sun", "Mon", "Tue", "Wed"]          # from 1970-01-01
FILE = ["f.mat"]                        # the name of the file in this run
FILES = ["f.mat", "f.mat", "f.h5", "noext", "f.MAT", "f.mat.bak"]
BODIES = ["zero", "matlab", "text", "own"]


def civil(days):
    """Days since 1970-01-01 -> year, month, day (proleptic Gregorian)."""
    y = 1970
    while True:
        n = 366 if y % 4 == 0 and (y % 100 or y % 400 == 0) else 365
        if days < n:
            break
        days -= n
        y += 1
    leap = n == 366
    m = 0
    for k in (31, 29 if leap else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31):
        if days < k:
            break
        days -= k
        m += 1
    return y, m, days + 1


def date(ns):
    s = ns // S
    d, r = divmod(s, DAY)
    y, m, dd = civil(d)
    return "%s %s %02d %02d:%02d:%02d %04d" % (WD[d % 7], MON[m], dd, r // 3600, r // 60 % 60, r % 60, y)


def days(y, m, d):
    n = sum(366 if k % 4 == 0 and (k % 100 or k % 400 == 0) else 365 for k in range(1970, y))
    leap = y % 4 == 0 and (y % 100 or y % 400 == 0)
    return n + sum((31, 29 if leap else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)[:m - 1]) + d - 1


def simple(rng):
    """A value that any options store and read back."""
    return rng.choice([["int", str(rng.randrange(1000))], ["str", "text"], ["list", [["int", "3"], ["str", "x"]]], ["bytes", "6162"],
                       ["dict", [[["str", "k"], ["int", "4"]]]], ["bool", True], ["float", "1.5"], ["set", [["int", "2"]]]])


def gen(rng, tier, index):
    value = simple

    def clock():
        u = rng.random()
        if u < .55:       # just before a roll-over
            y = rng.choice([1970, 1971, 1999, 2000, 2004, 2023, 2024, 2038, 2099, 2100, rng.randint(1970, 2199)])
            m, d = rng.choice([(12, 31), (1, 1), (2, 28), (2, 29), (3, 1), (9, 30), (rng.randint(1, 12), rng.randint(1, 28))])
            if d == 29 and not (y % 4 == 0 and (y % 100 or y % 400 == 0)):
                d = 28
            t = days(y, m, d) * DAY + rng.choice([0, DAY - 1, 12 * 3600 - 1, 3599, 59, 9 * 3600 + 8 * 60 + 7, rng.randrange(DAY)])
            t = t * S + rng.choice([0, S - 1, S - 1_000_000, S // 2])
        else:
            t = rng.randrange(0, days(2199, 1, 1) * DAY) * S + rng.randrange(S)
        jumps = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            jumps.append([rng.randrange(0, 6), rng.choice([S, 60 * S, 3600 * S, DAY * S, 31 * DAY * S, 366 * DAY * S,
                                                           -S, -3600 * S, -DAY * S, -366 * DAY * S, rng.randrange(10 ** 17)])])
        return {"t": t, "step": rng.choice([0, 1_000_000, S // 3, S, S, 3600 * S, DAY * S, -S, -DAY * S]), "jumps": jumps}
    opens = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 5])):
        o = {"via": rng.choice(["File", "File", "with", "write", "writes", "savemat", "read", "loadmat", "mapping"]),
             "mat": rng.random() < .7, "w": rng.random() < .85, "te": rng.random() < .15, "ti": rng.random() < .3,
             "clock": clock(), "form": rng.choice(["", "", "", "link", "dangling", "relative", "obj"]),
             "v": value(rng) if rng.random() < .5 else None, "fault": None}
        u = rng.random()
        if u < .25:
            o["fault"] = {"do": "short", "len": rng.choice([1, 2, 60, 116, 124, 127, 511])}
        elif u < .35:
            o["fault"] = {"do": "EINTR"}
        elif u < .43:
            o["fault"] = {"do": rng.choice(["EIO", "ENOSPC"]), "on": rng.choice("wor"), "at": rng.randrange(6)}
        opens.append(o)
    start = rng.choice([None, "h5", "h5", "h5", "lib", "libplain"])
    return {"start": start, "block": rng.choice(BLOCKS), "body": rng.choice(BODIES), "vars": [value(rng) for _ in range(rng.choice([0, 1, 2]))],
            "file": rng.choice(FILES), "tz": rng.choice(ZONES), "foreign": rng.random() < .5, "libver": rng.choice(["earliest", "earliest", "latest"]),
            "opens": opens, "rnd": rng.getrandbits(16)}


def shrink(t):
    for k, v in (("file", "f.mat"), ("tz", "UTC"), ("foreign", False), ("libver", "earliest"), ("body", "zero")):
        if t[k] != v:
            yield dict(t, **{k: v})
    for i, o in enumerate(t["opens"]):
        for k, v in (("fault", None), ("v", None), ("form", ""), ("te", False), ("ti", False), ("via", "File")):
            if o[k] != v:
                yield dict(t, opens=t["opens"][:i] + [dict(o, **{k: v})] + t["opens"][i + 1:])
        c = o["clock"]
        for x in (dict(c, jumps=[]), dict(c, step=1_000_000), dict(c, t=1_700_000_000 * S)):
            if x != c:
                yield dict(t, opens=t["opens"][:i] + [dict(o, clock=x)] + t["opens"][i + 1:])


def body(kind, n):
    if kind == "zero":
        return bytes(n)
    if kind == "matlab":
        s = b"MATLAB 7.3 MAT-file, Platform: GLNXA64, Created on: Mon Jan  1 00:00:00 2022 HDF5 schema 1.00 ."
        return (s.ljust(116) + bytes(8) + b"\x00\x02IM" + bytes(range(256)) * (n // 256))[:n]
    if kind == "text":
        return (b"a script that runs before the data " * n)[:n]
    return bytes((7 * i + 3) % 251 for i in range(n))


def start(w, t):
    import h5py
    import hdf5storage as hs
    if t["start"] is None:
        return None
    p = w.p(FILE[0])
    names = {"/v%d" % i: v for i, v in enumerate(t["vars"])}
    if t["start"] == "h5":
        with h5py.File(p, "w", userblock_size=t["block"], libver=t["libver"]) as f:
            f["foreign"] = [1.0, 2.0, 3.0]
            f["foreign"].attrs["note"] = "kept"
        if t["vars"]:
            hs.writes({k: V.build(v) for k, v in names.items()}, filename=p, matlab_compatible=False)
    else:
        hs.writes({"/foreign": __import__("numpy").array([1.0, 2.0, 3.0]), **{k: V.build(v) for k, v in names.items()}}, filename=p,
                  matlab_compatible=t["start"] == "lib")
    u = t["block"] if t["start"] == "h5" else 512
    if u:
        d = bytearray(C.get(w, FILE[0]))
        d[:u] = body(t["body"], u)
        C.put(w, FILE[0], bytes(d))
    return u


def execute(w, t):
    import hdf5storage as hs
    w.seed_random(t["rnd"])
    FILE[0] = t["file"]
    os.environ["TZ"] = t["tz"]
    time.tzset()
    if t["foreign"]:
        w.foreign_locale()
    w.disk.quiet = True
    block = start(w, t)
    w.disk.quiet = False
    data = None if block is None else C.get(w, FILE[0])
    held = {"/v%d" % i: v for i, v in enumerate(t["vars"])} if block is not None else {}
    foreign = block is not None
    nt = False
    os.chdir(w.root)
    for i, o in enumerate(t["opens"]):
        before = data
        res = one(w, t, i, o, block)
        data = C.get(w, FILE[0])
        mat = o["mat"] or o["via"] == "savemat"
        writes = o["via"] in ("write", "writes", "savemat") or o["via"] in ("File", "with", "mapping") and o["w"]
        exists = before is not None
        what = "open %d: %s%s of %s" % (i, o["via"], "" if mat else " (plain)", "no file" if not exists else "a file with a user block of %d" % block)
        if res["err"]:
            nofault = not o["fault"] or not res["fired"]
            ok = not writes and not exists
            if nofault and not ok:
                raise Violation("refused", "%s raised %s" % (what, res["err"]))
            w.stats["probe.failed-open"] += 1
            if o["fault"] and o["fault"]["do"] in ("short", "EINTR") and not ok:
                raise Violation("refused", "%s raised %s after a %s write" % (what, res["err"], o["fault"]["do"]))
            # a disk error: the file as it was goes on
            if before is None:
                C.fresh(w, FILE[0])
            else:
                C.put(w, FILE[0], before)
            data = before
            continue
        if not writes:
            if data != before:
                raise Violation("changed", "%s, which only reads, changed the file" % what)
            continue
        new = not exists or o["te"] or mat and o["ti"] and block < 128
        old = bytes(512) if new else before[:block]
        if new:
            held, foreign, block = {}, False, 512
            w.stats["probe.truncated"] += exists
        w.state(o["via"], block, mat, new, o["clock"]["step"], t["tz"], o["form"])
        if mat and block >= 128:
            nt = True
            for when, d in res["seen"]:
                check_header(w, d[:128], res["instants"], "%s, %s" % (what, when))
                if d[128:block] != old[128:]:
                    raise Violation("changed", "%s, %s: the rest of the user block changed" % (what, when))
            w.stats["probe.header"] += 1
            w.stats["probe.user-block-kept"] += bool(old[128:].strip(b"\0"))
        else:
            for when, d in res["seen"]:
                if d[:block] != old:
                    raise Violation("header-written" if d[:6] == b"MATLAB" != old[:6] else "changed",
                                    "%s, %s: the user block changed to %r" % (what, when, d[:block][:40]))
            w.stats["probe.no-header-%s" % ("block" if mat else "plain")] += 1
            w.stats["probe.header-kept"] += old[:6] == b"MATLAB"
        if o["v"] is not None:
            held["/w%d" % (i % 2)] = o["v"]
        elif o["via"] in ("write", "writes", "savemat"):
            held["/w%d" % (i % 2)] = ["int", "1"]
        if not res["wrote"] and not new and len(data) == len(before) and data[block:] != before[block:]:
            w.stats["probe.superblock-changed"] += 1
        contents(w, what, held, foreign)
    return {"nontrivial": nt}


def contents(w, what, held, foreign):
    import h5py
    import numpy as np
    import hdf5storage as hs
    w.disk.quiet = True
    try:
        with hs.File(w.p(FILE[0])) as f:
            for k, v in held.items():
                why = []
                if not V.same(V.build(v), f[k], why):
                    raise Violation("data-changed", "%s: then %s has changed: %s" % (what, k, "; ".join(why)[:300]))
        if foreign:
            with h5py.File(w.p(FILE[0]), "r") as f:
                if not np.array_equal(f["foreign"][()].ravel(), [1.0, 2.0, 3.0]):
                    raise Violation("data-changed", "%s: then a dataset has changed" % what)
    except (OSError, KeyError) as e:
        raise Violation("data-changed", "%s: then the file cannot be read: %s %.200s" % (what, C.exname(e), e))
    finally:
        w.disk.quiet = False


HEAD = re.compile(r"MATLAB 7\.3 MAT-file, Platform: (\S[^,]*), Created on: (.{24}) HDF5 schema 1\.00 \. *\Z", re.S)


def check_header(w, d, instants, what):
    try:
        s = d[:116].decode("ascii")
    except UnicodeDecodeError:
        raise Violation("bad-header", "%s: the text is not ASCII: %r" % (what, d[:116]))
    m = HEAD.match(s)
    if not m:
        raise Violation("bad-header", "%s: the text is %r" % (what, s))
    if len(d) != 128 or d[116:124] != bytes(8) or d[124:126] != b"\x00\x02" or d[126:] != b"IM":
        raise Violation("bad-header", "%s: the last bytes are %r" % (what, d[116:]))
    ok = {date(x) for x in instants}
    if m.group(2) not in ok:
        raise Violation("wrong-date", "%s: the date is %r; the clock gave %s" % (what, m.group(2), sorted(ok)[:8]))


def one(w, t, i, o, block):
    import hdf5storage as hs
    import numpy as np
    c = o["clock"]
    state = {"n": 0, "t": c["t"]}
    instants = []
    on = [True]
    last = [None]

    def hook():
        n, state["n"] = state["n"], state["n"] + 1
        x = state["t"]
        state["t"] += c["step"]
        for at, j in c["jumps"]:
            if at == n:
                state["t"] += j
                w.stats["fault.clock-jump"] += 1
        state["t"] = min(max(state["t"], 0), 7_200_000_000 * S)
        if on[0]:
            instants.append(x)
            if last[0] is not None:
                w.stats["fault.clock-backwards"] += x < last[0]
                w.stats["fault.clock-still"] += x == last[0]
            last[0] = x
        w.now += 1_000_000
        return x
    p = w.p(FILE[0])
    form = o["form"]
    if form in ("link", "dangling"):
        w.disk.quiet = True
        if not os.path.islink(w.p("l.mat")):
            os.symlink(FILE[0], w.p("l.mat"))
        w.disk.quiet = False
        p = w.p("l.mat")
    elif form == "relative":
        p = FILE[0]
    kw = {"matlab_compatible": o["mat"]}
    tr = {"truncate_existing": o["te"], "truncate_invalid_matlab": o["ti"]}
    v = None if o["v"] is None else V.build(o["v"])
    name = "/w%d" % (i % 2)
    seen = []
    # seen is filled in while the file is open and after
    fault = o["fault"]
    plan = []
    if fault:
        if fault["do"] == "short":
            plan = [{"on": "w", "n": n, "do": "short", "len": fault["len"], **({"off": 0} if fault["len"] < 128 else {})} for n in range(4)]
        elif fault["do"] == "EINTR":
            plan = [{"on": "w", "n": n, "do": "EINTR", **({"off": 0} if i % 2 else {})} for n in range(0, 6, 2)]
        else:
            plan = [{"on": fault["on"], "n": fault["at"], "do": fault["do"]}]
    w.clock_hook = hook
    w.disk.arm(plan)

    def attempt():
        err = None
        wrote = True
        try:
            wrote = run(w, o, p, kw, tr, v, name, seen, on)
        except Violation:
            raise
        except Exception as e:
            err = "%s: %.150s" % (C.exname(e), e)
        fired = w.disk.disarm()
        w.clock_hook = None
        if not err:
            seen.append(("once closed", C.get(w, FILE[0])))
        return {"err": err, "fired": fired, "seen": seen, "instants": instants, "wrote": wrote}
    if fault and fault["do"] in ("EIO", "ENOSPC"):
        # HDF5 may die of a disk error
        r = proc.process(w, attempt, faults=plan)
        w.clock_hook = None
        w.disk.disarm()
        res = r.value if r.how == "ok" else {"err": "signal %d" % r.sig, "fired": plan, "seen": [], "instants": [], "wrote": True}
    else:
        res = attempt()
    w.log("open", i, o["via"], (res["err"] or "").split(":")[0], len(res["instants"]))
    w.stats["probe.clock-readings"] += len(res["instants"])
    return res


def run(w, o, p, kw, tr, v, name, seen, on):
    import hdf5storage as hs

    def look():
        seen.append(("while open", C.get(w, FILE[0])))
    via = o["via"]
    if via == "write":
        hs.write(1 if v is None else v, name, filename=p, **tr, **kw)
    elif via == "writes":
        hs.writes({name: 1 if v is None else v}, filename=p, **tr, **kw)
    elif via == "savemat":
        hs.savemat(p, {name: 1 if v is None else v}, appendmat=False, **tr)
    elif via == "read":
        hs.reads([], filename=p, **kw)
    elif via == "loadmat":
        hs.loadmat(p, appendmat=False)
    else:
        if o["form"] == "obj":
            x = hs.Options(**kw)
            f = hs.File(p, writable=o["w"], options=x, **tr)
        else:
            f = hs.File(p, writable=o["w"], **tr, **kw)
        on[0] = False
        try:
            if o["w"]:
                look()
            if via == "with":
                with f:
                    if v is not None and o["w"]:
                        f.write(v, name)
            elif via == "mapping":
                if v is not None and o["w"]:
                    f[name] = v
                f.get("/nonesuch")
            elif v is not None and o["w"]:
                f.write(v, name)
                f.flush()
        finally:
            f.close()
        return v is not None and o["w"]
    return via in ("write", "writes", "savemat")
