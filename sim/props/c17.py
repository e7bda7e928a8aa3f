"""C17 Type dispatch follows priority in every collection history."""
import collections
import importlib.machinery
import sys
import types

from ..world import Violation
from . import common as C

ID = "C17"
LEVEL = "exploration"
RULE = ("a run is a history of adding, removing and clearing user marshallers (single ones, sequences, generators, duplicates, refused "
        "ones), of new collections with other priority orders, plugins and lazy or eager loading, of modules that are missing, broken, "
        "come and go, of restarts, and of lookups, writes and reads of a file through the collection. Every lookup, write and read is compared with "
        "a model of the collection's contents and of the simulated modules; at the end every known type, type string and MATLAB class is "
        "looked up here and in a collection built afresh. Non-trivial: a lookup was made after the contents or a module changed")
RUNS = {"quick": 8000, "thorough": 120000}
STATE_RULE = "contents of the collection in order, priority, and states of the modules"
MUST_HIT = ("probe.user-wins", "probe.user-loses", "probe.plugin", "probe.missing", "probe.broken", "probe.transient", "probe.approximate",
            "probe.exact", "probe.refused-write", "probe.refused-add", "probe.removed", "probe.nested", "probe.eager", "probe.bad-plugin")
ASSUMPTIONS = ["a module that was imported stays imported until a restart", "values that another family of marshallers wrote are not read back",
               "modules are simulated by an import hook"]
LISTS = ("ops",)
MODS = ["simqa", "simqb", "simqb.sub"]
STATES = ["ok", "absent", "import-error", "error", "unreadable"]
REQ = [[], [], ["simqa"], ["simqb"], ["simqb", "simqb.sub"], ["simqa", "simqb"], ["simqa", "simqb", "simqb.sub"]]
BUILTIN = ["collections.deque", "builtins.dict", "builtins.int", "builtins.str", "fractions.Fraction", "builtins.list", "numpy.float64"]
OWN = ["simqa.Foo", "simqb.sub.Bar", "simown.Own", "simown.Other"]
STRINGS = {"collections.deque": "collections.deque", "builtins.dict": "dict", "builtins.int": "int", "builtins.str": "str",
           "fractions.Fraction": "fractions.Fraction", "builtins.list": "list", "numpy.float64": "numpy.float64"}
MATLAB = ["double", "cell", "char", "struct", "simclass", "function_handle"]
GOOD = 6        # plugins' marshallers follow the users'


def gen(rng, tier, index):
    ms = []
    for i in range(9):
        pool = OWN * 2 + BUILTIN
        tps = []
        for x in rng.sample(pool, rng.choice([1, 2, 2, 3])):
            if x not in tps:
                tps.append(x)
        ms.append({"types": tps, "as_str": [rng.random() < .5 for _ in tps], "mat": rng.sample(MATLAB, rng.choice([0, 0, 1, 2])),
                   "req": rng.choice(REQ), "strings": rng.random() < .85})
    plug = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        plug.append({"ms": rng.sample(range(GOOD, 9), rng.randint(1, 2)), "bad": rng.choice([None, None, None, "load", "call", "junk", "none", "uncallable"])})
    ops = []

    def new():
        return {"op": "new", "prio": rng.sample(["builtin", "plugin", "user"], 3), "lazy": rng.random() < .6, "plug": rng.random() < .6,
                "ms": rng.sample(range(GOOD), rng.choice([0, 1, 3, 4, 5]))}
    ops.append(new())
    for _ in range(rng.randint(4, 14)):
        u = rng.random()
        if u < .22:
            ops.append({"op": "add", "ms": [rng.randrange(GOOD) for _ in range(rng.choice([1, 1, 2, 3]))], "form": rng.choice(["one", "list", "tuple", "gen", "set"])})
        elif u < .27:
            ops.append({"op": "badadd", "ms": [rng.randrange(GOOD) for _ in range(rng.choice([0, 1, 2]))], "form": rng.choice(["list", "gen", "raise", "one"])})
        elif u < .36:
            ops.append({"op": "remove", "ms": [rng.randrange(GOOD) for _ in range(rng.choice([1, 1, 2]))], "form": rng.choice(["one", "list", "gen"])})
        elif u < .39:
            ops.append({"op": "clear"})
        elif u < .43:
            ops.append(new())
        elif u < .56:
            ops.append({"op": "mod", "m": rng.choice(MODS), "s": rng.choice(STATES + ["ok"] * 4)})
        elif u < .74:
            how = rng.choice(["type", "type", "string", "matlab"])
            ops.append({"op": "look", "how": how, "k": rng.choice({"type": OWN + BUILTIN + ["simown.None"], "string": OWN + list(STRINGS.values()) + ["?"],
                                                                  "matlab": MATLAB}[how]), "cls": rng.random() < .5})
        elif u < .77:
            ops.append({"op": "restart", "lazy": rng.random() < .6})
        elif u < .92:
            have = [k for o in ops for j in o.get("ms", []) for k in ms[j]["types"] if k in OWN] or OWN
            n = rng.randrange(3)
            ops.append({"op": "write", "n": n, "k": rng.choice(have if rng.random() < .7 else OWN + BUILTIN * 2), "nest": rng.choice([None, None, "list", "dict", "objarr"]), "x": rng.randrange(100)})
            if rng.random() < .4:
                ops.append({"op": "mod", "m": rng.choice(MODS), "s": rng.choice(STATES[1:])})
                ops.append({"op": "restart", "lazy": rng.random() < .6})
            if rng.random() < .8:
                ops.append({"op": "read", "n": n})
        else:
            ops.append({"op": "read", "n": rng.randrange(3)})
    return {"ms": ms, "plug": plug, "start": {m: rng.choice(["ok"] * 8 + STATES) for m in MODS}, "ops": ops, "mat": rng.random() < .3}


def valid(t):
    return t["ops"] and t["ops"][0]["op"] == "new"


def shrink(t):
    for m in MODS:
        if t["start"][m] != "ok":
            yield dict(t, start=dict(t["start"], **{m: "ok"}))
    if t["plug"]:
        yield dict(t, plug=t["plug"][:-1])
    if t["mat"]:
        yield dict(t, mat=False)
    for i, m in enumerate(t["ms"]):
        if m["req"]:
            yield dict(t, ms=t["ms"][:i] + [dict(m, req=[])] + t["ms"][i + 1:])
        if m["mat"]:
            yield dict(t, ms=t["ms"][:i] + [dict(m, mat=[])] + t["ms"][i + 1:])
        if len(m["types"]) > 1:
            yield dict(t, ms=t["ms"][:i] + [dict(m, types=m["types"][:1], as_str=m["as_str"][:1])] + t["ms"][i + 1:])


class Modules:
    """The simulated modules: an import hook."""

    def __init__(self, state):
        self.state = dict(state)
        self.attempts = 0

    def find_spec(self, name, path=None, target=None):
        if name not in self.state:
            return None
        self.attempts += 1
        s = self.state[name]
        if s == "unreadable":
            raise OSError(5, "Input/output error", name)
        if s == "absent":
            return None
        return importlib.machinery.ModuleSpec(name, self, is_package=name == "simqb")

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        s = self.state[module.__name__]
        if s == "import-error":
            raise ImportError("simulated: %s cannot be imported" % module.__name__)
        if s == "error":
            raise RuntimeError("simulated: %s is broken" % module.__name__)

    def ok(self, name):
        """Whether it could be imported now."""
        return name in sys.modules or (self.state[name] == "ok" and ("." not in name or self.ok(name.rsplit(".", 1)[0])))


def execute(w, t):
    import contextlib
    import fractions
    import pkg_resources
    import hdf5storage as hs
    import hdf5storage.Marshallers as M
    import numpy as np

    mods = Modules(t["start"])
    sys.meta_path.insert(0, mods)
    classes = {}
    for k in OWN:
        mod, name = k.rsplit(".", 1)
        classes[k] = type(name, (), {"__module__": mod, "__init__": lambda self, x: setattr(self, "x", x)})
    for k, c in (("collections.deque", collections.deque), ("builtins.dict", dict), ("builtins.int", int), ("builtins.str", str),
                 ("fractions.Fraction", fractions.Fraction), ("builtins.list", list), ("numpy.float64", np.float64)):
        classes[k] = c
    classes["simown.None"] = type("None", (), {"__module__": "simown"})

    def payload(v):
        return v.x if hasattr(v, "x") else repr(v)

    class Sim(M.PythonDictMarshaller):
        def __init__(self, i, d):
            M.PythonDictMarshaller.__init__(self)
            self.i = i
            self.types = tuple(k if s else classes[k] for k, s in zip(d["types"], d["as_str"]))
            self.python_type_strings = tuple(STRINGS.get(k, k) for k in d["types"]) if d["strings"] else tuple("sim%d.%s" % (i, k) for k in d["types"])
            self.matlab_classes = tuple(d["mat"])
            self.required_modules = tuple(d["req"])
            self.required_parent_modules = tuple(m for m in d["req"] if "." not in m)
            self.update_type_lookups()

        def write(self, f, grp, name, data, type_string):
            return M.PythonDictMarshaller.write(self, f, grp, name, {"by": self.i, "x": str(payload(data))}, self.get_type_string(data, type_string))

        def read(self, f, dsetgrp, attributes):
            return Got("exact", self.i, dsetgrp)

        def read_approximate(self, f, dsetgrp, attributes):
            return Got("approximate", self.i, dsetgrp)
    pool = [Sim(i, d) for i, d in enumerate(t["ms"])]
    builtins = [c for _, c in sorted((n, c) for n, c in vars(M).items() if isinstance(c, type) and issubclass(c, M.TypeMarshaller))]
    samples = [c() for c in builtins]

    # the plugins of other packages
    for i, d in enumerate(t["plug"]):
        name = "simplug%d" % i
        m = types.ModuleType(name)

        def get(version, d=d):
            if d["bad"] == "call":
                raise RuntimeError("simulated: a broken plugin")
            if d["bad"] == "none":
                return None
            return [pool[j] for j in d["ms"]] + ([3, "junk"] if d["bad"] == "junk" else [])
        m.get = 3 if d["bad"] == "uncallable" else get
        if d["bad"] != "load":
            sys.modules[name] = m
        dist = pkg_resources.Distribution(project_name=name, version="1.0", location=w.p("plug%d" % i))
        dist._ep_map = {"hdf5storage.marshallers.plugins": {"1.0": pkg_resources.EntryPoint("1.0", name, attrs=("get",), dist=dist)}}
        pkg_resources.working_set.add(dist, entry=w.p("plug%d" % i))
        w.stats["probe.bad-plugin"] += d["bad"] is not None
    plugged = [j for d in t["plug"] if d["bad"] in (None, "junk") for j in d["ms"]]

    users, prio, plug, mc = [], None, False, None
    path = w.p("f.h5")
    model = {}          # name -> (key, marshaller index or None for builtin, payload, nest)
    changed = False
    nt = False

    def build(lazy=True):
        return hs.MarshallerCollection(load_plugins=plug, lazy_loading=lazy, priority=prio, marshallers=[pool[i] for i in users])

    def order():
        for p in prio:
            if p == "builtin":
                yield from samples
            elif p == "user":
                yield from (pool[i] for i in users)
            elif plug:
                yield from (pool[i] for i in plugged)

    def expect(how, key):
        """(marshaller, whether its modules can be had) by the model."""
        for m in order():
            if how == "type":
                keys = [x if isinstance(x, str) else x.__module__ + "." + x.__name__ for x in m.types]
            else:
                keys = m.python_type_strings if how == "string" else m.matlab_classes
            if key in keys:
                return m, all(mods.ok(x) for x in m.required_modules)
        return None, False

    def same(m, e):
        return m is e or (e is not None and not isinstance(e, Sim) and type(m) is type(e))

    def nm(m):
        return "no marshaller" if m is None else "marshaller %d" % m.i if isinstance(m, Sim) else type(m).__name__

    def look(c, how, key, cls, what):
        e, has = expect(how, key)
        try:
            if how == "type":
                m, h = c.get_marshaller_for_type(classes[key] if cls else key)
            elif how == "string":
                m, h = c.get_marshaller_for_type_string(key)
            else:
                m, h = c.get_marshaller_for_matlab_class(key)
        except Exception as x:
            raise Violation("failed", "%s: looking up the %s %s raised %s: %s" % (what, how, key, C.exname(x), x))
        if not same(m, e):
            raise Violation("wrong-marshaller", "%s: the %s %s goes to %s instead of %s (users %s, priority %s)" % (
                what, how, key, nm(m), nm(e), users, prio))
        if h is not has:
            raise Violation("wrong-modules", "%s: the modules of %s for the %s %s are said to be %s (modules %s)" % (
                what, nm(e), how, key, "there" if h else "missing", states()))
        if e is not None and getattr(e, "required_modules", ()):
            s = [mods.state[x] for x in e.required_modules if x not in sys.modules]
            w.stats["probe.missing"] += "absent" in s
            w.stats["probe.broken"] += "error" in s or "import-error" in s or "unreadable" in s
        if isinstance(e, Sim):
            w.stats["probe.plugin"] += e.i >= GOOD
            w.stats["probe.user-wins"] += e.i < GOOD and how == "type" and key in BUILTIN
        elif e is not None:
            w.stats["probe.user-loses"] += any(key in (t["ms"][i]["types"] if how == "type" else pool[i].python_type_strings) for i in users)

    def states():
        return {m: "imported" if m in sys.modules else s for m, s in mods.state.items()}

    def value(op):
        k, x = op["k"], op["x"]
        v = classes[k](x) if k in OWN else {"collections.deque": lambda: collections.deque([x]), "builtins.dict": lambda: {"a": x},
                                            "builtins.int": lambda: x, "builtins.str": lambda: "s%d" % x, "fractions.Fraction": lambda: fractions.Fraction(x, 7),
                                            "builtins.list": lambda: [x], "numpy.float64": lambda: np.float64(x)}[k]()
        return v

    def forms(items, form):
        l = [pool[i] for i in items]
        return {"one": l[0] if l else 3, "list": l, "tuple": tuple(l), "gen": (x for x in l), "set": collections.OrderedDict.fromkeys(l)}[form]

    def options():
        return hs.Options(matlab_compatible=t["mat"], marshaller_collection=mc, action_for_matlab_incompatible="ignore", delete_unused_variables=True)

    def read(n, what):
        key, by, x, nest = model[n]
        try:
            with hs.File(path, options=options()) as f:
                got = f["v%d" % n]
                text = (lambda g: None)
                if nest in ("list", "objarr"):
                    got, rest = (got[1], got[0] if nest == "list" else 7)
                elif nest == "dict":
                    got, rest = got["a"], got["b"]
                else:
                    rest = 7
                if isinstance(got, Got):
                    text = got.text(f)
        except Exception as e:
            raise Violation("failed", "%s: reading raised %s: %s" % (what, C.exname(e), e))
        return got, rest, text
    for i, op in enumerate(t["ops"]):
        k = op["op"]
        what = "op %d (%s)" % (i, k)
        try:
            if k == "new":
                users, prio, plug = [], op["prio"], op["plug"]
                for j in op["ms"]:
                    if j not in users:
                        users.append(j)
                w.stats["probe.eager"] += not op["lazy"]
                mc = build(op["lazy"])
                changed = True
                if mc.priority != tuple(prio):
                    raise Violation("priority", "%s: the priority is %r" % (what, mc.priority))
            elif k == "restart":        # a new process with the same marshallers
                for m in reversed(MODS):
                    sys.modules.pop(m, None)
                mc = build(op["lazy"])
                changed = True
            elif k == "add":
                its = op["ms"][:1] if op["form"] == "one" else op["ms"]
                mc.add_marshaller(forms(its, op["form"]))
                for j in its:
                    if j not in users:
                        users.append(j)
                changed = True
            elif k == "badadd":
                def items():
                    yield from (pool[j] for j in op["ms"])
                    if op["form"] == "raise":
                        raise ValueError("simulated")
                    yield 3
                try:
                    mc.add_marshaller(3 if op["form"] == "one" else list(items()) if op["form"] == "list" else items())
                except (TypeError, ValueError):
                    w.stats["probe.refused-add"] += 1
                else:
                    raise Violation("accepted", "%s: something that is no marshaller was added" % what)
            elif k == "remove":
                its = op["ms"][:1] if op["form"] == "one" else op["ms"]
                mc.remove_marshaller(forms(its, op["form"]))
                w.stats["probe.removed"] += any(j in users for j in its)
                users = [j for j in users if j not in its]
                changed = True
            elif k == "clear":
                mc.clear_marshallers()
                users = []
                changed = True
            elif k == "mod":
                w.stats["probe.transient"] += mods.state[op["m"]] != "ok" and op["s"] == "ok" and op["m"] not in sys.modules
                mods.state[op["m"]] = op["s"]
                changed = True
            elif k == "look":
                look(mc, op["how"], op["k"], op["cls"], what)
                nt |= changed
            elif k == "write":
                key = op["k"]
                e, has = expect("type", key)
                # what is stored around and inside it has to go to the library's own marshallers
                around = {None: [], "list": ["builtins.list", "builtins.int"], "dict": ["builtins.dict", "builtins.int"], "objarr": ["builtins.int"]}[op["nest"]]
                inside = ["builtins.int", "builtins.str"] if isinstance(e, Sim) else [] if key in ("builtins.int", "builtins.str", "numpy.float64") else ["builtins.int"]
                if any(isinstance(expect("type", x)[0], Sim) for x in around + inside):
                    continue
                v = value(op)
                x = payload(v)
                if op["nest"] == "objarr":
                    a = np.empty(2, object)
                    a[0], a[1] = 7, v
                    v = a
                elif op["nest"]:
                    v = [7, v] if op["nest"] == "list" else {"a": v, "b": 7}
                w.stats["probe.nested"] += op["nest"] is not None
                try:
                    with hs.File(path, writable=True, options=options()) as f:
                        f["v%d" % op["n"]] = v
                except NotImplementedError:
                    if e is not None and has:
                        raise
                    w.stats["probe.refused-write"] += 1
                    if op["nest"]:
                        model.pop(op["n"], None)
                else:
                    if e is None or not has:
                        raise Violation("not-refused", "%s: a %s was written though %s" % (what, key, "no marshaller handles it" if e is None else
                                                                                            "the modules of %s cannot be imported" % nm(e)))
                    model[op["n"]] = (key, e.i if isinstance(e, Sim) else None, x, op["nest"])
                nt |= changed
            elif k == "read" and op["n"] in model:
                key, by, x, nest = model[op["n"]]
                # its containers and numbers have to be read by the library's own
                own = {None: [], "list": ["list", "int"], "dict": ["dict", "int"], "objarr": ["int"]}[nest]
                if by is None:
                    own = own + [STRINGS[key], "int"]
                if any(isinstance(expect("string", s)[0], Sim) for s in own):
                    continue
                if by is not None:
                    s = pool[by].type_to_typestring.get(classes[key]) or pool[by].type_to_typestring[key]
                    e, has = expect("string", s)
                    if not isinstance(e, Sim):
                        continue
                got, rest, text = read(op["n"], what)
                if rest != 7:
                    raise Violation("others", "%s: what is beside it is read as %r" % (what, rest))
                if by is None:
                    if payload(got) != x or type(got) is not classes[key]:
                        raise Violation("wrong-value", "%s: %s is read as %r" % (what, x, got))
                    continue
                if not isinstance(got, Got) or got.by != e.i:
                    raise Violation("wrong-marshaller", "%s: a stored %s was read by %s instead of %s (users %s, priority %s)" % (
                        what, s, "marshaller %d" % got.by if isinstance(got, Got) else "another", nm(e), users, prio))
                if got.how != ("exact" if has else "approximate"):
                    raise Violation("wrong-modules", "%s: a stored %s was read in the %s form (modules %s)" % (what, s, got.how, states()))
                if text != (str(by), str(x)):
                    raise Violation("wrong-marshaller", "%s: stored by and with %s instead of %s" % (what, text, (by, x)))
                w.stats["probe.%s" % got.how] += 1
                nt |= changed
        except Violation:
            raise
        except Exception as e:
            raise Violation("failed", "%s raised %s: %s (modules %s)" % (what, C.exname(e), e, states()))
        w.state(tuple(users), tuple(prio), tuple(sorted(states().items())), plug)
        w.log(k, tuple(users))
    keys = [("type", x) for x in OWN + BUILTIN] + [("string", x) for x in OWN + list(STRINGS.values())] + [("matlab", x) for x in MATLAB]
    for m in samples:
        keys += [("type", x if isinstance(x, str) else x.__module__ + "." + x.__name__) for x in m.types] + \
                [("string", x) for x in m.python_type_strings] + [("matlab", x) for x in m.matlab_classes]
    for how, key in keys:
        look(mc, how, key, False, "at the end")
    c = build()
    for how, key in keys:
        look(c, how, key, False, "in a collection built afresh")
    with contextlib.suppress(ValueError):
        sys.meta_path.remove(mods)
    return {"nontrivial": nt}


class Got:
    """What a simulated marshaller returns."""

    def __init__(self, how, by, obj):
        self.how, self.by = how, by
        self.obj = obj
        self.stored = {k: self.get(obj, k) for k in ("by", "x")} if hasattr(obj, "keys") else None

    @staticmethod
    def get(obj, k):
        import numpy as np
        d = obj[k][()] if k in obj else None
        if d is None:
            return None
        d = np.ravel(d)
        return "".join(chr(c) for c in d) if k == "x" and d.dtype.kind == "u" and d.dtype.itemsize in (2, 4) else d[0]

    def text(self, f):
        if self.stored is None:
            return None
        by, x = self.stored["by"], self.stored["x"]
        if isinstance(x, bytes):
            x = x.decode()
        return str(by), str(x)
