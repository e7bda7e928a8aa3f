"""Asynchronous exceptions at a chosen line of the library.

An exception (an exhausted allocator, an interrupt from the keyboard) is
raised just before the n-th library line a call executes.  Lines of `with`
statements, of finally blocks and of exception handlers are left out: an
interrupt there is one that CPython itself does not promise to survive.  The
line of a `try` itself is left out, too: nothing can fail at it, and CPython
does not count it as covered by an enclosing `with`."""
import ast
import os

from .. import sched

_skip = {}
FILES = ("Marshallers.py", "utilities.py")


def skip_lines(fn):
    if fn not in _skip:
        out = set()
        with open(fn, "rb") as f:
            tree = ast.parse(f.read())
        for n in ast.walk(tree):
            if isinstance(n, (ast.With, ast.AsyncWith)):
                out.add(n.lineno)
                for i in n.items:
                    out.update(range(i.context_expr.lineno, i.context_expr.end_lineno + 1))
            elif isinstance(n, (ast.Try, ast.TryStar)):
                out.add(n.lineno)
                for b in n.finalbody:
                    out.update(range(b.lineno, b.end_lineno + 1))
                for h in n.handlers:
                    out.update(range(h.lineno, h.end_lineno + 1))
        _skip[fn] = out
    return _skip[fn]


EXC = {"MemoryError": MemoryError, "KeyboardInterrupt": KeyboardInterrupt}


class Injector:
    """Counts eligible lines and raises at the chosen one.  `files` restricts
    to some source files of the library."""

    def __init__(self, w, at=None, exc="MemoryError", files=FILES, skip=()):
        self.w = w
        self.at = at
        self.exc = EXC[exc]
        self.files = files
        self.skip = skip          # functions left alone
        self.n = 0
        self.fired = None
        self.names = {}

    def hook(self, code, line):
        fn = code.co_filename
        ok = self.names.get(fn)
        if ok is None:
            ok = self.names[fn] = skip_lines(fn) if os.path.basename(fn) in self.files else False
        if ok is False or line in ok or code.co_name == "<module>" or code.co_name in self.skip:
            return
        self.n += 1
        if self.at is not None and self.n - 1 == self.at:
            self.fired = "%s:%s" % (os.path.basename(fn), code.co_name)
            self.w.stats["fault.%s-at-a-line" % self.exc.__name__] += 1
            self.w.log("inject", self.exc.__name__, self.fired)
            raise self.exc("injected")

    def __enter__(self):
        sched.trace_lines(self.hook)
        return self

    def __exit__(self, *a):
        sched.untrace()


METHODS = {"Group": ("__getitem__", "__contains__", "__delitem__", "__len__", "__iter__", "create_group", "require_group",
                     "create_dataset", "move", "get"),
           "File": ("flush", "close"), "Dataset": ("__getitem__", "__setitem__", "read_direct"),
           "AttributeManager": ("__getitem__", "__setitem__", "__delitem__", "__contains__", "get", "create",
                                "modify")}


class CallInjector:
    """Makes the n-th call that the library's code (that of one thread) makes
    into h5py fail.  No n: only counts."""

    def __init__(self, w, spec):
        import h5py
        self.w, self.tid, self.left, self.exc = w, spec.get("tid"), spec["call"], spec["exc"]
        self.n = 0
        self.times = spec.get("times", 1)      # further calls fail, too
        self.only = spec.get("only")
        self.skip = spec.get("skip", ())
        self.fired = None
        self.depth = 0
        self.undo = []
        for c, ms in METHODS.items():
            cls = getattr(h5py, c)
            for m in ms:
                if m in self.skip:
                    continue
                f = getattr(cls, m, None)
                if f is not None:
                    self.undo.append((cls, m, m in vars(cls), f))
                    setattr(cls, m, self.wrap(f, m))

    def wrap(self, f, m):
        def call(*a, **kw):
            if self.depth or self.tid is not None and (self.w.sched is None or self.w.sched.cur != self.tid):
                return f(*a, **kw)
            self.n += 1
            if self.left is not None and self.times > 0 and self.only in (None, m) and (self.fired is None or m != "close"):
                if self.left <= 0:
                    self.times -= 1
                    self.fired = self.fired or m
                    self.w.stats["fault.%s-in-h5py" % self.exc] += 1
                    self.w.log("injected", self.exc, m)
                    raise {"OSError": OSError, "RuntimeError": RuntimeError, "MemoryError": MemoryError}[self.exc]("injected")
                self.left -= 1
            self.depth += 1
            try:
                return f(*a, **kw)
            finally:
                self.depth -= 1
        return call

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.stop()

    def stop(self):
        for cls, m, own, f in self.undo:
            if own:
                setattr(cls, m, f)
            else:
                delattr(cls, m)
