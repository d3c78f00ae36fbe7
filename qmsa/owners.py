"""Which arguments a function may modify: ownership of the objects it updates, and summaries over the call graph."""
from .terms import *  # noqa
from . import terms as TT

SHALLOW = {"list", "tuple", "set", "sorted", "reversed", "enumerate", "zip", "dict", "frozenset", "filter", "iter", "dict.values", "dict.items"}
SAME = {"numpy.asarray", "numpy.asanyarray", "numpy.ravel", "numpy.reshape", "numpy.squeeze", "numpy.transpose", "numpy.swapaxes", "numpy.atleast_1d",
        "numpy.moveaxis", "numpy.flip", "numpy.broadcast_to", "numpy.diagonal", "numpy.ascontiguousarray"}
MAYBE = {"numpy.require", "numpy.nan_to_num"}
WRAPPED = ("mut", "upd", "setitem", "setloc", "delitem")


def plain(k):
    """an index that selects a part in place (no masks, no lists of positions)"""
    return k.op in ("num", "const", "k", "slice", "fmt", "sym", "poly", "dkey", "attr", "sub", "row", "next", "elem") or k.op == "tuple" and all(plain(x) for x in k.a[0])


# methods of a stream that work on its traces
PARTWISE = {"detrend", "filter", "taper", "trim", "interpolate", "resample", "decimate", "differentiate", "integrate", "normalize", "remove_response", "simulate", "remove_sensitivity", "merge", "cutout", "attach_response"}


def section(t):
    """a section of an array: an update in place is one of the array"""
    return t.op == "sub" and plain(t.a[1]) and t.a[1].op == "tuple" and any(x.op == "slice" or x.op == "const" and x.a[0] in (Ellipsis, "...") for x in t.a[1].a[0])


VIEWS = {"loc", "iloc", "at", "iat", "values", "T", "flat", "real"}


def join(a, b):
    """the first two attributes of a chain; other views of an array or table are the table"""
    x = [y for y in a.split(".") + b.split(".") if y and y not in VIEWS]
    return ".".join(x[:4])


CHOICE = ("ite", "phi", "fold", "foldbrk", "last", "lastbrk", "maybe")


def held(t):
    """the objects a choice (of branches, of iterations) may be; not what it is chosen by"""
    out = []
    for x in t.a[0:1] if t.op == "foldbrk" else t.a[1:]:
        if isinstance(x, T):
            out.append(x)
    if t.op in ("foldbrk", "lastbrk"):
        out += [x for x in t.a[1 if t.op == "foldbrk" else 2] if isinstance(x, T)]
    return [x for x in out if x.op not in ("const", "num")]


class Owners:
    """objects of the caller that a term of one analysed function may be, as (parameter, first attribute)"""

    def __init__(self, I, params, returns):
        self.I, self.params, self.returns = I, params, returns
        self.shallow = getattr(I, "shallow", {})
        self.busy = set()

    def of(self, t):
        return self._of(t, False)

    def within(self, t):
        """owners of the parts of an object"""
        return self._of(t, True)

    def _of(self, t, inner):
        key = (t, inner)
        if key in self.busy:
            return set()
        self.busy.add(key)
        try:
            return self._go(t, inner)
        finally:
            self.busy.discard(key)

    def _go(self, t, inner):
        I, op = self.I, t.op
        if op == "sym":
            o = I.origin.get(t)
            if o:
                return {(o, "")}
            return {(t.a[0], "")} if t.a[0] in self.params else set()
        if op == "ref":
            o = I.origin.get(t)
            if o:
                return {(o, "")}
            if t in I.views:
                return self._of(I.views[t], inner)
            if t in self.shallow:
                return self._of(self.shallow[t], True) if inner else set()
            c = I.st.heap.get(("c", t))
            if c is None:
                c = I.global_heap.get(t)
            if c is None or c is t:
                return set()
            return self._content(c, inner, 0)
        if t in I.views:
            return self._of(I.views[t], inner)
        if op in ("attr", "sub", "row"):
            if op == "sub" and not plain(t.a[1]):
                return set()
            out = set()
            b = t.a[0]
            for p, a in self._of(b, True):
                out.add((p, join(a, str(t.a[1])) if op == "attr" else a))
            return out
        if op == "mut":
            return self._of(t.a[1], inner)
        if op in WRAPPED:
            return self._of(t.a[0], inner)
        if op in CHOICE:
            out = set()
            for x in held(t):
                out |= self._of(x, inner)
            return out
        if op in ("list", "tuple", "set", "dict", "concat", "map", "flat", "star", "items"):
            return self._parts(t) if inner else set()
        if op == "call":
            return self._call(t, inner, False)
        return set()

    def _content(self, c, inner, depth):
        """owners of (the parts of) an object made by the function itself, from what it holds"""
        if depth > 12:
            return set()
        if c.op == "mut":
            return self._content(c.a[1], inner, depth + 1)
        if c.op in WRAPPED:
            return self._content(c.a[0], inner, depth + 1)
        if c.op == "call":
            return self._call(c, inner, True)
        if c.op in CHOICE:
            out = set()
            for x in held(c):
                out |= self._content(x, inner, depth + 1)
            return out
        if inner and c.op == "concat":
            out = set()
            for x in c.a[0]:
                out |= self._content(x, True, depth + 1)
            return out
        if inner and c.op in ("list", "tuple", "set", "dict", "map", "flat", "star", "items"):
            return self._parts(c)
        if c.op == "ref":
            return self._of(c, inner)
        return set()

    def _parts(self, t):
        out = set()
        if t.op in ("flat", "star", "items"):
            return self._of(t.a[0], True)
        if t.op in CHOICE:
            for x in held(t):
                out |= self._of(x, True)
            return out
        if t.op == "concat":
            for x in t.a[0]:
                out |= self._of(x, True)
            return out
        if t.op == "map":
            for x in t.a[2]:
                out |= self._of(x, False) | self._of(x, True)
            return out
        for x in t.a[0]:
            for y in (x if isinstance(x, tuple) else (x,)):
                if isinstance(y, T):
                    out |= self._of(y, False)
        return out

    def _call(self, t, inner, held):
        f = t.a[0]
        if f.op == "ext":
            n = f.a[0]
            if n in SAME and t.a[1] and not held:
                return self._of(t.a[1][0], inner)
            if n in SHALLOW and inner:
                out = set()
                for x in t.a[1]:
                    out |= self._of(x, True)
                return out
            return set()
        if f.op == "meth":
            if f.a[1] in ("setdefault", "get", "pop"):
                return self._of(f.a[0], True)
            return set()
        if f.op == "func":
            out = set()
            kw = dict(t.a[2])
            for p in self.returns.get(f.a[0], ()):
                if p in kw:
                    out |= self._of(kw[p], inner)
            return out
        return set()


def summaries(every):
    """for each function: the arguments it may modify {(parameter, attribute): where}, to a fixpoint over its calls"""
    quals, returns, mods = {}, {}, {}
    todo = []
    for f, s in every:
        q = f.qual + (".setter" if f.kind == "setter" else "")
        if s is None:
            continue
        a = f.node.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | ({a.kwarg.arg} if a.kwarg else set())
        todo.append((q, f, s, params))
        returns[q] = set()
        mods[q] = {}
    again = True
    while again:
        again = False
        for q, f, s, params in todo:
            o = Owners(s.I, params, returns)
            new = {}
            for e in s.log:
                if e.kind in ("mutate", "setattr") or e.kind == "aug":
                    if e.recv is None:
                        continue
                    own = o.of(e.recv)
                    if e.kind == "aug" and not section(e.recv):
                        continue
                    if e.fn in PARTWISE:
                        own = own | o.within(e.recv)
                    for p, at in own:
                        fn = str(e.fn)
                        x = join(at, fn.split(".", 1)[1] if fn.startswith(("setattr.", "delattr.")) else fn if e.kind == "setattr" else "")
                        new.setdefault((p, x), "%s by %s" % (e.where, fn))
                elif e.kind == "call" and e.fn in mods and isinstance(e.extra, dict):
                    for (p, at), w in list(mods[e.fn].items()):
                        if ":" in p:
                            continue
                        v = e.extra.get(p)
                        if v is None:
                            continue
                        for p2, at2 in o.of(v):
                            new.setdefault((p2, join(at2, at)), "%s: %s" % (e.where, w))
            ret = {p for p, at in (o.of(s.ret) if s.ret is not None else ()) if not at and ":" not in p}
            if ret - returns[q]:
                returns[q] |= ret
                again = True
            for k, w in new.items():
                if k not in mods[q]:
                    mods[q][k] = w
                    again = True
    return mods, returns
