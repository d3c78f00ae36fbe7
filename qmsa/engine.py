"""
Gated value-flow analysis of the QuakeMigrate sources.

A syntax-directed, flow-sensitive, context-sensitive (call-by-call inlining)
dataflow analysis in the domain of value-number terms (terms.py).  Both arms of
every branch are analysed and joined with a gating term (``ite``), every loop body
is summarised once over a symbolic iteration counter (induction variables and list
accumulations are put in closed form, everything else is an opaque loop value), and
exception handlers are entered under an opaque "exception raised in block n"
literal.  The result of analysing an entry point is

* the term it returns,
* an ordered log of effects (library calls, mutations, raises, stores) with the
  argument terms, the path condition, the enclosing loops and try blocks, and
* the final abstract heap.

Rules (rules/*.py) are queries over these.  No analysed code is executed.
"""

import ast

from .terms import *  # noqa
from . import terms as TT
from .program import Program, Func, Class, Module, _dotted, _own_nodes, AnalysisBroken

UNBOUND = mk("unbound")
NONSCALAR = {
    "stats", "data", "loc", "iloc", "at", "iat", "values", "index", "columns",
    "traces", "extra", "header", "attrs",
}
MUTATORS = {
    "append", "extend", "insert", "pop", "remove", "clear", "update", "sort",
    "reverse", "setdefault", "merge", "trim", "detrend", "taper", "filter",
    "decimate", "resample", "interpolate", "remove_response", "remove_sensitivity",
    "simulate", "attach_response", "differentiate", "integrate", "normalize",
    "fill", "put", "discard", "popitem", "_rtrim", "_ltrim", "cutout", "rotate",
}
# method names in MUTATORS that are pure on these receivers / forms
PD_INPLACE = {
    "drop", "sort_values", "reset_index", "set_index", "fillna", "rename",
    "dropna", "replace", "drop_duplicates", "sort_index", "clip",
}
NP_METHODS = {
    "sum": "numpy.sum", "mean": "numpy.mean", "max": "numpy.max", "min": "numpy.min",
    "std": "numpy.std", "var": "numpy.var", "argmax": "numpy.argmax",
    "argmin": "numpy.argmin", "cumsum": "numpy.cumsum", "round": "numpy.round",
    "any": "numpy.any", "all": "numpy.all", "reshape": "numpy.reshape",
    "transpose": "numpy.transpose", "prod": "numpy.prod", "dot": "numpy.dot",
    "squeeze": "numpy.squeeze", "median": "numpy.median", "ravel": "numpy.ravel",
    "flatten": "numpy.ravel", "nonzero": "numpy.nonzero", "ptp": "numpy.ptp",
    "repeat": "numpy.repeat", "swapaxes": "numpy.swapaxes",
}
EXT_ALIAS = {
    "numpy.amax": "numpy.max", "numpy.amin": "numpy.min",
    "numpy.absolute": "abs", "numpy.abs": "abs", "numpy.fabs": "abs",
    "builtins.abs": "abs", "math.fabs": "abs",
    "numpy.rint": "numpy.round", "numpy.around": "numpy.round",
    "math.log10": "numpy.log10", "math.log": "numpy.log", "math.exp": "numpy.exp",
    "math.radians": "numpy.deg2rad", "numpy.radians": "numpy.deg2rad",
    "math.pi": "numpy.pi", "math.isnan": "numpy.isnan", "pandas.isna": "pandas.isnull",
    "obspy.core.UTCDateTime": "obspy.UTCDateTime",
    "obspy.core.utcdatetime.UTCDateTime": "obspy.UTCDateTime",
    "obspy.core.Stream": "obspy.Stream", "obspy.core.Trace": "obspy.Trace",
    "obspy.core.stream.Stream": "obspy.Stream",
    "obspy.core.trace.Trace": "obspy.Trace",
    "obspy.core.trace.Stats": "obspy.core.Stats",
    "obspy.core.stream.read": "obspy.read",
    "builtins.range": "range", "builtins.len": "len",
    "numpy.multiply": "op.mul", "numpy.divide": "op.div", "numpy.add": "op.add",
    "numpy.subtract": "op.sub", "numpy.true_divide": "op.div",
    "numpy.negative": "op.neg", "operator.mul": "op.mul", "operator.add": "op.add",
    "numpy.logical_and": "op.and", "numpy.logical_or": "op.or",
    "numpy.logical_not": "op.not", "numpy.bitwise_and": "op.and",
    "numpy.bitwise_or": "op.or",
    "numpy.greater": "op.gt", "numpy.greater_equal": "op.ge", "numpy.less": "op.lt",
    "numpy.less_equal": "op.le", "numpy.equal": "op.eq", "numpy.not_equal": "op.ne",
    "math.sqrt": "numpy.sqrt", "math.hypot": "numpy.hypot",
    "numpy.concat": "numpy.concatenate", "numpy.float64": "float",
    "builtins.float": "float", "numpy.math.ceil": "math.ceil",
    "scipy.signal.fftconvolve": "scipy.signal.fftconvolve",
    "functools.reduce": "functools.reduce",
    "numpy.power": "op.pow", "numpy.float_power": "op.pow",
    "numpy.maximum": "max", "numpy.minimum": "min", "numpy.fmax": "max",
    "numpy.fmin": "min", "builtins.max": "max", "builtins.min": "min",
}
FRESH_CALLS = {
    "obspy.Stream", "obspy.Trace", "obspy.read", "pandas.DataFrame",
    "pandas.read_csv", "pandas.Series", "pandas.concat", "numpy.zeros", "numpy.ones",
    "numpy.empty", "numpy.full", "numpy.array", "numpy.zeros_like",
    "numpy.ones_like", "numpy.empty_like", "numpy.full_like", "obspy.core.Stats",
    "obspy.core.AttribDict", "obspy.Catalog", "obspy.core.event.Event",
    "obspy.core.event.Origin", "obspy.core.event.Pick", "obspy.core.event.Amplitude",
    "obspy.core.event.Magnitude", "obspy.core.event.StationMagnitude",
    "obspy.core.event.OriginUncertainty", "obspy.core.event.ConfidenceEllipsoid",
    "numpy.asarray_copy", "set", "collections.defaultdict",
    "numpy.ascontiguousarray_copy",
}
LOG_FNS = {"print", "warnings.warn"}
EXC_BASES = {
    "Exception", "BaseException", "ValueError", "TypeError", "KeyError",
    "IndexError", "AttributeError", "RuntimeError", "StopIteration", "OSError",
    "IOError", "FileNotFoundError", "ZeroDivisionError", "NotImplementedError",
    "LookupError", "ArithmeticError", "NameError", "UnboundLocalError",
    "ImportError", "ModuleNotFoundError", "AssertionError", "EOFError",
    "FileExistsError", "PermissionError", "UnicodeDecodeError", "OverflowError",
    "UserWarning", "Warning", "KeyboardInterrupt",
}
EXC_PARENT = {
    "FileNotFoundError": "OSError", "IOError": "OSError", "PermissionError": "OSError",
    "FileExistsError": "OSError", "KeyError": "LookupError",
    "IndexError": "LookupError", "ZeroDivisionError": "ArithmeticError",
    "OverflowError": "ArithmeticError", "ModuleNotFoundError": "ImportError",
    "UnboundLocalError": "NameError", "NotImplementedError": "RuntimeError",
    "UnicodeDecodeError": "ValueError",
}


class Eff:
    """One entry of the effect log."""

    __slots__ = (
        "kind", "fn", "recv", "args", "kw", "pc", "loops", "trys", "file", "line",
        "func", "stack", "result", "seq", "bound", "root", "node", "caught", "extra",
    )

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, None)
        for n, v in k.items():
            setattr(self, n, v)

    @property
    def where(self):
        return "%s:%s (%s)" % (self.file, self.line, self.func)

    def arg(self, i, name=None):
        """positional or keyword argument"""
        if self.bound is not None and name is not None and name in self.bound:
            return self.bound[name]
        if name is not None and name in self.kw:
            return self.kw[name]
        if i is not None and self.args is not None and i < len(self.args):
            return self.args[i]
        return None

    def __repr__(self):
        return "<%s %s(%s) if %s @%s>" % (
            self.kind,
            self.fn,
            ", ".join(
                [show(x, 4) for x in self.args or []]
                + ["%s=%s" % (k, show(v, 4)) for k, v in (self.kw or {}).items()]
            ),
            show(self.pc, 4),
            self.where,
        )


class St:
    __slots__ = ("env", "heap", "pc", "live")

    def __init__(self, env, heap, pc, live=True):
        self.env, self.heap, self.pc, self.live = env, heap, pc, live

    def copy(self):
        return St(dict(self.env), dict(self.heap), self.pc, self.live)


class Frame:
    def __init__(self, func, parent=None):
        self.func = func
        self.rets = []  # (pc, value, heap)
        self.parent = parent  # lexical parent frame (closures)
        self.final_env = None
        self.loopctl = []
        self.asserts = []  # (loop depth, states of failed assertions) of enclosing try statements


class LoopCtl:
    def __init__(self):
        self.conts = []
        self.brks = []
        self.snaps = {}
        self.escapes = []  # pcs of return / raise


def lits_of(pc):
    if pc is TRUE:
        return frozenset()
    if pc.op == "and":
        return frozenset(pc.a[0])
    return frozenset((pc,))


class Limit(Exception):
    pass


def _shape(c):
    """shape of an array made here"""
    while c.op == "setitem":
        c = c.a[0]
    if c.op == "poly" and len(c.a[0]) == 1:
        m = c.a[0][0][0]
        if len(m) == 1 and m[0][1] == 1:
            c = m[0][0]
    if c.op == "call" and c.a[0].op == "ext" and c.a[0].a[0] in ("numpy.zeros", "numpy.ones", "numpy.empty", "numpy.full") and c.a[1]:
        s = c.a[1][0]
        if s.op == "tuple" or s.op == "attr" and s.a[1] == "shape":
            return s
    return None


def chosen_rows(frame, mask):
    """rows of a table; rows of the chosen rows are rows of the table"""
    if mask.op == "ite":
        a, b = chosen_rows(frame, mask.a[1]), chosen_rows(frame, mask.a[2])
        return None if a is None or b is None else ite(mask.a[0], a, b)
    if mask is TRUE or mask is FALSE:
        return None
    c = _aside(frame, mask)
    if c is not None:
        a, b = chosen_rows(frame, _with(mask, c, True)), chosen_rows(frame, _with(mask, c, False))
        return None if a is None or b is None else ite(c, a, b)
    if frame.op == "ite":
        sides = ((frame.a[1], frame.a[0]), (frame.a[2], not_(frame.a[0])))
        a, b = (chosen_rows(x, assume(subst(mask, lambda y, x=x: x if y is frame else None), set(c.a[0]) if c.op == "and" else {c})) for x, c in sides)
        return None if a is None or b is None else ite(frame.a[0], a, b)
    if frame.op == "sub" and TT._boolish(frame.a[1]) and _by_columns(frame, mask):
        m = subst(mask, lambda x: frame.a[0] if x is frame else None)
        return mk("sub", frame.a[0], and_(frame.a[1], m))
    return mk("sub", frame, mask)


def _columns(x, snap):
    """A column, or a list of columns, by name."""
    x = snap(x)
    if x.op == "ite":
        return _columns(x.a[1], snap) and _columns(x.a[2], snap)
    return is_str(x) or x.op == "list" and bool(x.a[0]) and all(is_str(y) for y in x.a[0])


def _aside(frame, mask):
    """a condition that selects between two ways to choose rows, and is not about the rows"""
    seen, todo = set(), [mask]
    while todo:
        m = todo.pop()
        if m.op in ("and", "or"):
            todo += list(m.a[0])
        else:
            seen.add(m)
    for m in sorted(seen, key=lambda x: x.id):
        if not_(m) in seen and m.op != "not" and not contains(m, lambda x: x is frame):
            return m
    return None


def _with(m, c, holds):
    if m is c or m is not_(c):
        return TRUE if (m is c) == holds else FALSE
    if m.op in ("and", "or"):
        return (and_ if m.op == "and" else or_)(*[_with(x, c, holds) for x in m.a[0]])
    return m


def _mask(m):
    return TT._boolish(m) if m.op != "ite" else _mask(m.a[1]) and _mask(m.a[2])


def _elementwise(array, m):
    """a condition on each element of an array, not on the array as a whole"""
    if not contains(m, lambda x: x is array):
        return True
    if m is array:
        return True
    if m.op in ("and", "or", "not", "lt0", "le0", "eq", "eq0", "poly") or m.op == "call" and m.a[0].op == "ext" and m.a[0].a[0] in ("pandas.isnull", "numpy.isnan", "abs"):
        return all(_elementwise(array, x) for x in TT.kids(m))
    return False


def _fresh_frame(c):
    while c.op in ("setitem", "setloc", "mut", "upd"):
        c = c.a[1] if c.op == "mut" else c.a[0]
    return c.op in ("list", "dict", "num", "const") or c.op == "call" and c.a[0] is ext("pandas.DataFrame")


def _flagged(frame, mask, column, value):
    """a column of truth values, set to one value in the rows of a mask: what it then says"""
    if frame.op == "ite":
        sides = ((frame.a[1], frame.a[0]), (frame.a[2], not_(frame.a[0])))
        a, b = (
            _flagged(x, assume(subst(mask, lambda y, x=x: x if y is frame else None), set(c.a[0]) if c.op == "and" else {c}), column, value)
            for x, c in sides
        )
        return None if a is None or b is None else ite(frame.a[0], a, b)
    if frame.op == "setitem" and frame.a[1] is column and _mask(frame.a[2]):
        def put(held):
            if held.op == "ite":
                return ite(held.a[0], put(held.a[1]), put(held.a[2]))
            return and_(held, not_(mask)) if value is FALSE else or_(held, mask)
        return mk("setitem", frame.a[0], column, put(frame.a[2]))
    return None


def _by_columns(frame, m):
    """a condition on each row's values in columns of the table (or their labels) and nothing else of it"""
    if not contains(m, lambda x: x is frame):
        return True
    if m.op == "sub" and m.a[0] is frame:
        return is_str(m.a[1])
    if m.op == "attr" and m.a[0] is frame:
        return m.a[1] == "index"
    if m.op in ("and", "or", "not", "lt0", "le0", "eq", "eq0", "poly") or m.op == "call" and m.a[0] is ext("pandas.isnull"):
        return all(_by_columns(frame, x) for x in TT.kids(m))
    return False


class Interp:
    MAX_DEPTH = 40
    MAX_STEPS = 3_000_000

    def __init__(self, prog, opaque=(), types=None, unroll=10):
        self.prog = prog
        self.opaque = set(opaque)
        self.types = dict(types or {})  # T -> Class
        self.frozen = {}
        self.envs = []
        self.cls_of = {}  # ref T -> Class
        self.funcs = {}  # func T -> Func
        self.func_term = {}
        self.log = []
        self.binds = []
        self.unpacked = []
        self.born = {}
        self.quiet = 0
        self.expected = {}
        self.loops = []
        self.trys = []
        self.callstack = []
        self.base = [frozenset()]  # enclosing literals
        self.base_pc = []
        self.refn = 0
        self.tryn = 0
        self.whilen = 0
        self.modenv = {}
        self.shallow = {}  # results of copy.copy()
        self.origin = {}  # ref -> 'global:..' | 'default:..' | 'classattr:..'
        self.steps = 0
        self.seq = 0
        self.unroll = unroll
        self.st = St({}, {}, TRUE)
        self.frame = Frame(None)
        self.views = {}  # term of an array sharing the memory of another object
        self.analysed = set()
        self.lamn = 0
        self.maybe_unbound = []
        self.classattr_refs = {}
        self.field_types = {}
        self.curline = 0
        self.global_heap = {}
        self._snapmemo = None
        self.ret_types = {}
        self.ret_values = {}

    # ------------------------------------------------------------------ utils
    def lits(self):
        b = self.base[-1]
        if self.st.pc is TRUE:
            return b
        return b | lits_of(self.st.pc)

    def full_pc(self):
        return and_(*self.lits())

    def assume(self, t):
        if t.op in ("ite", "and", "or", "not") or TT._boolish(t):
            ls = self.lits()
            if ls:
                t2 = assume(t, ls)
                if t2.op in ("and", "or"):
                    t2 = self._assume_bool(t2, ls)
                return t2
        return t

    def _assume_bool(self, t, ls):
        if t.op == "and":
            return and_(*[TRUE if x in ls else (FALSE if not_(x) in ls else x) for x in t.a[0]])
        if t.op == "or":
            return or_(*[TRUE if x in ls else (FALSE if not_(x) in ls else x) for x in t.a[0]])
        return t

    def newref(self, content=None, cls=None, origin=None):
        self.refn += 1
        r = mk("ref", "%d" % self.refn)
        if cls is not None:
            self.cls_of[r] = cls
        if content is not None:
            self.st.heap[("c", r)] = content
            self.born[r] = content
        if origin:
            self.origin[r] = origin
        return r

    def class_of(self, t):
        c = self.cls_of.get(t) or self.types.get(t)
        if c is not None:
            return c
        if t.op == "attr":
            return self.field_types.get((self.class_of(t.a[0]) and self.class_of(t.a[0]).qual, t.a[1]))
        return None

    def root(self, t):
        while True:
            if t.op in ("attr", "sub"):
                t = t.a[0]
            elif t in self.views:
                t = self.views[t]
            else:
                return t

    # content of an identity
    def content(self, t):
        h = self.st.heap
        c = h.get(("c", t))
        if c is not None:
            return c
        if t.op == "ref":
            g = self.global_heap.get(t)
            if g is not None:
                return g
        elif t.op in ("attr", "sub"):
            # part of an object that changed
            return self._snap_ident(t)
        return t

    def snap(self, t):
        """the value of t: identities replaced by their current contents.
        Compound values (arithmetic, comparisons, calls) were already formed from
        values and are returned unchanged."""
        op = t.op
        if op in ("num", "const", "ext", "cls", "func", "poly", "call", "k"):
            return t
        if op in ("ref", "sym", "attr", "sub"):
            return self._snap_ident(t)
        if op in ("tuple", "list", "dict", "set", "concat", "map", "mapto", "setitem",
                  "star", "flat", "items", "fmt", "path", "ite", "maybe", "fold",
                  "last", "dmap", "dmapto", "phi", "mut", "upd", "setloc", "foldbrk",
                  "lastbrk", "kwmerge", "delitem", "kwget"):
            if not t._d and op not in ("tuple", "ite"):
                return t
            return self._snap_kids(t)
        return t

    def _snap_ident(self, t):
        h = self.st.heap
        c = h.get(("c", t))
        if c is None and t.op == "ref":
            c = self.global_heap.get(t)
        if c is not None:
            if c._d and c is not t:
                return self._snap_kids(c)
            return c
        if t.op in ("attr", "sub"):
            b = t.a[0]
            if b.op in ("ref", "sym", "attr", "sub"):
                nb = self._snap_ident(b)
                if nb is b:
                    return t
                if t.op == "attr":
                    if nb.op == "ref":
                        return mk("attr", nb, t.a[1])
                    return self._getattr_content(nb, t.a[1])
                r = self._getitem(nb, t.a[1])
                if r is not None:
                    return self.snap(r) if r._d else r
                return mk("sub", nb, t.a[1])
        return t

    def _snap_kids(self, t):
        memo = self._snapmemo
        top = memo is None
        if top:
            memo = self._snapmemo = {}
        try:
            r = memo.get(t)
            if r is not None:
                return r
            memo[t] = t  # cyclic structures stop here
            if t.op in ("ref", "sym", "attr", "sub"):
                r = self._snap_ident(t)
            else:
                r = rebuild(t, self._snap_go)
            memo[t] = r
            return r
        finally:
            if top:
                self._snapmemo = None

    def _snap_go(self, x):
        if x.op in ("num", "const", "ext", "cls", "func", "poly", "k"):
            return x
        if x.op == "call":
            if not x._d:
                return x
            return self._snap_kids(x)
        return self.snap(x)

    # ------------------------------------------------------------------ effects
    def emit(self, kind, node=None, **k):
        if self.quiet or not self.st.live:
            return None
        self.seq += 1
        fn = self.callstack[-1] if self.callstack else None
        e = Eff(
            kind=kind,
            pc=self.full_pc(),
            loops=tuple(self.loops),
            trys=tuple(self.trys),
            file=fn.file if fn else "?",
            line=getattr(node, "lineno", self.curline),
            func=fn.qual if fn else "?",
            stack=tuple(x.qual for x in self.callstack),
            seq=self.seq,
            node=node,
            **k,
        )
        if e.args is None:
            e.args = []
        if e.kw is None:
            e.kw = {}
        self.log.append(e)
        return e

    # ------------------------------------------------------------------ merging
    def merge(self, c, a, b):
        """state: if c then a else b"""
        if not a.live:
            return b
        if not b.live:
            return a
        env = {}
        for k in set(a.env) | set(b.env):
            x = a.env.get(k, UNBOUND)
            y = b.env.get(k, UNBOUND)
            env[k] = x if x is y else ite(c, x, y)
        heap = {}
        for k in set(a.heap) | set(b.heap):
            x = a.heap.get(k)
            y = b.heap.get(k)
            if x is y:
                heap[k] = x
                continue
            if (x is None or y is None) and k[0] == "c" and k[1] in self.born and k[1] not in self.frozen and k[1] not in self.global_heap:
                # made in one of the two: there is no such object in the other
                heap[k] = y if x is None else x
                continue
            if x is None:
                x = self._default(k, a)
            if y is None:
                y = self._default(k, b)
            heap[k] = ite(c, x, y)
        return St(env, heap, or_(a.pc, b.pc), True)

    def _default(self, k, st=None):
        if k[0] == "c":
            if k[1] in self.frozen and st is not None:
                cur, self.st = self.st, st
                try:
                    return self._snap_ident(self.frozen[k[1]])
                finally:
                    self.st = cur
            if k[1].op == "ref":
                g = self.global_heap.get(k[1])
                if g is not None:
                    return g
            return k[1]
        if k[0] == "f":
            return self._field_default(k[1], k[2])
        return UNBOUND

    def _field_default(self, obj, attr):
        if obj.op == "ref":
            c = self.class_of(obj)
            if c is not None:
                fa = self.prog.find_attr(c, attr)
                if fa is not None:
                    return self.class_attr(fa[0], attr, fa[1])
            return UNBOUND
        return mk("attr", obj, attr)

    # ------------------------------------------------------------------ modules
    def module_global(self, mod, name, node=None):
        r = self.prog.member(mod, name)
        if r[0] == "ext" and name not in mod.imports and "." in r[1] and r[1].startswith(mod.name + "."):
            # builtin
            return ext(EXT_ALIAS.get("builtins." + name, name))
        return self.resolved(r)

    def resolved(self, r):
        k = r[0]
        if k == "mod":
            return mk("mod", r[1].name)
        if k == "func":
            return self.fterm(r[1])
        if k == "class":
            return mk("cls", r[1].qual)
        if k == "classattr":
            return self.attr_of(mk("cls", r[1].qual), r[2], None)
        if k == "assign":
            return self.mod_assign(r[1], r[2])
        return ext(EXT_ALIAS.get(r[1], r[1]))

    def fterm(self, f):
        t = self.func_term.get(id(f))
        if t is None:
            t = mk("func", f.qual + "#%d" % f.node.lineno if f.env is not None else f.qual)
            self.func_term[id(f)] = t
            self.funcs[t] = f
        return t

    def mod_assign(self, mod, name):
        key = (mod.name, name)
        if key in self.modenv:
            v = self.modenv[key]
            return v if v is not None else sym(mod.name + "." + name)
        self.modenv[key] = None
        v = self._isolated(mod, mod.assigns[name], "global:%s.%s" % (mod.name, name))
        self.modenv[key] = v
        return v

    def _isolated(self, mod, expr, origin):
        """evaluate an expression in module scope, outside the current state"""
        sv = (self.st, self.frame, self.base, self.loops, self.trys, self.callstack)
        self.quiet += 1
        self.st = St({}, {}, TRUE)
        f = Func.__new__(Func)
        f.mod, f.node, f.qual, f.cls, f.env, f.decos, f.kind, f.is_gen = (
            mod, expr, mod.name, None, None, [], "func", False)
        self.frame = Frame(f)
        self.base = [frozenset()]
        self.loops, self.trys, self.callstack = [], [], [f]
        try:
            v = self.ev(expr)
        finally:
            heap = self.st.heap
            (self.st, self.frame, self.base, self.loops, self.trys, self.callstack) = sv
            self.quiet -= 1
        for k, c in heap.items():
            if k[0] == "c":
                self.global_heap[k[1]] = c
                if k[1].op == "ref":
                    self.origin.setdefault(k[1], origin)
            else:
                self.st.heap.setdefault(k, c)
        if v.op == "ref":
            self.origin[v] = origin
        return v

    def class_attr(self, cls, name, expr):
        key = (cls.qual, name)
        if key not in self.classattr_refs:
            self.classattr_refs[key] = sym(cls.qual + "." + name)
            self.classattr_refs[key] = self._isolated(
                cls.mod, expr, "classattr:%s.%s" % (cls.qual, name)
            )
        return self.classattr_refs[key]

    # ------------------------------------------------------------------ entry
    def call_entry(self, func, args=None, kwargs=None, self_obj=None):
        """Analyse a public entry point with the given argument terms; missing
        parameters become fresh symbols named after the parameter."""
        args = dict(args or {})
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if func.kind in ("func", "property", "setter") and func.cls is not None:
            if self_obj is None:
                self_obj = sym("self")
                self.types[self_obj] = func.cls
            args[names[0]] = self_obj
        elif func.kind == "class":
            args[names[0]] = mk("cls", func.cls.qual)
        for n in names:
            if n not in args:
                args[n] = sym(n)
        if a.vararg and a.vararg.arg not in args:
            args[a.vararg.arg] = sym("*" + a.vararg.arg)
        if a.kwarg and a.kwarg.arg not in args:
            args[a.kwarg.arg] = sym("**" + a.kwarg.arg)
        return self.run_func(func, args)

    def construct(self, cls, args=None):
        """Analyse the constructor with symbolic arguments; returns the instance"""
        r = self.newref(cls=cls)
        f = self.prog.find_method(cls, "__init__")
        if f is not None:
            self.call_entry(f, args=args, self_obj=r)
        # from here on the construction is known to have succeeded
        self.st.pc = TRUE
        self.st.live = True
        return r

    # ------------------------------------------------------------------ calls
    def run_func(self, f, env, lex=None):
        if len(self.callstack) > self.MAX_DEPTH:
            raise Limit("depth")
        self.analysed.add(f.qual)
        saved_env, saved_pc, saved_frame = self.st.env, self.st.pc, self.frame
        if not self.st.live:
            return UNBOUND
        self.envs.append(saved_env)
        base = self.lits()
        self.base.append(base)
        self.frame = Frame(f, parent=f.env)
        saved_loops = self.loops
        self.loops = list(saved_loops)
        self.callstack.append(f)
        st = self.st
        self.st = St(dict(env), st.heap, TRUE)
        gen = None
        if f.is_gen:
            gen = self.newref(mk("list", ()))
            self.st.env["$yield"] = gen
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.ev(f.node.body)
                self.frame.rets.append((self.st.pc, v, self.st.heap))
                self.st.live = False
            else:
                self.block(f.node.body)
            rets = self.frame.rets
            if self.st.live:
                rets = rets + [(self.st.pc, NONE, self.st.heap)]
        finally:
            self.envs.pop()
            self.callstack.pop()
            self.base.pop()
            self.frame = saved_frame
            self.loops = saved_loops
        if not rets:
            # every path raises
            self.st = St(saved_env, self.st.heap, saved_pc, False)
            return UNBOUND
        # fold the exits (in order)
        if len(rets) > 1:
            # what every exit requires does not tell them apart
            common = lits_of(rets[0][0])
            for p, _, _ in rets[1:]:
                common = common & lits_of(p)
            if common:
                rets = [(and_(*(lits_of(p) - common)), v, h) for p, v, h in rets]
        else:
            common = frozenset()
        pc, val, heap = rets[-1]
        allpc = pc
        for p, v, h in reversed(rets[:-1]):
            # p relative to function entry; exits are mutually exclusive
            val = ite(p, v, val) if v is not val else val
            if h is not heap:
                a = St({}, h, TRUE)
                b = St({}, heap, TRUE)
                heap = self.merge(p, a, b).heap
            allpc = or_(allpc, p)
        if gen is not None:
            val = gen
        if allpc.op == "or" and len(allpc.a[0]) > 12:
            allpc = TRUE  # join too wide to be useful as a guard
        allpc = and_(allpc, *common)
        self.st = St(saved_env, heap, and_(saved_pc, allpc), True)
        if self.st.pc is FALSE:
            self.st.pc = saved_pc
        return val

    def bind(self, f, args, kw, self_obj=None, starkw=None, node=None):
        """argument binding for a repo function -> env dict (or None)"""
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        env = {}
        args = list(args)
        if self_obj is not None:
            args = [self_obj] + args
        extra = []
        for i, v in enumerate(args):
            if v.op == "star":
                tail = args[i + 1:]
                room = len(pos) - i - len(tail)
                if tail and room > 0 and not a.vararg and not any(t.op == "star" for t in tail):
                    # the other positionals fill the last parameters
                    for j in range(room):
                        env[pos[i + j]] = mk("sub", v.a[0], num(j))
                    for p, t in zip(pos[i + room:], tail):
                        env[p] = t
                    break
                # unknown number of remaining positionals
                for j in range(i, len(pos)):
                    env.setdefault(pos[j], mk("sub", v.a[0], num(j - i)))
                extra.append(v)
                break
            if i < len(pos):
                env[pos[i]] = v
            else:
                extra.append(v)
        kwx = {}
        for k, v in kw.items():
            if k in pos or k in kwonly:
                env[k] = v
            else:
                kwx[k] = v
        dflt = {}
        ds = a.defaults
        for n, d in zip(pos[len(pos) - len(ds):], ds):
            dflt[n] = d
        for n, d in zip(kwonly, a.kw_defaults):
            if d is not None:
                dflt[n] = d
        for n in pos + kwonly:
            if n not in env:
                if n in dflt:
                    d = self.default_value(f, n, dflt[n])
                    if starkw is not None:
                        d = mk("kwget", starkw, n, d)
                    env[n] = d
                elif starkw is not None:
                    env[n] = mk("sub", starkw, const(n))
                else:
                    env[n] = sym("missing:" + n)
        if a.vararg:
            env[a.vararg.arg] = mk("tuple", tuple(extra))
        if a.kwarg:
            if starkw is not None and not kwx:
                env[a.kwarg.arg] = starkw
            elif starkw is not None:
                env[a.kwarg.arg] = mk("kwmerge", starkw, tuple(sorted(kwx.items())))
            else:
                env[a.kwarg.arg] = mk(
                    "dict", tuple((const(k), v) for k, v in kwx.items())
                )
        return env

    def misfit(self, f, args, kw, self_obj=None, starkw=None):
        """why the arguments of a call cannot be bound to the parameters of a function, or None"""
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        given = ([self_obj] if self_obj is not None else []) + list(args)
        if any(v.op == "star" for v in given):
            return None
        if len(given) > len(pos) and not a.vararg:
            return "%d positional arguments for %d parameters" % (len(given), len(pos))
        posonly = {x.arg for x in a.posonlyargs}
        for k in kw:
            if k in pos[: len(given)]:
                return "argument %s given twice" % k
            if (k not in pos and k not in kwonly or k in posonly) and not a.kwarg:
                return "unknown argument %s" % k
        if starkw is None:
            optional = set(pos[len(pos) - len(a.defaults):] if a.defaults else []) | {n for n, d in zip(kwonly, a.kw_defaults) if d is not None}
            for n in pos[len(given):] + kwonly:
                if n not in kw and n not in optional:
                    return "argument %s missing" % n
        return None

    def fits(self, f, args, kw, self_obj, starkw, node):
        if node is not None and not self.quiet:
            at = self.callstack[-1] if self.callstack else None
            self.binds.append((at, getattr(node, "lineno", 0), getattr(node, "col_offset", 0), f.qual, self.misfit(f, args, kw, self_obj, starkw)))

    def default_value(self, f, n, d):
        if isinstance(d, (ast.Constant, ast.Name, ast.Attribute, ast.UnaryOp)):
            if isinstance(d, ast.Name) and f.env is not None:
                return self.ev(d)
            return self._isolated(f.mod, d, "default:%s.%s" % (f.qual, n))
        key = ("default", f.qual, n)
        if key not in self.modenv:
            self.modenv[key] = self._isolated(f.mod, d, "default:%s.%s" % (f.qual, n))
        return self.modenv[key]

    def is_opaque(self, f):
        q = f.qual
        return q in self.opaque or any(
            q.endswith("." + o) for o in self.opaque if not o.startswith("quakemigrate.")
        )

    def call_func(self, f, args, kw, self_obj=None, starkw=None, node=None):
        if isinstance(f.node, ast.Lambda):
            ps = [x.arg for x in f.node.args.args]
            env = {p: v for p, v in zip(ps, args)}
            for p, v in kw.items():
                env[p] = v
            return self.run_func(f, env)
        if f.kind == "class" and self_obj is None and f.cls is not None:
            self_obj = mk("cls", f.cls.qual)
        if f.kind == "static":
            self_obj = None
        self.fits(f, args, kw, self_obj, starkw, node)
        bound = self.bind(f, args, kw, self_obj, starkw, node)
        rec = sum(1 for x in self.callstack if x is f)
        if self.is_opaque(f) or rec >= 1 or len(self.callstack) >= self.MAX_DEPTH:
            b = {k: self.snap(v) for k, v in bound.items()}
            key = tuple(sorted((k, v) for k, v in b.items()))
            res = mk("call", mk("func", f.qual), (), key)
            first = None
            if self_obj is not None:
                first = self_obj
            rv = self.ret_values.get(f.qual)
            if rv is not None:
                res = rv(self, bound, res)
            rt = self.ret_types.get(f.qual)
            if rt is not None:
                self.types[res] = rt
            e = self.emit("call", node, fn=f.qual, recv=first, args=[], kw=b, bound=b,
                          result=res, extra=dict(bound))
            return res
        if not self.quiet:
            self.emit("enter", node, fn=f.qual, recv=self_obj, kw=dict(bound), bound=bound)
        v = self.run_func(f, bound)
        if not self.quiet:
            self.emit("leave", node, fn=f.qual, recv=self_obj, kw={}, bound={}, result=v)
        return v

    def instantiate(self, c, args, kw, starkw=None, node=None):
        if self.prog.is_exception(c):
            init = self.prog.find_method(c, "__init__")
            if init is not None:
                self.fits(init, args, kw, sym("self"), starkw, node)
            return mk(
                "call", mk("cls", c.qual), tuple(self.snap(a) for a in args),
                tuple(sorted((k, self.snap(v)) for k, v in kw.items())),
            )
        if c.qual in self.opaque or c.name in self.opaque:
            init = self.prog.find_method(c, "__init__")
            if init:
                self.fits(init, args, kw, sym("self"), starkw, node)
            b = self.bind(init, args, kw, sym("self"), starkw, node) if init else {}
            b = {k: self.snap(v) for k, v in b.items() if k != "self"}
            r = self.newref(cls=c)
            self.emit("call", node, fn=c.qual, args=[], kw=b, bound=b, result=r)
            return r
        r = self.newref(cls=c)
        init = self.prog.find_method(c, "__init__")
        if init is not None:
            self.call_func(init, args, kw, r, starkw, node)
        else:
            base = [b for b in self.prog.mro(c) if isinstance(b, str)]
            self.st.heap[("c", r)] = mk(
                "call", ext(base[0] if base else c.qual), tuple(self.snap(a) for a in args),
                tuple(sorted((k, self.snap(v)) for k, v in kw.items())))
        return r

    # ------------------------------------------------------------------ statements
    def block(self, body):
        for s in body:
            if not self.st.live:
                return
            self.stmt(s)

    def stmt(self, s):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Limit("steps")
        self.curline = getattr(s, "lineno", self.curline)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is not None:
            m(s)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        v = self.ev(s.value)
        if not self.quiet and self.st.live:
            self.emit("expr", s, fn="expr", result=v)

    def s_Pass(self, s):
        pass

    def s_Import(self, s):
        m = self.frame.func.mod
        for n, d in m.import_bindings(s).items():
            self.st.env[n] = self.resolved(self.prog.resolve(d))

    s_ImportFrom = s_Import

    def s_Global(self, s):
        pass

    s_Nonlocal = s_Global

    def s_FunctionDef(self, s):
        e = _expression(s)
        if e is not None:
            self.st.env[s.name] = self.e_Lambda(e)
            return
        f = Func(self.frame.func.mod, s, self.frame.func.qual + "." + s.name)
        f.env = self.frame
        self.frame.final_env = self.st
        t = self.fterm(f)
        self.st.env[s.name] = t

    def s_ClassDef(self, s):
        pass

    def s_Assign(self, s):
        t = s.targets[0]
        if isinstance(s.value, (ast.GeneratorExp, ast.ListComp)) and len(s.value.generators) == 1 and not s.value.generators[0].ifs and isinstance(t, (ast.Tuple, ast.List)) and not any(isinstance(x, ast.Starred) for x in t.elts):
            # as many elements as there are names
            self.expected[s.value.generators[0]] = len(t.elts)
        v = self.ev(s.value)
        if not self.st.live:
            return
        for t in s.targets:
            self.assign(t, v, s)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value), s)

    def s_AugAssign(self, s):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id, t)
            val = self.ev(s.value)
            if op == "Add" and self._is_listy(cur):
                self.mutate_call(cur, "extend", [val], {}, s)
                return
            root = self.root(cur)
            new = self.binop(op, cur, val)
            if cur.op == "ref" and cur not in self.cls_of:
                # in-place on a mutable object
                self.emit("mutate", s, fn="aug" + op, recv=cur, root=cur, args=[self.snap(val)])
                self.st.heap[("c", cur)] = self.snap(new)
                return
            self.emit("aug", s, fn="aug" + op, recv=cur, root=root, args=[self.snap(val)])
            self.st.env[t.id] = new
        elif isinstance(t, ast.Attribute):
            obj = self.ev(t.value)
            cur = self.attr_of(obj, t.attr, t)
            val = self.ev(s.value)
            if op == "Add" and self._is_listy(cur):
                self.mutate_call(cur, "extend", [val], {}, s)
                return
            self.store_attr(obj, t.attr, self.binop(op, cur, val), s)
        elif isinstance(t, ast.Subscript):
            obj = self.ev(t.value)
            key = self.ev(t.slice)
            cur = self.subscript(obj, key, t)
            val = self.ev(s.value)
            if op == "Add" and self._is_listy(cur):
                self.mutate_call(cur, "extend", [val], {}, s)
                return
            self.store_sub(obj, key, self.binop(op, cur, val), s)

    def _is_listy(self, t):
        if t.op == "ref" and t not in self.cls_of:
            c = self.content(t)
            if c.op in ("list", "concat", "map", "fold", "phi"):
                return True
            if c.op == "call" and c.a[0] in (ext("obspy.Stream"), ext("obspy.read")):
                return True
            if c.op in ("ext_end",):
                return True
        return False

    def assign(self, t, v, s=None):
        if isinstance(t, ast.Name):
            self.st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, t.elts)
            for e, x in zip(t.elts, vs):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, s)
        elif isinstance(t, ast.Attribute):
            self.store_attr(self.ev(t.value), t.attr, v, s or t)
        elif isinstance(t, ast.Subscript):
            self.store_sub(self.ev(t.value), self.ev(t.slice), v, s or t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, s)

    def _arity(self, f, depth=0):
        """The number of elements of the tuples a function returns, if every return agrees."""
        if f is None or depth > 3:
            return None
        sizes = set()
        todo = list(f.node.body)
        while todo:
            x = todo.pop()
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                continue
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                return None
            if isinstance(x, ast.Return):
                e = x.value
                if isinstance(e, ast.Tuple) and not any(isinstance(y, ast.Starred) for y in e.elts):
                    sizes.add(len(e.elts))
                elif (isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute)
                      and isinstance(e.func.value, ast.Name) and e.func.value.id == "self" and f.cls is not None):
                    g = self.prog.find_method(f.cls, e.func.attr)
                    sizes.add(self._arity(g, depth + 1))
                else:
                    return None
                continue
            todo.extend(ast.iter_child_nodes(x))
        return sizes.pop() if len(sizes) == 1 else None

    def unpack(self, v, elts, conds=()):
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        c = v
        if v.op == "ref":
            c = self.content(v)
        if c.op in ("list", "tuple"):
            xs = list(c.a[0])
            if not self.quiet and self.st.live and self.callstack and not any(x.op in ("star", "flat") for x in xs):
                fit = len(xs) >= n - 1 if star else len(xs) == n
                self.unpacked.append((self.callstack[-1], self.curline, n, len(xs), fit, tuple(conds), self.full_pc(), tuple(self.trys)))
            if not star and len(xs) == n:
                return xs
            if star and len(xs) >= n - 1:
                i = star[0]
                tail = n - 1 - i
                mid = xs[i: len(xs) - tail]
                return xs[:i] + [self.newref(mk("list", tuple(mid)))] + xs[len(xs) - tail:]
        if c.op == "ite" and not (v.op == "ref" and contains(c, lambda x: x is v)):
            a = self.unpack(c.a[1], elts, (*conds, c.a[0]))
            b = self.unpack(c.a[2], elts, (*conds, not_(c.a[0])))
            return [ite(c.a[0], x, y) for x, y in zip(a, b)]
        out = []
        if star and c.op == "call" and c.a[0].op == "func":
            try:
                m = self._arity(self.prog.func(c.a[0].a[0]))
            except AnalysisBroken:
                m = None
            if m is not None and m >= n - 1:
                i = star[0]
                tail = n - 1 - i
                xs = [self.subscript(v, num(k), None) for k in range(m)]
                return xs[:i] + [self.newref(mk("list", tuple(xs[i: m - tail])))] + xs[m - tail:]
        for i in range(n):
            if star and i >= star[0]:
                if i == star[0]:
                    out.append(mk("sub", c, mk("slice", num(i), num(i - n + 1) if i - n + 1 else NONE, NONE)))
                else:
                    out.append(self.subscript(v, num(i - n), None))
            else:
                out.append(self.subscript(v, num(i), None))
        return out

    # -- rebinding: what was read before keeps its value
    HOLD = {"ref", "sym", "attr", "sub", "tuple", "list", "dict", "set", "ite", "star", "flat", "concat"}

    def _detach(self, obj, step, v=None):
        """obj[key] / obj.attr is about to be bound to another value: variables and
        containers that hold the value it had keep it"""
        op, key = step
        if self.quiet:
            return v
        hits = {}

        def same(k):
            if k is key:
                return True
            if op == "attr" or (is_const(k) and is_const(key)):
                return False
            return k.op not in ("slice", "tuple", "list") and key.op not in ("slice", "tuple", "list") and not TT._boolish(k) and not TT._boolish(key)

        base = self._snap_ident(obj) if obj.op in ("ref", "sym", "attr", "sub") else obj

        def find(x):
            y = x
            while y.op in ("attr", "sub"):
                if y.op == op and (y.a[0] is obj or y.a[0] is base) and (y.a[1] == key if op == "attr" else same(y.a[1])):
                    return y
                y = y.a[0]
            return None

        memo = {}

        def go(x):
            r = memo.get(x)
            if r is not None:
                return r
            r = x
            if x.op in ("attr", "sub"):
                l = find(x)
                if l is not None:
                    if x not in hits:
                        old = self.newref(self.snap(x))
                        self.frozen[old] = x
                        hits[x] = old
                    r = hits[x]
            elif x.op in self.HOLD and x.op != "ref" and x.op != "sym":
                r = rebuild(x, go)
            memo[x] = r
            return r

        new = go(v) if isinstance(v, T) and v.op in self.HOLD else v
        for env in [self.st.env] + self.envs:
            for k, v in list(env.items()):
                if isinstance(v, T) and v.op in self.HOLD:
                    w = go(v)
                    if w is not v:
                        env[k] = w
        heap = self.st.heap
        for k, v in list(heap.items()):
            if isinstance(v, T) and v.op in self.HOLD and not (k[0] == "c" and (k[1] is obj or k[1] in self.frozen or k[1].op in ("attr", "sub", "sym"))):
                w = go(v)
                if w is not v:
                    heap[k] = w
        return new

    # -- stores
    def store_attr(self, obj, attr, v, node):
        c = self.class_of(obj)
        if obj.op == "ite" and self.class_of(obj.a[1]) is not None:
            for branch, cond in ((obj.a[1], obj.a[0]), (obj.a[2], not_(obj.a[0]))):
                if self.class_of(branch) is None:
                    continue
                old = self.st.heap.get(("f", branch, attr))
                if old is None:
                    old = self._default(("f", branch, attr))
                self.st.heap[("f", branch, attr)] = ite(cond, v, old)
            return
        if c is not None:
            st = self.prog.find_setter(c, attr)
            if st is not None:
                ps = [x.arg for x in st.node.args.args]
                if self.is_opaque(st):
                    self.emit("setattr", node, fn=attr, recv=obj, root=self.root(obj), args=[self.snap(v)])
                    return
                self.run_func(st, {ps[0]: obj, ps[1]: v})
                return
            self.emit("setattr", node, fn=attr, recv=obj, root=self.root(obj), args=[self.snap(v)], result=v)
            self.st.heap[("f", obj, attr)] = v
            return
        self.emit("mutate", node, fn="setattr." + attr, recv=obj, root=self.root(obj), args=[self.snap(v)], result=v)
        if obj.op == "mod" or obj.op == "cls":
            self.st.heap[("f", obj, attr)] = v
            return
        ident = mk("attr", obj, attr)
        v = self._detach(obj, ("attr", attr), v)
        self._overlay(ident, obj, ("attr", attr), v)

    def store_sub(self, obj, key, v, node):
        key = self.snap(key)
        self.emit("mutate", node, fn="setitem", recv=obj, root=self.root(obj),
                  args=[key, self.snap(v)], result=v)
        sv = self.snap(v)
        # list/dict/known containers: setitem chain on the object's content
        base = obj
        if base.op in ("call", "poly", "and", "or", "not", "where"):
            # a computed value is an object of its own: give it an identity
            env, heap = self.st.env, self.st.heap
            ks = [k for k, x in env.items() if x is base]
            fs = [k for k, x in heap.items() if k[0] == "f" and x is base]
            if (ks or fs) and ("c", base) not in heap:
                r = self.newref(base)
                for k in ks:
                    env[k] = r
                for k in fs:
                    heap[k] = r
                base = r
        v = self._detach(base, ("sub", key), v)
        # pandas indexers: df.loc[...] = v
        if base.op == "attr" and base.a[1] in ("loc", "iloc", "at", "iat"):
            df = base.a[0]
            c = self.content(df)
            whole = self.snap(c)
            r = None
            if base.a[1] == "loc" and key.op == "tuple" and len(key.a[0]) == 2 and is_str(key.a[0][1]) and sv in (TRUE, FALSE):
                r = _flagged(whole, key.a[0][0], key.a[0][1], sv)
            self._set_content(df, mk("setloc", whole, base.a[1], key, sv) if r is None else r)
            return
        if base.op == "ite":
            for branch, cond in ((base.a[1], base.a[0]), (base.a[2], not_(base.a[0]))):
                c = self.content(branch)
                self._set_content(branch, ite(cond, mk("setitem", self.snap(c), key, v), c))
            return
        c = self.content(base)
        nc = self._setitem(c if c is not base else base, key, sv if v.op == "ite" else v)
        self._set_content(base, nc)

    def _setitem(self, c, key, v):
        if key.op == "slice" and self.content(v).op == "list":
            v = mk("tuple", self.content(v).a[0])
        if c.op == "list" and key.op == "num":
            i = int(key.a[0])
            xs = list(c.a[0])
            if -len(xs) <= i < len(xs):
                xs[i] = v
                return mk("list", tuple(xs))
        if c.op == "dict" and all(is_const(k) for k, _ in c.a[0]) and is_const(key):
            ps = [(k, x) for k, x in c.a[0]]
            for i, (k, x) in enumerate(ps):
                if k is key:
                    ps[i] = (k, v)
                    return mk("dict", tuple(ps))
            ps.append((key, v))
            return mk("dict", tuple(ps))
        if c.op == "setitem" and c.a[1] is key:
            return mk("setitem", c.a[0], key, v)
        if c.op == "setitem" and c.a[2] is v and _mask(key) and _mask(c.a[1]) and _elementwise(c, key) and not contains(v, lambda x: x is c):
            # the same value in two selections, one after the other
            return mk("setitem", c.a[0], or_(c.a[1], subst(key, lambda x: c.a[0] if x is c else None)), v)
        if c.op == "call" and c.a[0] is ext("pandas.DataFrame") and not c.a[2] and is_str(key) and (not c.a[1] or len(c.a[1]) == 1 and c.a[1][0].op == "dict"):
            # columns given one after the other, or together
            d = c.a[1][0].a[0] if c.a[1] else ()
            if all(is_str(k) and k is not key for k, _ in d):
                return mk("call", c.a[0], (mk("dict", d + ((key, v),)),), ())
        # x[x > L] = L  and  x[x < L] = L
        if key.op in ("lt0", "le0") and v.op in ("num", "sym", "attr"):
            for a, b, f in ((v, c, "min"), (c, v, "max")):
                if key is lt(a, b) or key is le(a, b):
                    return mk("call", ext(f), tuple(sorted((c, v), key=lambda t: t.id)), ())
        if c.op not in ("list", "dict", "tuple"):
            # storing the value already there changes nothing
            old = self._getitem(c, key)
            old = mk("sub", c, key) if old is None else old
            if not is_const(v) and (v is old or v.op in ("sub", "ref") and self.snap(v) is old):
                return c
        if v.op == "ite" and c.op not in ("list", "dict", "tuple"):
            if v.a[2] is old:
                return ite(v.a[0], mk("setitem", c, key, v.a[1]), c)
            if v.a[1] is old:
                return ite(v.a[0], c, mk("setitem", c, key, v.a[2]))
        return mk("setitem", c, key, v)

    def _upd(self, c, path, v):
        old = c
        for op, k in path:
            new = self._getitem(old, k) if op == "sub" else None
            old = mk(op, old, k) if new is None else new
        if v is old and not is_const(v):
            return c
        if v.op == "ite":
            if v.a[2] is old:
                return ite(v.a[0], mk("upd", c, path, v.a[1]), c)
            if v.a[1] is old:
                return ite(v.a[0], c, mk("upd", c, path, v.a[2]))
        return mk("upd", c, path, v)

    def _overlay(self, ident, obj, step, v):
        h = self.st.heap
        h[("c", ident)] = v
        # visible through the root's content
        path = [step]
        x = obj
        while x.op in ("attr", "sub"):
            path.append((x.op, x.a[1]))
            x = x.a[0]
        if x.op in ("ref", "sym", "call", "phi"):
            c = self.content(x)
            sv = self.snap_v(v)
            h[("c", x)] = self._upd(c, tuple(reversed(path)), sv)

    def snap_v(self, v):
        return self.snap(v)

    def _set_content(self, obj, content):
        """obj's content changes; propagate to the object it is part of"""
        h = self.st.heap
        h[("c", obj)] = content
        # drop overlays of parts of obj
        for k in [k for k in h if k[0] == "c" and k[1] is not obj and k[1].op in ("attr", "sub") and self._rooted(k[1], obj)]:
            del h[k]
        if obj.op in ("attr", "sub"):
            path = []
            x = obj
            while x.op in ("attr", "sub"):
                path.append((x.op, x.a[1]))
                x = x.a[0]
            if x.op in ("ref", "sym", "call", "phi"):
                c = self.content(x)
                h[("c", x)] = self._upd(c, tuple(reversed(path)), content)

    def _rooted(self, t, r):
        while t.op in ("attr", "sub"):
            t = t.a[0]
            if t is r:
                return True
        return False

    # -- control flow
    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else NONE
        if not self.st.live:
            return
        self.emit("return", s, fn="return", result=v,
                  extra=[r.key for r in self.frame.loopctl if r.key is not None])
        self.do_return(v)

    def do_return(self, v):
        pc = self.st.pc
        for rec in reversed(self.frame.loopctl):
            key = rec.key
            if key is None:
                continue  # unrolled
            rec.escapes.append(pc)
            # leave loop: condition becomes "some iteration satisfies pc"
            pc = and_(rec.outer_pc, mk("someiter", key, pc))
        self.frame.rets.append((pc, v, self.st.heap))
        self.st.live = False

    def s_Raise(self, s):
        if s.exc is None:
            self.emit("raise", s, fn="reraise", result=None)
        else:
            v = self.ev(s.exc)
            if not self.st.live:
                return
            name = self.exc_name(v)
            e = self.emit("raise", s, fn=name, result=v,
                          args=list(v.a[1]) if v.op == "call" else [])
            if e is not None:
                e.caught = self.find_handler(name)
        for rec in reversed(self.frame.loopctl):
            if rec.key is None:
                continue
            rec.escapes.append(self.st.pc)
            break
        self.st.live = False

    def exc_name(self, v):
        if v.op == "call":
            v = v.a[0]
        if v.op == "cls":
            return v.a[0]
        if v.op == "ext":
            return v.a[0]
        return "?"

    def exc_matches(self, name, handler):
        """does 'except handler' catch exception class `name`"""
        if handler in ("Exception", "BaseException"):
            return True
        if name == handler:
            return True
        r = self.prog.resolve(name)
        if r[0] == "class":
            for b in self.prog.mro(r[1]):
                q = b.qual if isinstance(b, Class) else b
                if q == handler:
                    return True
                p = q
                while p in EXC_PARENT:
                    p = EXC_PARENT[p]
                    if p == handler:
                        return True
            return False
        p = name
        while p in EXC_PARENT:
            p = EXC_PARENT[p]
            if p == handler:
                return True
        return False

    def find_handler(self, name):
        for t in reversed(self.trys):
            if t[1] != "body":
                continue
            for i, hs in enumerate(t[2]):
                if any(self.exc_matches(name, h) for h in hs):
                    return (t[0], i)
        return None

    def s_Continue(self, s):
        rec = self.frame.loopctl[-1] if self.frame.loopctl else None
        if rec is not None:
            rec.conts.append(self.st.copy())
        self.st.live = False

    def s_Break(self, s):
        rec = self.frame.loopctl[-1] if self.frame.loopctl else None
        self.emit("break", s, fn="break", extra=[rec.key] if rec is not None else [])
        if rec is not None:
            rec.brks.append(self.st.copy())
        self.st.live = False

    def s_Assert(self, s):
        c = self.cond(s.test)
        self.emit("assert", s, fn="assert", result=c)
        tr = self.frame.asserts[-1] if self.frame.asserts else None
        if tr is not None and tr[0] == len(self.frame.loopctl) and c is not TRUE:
            # the failing case enters the handler under exactly this condition
            bad = self.st.copy()
            bad.pc = and_(bad.pc, not_(c))
            if bad.pc is not FALSE:
                tr[1].append(bad)
        self.st.pc = and_(self.st.pc, c)
        if self.st.pc is FALSE:
            self.st.live = False

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value)
                k = self.snap(self.ev(t.slice))
                self.emit("mutate", s, fn="delitem", recv=o, root=self.root(o), args=[k])
                self._set_content(o, mk("delitem", self.snap(self.content(o)), k))
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value)
                self.emit("mutate", s, fn="delattr." + t.attr, recv=o, root=self.root(o))

    def cond(self, node):
        c = truth(self.ev(node))
        if c.op == "ref":
            cc = self.content(c)
            if cc.op in ("list", "dict", "tuple"):
                c = truth(cc)
            else:
                c = self.snap(c)
        elif c.op not in ("const", "num"):
            c = truth(self.snap(c))
        c = self.assume(c)
        return truth(c)

    def s_If(self, s):
        c = self.cond(s.test)
        if not self.st.live:
            return
        if c is TRUE:
            self.block(s.body)
            return
        if c is FALSE:
            self.block(s.orelse)
            return
        self.branch(c, lambda: self.block(s.body), lambda: self.block(s.orelse))

    def branch(self, c, fa, fb):
        st0 = self.st
        a = st0.copy()
        b = st0.copy()
        a.pc = and_(st0.pc, c)
        b.pc = and_(st0.pc, not_(c))
        if a.pc is FALSE:
            a.live = False
        if b.pc is FALSE:
            b.live = False
        pa, pb = a.pc, b.pc
        both = a.live and b.live
        self.st = a
        if a.live:
            fa()
        a = self.st
        self.st = b
        if b.live:
            fb()
        b = self.st
        both = both and a.live and b.live and a.pc is pa and b.pc is pb
        self.st = self.merge(c, a, b)
        if both:
            self.st.pc = st0.pc

    def s_With(self, s):
        for it in s.items:
            v = self.ev(it.context_expr)
            self.emit("with", s, fn="with", recv=v, result=v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, s)
        self.block(s.body)

    def handler_names(self, h):
        if h.type is None:
            return ("BaseException",)
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for t in ts:
            self.quiet += 1
            try:
                v = self.ev(t)
            finally:
                self.quiet -= 1
            if v.op == "ref":
                v = self.content(v)
            if v.op in ("tuple", "list"):
                out += [self.exc_name(x) for x in v.a[0]]
            else:
                out.append(self.exc_name(v))
        return tuple(out)

    def _entry_or(self, s):
        """try: x = kw["k"] / except KeyError: x = d, for keyword arguments kw: an entry, or the other value"""
        if len(s.body) == len(s.handlers) == 1 and not s.orelse and not s.finalbody:
            b, h = s.body[0], s.handlers[0]
            if isinstance(b, ast.Assign) and isinstance(b.value, ast.Subscript) and isinstance(b.value.value, ast.Name) and isinstance(b.value.slice, ast.Constant) \
                    and isinstance(h.type, ast.Name) and h.type.id == "KeyError" and len(h.body) == 1 and isinstance(h.body[0], ast.Assign):
                v = self.st.env.get(b.value.value.id)
                if v is not None and (v.op in ("kwmerge", "row") or v.op == "sym" and str(v.a[0]).startswith("**")):
                    t = ast.Compare(left=b.value.slice, ops=[ast.In()], comparators=[b.value.value])
                    r = ast.If(test=t, body=s.body, orelse=h.body)
                    ast.copy_location(t, b), ast.copy_location(r, s)
                    return r
        return None

    def s_Try(self, s):
        get = self._entry_or(s)
        if get is not None:
            return self.stmt(get)
        self.tryn += 1
        tid = "try%s:%d" % (self.callstack[-1].qual if self.callstack else "", s.lineno)
        hs = tuple(self.handler_names(h) for h in s.handlers)
        entry = self.st.copy()
        self.trys.append((tid, "body", hs, bool(s.finalbody)))
        pre_last = entry
        nret0 = len(self.frame.rets)
        only = [i for i, h in enumerate(hs) if h == ("AssertionError",)]
        failed = []
        self.frame.asserts.append((len(self.frame.loopctl), failed) if only else None)
        for i, x in enumerate(s.body):
            if not self.st.live:
                break
            if i == len(s.body) - 1:
                pre_last = self.st.copy()
            self.stmt(x)
        self.frame.asserts.pop()
        self.trys.pop()
        body = self.st
        excs = [mk("exc", tid, i, hs[i]) for i in range(len(hs))]
        if only and failed:
            known = lits_of(entry.pc)
            excs[only[0]] = or_(*[and_(*(lits_of(x.pc) - known)) for x in failed])
        if body.live and excs:
            body = body.copy()
            body.pc = and_(body.pc, *[not_(e) for e in excs])
        self.st = body
        if s.orelse and body.live:
            self.trys.append((tid, "else", (), bool(s.finalbody)))
            self.block(s.orelse)
            self.trys.pop()
            body = self.st
        results = []
        for i, h in enumerate(s.handlers):
            hst = entry.copy()
            # anything changed before the last statement of the body may or may
            # not have happened
            for k, v in pre_last.env.items():
                if entry.env.get(k) is not v:
                    o = entry.env.get(k, UNBOUND)
                    hst.env[k] = mk("maybe", tid, o, v)
            for k, v in pre_last.heap.items():
                if entry.heap.get(k) is not v:
                    if k[0] == "c" and k not in entry.heap and k[1].op == "ref":
                        hst.heap[k] = v
                        continue
                    o = entry.heap.get(k)
                    if o is None:
                        o = self._default(k)
                    hst.heap[k] = mk("maybe", tid, o, v)
            exact = only and failed and i == only[0]
            if exact:
                hst = failed[0]
                for x in failed[1:]:
                    hst = self._join(x, hst)
                hst = hst.copy()
            hst.pc = and_(entry.pc, excs[i], *[not_(e) for e in excs[:i]])
            if hst.pc is FALSE:
                hst.live = False
            self.st = hst
            self.trys.append((tid, "assert" if exact else "handler", (hs[i],), bool(s.finalbody)))
            if h.name:
                self.st.env[h.name] = mk("excval", tid, i)
            if self.st.live:
                self.emit("catch", h, fn="catch", args=[], kw={}, extra=(tid, i, hs[i], len(s.body)))
                self.block(h.body)
            self.trys.pop()
            results.append((excs[i], self.st))
        cur = body
        for e, r in reversed(results):
            cur = self.merge(e, r, cur)
        self.st = cur
        if s.finalbody:
            if not self.st.live:
                # exits inside: the finally block still runs
                fin = entry.copy()
                self.st = fin
                self.trys.append((tid, "finally", (), False))
                self.block(s.finalbody)
                self.trys.pop()
                self.st.live = False
            else:
                self.trys.append((tid, "finally", (), False))
                self.block(s.finalbody)
                self.trys.pop()

    # -- loops
    def iter_info(self, itv):
        """iterable term -> (count term, elem(k) -> T, unrolled list or None,
        filter(k) -> cond)"""
        t = itv
        c = self.content(t) if t.op in ("ref", "sym", "attr", "sub") else t
        if t.op == "ite":
            pass
        if c.op in ("list", "tuple"):
            xs = list(c.a[0])
            if not any(x.op in ("star", "flat") for x in xs):
                n = num(len(xs))
                return n, (lambda k: mk("sub", self.snap(c), k)), xs, None
        if c.op == "set":
            return mk("call", ext("len"), (c,), ()), (lambda k: mk("sub", c, k)), None, None
        if c.op == "const" and isinstance(c.a[0].v, str):
            return num(len(c.a[0].v)), None, [const(x) for x in c.a[0].v], None
        if c.op == "dict":
            xs = [k for k, _ in c.a[0]]
            return num(len(xs)), (lambda k: mk("sub", c, k)), xs, None
        if c.op == "map" and len(c.a[2]) == 1 and c.a[2][0].op != "flat":
            key, cnd, items = c.a
            cnt = key.a[0]
            x = items[0]

            def el(k, x=x, key=key):
                return replace_k(x, key, k)

            def fl(k, cnd=cnd, key=key):
                return replace_k(cnd, key, k)

            return cnt, el, None, (None if cnd is TRUE else fl)
        if c.op == "sub" and c.a[1].op == "slice":
            # the elements of a part, all but a few at the ends
            lo, hi, st = c.a[1].a
            if (lo is NONE or lo.op == "num" and lo.a[0] >= 0) and (hi is NONE or hi.op == "num" and hi.a[0] < 0) and st in (NONE, ONE):
                lo, hi = ZERO if lo is NONE else lo, ZERO if hi is NONE else hi
                x = c.a[0]
                return add(mk("call", ext("len"), (x,), ()), hi, neg(lo)), (lambda k: mk("sub", x, add(k, lo))), None, None
        if c.op == "call" and c.a[0].op == "ext":
            fn = c.a[0].a[0]
            a = c.a[1]
            if fn == "range" and not c.a[2]:
                if len(a) == 1:
                    lo, hi, st = ZERO, a[0], ONE
                elif len(a) == 2:
                    lo, hi, st = a[0], a[1], ONE
                else:
                    lo, hi, st = a
                if all(x.op == "num" for x in (lo, hi, st)):
                    xs = list(range(int(lo.a[0]), int(hi.a[0]), int(st.a[0])))
                    if len(xs) <= self.unroll:
                        return num(len(xs)), None, [num(x) for x in xs], None
                if st.op == "num" and st.a[0] == 1:
                    cnt = sub_(hi, lo)
                elif st.op == "num" and st.a[0] == -1:
                    cnt = sub_(lo, hi)
                else:
                    cnt = mk("call", ext("rangecount"), (lo, hi, st), ())
                return cnt, (lambda k: add(lo, mul(st, k))), None, None
            if fn == "enumerate":
                start = ZERO
                if len(a) > 1:
                    start = a[1]
                for kk, vv in c.a[2]:
                    if kk == "start":
                        start = vv
                cnt, el, xs, fl = self.iter_info(a[0])
                if xs is not None:
                    return cnt, None, [
                        mk("tuple", (add(start, num(i)), x)) for i, x in enumerate(xs)
                    ], None
                if fl is not None:
                    return mk("call", ext("len"), (self.snap(t),), ()), (
                        lambda k: mk("tuple", (add(start, k), mk("sub", self.snap(a[0]), k)))
                    ), None, None
                return cnt, (lambda k: mk("tuple", (add(start, k), el(k)))), None, None
            if fn == "zip":
                infos = [self.iter_info(x) for x in a]
                if infos and all(i[2] is not None for i in infos):
                    m = min(len(i[2]) for i in infos)
                    return num(m), None, [
                        mk("tuple", tuple(i[2][j] for i in infos)) for j in range(m)
                    ], None
                if any(i[3] is not None for i in infos) or not infos:
                    return mk("call", ext("len"), (c,), ()), (lambda k: mk("sub", c, k)), None, None
                if any(i[2] is not None for i in infos):
                    # lengths agree by assumption of zip use
                    m = min(len(i[2]) for i in infos if i[2] is not None)
                    return num(m), None, [
                        mk("tuple", tuple(i[2][j] if i[2] is not None else i[1](num(j)) for i in infos)) for j in range(m)
                    ], None
                cnts = []
                for i in infos:
                    if i[0] not in cnts:
                        cnts.append(i[0])
                cnt = cnts[0]  # lengths agree by assumption of zip use
                for d in cnts[1:]:
                    e = sub_(d, cnt)
                    if e.op == "num" and e.a[0] < 0:
                        cnt = d
                els = []
                for x, i in zip(a, infos):
                    if i[2] is not None:
                        lst = self.snap(self.content(x) if x.op == "ref" else x)
                        els.append(lambda k, lst=lst: mk("sub", lst, k))
                    else:
                        els.append(i[1])
                return cnt, (lambda k: mk("tuple", tuple(e(k) for e in els))), None, None
            if fn == "reversed" and len(a) == 1:
                cnt, el, xs, fl = self.iter_info(a[0])
                if xs is not None:
                    return cnt, None, list(reversed(xs)), None
            if fn in ("list", "tuple", "iter") and len(a) == 1:
                return self.iter_info(a[0])
            if fn == "dict.items":
                d = a[0]
                cd = d
                if cd.op == "dict":
                    return num(len(cd.a[0])), None, [mk("tuple", (k, v)) for k, v in cd.a[0]], None
                sd = self.snap(d)
                return mk("call", ext("len"), (sd,), ()), (
                    lambda k: mk("tuple", (mk("dkey", sd, k), mk("sub", sd, mk("dkey", sd, k))))
                ), None, None
            if fn == "dict.keys":
                d = a[0]
                if d.op == "dict":
                    return num(len(d.a[0])), None, [k for k, _ in d.a[0]], None
                sd = self.snap(d)
                return mk("call", ext("len"), (sd,), ()), (lambda k: mk("dkey", sd, k)), None, None
            if fn == "dict.values":
                d = a[0]
                if d.op == "dict":
                    return num(len(d.a[0])), None, [v for _, v in d.a[0]], None
                sd = self.snap(d)
                return mk("call", ext("len"), (sd,), ()), (
                    lambda k: mk("sub", sd, mk("dkey", sd, k))
                ), None, None
            if fn == "pandas.iterrows":
                sd = a[0]
                return mk("call", ext("len"), (sd,), ()), (
                    lambda k: mk("tuple", (mk("rowidx", sd, k), mk("row", sd, k)))
                ), None, None
        # opaque iterable: elements are aliases t[k]
        cnt = mk("call", ext("len"), (self.snap(t),), ())
        if t.op in ("ref", "sym", "attr", "sub"):
            return cnt, (lambda k: mk("sub", t, k)), None, None
        sc = self.snap(t)
        return cnt, (lambda k: mk("sub", sc, k)), None, None

    def loopkey(self, cnt):
        n = sum(1 for l in self.loops if l.a[0] is cnt)
        return mk("loop", cnt, n)

    def s_For(self, s):
        itv = self.ev(s.iter)
        if not self.st.live:
            return
        self.over(s, itv)

    def over(self, s, itv):
        c = self.content(itv)
        if c.op == "ite" and all(self.content(x).op in ("list", "tuple", "map") for x in c.a[1:]):
            # one of two lists: the loop over the one or the loop over the other
            self.branch(c.a[0], lambda: self.over(s, c.a[1]), lambda: self.over(s, c.a[2]))
            return
        has_brk = any(isinstance(n, ast.Break) for n in _own_loop_nodes(s))
        if c.op in ("ite", "concat") and not has_brk and not s.orelse:
            # a list of elements that are there under conditions
            some = self._guarded(c)
            if some is not None and 0 < len(some) <= self.unroll:
                for g, x in some:
                    self.branch(g, lambda: self.unrolled(s, [x], False), lambda: None)
                return
        cnt, el, xs, fl = self.iter_info(itv)
        if xs is not None and len(xs) <= self.unroll:
            self.unrolled(s, xs, has_brk)
            if s.orelse and self.st.live:
                self.block(s.orelse)
            return
        if el is None:
            lst = self.snap(mk("tuple", tuple(xs)))
            el = lambda k: mk("sub", lst, k)  # noqa
        key = self.loopkey(cnt)
        self.loop(s, key, el, fl, s.target, s.body)
        if s.orelse and self.st.live:
            self.block(s.orelse)

    def _guarded(self, c):
        """The elements of a list put together under conditions, each with its condition."""
        c = self.content(c) if c.op == "ref" else c
        if c.op in ("list", "tuple"):
            return None if any(x.op in ("star", "flat") for x in c.a[0]) else [(TRUE, x) for x in c.a[0]]
        if c.op == "concat":
            parts = [self._guarded(x) for x in c.a[0]]
            return None if any(p is None for p in parts) else [y for p in parts for y in p]
        if c.op == "ite":
            a, b = self._guarded(c.a[1]), self._guarded(c.a[2])
            if a is None or b is None:
                return None
            n = 0
            while n < min(len(a), len(b)) and a[n] == b[n]:
                n += 1
            return a[:n] + [(and_(c.a[0], g), x) for g, x in a[n:]] + [(and_(not_(c.a[0]), g), x) for g, x in b[n:]]
        return None

    def unrolled(self, s, xs, has_brk):
        after = []  # states that broke out
        for x in xs:
            if not self.st.live:
                break
            rec = LoopCtl()
            rec.key = None
            rec.outer_pc = TRUE
            rec.unrolled = True
            self.frame.loopctl.append(_Unrolled(rec))
            self.assign(s.target, x, s)
            self.block(s.body)
            self.frame.loopctl.pop()
            for c in rec.conts:
                self.st = self._join(c, self.st)
            after.extend(rec.brks)
        for b in after:
            self.st = self._join(b, self.st)

    def _join(self, a, b):
        """join of two states by a's path condition"""
        if not b.live:
            return a
        if not a.live:
            return b
        la, lb = lits_of(a.pc), lits_of(b.pc)
        c = and_(*(la - lb)) if la - lb else a.pc
        return self.merge(c, a, b)

    def loop(self, s, key, el, fl, target, body, test=None):
        """summarise a loop over counter k(key)"""
        k = mk("k", key)
        entry = self.st
        names = sorted(_assigned(body))
        pre = {n: entry.env.get(n) for n in names}
        phis = {}  # slot -> phi term
        closed = {}  # slot -> (value at k, value after)
        for n in names:
            if n in entry.env:
                phis[("e", n)] = mk("phi", key, "e:" + n, entry.env[n])
        nexts = {}
        rec = None
        elem = el(k) if el is not None else None
        self.quiet += 1
        try:
            for it in range(5):
                nxt, rec, exit_c = self._iterate(entry, key, elem, fl and fl(k), target, body, phis, {}, test)
                new = False
                for slot, v in nxt.items():
                    if slot not in phis:
                        if slot[0] == "e":
                            continue
                        o = entry.heap.get(slot[1])
                        if o is None:
                            o = self._default(slot[1])
                        if v is o:
                            continue
                        phis[slot] = mk("phi", key, "h:" + _slotname(slot[1]), o)
                        new = True
                nexts = nxt
                if not new:
                    break
            # closed forms
            for slot, p in phis.items():
                v = nexts.get(slot)
                init = p.a[2]
                if v is None:
                    continue
                cf = self.closed_form(key, k, p, v, init, bool(rec.brks))
                if cf is not None:
                    closed[slot] = cf
            # values whose closed form still mentions another phi are refined once
            for _ in range(2):
                sub = {phis[sl]: cf[0] for sl, cf in closed.items()}
                changed = False
                for slot, p in phis.items():
                    if slot in closed:
                        continue
                    v = nexts.get(slot)
                    if v is None:
                        continue
                    v2 = subst(v, lambda x: sub.get(x))
                    cf = self.closed_form(key, k, p, v2, p.a[2], bool(rec.brks))
                    if cf is not None:
                        closed[slot] = cf
                        changed = True
                if not changed:
                    break
            # closed forms found before those of the variables they mention
            sub = {phis[sl]: cf[0] for sl, cf in closed.items() if not contains(cf[0], lambda x: x.op == "phi" and x.a[0] is key)}
            for sl, cf in list(closed.items()):
                if phis[sl] not in sub or contains(cf[1], lambda x: x in sub):
                    closed[sl] = tuple(subst(x, lambda y: sub.get(y)) if hasattr(x, "op") else x for x in cf)
        finally:
            self.quiet -= 1
        # while loops: recognise counting loops
        if test is not None and exit_c is not None:
            canon = self.while_count(exit_c, key, k, phis, closed)
            if canon is None:
                canon = self.while_name(exit_c, key, k, phis, closed, nexts, rec)
            if canon is not None and canon is not key:
                self.st = entry
                return self.loop(s, canon, el, fl, target, body, test)
        # a loop-carried variable is identified by its initial value and its recurrence
        snaps = rec.snaps if rec is not None else {}
        self.st = entry
        self.quiet += 1
        inits = {p: self.snap(p.a[2]) for p in phis.values()}
        self.quiet -= 1
        named = self.recurrences(key, k, phis, closed, {**nexts, **snaps}, inits)
        if named:
            nm_memo = {}
            for sl in list(closed):
                closed[sl] = tuple(subst(x, lambda y: named.get(y), nm_memo) for x in closed[sl])
        # final pass with effects
        sub_vals = {}
        for slot, p in phis.items():
            if slot in closed:
                sub_vals[slot] = closed[slot][0]
            else:
                sub_vals[slot] = named.get(p, p)
        nxt, rec, _ = self._iterate(entry, key, elem, fl and fl(k), target, body, sub_vals, {}, test)
        # state after the loop
        st = entry.copy()
        subs = {phis[sl]: sub_vals[sl] for sl in phis}
        for slot, p in phis.items():
            if slot in closed:
                v = closed[slot][1]
            else:
                nv = nxt.get(slot)
                v = mk("fold", key, p.a[1], p.a[2], nv if nv is not None else p)
                rows = None if rec.brks or nv is None else self._rowwise(key, k, sub_vals[slot], nv, inits[p])
                if rows is not None:
                    v = rows
                if rec.brks:
                    bv = []
                    for b in rec.brks:
                        bv.append(b.env.get(slot[1]) if slot[0] == "e" else b.heap.get(slot[1]))
                    v = mk("foldbrk", v, tuple(x for x in bv if x is not None),
                           tuple(b.pc for b in rec.brks))
            if slot[0] == "e":
                st.env[slot[1]] = v
            else:
                st.heap[slot[1]] = v
        kept = sorted(n.id for n in ast.walk(target) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in names) if target is not None else []
        for n in names + kept:
            if ("e", n) not in phis:
                v = nxt.get(("e", n))
                if v is not None:
                    if rec.brks:
                        bv = [b.env.get(n, UNBOUND) for b in rec.brks]
                        stop = mk("lastbrk", key, k, (k,) * len(bv), tuple(b.pc for b in rec.brks))
                        if v is not k and v.op == "sub" and v.a[1] is k and not contains(v.a[0], lambda x: x is k or x.op == "phi" and x.a[0] is key) and all(x is v for x in bv):
                            st.env[n] = mk("sub", v.a[0], stop)
                        else:
                            st.env[n] = mk("lastbrk", key, v, tuple(bv), tuple(b.pc for b in rec.brks))
                    else:
                        st.env[n] = mk("last", key, v)
        # objects allocated in the body remain reachable
        for slot, v in nxt.items():
            if slot[0] == "h" and slot not in phis and slot[1] not in st.heap:
                st.heap[slot[1]] = v
        esc = [p for p in rec.escapes if p is not FALSE]
        if esc and not (len(esc) > 6):
            st.pc = and_(st.pc, not_(mk("someiter", key, or_(*esc))))
        st.live = True
        if st.pc is FALSE:
            st.pc = entry.pc
        self.st = st

    def recurrences(self, key, k, phis, closed, nexts, inits):
        """phi -> phi with its update (and those of the variables it depends on) attached"""
        slot_of = {p: sl for sl, p in phis.items()}
        sub = {phis[sl]: cf[0] for sl, cf in closed.items()}
        out = {}
        for sl, p in phis.items():
            if sl in closed:
                continue
            number, todo = {}, []

            def f(x):
                y = sub.get(x)
                if y is not None and y is not x:
                    return subst(y, f, memo)
                if x in slot_of:
                    if x not in number:
                        number[x] = len(number)
                        todo.append(x)
                    return mk("wphi", number[x])
                return None

            memo = {}
            f(p)
            parts = []
            i = 0
            while i < len(todo):
                q = todo[i]
                i += 1
                n = nexts.get(slot_of[q])
                parts.append(mk("tuple", (inits[q], subst(n, f, memo) if n is not None else mk("wphi", number[q]))))
            out[p] = mk("phi", key, p.a[1], p.a[2], mk("rec", tuple(parts)))
        return out

    def _iterate(self, entry, key, elem, fcond, target, body, vals, _x, test):
        st = St(dict(entry.env), dict(entry.heap), TRUE)
        for slot, v in vals.items():
            if slot[0] == "e":
                st.env[slot[1]] = v
            else:
                st.heap[slot[1]] = v
        self.st = entry
        ref0 = self.refn
        self.base.append(self.lits())
        self.loops.append(key)
        rec = LoopCtl()
        rec.key = key
        rec.outer_pc = entry.pc
        self.frame.loopctl.append(rec)
        nrets = len(self.frame.rets)
        self.st = st
        exit_c = None
        try:
            if test is not None:
                exit_c = self.cond(test)
                if exit_c is FALSE:
                    pass
                elif exit_c is not TRUE:
                    self.st.pc = and_(self.st.pc, exit_c)
            if fcond is not None:
                self.st.pc = and_(self.st.pc, fcond)
                if self.st.pc is FALSE:
                    self.st.live = False
            if target is not None:
                self.assign(target, elem)
            self.block(body)
            end = self.st
            for c in reversed(rec.conts):
                end = self._join(c, end)
            if fcond is not None and end.live:
                skip = St(dict(st.env), dict(st.heap), not_(fcond))
                e0 = St(dict(entry.env), dict(entry.heap), not_(fcond))
                for slot, v in vals.items():
                    (e0.env if slot[0] == "e" else e0.heap)[slot[1]] = v
                end = self.merge(fcond, end, e0)
        finally:
            self.frame.loopctl.pop()
            self.base.pop()
            self.loops.pop()
        if self.quiet:
            del self.frame.rets[nrets:]
        nxt = {}
        if end.live:
            for n, v in end.env.items():
                if entry.env.get(n) is not v or ("e", n) in vals:
                    nxt[("e", n)] = v
            for hk, v in end.heap.items():
                if entry.heap.get(hk) is not v or ("h", hk) in vals:
                    if hk[1].op == "ref" and int(hk[1].a[0]) > ref0 and hk[1] not in self.origin:
                        # object of this iteration: not a loop-carried slot
                        self._fresh_keep(entry, hk, v)
                        continue
                    if hk[0] == "c" and hk[1].op != "ref" and hk not in entry.heap:
                        # overlay on a symbolic identity created here
                        if contains(hk[1], lambda x: x is mk("k", key)):
                            continue
                    nxt[("h", hk)] = v
            if self.quiet:
                self.st = end
                rec.snaps = {sl: self.snap(v) for sl, v in nxt.items() if sl in vals and v._d}
        return nxt, rec, exit_c

    def _fresh_keep(self, entry, hk, v):
        # contents of objects allocated inside the loop are global facts of this
        # analysis (they may escape through collections)
        self.global_fresh = getattr(self, "global_fresh", {})
        self.global_fresh[hk] = v
        if hk[0] == "c":
            self.global_heap[hk[1]] = v

    def closed_form(self, key, k, p, v, init, brk):
        cnt = key.a[0]
        if v is p:
            return (init, init)
        d = sub_(v, p) if v.op in ("poly", "num") or p.op == "phi" and v.op not in ("list", "concat", "map", "setitem") else None
        if d is not None and v.op == "poly":
            if not contains(d, lambda x: (x.op == "phi" and x.a[0] is key)):
                if not contains(d, lambda x: x is k):
                    if brk:
                        return None
                    return (add(init, mul(d, k)), add(init, mul(d, cnt)))
                if not brk:
                    return (
                        add(init, mk("psum", key, d)),
                        add(init, mk("sum", key, TRUE, d)),
                    )
        if not brk and v.op not in ("list", "concat", "map", "setitem", "ref") and not contains(v, lambda x: x.op == "phi" and x.a[0] is key):
            # recomputed from the counter: the value before iteration k is v at k - 1
            km = add(k, num(-1))
            prev = subst(v, lambda x: km if x is k else None)
            if subst(prev, lambda x: ZERO if x is k else None) is init:
                return (prev, subst(prev, lambda x: cnt if x is k else None))
        items = self._appended(v, p)
        if items is not None and not brk:
            cnd, its = items
            if not any(contains(x, lambda y: y is p) for x in its) and not contains(cnd, lambda y: y is p):
                m = mk("map", key, cnd, tuple(its))
                return (
                    concat(init, mk("mapto", key, cnd, tuple(its))),
                    concat(init, m),
                )
        if self.native and not brk:
            am = self._arraymap(key, k, p, v, init)
            if am is not None:
                return am
        ds = self._dictset(v, p)
        if ds is not None and not brk:
            cnd, kk, vv = ds
            if not contains(kk, lambda y: y is p) and not contains(vv, lambda y: y is p) and not contains(cnd, lambda y: y is p):
                return (
                    mk("dmapto", init, key, cnd, kk, vv),
                    mk("dmap", init, key, cnd, kk, vv),
                )
        return None

    def _rowwise(self, key, k, p, v, init):
        """the same store in every row of an array, at once"""
        path = (("sub", k),)
        if v.op != "upd" or v.a[1] != path or key.a[0] is not mk("call", ext("len"), (init,), ()):
            return None
        b, x, todo = v.a[0], v.a[2], []
        while b.op == "upd" and b.a[1] == path:
            b = b.a[0]
        while x.op == "setitem":
            if x.a[1].op not in ("slice", "num") or any(contains(y, lambda z: z is k or z is p) for y in x.a[1:]):
                return None
            todo.append(x.a[1:])
            x = x.a[0]
        if b is not p or x is not mk("sub", p, k) or not todo:
            return None
        r = init
        for i, y in reversed(todo):
            r = mk("setitem", r, mk("tuple", (mk("slice", NONE, NONE, NONE), i)), y)
        return r

    def _elem(self, a, i):
        r = self._getitem(a, i)
        return mk("sub", a, i) if r is None else r

    def _arraymap(self, key, k, p, v, init):
        """element-wise updates of an array: every element of a block gets a value that
        depends on its own old value only"""
        cnt = key.a[0]

        def clean(t, *bad):
            return not contains(t, lambda x: x in bad or (x.op == "phi" and x.a[0] is key))

        idx = None
        todo = [v]
        while todo:
            x = todo.pop()
            if x.op == "ite":
                todo += [x.a[1], x.a[2]]
            elif x.op == "setitem" and x.a[0] is p and (idx is None or idx is x.a[1]):
                idx = x.a[1]
            elif x is not p:
                idx = None
                break
        if idx is not None:
            b = sub_(idx, k)
            if not clean(b, k):
                return None
            old = mk("sub", p, idx)

            def val(x):
                if x is p:
                    return old
                if x.op == "ite":
                    return ite(x.a[0], val(x.a[1]), val(x.a[2]))
                return x.a[2]

            first = self._elem(init, idx)
            w = subst(val(v), lambda x: first if x is old else None)
            if not clean(w):
                return None
            bv = mk("k", mk("loop", cnt, "element"))
            w = subst(w, lambda x: bv if x is k else None)
            if init.op == "amap" and init.a[0] is cnt and init.a[2] is b:
                return mk("amapto", cnt, init, b, w, k), mk("amap", cnt, init.a[1], b, w)
            return mk("amapto", cnt, init, b, w, k), mk("amap", cnt, init, b, w)
        if v.op == "amap" and v.a[1] is p:
            n, _, b, w = v.a
            bv = mk("k", mk("loop", n, "element"))
            i = add(b, bv)
            old = mk("sub", p, i)
            if not clean(n, k):
                return None
            if clean(b, k):
                d = sub_(w, old)
                if not clean(d):
                    return None
                first = self._elem(init, i)
                return (mk("amap", n, init, b, add(first, mk("psum", key, d))),
                        mk("amap", n, init, b, add(first, mk("sum", key, TRUE, d))))
            c = sub_(b, mul(k, n))
            if clean(c, k):
                first = self._elem(init, i)
                w = subst(w, lambda x: first if x is old else None)
                if not clean(w):
                    return None
                bo = mk("k", mk("loop", cnt, "block"))
                w2 = subst(w, lambda x: bo if x is k else None)
                return mk("bmapto", cnt, n, init, c, w2, k), mk("bmap", cnt, n, init, c, w2)
        return None

    def _appended(self, v, p):
        """v == p + [items] (possibly conditional) -> (cond, items)"""
        if v.op == "concat" and v.a[0][0] is p:
            its = []
            for x in v.a[0][1:]:
                if x.op == "list":
                    its.extend(x.a[0])
                else:
                    its.append(mk("flat", x))
            return TRUE, its
        if v.op == "ite":
            c, a, b = v.a
            if b is p:
                r = self._appended(a, p)
                if r is not None:
                    return and_(c, r[0]), r[1]
            if a is p:
                r = self._appended(b, p)
                if r is not None:
                    return and_(not_(c), r[0]), r[1]
            ra, rb = self._appended(a, p), self._appended(b, p)
            if ra and rb and ra[0] is TRUE and rb[0] is TRUE and len(ra[1]) == len(rb[1]):
                return TRUE, [ite(c, x, y) for x, y in zip(ra[1], rb[1])]
        return None

    def _dictset(self, v, p):
        if v.op == "setitem" and v.a[0] is p:
            return TRUE, v.a[1], v.a[2]
        if v.op == "ite":
            c, a, b = v.a
            if b is p:
                r = self._dictset(a, p)
                if r:
                    return and_(c, r[0]), r[1], r[2]
            if a is p:
                r = self._dictset(b, p)
                if r:
                    return and_(not_(c), r[0]), r[1], r[2]
            ra, rb = self._dictset(a, p), self._dictset(b, p)
            if ra and rb and ra[0] is TRUE and rb[0] is TRUE and ra[1] is rb[1]:
                return TRUE, ra[1], ite(c, ra[2], rb[2])
        return None

    def s_While(self, s):
        self.whilen += 1
        cnt = mk("whilecount", "%s:%d" % (self.callstack[-1].qual, s.lineno))
        key = self.loopkey(cnt)
        self.loop(s, key, None, None, None, s.body, test=s.test)
        if s.orelse and self.st.live:
            self.block(s.orelse)

    def while_name(self, c, key, k, phis, closed, nexts, rec):
        """name of a general while loop: its condition and the updates of the variables it depends on"""
        if key.a[0].op != "whilecount" or not isinstance(key.a[0].a[0], str):
            return None
        slot_of = {p: sl for sl, p in phis.items()}
        sub = {phis[sl]: cf[0] for sl, cf in closed.items()}
        number = {}
        todo = []

        def f(x):
            if x is k:
                return sym("%k")
            y = sub.get(x)
            if y is not None and y is not x:
                return subst(y, f)
            if x in slot_of:
                if x not in number:
                    number[x] = len(number)
                    todo.append(x)
                return mk("wphi", number[x])
            return None

        parts = [subst(c, f)]
        for b in rec.brks:
            parts.append(subst(b.pc, f))
        i = 0
        while i < len(todo):
            p = todo[i]
            i += 1
            n = nexts.get(slot_of[p])
            parts.append(mk("tuple", (subst(p.a[2], f), subst(n, f) if n is not None else NONE)))
        if any(contains(x, lambda y: y is key) for x in parts):
            return None
        return self.loopkey(mk("whilecount", mk("tuple", tuple(parts))))

    def while_count(self, c, key, k, phis, closed):
        """condition lt0(k*d + r): number of iterations of a counting loop"""
        if key.a[0].op != "whilecount" or not isinstance(key.a[0].a[0], str):
            return None
        sub = {phis[sl]: cf[0] for sl, cf in closed.items()}
        c = subst(c, lambda x: sub.get(x))
        if c.op not in ("lt0", "le0"):
            return None
        it = poly_items(c.a[0])
        d = ZERO
        r = ZERO
        for m, co in it.items():
            ks = [e for a, e in m if a is k]
            if ks:
                if ks != [1]:
                    return None
                d = add(d, mk_poly({tuple(x for x in m if x[0] is not k): co}))
            else:
                if any(contains(a, lambda x: x is k) for a, _ in m):
                    return None
                r = add(r, mk_poly({m: co}))
        if d is ZERO or contains(c, lambda x: x.op == "phi" and x.a[0] is key):
            return None
        n = div(neg(r), d)
        # only unit steps have an exact count without a ceil
        if d.op == "num" and abs(d.a[0]) == 1 and c.op == "lt0":
            return self.loopkey(n)
        if c.op == "lt0":
            return self.loopkey(mk("call", ext("int"), (mk("call", ext("numpy.ceil"), (n,), ()),), ()))
        if c.op == "le0" and d.op == "num" and d.a[0] > 0:
            return self.loopkey(add(mk("call", ext("int"), (mk("call", ext("numpy.floor"), (n,), ()),), ()), num(1)))
        return None

    # ------------------------------------------------------------------ expressions
    def ev(self, n):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            return mk("opaque", type(n).__name__, getattr(n, "lineno", 0))
        return m(n)

    def e_Constant(self, n):
        return const(n.value)

    def name(self, nm, node):
        v = self.st.env.get(nm)
        if v is None:
            fr = self.frame.parent
            while fr is not None:
                st = fr.final_env
                if st is not None and nm in st.env:
                    v = st.env[nm]
                    break
                fr = fr.parent
        if v is None:
            f = self.frame.func
            if f is None:
                return ext(EXT_ALIAS.get("builtins." + nm, nm))
            # unbound local?
            if not isinstance(f.node, ast.Lambda) and isinstance(f.node, ast.FunctionDef):
                loc = getattr(f, "_locals", None)
                if loc is None:
                    loc = _assigned(f.node.body)
                    f._locals = loc
                if nm in loc:
                    if not self.quiet:
                        self.maybe_unbound.append((f, nm, getattr(node, "lineno", 0), TRUE, "unbound"))
                        self.emit("unbound", node, fn=nm, result=UNBOUND)
                    return UNBOUND
            return self.module_global(f.mod, nm, node)
        v = self.assume(v) if v.op == "ite" else v
        if v.op == "ite" and not self.quiet and contains(v, lambda x: x is UNBOUND):
            self.emit("maybe_unbound", node, fn=nm, result=v)
        elif v.op == "maybe" and not self.quiet and contains(v, lambda x: x is UNBOUND):
            self.emit("maybe_unbound", node, fn=nm, result=v)
        elif v is UNBOUND and not self.quiet:
            self.emit("unbound", node, fn=nm, result=v)
        return v

    def e_Name(self, n):
        return self.name(n.id, n)

    def e_NamedExpr(self, n):
        v = self.ev(n.value)
        self.st.env[n.target.id] = v
        return v

    def e_Tuple(self, n):
        return mk("tuple", tuple(self._elts(n.elts)))

    def _elts(self, elts):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value)
                c = self.content(v) if v.op == "ref" else v
                if c.op in ("list", "tuple"):
                    out.extend(c.a[0])
                else:
                    out.append(mk("star", self.snap(v)))
            else:
                out.append(self.ev(e))
        return out

    def e_List(self, n):
        return self.newref(mk("list", tuple(self._elts(n.elts))))

    def e_Set(self, n):
        return self.newref(mk("set", tuple(sorted(self._elts(n.elts), key=lambda t: t.id))))

    def e_Dict(self, n):
        ps = []
        base = None
        for k, v in zip(n.keys, n.values):
            vv = self.ev(v)
            if k is None:
                c = self.content(vv) if vv.op == "ref" else vv
                if c.op == "dict":
                    for kk, x in c.a[0]:
                        ps = [(a, b) for a, b in ps if a is not kk] + [(kk, x)]
                else:
                    had = base is not None or ps
                    if base is None:
                        base = mk("dict", tuple(ps))
                    else:
                        for kk, x in ps:
                            base = mk("setitem", base, kk, x)
                    base = mk("mut", "update", base, (self.snap(vv),), ()) if had else self.snap(vv)
                    ps = []
            else:
                kk = self.snap(self.ev(k))
                ps = [(a, b) for a, b in ps if a is not kk] + [(kk, vv)]
        t = mk("dict", tuple(ps))
        if base is not None:
            t = base
            for k, v in ps:
                t = mk("setitem", t, k, v)
        return self.newref(t)

    def e_Starred(self, n):
        return mk("star", self.ev(n.value))

    def e_Lambda(self, n):
        f = Func(self.frame.func.mod, n, self.frame.func.qual + ".<lambda>")
        f.env = self.frame
        self.frame.final_env = self.st
        # canonical body
        self.quiet += 1
        st = self.st
        self.st = st.copy()
        try:
            for i, a in enumerate(n.args.args):
                self.st.env[a.arg] = sym("$%d" % i)
            body = self.snap(self.ev(n.body))
        finally:
            self.st = st
            self.quiet -= 1
        t = mk("func", "lambda:%d" % body.id)
        self.funcs[t] = f
        self.lam_body = getattr(self, "lam_body", {})
        self.lam_body[t] = body
        f._closure = dict(self.st.env)
        return t

    def _named_function(self, t):
        """a helper of this module that only works out a value, given as an argument"""
        f = self.funcs.get(t) if t.op == "func" else None
        if f is None or f.env is not None or self.frame.func is None or f.mod is not self.frame.func.mod or not getattr(f.node, "name", "").startswith("_") or f.cls is not None:
            return t
        e = _expression(f.node)
        return t if e is None else self.e_Lambda(e)

    def e_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                parts.append(self._fv(v))
        return fmt(parts)

    def _fv(self, v):
        t = self.snap(self.ev(v.value))
        spec = ""
        if v.conversion and v.conversion > 0:
            spec = "!" + chr(v.conversion)
        if v.format_spec is not None:
            fs = self.ev(v.format_spec)
            if is_str(fs):
                spec += ":" + fs.a[0].v
            else:
                spec += ":" + show(fs)
        spec = spec.replace("!s", "")
        if spec.startswith(":"):
            spec = spec[1:]
        return (t, spec)

    e_FormattedValue = lambda self, v: fmt([self._fv(v)])  # noqa

    def e_IfExp(self, n):
        c = self.cond(n.test)
        if c is TRUE:
            return self.ev(n.body)
        if c is FALSE:
            return self.ev(n.orelse)
        box = {}

        def fa():
            box["a"] = self.ev(n.body)

        def fb():
            box["b"] = self.ev(n.orelse)

        self.branch(c, fa, fb)
        a, b = box.get("a"), box.get("b")
        if a is None:
            return b
        if b is None:
            return a
        return ite(c, a, b)

    def e_BoolOp(self, n):
        vals = []
        isand = isinstance(n.op, ast.And)
        saved = self.st.pc
        acc = []
        for i, x in enumerate(n.values):
            v = self.ev(x)
            if v.op == "ref":
                c = self.content(v)
                if i < len(n.values) - 1 and c.op not in ("list", "dict", "tuple", "set"):
                    c = self.snap(v)
                vv = c
            else:
                vv = v
            acc.append((v, truth(vv)))
            # short circuit: later operands are evaluated under the earlier ones
            t = truth(self.snap(vv)) if not is_const(vv) else truth(vv)
            g = t if isand else not_(t)
            self.st.pc = and_(self.st.pc, g)
            if self.st.pc is FALSE:
                break
        if self.st.live:
            self.st.pc = saved
        # value semantics
        if all(TT._boolish(t) or is_const(t) and isinstance(cval(t), bool) for _, t in acc[:-1]) and True:
            ts = [t if v.op != "ref" or is_const(t) else t for v, t in acc]
            last_v = acc[-1][0]
            if TT._boolish(acc[-1][1]) or True:
                r = (and_ if isand else or_)(*ts)
                return r
        if isand:
            res = acc[-1][0]
            for v, t in reversed(acc[:-1]):
                res = and_(t, truth(res)) if TT._boolish(truth(res)) else ite(t, res, v)
            return res
        res = acc[-1][0]
        for v, t in reversed(acc[:-1]):
            if TT._boolish(t) and TT._boolish(truth(res)):
                res = or_(t, res)
            elif t is TRUE:
                res = v
            elif t is FALSE:
                pass
            else:
                res = ite(t, v, res)
        return res

    def e_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            c = self.cond(n.operand)
            return not_(c)
        v = self.ev(n.operand)
        if isinstance(n.op, ast.USub):
            return neg(self.snap(v))
        if isinstance(n.op, ast.UAdd):
            return v
        return not_(self.snap(v))  # ~mask

    def e_BinOp(self, n):
        a = self.ev(n.left)
        b = self.ev(n.right)
        return self.binop(type(n.op).__name__, a, b)

    def _strish(self, t):
        return is_str(t) or t.op in ("fmt", "catstr") or (
            t.op == "call" and t.a[0] in (ext("str"),)) or texty(t)

    def binop(self, op, a, b):
        # instances with operator methods
        if self.class_of(a) is not None:
            dn = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__"}.get(op)
            f = dn and self.prog.find_method(self.class_of(a), dn)
            if f:
                return self.call_func(f, [b], {}, a)
        if op == "Add":
            ca = self.content(a) if a.op == "ref" else a
            cb = self.content(b) if b.op == "ref" else b
            lst = ("list", "map", "concat")
            if ca.op in lst or cb.op in lst:
                if not (ca.op not in lst and ca.op in ("num",)) and not (cb.op in ("num",)):
                    return self.newref(concat(self.snap(ca), self.snap(cb)))
            if ca.op == "tuple" and cb.op == "tuple":
                return mk("tuple", ca.a[0] + cb.a[0])
        if op == "Div":
            if a.op == "path" or is_str(b) or b.op in ("fmt", "path"):
                return path_join(self.snap(a), self.snap(b))
        if op == "Mod" and (is_str(a)):
            return self.percent(a, b)
        if op == "Mult":
            ca = self.content(a) if a.op == "ref" else a
            if is_str(a) and b.op == "num":
                return const(a.a[0].v * int(b.a[0]))
            if is_str(b) and a.op == "num":
                return const(b.a[0].v * int(a.a[0]))
            if a.op == "num" and (self.content(b) if b.op == "ref" else b).op in ("list", "tuple"):
                a, b = b, a
                ca = self.content(a) if a.op == "ref" else a
            if ca.op == "tuple" and b.op == "num" and 0 < int(b.a[0]) * len(ca.a[0]) < 20:
                return mk("tuple", ca.a[0] * int(b.a[0]))
            if ca.op == "list":
                if b.op == "num" and 0 < int(b.a[0]) * len(ca.a[0]) < 20:
                    return self.newref(mk("list", ca.a[0] * int(b.a[0])))
                return self.newref(mk("repeat", self.snap(ca), self.snap(b)))
        a = self.snap(a)
        b = self.snap(b)
        if op == "Add":
            if self._strish(a) or self._strish(b):
                return fmt(fmt_parts(a) + fmt_parts(b))
            return add(a, b)
        if op == "Sub":
            if a.op == "set":
                from .lib import without

                r = without(a, b)
                if r is not None:
                    return r
            return sub_(a, b)
        if op == "Mult":
            return mul(a, b)
        if op == "Div":
            return div(a, b)
        if op == "Pow":
            return self.pow(a, b)
        if op == "BitAnd":
            return and_(a, b)
        if op == "BitOr":
            return or_(a, b)
        if op == "BitXor":
            if is_const(a) and is_const(b) and isinstance(cval(a), bool) and isinstance(cval(b), bool):
                return const(cval(a) != cval(b))
            if a.op in ("is", "not", "lt0", "le0", "eq0", "eq", "and", "or"):
                return or_(and_(a, not_(b)), and_(not_(a), b))
            return mk("call", ext("op.xor"), tuple(sorted((a, b), key=lambda t: t.id)), ())
        if op == "FloorDiv":
            if a.op == "num" and b.op == "num" and b.a[0] != 0:
                return num(a.a[0] // b.a[0])
            return mk("call", ext("op.floordiv"), (a, b), ())
        if op == "Mod":
            if a.op == "num" and b.op == "num" and b.a[0] != 0:
                return num(a.a[0] % b.a[0])
            return mk("call", ext("op.mod"), (a, b), ())
        return mk("call", ext("op." + op.lower()), (a, b), ())

    def pow(self, a, b):
        if b.op == "num":
            return power(a, b.a[0])
        return mk("call", ext("op.pow"), (a, b), ())

    def percent(self, a, b):
        import re

        args = list(b.a[0]) if b.op == "tuple" else [b]
        parts = []
        pos = 0
        i = 0
        s = a.a[0].v
        for m in re.finditer(r"%(%|[-#0 +]*\d*(?:\.\d+)?[a-zA-Z])", s):
            parts.append(s[pos:m.start()])
            pos = m.end()
            if m.group(1) == "%":
                parts.append("%")
                continue
            if i >= len(args):
                return mk("call", ext("op.mod"), (a, self.snap(b)), ())
            spec = m.group(1)
            spec = "" if spec == "s" else spec
            parts.append((self.snap(args[i]), spec))
            i += 1
        parts.append(s[pos:])
        return fmt(parts)

    def e_Compare(self, n):
        left = self.ev(n.left)
        out = []
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r)
            out.append(self.compare(type(op).__name__, left, right))
            left = right
        return and_(*out) if len(out) > 1 else out[0]

    def compare(self, op, a, b):
        if op in ("Is", "IsNot"):
            r = self._is(a, b)
            return r if op == "Is" else not_(r)
        if op in ("Eq", "NotEq") and self.class_of(a) is not None:
            f = self.prog.find_method(self.class_of(a), "__eq__")
            if f is not None and self.class_of(b) is not None:
                r = truth(self.call_func(f, [b], {}, a))
                return r if op == "Eq" else not_(r)
        a = self.snap(a)
        b = self.snap(b)
        if op in ("LtE", "GtE") and (a.op == "set" or b.op == "set"):
            from .lib import subset

            r = subset(a, b) if op == "LtE" else subset(b, a)
            if r is not None:
                return r
        if op == "Lt":
            return lt(a, b)
        if op == "LtE":
            return le(a, b)
        if op == "Gt":
            return lt(b, a)
        if op == "GtE":
            return le(b, a)
        if op == "Eq":
            return self._eq(a, b)
        if op == "NotEq":
            return not_(self._eq(a, b))
        if op == "In":
            return in_(a, b)
        if op == "NotIn":
            return not_(in_(a, b))
        return mk("opaque", op, 0)

    def _eq(self, a, b):
        for p, q in ((a, b), (b, a)):
            if p.op == "ite" and is_const(q) and (is_const(p.a[1]) or is_const(p.a[2])):
                return ite(p.a[0], self._eq(p.a[1], q), self._eq(p.a[2], q))
        if a.op in ("list", "tuple") and b.op in ("list", "tuple") and len(a.a[0]) == len(b.a[0]) and a.op == b.op:
            return and_(*[self._eq(x, y) for x, y in zip(a.a[0], b.a[0])])
        return eq(a, b)

    def _is(self, a, b):
        if a.op == "ref" and b is NONE or b.op == "ref" and a is NONE:
            return FALSE
        a = self.assume(a) if a.op == "ite" else a
        if a.op not in ("ref",):
            a = self.snap(a)
        if b.op not in ("ref",):
            b = self.snap(b)
        if b is NONE and (a in self.types):
            return FALSE
        if b is NONE and a.op == "call" and a.a[0].op == "ext" and a.a[0].a[0] in NOT_NONE_FNS:
            return FALSE
        return is_(a, b)

    def e_Subscript(self, n):
        o = self.ev(n.value)
        k = self.ev(n.slice)
        return self.subscript(o, k, n)

    def e_Slice(self, n):
        return mk(
            "slice",
            self.snap(self.ev(n.lower)) if n.lower else NONE,
            self.snap(self.ev(n.upper)) if n.upper else NONE,
            self.snap(self.ev(n.step)) if n.step else NONE,
        )

    def _on(self, c, t):
        """a value, on the branch c"""
        return assume(t, set(c.a[0]) if c.op == "and" else {c}) if contains(t, lambda y: y.op == "ite") else t

    def subscript(self, o, k, node):
        k = self.snap(k)
        if o.op == "ite":
            a, b = (self._on(c, self.subscript(x, self._on(c, k), node)) for x, c in ((o.a[1], o.a[0]), (o.a[2], not_(o.a[0]))))
            if not (a.op == "sub" and a.a[0] is o.a[1] and b.op == "sub" and b.a[0] is o.a[2]):
                return ite(o.a[0], a, b)
        cl = self.class_of(o)
        if cl is not None:
            f = self.prog.find_method(cl, "__getitem__")
            if f is not None:
                return self.call_func(f, [k], {}, o, node=node)
        c = self.content(o)
        if c.op in ("list", "tuple") and k.op == "num" and k.a[0].denominator == 1 and not self.quiet and self.st.live and self.callstack and not any(x.op in ("star", "flat") for x in c.a[0]):
            i = int(k.a[0])
            self.unpacked.append((self.callstack[-1], getattr(node, "lineno", self.curline), i, len(c.a[0]), -len(c.a[0]) <= i < len(c.a[0]), None, self.full_pc(), tuple(self.trys)))
        if not is_const(k) and k.op not in ("num", "slice", "tuple", "list") and (is_str(c) or c.op in ("list", "tuple") and c.a[0] and all(is_str(x) for x in c.a[0])):
            # one of several texts, however they are held
            xs = tuple(const(x) for x in c.a[0].v) if is_str(c) else c.a[0]
            if k.op == "k" and 1 < len(xs) <= 3:  # a counter: never negative
                r = xs[-1]
                for i in range(len(xs) - 2, -1, -1):
                    r = ite(eq(k, num(i)), xs[i], r)
                return r
            return mk("sub", mk("list", xs), k)
        r = self._getitem(c, k)
        if r is not None:
            return r
        ident = mk("sub", o, k)
        ov = self.st.heap.get(("c", ident))
        if ov is not None:
            return ident if ov.op not in ("ref", "num", "const", "poly") else ov
        if o.op == "attr" and o.a[1] == "loc":
            every = k.op == "tuple" and len(k.a[0]) == 2 and k.a[0][1].op == "slice" and all(x is NONE for x in k.a[0][1].a)
            m = k.a[0][0] if every else k
            if k.op == "tuple" and len(k.a[0]) == 2 and _columns(k.a[0][1], self.snap):
                m, k = k.a[0][0], mk("tuple", (k.a[0][0], self.snap(k.a[0][1])))
                r = self.snap(o.a[0]) if m.op == "slice" and all(x is NONE for x in m.a) else chosen_rows(self.snap(o.a[0]), m) if _mask(m) else None
                if r is not None:
                    return ite(r.a[0], *[mk("sub", x, k.a[0][1]) for x in r.a[1:]]) if r.op == "ite" else mk("sub", r, k.a[0][1])
            if _mask(m):
                r = chosen_rows(self.snap(o.a[0]), m)
                if r is not None:
                    return r
            elif m.op == "sub" and is_str(m.a[1]) and self.snap(m).op == "sub" and self.snap(m).a[0] is self.snap(o.a[0]):
                return mk("sub", self.snap(o.a[0]), self.snap(m))
        if o.op == "attr" and o.a[1] in ("loc", "iloc", "at", "iat"):
            return mk("sub", self.snap(o), k)
        if _mask(k):
            r = chosen_rows(self.snap(o), k)
            return r if r is not None else mk("sub", self.snap(o), k)
        if (is_str(k) or k.op in ("list", "tuple", "fmt", "slice") or TT._boolish(k)):
            return mk("sub", self.snap(o), k)
        if o.op in ("ref", "sym", "attr", "sub"):
            if c.op in ("list", "map", "concat", "dict", "setitem", "dmap"):
                return mk("sub", self.snap(o), k)
            if o.op == "ref" and self.native and any(hasattr(f, "native") for f in self.callstack[-1:]):
                return mk("sub", c, k)  # an element of a numeric array, by value
            return ident
        return mk("sub", self.snap(o), k)

    @staticmethod
    def _numbered(t):
        """a table whose rows are numbered from 0"""
        if t.op != "call":
            return False
        if t.a[0] is ext("pandas.DataFrame"):
            return len(t.a[1]) == 1 and t.a[1][0].op == "dict" and not t.a[2]
        return t.a[0].op == "meth" and t.a[0].a[1] == "reset_index" and not t.a[1] and dict(t.a[2]) == {"drop": TRUE}

    def _onerow(self, t):
        """one row of a table, by its place"""
        if t.op != "sub" or t.a[0].op != "attr" or t.a[0].a[1] not in ("iloc", "loc"):
            return False
        i = t.a[1]
        return i.op in ("num", "k") or i.op == "call" and i.a[0].op == "meth" and i.a[0].a[1] in ("idxmax", "idxmin", "argmax", "argmin")

    def _getitem(self, c, k):
        if c.op == "attr" and c.a[1] == "loc" and self._numbered(c.a[0]):
            # rows numbered from 0: by label as by place
            i, col = k.a[0] if k.op == "tuple" and len(k.a[0]) == 2 else (k, None)
            row = mk("sub", mk("attr", c.a[0], "iloc"), i)
            if self._onerow(row):
                return row if col is None else mk("sub", row, col)
        if c.op == "attr" and c.a[1] == "index" and self._numbered(c.a[0]) and k.op == "num" and k.a[0].denominator == 1:
            t = c.a[0] if c.a[0].a[0].op == "ext" else c.a[0].a[0].a[0]
            return k if k.a[0] >= 0 else add(mk("call", ext("len"), (t,), ()), k)
        if c.op == "attr" and c.a[1] == "map4d" and k.op == "tuple" and len(k.a[0]) <= 4 and sum(x is const(Ellipsis) for x in k.a[0]) == 1:
            ks = list(k.a[0])
            i = ks.index(const(Ellipsis))
            ks[i:i + 1] = [mk("slice", NONE, NONE, NONE)] * (5 - len(ks))
            return mk("sub", c, mk("tuple", tuple(ks)))
        if is_str(c) and k.op == "num" and k.a[0].denominator == 1:
            s = c.a[0].v
            i = int(k.a[0])
            if -len(s) <= i < len(s):
                return const(s[i])
        if k.op == "call" and k.a[0] in (ext("numpy.argmax"), ext("numpy.argmin")) and len(k.a[1]) == 1 and not k.a[2] and k.a[1][0] is c:
            return mk("call", ext("numpy.m" + k.a[0].a[0][-2:]), (c,), ())
        if (
            k.op == "num" and c.op == "attr" and c.a[1] == "values" and c.a[0].op == "sub"
            and c.a[0].a[1].op == "list" and all(is_str(x) for x in c.a[0].a[1].a[0]) and self._onerow(c.a[0].a[0])
        ):
            xs = c.a[0].a[1].a[0]
            if k.a[0].denominator == 1 and -len(xs) <= k.a[0] < len(xs):
                return mk("sub", c.a[0].a[0], xs[int(k.a[0])])
        if c.op in ("list", "tuple"):
            xs = c.a[0]
            if any(x.op in ("star", "flat") for x in xs):
                return None
            if k.op == "num" and k.a[0].denominator == 1:
                i = int(k.a[0])
                if -len(xs) <= i < len(xs):
                    return xs[i]
            if k.op == "slice" and all(x is NONE or x.op == "num" for x in k.a):
                sl = slice(*[None if x is NONE else int(x.a[0]) for x in k.a])
                if c.op == "tuple":
                    return mk("tuple", tuple(xs[sl]))
                return self.newref(mk("list", tuple(xs[sl])))
            return None
        if c.op == "dict":
            for kk, v in c.a[0]:
                if kk is k:
                    return v
            if not is_const(k) and 0 < len(c.a[0]) <= 24 and all(is_str(kk) for kk, _ in c.a[0]):
                r = mk("sub", c, k)
                for kk, v in reversed(c.a[0]):
                    r = ite(eq(k, kk), v, r)
                return r
            return None
        if c.op == "map" and k.op == "k" and c.a[1] is TRUE and len(c.a[2]) == 1 and c.a[2][0].op != "flat":
            key = c.a[0]
            return replace_k(c.a[2][0], key, k)
        if self.native and k.op != "slice" and k.op != "tuple":
            if called(c) in ("numpy.zeros", "numpy.ones"):
                return ZERO if called(c) == "numpy.zeros" else ONE
            if c.op == "amap":
                d = sub_(k, c.a[2])
                if d.op == "k" and d.a[0].a[0] is c.a[0]:
                    bv = mk("k", mk("loop", c.a[0], "element"))
                    return subst(c.a[3], lambda x: d if x is bv else None)
            if c.op == "amapto" and sub_(k, c.a[2]) is c.a[4]:
                return self._elem(c.a[1], k)
            if c.op == "bmapto":
                d = sub_(k, add(c.a[3], mul(c.a[5], c.a[1])))
                if d.op == "k" and d.a[0].a[0] is c.a[1]:
                    return self._elem(c.a[2], k)
        if c.op == "setitem":
            if c.a[1] is k:
                return c.a[2]
            if is_const(c.a[1]) and is_const(k):
                r = self._getitem(c.a[0], k)
                if r is not None:
                    return r
                return mk("sub", c.a[0], k)
            return None
        if c.op == "ite":
            a = self._getitem(c.a[1], k)
            b = self._getitem(c.a[2], k)
            if a is not None or b is not None:
                a = a if a is not None else mk("sub", c.a[1], k)
                b = b if b is not None else mk("sub", c.a[2], k)
                return ite(c.a[0], a, b)
        if is_str(c) and k.op == "slice" and all(x is NONE or x.op == "num" for x in k.a):
            sl = slice(*[None if x is NONE else int(x.a[0]) for x in k.a])
            return const(c.a[0].v[sl])
        return None

    # -- comprehension
    def e_ListComp(self, n):
        return self.newref(self.comp(n, [n.elt]))

    def e_GeneratorExp(self, n):
        return self.newref(self.comp(n, [n.elt]))

    def e_SetComp(self, n):
        return self.newref(mk("call", ext("set"), (self.snap(self.comp(n, [n.elt])),), ()))

    def e_DictComp(self, n):
        st = self.st
        saved = dict(st.env)
        ref = self.newref(mk("dict", ()))
        # desugar to loops: body  ref[key] = value
        self._comp_loops(n.generators, 0, lambda: self.store_sub_quiet(ref, self.snap(self.ev(n.key)), self.ev(n.value)))
        self._restore(saved)
        return ref

    def store_sub_quiet(self, ref, k, v):
        c = self.content(ref)
        self.st.heap[("c", ref)] = self._setitem(c, k, v)

    def _restore(self, saved):
        self.st.env = saved

    def comp(self, n, elts):
        saved = dict(self.st.env)
        ref = self.newref(mk("list", ()))

        def leaf():
            v = self.ev(elts[0])
            c = self.content(ref)
            self.st.heap[("c", ref)] = concat(c, mk("list", (self.keepval(v),)))

        self._comp_loops(n.generators, 0, leaf)
        self._restore(saved)
        return self.content(ref)

    def keepval(self, v):
        """values stored in containers keep object identity for instances"""
        return v

    def _comp_loops(self, gens, i, leaf):
        if i == len(gens):
            leaf()
            return
        g = gens[i]
        itv = self.ev(g.iter)
        cnt, el, xs, fl = self.iter_info(itv)
        if g in self.expected and xs is None and el is not None and fl is None:
            xs = [el(num(j)) for j in range(self.expected[g])]

        def body():
            conds = []
            for c in g.ifs:
                conds.append(c)
            if conds:
                cc = and_(*[self.cond(c) for c in conds])
                if cc is FALSE:
                    return
                if cc is TRUE:
                    self._comp_loops(gens, i + 1, leaf)
                else:
                    self.branch(cc, lambda: self._comp_loops(gens, i + 1, leaf), lambda: None)
            else:
                self._comp_loops(gens, i + 1, leaf)

        if xs is not None and len(xs) <= self.unroll:
            for x in xs:
                self.assign(g.target, x)
                body()
            return
        if el is None:
            lst = self.snap(mk("tuple", tuple(xs)))
            el = lambda k: mk("sub", lst, k)  # noqa
        key = self.loopkey(cnt)
        self.loop(None, key, el, fl, g.target, [_Thunk(body)])

    def s__Thunk(self, s):
        s.fn()

    def e_Yield(self, n):
        v = self.ev(n.value) if n.value else NONE
        g = self.st.env.get("$yield")
        if g is not None:
            c = self.content(g)
            self.st.heap[("c", g)] = concat(c, mk("list", (v,)))
        self.emit("yield", n, fn="yield", result=self.snap(v))
        return NONE

    def e_YieldFrom(self, n):
        v = self.ev(n.value)
        g = self.st.env.get("$yield")
        if g is not None:
            self.st.heap[("c", g)] = concat(self.content(g), self.snap(v))
        return NONE

    def e_Await(self, n):
        return self.ev(n.value)

    # -- attributes
    def e_Attribute(self, n):
        o = self.ev(n.value)
        return self.attr_of(o, n.attr, n)

    def attr_of(self, o, attr, node):
        if o.op == "mod":
            h = self.st.heap.get(("f", o, attr))
            if h is not None:
                return h
            return self.resolved(self.prog.member(self.prog.modules[o.a[0]], attr))
        if o.op == "ext":
            d = o.a[0] + "." + attr
            if d in self.prog.modules or o.a[0].split(".")[0] == self.prog.pkg:
                return self.resolved(self.prog.resolve(d))
            return ext(EXT_ALIAS.get(d, d))
        if o.op == "cls":
            c = self.prog.cls(o.a[0])
            h = self.st.heap.get(("f", o, attr))
            if h is not None:
                return h
            f = self.prog.find_method(c, attr)
            if f is not None:
                if f.kind == "class":
                    return mk("bound", self.fterm(f), o)
                return self.fterm(f)
            fa = self.prog.find_attr(c, attr)
            if fa is not None:
                return self.class_attr(fa[0], attr, fa[1])
            return mk("attr", o, attr)
        if o.op == "super":
            cq, slf = o.a
            c = self.prog.cls(cq)
            mro = self.prog.mro(self.class_of(slf) or c)
            after = mro[mro.index(c) + 1:] if c in mro else []
            for k in after:
                if isinstance(k, Class) and attr in k.methods:
                    return mk("bound", self.fterm(k.methods[attr]), slf)
            return mk("meth", slf, "super." + attr)
        if attr == "shape" and o.op in ("ite", "call", "ref"):
            r = _shape(self.snap(o))
            if r is not None:
                return r
        if o.op == "ite" and (self.class_of(o.a[1]) or self.class_of(o.a[2])):
            return ite(o.a[0], self.attr_of(o.a[1], attr, node), self.attr_of(o.a[2], attr, node))
        c = self.class_of(o)
        if c is not None:
            h = self.st.heap.get(("f", o, attr))
            if h is not None:
                h = self.assume(h) if h.op == "ite" else h
                return h
            g = getattr(self, "global_fresh", {}).get(("f", o, attr))
            if g is not None:
                return g
            f = self.prog.find_method(c, attr)
            if f is not None:
                if f.kind == "property":
                    if self.is_opaque(f):
                        return mk("attr", o, attr)
                    return self.call_func(f, [], {}, o, node=node)
                if f.kind == "static":
                    return self.fterm(f)
                if f.kind == "class":
                    return mk("bound", self.fterm(f), mk("cls", c.qual))
                return mk("bound", self.fterm(f), o)
            fa = self.prog.find_attr(c, attr)
            if fa is not None:
                return self.class_attr(fa[0], attr, fa[1])
            if attr == "__dict__":
                return mk("attr", o, attr)
            if attr == "__class__":
                return mk("cls", c.qual)
            return mk("attr", o, attr)
        ident = mk("attr", o, attr)
        ov = self.st.heap.get(("c", ident))
        if ov is not None:
            return ident if attr in NONSCALAR else ov
        if o._d:
            if attr in NONSCALAR:
                return ident
            so = self.snap(o)
            r = self._getattr_content(so, attr)
            return r
        if attr in NONSCALAR:
            return ident
        so = self.snap(o)
        return self._getattr_content(so, attr)

    def _getattr_content(self, c, attr):
        if c.op == "upd" and len(c.a[1]) == 1 and c.a[1][0] == ("attr", attr):
            return c.a[2]
        if c.op == "upd" and len(c.a[1]) >= 1 and c.a[1][0][0] == "attr" and c.a[1][0][1] != attr:
            return self._getattr_content(c.a[0], attr)
        if c.op == "call" and c.a[0] is ext("obspy.UTCDateTime") and len(c.a[1]) == 1:
            pass
        if attr == "empty" and not (c.op == "sym" and self.class_of(c) is not None):
            return eq(mk("call", ext("len"), (c,), ()), TT.ZERO)
        if attr == "name" and c.op == "row":
            return mk("rowidx", c.a[0], c.a[1])
        if attr == "index":
            while c.op == "setitem" and is_str(c.a[1]) and not _fresh_frame(c.a[0]):
                c = c.a[0]
        if attr == "shape":
            sh = _shape(c)
            if sh is not None:
                return sh
        if c.op == "path" and attr == "name":
            return c.a[0][-1]
        if c.op == "path" and attr == "parent" and len(c.a[0]) > 1:
            return mk("path", c.a[0][:-1])
        return mk("attr", c, attr)

    # -- calls
    def e_Call(self, n):
        fnode = n.func
        # super()
        if isinstance(fnode, ast.Name) and fnode.id == "super" and "super" not in self.st.env:
            f = self.frame.func
            if n.args:
                c = self.ev(n.args[0])
                slf = self.ev(n.args[1])
                return mk("super", c.a[0], slf)
            p0 = f.node.args.args[0].arg
            owner = f.cls or self.class_of(self.st.env[p0])
            return mk("super", owner.qual, self.st.env[p0])
        if isinstance(fnode, ast.Attribute) and fnode.attr == "__init__" and isinstance(fnode.value, ast.Name) and fnode.value.id in ("Exception", "BaseException", "object") and n.args \
                and self.frame.func.node.args.args and isinstance(n.args[0], ast.Name) and n.args[0].id == self.frame.func.node.args.args[0].arg and fnode.value.id not in self.st.env:
            up = ast.copy_location(ast.Call(ast.Name("super", ast.Load()), [], []), n)
            return self.e_Call(ast.fix_missing_locations(ast.copy_location(ast.Call(ast.Attribute(up, "__init__", ast.Load()), n.args[1:], n.keywords), n)))
        # method call
        if isinstance(fnode, ast.Attribute):
            o = self.ev(fnode.value)
            if not self.st.live:
                return UNBOUND
            return self.method_call(o, fnode.attr, n)
        f = self.ev(fnode)
        args, kw, skw = self.args(n)
        if not self.st.live:
            return UNBOUND
        return self.apply(f, args, kw, skw, n)

    def args(self, n):
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                c = self.content(v) if v.op == "ref" else v
                if c.op in ("list", "tuple"):
                    args.extend(c.a[0])
                else:
                    args.append(mk("star", v))
            else:
                args.append(self._named_function(self.ev(a)))
        kw = {}
        skw = None
        for k in n.keywords:
            v = self._named_function(self.ev(k.value))
            if k.arg is None:
                c = self.content(v) if v.op == "ref" else v
                if c.op == "dict" and all(is_str(x) for x, _ in c.a[0]):
                    for x, y in c.a[0]:
                        kw[x.a[0].v] = y
                else:
                    skw = self.snap(v) if skw is None else mk("kwboth", skw, self.snap(v))
            else:
                kw[k.arg] = v
        return args, kw, skw

    def apply(self, f, args, kw, skw, n):
        if f.op == "func" and f in self.funcs:
            fn = self.funcs[f]
            return self.call_func(fn, args, kw, None, skw, n)
        if f.op == "bound":
            fn = self.funcs[f.a[0]]
            return self.call_func(fn, args, kw, f.a[1], skw, n)
        if f.op == "cls":
            return self.instantiate(self.prog.cls(f.a[0]), args, kw, skw, n)
        if f.op == "ite":
            box = {}
            self.branch(
                f.a[0],
                lambda: box.__setitem__("a", self.apply(f.a[1], args, kw, skw, n)),
                lambda: box.__setitem__("b", self.apply(f.a[2], args, kw, skw, n)),
            )
            a, b = box.get("a", UNBOUND), box.get("b", UNBOUND)
            return ite(f.a[0], a, b)
        if f.op == "ext":
            return self.ext_call(f.a[0], args, kw, skw, n)
        if f.op == "meth":
            return self.lib_method(f.a[0], f.a[1], args, kw, skw, n)
        # calling an unknown value (e.g. a user supplied callable)
        if f.op == "attr" and f.a[1] in ("get", "append", "update", "items", "keys", "values", "setdefault", "extend", "join", "format", "add", "pop"):
            # a bound method kept in a variable
            return self.lib_method(f.a[0], f.a[1], args, kw, skw, n)
        c = self.class_of(f)
        if c is not None:
            g = self.prog.find_method(c, "__call__")
            if g is not None:
                return self.call_func(g, args, kw, f, skw, n)
        if f.op == "attr":
            # a method kept in a variable
            return self.lib_method(f.a[0], f.a[1], args, kw, skw, n)
        sf = self.snap(f)
        sa = tuple(self.snap(a) for a in args)
        sk = tuple(sorted([(k, self.snap(v)) for k, v in kw.items()] + ([("**", skw)] if skw is not None else [])))
        res = mk("call", sf, sa, sk)
        self.emit("call", n, fn="value:" + show(sf, 3), recv=f, args=list(sa), kw=dict(sk), result=res)
        return res

    def method_call(self, o, attr, n):
        if o.op in ("mod", "ext", "cls", "super"):
            f = self.attr_of(o, attr, n)
            args, kw, skw = self.args(n)
            if not self.st.live:
                return UNBOUND
            return self.apply(f, args, kw, skw, n)
        if o.op == "ite" and (self.class_of(o.a[1]) is not None or self.class_of(o.a[2]) is not None):
            args, kw, skw = self.args(n)
            box = {}

            def go(x, s):
                box[s] = self._method_on(x, attr, args, kw, skw, n)

            self.branch(o.a[0], lambda: go(o.a[1], "a"), lambda: go(o.a[2], "b"))
            return ite(o.a[0], box.get("a", UNBOUND), box.get("b", UNBOUND))
        c = self.class_of(o)
        if c is None and o.op == "attr":
            pass
        args, kw, skw = self.args(n)
        if not self.st.live:
            return UNBOUND
        return self._method_on(o, attr, args, kw, skw, n)

    def _method_on(self, o, attr, args, kw, skw, n):
        c = self.class_of(o)
        if c is not None:
            h = self.st.heap.get(("f", o, attr))
            if h is not None:
                return self.apply(h, args, kw, skw, n)
            f = self.prog.find_method(c, attr)
            if f is not None:
                if f.kind == "property":
                    return self.apply(self.call_func(f, [], {}, o), args, kw, skw, n)
                return self.call_func(f, args, kw, None if f.kind == "static" else (mk("cls", c.qual) if f.kind == "class" else o), skw, n)
        if self.native and called(o) == "ctypes.CDLL":
            return self.native_call(attr, args, n)
        return self.lib_method(o, attr, args, kw, skw, n)

    native = False

    def native_call(self, name, args, n):
        """a kernel of the native library, analysed from its C source"""
        from .cfront import is_ptr, elem, native

        lib = native(self.prog)
        cf = lib.funcs.get(name)
        if cf is None or cf.func is None or len(args) != len(cf.params):
            why = "no function %s in the native library" % name if cf is None else lib.broken.get(name, "%d arguments for %d parameters of %s" % (len(args), len(cf.params), name))
            self.emit("call", n, fn="native:" + why, recv=None, args=[self.snap(a) for a in args], kw={}, result=NONE)
            if cf is not None and name in lib.broken:
                # not analysed: its arrays may hold anything afterwards
                for i, (a, node) in enumerate(zip(args, n.args)):
                    v = mk("opaque", "kernel " + name, i)
                    if a.op == "ref":
                        self.st.heap[("c", a)] = v
                    elif isinstance(node, ast.Name):
                        self.st.env[node.id] = v
            return NONE
        self.emit("call", n, fn="kernel:" + name, recv=None, args=[self.snap(a) for a in args], kw={}, result=NONE)
        out = []
        nodes = list(n.args)
        for (p, q), a, node in zip(cf.params, args, nodes):
            if is_ptr(q):
                st = lib.struct(elem(q))
                if st is not None:
                    out.extend(self._fields(self.snap(a), st))
                    continue
                if a.op != "ref" and isinstance(node, ast.Name):
                    r = self.newref(content=a)
                    self.st.env[node.id] = r
                    a = r
                out += [a, const(0)]
            else:
                while called(a) and "ctypes.c_" in called(a) and len(a.a[1]) == 1:
                    a = a.a[1][0]
                out.append(a)
        return self.call_func(cf.func, out, {}, None, None, n)

    def _fields(self, t, st):
        """the field values of a one-element structured array filled from a tuple"""
        for x in subterms(t):
            if x.op == "tuple" and len(x.a[0]) == len(st):
                return list(x.a[0])
        return [mk("getattr", t, f) for f, _ in st]

    def lib_method(self, o, attr, args, kw, skw, n):
        from . import lib

        return lib.method(self, o, attr, args, kw, skw, n)

    def ext_call(self, name, args, kw, skw, n):
        from . import lib

        return lib.function(self, name, args, kw, skw, n)

    def mutate_call(self, o, attr, args, kw, n):
        from . import lib

        return lib.mutate(self, o, attr, args, kw, n)


def called(t):
    """the library function whose result a term is"""
    return t.a[0].a[0] if t.op == "call" and t.a[0].op == "ext" else None


NOT_NONE_FNS = {
    "obspy.UTCDateTime", "int", "float", "str", "len", "numpy.array", "numpy.sum",
    "obspy.Stream", "obspy.read", "pandas.DataFrame", "pandas.read_csv",
}


class _Thunk(ast.stmt):
    _fields = ()

    def __init__(self, fn):
        super().__init__()
        self.fn = fn


class _Unrolled:
    """loop control record of an unrolled loop: exits need no 'someiter'"""

    def __init__(self, rec):
        self.rec = rec

    @property
    def conts(self):
        return self.rec.conts

    @property
    def brks(self):
        return self.rec.brks

    @property
    def escapes(self):
        return []

    key = None
    outer_pc = None


def concat(a, b):
    pa = list(a.a[0]) if a.op == "concat" else [a]
    pb = list(b.a[0]) if b.op == "concat" else [b]
    out = []
    for x in pa + pb:
        if x.op == "tuple":
            x = mk("list", x.a[0])
        if x.op == "list" and not x.a[0]:
            continue
        if out and out[-1].op == "list" and x.op == "list":
            out[-1] = mk("list", out[-1].a[0] + x.a[0])
        else:
            out.append(x)
    if not out:
        return mk("list", ())
    if len(out) == 1:
        return out[0]
    return mk("concat", tuple(out))


REBUILD["concat"] = lambda parts: _recat(parts)


def _recat(parts):
    r = mk("list", ())
    for p in parts:
        r = concat(r, p)
    return r


def replace_k(t, key, k):
    kk = mk("k", key)
    if kk is k:
        return t
    return subst(t, lambda x: k if x is kk else None)


def _shape(x):
    """the shape of what is, or may be, repeated values"""
    if x.op == "ite":
        a, b = _shape(x.a[1]), _shape(x.a[2])
        if a is None and b is None:
            return None
        return ite(x.a[0], *[mk("attr", y, "shape") if r is None else r for y, r in ((x.a[1], a), (x.a[2], b))])
    if called(x) == "numpy.repeat" and len(x.a[1]) == 2 and not x.a[2]:
        return mk("tuple", (mul(x.a[1][1], mk("attr", x.a[1][0], "size")),))
    return None


def _expression(d):
    """a function that only returns an expression, as one"""
    body = [x for x in d.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
    a = d.args
    if len(body) != 1 or not isinstance(body[0], ast.Return) or body[0].value is None or d.decorator_list or not isinstance(d, ast.FunctionDef):
        return None
    if a.vararg or a.kwarg or a.kwonlyargs or a.defaults or a.posonlyargs or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(body[0])):
        return None
    e = d.__dict__.get("_as_lambda")
    if e is None:
        e = d._as_lambda = ast.copy_location(ast.Lambda(args=a, body=body[0].value), d)
    return e


def _slotname(hk):
    return ":".join(str(x) if not isinstance(x, T) else show(x, 3) for x in hk)


def _assigned(body):
    out = set()
    for s in body:
        if isinstance(s, _Thunk):
            continue
        for n in _walk_scope(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    out.add((a.asname or a.name).split(".")[0])
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
    return out


def _walk_scope(s):
    stack = [s]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and n is not s:
            continue
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def _own_loop_nodes(loop):
    stack = list(loop.body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.For, ast.While, ast.FunctionDef, ast.Lambda)):
            continue
        stack.extend(ast.iter_child_nodes(n))
