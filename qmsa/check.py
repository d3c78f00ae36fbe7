"""
Obligations, scenarios, comparison of terms, evidence and reporting.
"""

import ast
import hashlib
import itertools
import json
import os
import re
import sys
import time

from .terms import *  # noqa
from . import terms as TT
from .program import Program, AnalysisBroken, Class, Module
from .logic import counterexample, noexc
from .engine import Interp, Limit, Eff, UNBOUND, lits_of

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(50000)

PROVED, VIOLATED, UNDECIDED = "proved", "violated", "undecided"

# Functions whose meaning the comparison may rely on when it declares two terms
# different (a term containing an unmodelled call is "undecided" instead).
KNOWN = {
    "int", "float", "abs", "min", "max", "len", "range", "bool", "str",
    "numpy.ceil", "numpy.floor", "numpy.round", "numpy.trunc", "numpy.log10",
    "numpy.log", "numpy.exp", "numpy.sum", "numpy.mean", "numpy.max", "numpy.min",
    "numpy.std", "numpy.var", "numpy.argmax", "numpy.argmin", "numpy.nanmax",
    "numpy.nanmin", "numpy.nansum", "numpy.nanmean", "numpy.median", "numpy.log2",
    "numpy.nanmedian", "numpy.sin", "numpy.cos", "numpy.tan", "numpy.deg2rad",
    "numpy.zeros", "numpy.ones", "numpy.full", "numpy.any", "numpy.all",
    "op.floordiv", "op.mod", "op.pow", "pandas.isnull", "obspy.UTCDateTime",
    "numpy.arange", "numpy.linspace", "numpy.array", "numpy.cumsum", "numpy.prod",
    "numpy.nanargmax", "numpy.log1p", "numpy.sign", "numpy.nanstd", "numpy.pi",
    "numpy.where", "hasattr", "dict.keys", "dict.values", "dict.items", "sorted", "set",
    "numpy.argsort", "numpy.sort", "numpy.diff", "numpy.abs", "op.xor",
    "numpy.int32", "numpy.int64", "numpy.double", "numpy.isfinite", "numpy.isinf",
    "numpy.maximum", "numpy.minimum", "numpy.product", "numpy.ravel",
    ".lower", ".upper", ".title", ".replace", ".strip", ".zfill", ".lstrip", ".rstrip",
}
OPAQUE_OPS = {
    "phi", "fold", "foldbrk", "last", "lastbrk", "maybe", "opaque", "unbound",
    "excval", "exc", "star", "psum", "mapto", "dmapto",
    "whilecount", "wphi",
}


def fn_name(t):
    f = t.a[0]
    if f.op == "ext":
        return f.a[0]
    if f.op == "meth":
        return "." + f.a[1]
    if f.op in ("func", "cls"):
        return f.a[0]
    if f.op == "call":
        # the function returned by a call
        return "()" + (fn_name(f) or "?")
    return None


def vocab(t):
    """(functions called, opaque ops, leaf identities)"""
    fns, opq, leaves = set(), set(), set()
    for x in subterms(t):
        if x.op == "call":
            n = fn_name(x)
            fns.add(n if n else "?")
        elif x.op in OPAQUE_OPS:
            opq.add(x.op)
        elif x.op in ("sym", "ref"):
            leaves.add(x)
    return fns, opq, leaves


NEUTRAL = {".astype", ".copy", "numpy.asarray", "numpy.array", "float", "list", "tuple", ".to_numpy", ".tolist", "numpy.copy"}


def neutral(t):
    """without conversions that keep the values"""

    def f(x):
        if x.op == "call":
            n = fn_name(x)
            if n in NEUTRAL:
                if n.startswith("."):
                    return subst(x.a[0].a[0], f)
                if x.a[1]:
                    return subst(x.a[1][0], f)
        elif x.op == "attr" and x.a[1] in ("values",):
            return subst(x.a[0], f)
        return None

    return subst(t, f)


LITERAL = {"list", "tuple", "map", "concat", "dict", "set", "slice"}


FILLED = {"numpy.full": (2, None), "numpy.full_like": (2, None), "numpy.zeros_like": (1, ZERO), "numpy.ones_like": (1, ONE)}


def copies(t, memo=None):
    """without copies made of what is an array, or taken for one"""

    def f(x):
        if x.op == "call" and x.a[0] is ext("numpy.array") and len(x.a[1]) == 1 and not x.a[2] and x.a[1][0].op not in LITERAL:
            return copies(x.a[1][0], memo)
        if x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] in FILLED and not x.a[2] and len(x.a[1]) == FILLED[x.a[0].a[0]][0]:
            n, how = x.a[0].a[0], FILLED[x.a[0].a[0]]
            shape = copies(x.a[1][0], memo)
            if n.endswith("_like"):
                shape = mk("attr", shape, "shape")
            v = copies(x.a[1][1], memo) if how[1] is None else how[1]
            if v.op not in ("num", "poly"):
                return None
            if v is ZERO:
                return mk("call", ext("numpy.zeros"), (shape,), ())
            return mul(v, mk("call", ext("numpy.ones"), (shape,), ()))
        if x.op == "upd" and len(x.a) == 3 and len(x.a[1]) == 1 and x.a[1][0][0] == "attr":
            o, v = copies(x.a[0], memo), copies(x.a[2], memo)
            if v is mk("attr", o, x.a[1][0][1]):
                return o  # replaced by a copy of what it was
        return None

    memo = {} if memo is None else memo
    return subst(t, f, memo)


def _chain(t):
    ks = []
    while t.op == "setitem":
        ks.append(t.a[1])
        t = t.a[0]
    return ks


def _stores(t):
    """what is stored into, and the (place, value) stored, in order"""
    out = []
    while t.op == "setitem":
        out.append((t.a[1], t.a[2]))
        t = t.a[0]
    return t, out[::-1]


def _concrete(k):
    return k.op in ("num", "const") or k.op == "tuple" and all(_concrete(x) for x in k.a[0])


def _elsewhere(k, l):
    """places that differ: bounds a fixed number of elements apart, or conditions of one kind"""
    if k.op == l.op == "slice":
        ds = [(a, b) for a, b in zip(k.a, l.a) if a is not b]
        return len(ds) == 1 and NONE not in ds[0] and (sub_(*ds[0]).op == "num" or sub_(*ds[0]).op == "poly" and not any(_extent(z) for z in _atoms_of(sub_(*ds[0]))))
    return (l is not_(k) or k.op == l.op != "not") and k.op in ("lt0", "le0", "eq0", "not", "and", "or", "eq")


def _extent(z):
    """may be the length of what is indexed, or a bound kept within it"""
    return not (z.op == "sym" or z.op == "call" and fn_name(z) in ("int", "round"))


def _atoms_of(p):
    out = {}
    for m in p.a[0]:
        for at, _ in m[0]:
            out[at] = 1
    return out


def _renamed(x, y):
    """pairs of atoms whose exchange turns polynomial x into y"""
    ax, ay = _atoms_of(x), _atoms_of(y)
    ux, uy = [z for z in ax if z not in ay], [z for z in ay if z not in ax]
    if not ux or len(ux) != len(uy) or len(ux) > 4:
        return None

    def kind(z):
        return (z.op, fn_name(z) if z.op == "call" else None)

    for perm in itertools.permutations(uy):
        if any(kind(u) != kind(v) for u, v in zip(ux, perm)):
            continue
        m = dict(zip(ux, perm))
        if subst(x, lambda z: m.get(z) if isinstance(z, T) else None) is y:
            return list(m.items())
    return None


def differences(a, b, limit=64):
    """smallest pairs of subterms in which two terms of the same shape differ"""
    acc, seen = [], set()

    def gen(x, y, pa, pb):
        if isinstance(x, T) and isinstance(y, T):
            go(x, y)
        elif isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            for u, v in zip(x, y):
                gen(u, v, pa, pb)
        elif not (x == y):
            acc.append((pa, pb))

    def stores(x, y):
        (bx, sx), (by, sy) = _stores(x), _stores(y)
        if all(_concrete(k) for k, _ in sx + sy):
            go(bx, by)
            dx, dy = dict(sx), dict(sy)
            for k in list(dx) + [k for k in dy if k not in dx]:
                go(dx.get(k, mk("sub", bx, k)), dy.get(k, mk("sub", by, k)))
            return
        n = 0
        while n < min(len(sx), len(sy)) and sx[-1 - n][0] is sy[-1 - n][0]:
            n += 1
        if n and (n < len(sx) or n < len(sy)):
            # the last stores are in the same places: their values, then what they are made over
            for (_, u), (_, v) in zip(sx[-n:], sy[-n:]):
                go(u, v)
            for _ in range(n):
                x, y = x.a[0], y.a[0]
            return go(x, y)
        off = [i for i, (p, q) in enumerate(zip(sx, sy)) if p[0] is not q[0]]
        if len(sx) == len(sy) and len(off) == 1 and all(p[1] is q[1] for p, q in zip(sx, sy)) and bx.op == by.op and _elsewhere(sx[off[0]][0], sy[off[0]][0]):
            # the same value is stored, in the same order, but once in other places
            go(bx, by)
            go(sx[off[0]][0], sy[off[0]][0])
            return
        acc.append((None, None))

    def go(x, y):
        if x is y or (x, y) in seen or len(acc) > limit:
            return
        seen.add((x, y))
        if x.op != y.op or len(x.a) != len(y.a):
            acc.append((x, y))
        elif x.op == "poly":
            dx, dy = dict(x.a[0]), dict(y.a[0])
            lx = {m: c for m, c in dx.items() if dy.get(m) != c}
            ly = {m: c for m, c in dy.items() if dx.get(m) != c}
            if len(lx) == 1 and len(ly) == 1:
                ((m, c),), ((n, d),) = lx.items(), ly.items()
                um, un = [z for z in m if z not in n], [z for z in n if z not in m]
                if c == d and len(um) == len(un) == 1 and um[0][1] == un[0][1]:
                    return go(um[0][0], un[0][0])
            r = _renamed(x, y)
            if r is not None:
                for u, v in r:
                    go(u, v)
                return
            acc.append((mk_poly(lx), mk_poly(ly)))
        elif x.op in ("and", "or"):
            lx = [z for z in x.a[0] if z not in y.a[0]]
            ly = [z for z in y.a[0] if z not in x.a[0]]
            if len(lx) == len(ly) and 1 <= len(lx) <= 4:
                for perm in itertools.permutations(ly):
                    if all(u.op == v.op and len(u.a) == len(v.a) and u.op not in ("sym", "const", "num", "ext") for u, v in zip(lx, perm)):
                        for u, v in zip(lx, perm):
                            go(u, v)
                        return
            f = and_ if x.op == "and" else or_
            acc.append((f(*lx), f(*ly)))
        elif x.op == "call":
            if fn_name(x) != fn_name(y) or fn_name(x) is None:
                acc.append((x, y))
                return
            if x.a[0].op == "meth":
                go(x.a[0].a[0], y.a[0].a[0])
            elif x.a[0].op == "call":
                go(x.a[0], y.a[0])
            if fn_name(x) in ("max", "min") and len(x.a[1]) == len(y.a[1]) and not x.a[2] and not y.a[2]:
                lx = [z for z in x.a[1] if z not in y.a[1]]
                ly = [z for z in y.a[1] if z not in x.a[1]]
                if len(lx) == len(ly) == 1:
                    return go(lx[0], ly[0])
            if len(x.a[1]) == len(y.a[1]) and [k for k, _ in x.a[2]] == [k for k, _ in y.a[2]]:
                for u, v in zip(x.a[1], y.a[1]):
                    go(u, v)
                for (_, u), (_, v) in zip(x.a[2], y.a[2]):
                    go(u, v)
            else:
                acc.append((mk("call", ext("args"), x.a[1], x.a[2]), mk("call", ext("args"), y.a[1], y.a[2])))
        elif x.op == "ite" and (x.a[1].op in ("phi", "wphi")) != (y.a[1].op in ("phi", "wphi")) and x.a[1].op != y.a[1].op and x.a[1].op == y.a[2].op and x.a[2].op == y.a[1].op:
            # the same choice written the other way round
            go(not_(x.a[0]), y.a[0])
            go(x.a[2], y.a[1])
            go(x.a[1], y.a[2])
        elif x.op == "setitem" and _chain(x) != _chain(y) and len(_chain(x)) > 1:
            stores(x, y)
        elif x.op in ("num", "const", "sym", "ext", "ref", "func", "cls"):
            acc.append((x, y))
        else:
            for u, v in zip(x.a, y.a):
                gen(u, v, x, y)

    go(a, b)
    return acc


def keys(t, memo=None):
    """going through a dict or through its keys is the same"""
    if t is None:
        return None
    memo = {} if memo is None else memo

    def f(x):
        if x.op == "dkey":
            return mk("sub", keys(x.a[0], memo), keys(x.a[1], memo))
        return None

    return subst(t, f, memo)


def compare(found, expected, trust=()):
    """PROVED if equal, VIOLATED if definitely different, else UNDECIDED"""
    if found is expected:
        return PROVED
    if found is None:
        return UNDECIDED
    found, expected = keys(found), keys(expected)
    if found is expected:
        return PROVED
    ef, eo, el = vocab(expected)
    pairs = differences(found, expected)
    if not pairs or len(pairs) > 64:
        return UNDECIDED
    for a, b in pairs:
        if a is None or _differs(a, b, ef, trust) != VIOLATED:
            return UNDECIDED
    return VIOLATED


def _mutations(t):
    """operations on containers whose outcome is not worked out"""
    return {x.a[0] for x in subterms(t) if x.op == "mut" and x.a[0] in ("insert", "clear", "reverse", "popitem", "setdefault", "discard", "extend")}


LOOPS = {"fold", "foldbrk", "phi", "last", "lastbrk", "psum", "sum", "map", "mapto", "dmap", "dmapto", "someiter"}


def recast(found, spec):
    """one uses a kind of loop the other does not have, and the other way round: the same thing may have been computed in another way"""
    a, b = ({x.op for x in subterms(t) if x.op in LOOPS} for t in (found, spec))
    return bool(a - b) and bool(b - a)


def _differs(a, b, ef, trust):
    ff, fo, fl = vocab(a)
    bf, bo, bl = vocab(b)
    if fo - bo or "?" in ff or recast(a, b):
        return UNDECIDED
    if _mutations(a) - _mutations(b):
        return UNDECIDED
    if {x for x in fl ^ bl if x.op == "ref"}:
        return UNDECIDED
    if copies(a) is copies(b):
        return UNDECIDED
    extra = {f for f in ff if f not in ef and f not in KNOWN and f not in trust and f != "args"}
    if extra - NEUTRAL:
        return UNDECIDED
    if extra and neutral(a) is neutral(b):
        return UNDECIDED
    return VIOLATED


def numbered(t):
    """objects known by the order of their creation only"""
    return {x for x in subterms(t) if x.op == "ref"}


class Scenario:
    def __init__(self, name, I, ret, self_obj=None, n0=0, **k):
        self.name = name
        self.I = I
        self.ret = ret
        self.self = self_obj
        self.log = I.log[n0:]
        # under what condition the call returns
        self.exit = I.st.pc if I.st.live else None
        self.full_log = I.log
        self.__dict__.update(k)

    def effs(self, fn=None, kind=None):
        out = []
        for e in self.log:
            if kind is not None and e.kind not in (kind if isinstance(kind, tuple) else (kind,)):
                continue
            if fn is not None and not _match(e.fn, fn):
                continue
            out.append(e)
        return out

    def calls(self, fn):
        return self.effs(fn, "call")

    def attr(self, name, obj=None):
        self.I.quiet += 1
        try:
            return self.I.snap(self.I.attr_of(self.self if obj is None else obj, name, None))
        finally:
            self.I.quiet -= 1

    def snap(self, t):
        return self.I.snap(t)


def _match(fn, pat):
    if isinstance(pat, (set, tuple, list)):
        return any(_match(fn, p) for p in pat)
    if fn is None:
        return False
    return fn == pat or (fn.endswith("." + pat) and not pat.startswith(".")) or fn == pat


class Ctx:
    def __init__(self, prop, root="/repo", tier="quick"):
        self.prop = prop
        self.root = root
        self.tier = tier
        self.prog = Program(root)
        self.obs = []
        self.notes = []
        self.analysed = set()
        self.effects = 0
        self.steps = 0
        self._scen = {}
        self._refs = {}
        self.facts = {}
        self.extra_units = []

    # -- scenarios -----------------------------------------------------------
    def scenario(self, name, fn, opaque=(), types=None, args=None, construct=True,
                 ctor_args=None, ret_types=None, self_cls=None, pre=None, fields=None,
                 before=None, ret_values=None):
        if name in self._scen:
            return self._scen[name]
        f = self.prog.func(fn)
        I = Interp(self.prog, opaque=opaque)
        for k, c in (types or {}).items():
            I.types[k if isinstance(k, T) else sym(k)] = self.prog.cls(c)
        for k, c in (ret_types or {}).items():
            I.ret_types[k] = self.prog.cls(c)
        I.ret_values.update(ret_values or {})
        for k, c in (fields or {}).items():
            I.field_types[k] = self.prog.cls(c)
        if before is not None:
            before(I)
        so = None
        cls = f.cls
        if self_cls is not None:
            cls = self.prog.cls(self_cls)
        if cls is not None and f.kind not in ("static", "class"):
            if construct:
                so = I.construct(cls, ctor_args)
            else:
                so = sym("self")
                I.types[so] = cls
        if pre is not None:
            pre(I, so)
        n0 = len(I.log)
        a = args(I) if callable(args) else args
        ret = I.call_entry(f, args=a, self_obj=so)
        s = Scenario(name, I, ret, so, n0)
        self._scen[name] = s
        self.analysed |= I.analysed
        self.effects += len(I.log)
        self.steps += I.steps
        return s

    def do(self, fn, *args):
        """run one section of the rules; a section that cannot cope with the code it
        meets leaves an undecided obligation and does not stop the others"""
        try:
            return fn(self, *args)
        except AnalysisBroken:
            raise
        except (AttributeError, IndexError, KeyError, TypeError, ValueError) as e:
            import traceback

            tb = [t for t in traceback.extract_tb(e.__traceback__) if "/rules/" in t.filename][-1]
            self.ob("section:" + fn.__name__, UNDECIDED, "%s:%s" % (tb.filename, tb.lineno),
                    "the code has a shape this section does not cover", repr(e))

    # -- reference functions ---------------------------------------------------
    def reference(self, name, self_cls=None, opaque=(), types=None, args=None,
                  ret_types=None, fields=None, before=None, ret_values=None, pre=None):
        """normal form of a function of /verif/ref ("module.function"), the
        specification a function of the code is compared with. Its `self` has the
        class of the code's instances; it is analysed, never run."""
        modname, fn = name.split(".")
        if modname not in self._refs:
            path = os.path.join(VERIF, "ref", modname + ".py")
            self._refs[modname] = Module(self.prog, "ref." + modname, path, "ref/%s.py" % modname, False)
        f = self._refs[modname].funcs[fn]
        I = Interp(self.prog, opaque=opaque)
        I.reference = True
        for k, c in (types or {}).items():
            I.types[k if isinstance(k, T) else sym(k)] = self.prog.cls(c)
        for k, c in (ret_types or {}).items():
            I.ret_types[k] = self.prog.cls(c)
        I.ret_values.update(ret_values or {})
        for k, c in (fields or {}).items():
            I.field_types[k] = self.prog.cls(c)
        if before is not None:
            before(I)
        a = dict(args or {})
        so = None
        if self_cls is not None:
            so = sym("self")
            I.types[so] = self.prog.cls(self_cls)
            a["self"] = so
        if pre is not None:
            pre(I, so)
        n0 = len(I.log)
        ret = I.call_entry(f, args=a)
        return Scenario("ref:" + name, I, ret, so, n0)

    def matches(self, key, code, ref, where, rule, trust=(), part=None, opaque=(), **kw):
        """the value returned by a function equals that of its reference"""
        cls = code.rsplit(".", 1)[0]
        f = self.prog.func(code)
        s = self.scenario("fn:" + code + ":" + key, code, construct=False, opaque=opaque, **kw)
        kw.pop("construct", None)
        slf = cls if f.cls is not None and f.kind not in ("static", "class") else None
        a = s.snap(s.ret)
        a = part(a) if part else a
        bs = []
        for x in (ref,) if isinstance(ref, str) else ref:
            r = self.reference(x, self_cls=slf, opaque=opaque, **kw)
            b = r.snap(r.ret)
            bs.append(part(b) if part else b)
        if len(bs) == 1:
            return self.eq(key, a, bs[0], where or code, rule, trust)
        return self.one_of(key, a, bs, where or code, rule, trust)

    # -- spec expressions ----------------------------------------------------
    def expr(self, src, I=None, **env):
        """build a term from a python expression over given terms"""
        I = I or Interp(self.prog)
        node = ast.parse(src, mode="eval").body
        from .program import Func

        sv = (I.st, I.frame, I.base, I.callstack, I.quiet)
        I.quiet = 1
        try:
            I.st = type(I.st)(dict(DEFAULT_ENV), dict(sv[0].heap), TRUE)
            for n in ast.walk(node):
                if isinstance(n, ast.Name) and n.id not in env and n.id not in I.st.env and n.id not in BUILTINS:
                    I.st.env[n.id] = sym(n.id)
            I.st.env.update({k: (const(v) if not isinstance(v, T) else v) for k, v in env.items()})
            I.frame = type(I.frame)(None)
            I.base = [frozenset()]
            return I.snap(I.ev(node))
        finally:
            (I.st, I.frame, I.base, I.callstack, I.quiet) = sv

    # -- obligations ---------------------------------------------------------
    def ob(self, key, status, where, rule, detail=""):
        self.obs.append(
            dict(key=key, status=status, where=str(where), rule=rule, detail=detail)
        )
        return status

    def eq(self, key, found, expected, where, rule, trust=()):
        st = compare(found, expected, trust)
        d = ""
        if st != PROVED:
            d = "found %s ; required %s" % (
                show(found, 9) if found is not None else "nothing",
                show(expected, 9),
            )
        return self.ob(key, st, _where(where), rule, d)

    def _impl(self, key, a, b, found, spec, where, rule, given, trust):
        a, b, found, spec, given = keys(a), keys(b), keys(found), keys(spec), tuple(keys(x) for x in given)
        cx = counterexample(a, b, given)
        if cx is None:
            st = PROVED
        elif cx == "big":
            st = UNDECIDED
        else:
            st = VIOLATED
            ef, eo, _ = vocab(spec)
            unlike = numbered(found) ^ numbered(spec)
            gone = {k[1] for k in cx if contains(spec, lambda x: x is k[1]) and not contains(found, lambda x: x is k[1])}
            rest = subst(spec, lambda x: TRUE if x in gone else None)
            new = [k[1] for k in cx if contains(found, lambda x: x is k[1]) and not contains(rest, lambda x: x is k[1])]
            for k in cx:
                t = k[1]
                if new and contains(spec, lambda x: x is t) and not contains(found, lambda x: x is t) and vocab(t)[1] & LOOPS - vocab(found)[1]:
                    st = UNDECIDED  # what a loop leaves behind, told in another way
                if unlike and contains(t, lambda x: x in unlike):
                    st = UNDECIDED
                if not contains(found, lambda x: x is t) or contains(spec, lambda x: x is t):
                    continue
                fns, opq, _ = vocab(t)
                if (opq - eo) or recast(t, spec) or any(f == "?" or (f not in KNOWN and f not in ef and f not in trust) for f in fns):
                    st = UNDECIDED
        if st == VIOLATED and counterexample(copies(a), copies(b), tuple(copies(x) for x in given)) is None:
            st = UNDECIDED
        d = ""
        if st != PROVED:
            d = "condition %s does not imply %s" % (show(a, 8), show(b, 8))
        return self.ob(key, st, _where(where), rule, d)

    def only_if(self, key, pc, cond, where, rule, given=(), trust=()):
        """found condition pc => required condition (never happens otherwise)"""
        return self._impl(key, pc, cond, pc, cond, where, rule, given, trust)

    def when(self, key, cond, pc, where, rule, given=(), trust=()):
        """required condition => found condition pc (always happens then)"""
        return self._impl(key, cond, pc, pc, cond, where, rule, given, trust)

    def iff(self, key, pc, cond, where, rule, given=(), trust=()):
        self.only_if(key + ":only", pc, cond, where, rule, given, trust)
        self.when(key + ":always", cond, pc, where, rule, given, trust)

    def one_of(self, key, found, expecteds, where, rule, trust=()):
        sts = [compare(found, e, trust) for e in expecteds]
        if PROVED in sts:
            st = PROVED
        elif UNDECIDED in sts:
            st = UNDECIDED
        else:
            st = VIOLATED
        d = ""
        if st != PROVED:
            d = "found %s ; required one of %s" % (
                show(found, 9) if found is not None else "nothing",
                " | ".join(show(e, 9) for e in expecteds),
            )
        return self.ob(key, st, _where(where), rule, d)

    def req(self, key, ok, where, rule, detail=""):
        """ok: True / False / None (undecided)"""
        st = PROVED if ok is True else VIOLATED if ok is False else UNDECIDED
        return self.ob(key, st, _where(where), rule, detail if st != PROVED else "")

    def some(self, key, effs, where, rule):
        """a required effect exists; returns the list"""
        self.req(key, bool(effs), where, rule, "no such effect is reachable from the entry point")
        return effs


def _where(w):
    if isinstance(w, Eff):
        return w.where
    if w is None:
        return "?"
    return str(w)


DEFAULT_ENV = {
    "np": ext("numpy"), "pd": ext("pandas"), "UTCDateTime": ext("obspy.UTCDateTime"),
    "pathlib": ext("pathlib"), "obspy": ext("obspy"),
}
BUILTINS = {
    "int", "float", "abs", "min", "max", "len", "range", "str", "True", "False",
    "None", "sum", "round", "any", "all", "list", "tuple", "dict", "set", "sorted",
    "zip", "enumerate",
}


# --------------------------------------------------------------------------
# running one property
# --------------------------------------------------------------------------
def known_findings():
    """entries of known_findings.txt that list an unrepaired finding"""
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) key=(.*?) :: (.*)", line.strip())
                if m:
                    out.append({"property": m.group(1), "key": m.group(2), "what": m.group(3)})
    return out


def rule_fn_do(c, rule_fn):
    c.do(rule_fn)


def deeper():
    """thorough: the limits beyond which a comparison is left undecided are raised"""
    from . import logic, equiv, bounds
    logic.MAXATOMS, logic.MAXSTEPS = 28, 2000000
    equiv.CASES = 5000
    bounds.BUDGET = 100000


def run(prop, rule_fn, level_note, argv, floor=1):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    root = os.environ.get("QM_REPO", "/repo")
    strict = "--strict" in argv
    verbose = "-v" in argv
    if "--thorough" in argv:
        tier = "thorough"
    if tier == "thorough":
        deeper()
    try:
        c = Ctx(prop, root, tier)
        rule_fn_do(c, rule_fn)
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (prop, e))
        return 2
    obs = c.obs
    viol = [o for o in obs if o["status"] == VIOLATED]
    und = [o for o in obs if o["status"] == UNDECIDED]
    ok = [o for o in obs if o["status"] == PROVED]
    kf = [k for k in known_findings() if k.get("property") == prop]
    listed = []
    new = []
    for v in viol:
        hit = [k for k in kf if k["key"] == v["key"]]
        if hit:
            listed.append((v, hit[0]))
        else:
            new.append(v)
    for v, k in listed:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    rc = 0
    if len(obs) < floor and not new:
        print(
            "ANALYSIS-BROKEN property=%s only %d obligations were generated, %d confirmed "
            "by hand" % (prop, len(obs), floor)
        )
        rc = 2
    for o in und:
        print("UNDECIDED property=%s %s at %s: %s %s" % (prop, o["key"], o["where"], o["rule"], o["detail"][:400]))
    if verbose:
        for o in ok:
            print("ok", o["key"], o["where"])
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if new:
        rc = 1
        rp = os.path.join(VERIF, "evidence", "%s.violations.txt" % prop)
        with open(rp, "w") as f:
            for v in new:
                f.write("%s\n  rule: %s\n  at: %s\n  %s\n\n" % (v["key"], v["rule"], v["where"], v["detail"]))
        for v in new:
            print("FINDING %s at %s\n    rule: %s\n    %s" % (v["key"], v["where"], v["rule"], v["detail"][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    files = sorted({m.rel for m in c.prog.modules.values()})
    dig = hashlib.sha256()
    for m in sorted(c.prog.modules.values(), key=lambda m: m.rel):
        dig.update(m.src.encode())
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
        "level": "other",
        "coverage": {
            "explanation": level_note,
            "modules_parsed": len(files) + len(c.extra_units),
            "functions_in_tree": c.prog.n_functions(),
            "functions_analysed": len(c.analysed),
            "functions_analysed_names": sorted(c.analysed),
            "statements_interpreted": c.steps,
            "effects_logged": c.effects,
            "obligations": len(obs),
            "discharged": len(ok),
            "undecided": len(und),
            "violated": len(viol),
            "known_findings_matched": len(listed),
            "other_units": c.extra_units,
            "obligation_list": [
                {"key": o["key"], "status": o["status"], "where": o["where"], "rule": o["rule"]}
                for o in obs
            ],
            "source_digest": dig.hexdigest(),
            "notes": c.notes,
        },
        "assumptions": [
            "real-number arithmetic (floating-point rounding is not modelled)",
            "library functions (numpy, pandas, obspy, scipy) behave as documented",
            "parameters of different names do not alias unless the code makes them",
        ],
        "violations": len(new),
        "wall_s": round(time.time() - t0, 3),
    }
    with open(os.path.join(VERIF, "evidence", "%s.json" % prop), "w") as f:
        json.dump(ev, f, indent=1)
    print(
        "%s: %d obligations, %d discharged, %d undecided, %d violated (%d known) in %.1fs"
        % (prop, len(obs), len(ok), len(und), len(viol), len(listed), time.time() - t0)
    )
    if strict and und:
        return 3
    return rc
