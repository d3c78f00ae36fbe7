"""
Memory rules for the translated native kernels (see cfront.py): every array access is
recorded with its index as a polynomial over the sizes the Python wrapper passes, with
the ranges of the loop variables around it; an access is accepted when 0 <= index < size
follows by substituting the bounds of the variables. Inside an OpenMP loop, the elements
touched by different iterations must be disjoint and every variable must be private.
"""

import ast
import itertools
import random
from fractions import Fraction

from .terms import T, mk, sym, num, add, mul, sub_, poly_items, subst, contains, subterms, show, ZERO, ONE
from .cfront import clauses, strip, is_int, ctype

ELEMENTWISE = {
    "numpy.log", "numpy.clip", "numpy.abs", "numpy.exp", "numpy.ascontiguousarray", "numpy.asarray", "numpy.array",
    "numpy.require", "min", "max", "numpy.sqrt", "numpy.log10", "numpy.copy", "numpy.maximum", "numpy.minimum", "numpy.nan_to_num",
}
ALLOC = {"numpy.zeros", "numpy.ones", "numpy.empty", "numpy.full"}


def called(t):
    return t.a[0].a[0] if t.op == "call" and t.a[0].op == "ext" else None


def inner(t):
    """the array whose shape an element-wise result has"""
    while True:
        f = called(t)
        if f in ELEMENTWISE:
            xs = [x for x in t.a[1] if x.op not in ("num", "const", "ext")]
            if not xs:
                return t
            t = xs[0]
        elif t.op == "call" and t.a[0].op == "meth" and t.a[0].a[1] in ("astype", "copy", "clip"):
            t = t.a[0].a[0]
        elif t.op == "poly" or t.op in ("op.pow",):
            ats = [a for m, _ in t.a[0] for a, _ in m if a.op not in ("num",)]
            if len(ats) != 1:
                return t
            t = ats[0]
        else:
            return t


def norm(t):
    """shapes of element-wise results are the shapes of their arguments; len(x) is x.shape[0]"""
    def f(x):
        if x.op == "attr" and x.a[1] == "shape":
            i = inner(x.a[0])
            if i is not x.a[0]:
                return mk("attr", norm(i), "shape")
        if x.op == "attr" and x.a[1] == "size":
            return mk("attr", norm(inner(x.a[0])), "size")
        if called(x) == "len" and len(x.a[1]) == 1:
            return mk("sub", mk("attr", norm(inner(x.a[1][0])), "shape"), ZERO)
        return None
    return subst(t, f)


def product(t):
    """number of elements of an array of this shape (a shape term)"""
    f = called(t)
    if parts(t):
        r = ONE
        for x in parts(t):
            r = mul(r, product(x))
        return r
    if t.op in ("tuple", "list"):
        r = ONE
        for x in t.a[0]:
            r = mul(r, product_item(x))
        return r
    if t.op == "concat":
        r = ONE
        for x in t.a[0]:
            r = mul(r, product(x))
        return r
    if f in ("list", "tuple"):
        return product(t.a[1][0])
    if t.op == "sub" and t.a[1].op == "slice":
        return mk("call", mk("ext", "numpy.prod"), (t,), ())
    if t.op == "attr" and t.a[1] == "shape":
        return mk("attr", t.a[0], "size")
    return t


def parts(t):
    """the sequences a sum of sequences is made of"""
    if t.op == "poly" and all(len(m) == 1 and m[0][1] == 1 and k == 1 for m, k in t.a[0]):
        xs = [m[0][0] for m, _ in t.a[0]]
        if all(x.op in ("tuple", "list") or called(x) in ("list", "tuple") for x in xs):
            return xs
    return None


def product_item(x):
    return product(x.a[0]) if x.op in ("star", "flat") else x


def dims(t):
    """the single dimensions named in a shape term"""
    f = called(t)
    if parts(t):
        return [d for x in parts(t) for d in dims(x)]
    if t.op in ("tuple", "list"):
        return [x for x in t.a[0] if x.op not in ("star", "flat")]
    if t.op == "concat":
        return [d for x in t.a[0] for d in dims(x)]
    if f in ("list", "tuple"):
        return dims(t.a[1][0])
    if t.op == "sub" and t.a[1].op == "slice" or t.op == "attr":
        return []
    return [t]


def size_of(t, scope):
    """number of elements of an array argument, over the sizes named in `scope`"""
    if called(t) in ALLOC:
        return norm(product(t.a[1][0]))
    x = norm(inner(t))
    if called(x) in ALLOC:
        return norm(product(x.a[1][0]))
    sh = mk("attr", x, "shape")
    idx, head, last = set(), False, False
    for s in scope:
        for y in subterms(s):
            if y.op == "sub" and y.a[0] is sh:
                k = y.a[1]
                if k.op == "num":
                    if k.a[0] >= 0:
                        idx.add(int(k.a[0]))
                    elif k.a[0] == -1:
                        last = True
                elif k.op == "slice":
                    head = True
    if head or (last and not idx):
        return mul(mk("call", mk("ext", "numpy.prod"), (mk("sub", sh, mk("slice", mk("const", _none()), num(-1), mk("const", _none()))),), ()),
                   mk("sub", sh, num(-1)))
    if idx:
        r = ONE
        for i in range(max(idx) + 1):
            r = mul(r, mk("sub", sh, num(i)))
        return r
    return mk("attr", x, "size")


def _none():
    from .terms import NONE

    return NONE.a[0]


# ---------------------------------------------------------------------- prover
class Facts:
    """known inequalities (polynomial >= 0) and atoms known to be >= 0"""

    def __init__(self, nonneg=(), facts=(), eqs=()):
        self.nonneg = frozenset(nonneg)
        self.facts = tuple(facts)

    def plus(self, *ps):
        return Facts(self.nonneg, self.facts + tuple(p for p in ps if p is not None))


def lin(p, v):
    """p = c*v + d with c, d free of v, else None"""
    c, d = ZERO, ZERO
    for m, k in poly_items(p).items():
        e = [x for x in m if x[0] is v]
        t = num(k)
        for a, ex in m:
            if a is not v:
                if ex.denominator != 1 or ex < 0:
                    return None
                for _ in range(int(ex)):
                    t = mul(t, a)
        if not e:
            d = add(d, t)
        elif e[0][1] == 1:
            c = add(c, t)
        else:
            return None
    return c, d


def atoms(p):
    return {a for m in poly_items(p) for a, _ in m}


def obvious(p, nonneg):
    return all(k >= 0 for m, k in poly_items(p).items()) and all(
        a in nonneg or (e.denominator == 1 and e % 2 == 0 and e > 0) for m in poly_items(p) for a, e in m)


BUDGET = 4000


def prove(p, F, depth=9, seen=None, budget=None):
    """p >= 0 ?"""
    if budget is None:
        budget = [BUDGET]
    budget[0] -= 1
    if budget[0] < 0:
        return False
    if obvious(p, F.nonneg):
        return True
    if depth == 0:
        return False
    if seen is None:
        seen = set()
    if p in seen:
        return False
    seen.add(p)
    for g in F.facts:
        if g is p:
            return True
    # substitute a bound of a variable
    for v in sorted(atoms(p), key=lambda a: -a.id):
        r = lin(p, v)
        if r is None:
            continue
        c, d = r
        pos = sgn(c, F, depth - 3, budget)
        if pos is None:
            continue
        for g in F.facts:
            q = lin(g, v)
            if q is None or q[0].op != "num" or q[0].a[0] == 0:
                continue
            # g = a*v + e >= 0
            a, e = q[0].a[0], q[1]
            if abs(a) != 1:
                continue
            if a > 0 and pos > 0:
                b = mul(num(-1), e)  # v >= -e
            elif a < 0 and pos < 0:
                b = e  # v <= e
            else:
                continue
            if contains(b, lambda x: x is v):
                continue
            if prove(add(mul(c, b), d), F, depth - 1, seen, budget):
                return True
        if pos > 0 and v in F.nonneg:
            if prove(d, F, depth - 1, seen, budget):
                return True
    return False


def sgn(c, F, depth, budget):
    """+1 if c >= 0 is known, -1 if c <= 0 is known"""
    if c.op == "num":
        return 1 if c.a[0] >= 0 else -1
    if obvious(c, F.nonneg):
        return 1
    n = mul(num(-1), c)
    if obvious(n, F.nonneg):
        return -1
    if depth > 0:
        if prove(c, F, min(depth, 3), None, budget):
            return 1
        if prove(n, F, min(depth, 3), None, budget):
            return -1
    return None


def witness(bad, F, tries=60000):
    """small values of the atoms satisfying every fact and `bad` (< 0)"""
    ats = set(atoms(bad))
    grow = True
    while grow:
        grow = False
        for g in F.facts:
            a = atoms(g)
            if a & ats and not a <= ats:
                ats |= a
                grow = True
    fs = [g for g in F.facts if atoms(g) & ats or not atoms(g)]
    al = sorted(ats, key=lambda a: a.id)
    rnd = random.Random(7)

    def ev(p, env):
        s = Fraction(0)
        for m, k in poly_items(p).items():
            t = k
            for a, e in m:
                if e.denominator != 1 or (e < 0 and env[a] == 0):
                    return None
                t *= Fraction(env[a]) ** int(e)
            s += t
        return s

    def ok(env):
        for a in al:
            if a in F.nonneg and env[a] < 0:
                return False
        for g in fs:
            v = ev(g, env)
            if v is None or v < 0:
                return False
        v = ev(bad, env)
        return v is not None and v < 0

    space = 7 ** len(al)
    if space <= tries:
        it = itertools.product(range(-1, 6), repeat=len(al))
        for xs in it:
            env = dict(zip(al, xs))
            if ok(env):
                return env
        return None
    for i in range(tries):
        hi = 3 if i % 2 else 7
        env = {a: rnd.randint(-1 if rnd.random() < 0.1 else 0, hi) for a in al}
        # repair: move each variable into the bounds the facts give
        for _ in range(4):
            for g in fs:
                v = ev(g, env)
                if v is not None and v < 0:
                    a = rnd.choice(sorted(atoms(g), key=lambda a: a.id)) if atoms(g) else None
                    if a is None:
                        break
                    r = lin(g, a)
                    if r is None:
                        continue
                    c = ev(r[0], env)
                    if c:
                        d = ev(r[1], env)
                        b = -d / c
                        env[a] = int(b) if b == int(b) else (int(b) + (1 if c > 0 and b > 0 else 0))
        if ok(env):
            return env
    return None


# ---------------------------------------------------------------------- executor
class State:
    __slots__ = ("env", "F", "done")

    def __init__(self, env, F, done=None):
        self.env = env
        self.F = F
        self.done = done

    def copy(self):
        return State(dict(self.env), self.F, self.done)


class Access:
    def __init__(self, **k):
        self.__dict__.update(k)


class Kernel:
    """walk one kernel with the wrapper's arguments"""

    def __init__(self, nat, cf, env, sizes, F, element=None):
        self.nat = nat
        self.cf = cf
        self.sizes = sizes  # array -> size polynomial
        self.arrays = {}  # array name in the current function -> array (caller's name)
        self.element = element or {}
        self.acc = []
        self.regions = []
        self.stack = [cf]
        self.n = 0
        self.par = None
        self.unknown = []
        self.start = State(env, F)

    def fresh(self, hint):
        self.n += 1
        return sym("#%s.%d" % (hint, self.n))

    def run(self):
        self.block(self.cf.func.node.body, [self.start])
        return self

    # -- values: list of (state, polynomial or None)
    def val(self, e, st):
        if isinstance(e, ast.Constant):
            if isinstance(e.value, bool) or not isinstance(e.value, (int, float)):
                return [(st, None)]
            return [(st, num(e.value) if isinstance(e.value, int) else None)]
        if isinstance(e, ast.Name):
            return [(st, st.env.get(e.id))]
        if isinstance(e, ast.BinOp):
            out = []
            for s1, a in self.val(e.left, st):
                for s2, b in self.val(e.right, s1):
                    r = None
                    if a is not None and b is not None:
                        if isinstance(e.op, ast.Add):
                            r = add(a, b)
                        elif isinstance(e.op, ast.Sub):
                            r = sub_(a, b)
                        elif isinstance(e.op, ast.Mult):
                            r = mul(a, b)
                        elif isinstance(e.op, ast.FloorDiv) and b.op == "num" and b.a[0] > 0:
                            v = self.fresh("quot")
                            m = mul(num(b.a[0]), v)
                            s2 = s2.copy()
                            s2.F = s2.F.plus(sub_(a, m), sub_(add(m, num(b.a[0] - 1)), a))
                            r = v
                        elif isinstance(e.op, ast.Mod) and b is not None:
                            v = self.fresh("rem")
                            s2 = s2.copy()
                            s2.F = s2.F.plus(sub_(sub_(b, ONE), v))
                            if prove(a, s2.F):
                                s2.F = s2.F.plus(v)
                            r = v
                    out.append((s2, r))
            return out
        if isinstance(e, ast.UnaryOp):
            return [(s, None if v is None or not isinstance(e.op, ast.USub) else mul(num(-1), v)) for s, v in self.val(e.operand, st)]
        if isinstance(e, ast.Subscript):
            out = []
            for s, i in self.val(e.slice, st):
                out.append((s, self.load(e.value.id, i, s, e)))
            return out
        if isinstance(e, ast.IfExp):
            a = self.assume(e.test, st, True)
            b = self.assume(e.test, st, False)
            out = []
            for s in a:
                out += self.val(e.body, s)
            for s in b:
                out += self.val(e.orelse, s)
            return out
        if isinstance(e, (ast.Compare, ast.BoolOp)):
            self.touch(e, st)
            return [(st, None)]
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Name) and f.id in ("max", "min") and len(e.args) == 2:
                out = []
                for s1, a in self.val(e.args[0], st):
                    for s2, b in self.val(e.args[1], s1):
                        if a is None or b is None:
                            out.append((s2, None))
                            continue
                        d = sub_(a, b) if f.id == "max" else sub_(b, a)
                        x, y = s2.copy(), s2.copy()
                        x.F = x.F.plus(d)
                        y.F = y.F.plus(mul(num(-1), d))
                        out += [(x, a), (y, b)]
                return out
            if isinstance(f, ast.Name) and f.id == "int":
                return [(s, None) for s, _ in self.val(e.args[0], st)]
            if isinstance(f, ast.Name) and f.id not in ("abs", "int"):
                g = self.nat.find(f.id, self.cf.unit)
                if g is not None and g.func is not None:
                    return self.inline(g, e, st)
            for a in e.args:
                self.touch(a, st)
            return [(st, None)]
        return [(st, None)]

    def touch(self, e, st):
        """record the accesses of an expression whose value does not matter"""
        if isinstance(e, ast.Compare):
            for x in [e.left] + e.comparators:
                self.val(x, st)
        elif isinstance(e, ast.BoolOp):
            # later operands are evaluated under the earlier ones
            cur = [st]
            for x in e.values:
                for s in cur:
                    self.touch(x, s)
                cur = [y for s in cur for y in self.assume(x, s, isinstance(e.op, ast.And), quiet=True)]
        elif isinstance(e, ast.UnaryOp):
            self.touch(e.operand, st)
        else:
            self.val(e, st)

    def inline(self, g, e, st):
        if any(x is g for x in self.stack) or len(self.stack) > 6:
            self.unknown.append((getattr(e, "lineno", 0), "recursive call of " + g.name))
            return [(st, None)]
        params = [a.arg for a in g.func.node.args.args]
        sts = [(st, [])]
        for a in e.args:
            nxt = []
            for s, vs in sts:
                if isinstance(a, ast.Name) and a.id in self.arrays:
                    nxt.append((s, vs + [("array", self.arrays[a.id])]))
                else:
                    for s2, v in self.val(a, s):
                        nxt.append((s2, vs + [v]))
            sts = nxt
        out = []
        for s, vs in sts:
            env, arr = {}, {}
            for p, v in zip(params, vs):
                if isinstance(v, tuple):
                    arr[p] = v[1]
                else:
                    env[p] = v
            sv = (self.arrays, self.cf)
            self.arrays, self.cf = arr, g
            self.stack.append(g)
            rs = self.block(g.func.node.body, [State(env, s.F)])
            self.stack.pop()
            self.arrays, self.cf = sv
            for r in rs:
                out.append((State(s.env, r.F), r.env.get("$ret") if r.done == "return" else None))
        return out

    def index(self, name, i, st, e, write):
        a = self.arrays.get(name)
        if a is None:
            self.unknown.append((e.lineno, "access to " + name))
            return
        self.acc.append(Access(array=a, name=name, index=i, F=st.F, write=write, line=e.lineno, func=self.cf, par=self.par))

    def load(self, name, i, st, e):
        self.index(name, i, st, e, False)
        a = self.arrays.get(name)
        if a in self.element and i is not None:
            v = sym("#%s[%d]" % (a, i.id))
            for p in self.element[a](v):
                st.F = st.F.plus(p)
            return v
        return None

    # -- conditions
    def assume(self, t, st, truth, quiet=False):
        """states in which the condition has this truth value"""
        if not quiet:
            self.touch(t, st)
        return [s for s in self._assume(t, st.copy(), truth)]

    def _assume(self, t, st, truth):
        if isinstance(t, ast.Constant):
            return [st] if bool(t.value) == truth else []
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self._assume(t.operand, st, not truth)
        if isinstance(t, ast.BoolOp):
            conj = isinstance(t.op, ast.And) == truth
            if conj:
                cur = [st]
                for x in t.values:
                    cur = [y for s in cur for y in self._assume(x, s, truth)]
                return cur
            out = []
            pre = [st]
            for x in t.values:
                for s in pre:
                    out += self._assume(x, s.copy(), truth)
                pre = [y for s in pre for y in self._assume(x, s.copy(), not truth)]
            return out
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            acc = self.acc
            self.acc = []
            out = []
            for s, a in self.val(t.left, st):
                for s2, b in self.val(t.comparators[0], s):
                    out += self._rel(t.ops[0], a, b, s2.copy(), truth)
            self.acc = acc
            return out
        acc = self.acc
        self.acc = []
        vs = self.val(t, st)
        self.acc = acc
        out = []
        for s, v in vs:
            if v is None:
                out.append(s)
            elif truth:
                out.append(s)
            else:
                s = s.copy()
                s.F = s.F.plus(v, mul(num(-1), v))
                out.append(s)
        return out

    def _rel(self, op, a, b, st, truth):
        if a is None or b is None:
            return [st]
        o = type(op)
        if not truth:
            o = {ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}.get(o)
        d = sub_(a, b)
        n = mul(num(-1), d)
        if o is ast.Lt:
            f = [sub_(n, ONE)]
        elif o is ast.LtE:
            f = [n]
        elif o is ast.Gt:
            f = [sub_(d, ONE)]
        elif o is ast.GtE:
            f = [d]
        elif o is ast.Eq:
            f = [d, n]
        elif o is ast.NotEq:
            x, y = st.copy(), st.copy()
            x.F = x.F.plus(sub_(d, ONE))
            y.F = y.F.plus(sub_(n, ONE))
            return [x, y]
        else:
            f = []
        for q in f:
            if q.op == "num" and q.a[0] < 0:
                return []
        st.F = st.F.plus(*f)
        return [st]

    # -- statements
    def block(self, body, sts):
        out = []
        for s in body:
            nxt = []
            for st in sts:
                if st.done:
                    out.append(st)
                    continue
                nxt += self.stmt(s, st)
            sts = nxt
            if len(sts) > 48:
                sts = [self.joined(sts)]
        return out + sts

    def joined(self, sts):
        live = [s for s in sts if not s.done] or sts
        env = {}
        for k in live[0].env:
            vs = {s.env.get(k) for s in live}
            env[k] = vs.pop() if len(vs) == 1 else self.fresh(k)
        common = [f for f in live[0].F.facts if all(f in s.F.facts for s in live)]
        return State(env, Facts(live[0].F.nonneg, common))

    def stmt(self, s, st):
        if isinstance(s, ast.Assign):
            t = s.targets[0]
            out = []
            if isinstance(t, ast.Subscript):
                for s1, v in self.val(s.value, st):
                    for s2, i in self.val(t.slice, s1):
                        self.index(t.value.id, i, s2, t, True)
                        out.append(s2)
                return out
            for s1, v in self.val(s.value, st):
                s1 = s1.copy()
                s1.env[t.id] = v
                out.append(s1)
            return out
        if isinstance(s, ast.Expr):
            return [x for x, _ in self.val(s.value, st)]
        if isinstance(s, ast.If):
            self.touch(s.test, st)
            a = self.block(s.body, self.assume(s.test, st, True, True))
            b = self.block(s.orelse, self.assume(s.test, st, False, True))
            return a + b
        if isinstance(s, ast.For):
            return self.for_(s, st)
        if isinstance(s, ast.While):
            return self.while_(s, st)
        if isinstance(s, ast.Return):
            out = []
            for s1, v in (self.val(s.value, st) if s.value is not None else [(st, None)]):
                s1 = s1.copy()
                s1.done = "return"
                s1.env["$ret"] = v
                out.append(s1)
            return out
        if isinstance(s, (ast.Break, ast.Continue)):
            st = st.copy()
            st.done = "break" if isinstance(s, ast.Break) else "continue"
            return [st]
        return [st]

    def havoc(self, body, st, skip=()):
        """state at the head of an arbitrary iteration"""
        st = st.copy()
        for v, d in changes(body).items():
            if v in skip or v not in st.env:
                continue
            old = st.env[v]
            f = self.fresh(v)
            st.env[v] = f
            if old is None:
                st.env[v] = None
            elif d == "up":
                st.F = st.F.plus(sub_(f, old))
            elif d == "down":
                st.F = st.F.plus(sub_(old, f))
        return st

    def after(self, body, st, more=()):
        st = self.havoc(body, st)
        for v in more:
            st.env[v] = self.fresh(v)
        return st

    def for_(self, s, st):
        v = s.target.id
        a = s.iter.args
        out = []
        lo_e, hi_e = (ast.Constant(0), a[0]) if len(a) == 1 else (a[0], a[1])
        step = a[2].value if len(a) > 2 and isinstance(a[2], ast.Constant) else (-a[2].operand.value if len(a) > 2 else 1)
        for s1, lo in self.val(lo_e, st):
            for s2, hi in self.val(hi_e, s1):
                b = self.havoc(s.body, s2)
                k = self.fresh(v)
                b.env[v] = k
                if lo is not None and hi is not None:
                    if step > 0:
                        b.F = b.F.plus(sub_(k, lo), sub_(sub_(hi, ONE), k))
                    else:
                        b.F = b.F.plus(sub_(lo, k), sub_(k, add(hi, ONE)))
                region = None
                if getattr(s, "omp", None) is not None:
                    region = dict(node=s, omp=s.omp, var=k, name=v, first=len(self.acc), func=self.cf)
                    self.par = region
                res = self.block(s.body, [b])
                if region is not None:
                    region["accesses"] = self.acc[region["first"]:]
                    self.regions.append(region)
                    self.par = None
                out += [self._ret(r) for r in res if r.done == "return"]
                out.append(self.after(s.body, s2, (v,)))
        return out

    def _ret(self, r):
        return r

    def while_(self, s, st):
        h = self.havoc(s.body, st)
        self.touch(s.test, h)
        res = self.block(s.body, self.assume(s.test, h, True, True))
        out = [r for r in res if r.done == "return"]
        e = self.havoc(s.body, st)
        out += self.assume(s.test, e, False, True)
        for r in res:
            if r.done == "break":
                r = r.copy()
                r.done = None
                out.append(r)
        return out


def changes(body):
    """variables assigned in a loop body: 'up'/'down' if only ever moved by a constant"""
    out = {}
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.For):
                out[n.target.id] = "any"
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                v = n.targets[0].id
                e = n.value
                d = "any"
                if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)) and isinstance(e.left, ast.Name) and e.left.id == v \
                        and isinstance(e.right, ast.Constant) and isinstance(e.right.value, int) and e.right.value >= 0:
                    d = "up" if isinstance(e.op, ast.Add) else "down"
                out[v] = d if out.get(v, d) == d else "any"
    return out


# ---------------------------------------------------------------------- OpenMP
def shared_scalars(u, d):
    """variables declared outside an OpenMP loop, assigned inside it, by data-sharing class"""
    kinds, cl = clauses(u.text(d))
    body = next((x for x in d.get("inner", []) if x.get("kind") == "CapturedStmt"), None)
    declared, written, statics = set(), {}, set()
    loopvars = set()

    def name_of(n):
        n = strip(n)
        return n["referencedDecl"] if n["kind"] == "DeclRefExpr" else None

    def walk(n, crit=False):
        if not n or "kind" not in n:
            return
        k = n["kind"]
        if k == "VarDecl":
            if n.get("storageClass") == "static":
                statics.add(n["name"])
            else:
                declared.add(n["id"])
        if k in ("BinaryOperator", "CompoundAssignOperator") and n["opcode"].endswith("=") and n["opcode"] not in ("==", "<=", ">=", "!="):
            r = name_of(n["inner"][0])
            if r is not None:
                written.setdefault((r["id"], r["name"]), (u.nline(n), r.get("type", {}).get("qualType", ""), n["opcode"]))
        if k == "UnaryOperator" and n["opcode"] in ("++", "--"):
            r = name_of(n["inner"][0])
            if r is not None:
                written.setdefault((r["id"], r["name"]), (u.nline(n), r.get("type", {}).get("qualType", ""), n["opcode"]))
        for c in n.get("inner", []):
            walk(c, crit)

    walk(body)
    top = body
    depth = 1
    for c in cl.get("collapse", []):
        depth = int(c)
    n = body["inner"][0]["inner"][0] if body and body.get("inner") else None
    for _ in range(depth):
        while n and n.get("kind") in ("CompoundStmt", "CapturedStmt", "CapturedDecl"):
            n = n["inner"][0]
        if n and n.get("kind") == "ForStmt":
            i = n["inner"][0]
            if i and i.get("kind") == "BinaryOperator":
                r = name_of(i["inner"][0])
                if r is not None:
                    loopvars.add(r["name"])
            if i and i.get("kind") == "DeclStmt":
                loopvars |= {v["name"] for v in i["inner"] if v.get("kind") == "VarDecl"}
            n = n["inner"][-1]

    def names(*cs):
        out = set()
        for c in cs:
            for a in cl.get(c, []):
                a = a.split(":", 1)[1] if c in ("reduction",) and ":" in a else a.split(":")[0]
                out |= {x.strip() for x in a.split(",")}
        return out

    private = names("private", "firstprivate", "lastprivate", "linear")
    reduction = names("reduction")
    shared = []
    for (i, nm), (line, q, op) in written.items():
        if i in declared or nm in loopvars or nm in private:
            continue
        shared.append((nm, line, q, nm in reduction))
    return dict(kinds=kinds, clauses=cl, shared=shared, statics=statics, private=private, reduction=reduction, loopvars=loopvars,
                written={n for i, n in written if i not in declared})


def carried(body, names):
    """variables of `names` that an iteration may read before it sets them"""
    bad = {}

    def reads(e, da):
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names and n.id not in da:
                bad.setdefault(n.id, getattr(n, "lineno", 0))

    def go(stmts, da):
        for s in stmts:
            if isinstance(s, ast.Assign):
                reads(s.value, da)
                t = s.targets[0]
                if isinstance(t, ast.Name):
                    da = da | {t.id}
                else:
                    reads(t.slice, da)
            elif isinstance(s, ast.If):
                reads(s.test, da)
                a, b = go(s.body, da), go(s.orelse, da)
                da = a & b
            elif isinstance(s, ast.For):
                reads(s.iter, da)
                go(s.body, da | {s.target.id})
            elif isinstance(s, ast.While):
                reads(s.test, da)
                go(s.body, da)
            elif isinstance(s, ast.Expr):
                reads(s.value, da)
            elif isinstance(s, (ast.Continue, ast.Break, ast.Return)):
                return ALL
        return da

    class _All(frozenset):
        def __and__(self, o):
            return o

        def __rand__(self, o):
            return o

        def __or__(self, o):
            return self

        def __contains__(self, x):
            return True

    ALL = _All()
    go(body, frozenset())
    return bad


def disjoint(region):
    """is every element touched by one iteration only? list of (access, why)"""
    p = region["var"]
    out = []
    written = {a.array for a in region["accesses"] if a.write}
    for arr in written:
        K = None
        for a in region["accesses"]:
            if a.array != arr:
                continue
            if a.index is None:
                out.append((a, "the index is not a polynomial of the loop variables", None))
                continue
            r = lin(a.index, p)
            if r is None:
                out.append((a, "the index is not linear in the parallel variable", None))
                continue
            k, rest = r
            if k is ZERO:
                out.append((a, "every iteration touches the same element", False))
                continue
            if K is None:
                K = k
            if K is not k:
                out.append((a, "iterations are spaced differently at different accesses", None))
                continue
            if rest is ZERO and K.op == "num" and K.a[0] != 0:
                continue
            if prove(rest, a.F) and prove(sub_(sub_(K, ONE), rest), a.F):
                continue
            if K.op == "num" and not atoms(rest) and all(
                    lin(b.index, p) is not None and lin(b.index, p)[1] is rest for b in region["accesses"] if b.array == arr and b.index is not None):
                continue
            out.append((a, "elements of neighbouring iterations may overlap", False if K.op == "num" or prove(rest, a.F) or atoms(rest) else None))
    return out
