"""
Value-number terms: a hash-consed normal form for the values QuakeMigrate
computes.

Every value the analysed source computes is represented by an interned term.
Two expressions that are equal in the algebra below get the *same* term, however
they are spelled in the source: arithmetic is kept as a polynomial normal form
over opaque atoms, comparisons as a sign-normalised polynomial, and/or/not are
flattened and sorted, string formatting is reduced to a list of pieces, paths to
a list of components, list building to (count, element, filter) triples.

Nothing here executes the analysed program.
"""

from fractions import Fraction


class T:
    __slots__ = ("op", "a", "id", "_d")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id

    def __bool__(self):
        raise TypeError("term used as python bool: " + show(self))


_table = {}
_n = [0]


def _has_ref(a):
    for x in a:
        if isinstance(x, T):
            if x._d:
                return True
        elif isinstance(x, tuple):
            if _has_ref(x):
                return True
    return False


def mk(op, *a):
    if op == "slice":
        a = _slice(*a)
    elif op == "sub" and a[1].op == "num" and a[0].op == "sub" and a[0].a[1].op == "slice":
        # an element of a part is an element of the whole
        lo, hi, st = a[0].a[1].a
        lo = 0 if lo is NONE else lo.a[0] if lo.op == "num" else -1
        if (st is NONE or st is ONE) and a[1].a[0] >= 0 <= lo and (hi is NONE or hi.op == "num" and hi.a[0] > lo + a[1].a[0]):
            return mk("sub", a[0].a[0], num(lo + a[1].a[0]))
    key = (op,) + a
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        _n[0] += 1
        t.id = _n[0]
        t._d = op == "ref" or _has_ref(a)
        _table[key] = t
    return t


class _K:
    """Typed constant payload, so that 1, 1.0 and True do not collide."""

    __slots__ = ("v", "k")

    def __init__(self, v):
        self.v = v
        self.k = (type(v).__name__, v)

    def __hash__(self):
        return hash(self.k)

    def __eq__(self, o):
        return self.k == o.k

    def __repr__(self):
        return repr(self.v)


def const(v):
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)):
        return mk("const", _K(v))
    if isinstance(v, (int, Fraction)):
        return num(v)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return mk("const", _K(repr(v) + "f"))
        return num(Fraction(repr(v)))
    if isinstance(v, complex):
        return mk("const", _K(v))
    if v is Ellipsis:
        return mk("const", _K("..."))
    raise TypeError(type(v))


def num(v):
    return mk("num", Fraction(v))


ZERO = num(0)
ONE = num(1)
TRUE = const(True)
FALSE = const(False)
NONE = const(None)
INF = const(float("inf"))
NAN = const(float("nan"))


def sym(name):
    return mk("sym", name)


def ext(dotted):
    return mk("ext", dotted)


def is_const(t):
    return t.op in ("const", "num")


def cval(t):
    """Python value of a constant term."""
    if t.op == "num":
        f = t.a[0]
        return int(f) if f.denominator == 1 else float(f)
    return t.a[0].v


def is_str(t):
    return t.op == "const" and isinstance(t.a[0].v, str)


def is_num(t):
    return t.op == "num"


# --------------------------------------------------------------------------
# polynomials: mk("poly", ((mono, coeff), ...)); mono = ((atom, exp), ...)
# --------------------------------------------------------------------------
def poly_items(t):
    """term -> dict mono -> Fraction"""
    if t.op == "num":
        return {(): t.a[0]} if t.a[0] != 0 else {}
    if t.op == "poly":
        return dict(t.a[0])
    return {((t, Fraction(1)),): Fraction(1)}


def _slice(lo, hi, step):
    """x[0:n:1] is x[:n]"""
    if step is ONE:
        step = NONE
    if lo is ZERO and step is NONE:
        lo = NONE
    return lo, hi, step


def mk_poly(items):
    items = {m: c for m, c in items.items() if c != 0}
    if not items:
        return ZERO
    if len(items) == 1:
        ((m, c),) = items.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    key = tuple(
        sorted(items.items(), key=lambda mc: [(a.id, e) for a, e in mc[0]])
    )
    return mk("poly", key)


def add(*ts):
    out = {}
    for t in ts:
        for m, c in poly_items(t).items():
            out[m] = out.get(m, Fraction(0)) + c
    return mk_poly(out)


def neg(t):
    return mk_poly({m: -c for m, c in poly_items(t).items()})


def sub_(a, b):
    return add(a, neg(b))


def _mono_mul(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, Fraction(0)) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda x: x[0].id))


def mul(*ts):
    out = {(): Fraction(1)}
    for t in ts:
        it = poly_items(t)
        if len(it) * len(out) > 64:
            # too large to expand: keep the factor opaque
            it = {((t, Fraction(1)),): Fraction(1)}
        new = {}
        for m1, c1 in out.items():
            for m2, c2 in it.items():
                m = _mono_mul(m1, m2)
                new[m] = new.get(m, Fraction(0)) + c1 * c2
        out = new
    return _reexpand(out)


def _reexpand(items):
    """A poly-atom with positive integer exponent 1.. is multiplied out."""
    for m in list(items):
        for a, e in m:
            if a.op == "poly" and e.denominator == 1 and 0 < e <= 3:
                if len(a.a[0]) > 6:
                    continue
                c = items.pop(m)
                rest = tuple(x for x in m if x[0] is not a)
                base = mk_poly({rest: c})
                p = mk_poly(items)
                for _ in range(int(e)):
                    base = mul(base, a)
                return add(p, base)
    return mk_poly(items)


def power(t, e):
    e = Fraction(e)
    if e == 1:
        return t
    if e == 0:
        return ONE
    it = poly_items(t)
    if t.op == "num":
        v = t.a[0]
        if e.denominator == 1 and (v != 0 or e > 0):
            return num(v ** int(e))
        return mk_poly({((t, e),): Fraction(1)})
    if len(it) == 1:
        ((m, c),) = it.items()
        if e.denominator == 1:
            mm = tuple((a, x * e) for a, x in m)
            return _reexpand({mm: c ** int(e)})
        if c == 1:
            return mk_poly({tuple((a, x * e) for a, x in m): Fraction(1)})
        if c > 0:
            return mk_poly(
                {
                    _mono_mul(
                        tuple((a, x * e) for a, x in m), ((num(c), e),)
                    ): Fraction(1)
                }
            )
    if e.denominator == 1 and 1 < e <= 3 and len(it) <= 6:
        r = t
        for _ in range(int(e) - 1):
            r = mul(r, t)
        return r
    # factor out the content so that (2a+2b)^-1 == 1/2*(a+b)^-1
    if e.denominator == 1:
        lead = it[sorted(it, key=lambda m: [(a.id, x) for a, x in m])[0]]
        if lead != 1 and len(it) > 1:
            t2 = mk_poly({m: c / lead for m, c in it.items()})
            return mk_poly({((t2, e),): lead ** int(e)})
    return mk_poly({((t, e),): Fraction(1)})


def div(a, b):
    if a is b and not is_const(a):
        return ONE
    if b.op == "num" and b.a[0] == 0:
        return mk("call", ext("op.div0"), (a,), ())
    return mul(a, power(b, -1))


# --------------------------------------------------------------------------
# booleans
# --------------------------------------------------------------------------
def _number(t):
    """a number, or one of several numbers as conditions have it"""
    if t.op == "poly":
        return all(len(m) <= 1 and all(e == 1 and _number(x) for x, e in m) for m in poly_items(t))
    return t.op == "num" or t.op == "ite" and _number(t.a[1]) and _number(t.a[2])


def _cases(p, f):
    """a comparison of a sum of numbers chosen by conditions, decided case by case"""
    it = poly_items(p)
    if len(it) > 8:
        return None
    pick = None
    for m in it:
        if m == ():
            continue
        if len(m) != 1 or m[0][1] != 1 or m[0][0].op != "ite" or not _number(m[0][0]):
            return None
        pick = pick or m
    if pick is None:
        return None
    x, k = pick[0][0], it.pop(pick)
    rest = mk_poly(it)
    a, b = (f(add(rest, mul(num(k), y))) for y in x.a[1:3])
    return or_(and_(x.a[0], a), and_(not_(x.a[0]), b))


def lt0(p):
    """p < 0"""
    if p.op == "num":
        return const(p.a[0] < 0)
    r = _cases(p, lt0)
    if r is not None:
        return r
    p = _scale(p)
    n = _emptiness(p)
    if n is not None:
        return n
    return mk("lt0", p)


def _emptiness(p):
    """-len(x) < 0 and len(x) - 1 < 0 as len(x) == 0 or not"""
    it = poly_items(p)
    if len(it) > 2:
        return None
    for m, c in it.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "call" and m[0][0].a[0] is ext("len"):
            rest = [v for k, v in it.items() if k is not m and k != m]
            if c == -1 and not rest:
                return not_(eq(m[0][0], ZERO))
            if c > 0 and rest and 0 < -rest[0] <= c and all(k == () or k == m for k in it):
                return eq(m[0][0], ZERO)
    return None


def le0(p):
    if p.op == "num":
        return const(p.a[0] <= 0)
    r = _cases(p, le0)
    if r is not None:
        return r
    p = _scale(p)
    n = _emptiness(neg(p))
    if n is not None:
        return not_(n)
    return mk("le0", p)


def _scale(p):
    """divide by |leading coefficient| (positive scaling keeps the sign)"""
    it = poly_items(p)
    if not it:
        return p
    lead = it[sorted(it, key=lambda m: [(a.id, e) for a, e in m])[0]]
    s = abs(lead)
    if s == 1:
        return p
    return mk_poly({m: c / s for m, c in it.items()})


def lt(a, b):
    return lt0(sub_(a, b))


def le(a, b):
    return le0(sub_(a, b))


def _nonnumeric(t):
    return (t.op == "const") or t.op in ("fmt", "list", "tuple", "dict", "path")


def eq(a, b):
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        try:
            return const(bool(cval(a) == cval(b)))
        except Exception:
            pass
    for x, y in ((a, b), (b, a)):
        if x is TRUE and _boolish(y):
            return y
        if x is FALSE and _boolish(y):
            return not_(y)
    if _boolish(a) and _boolish(b):
        return or_(and_(a, b), and_(not_(a), not_(b)))
    for x, y in ((a, b), (b, a)):
        if x.op == "tuple" and y.op == "tuple" and not any(
            z.op in ("star", "flat") for z in (*x.a[0], *y.a[0])
        ):
            if len(x.a[0]) != len(y.a[0]):
                return FALSE
            return and_(*[eq(p, q) for p, q in zip(x.a[0], y.a[0])])
        if x.op == "tuple" and y.op == "ite" and "tuple" in (y.a[1].op, y.a[2].op):
            c, p, q = y.a
            return or_(and_(c, eq(x, p)), and_(not_(c), eq(x, q)))
    if _nonnumeric(a) or _nonnumeric(b):
        x, y = sorted((a, b), key=lambda t: t.id)
        return mk("eq", x, y)
    return eq0(sub_(a, b))


def eq0(p):
    """p == 0"""
    if p.op == "num":
        return const(p.a[0] == 0)
    r = _cases(p, eq0)
    if r is not None:
        return r
    it = poly_items(p)
    lead = it[sorted(it, key=lambda m: [(x.id, e) for x, e in m])[0]]
    p = mk_poly({m: c / lead for m, c in it.items()})
    return mk("eq0", p)


def absolute(p):
    """|p|, the same for p and -p"""
    if p.op == "num":
        return num(abs(p.a[0]))
    it = poly_items(p)
    lead = it[sorted(it, key=lambda m: [(x.id, e) for x, e in m])[0]]
    return mk("call", ext("abs"), (neg(p) if lead < 0 else p,), ())


_neg_cache = {}


def not_(t):
    r = _neg_cache.get(t)
    if r is None:
        r = _not(t)
        _neg_cache[t] = r
        if r.op not in ("ite", "const", "num") and t.op not in ("const", "num"):
            _neg_cache.setdefault(r, t)
    return r


def _not(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t is NONE:
        return TRUE
    if t.op == "num":
        return const(t.a[0] == 0)
    if t.op == "not":
        return t.a[0]
    if t.op == "lt0":
        return le0(neg(t.a[0]))
    if t.op == "le0":
        return lt0(neg(t.a[0]))
    if t.op == "and":
        return or_(*[not_(x) for x in t.a[0]])
    if t.op == "or":
        return and_(*[not_(x) for x in t.a[0]])
    if t.op == "ite":
        return ite(t.a[0], not_(t.a[1]), not_(t.a[2]))
    return mk("not", t)


def truth(t):
    """python truthiness of a term, where known"""
    if t.op == "const":
        v = t.a[0].v
        if isinstance(v, str) and v in ("inff", "-inff", "nanf"):
            return TRUE
        return const(bool(v))
    if t.op == "num":
        return const(t.a[0] != 0)
    if t.op in ("list", "tuple", "dict"):
        return const(len(t.a[0]) > 0)
    if t.op == "call" and t.a[0] is ext("len"):
        return not_(eq(t, ZERO))
    if t.op == "call" and (
        t.a[0].op == "ext" and t.a[0].a[0] in ("os.listdir", "glob.glob", "sorted")
        or t.a[0].op == "meth" and t.a[0].a[1] in ("select", "slice")
    ):
        return not_(eq(mk("call", ext("len"), (t,), ()), ZERO))
    if t.op == "concat" and any(_listlike(x) for x in t.a[0]):
        return or_(*[truth(x) for x in t.a[0]])
    if t.op == "map" and t.a[1] is not TRUE:
        return not_(eq(mk("call", ext("len"), (t,), ()), ZERO))
    if t.op == "ite":
        return or_(and_(t.a[0], truth(t.a[1])), and_(not_(t.a[0]), truth(t.a[2])))
    return t


def _listlike(t):
    return t.op in ("list", "tuple") or t.op == "concat" and any(_listlike(x) for x in t.a[0]) or t.op == "ite" and (_listlike(t.a[1]) or _listlike(t.a[2]))


_and_cache = {}
_or_cache = {}


def and_(*ts):
    key = frozenset(ts)
    r = _and_cache.get(key)
    if r is None:
        r = _and(ts)
        _and_cache[key] = r
    return r


def or_(*ts):
    key = frozenset(ts)
    r = _or_cache.get(key)
    if r is None:
        r = _or(ts)
        _or_cache[key] = r
    return r


def _valued(p):
    """p == 0 as "a quantity has a value": both, the quantity without constant"""
    it = poly_items(p)
    rest = {m: c for m, c in it.items() if m}
    if not rest:
        return None, None
    lead = rest[sorted(rest, key=lambda m: [(x.id, e) for x, e in m])[0]]
    return mk_poly({m: c / lead for m, c in rest.items()}), num(-it.get((), 0) / lead)


def _exclusive(s, positive):
    """x == 'a' excludes x == 'b': drop what follows from it; None if contradictory

    positive: members of s hold together; otherwise their negations do."""
    have = {}
    others = []
    for t in s:
        neg = t.op == "not"
        e = t.a[0] if neg else t
        if e.op == "eq0":
            a, b = _valued(e.a[0])
            if a is None:
                continue
        elif e.op == "eq":
            a, b = e.a
            if is_str(a):
                a, b = b, a
            if not is_str(b) or is_str(a):
                continue
        else:
            continue
        if neg != positive:
            if have.setdefault(a, b) is not b:
                return None
        else:
            others.append((t, a, b))
    for t, a, b in others:
        if have.get(a, b) is not b:
            s.discard(t)
    return s


def _and(ts):
    s = set()
    for t in ts:
        if t.op == "and":
            s.update(t.a[0])
        else:
            s.add(truth(t))
    s.discard(TRUE)
    if FALSE in s:
        return FALSE
    for t in s:
        if not_(t) in s:
            return FALSE
    if _exclusive(s, True) is None:
        return FALSE
    # unit resolution: a & (~a | b) -> a & b ; absorption a & (a|b) -> a
    changed = True
    while changed:
        changed = False
        for t in list(s):
            if t.op == "or":
                if any(x in s for x in t.a[0]):
                    s.discard(t)
                    changed = True
                    break
                keep = [x for x in t.a[0] if not_(x) not in s]
                if len(keep) != len(t.a[0]):
                    s.discard(t)
                    n = or_(*keep) if keep else FALSE
                    if n is FALSE:
                        return FALSE
                    if n.op == "and":
                        s.update(n.a[0])
                    else:
                        s.add(n)
                    s.discard(TRUE)
                    changed = True
                    break
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s))
    return mk("and", tuple(sorted(s, key=lambda t: t.id)))


def _or(ts):
    s = set()
    for t in ts:
        if t.op == "or":
            s.update(t.a[0])
        else:
            s.add(truth(t))
    s.discard(FALSE)
    if TRUE in s:
        return TRUE
    for t in s:
        if not_(t) in s:
            return TRUE
    if _exclusive(s, False) is None:
        return TRUE
    changed = True
    while changed:
        changed = False
        for t in list(s):
            if t.op == "and":
                if any(x in s for x in t.a[0]):
                    s.discard(t)
                    changed = True
                    break
                keep = [x for x in t.a[0] if not_(x) not in s]
                if len(keep) != len(t.a[0]):
                    s.discard(t)
                    n = and_(*keep) if keep else TRUE
                    if n is TRUE:
                        return TRUE
                    if n.op == "or":
                        s.update(n.a[0])
                    else:
                        s.add(n)
                    s.discard(FALSE)
                    changed = True
                    break
        # (a & b) | (a & ~b) -> a
        if not changed:
            ands = [t for t in s if t.op == "and"]
            for i in range(len(ands)):
                for j in range(i + 1, len(ands)):
                    x, y = set(ands[i].a[0]), set(ands[j].a[0])
                    dx, dy = x - y, y - x
                    if len(dx) == 1 and len(dy) == 1:
                        if not_(next(iter(dx))) is next(iter(dy)):
                            s.discard(ands[i])
                            s.discard(ands[j])
                            n = and_(*(x & y)) if x & y else TRUE
                            if n is TRUE:
                                return TRUE
                            if n.op == "or":
                                s.update(n.a[0])
                            else:
                                s.add(n)
                            changed = True
                            break
                if changed:
                    break
    if not s:
        return FALSE
    if len(s) == 1:
        return next(iter(s))
    return mk("or", tuple(sorted(s, key=lambda t: t.id)))


def _boolish(t):
    return t.op in ("lt0", "le0", "eq", "eq0", "not", "and", "or", "is", "in", "exc") or (
        t is TRUE or t is FALSE
    )


def _masks(t):
    return _masks(t.a[1]) and _masks(t.a[2]) if t.op == "ite" else _boolish(t)


def _under(d, c):
    """the condition d, where c is known to hold"""
    known = set(c.a[0]) if c.op == "and" else {c}
    if d in known:
        return TRUE
    if not_(d) in known:
        return FALSE
    if d.op in ("and", "or"):
        join = and_ if d.op == "and" else or_
        keep = []
        for x in d.a[0]:
            if x in known:
                x = TRUE
            elif not_(x) in known:
                x = FALSE
            keep.append(x)
        if any(x is TRUE or x is FALSE for x in keep):
            return join(*keep)
    return d


def _branch(t, c):
    """the value t, where c is known to hold"""
    d = _under(t.a[0], c)
    return t if d is t.a[0] else ite(d, t.a[1], t.a[2])


def ite(c, a, b):
    c = truth(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.a[0], b, a)
    if c.op == "le0":
        return ite(not_(c), b, a)
    if c.op in ("or",):
        n = not_(c)
        if n.op == "and":
            return ite(n, b, a)
    if c.op == "in" and a.op == "sub" and a.a[1] is c.a[0] and a.a[0] is c.a[1] and (
        a.a[0].op in ("sym", "row") and is_str(c.a[0]) or a.a[0].op == "attr" and not is_str(c.a[0])
    ):
        # the entry if there is one, else something: get
        return mk("kwget", c.a[1], c.a[0].a[0].v if is_str(c.a[0]) else c.a[0], b)
    if a.op == b.op == "setitem" and a.a[0] is b.a[0] and a.a[1] is b.a[1] and is_str(a.a[1]) and _masks(a.a[2]) and _masks(b.a[2]):
        return mk("setitem", a.a[0], a.a[1], ite(c, a.a[2], b.a[2]))
    if a.op == "ite" and a.a[0] is c:
        a = a.a[1]
    if b.op == "ite" and b.a[0] is c:
        b = b.a[2]
    for x, y, k in ((a, b, c), (b, a, not_(c))):
        # replacing what does not occur changes nothing
        if y.op == "call" and y.a[0].op == "meth" and y.a[0].a[1] == "replace" and y.a[0].a[0] is x and len(y.a[1]) == 2 and not y.a[2]:
            if not_(mk("in", y.a[1][0], x)) in (k.a[0] if k.op == "and" else (k,)):
                return y
    if a.op == "ite":
        d = _under(a.a[0], c)
        if d is not a.a[0]:
            return ite(c, ite(d, a.a[1], a.a[2]), b)
    if b.op == "ite":
        d = _under(b.a[0], not_(c))
        if d is not b.a[0]:
            return ite(c, a, ite(d, b.a[1], b.a[2]))
    # ite(c, ite(d, x, y), y) -> ite(c&d, x, y)
    if a.op == "ite" and a.a[2] is b:
        return ite(and_(c, a.a[0]), a.a[1], b)
    if b.op == "ite" and b.a[1] is a:
        return ite(or_(c, b.a[0]), a, b.a[2])
    if a.op == "ite" and a.a[1] is b:
        return ite(and_(c, not_(a.a[0])), a.a[2], b)
    if b.op == "ite" and b.a[2] is a:
        return ite(and_(not_(c), b.a[0]), b.a[1], a)
    if a.op == "ite" and b.op == "ite":
        # the same, where one of the alternatives was simplified by what is known there
        d = a.a[0]
        if _branch(b, not_(d)) is a.a[2]:
            return ite(and_(c, d), a.a[1], b)
        if _branch(b, d) is a.a[1]:
            return ite(and_(c, not_(d)), a.a[2], b)
        d = b.a[0]
        if _branch(a, d) is b.a[1]:
            return ite(or_(c, d), a, b.a[2])
        if _branch(a, not_(d)) is b.a[2]:
            return ite(and_(not_(c), d), b.a[1], a)
    if a is b:
        return a
    if c.op in ("lt0", "le0") and (a.op in ("setitem", "upd") or b.op in ("setitem", "upd")):
        r = _bounded(c, a, b)
        if r is None:
            r = _bounded(not_(c), b, a)
        if r is not None:
            return r
    if a.op == "tuple" and b.op == "tuple" and len(a.a[0]) == len(b.a[0]):
        return mk("tuple", tuple(ite(c, x, y) for x, y in zip(a.a[0], b.a[0])))
    if a is TRUE and (b is FALSE):
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if _boolish(a) and _boolish(b):
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
    if c.op == "lt0" and (a.op == "phi" and _value(b) or b.op == "phi" and _value(a)):
        # a running extreme: a < b ? b : a
        d = sub_(a, b)
        if c is lt0(d):
            return minmax("min", (a, b))
        if c is lt0(neg(d)):
            return minmax("max", (a, b))
    return mk("ite", c, a, b)


def _value(t):
    return t.op in ("num", "poly", "sub", "call", "attr", "sym", "phi", "ite")


def _bounded(c, a, b):
    """a bound stored in place of what goes beyond it"""
    if a.op == "upd" and a.a[0] is b:
        old = b
        for op, k in a.a[1]:
            old = mk(op, old, k)
        r = _bounded(c, a.a[2], old)
        return None if r is None else mk("upd", b, a.a[1], r)
    if a.op == "setitem" and a.a[0] is b:
        old, v = mk("sub", b, a.a[1]), a.a[2]
        for x, y, f in ((old, v, "max"), (v, old, "min")):
            if c is lt(x, y) or c is le(x, y):
                return mk("setitem", b, a.a[1], minmax(f, [old, v]))
    return None


def minmax(name, xs):
    flat = set()
    for x in xs:
        if x.op == "call" and x.a[0] is ext(name) and not x.a[2] and len(x.a[1]) > 1:
            flat.update(x.a[1])
        else:
            flat.add(x)
    nums = [x for x in flat if x.op == "num"]
    if len(nums) > 1:
        f = (min if name == "min" else max)(nums, key=lambda x: x.a[0])
        flat -= set(nums)
        flat.add(f)
    if len(flat) == 1:
        return next(iter(flat))
    return mk("call", ext(name), tuple(sorted(flat, key=lambda t: t.id)), ())


def assume(t, lits, _memo=None):
    """Simplify t under a set of literals assumed true."""
    if not lits:
        return t
    memo = {} if _memo is None else _memo
    negs = memo.get("negs")
    if negs is None:
        negs = {not_(x) for x in lits}
        memo["negs"] = negs

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x in lits:
            r = TRUE if (_boolish(x)) else x
        elif x in negs:
            r = FALSE if (_boolish(x)) else x
        elif x.op == "ite":
            c = x.a[0]
            cs = c.a[0] if c.op == "and" else (c,)
            if all(y in lits for y in cs):
                r = go(x.a[1])
            elif any(y in negs for y in cs):
                r = go(x.a[2])
            else:
                r = ite(c, go(x.a[1]), go(x.a[2]))
        else:
            r = x
        memo[x] = r
        return r

    return go(t)


# --------------------------------------------------------------------------
def is_(a, b):
    if a is b:
        return TRUE
    if a.op in NEVER_NONE and b is NONE:
        return FALSE
    if b.op in NEVER_NONE and a is NONE:
        return FALSE
    if is_const(a) and is_const(b):
        return FALSE
    if (a is NONE and _given(b)) or (b is NONE and _given(a)):
        return FALSE
    x, y = sorted((a, b), key=lambda t: t.id)
    for p, q in ((a, b), (b, a)):
        if p.op == "ite" and is_const(q):
            return ite(p.a[0], is_(p.a[1], q), is_(p.a[2], q))
    return mk("is", x, y)


def _given(t):
    """an analysis parameter that stands for a supplied (non-None) value"""
    return t.op == "sym" and t.a[0].isupper()


NEVER_NONE = {
    "num", "poly", "fmt", "path", "list", "tuple", "dict", "set", "ref", "func",
    "cls", "lt0", "le0", "eq", "eq0", "and", "or", "not", "map", "concat", "slice",
    "ext", "row", "object",
}


def in_(a, b):
    if b.op in ("list", "tuple", "set") and is_const(a):
        if all(is_const(x) for x in b.a[0]):
            return const(any(a is x for x in b.a[0]))
    if b.op in ("list", "tuple", "set"):
        b = mk("set", tuple(sorted(set(b.a[0]), key=lambda t: t.id)))
        if len(b.a[0]) == 1:
            return eq(a, b.a[0][0])
        if not b.a[0]:
            return FALSE
        if len(b.a[0]) <= 4:
            return or_(*[eq(a, x) for x in b.a[0]])
    if b.op == "dict":
        ks = [k for k, _ in b.a[0]]
        if is_const(a) and all(is_const(k) for k in ks):
            return const(any(k is a for k in ks))
        return in_(a, mk("tuple", tuple(ks)))
    if b.op == "call" and b.a[0] is ext("dict.keys") :
        b = b.a[1][0]
    if b.op == "sub" and b.a[0].op == "call" and b.a[0].a[0].op == "ext" and b.a[0].a[0].a[0] in _ARRAYS:
        # an element of an array
        return mk("call", ext("numpy.any"), (eq(b, a),), ())
    return mk("in", a, b)


_ARRAYS = ("numpy.split", "numpy.where", "numpy.array_split")


# --------------------------------------------------------------------------
# strings and paths
# --------------------------------------------------------------------------
_TEXT = ("strftime", "isoformat", "zfill", "ljust", "rjust", "lower", "upper", "capitalize", "rstrip", "lstrip", "title")


def texty(t):
    """certainly text"""
    if t.op == "sub" and t.a[1].op == "slice":
        return texty(t.a[0])
    return t.op == "call" and t.a[0].op == "meth" and t.a[0].a[1] in _TEXT


def fmt(parts):
    """parts: list of str | (term, conv/spec string)"""
    out = []
    for p in parts:
        if isinstance(p, T):
            p = (p, "")
        if isinstance(p, tuple):
            t, spec = p
            if spec == "" and t.op == "fmt":
                for q in t.a[0]:
                    _app(out, q)
                continue
            if spec == "" and is_str(t):
                _app(out, t.a[0].v)
                continue
            if spec == "" and t.op == "num" and t.a[0].denominator == 1:
                _app(out, str(int(t.a[0])))
                continue
            if spec == "" and t.op == "call" and t.a[0] is ext("str") and len(t.a[1]) == 1:
                _app(out, (t.a[1][0], ""))
                continue
            _app(out, (t, spec))
        else:
            _app(out, p)
    if not out:
        return const("")
    if len(out) == 1 and isinstance(out[0], str):
        return const(out[0])
    if len(out) == 1 and isinstance(out[0], tuple) and out[0][1] == "" and texty(out[0][0]):
        return out[0][0]
    return mk("fmt", tuple(out))


def _app(out, p):
    if isinstance(p, str):
        if p == "":
            return
        if out and isinstance(out[-1], str):
            out[-1] += p
            return
    out.append(p)


def fmt_parts(t):
    if t.op == "fmt":
        return list(t.a[0])
    if is_str(t):
        return [t.a[0].v]
    return [(t, "")]


def path_join(a, b):
    pa = list(a.a[0]) if a.op == "path" else [a]
    pb = list(b.a[0]) if b.op == "path" else [b]
    out = [x for x in pa]

    def piece(cur):
        ps = [c for c in cur if not (isinstance(c, str) and not c)]
        if len(ps) == 1 and isinstance(ps[0], tuple) and ps[0][1] == "":
            return ps[0][0]  # a segment that is only the text of one value
        return fmt(cur)

    for x in pb:
        if is_str(x):
            segs = [s for s in x.a[0].v.split("/") if s not in ("", ".")]
            if x.a[0].v.startswith("/"):
                segs = [x.a[0].v]
            out.extend(const(s) for s in segs)
        elif x.op == "fmt":
            # split at '/' in literal pieces
            cur = []
            for p in x.a[0]:
                if isinstance(p, str) and "/" in p:
                    bits = p.split("/")
                    cur.append(bits[0])
                    for b_ in bits[1:]:
                        if any(c for c in cur):
                            out.append(piece(cur))
                        cur = [b_]
                else:
                    cur.append(p)
            if any(c for c in cur):
                out.append(piece(cur))
        else:
            out.append(x)
    return mk("path", tuple(out))


# --------------------------------------------------------------------------
# traversal
# --------------------------------------------------------------------------
def _kids_of(x, acc):
    if isinstance(x, T):
        acc.append(x)
    elif isinstance(x, tuple):
        for y in x:
            _kids_of(y, acc)


def kids(t):
    acc = []
    if t.op == "poly":
        for m, _ in t.a[0]:
            for a, _e in m:
                acc.append(a)
        return acc
    for x in t.a:
        _kids_of(x, acc)
    return acc


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        stack.extend(kids(x))
    return seen


def contains(t, pred):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if pred(x):
            return True
        stack.extend(kids(x))
    return False


def find(t, pred):
    return [x for x in sorted(subterms(t), key=lambda z: z.id) if pred(x)]


def subst(t, f, memo=None):
    """Bottom-up rewriting: f(term) -> replacement or None. Re-normalises."""
    memo = {} if memo is None else memo

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        y = f(x)
        if y is None:
            y = rebuild(x, go)
        memo[x] = y
        return y

    return go(t)


def _mapx(x, go):
    if isinstance(x, T):
        return go(x)
    if isinstance(x, tuple):
        return tuple(_mapx(y, go) for y in x)
    return x


def rebuild(x, go):
    op = x.op
    if op in ("const", "num", "sym", "ext", "ref", "cls", "func"):
        return x
    if op == "poly":
        new = {}
        for m, _ in x.a[0]:
            for a, _e in m:
                if a not in new:
                    new[a] = go(a)
        if all(a is b for a, b in new.items()):
            return x
        parts = []
        for m, c in x.a[0]:
            if all(new[a] is a for a, _e in m):
                parts.append(mk_poly({m: c}))
            else:
                parts.append(mul(num(c), *[power(new[a], e) for a, e in m]))
        return add(*parts)
    na = tuple(_mapx(y, go) for y in x.a)
    if na == x.a:
        return x
    if op == "lt0":
        return lt0(na[0])
    if op == "le0":
        return le0(na[0])
    if op == "eq0":
        return eq(na[0], ZERO)
    if op == "eq":
        return eq(*na)
    if op == "not":
        return not_(na[0])
    if op == "and":
        return and_(*na[0])
    if op == "or":
        return or_(*na[0])
    if op == "ite":
        return ite(*na)
    if op == "is":
        return is_(*na)
    if op == "in":
        return in_(*na)
    if op == "fmt":
        return fmt(list(na[0]))
    if op == "path":
        r = na[0][0]
        if len(na[0]) == 1:
            return mk("path", na[0])
        for y in na[0][1:]:
            r = path_join(r, y)
        return r
    if op == "call" and not na[2] and len(na[1]) > 1 and na[0].op == "ext" and na[0].a[0] in ("max", "min"):
        return minmax(na[0].a[0], na[1])
    if op == "call" and not na[2] and len(na[1]) == 1 and na[0].op == "ext" and na[0].a[0] == "abs":
        return absolute(na[1][0])
    if op == "call" and len(na[1]) == 2 and na[0] is _XOR or op == "set":  # the order of the parts does not matter
        na = (na[0], tuple(sorted(na[1], key=lambda t: t.id)), na[2]) if op == "call" else (tuple(sorted(set(na[0]), key=lambda t: t.id)),) + na[1:]
    if op == "call" and na[0] is _LEN and not na[2] and len(na[1]) == 1 and _each(na[1][0]):
        return na[1][0].a[0].a[0]
    if op == "call" and na[0] is _ISINSTANCE and len(na[1]) == 2 and na[1][0] is NONE and na[1][1].op == "ext" and na[1][1].a[0] in ("str", "int", "float", "list", "tuple", "dict"):
        return FALSE
    if op == "sub" and na[1].op == "k" and _each(na[0]):
        # an element of what was made one by one
        kk = mk("k", na[0].a[0])
        return na[0].a[2][0] if kk is na[1] else subst(na[0].a[2][0], lambda x: na[1] if x is kk else None)
    h = REBUILD.get(op)
    if h is not None:
        return h(*na)
    return mk(op, *na)


def _each(x):
    """one element for each round of a loop"""
    return x.op == "map" and x.a[1] is TRUE and len(x.a[2]) == 1 and x.a[2][0].op != "flat"


REBUILD = {}
_XOR = ext("op.xor")
_LEN = ext("len")
_ISINSTANCE = ext("isinstance")


# --------------------------------------------------------------------------
# printing
# --------------------------------------------------------------------------
def show(t, depth=7):
    if depth <= 0:
        return "…"
    d = depth - 1
    op, a = t.op, t.a
    if op == "num":
        f = a[0]
        return str(f.numerator) if f.denominator == 1 else repr(float(f))
    if op == "const":
        return repr(a[0].v)
    if op in ("sym", "ext"):
        return a[0]
    if op == "poly":
        bits = []
        for m, c in a[0]:
            s = "*".join(
                show(x, d) + ("" if e == 1 else "^" + str(e)) for x, e in m
            )
            cs = str(c) if c.denominator == 1 else repr(float(c))
            if not s:
                bits.append(cs)
            elif c == 1:
                bits.append(s)
            elif c == -1:
                bits.append("-" + s)
            else:
                bits.append(cs + "*" + s)
        return "(" + " + ".join(bits).replace("+ -", "- ") + ")"
    if op == "attr":
        return show(a[0], d) + "." + a[1]
    if op == "sub":
        return show(a[0], d) + "[" + show(a[1], d) + "]"
    if op == "call":
        f = show(a[0], d)
        return f + "(" + ", ".join(
            [show(x, d) for x in a[1]] + [k + "=" + show(v, d) for k, v in a[2]]
        ) + ")"
    if op == "meth":
        return show(a[0], d) + "." + a[1]
    if op == "lt0":
        return "[" + show(a[0], d) + " < 0]"
    if op == "le0":
        return "[" + show(a[0], d) + " <= 0]"
    if op == "eq0":
        return "[" + show(a[0], d) + " == 0]"
    if op == "eq":
        return "[" + show(a[0], d) + " == " + show(a[1], d) + "]"
    if op == "not":
        return "!" + show(a[0], d)
    if op in ("and", "or"):
        return "(" + (" & " if op == "and" else " | ").join(show(x, d) for x in a[0]) + ")"
    if op == "ite":
        return "(if " + show(a[0], d) + " then " + show(a[1], d) + " else " + show(a[2], d) + ")"
    if op == "is":
        return "(" + show(a[0], d) + " is " + show(a[1], d) + ")"
    if op == "in":
        return "(" + show(a[0], d) + " in " + show(a[1], d) + ")"
    if op == "fmt":
        return "f'" + "".join(
            p if isinstance(p, str) else "{" + show(p[0], d) + (":" + p[1] if p[1] else "") + "}"
            for p in a[0]
        ) + "'"
    if op == "path":
        return "path(" + "/".join(show(x, d) for x in a[0]) + ")"
    if op in ("list", "tuple", "set"):
        br = {"list": "[]", "tuple": "()", "set": "{}"}[op]
        return br[0] + ", ".join(show(x, d) for x in a[0]) + br[1]
    if op == "dict":
        return "{" + ", ".join(show(k, d) + ": " + show(v, d) for k, v in a[0]) + "}"
    if op == "ref":
        return "&%s" % a[0]
    if op in ("func", "cls") and isinstance(a[0], str):
        return ".".join(a[0].split(".")[-2:])
    if op == "k":
        return "k" + str(a[0].id % 1000)
    if op == "exc":
        return "exc<%s,%s>" % (str(a[0]).split(".")[-1], a[1])
    def sh(x):
        if isinstance(x, T):
            return show(x, d)
        if isinstance(x, tuple):
            return "(" + ", ".join(sh(y) for y in x) + ")"
        return str(x)
    return op + "<" + ", ".join(sh(x) for x in a) + ">"
