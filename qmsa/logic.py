"""Propositional decisions over path conditions (sign-aware comparison atoms)."""

import itertools
from fractions import Fraction

from .terms import *  # noqa
from . import terms as TT

MAXATOMS = 22
MAXSTEPS = 60000


_CANON = {}


def _canon(p):
    r = _CANON.get(p)
    if r is None:
        r = _CANON[p] = _canon0(p)
    return r


def _canon0(p):
    """(canonical polynomial, orientation +1/-1)"""
    it = poly_items(p)
    if not it:
        return p, 1
    lead = sorted((m for m in it if m != ()), key=lambda m: [(x.id, e) for x, e in m])
    if not lead:
        return p, 1
    c = it[lead[0]]
    q = mk_poly({m: v / abs(c) * (1 if c > 0 else -1) for m, v in it.items()})
    return q, (1 if c > 0 else -1)


def noexc(t):
    """the value on the path where no exception is raised"""
    return subst(t, lambda x: FALSE if x.op == "exc" else None)


def _vars(t, out, memo):
    if t in memo:
        return
    memo.add(t)
    op = t.op
    if op in ("and", "or"):
        for x in t.a[0]:
            _vars(x, out, memo)
    elif op == "not":
        _vars(t.a[0], out, memo)
    elif op == "ite":
        for x in t.a:
            _vars(x, out, memo)
    elif op in ("lt0", "le0", "eq0"):
        q, o = _canon(t.a[0])
        out.setdefault(("s", q), None)
    elif op == "const" or op == "num":
        pass
    else:
        out.setdefault(("b", t), None)


def _ev3(t, asg):
    """value under a partial assignment: True, False or None (not determined)"""
    op = t.op
    if op == "and":
        r = True
        for x in t.a[0]:
            v = _ev3(x, asg)
            if v is False:
                return False
            if v is None:
                r = None
        return r
    if op == "or":
        r = False
        for x in t.a[0]:
            v = _ev3(x, asg)
            if v is True:
                return True
            if v is None:
                r = None
        return r
    if op == "not":
        v = _ev3(t.a[0], asg)
        return None if v is None else not v
    if op == "ite":
        c = _ev3(t.a[0], asg)
        if c is None:
            x, y = _ev3(t.a[1], asg), _ev3(t.a[2], asg)
            return x if x is y else None
        return _ev3(t.a[1], asg) if c else _ev3(t.a[2], asg)
    if op in ("lt0", "le0", "eq0"):
        q, o = _canon(t.a[0])
        s = asg.get(("s", q))
        if s is None:
            return None
        s *= o
        return s < 0 if op == "lt0" else s <= 0 if op == "le0" else s == 0
    if op == "const":
        return bool(t.a[0].v)
    if op == "num":
        return t.a[0] != 0
    return asg.get(("b", t))


def _constraints(vs):
    """pairs of atoms that cannot take arbitrary values together: [(i, j, forbidden(s, t))]"""
    out = []
    ss = [v for v in vs if v[0] == "s"]
    for i in range(len(ss)):
        for j in range(i + 1, len(ss)):
            p, q = ss[i][1], ss[j][1]
            d = sub_(q, p)  # q = p + d
            if d.op == "num":
                d = d.a[0]
                if d > 0:
                    out.append((ss[i], ss[j], lambda s, t: s >= 0 and t <= 0))
                elif d < 0:
                    out.append((ss[i], ss[j], lambda s, t: s <= 0 and t >= 0))
            d = add(q, p)  # q = d - p
            if d.op == "num":
                d = d.a[0]
                if d > 0:
                    out.append((ss[i], ss[j], lambda s, t: s <= 0 and t <= 0))
                elif d < 0:
                    out.append((ss[i], ss[j], lambda s, t: s >= 0 and t >= 0))
    # equalities against different constants exclude each other
    eqs = [(v, x, y) for v in vs if v[0] == "b" and v[1].op == "eq" for x, y in (v[1].a, v[1].a[::-1]) if is_const(y)]
    for i in range(len(eqs)):
        for j in range(i + 1, len(eqs)):
            if eqs[i][1] is eqs[j][1] and eqs[i][2] is not eqs[j][2]:
                out.append((eqs[i][0], eqs[j][0], lambda s, t: s and t))
    # nothing is no instance of anything, and equals nothing else
    for v in vs:
        if v[0] == "b" and v[1].op == "is" and NONE in v[1].a:
            x = v[1].a[1] if v[1].a[0] is NONE else v[1].a[0]
            for w in vs:
                if w[0] == "b" and w[1].op == "call" and w[1].a[0] is _ISINSTANCE and len(w[1].a[1]) == 2 and w[1].a[1][0] is x and w[1].a[1][1].op == "ext":
                    out.append((v, w, lambda s, t: s and t))
            for w, y, z in eqs:
                if y is x and z is not NONE:
                    out.append((v, w, lambda s, t: s and t))
    return out


_ISINSTANCE = ext("isinstance")


def counterexample(a, b, given=()):
    """an assignment with a (and all of given) true and b false; None if there is
    none; "big" when the search is too large"""
    r = _counterexample(a, b, given)
    if r is not None:
        left = [LIFTS]
        ts = [_lift(t, left) for t in (a, b) + tuple(given)]
        if left[0] >= 0 and any(x is not y for x, y in zip(ts, (a, b) + tuple(given))):
            r = _counterexample(ts[0], ts[1], tuple(ts[2:]))
    return r


LIFTS = 24
SCOPED = {"phi", "fold", "foldbrk", "last", "lastbrk", "maybe", "someiter", "sum", "psum", "map", "mapto", "dmap", "dmapto", "rec", "loop", "lambda"}


def _alternative(t):
    """an alternative inside the value an atom is about, outside any loop"""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x in seen or x.op in SCOPED:
            continue
        seen.add(x)
        if x.op == "ite":
            return x
        todo += kids(x)
    return None


def _lift(t, left):
    """the same condition with the alternatives inside its atoms made conditions"""
    op = t.op
    if op in ("and", "or"):
        xs = [_lift(x, left) for x in t.a[0]]
        if all(x is y for x, y in zip(xs, t.a[0])):
            return t
        r = xs[0]
        for x in xs[1:]:
            r = and_(r, x) if op == "and" else or_(r, x)
        return r
    if op == "not":
        x = _lift(t.a[0], left)
        return t if x is t.a[0] else not_(x)
    if op == "ite":
        c, x, y = (_lift(k, left) for k in t.a)
        return t if (c, x, y) == tuple(t.a) else or_(and_(c, x), and_(not_(c), y))
    if op in ("const", "num"):
        return t
    alt = _alternative(t)
    if alt is None:
        return t
    left[0] -= 1
    if left[0] < 0:
        return t
    c, x, y = alt.a
    tx = subst(t, lambda z: x if z is alt else None)
    ty = subst(t, lambda z: y if z is alt else None)
    c = _lift(c, left)
    return or_(and_(c, _lift(tx, left)), and_(not_(c), _lift(ty, left)))


def _counterexample(a, b, given=()):
    """an assignment with a (and all of given) true and b false; None if there is
    none; "big" when the search is too large"""
    if a is b or b is TRUE or a is FALSE:
        return None
    vs = {}
    memo = set()
    for t in (a, b) + tuple(given):
        _vars(t, vs, memo)
    vs = list(vs)
    if len(vs) > MAXATOMS:
        return "big"
    cons = {}
    for u, v, bad in _constraints(vs):
        cons.setdefault(u, []).append((v, bad, False))
        cons.setdefault(v, []).append((u, bad, True))
    left = [MAXSTEPS]
    goal = (a,) + tuple(given)
    asg = {}

    def go(i):
        left[0] -= 1
        if left[0] < 0:
            return "big"
        for g in goal:
            if _ev3(g, asg) is False:
                return None
        if _ev3(b, asg) is True:
            return None
        if i == len(vs):
            return dict(asg)
        v = vs[i]
        for val in ((-1, 0, 1) if v[0] == "s" else (True, False)):
            ok = True
            for u, bad, swap in cons.get(v, ()):
                w = asg.get(u)
                if w is not None and (bad(w, val) if swap else bad(val, w)):
                    ok = False
                    break
            if not ok:
                continue
            asg[v] = val
            r = go(i + 1)
            if r is not None:
                return r
            del asg[v]
        return None

    return go(0)
