"""
Comparison of a function of the code with a reference function: their observable
effects (selected calls, writes of attributes, exceptions) with arguments and
conditions, the final values of attributes, and the value returned.
Both sides are normal forms produced by the abstract interpreter; nothing is run.
"""

import copy

from .terms import *  # noqa
from .logic import counterexample, noexc, _canon, _constraints
from . import check as CK
from .lib import METH_SIGS

LOOPY = {"phi", "fold", "foldbrk", "last", "lastbrk", "maybe", "someiter", "sum", "psum", "map", "mapto", "dmap", "dmapto"}


def alpha(t, memo=None):
    """names of loop-carried variables (identified by their recurrences) and of try statements do not matter"""

    def f(x):
        if x.op == "exc":
            return mk("exc", 0, 0, x.a[2])
        if x.op == "excval":
            return mk("excval", 0, 0)
        if x.op == "dkey":
            return mk("sub", go(x.a[0]), go(x.a[1]))  # going through a dict or through its keys
        if x.op == "maybe":
            return mk("maybe", 0, go(x.a[1]), go(x.a[2]))
        if x.op in ("phi", "fold") and x.a[1] != "_":
            return mk(x.op, go(x.a[0]), "_", *[go(y) if isinstance(y, T) else y for y in x.a[2:]])
        return None

    memo = {} if memo is None else memo

    def go(y):
        return subst(y, f, memo)

    return go(t)


class Budget(Exception):
    pass


def _lits(c):
    return frozenset(c.a[0]) if c.op == "and" else frozenset((c,)) if c is not TRUE else frozenset()


def prune(t, limit=60000):
    """drop the alternatives excluded by the conditions a subterm stands under"""
    left = [limit]
    memo = {}

    def go(x, lits):
        k = (x, lits)
        r = memo.get(k)
        if r is not None:
            return r
        left[0] -= 1
        if left[0] < 0:
            raise Budget
        if x.op == "ite":
            c = x.a[0]
            cs = _lits(c)
            ds = _lits(not_(c))
            if cs <= lits:
                r = go(x.a[1], lits)
            elif ds <= lits or any(not_(y) in lits for y in cs):
                r = go(x.a[2], lits)
            else:
                c2 = go(c, lits)
                if c2 is TRUE:
                    r = go(x.a[1], lits)
                elif c2 is FALSE:
                    r = go(x.a[2], lits)
                else:
                    r = ite(c2, go(x.a[1], lits | cs | _lits(c2)), go(x.a[2], lits | ds | _lits(not_(c2))))
        elif x.op in ("map", "mapto") and len(x.a) == 3 and x.a[1] is not TRUE:
            key, c = go(x.a[0], lits), go(x.a[1], lits)
            inner = lits | _lits(x.a[1]) | _lits(c)
            r = mk(x.op, key, c, tuple(go(y, inner) for y in x.a[2]))
        else:
            r = rebuild(x, lambda y: go(y, lits))
        memo[k] = r
        return r

    try:
        return go(t, frozenset())
    except Budget:
        return None


def skeleton(t):
    """the loops a term depends on"""
    return {x.a[0] for x in subterms(t) if x.op in LOOPY and x.a and isinstance(x.a[0], T)}


def slot_names(t):
    return {(len(x.a), len(x.a[3].a[0]) if len(x.a) > 3 and x.a[3].op == "rec" else 0) for x in subterms(t) if x.op == "phi"}


def cmp(a, b, trust=()):
    st = _cmp(a, b, trust)
    if st == CK.VIOLATED:
        x, y = CK.copies(a), CK.copies(b)
        if (x is not a or y is not b) and _cmp(x, y, trust) == CK.PROVED:
            return CK.UNDECIDED
    return st


def _cmp(a, b, trust=()):
    if a is b:
        return CK.PROVED
    if a is None or b is None:
        return CK.UNDECIDED
    a, b = alpha(a), alpha(b)
    if a is b:
        return CK.PROVED
    st = CK.compare(a, b, trust)
    if st != CK.PROVED:
        pa, pb = prune(a), prune(b)
        if pa is not None and pb is not None and (pa is not a or pb is not b):
            a, b = alpha(pa), alpha(pb)
            if a is b:
                return CK.PROVED
            st = CK.compare(a, b, trust)
    if st != CK.PROVED:
        by = cases(a, b, trust)
        if by == CK.PROVED or st == CK.UNDECIDED:
            st = by
    return st


BINDERS = LOOPY | {"rec", "loop", "lambda"}


def _atom(c):
    """a condition to distinguish: ('s', polynomial) or ('b', term)"""
    while c.op in ("and", "or", "not"):
        c = c.a[0][0] if c.op != "not" else c.a[0]
    if c.op == "ite":
        return _atom(c.a[0])
    if c.op in ("lt0", "le0", "eq0"):
        return ("s", _canon(c.a[0])[0])
    if c.op in ("const", "num"):
        return None
    return ("b", c)


def _choice(t):
    """the first alternative of a term that does not stand in a loop"""
    seen, todo = set(), [t]
    while todo:
        nxt = []
        for x in todo:
            if x in seen:
                continue
            seen.add(x)
            if x.op == "ite":
                a = _atom(x.a[0])
                if a is not None:
                    return a
            if x.op in BINDERS:
                continue
            nxt.extend(kids(x))
        todo = nxt
    return None


def _none(c):
    """what is nothing, where the condition holds"""
    if c.op == "is" and NONE in c.a and any(x.op == "sym" for x in c.a):
        return c.a[1] if c.a[0] is NONE else c.a[0]
    return None


def _signs(q):
    """possible signs of a polynomial"""
    it = poly_items(q)
    c = it.get((), 0)
    ms = [m for m in it if m != ()]
    if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1:
        x = ms[0][0][0]
        if x.op == "call" and x.a[0] is ext("len"):
            if it[ms[0]] > 0 and c >= 0:
                return (1,) if c > 0 else (0, 1)
    return (-1, 0, 1)


def _fixed(t, atom, val):
    if atom[0] == "b":
        x = atom[1]
        nothing = _none(x) if val is True else None

        def f(y):
            if y is x:
                return const(val)
            if nothing is not None and y is nothing:
                return NONE
            return None
    else:
        q = atom[1]

        def f(y):
            if y.op in ("lt0", "le0", "eq0"):
                p, o = _canon(y.a[0])
                if p is q:
                    s = o * val
                    return const(s < 0 if y.op == "lt0" else s <= 0 if y.op == "le0" else s == 0)
            return None
    return subst(t, f)


CASES = 250


def cases(a, b, trust=(), budget=None):
    """compare two terms separately in every case their conditions distinguish"""
    left = [budget or CASES]
    und = [False]

    def go(a, b, asg):
        if a is b:
            return False
        left[0] -= 1
        if left[0] < 0:
            und[0] = True
            return False
        at = _choice(a) or _choice(b)
        if at is None or at in asg:
            st = CK.compare(a, b, trust)
            if st == CK.UNDECIDED:
                und[0] = True
            return st == CK.VIOLATED
        for val in ((True, False) if at[0] == "b" else _signs(at[1])):
            now = dict(asg)
            now[at] = val
            if any(bad(now[u], now[v]) for u, v, bad in _constraints(list(now))):
                continue
            if go(_fixed(a, at, val), _fixed(b, at, val), now):
                return True
        return False

    if go(a, b, {}):
        return CK.VIOLATED
    return CK.UNDECIDED if und[0] else CK.PROVED


def _split(args, pc, out, budget):
    """case distinction on the conditions inside arguments"""
    for a in args:
        if a is None:
            continue
        for x in subterms(a):
            if x.op == "ite" and budget[0] > 0:
                c = x.a[0]
                budget[0] -= 1
                for lit, branch in ((c, 1), (not_(c), 2)):
                    nothing = _none(c) if branch == 1 else None

                    def f(y, branch=branch, nothing=nothing):
                        if y.op == "ite" and y.a[0] is c:
                            return subst(y.a[branch], f)
                        if nothing is not None and y is nothing:
                            return NONE
                        return None
                    lits = set(lit.a[0]) if lit.op == "and" else {lit}
                    na = tuple(assume(subst(y, f), lits) if y is not None else None for y in args)
                    npc = and_(pc, lit)
                    if npc is not FALSE:
                        _split(na, npc, out, budget)
                return
    out.append((args, pc))


def identity(s, t):
    """an object made by a call, as the call that made it: what it holds later does not matter"""
    if t.op == "ite":
        return ite(t.a[0], identity(s, t.a[1]), identity(s, t.a[2]))
    if t.op == "attr":
        return mk("attr", identity(s, t.a[0]), t.a[1])
    if t.op == "ref" and t not in s.I.cls_of:
        b = s.I.born.get(t)
        if b is not None and b.op == "call":
            same = sorted(int(r.a[0]) for r, x in s.I.born.items() if x is b)
            return mk("made", s.snap(b), same.index(int(t.a[0])))
    if t.op == "sym" or t.op == "ref" and t in s.I.cls_of:
        return t
    return s.snap(t)


def recv_term(s, e):
    if e.kind == "mutate" and str(e.fn).startswith("setattr.") and e.recv is not None:
        return identity(s, e.recv)
    r = e.result
    if r is not None and r.op == "call" and r.a[0].op == "meth":
        return r.a[0].a[0]
    if e.kind == "mutate" and e.extra is not None and isinstance(e.extra, T):
        return e.extra
    if e.recv is None:
        return None
    return s.snap(e.recv)


def trytag(e):
    out = []
    for t in e.trys:
        if t[1] in ("body", "handler") and [h for h in t[2] if h != ("AssertionError",)]:
            out.append((t[1], tuple(sorted(str(x) for h in t[2] for x in h))))
    return tuple(out)


def instances(s):
    """objects of project classes created on the way, named by class and order of creation"""
    I = s.I
    memo = {}
    seen = {}

    def f(y):
        if y.op != "ref":
            return None
        if y not in seen:
            cls = I.class_of(y)
            seen[y] = None
            if cls is not None:
                rank = sorted({h[1].a[0] for h in I.st.heap if h[0] == "f" and h[1].op == "ref" and I.class_of(h[1]) is cls} | {y.a[0]})
                seen[y] = mk("instance", mk("cls", cls.qual), rank.index(y.a[0]))
        return seen[y]

    return lambda t: subst(t, f, memo) if t is not None else None


def entries(s, pats):
    """effects, with d.update({k: v, ..}) as d[k] = v, .."""
    for e in s.log:
        if e.kind == "mutate" and e.fn == "update" and ("mutate", "setitem") in pats and len(e.args) == 1 and not e.kw and e.bound is None:
            x = s.snap(e.args[0])
            if x.op == "dict" and x.a[0]:
                for k, v in x.a[0]:
                    y = copy.copy(e)
                    y.fn, y.args = "setitem", [k, v]
                    yield y
                continue
        yield e


# external operations: what is taken where nothing is given, by position
SETTLED = {
    "write": (("filename", "format"), {"format": NONE}),
    "mkdir": (("mode", "parents", "exist_ok"), {"parents": FALSE, "exist_ok": FALSE}),
    "to_csv": (("path_or_buf", "sep", "na_rep", "float_format", "columns", "header", "index"), {"sep": const(","), "na_rep": const(""), "float_format": NONE, "columns": NONE, "header": TRUE, "index": TRUE}),
    "trim": (("starttime", "endtime", "pad", "nearest_sample", "fill_value"), {"starttime": NONE, "endtime": NONE, "pad": FALSE, "nearest_sample": TRUE, "fill_value": NONE}),
    "merge": (("method", "interpolation_samples", "fill_value"), {"method": ZERO, "interpolation_samples": ZERO, "fill_value": NONE}),
    "detrend": (("type",), {"type": const("simple")}),
    "shutil.rmtree": (("path", "ignore_errors"), {"ignore_errors": FALSE}),
    "unlink": (("missing_ok",), {"missing_ok": FALSE}),
    "open": (("file", "mode"), {"mode": const("r")}),
}


def settled(e):
    """named arguments of an external operation, with those that take their default"""
    n = e.fn.lstrip(".") if isinstance(e.fn, str) else None
    if n not in SETTLED or "**" in e.kw or "kwboth" in e.kw:
        return e.kw
    order, given = SETTLED[n]
    if n == "merge" and e.kind == "call" or n == "write" and "format" not in e.kw and e.kw == {} and len(e.args) <= 1 and not (e.args and e.args[0].op == "path"):
        return e.kw  # not one of a stream
    kw = dict(e.kw)
    for k, v in given.items():
        if k not in kw and order.index(k) >= len(e.args):
            kw[k] = v
    return kw


def plain_calls(t, style, memo):
    """without the named arguments that only concern appearance"""

    def f(x):
        if x.op == "call" and x.a[2] and x.a[0].op in ("meth", "ext") and any(k in style for k, _ in x.a[2]):
            y = mk("call", x.a[0], x.a[1], tuple((k, v) for k, v in x.a[2] if k not in style))
            return plain_calls(y, style, memo)
        return None

    return subst(t, f, memo)


def told(s, e):
    """what an error is made from, by parameter"""
    v = e.result
    r = s.I.prog.resolve(e.fn)
    f = s.I.prog.find_method(r[1], "__init__") if r[0] == "class" else None
    ps = [a.arg for a in f.node.args.args[1:]] if f is not None else []
    given = dict(zip(ps + ["%d" % i for i in range(len(ps), len(v.a[1]))], v.a[1]))
    given.update({k: x for k, x in v.a[2]})
    return tuple(sorted(given)), tuple(s.snap(given[k]) for k in sorted(given))


def observe(s, pats, drop=(), trys=True, style=()):
    """{(kind, fn, tags): {args: (pc, first effect)}} in order of appearance"""
    out = {}
    bare = {}
    name = instances(s)
    if ("mutate", "update") in pats:
        pats = pats + [("mutate", "setitem")]
    for e in entries(s, pats):
        if e.kind not in ("call", "mutate", "raise", "setattr"):
            continue
        pat = [p for p in pats if (p[0] == e.kind and CK._match(e.fn, p[1]))]
        if not pat:
            continue
        names = None
        if e.kind == "raise":
            if e.caught is not None:
                continue
            names, args = (), ()
            if ("raise", "told") in pats and e.result is not None and e.result.op == "call":
                names, args = told(s, e)
        elif e.bound is not None:
            new = e.fn.endswith(".__init__") and e.bound.get("self") is not None and e.bound["self"].op == "ref"
            ks = sorted(k for k in e.bound if k not in drop and not (new and k == "self"))
            names = tuple(ks)
            args = tuple(s.snap(e.bound[k]) for k in ks)
        else:
            kw, pos = settled(e), tuple(e.args)
            sig = METH_SIGS.get(e.fn if e.kind == "mutate" else e.fn[1:] if e.fn.startswith(".") else None)
            if sig is not None and len(pos) <= len(sig) and not set(sig[: len(pos)]) & set(kw) and not any(x.op == "star" for x in pos):
                # arguments known by their names
                kw, pos = {**kw, **dict(zip(sig, pos))}, ()
            ks = sorted(k for k in kw if k not in drop)
            names = tuple("%d" % i for i in range(len(pos))) + tuple(ks)
            args = pos + tuple(kw[k] for k in ks)
            if e.kind in ("mutate", "setattr") or (e.recv is not None):
                names = ("self",) + names
                args = (recv_term(s, e),) + args
        args = tuple(name(x) for x in args)
        if style:
            args = tuple(plain_calls(x, style, bare) if isinstance(x, T) else x for x in args)
        fn = e.fn.rsplit(".", 1)[-1] if e.kind == "raise" else e.fn
        key = (e.kind, fn, trytag(e) if trys else (), names)
        pc = noexc(e.pc) if not any(t[1] == "handler" for t in e.trys) else e.pc
        pc = alpha(name(pc))
        loops = tuple(alpha(name(l)) for l in e.loops)
        parts = []
        _split(tuple(alpha(a) if a is not None else None for a in args), pc, parts, [24])
        grp = out.setdefault(key, {})
        for a, p in parts:
            k = (a, loops)
            if k in grp:
                grp[k] = (or_(grp[k][0], p), grp[k][1])
            else:
                grp[k] = (p, e)
    return out


def _terms(G):
    for grp in G.values():
        for (args, loops), (pc, e) in grp.items():
            for x in tuple(args) + tuple(loops) + (pc,):
                if x is not None:
                    yield x


def unordered(F, R):
    """where the reference goes through a set in any order, so may the code in a particular one"""
    sets, there = set(), set()
    for t in set(_terms(R)):
        for x in subterms(t):
            if x.op == "call" and x.a[0] is ext("set"):
                sets.add(x)
            elif x.op == "call" and x.a[0] in (ext("sorted"), ext("list")) and x.a[1]:
                there.add(x)
    if not sets:
        return F
    memo = {}

    def f(x):
        if x.op == "call" and x.a[0] in (ext("sorted"), ext("list"), ext("tuple")) and len(x.a[1]) == 1 and x not in there:
            y = subst(x.a[1][0], f, memo)
            if y in sets:
                return y
        return None

    out = {}
    for key, grp in F.items():
        out[key] = {(tuple(subst(a, f, memo) if a is not None else None for a in args), tuple(subst(l, f, memo) for l in loops)): (subst(pc, f, memo), e) for (args, loops), (pc, e) in grp.items()}
    return out


def _rank(a, b, trust):
    n = 0
    for x, y in zip(a, b):
        if x is not y:
            n += 1
    return n


def behaves(c, key, code, ref, calls=(), mutates=(), raises=(), sets=(), fields=(), ret=True, params=(),
            rule="", trust=(), opaque=(), drop=(), s=None, r=None, trys=True, style=(), **kw):
    """compare `code` (qualified name) with the reference function(s) `ref`"""
    f = c.prog.func(code)
    cls = f.cls.qual if f.cls is not None else None
    slf = cls if cls is not None and f.kind not in ("static", "class") else None
    if s is None:
        s = c.scenario("beh:" + code + ":" + key, code, construct=False, opaque=opaque, **kw)
    if r is None:
        r = c.reference(ref, self_cls=slf, opaque=opaque, **kw)
    pats = [("call", x) for x in calls] + [("mutate", x.lstrip(".")) for x in mutates] + [("raise", x) for x in raises] + [("setattr", x) for x in sets]
    F, R = observe(s, pats, drop, trys, style), observe(r, pats, drop, trys, style)
    F = unordered(F, R)
    for p in pats:
        if p != ("raise", "told") and not any(k[0] == p[0] and (CK._match(k[1], p[1]) or p == ("mutate", "update") and k[1] == "setitem") for k in R):
            c.ob("%s:%s:none" % (key, p[1]), CK.UNDECIDED, code, "the reference has no %s %s" % p, "nothing to compare")
    allkeys = list(R) + [k for k in F if k not in R]
    for k in allkeys:
        fg, rg = dict(F.get(k, {})), dict(R.get(k, {}))
        nm = "%s:%s" % (key, k[1])
        what = {"call": "call of", "mutate": "update by", "raise": "refusal with", "setattr": "write of"}[k[0]] + " " + str(k[1]).replace("quakemigrate.", "")
        # same effect under other handlers or signatures: not comparable
        alt = [x for x in F if x[:2] == k[:2] and x != k]
        i = 0
        left = []
        for a, (pc, e) in rg.items():
            i += 1
            if a in fg:
                pf, ef = fg.pop(a)
                c.iff("%s#%d" % (nm, i), pf, pc, ef, "%s: %s happens exactly under its condition" % (rule, what), trust=trust)
            else:
                left.append((i, a, pc, e))
        for i, a, pc, e in left:
            if not fg:
                others = [x for x in F if x[:2] == k[:2]]
                if k in F or (alt and not [x for x in alt if x not in R]):
                    st = CK.VIOLATED if _separable(s, k) else CK.UNDECIDED
                elif others:
                    st = CK.UNDECIDED
                else:
                    st = CK.VIOLATED
                c.ob("%s#%d" % (nm, i), st, code, "%s: %s" % (rule, what),
                     "required %s(%s) if %s; not found" % (k[1], ", ".join(show(x, 6) for x in a[0] if x is not None), show(pc, 6)))
                continue
            best = min(fg, key=lambda x: (_rank(x[0], a[0], trust) + (x[1] != a[1])))
            pf, ef = fg.pop(best)
            sts = []
            det = []
            if best[1] != a[1]:
                st = CK.UNDECIDED
                if len(best[1]) == len(a[1]):
                    ls = [cmp(x, y, trust) for x, y in zip(best[1], a[1]) if x is not y]
                    st = CK.VIOLATED if all(x == CK.VIOLATED for x in ls) else CK.UNDECIDED
                sts.append(st)
                det.append("in another loop: %s ; required %s" % (", ".join(show(x, 7) for x in best[1]), ", ".join(show(x, 7) for x in a[1])))
            for n, x, y in zip(k[3], best[0], a[0]):
                if x is y:
                    continue
                st = cmp(x, y, trust)
                if st != CK.PROVED:
                    sts.append(st)
                    det.append("%s: found %s ; required %s" % (n, show(x, 9) if x is not None else None, show(y, 9) if y is not None else None))
            st = CK.VIOLATED if CK.VIOLATED in sts else CK.UNDECIDED if sts else CK.PROVED
            c.ob("%s#%d" % (nm, i), st, CK._where(ef), "%s: %s" % (rule, what), " ; ".join(det))
            if st == CK.PROVED:
                c.iff("%s#%d:if" % (nm, i), pf, pc, ef, "%s: %s happens exactly under its condition" % (rule, what), trust=trust)
        for a, (pf, ef) in fg.items():
            i += 1
            cx = counterexample(pf, FALSE)
            known = all(CK.compare(x, x, trust) == CK.PROVED for x in a[0] if x is not None)
            fns = set()
            for x in list(a[0]) + [pf]:
                if x is not None:
                    fns |= {y for y in CK.vocab(x)[0]}
            ok = all(y in CK.KNOWN or y in trust or any(y in CK.vocab(z)[0] for g in rg for z in g[0] if z is not None) for y in fns)
            st = CK.PROVED if cx is None else CK.VIOLATED if ok and not alt else CK.UNDECIDED
            c.ob("%s#%d" % (nm, i), st, CK._where(ef), "%s: no other %s" % (rule, what),
                 "found %s(%s) if %s" % (k[1], ", ".join(show(x, 6) for x in a[0] if x is not None), show(pf, 6)))
    under = returning(s, r) if params or fields or ret else TRUE
    for q in params:
        _value(c, "%s:%s" % (key, q), s.snap(sym(q)), r.snap(sym(q)), code, "%s: what the call leaves in its argument %s" % (rule, q), trust, under)
    for fl in fields:
        a, b = s.attr(fl), r.attr(fl)
        _value(c, "%s:.%s" % (key, fl), a, b, code, "%s: final value of %s" % (rule, fl), trust, under)
    if ret:
        _value(c, key + ":value", objects(s, s.snap(s.ret)), objects(r, r.snap(r.ret)), code, "%s: value returned" % rule, trust, under)
    return s, r


def objects(s, t, depth=3):
    """instances of project classes as (class, final values of their fields)"""
    I = s.I
    found = {x: I.class_of(x) for x in subterms(t) if x.op == "ref" and I.class_of(x) is not None}
    if not found or depth == 0:
        return t
    rep = {}
    for x, cls in found.items():
        names = sorted({h[2] for h in I.st.heap if h[0] == "f" and h[1] is x})
        rep[x] = mk("object", mk("cls", cls.qual), tuple((n, objects(s, s.attr(n, x), depth - 1)) for n in names))

    def f(y):
        return rep.get(y)

    return subst(t, f)


def _separable(s, k):
    return True


def returning(s, r):
    """the condition under which both calls return, if they agree on it"""
    a, b = s.exit, r.exit
    if a is None or b is None or (a is TRUE and b is TRUE):
        return TRUE
    if a is not b and (counterexample(a, b) is not None or counterexample(b, a) is not None):
        return TRUE
    return b


def _cover(ps, under):
    """{value: condition} over the cases in which the call returns"""
    g = {}
    for (x,), p in ps:
        g[x] = or_(g[x], p) if x in g else p
    g = {x: and_(p, under) for x, p in g.items()}
    return {x: p for x, p in g.items() if p is not FALSE and counterexample(p, FALSE) is not None}


def _value(c, key, a, b, where, rule, trust, under=TRUE):
    st = cmp(a, b, trust)
    if st != CK.PROVED:
        # same value case by case?
        a2, b2 = alpha(noexc(a)), alpha(noexc(b))
        a3, b3 = prune(a2), prune(b2)
        if a3 is not None and b3 is not None:
            a2, b2 = alpha(a3), alpha(b3)
        if a2 is b2:
            st = CK.PROVED
        else:
            pa, pb = [], []
            _split((a2,), TRUE, pa, [64])
            _split((b2,), TRUE, pb, [64])
            ga, gb = {}, {}
            for g, ps in ((ga, pa), (gb, pb)):
                for (x,), p in ps:
                    g[x] = or_(g[x], p) if x in g else p
            if set(ga) == set(gb) and all(
                counterexample(ga[x], gb[x]) is None and counterexample(gb[x], ga[x]) is None for x in ga
            ):
                st = CK.PROVED
            elif under is not TRUE:
                ga, gb = _cover(pa, under), _cover(pb, under)
                if set(ga) == set(gb) and all(counterexample(ga[x], gb[x]) is None and counterexample(gb[x], ga[x]) is None for x in ga):
                    st = CK.PROVED
    d = ""
    if st != CK.PROVED:
        d = "found %s ; required %s" % (show(a, 10) if a is not None else None, show(b, 10))
    ob = c.ob(key, st, CK._where(where), rule, d)
    if a is not None and b is not None and st != CK.VIOLATED:
        _handled(c, key, a, b, where, rule, trust)
    return ob


def _handled(c, key, a, b, where, rule, trust):
    """the value when an exception is handled, for handlers that correspond"""
    ea, eb = _excs(a), _excs(b)
    for h in ea:
        if len(ea[h]) != 1 or len(eb.get(h, ())) != 1:
            continue
        f = lambda x: None if x.op != "exc" else TRUE if x.a[2] == h else FALSE  # noqa
        x, y = alpha(subst(a, f)), alpha(subst(b, f))
        if any(z.op in ("maybe", "excval") or z.op == "unbound" for t in (x, y) for z in subterms(t)):
            continue
        st = cmp(x, y, trust)
        if st == CK.UNDECIDED:
            continue
        n = "/".join(str(q) for q in h)
        c.ob("%s:%s" % (key, n), st, CK._where(where), "%s, when %s is handled" % (rule, n), "" if st == CK.PROVED else "found %s ; required %s" % (show(x, 10), show(y, 10)))


def _excs(t):
    out = {}
    for x in subterms(t):
        if x.op == "exc":
            out.setdefault(x.a[2], set()).add(x)
    return out
