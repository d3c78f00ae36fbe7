"""C05: the native kernels stay within their arrays and are free of data races."""

from qmsa.equiv import behaves
from qmsa.cfront import elem, is_int, is_ptr, native, safe
from qmsa.engine import lits_of
from qmsa.terms import ONE, ZERO, mul, num, show, sub_, subst, subterms
from qmsa.check import PROVED, UNDECIDED, VIOLATED
from qmsa import bounds as B
from .common import *  # noqa

LEVEL_NOTE = ("The C sources are parsed by clang and translated to the analysis's own form; every array access of every kernel reachable from a wrapper is "
              "proved inside the array its wrapper allocates (polynomial index arithmetic over the sizes), every variable of a parallel region is classified as private, "
              "read-only or an element owned by one iteration, and the value computed by wrapper and kernel together is compared with a reference. Assumed: travel times do not "
              "exceed the padding at the end, a grid has at least one node, IEEE arithmetic without overflow.")
FLOOR = 60
LIB = P + "core.lib"


def on(I):
    I.native = True


def semantics(c):
    """wrapper and kernel, analysed as one program"""
    behaves(c, "migrate", LIB + ".migrate", "native.migrate", before=on, raises=("ValueError",),
            rule="the stack at a node and sample is the exponential of the mean log onset over the available stations, each read at the sample plus its travel time")
    behaves(c, "peak", LIB + ".find_max_coa", "native.find_max_coa", before=on,
            rule="every sample gets the largest coalescence over all nodes, that value over the mean, and the first node reaching it")
    behaves(c, "overlapping", LIB + ".overlapping_sta_lta", "native.overlapping", before=on, rule="short window at the end of the long window, one where incomplete")
    behaves(c, "centred", LIB + ".centred_sta_lta", "native.centred", before=on, rule="short window after the long window, one where incomplete")
    behaves(c, "recursive", LIB + ".recursive_sta_lta", "native.recursive", before=on, rule="recursive averages, one during the first long window")



WRAPPERS = ("migrate", "find_max_coa", "overlapping_sta_lta", "centred_sta_lta", "recursive_sta_lta")


def calls(c):
    """every call of a kernel made by the package: (wrapper, kernel effect, scenario)"""
    m = c.prog.modules[LIB]
    out, inside = [], set()
    for name in sorted(m.funcs):
        s = c.scenario("mem:" + name, LIB + "." + name, construct=False, before=on)
        for e in s.log:
            if e.kind == "call" and str(e.fn).startswith(("kernel:", "native:")):
                out.append((name, e, s))
                if str(e.func) != LIB + "." + name:
                    inside.add(str(e.func))  # a part of this wrapper, judged with what the wrapper knows
    used = {str(v) for k, o in c.prog.modules.items() if k != LIB for v in o.imports.values()}
    return [(name, e, s) for name, e, s in out if name in WRAPPERS or LIB + "." + name in used or LIB + "." + name not in inside]


def memory(c):
    nat = native(c.prog)
    for name, why in nat.broken.items():
        c.ob("translate:" + name, UNDECIDED, why, "the kernel stays inside the language the analysis covers")
    seen = set()
    for wrapper, e, s in calls(c):
        name = str(e.fn).split(":", 1)[1]
        if str(e.fn).startswith("native:"):
            c.ob("call:" + wrapper, UNDECIDED if name in nat.broken.values() else VIOLATED, e.where, "the wrapper calls a kernel that exists, with its parameters", name)
            continue
        cf = nat.funcs[name]
        seen.add(name)
        kernel(c, nat, cf, wrapper, e, s)
    if len(seen) < 5 and nat.broken:
        c.ob("kernels", UNDECIDED, "quakemigrate/core/src", "the onset, migration and peak kernels are reached from the Python wrappers", "not analysed: %s" % sorted(nat.broken))
    else:
        c.req("kernels", len(seen) >= 5, "quakemigrate/core/src", "the onset, migration and peak kernels are reached from the Python wrappers", "found %s" % sorted(seen))
    for rel, u in nat.units.items():
        for f in u.funcs.values():
            for line, text in sorted(set(f.notes)):
                c.ob("width:%s" % f.name, VIOLATED, "%s:%d" % (rel, line), "positions in arrays are computed with 64 bits", text)
            if not f.notes:
                c.ob("width:%s" % f.name, PROVED, "%s:%d" % (rel, f.line), "positions in arrays are computed with 64 bits")


def kernel(c, nat, cf, wrapper, e, s):
    args = [B.norm(a) for a in e.args]
    lits = [B.norm(l) for l in lits_of(e.pc)]
    scope = args + lits
    F = []
    nonneg = set()
    eqs = []
    for l in lits:
        if l.op == "eq0":
            eqs.append(l.a[0])
        elif l.op == "le0":
            F.append(mul(num(-1), l.a[0]))
        elif l.op == "lt0":
            F.append(sub_(mul(num(-1), l.a[0]), ONE))
    # array dimensions are never negative
    for t in scope:
        for x in subterms(t):
            if x.op == "sub" and x.a[0].op == "attr" and x.a[0].a[1] == "shape" or x.op == "attr" and x.a[1] == "size" or B.called(x) in ("numpy.prod", "len"):
                nonneg.add(x)
            if B.called(x) == "numpy.prod":
                F.append(sub_(x, ONE))  # a grid has at least one node
            if B.called(x) in B.ALLOC:
                F.extend(B.dims(x.a[1][0]))
    pads = [S(p) for p in ("first_idx", "last_idx")]
    nonneg |= set(pads)
    sub = {}
    for q in eqs:
        r = None
        for a in sorted(B.atoms(q), key=lambda x: -x.id):
            r = B.lin(q, a)
            if r is not None and r[0].op == "num" and abs(r[0].a[0]) == 1:
                sub[a] = mul(num(-1 / r[0].a[0]), r[1])
                break
    fix = lambda t: subst(t, lambda x: sub.get(x))  # noqa
    env, sizes, arrays, element = {}, {}, {}, {}
    for (p, q), a in zip(cf.params, args):
        while B.called(a) and "ctypes.c_" in B.called(a):
            a = a.a[1][0]
        if is_ptr(q):
            st = nat.struct(elem(q))
            if st is not None:
                vals = next((list(x.a[0]) for x in subterms(a) if x.op == "tuple" and len(x.a[0]) == len(st)), None)
                for i, (f, _) in enumerate(st):
                    env[safe(p + "__" + f)] = fix(vals[i]) if vals else None
                continue
            arrays[safe(p)] = p
            env[safe(p + "__off")] = ZERO
            sizes[p] = fix(B.size_of(a, scope))
            if a is S("traveltimes"):
                # the stated domain: travel times do not exceed the padding at the end
                element[p] = lambda v: [sub_(S("last_idx"), v)]
        else:
            env[safe(p)] = fix(a)
    # a value the kernel gets from nowhere else is any integer
    F = [fix(f) for f in F]
    K = B.Kernel(nat, cf, env, sizes, B.Facts(nonneg, F), element)
    K.arrays = arrays
    K.run()
    for line, what in K.unknown:
        c.ob("access:%s" % cf.name, UNDECIDED, "%s:%d" % (cf.unit.rel, line), "every array access of the kernel is resolved", what)
    n = {}
    for a in K.acc:
        where = "%s:%d (%s)" % (a.func.unit.rel, a.line, a.func.name)
        n[a.name] = n.get(a.name, 0) + 1
        for side, p in (("low", a.index), ("high", None if a.index is None else sub_(sub_(sizes[a.array], ONE), a.index))):
            key = "bounds:%s:%s:%d:%s" % (cf.name, a.name, a.line, side)
            rule = "index %s %s called from %s" % ("not below 0 in" if side == "low" else "below the size of", a.name, wrapper)
            if p is None:
                c.ob(key, UNDECIDED, where, rule, "the index is not a polynomial of the sizes and loop variables")
            elif B.prove(p, a.F):
                c.ob(key, PROVED, where, rule)
            else:
                w = B.witness(p, a.F)
                c.ob(key, VIOLATED if w is not None else UNDECIDED, where, rule,
                     "index %s, size %s%s" % (show(a.index, 6), show(sizes[a.array], 6), "" if w is None else "; e.g. " + ", ".join("%s=%s" % (show(k, 4), v) for k, v in w.items())))
    c.req("accesses:" + cf.name, len(K.acc) > 0, cf.unit.rel, "array accesses of the kernel were found")
    regions = {id(r["omp"]): r for r in K.regions}
    for r in K.regions:
        u = r["func"].unit
        line = u.nline(r["omp"])
        where = "%s:%d (%s)" % (u.rel, line, cf.name)
        d = B.shared_scalars(u, r["omp"])
        for nm, ln, q, red in d["shared"]:
            if not red:
                c.ob("race:%s:%s" % (cf.name, nm), VIOLATED, "%s:%d" % (u.rel, ln), "a variable assigned in a parallel loop is private to the iteration", "%s is shared by the threads of the loop at line %d" % (nm, line))
            elif not is_int(q):
                c.ob("race:%s:%s" % (cf.name, nm), VIOLATED, "%s:%d" % (u.rel, ln), "the result does not depend on the number of threads", "the floating-point reduction of %s is ordered by the schedule" % nm)
        for nm in sorted(d["statics"]):
            c.ob("race:%s:%s" % (cf.name, nm), VIOLATED, where, "a variable assigned in a parallel loop is private to the iteration", "%s is static" % nm)
        if not d["shared"]:
            c.ob("race:%s" % cf.name, PROVED, where, "a variable assigned in a parallel loop is private to the iteration")
        names = {safe(x) for x in d["written"] - d["reduction"] - d["loopvars"]}
        names |= {x + "__off" for x in names}
        bad = B.carried(r["node"].body, names)
        for v, ln in sorted(bad.items()):
            c.ob("carried:%s:%s" % (cf.name, v), VIOLATED, "%s:%d" % (u.rel, ln), "an iteration sets every private variable before reading it", v)
        if not bad:
            c.ob("carried:%s" % cf.name, PROVED, where, "an iteration sets every private variable before reading it")
        dj = B.disjoint(r)
        for a, why, st in dj:
            c.ob("disjoint:%s:%s:%d" % (cf.name, a.name, a.line), VIOLATED if st is False else UNDECIDED, "%s:%d" % (u.rel, a.line), "parallel iterations touch disjoint elements of the arrays they write", why)
        if not dj:
            c.ob("disjoint:%s" % cf.name, PROVED, where, "parallel iterations touch disjoint elements of the arrays they write")
    for d in cf.regions:
        if id(d) not in regions and d["kind"] not in ("OMPSimdDirective",):
            c.ob("region:%s" % cf.name, UNDECIDED, "%s:%d" % (cf.unit.rel, cf.unit.nline(d)), "the parallel construct is one the analysis covers", d["kind"])


def rules(c):
    c.do(semantics)
    c.do(memory)
    nat = native(c.prog)
    c.extra_units = sorted(nat.units)
