"""C06: the Python bindings and the compiled kernels agree on the calling convention."""
import ast
import os
import re

from qmsa.cfront import elem, is_int, is_ptr, is_unsigned, native, plain, width
from qmsa.engine import called
from qmsa.equiv import behaves
from qmsa.program import Func
from qmsa.terms import subterms
from qmsa.check import PROVED, UNDECIDED, VIOLATED
from .c05 import LIB, calls, semantics
from .common import *  # noqa

LEVEL_NOTE = ("The module-level ctypes declarations are evaluated abstractly and compared, parameter by parameter, with the prototypes clang reports for the compiled kernels; "
              "every call of a kernel is checked for the number, kind, width and array element type of its arguments, the structure layouts field by field, the export list name by name; "
              "the meaning of the arguments is decided by comparing wrapper and kernel together with a reference.")
FLOOR = 60
LOADER = P + "core.libnames"

CT = {"int8": ("i", 8), "int16": ("i", 16), "int32": ("i", 32), "int64": ("i", 64), "int": ("i", 32), "longlong": ("i", 64),
      "uint8": ("u", 8), "uint16": ("u", 16), "uint32": ("u", 32), "uint64": ("u", 64), "uint": ("u", 32), "ulonglong": ("u", 64), "size_t": ("u", 64),
      "ssize_t": ("i", 64), "short": ("i", 16), "ushort": ("u", 16), "double": ("f", 64), "float": ("f", 32), "byte": ("i", 8), "ubyte": ("u", 8),
      "long": ("long", 0), "ulong": ("ulong", 0)}
NP = {"double": ("f", 64), "float64": ("f", 64), "float_": ("f", 64), "single": ("f", 32), "float32": ("f", 32), "int32": ("i", 32), "intc": ("i", 32),
      "int64": ("i", 64), "longlong": ("i", 64), "int16": ("i", 16), "int8": ("i", 8), "uint32": ("u", 32), "uint64": ("u", 64), "uint8": ("u", 8),
      "bool_": ("u", 8), "float16": ("f", 16), "half": ("f", 16), "uintc": ("u", 32), "int_": ("long", 0), "uint": ("ulong", 0), "intp": ("i", 64),
      "i4": ("i", 32), "i8": ("i", 64), "f8": ("f", 64), "f4": ("f", 32), "d": ("f", 64), "f": ("f", 32), "i": ("i", 32), "q": ("i", 64), "float": ("f", 64),
      "int": ("long", 0)}
NEW = {"numpy.zeros", "numpy.ones", "numpy.empty", "numpy.full", "numpy.zeros_like", "numpy.ones_like", "numpy.empty_like", "numpy.full_like"}
FLOATS = {"numpy.log", "numpy.exp", "numpy.sqrt", "numpy.log10"}


def c_kind(q):
    q = plain(q)
    if q in ("double",):
        return ("f", 64)
    if q == "float":
        return ("f", 32)
    if q in ("long", "unsigned long", "long int") :
        return ("ulong" if q.startswith("unsigned") else "long", 0)
    if is_int(q):
        return ("u" if is_unsigned(q) else "i", width(q))
    return None


def py_kind(t):
    """element type named by a ctypes type, a NumPy type or a type string"""
    if t is None:
        return None
    n = None
    if t.op == "ext":
        n = t.a[0]
    elif t.op == "const" and isinstance(t.a[0].v, str):
        return NP.get(t.a[0].v.lstrip("<="))
    elif t.op == "call" and called(t) == "numpy.dtype" and len(t.a[1]) == 1:
        return py_kind(t.a[1][0])
    if n is None:
        return None
    last = n.rsplit(".", 1)[-1]
    if "ctypes" in n and last.startswith("c_"):
        return CT.get(last[2:])
    if n.startswith("numpy."):
        return NP.get(last)
    return {"float": ("f", 64), "builtins.float": ("f", 64), "int": ("long", 0), "builtins.int": ("long", 0)}.get(n)


def arg(t, name, pos):
    for k, v in t.a[2]:
        if k == name:
            return v
    return t.a[1][pos] if pos is not None and len(t.a[1]) > pos else None


def text(k):
    return "an unknown type" if k is None else {"f": "floating point", "i": "integer", "u": "unsigned integer", "long": "platform-sized integer", "ulong": "platform-sized integer"}[k[0]] + (" of %d bits" % k[1] if k[1] else "")


def same(a, b):
    if a is None or b is None:
        return UNDECIDED
    return PROVED if a == b and a[1] else VIOLATED


def module_body(prog, m):
    skip = (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)
    node = ast.FunctionDef(name="__module__", args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                           body=[s for s in m.tree.body if not isinstance(s, skip)] or [ast.Pass()], decorator_list=[], lineno=1, col_offset=0)
    ast.fix_missing_locations(node)
    return Func(m, node, m.name + ".__module__")


def layout(fields, aligned):
    """[(name, kind, offset)], size of a structure of scalars"""
    off, out, big = 0, [], 1
    for name, k in fields:
        n = k[1] // 8
        if aligned:
            off += -off % n
            big = max(big, n)
        out.append((name, k, off))
        off += n
    return out, off + (-off % big if aligned else 0)


def header(c, key, where, t, st):
    """a NumPy structured type against a C structure"""
    rule = "the structure filled in Python has the fields, order and layout the kernel reads"
    d = t
    if called(d) == "numpy.dtype":
        spec, al = arg(d, "dtype", 0), arg(d, "align", 1)
        aligned = al is not None and al.op == "const" and bool(al.a[0].v)
    else:
        spec, aligned = d, False
    if spec is None or spec.op not in ("list", "tuple"):
        c.ob(key, UNDECIDED, where, rule, show(t, 5))
        return
    fs = []
    for x in spec.a[0]:
        if x.op != "tuple" or len(x.a[0]) < 2 or x.a[0][0].op != "const":
            c.ob(key, UNDECIDED, where, rule, show(x, 5))
            return
        fs.append((x.a[0][0].a[0].v, py_kind(x.a[0][1])))
    cs = [(n, c_kind(q)) for n, q in st]
    if any(k is None for _, k in fs + cs):
        c.ob(key, UNDECIDED, where, rule, "%s ; %s" % (fs, cs))
        return
    if any(k[1] == 0 for _, k in fs + cs):
        c.ob(key, VIOLATED, where, rule, "a field of platform-dependent size: %s ; %s" % (fs, cs))
        return
    a, b = layout(fs, aligned), layout(cs, True)
    c.ob(key, PROVED if [(x[1], x[2]) for x in a[0]] == [(x[1], x[2]) for x in b[0]] and a[1] == b[1] and [x[0] for x in a[0]] == [x[0] for x in b[0]] else VIOLATED, where, rule,
         "Python %s ; C %s" % (["%s: %s at byte %d" % (n, text(k), o) for n, k, o in a[0]], ["%s: %s at byte %d" % (n, text(k), o) for n, k, o in b[0]]))


def declared(c):
    """the argument types declared for each kernel when the module is loaded"""
    m = c.prog.modules[LIB]
    I = c.interp() if hasattr(c, "interp") else None
    if I is None:
        from qmsa.engine import Interp

        I = Interp(c.prog)
    I.call_entry(module_body(c.prog, m))
    out, ret = {}, {}
    for e in I.log:
        if e.kind == "mutate" and e.fn in ("setattr.argtypes", "setattr.restype") and e.recv is not None and e.recv.op in ("attr", "getattr") and contains_cdll(e.recv):
            (out if e.fn.endswith("argtypes") else ret)[str(e.recv.a[1] if isinstance(e.recv.a[1], str) else e.recv.a[1].a[0].v)] = (I.snap(e.args[0]), e)
    return out, ret


def contains_cdll(t):
    return any(x.op == "call" and str(called(x)).endswith(("CDLL", "LoadLibrary", "load_library")) for x in subterms(t))


def dtype_of(t):
    """element type of an array, when its construction fixes it"""
    n = called(t)
    if n in NEW:
        d = arg(t, "dtype", {"numpy.full": 2}.get(n, 1) if "_like" not in n else None)
        if d is None:
            return ("f", 64) if n in ("numpy.zeros", "numpy.ones", "numpy.empty") else None
        return py_kind(d)
    if n in ("numpy.ascontiguousarray", "numpy.asarray", "numpy.array", "numpy.require"):
        d = arg(t, "dtype", 1)
        return py_kind(d) if d is not None else dtype_of(t.a[1][0])
    if t.op == "call" and t.a[0].op == "meth" and t.a[0].a[1] == "astype":
        return py_kind(arg(t, "dtype", 0))
    if t.op in ("mut", "upd", "setitem", "amap", "amapto", "bmap"):
        for x in t.a:
            if hasattr(x, "op") and (called(x) in NEW or x.op in ("mut", "upd", "setitem")):
                return dtype_of(x)
    return None


def convention(c):
    nat = native(c.prog)
    for name, why in nat.broken.items():
        c.ob("translate:" + name, UNDECIDED, why, "the kernel stays inside the language the analysis covers")
    types, rets = declared(c)
    c.req("declared", len(types) >= 5, LIB, "every kernel used from Python has declared argument types", "declared: %s" % sorted(types))
    for name, (t, e) in sorted(types.items()):
        c.ob("declared:%s:once" % name, PROVED if t.op in ("list", "tuple") else UNDECIDED, e.where, "the argument types are a fixed list", show(t, 4))
    exports(c, nat)
    made = set()
    for wrapper, e, s in calls(c):
        name = str(e.fn).split(":", 1)[1]
        where = e.where
        if str(e.fn).startswith("native:"):
            m = re.match(r"no function (\w+)", name)
            st = UNDECIDED if name in nat.broken.values() else VIOLATED
            c.ob("call:" + wrapper, st, where, "the wrapper calls a kernel that exists with the number of arguments it takes", name)
            continue
        made.add(name)
        cf = nat.funcs[name]
        home = "%s:%d" % (cf.unit.rel, cf.line)
        c.ob("exists:" + name, PROVED, home, "the kernel called from Python is defined in the native sources")
        if name not in types:
            c.ob("types:" + name, VIOLATED, where, "the argument types of the kernel are declared before it is called", "no argtypes for %s" % name)
            continue
        lst, de = types[name]
        if lst.op not in ("list", "tuple"):
            continue
        decl = list(lst.a[0])
        c.ob("count:" + name, PROVED if len(decl) == len(cf.params) else VIOLATED, de.where, "one declared type per parameter", "%d declared, %d parameters in %s" % (len(decl), len(cf.params), home))
        c.ob("return:" + name, PROVED if cf.ret == "void" or c_kind(cf.ret) == ("i", 32) else (UNDECIDED if name in rets else VIOLATED), home,
             "the kernel returns nothing, or a type the binding declares", cf.ret)
        for i, ((p, q), d) in enumerate(zip(cf.params, decl)):
            k = "%s:%s" % (name, p if not p.startswith("_") else i)
            if is_ptr(q):
                pointer(c, nat, k, name, p, q, d, de, e.args[i] if i < len(e.args) else None, where)
            else:
                want = c_kind(q)
                got = py_kind(d)
                if called(d) in ("numpy.ctypeslib.ndpointer", "ctypes.POINTER"):
                    got = ("u", 1)
                c.ob("scalar:" + k, same(got, want), de.where, "a scalar is passed with the type and width the kernel was compiled with", "declared %s ; compiled %s %s" % (show(d, 3), plain(q), p))
                a = e.args[i] if i < len(e.args) else None
                if a is None:
                    continue
                if called(a) and "ctypes.c_" in called(a):
                    x = py_kind(a.a[0])
                    c.ob("value:" + k, same(x, got) if got is None or got[1] != 1 else VIOLATED, where, "the value passed has the declared type", "%s for %s" % (show(a, 3), show(d, 3)))
                elif any(called(x) in NEW for x in [a]) or a.op in ("list", "tuple", "dict"):
                    c.ob("value:" + k, VIOLATED, where, "the value passed has the declared type", "an array for the scalar %s" % p)
                else:
                    c.ob("value:" + k, PROVED, where, "the value passed is converted to the declared type", show(a, 3))
    c.req("called", len(made) >= 5, LIB, "the onset, migration and peak kernels are called by the bindings", "calls of %s" % sorted(made))
    structs(c, nat, made)
    for name in sorted(set(types) - made):
        cf = nat.funcs.get(name)
        c.ob("unused:" + name, PROVED if cf is not None and len(types[name][0].a[0]) == len(cf.params) else VIOLATED, types[name][1].where, "a declared kernel exists with that many parameters", name)
    elsewhere(c)


def pointer(c, nat, k, name, p, q, d, de, a, where):
    st = nat.struct(elem(q))
    if called(d) != "numpy.ctypeslib.ndpointer":
        if called(d) in ("ctypes.POINTER", "numpy.ctypeslib.ctypes.POINTER"):
            c.ob("array:" + k, same(py_kind(d.a[1][0]), c_kind(elem(q))), de.where, "the array elements have the type the kernel reads", "%s ; %s" % (show(d, 4), q))
        else:
            c.ob("array:" + k, VIOLATED if py_kind(d) is not None else UNDECIDED, de.where, "an array parameter is declared as an array", "%s for %s %s" % (show(d, 4), q, p))
        return
    dt, fl, nd = arg(d, "dtype", 0), arg(d, "flags", 3), arg(d, "ndim", 1)
    if st is not None:
        header(c, "layout:" + k, de.where, dt, st)
        dk = None
    else:
        want, dk = c_kind(elem(q)), py_kind(dt)
        s = VIOLATED if dt is None or called(dt) == "numpy.dtype" and dk is None and dt.a[1] and dt.a[1][0].op == "list" else same(dk, want)
        c.ob("array:" + k, s, de.where, "the array elements have the type the kernel reads",
             "declared %s (%s) ; compiled %s %s" % (show(dt, 4) if dt is not None else "any type", text(dk), q, p))
    flags = "" if fl is None else (fl.a[0].v if fl.op == "const" else " ".join(str(x.a[0].v) for x in fl.a[0] if x.op == "const") if fl.op in ("list", "tuple") else None)
    ok = PROVED if flags and re.search(r"\b(C_CONTIGUOUS|C|CONTIGUOUS|CARRAY|CA)\b", str(flags).upper()) else None
    if ok is None:
        fresh = a is not None and any(called(x) in NEW or called(x) == "numpy.ascontiguousarray" for x in [base(a)])
        ok = PROVED if fresh else UNDECIDED if flags is None else VIOLATED
    c.ob("contiguous:" + k, ok, de.where, "only arrays laid out in C order reach the kernel", "flags %r" % flags)
    if a is None:
        return
    b = base(a)
    if called(b) and "ctypes.c_" in called(b) or b.op == "num":
        c.ob("value:" + k, VIOLATED, where, "an array is passed for the array parameter", show(a, 3))
        return
    if st is None:
        x = dtype_of(b)
        if x is not None:
            c.ob("value:" + k, same(x, dk) if x[1] else VIOLATED, where, "the array passed is created with the declared element type", "%s for %s" % (show(b, 4), text(dk)))
    const = re.search(r"\bconst\b", q)
    if const is None and b.op == "sym" and b.a[0] not in ("traveltimes", "onsets", "map4d", "signal"):
        c.ob("value:%s:out" % k, PROVED, where, "output array")


def base(t):
    while t.op in ("mut", "upd", "setitem") and hasattr(t.a[0], "op"):
        t = t.a[0]
    return t


def exports(c, nat):
    d = os.path.join(c.prog.root, nat.DIR)
    rel = nat.DIR + "/qmlib.def"
    try:
        lines = open(os.path.join(d, "qmlib.def")).read().split("\n")
    except OSError:
        c.ob("exports", VIOLATED, rel, "the kernels are listed for export", "file is missing")
        return
    names, on_ = set(), False
    for ln in lines:
        w = ln.split(";")[0].split()
        if not w:
            continue
        if w[0].upper() == "EXPORTS":
            on_ = True
            w = w[1:]
        elif w[0].upper() in ("LIBRARY", "NAME", "DESCRIPTION", "VERSION", "SECTIONS"):
            continue
        if on_ and w:
            names.add(w[0].split("=")[0])
    used = sorted({str(e.fn).split(":", 1)[1] for _, e, _ in calls(c) if str(e.fn).startswith("kernel:")})
    for n in used:
        c.ob("export:" + n, PROVED if n in names else VIOLATED, rel, "every kernel called from Python is exported on platforms that need an export list", "%s not in %s" % (n, sorted(names)))
    for n in sorted(names):
        c.ob("exported:" + n, PROVED if n in nat.funcs else VIOLATED, rel, "every exported name is a kernel that is not private to its file", n)
    for rel2, u in nat.units.items():
        for f in u.funcs.values():
            ps = u.protos.get(f.name, [])
            own = [tuple(plain(p["type"]["qualType"]) for p in x.get("inner", []) if p["kind"] == "ParmVarDecl") for x in ps]
            c.ob("prototype:" + f.name, PROVED if len(set(own)) <= 1 else VIOLATED, "%s:%d" % (rel2, f.line), "header and definition agree", "%s" % own)
            c.ob("variadic:" + f.name, PROVED if "..." not in f.node["type"]["qualType"] else VIOLATED, "%s:%d" % (rel2, f.line), "kernels take a fixed number of arguments")


def structs(c, nat, made):
    """the fields filled in Python are the header's fields in order"""
    for wrapper, e, s in calls(c):
        name = str(e.fn).split(":", 1)[1]
        if name not in made:
            continue
        cf = nat.funcs[name]
        for (p, q), a in zip(cf.params, e.args):
            if not is_ptr(q) or nat.struct(elem(q)) is None:
                continue
            n = len(nat.struct(elem(q)))
            tup = [x for x in subterms(a) if x.op == "tuple" and len(x.a[0]) == n and not any(y.op in ("const",) for y in x.a[0])]
            byname = [x for x in subterms(a) if x.op == "setitem" and x.a[1].op == "const" and isinstance(x.a[1].a[0].v, str)]
            c.ob("filled:%s:%s" % (name, p), PROVED if tup or byname else UNDECIDED, e.where, "every field of the structure is given a value", show(a, 6))


def elsewhere(c):
    """only the binding module touches the library"""
    bad = []
    for n, m in sorted(c.prog.modules.items()):
        if n == LIB:
            continue
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Attribute) and x.attr == "qmlib" or isinstance(x, ast.ImportFrom) and any(a.name == "qmlib" for a in x.names):
                bad.append("%s:%d" % (m.rel, x.lineno))
    c.ob("only", UNDECIDED if bad else PROVED, LIB, "the native library is called through the binding module only", ", ".join(bad))


def loader(c):
    behaves(c, "load", LOADER + "._load_cdll", "native.load", calls=("ctypes.CDLL",), raises=("ImportError",), opaque=(),
            rule="the library built with the package is loaded from the directory the build puts it in")


def rules(c):
    c.do(convention)
    c.do(loader)
    c.do(semantics)
    c.extra_units = sorted(native(c.prog).units) + [native(c.prog).DIR + "/qmlib.def", native(c.prog).DIR + "/qmlib.h"]
