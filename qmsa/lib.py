"""
Model of the library calls QuakeMigrate makes: canonical names (so that
``x.max()``, ``np.max(x)`` and ``np.amax(x)`` are one thing), which calls mutate
their receiver, which return fresh objects, and simple value facts.
"""

import ast
import re

from .terms import *  # noqa
from . import terms as TT
from . import engine as EN

SIGS = {
    "numpy.linspace": ["start", "stop", "num"],
    "numpy.full": ["shape", "fill_value", "dtype"],
    "numpy.zeros": ["shape", "dtype"],
    "numpy.ones": ["shape", "dtype"],
    "numpy.empty": ["shape", "dtype"],
    "numpy.clip": ["a", "a_min", "a_max"],
    "numpy.round": ["a", "decimals"],
    "numpy.sum": ["a", "axis"],
    "numpy.mean": ["a", "axis"],
    "numpy.max": ["a", "axis"],
    "numpy.min": ["a", "axis"],
    "numpy.argmax": ["a", "axis"],
    "numpy.argmin": ["a", "axis"],
    "numpy.nanmax": ["a", "axis"],
    "numpy.stack": ["arrays", "axis"],
    "numpy.percentile": ["a", "q"],
    "numpy.reshape": ["a", "newshape", "order"],
    "numpy.interp": ["x", "xp", "fp"],
    "numpy.where": ["condition", "x", "y"],
    "numpy.array": ["object", "dtype"],
    "numpy.asarray": ["a", "dtype"],
    "numpy.ascontiguousarray": ["a", "dtype"],
    "numpy.unravel_index": ["indices", "shape", "order"],
    "numpy.ravel_multi_index": ["multi_index", "dims"],
    "numpy.concatenate": ["arrays", "axis"],
    "numpy.average": ["a", "axis", "weights"],
    "scipy.interpolate.interp1d": ["x", "y", "kind"],
    "pandas.DataFrame": ["data", "index", "columns"],
    "pandas.read_csv": ["filepath_or_buffer"],
    "pandas.concat": ["objs"],
    "pandas.Series": ["data", "index", "dtype"],
    "open": ["file", "mode"],
    "obspy.read": ["pathname_or_url", "format", "headonly", "starttime", "endtime"],
    "obspy.UTCDateTime": ["a0"],
    "scipy.optimize.curve_fit": ["f", "xdata", "ydata", "p0"],
}
METH_SIGS = {
    "trim": ["starttime", "endtime", "pad", "nearest_sample", "fill_value"],
    "slice": ["starttime", "endtime", "keep_empty_traces", "nearest_sample"],
    "merge": ["method", "fill_value"],
    "to_csv": ["path_or_buf"],
    "write": ["filename", "format"],
    "astype": ["dtype"],
    "get": ["key", "default"],
    "split": ["sep"],
    "detrend": ["type"],
    "mkdir": [],
    "strftime": ["format"],
    "taper": ["max_percentage", "type", "max_length", "side"],
    "filter": ["type"],
    "interpolate": ["sampling_rate", "method", "starttime", "npts"],
    "open": ["mode"],
}


def pos_args(sig, args, kw):
    """move keyword arguments that have a known position"""
    args = list(args)
    kw = dict(kw)
    for i, n in enumerate(sig):
        if i == len(args) and n in kw:
            args.append(kw.pop(n))
    return args, kw


def kw_args(sig, args, kw):
    """name positional arguments where the signature is known"""
    kw = dict(kw)
    rest = []
    for i, a in enumerate(args):
        if i < len(sig) and a.op != "star":
            kw[sig[i]] = a
        else:
            rest.append(a)
    return rest, kw


def _ck(kw):
    return tuple(sorted(kw.items()))


FILE_ARG = {"numpy.save", "matplotlib.pyplot.savefig", "open", "logging.FileHandler", "obspy.read", "pandas.read_csv", "pickle.dump"}


def file_arg(t):
    """a file may be given as a path or as its text"""
    if t.op == "fmt" and len(t.a[0]) == 1 and isinstance(t.a[0][0], tuple) and t.a[0][0][1] == "" and t.a[0][0][0].op in ("path", "ite"):
        return t.a[0][0][0]
    return t


def suffixed(p, suffix):
    """path.with_suffix for a path whose last part has no dot of its own"""
    if p.op != "path" or not is_str(suffix) or not p.a[0]:
        return None
    last = p.a[0][-1]
    if last.op == "fmt":
        if any(isinstance(x, str) and "." in x for x in last.a[0]):
            return None
    elif is_str(last):
        if "." in last.a[0].v:
            return None
    elif last.op not in ("attr", "sym", "sub"):
        return None
    if len(p.a[0]) < 2 and not is_str(last) and last.op != "fmt":
        return None
    return mk("path", p.a[0][:-1] + (fmt([last if is_str(last) or last.op == "fmt" else (last, ""), suffix.a[0].v]),))


DTYPES = {"float64": "float", "float": "float", "f8": "float", "int32": "numpy.int32", "i4": "numpy.int32", "int64": "numpy.int64", "i8": "numpy.int64", "int": "int", "bool": "bool", "float32": "numpy.float32"}


def dtype(x):
    """a type of elements, by its name or as itself"""
    return ext(DTYPES[x.a[0].v]) if is_str(x) and x.a[0].v in DTYPES else x


def function(I, name, args, kw, skw, n):
    name = EN.EXT_ALIAS.get(name, name)
    if name in FILE_ARG and args:
        args = [file_arg(I.snap(args[0])) if args[0].op == "fmt" else args[0]] + list(args[1:])
    if name.startswith("numpy.") and "dtype" in SIGS.get(name, ("dtype",)):
        i = SIGS.get(name, ("dtype",)).index("dtype")
        args = [dtype(x) if i == j and name in SIGS else x for j, x in enumerate(args)]
        kw = {k: dtype(x) if k == "dtype" else x for k, x in kw.items()}
    raw = list(args)
    rawkw = dict(kw)
    # --- object-level builtins -----------------------------------------
    if name in ("copy.copy", "copy.deepcopy") and len(args) == 1:
        r = copy_of(I, args[0], name == "copy.deepcopy", n)
        if name == "copy.copy" and r.op == "ref":
            I.shallow[r] = args[0]
        return r
    if name == "os.makedirs" and args:  # Path(p).mkdir(parents=True, ...)
        where = I.snap(args[0])
        k2 = {"parents": TRUE, "exist_ok": kw["exist_ok"] if "exist_ok" in kw else args[2] if len(args) > 2 else FALSE}
        I.emit("call", n, fn=".mkdir", recv=where if where.op == "path" else path_join(mk("path", ()), where) if is_str(where) or where.op == "fmt" else mk("path", (where,)), kw=k2)
        return NONE
    if name == "isinstance" and len(args) == 2:
        c = I.class_of(args[0])
        if c is not None and args[1].op == "cls":
            return const(any(getattr(b, "qual", None) == args[1].a[0] for b in I.prog.mro(c)))
        a0 = I.snap(args[0])
        if args[1] is ext("str") and (is_str(a0) or a0.op == "fmt"):
            return TRUE
    if name in ("getattr", "hasattr", "setattr", "delattr") and len(args) >= 2 and is_str(args[1]):
        a = args[1].a[0].v
        if name == "setattr":
            I.store_attr(args[0], a, args[2], n)
            return NONE
        if name == "getattr":
            c = I.class_of(args[0])
            v = I.attr_of(args[0], a, n)
            if len(args) > 2 and v.op == "attr" and v.a[1] == a:
                return mk("call", ext("getattr"), (I.snap(args[0]), args[1], I.snap(args[2])), ())
            return v
        if name == "hasattr":
            c = I.class_of(args[0])
            if c is not None:
                if ("f", args[0], a) in I.st.heap:
                    v = I.st.heap[("f", args[0], a)]
                    if not contains(v, lambda x: x is EN.UNBOUND):
                        return TRUE
                if I.prog.find_method(c, a) is not None or I.prog.find_attr(c, a) is not None:
                    return TRUE
            return mk("call", ext("hasattr"), (args[0], args[1]), ())
    if name == "vars" and len(args) == 1:
        return I.attr_of(args[0], "__dict__", n)
    if name == "next" and args:
        it = I.snap(args[0])
        if it.op in ("list", "tuple") and it.a[0]:
            return it.a[0][0]
        if args[0].op == "ref" and EN.called(it) == "iter" and len(it.a[1]) == 1:
            # an iterator of one's own moves on
            x = it.a[1][0]
            I.st.heap[("c", args[0])] = mk("call", ext("iter"), (mk("sub", x, mk("slice", ONE, NONE, NONE)),), ())
            return mk("sub", x, ZERO)
        r = mk("call", ext("next"), tuple(I.snap(a) for a in args), ())
        I.emit("call", n, fn=name, args=[I.snap(a) for a in args], kw={}, result=r)
        return r
    if name in ("list", "tuple", "set", "sorted", "dict", "frozenset"):
        return container(I, name, args, kw, skw, n)
    if name == "itertools.tee" and 1 <= len(args) <= 2 and not kw and (len(args) == 1 or args[1].op == "num"):
        it = mk("call", ext("iter"), (I.snap(args[0]),), ())
        return mk("tuple", tuple(I.newref(it) for _ in range(2 if len(args) == 1 else int(args[1].a[0]))))
    if name == "itertools.pairwise" and len(args) == 1 and not kw:
        x = I.snap(args[0])
        return mk("call", ext("zip"), (x, mk("sub", x, mk("slice", ONE, NONE, NONE))), ())
    if name == "map" and len(args) == 2:
        return map_call(I, args[0], args[1], n)
    if name == "filter" and len(args) == 2:
        return mk("call", ext("filter"), tuple(I.snap(a) for a in args), ())
    sargs = [I.snap(a) for a in args]
    skwv = {k: I.snap(v) for k, v in kw.items()}
    if skw is not None:
        skwv["**"] = skw
    v = _value(I, name, sargs, skwv, n)
    if v is None:
        sig = SIGS.get(name)
        a2, k2 = sargs, skwv
        if sig:
            a2, k2 = pos_args(sig, sargs, skwv)
        v = mk("call", ext(name), tuple(a2), _ck(k2))
    e = I.emit("call", n, fn=name, args=sargs, kw=skwv, result=v)
    if e is not None:
        e.extra = (raw, rawkw)
    # np.X(..., out=target) mutates the target
    if "out" in rawkw:
        o = rawkw["out"]
        I.emit("mutate", n, fn="out", recv=o, root=I.root(o), args=sargs)
        I._set_content(o, v)
        return o
    if name in ("numpy.nan_to_num",) and skwv.get("copy") is FALSE:
        I.emit("mutate", n, fn="out", recv=raw[0], root=I.root(raw[0]), args=sargs)
    if name in ("numpy.random.shuffle", "numpy.put", "numpy.place", "numpy.copyto", "numpy.fill_diagonal", "random.shuffle") and raw:
        I.emit("mutate", n, fn=name, recv=raw[0], root=I.root(raw[0]), args=sargs)
        I._set_content(raw[0], mk("mut", name, sargs[0], tuple(sargs[1:]), ()))
        return NONE
    if raw and name.startswith("numpy.") and name[6:] in VIEWS and v is not raw[0] and v is not sargs[0]:
        I.views[v] = raw[0]
    if name in EN.FRESH_CALLS or name.startswith("obspy.core.event."):
        r = I.newref(v)
        if e is not None:
            e.result = r
        return r
    if name in ("sys.exit", "exit", "quit", "os._exit"):
        I.emit("raise", n, fn="SystemExit")
        I.st.live = False
    return v


# results share the memory of their argument
VIEWS = {"ravel", "reshape", "squeeze", "transpose", "swapaxes", "view", "asarray", "asanyarray",
         "atleast_1d", "ascontiguousarray", "moveaxis", "flip", "diagonal", "broadcast_to"}


def copy_of(I, o, deep, n):
    c = I.class_of(o)
    if c is not None:
        r = I.newref(cls=c)
        I.emit("call", n, fn="copy.deepcopy" if deep else "copy.copy", args=[o], kw={}, result=r)
        seen = False
        for k, v in list(I.st.heap.items()):
            if k[0] == "f" and k[1] is o:
                seen = True
                nv = v
                if deep and v.op == "ref":
                    nv = copy_of(I, v, True, n) if I.class_of(v) is None or True else v
                I.st.heap[("f", r, k[2])] = nv
        if o.op != "ref":
            I.copy_src = getattr(I, "copy_src", {})
            I.copy_src[r] = o
            # unknown fields of the copy equal those of the source
            I.types.setdefault(r, c)
            I.lazy_copy = getattr(I, "lazy_copy", {})
            I.lazy_copy[r] = o
        return r
    v = I.snap(o)
    if is_const(v):
        return v
    r = I.newref(v)
    I.emit("call", n, fn="copy.deepcopy" if deep else "copy.copy", args=[v], kw={}, result=r)
    return r


def _at(I, xs, j):
    r = I._getitem(xs, j)
    return mk("sub", xs, j) if r is None else r


def container(I, name, args, kw, skw, n):
    if name == "dict":
        if not args and skw is None:
            return I.newref(mk("dict", tuple((const(k), v) for k, v in kw.items())))
        if args and not kw and skw is None:
            c = I.content(args[0]) if args[0].op == "ref" else args[0]
            if c.op == "call" and c.a[0] is ext("zip") and len(c.a[1]) == 2:
                ks, vs = c.a[1]
                kc = I.content(ks) if ks.op == "ref" else ks
                vc = I.content(vs) if vs.op == "ref" else vs
                if kc.op in ("list", "tuple") and vc.op in ("list", "tuple") and len(kc.a[0]) == len(vc.a[0]):
                    return I.newref(mk("dict", tuple(zip(kc.a[0], vc.a[0]))))
                if kc.op in ("list", "tuple") and all(is_const(x) for x in kc.a[0]) and vc.op not in ("list", "tuple", "map", "concat"):
                    # lengths agree by assumption of zip use
                    return I.newref(mk("dict", tuple((k, _at(I, I.snap(vs), num(j))) for j, k in enumerate(kc.a[0]))))
            return I.newref(I.snap(c) if c.op != "dict" else c)
        v = mk("call", ext("dict"), tuple(I.snap(a) for a in args), _ck({k: I.snap(x) for k, x in kw.items()}))
        return I.newref(v)
    if not args:
        return I.newref(mk("list", ())) if name in ("list", "tuple") else I.newref(mk("set", ()))
    a = args[0]
    c = I.content(a) if a.op == "ref" else a
    if name in ("list", "tuple"):
        if c.op in ("list", "tuple"):
            if name == "tuple":
                return mk("tuple", c.a[0])
            return I.newref(mk("list", c.a[0]))
        if c.op in ("map", "concat", "setitem"):
            return I.newref(c)
        if c.op == "dict":
            return I.newref(mk("list", tuple(k for k, _ in c.a[0])))
        if c.op == "call" and c.a[0] is ext("range") and all(x.op == "num" for x in c.a[1]):
            xs = list(range(*[int(x.a[0]) for x in c.a[1]]))
            if len(xs) < 32:
                return I.newref(mk("list", tuple(num(x) for x in xs)))
        s = I.snap(c)
        if s.op == "call" and s.a[0] in (ext("dict.keys"), ext("sorted"), ext("list")):
            return I.newref(s)
        return I.newref(mk("call", ext("list"), (s,), ()))
    s = I.snap(c)
    if name in ("set", "frozenset") and s.op in ("list", "tuple", "set"):
        return I.newref(mk("set", tuple(sorted(set(s.a[0]), key=lambda t: t.id))))
    v = mk("call", ext(name), (s,), _ck({k: I.snap(x) for k, x in kw.items()}))
    I.emit("call", n, fn=name, args=[s], kw={k: I.snap(x) for k, x in kw.items()}, result=v)
    return I.newref(v)


def map_call(I, f, it, n):
    ref = I.newref(mk("list", ()))
    cnt, el, xs, fl = I.iter_info(it)

    def leaf(x):
        v = I.apply(f, [x], {}, None, n)
        I.st.heap[("c", ref)] = EN.concat(I.content(ref), mk("list", (v,)))

    if xs is not None and len(xs) <= I.unroll:
        for x in xs:
            leaf(x)
        return ref
    if el is None or f.op not in ("func", "bound", "ext", "cls"):
        return mk("call", ext("map"), (I.snap(f), I.snap(it)), ())
    key = I.loopkey(cnt)
    saved = dict(I.st.env)
    k = mk("k", key)
    I.loop(None, key, el, fl, None, [EN._Thunk(lambda: leaf(el(k)))])
    I.st.env = saved
    return ref


def _minmax(name, xs):
    flat = set()
    for x in xs:
        if x.op == "call" and x.a[0] is ext(name) and not x.a[2] and len(x.a[1]) > 1:
            flat.update(x.a[1])
        else:
            flat.add(x)
    nums = [x for x in flat if x.op == "num"]
    if len(nums) > 1:
        f = (min if name == "min" else max)(nums, key=lambda x: x.a[0])
        flat -= set(nums)
        flat.add(f)
    if len(flat) == 1:
        return next(iter(flat))
    return mk("call", ext(name), tuple(sorted(flat, key=lambda t: t.id)), ())


ONE_ARG_FOLD = {
    "numpy.ceil": __import__("math").ceil,
    "numpy.floor": __import__("math").floor,
}


def _value(I, name, a, kw, n):
    """canonical value of a pure call, or None"""
    na = len(a)
    if name in ("numpy.any", "numpy.all") and na == 1 and not kw:
        x = a[0]
        inv = x.op == "not"
        y = x.a[0] if inv else x
        if y.op == "attr" and y.a[1] == "values":
            y = y.a[0]
        if y.op == "call" and y.a[0] is ext("pandas.isnull") and y.a[1][0].op == "attr" and y.a[1][0].a[1] == "values":
            y = mk("call", y.a[0], (y.a[1][0].a[0],), ())
        x = not_(y) if inv else y
        if name == "numpy.all" and TT._boolish(x) and x not in (TRUE, FALSE):
            return not_(mk("call", ext("numpy.any"), (not_(x),), ()))
        if name == "numpy.any" and x.op == "not" and not TT._boolish(x.a[0]):
            return not_(mk("call", ext("numpy.all"), (x.a[0],), ()))
        if x is not a[0]:
            return mk("call", ext(name), (x,), ())
    if name == "len" and na == 1:
        x = a[0]
        if x.op in ("list", "tuple", "dict", "set") and not any(
            isinstance(y, T) and y.op in ("star", "flat") for y in x.a[0]
        ):
            return num(len(x.a[0]))
        if x.op == "map" and x.a[1] is TRUE and all(y.op != "flat" for y in x.a[2]):
            return mul(x.a[0].a[0], num(len(x.a[2])))
        if x.op == "call" and x.a[0] is ext("range") and len(x.a[1]) == 1:
            return x.a[1][0]
        if x.op == "call" and x.a[0] in (ext("dict.keys"), ext("dict.values"), ext("dict.items"), ext("list"), ext("sorted")) and len(x.a[1]) == 1:
            return mk("call", ext("len"), (x.a[1][0],), ())
        if is_str(x):
            return num(len(x.a[0].v))
        if x.op == "concat" and any(TT._listlike(y) for y in x.a[0]):
            r = ZERO
            for y in x.a[0]:
                v = _value(I, "len", [y], kw, n)
                r = add(r, mk("call", ext("len"), (y,), ()) if v is None else v)
            return r
        if x.op == "ite" and TT._listlike(x):
            p, q = (_value(I, "len", [y], kw, n) for y in (x.a[1], x.a[2]))
            return ite(x.a[0], mk("call", ext("len"), (x.a[1],), ()) if p is None else p, mk("call", ext("len"), (x.a[2],), ()) if q is None else q)
        return None
    if name == "int" and na == 1:
        x = a[0]
        if x.op == "num":
            return num(int(x.a[0]))
        if x.op == "call" and x.a[0] in (ext("int"), ext("len")):
            return x
        if is_str(x):
            try:
                return num(int(x.a[0].v))
            except ValueError:
                return None
        if x.op == "call" and x.a[0] is ext("float") and len(x.a[1]) == 1 and not is_str(x.a[1][0]):
            return mk("call", ext("int"), (x.a[1][0],), ())
        return None
    if name == "float" and na == 1:
        if a[0].op == "num":
            return a[0]
        if is_str(a[0]) and a[0].a[0].v.lower() in ("nan", "inf"):
            return NAN if a[0].a[0].v.lower() == "nan" else INF
        if a[0].op == "call" and a[0].a[0] is ext("float"):
            return a[0]
        return None
    if name in ("bool",) and na == 1:
        return truth(a[0])
    if name == "str" and na == 1:
        if is_str(a[0]) or a[0].op == "fmt":
            return a[0]
        if a[0].op == "num" and a[0].a[0].denominator == 1:
            return const(str(int(a[0].a[0])))
        if a[0].op == "call" and a[0].a[0] is ext("str"):
            return a[0]
        return mk("fmt", ((a[0], ""),))
    if name == "abs" and na == 1:
        return absolute(a[0])
    if name in ("min", "max") and not (set(kw) - {"key", "default"}):
        if na == 1 and not kw:
            x = a[0]
            if x.op in ("list", "tuple", "set") and x.a[0] and not any(y.op in ("star", "flat") for y in x.a[0]):
                return _minmax(name, x.a[0])
            return mk("call", ext("numpy." + name), (x,), ())
        if na > 1 and not kw and not any(x.op == "star" for x in a):
            return _minmax(name, a)
        return None
    if name == "numpy.clip" and na + len(kw) >= 2:
        b, k2 = pos_args(["a", "a_min", "a_max"], a, {("a_min" if k == "min" else "a_max" if k == "max" else k): v for k, v in kw.items()})
        x = b[0]
        lo = b[1] if len(b) > 1 else NONE
        hi = b[2] if len(b) > 2 else k2.pop("a_max", NONE)
        k2.pop("out", None)
        if lo is not NONE:
            x = _minmax("max", [x, lo])
        if hi is not NONE and hi is not ext("numpy.inf"):
            x = _minmax("min", [x, hi])
        return x
    if name == "numpy.ptp" and na == 1 and not kw:
        ends = [_value(I, f, a, {}, n) or mk("call", ext(f), (a[0],), ()) for f in ("numpy.max", "numpy.min")]
        return sub_(*ends)
    if name in ("numpy.max", "numpy.min") and na == 1 and not kw:
        x = a[0]
        if x.op in ("list", "tuple") and x.a[0] and not any(y.op in ("star", "flat") for y in x.a[0]):
            return _minmax(name[6:], x.a[0])
    if name in ("numpy.sum", "sum") and na == 1 and not kw:
        x = a[0]
        if x.op in ("list", "tuple") and not any(y.op in ("star", "flat") for y in x.a[0]):
            return add(*x.a[0]) if x.a[0] else ZERO
        if x.op == "map" and len(x.a[2]) == 1 and x.a[2][0].op != "flat":
            if x.a[1] is TRUE:
                return mk("sum", x.a[0], TRUE, x.a[2][0])
        return mk("call", ext("numpy.sum"), (x,), ())
    if name == "numpy.sqrt" and na == 1 and not kw:
        return power(a[0], "1/2")
    if name in ("numpy.flatnonzero", "numpy.nonzero") and na == 1 and not kw:
        w = mk("call", ext("numpy.where"), (a[0],), ())
        return w if name == "numpy.nonzero" else mk("sub", w, ZERO)
    if name == "numpy.square" and na == 1:
        return power(a[0], 2)
    if name == "numpy.hypot" and na == 2:
        return power(add(power(a[0], 2), power(a[1], 2)), "1/2")
    if name in ("op.mul", "op.add", "op.sub", "op.div") and na == 1 and not kw and a[0].op == "star":
        # two operands, whatever they come from
        return _value(I, name, [mk("sub", a[0].a[0], ZERO), mk("sub", a[0].a[0], ONE)], kw, n)
    if name in ("op.mul", "op.add", "op.sub", "op.div") and na == 2 and not kw:
        return {"op.mul": mul, "op.add": add, "op.sub": sub_, "op.div": div}[name](*a)
    if name == "op.neg" and na == 1:
        return neg(a[0])
    if name == "op.pow" and na == 2:
        return I.pow(*a)
    if name in ("op.and", "op.or") and na == 2:
        return (and_ if name == "op.and" else or_)(*a)
    if name == "op.not" and na == 1:
        return not_(a[0])
    if name in ("op.lt", "op.le", "op.gt", "op.ge") and na == 2:
        return {"op.lt": lt, "op.le": le, "op.gt": lambda x, y: lt(y, x), "op.ge": lambda x, y: le(y, x)}[name](*a)
    if name in ("op.eq", "op.ne") and na == 2:
        r = eq(*a)
        return r if name == "op.eq" else not_(r)
    if name == "math.ceil" and na == 1:
        return _value(I, "int", [mk("call", ext("numpy.ceil"), (a[0],), ())], {}, n) or mk("call", ext("int"), (mk("call", ext("numpy.ceil"), (a[0],), ()),), ())
    if name == "math.floor" and na == 1:
        return mk("call", ext("int"), (mk("call", ext("numpy.floor"), (a[0],), ()),), ())
    if name in ("numpy.ceil", "numpy.floor") and na == 1 and not kw:
        if a[0].op == "num":
            return num(ONE_ARG_FOLD[name](a[0].a[0]))
    if name == "numpy.finfo" and na == 1 and not kw:
        x = a[0]
        if (x.op == "num" and not isinstance(x.a[0], int)) or x is ext("numpy.float64") or x is ext("numpy.double"):
            return mk("call", ext(name), (ext("float"),), ())
    if name == "round" and na == 1:
        return mk("call", ext("int"), (mk("call", ext("numpy.round"), (a[0],), ()),), ())
    if name == "round" and na == 2:
        return mk("call", ext("numpy.round"), tuple(a), ())
    if name == "numpy.round":
        b, k2 = pos_args(["a", "decimals"], a, kw)
        if len(b) == 2 and b[1] is ZERO:
            b = b[:1]
        return mk("call", ext(name), tuple(b), _ck(k2))
    if name in ("any", "all") and na == 1:
        x = a[0]
        if x.op in ("list", "tuple") and not any(y.op in ("star", "flat") for y in x.a[0]):
            return (or_ if name == "any" else and_)(*x.a[0])
        if x.op == "map" and len(x.a[2]) == 1 and x.a[2][0].op != "flat":
            key, c, (v,) = x.a
            if name == "any":
                return mk("someiter", key, and_(c, truth(v)))
            return not_(mk("someiter", key, and_(c, not_(truth(v)))))
        return mk("call", ext(name), (x,), ())
    if name in ("pathlib.Path", "pathlib.PurePath") and na >= 1:
        r = a[0] if a[0].op == "path" else mk("path", ())
        if a[0].op != "path":
            if is_str(a[0]):
                r = path_join(mk("path", ()), a[0])
            else:
                r = mk("path", (a[0],))
        for x in a[1:]:
            r = path_join(r, x)
        return r
    if name == "pathlib.Path" and na == 0:
        return mk("path", (const("."),))
    if name == "os.path.join" and na >= 1:
        r = a[0] if a[0].op == "path" else mk("path", (a[0],))
        for x in a[1:]:
            r = path_join(r, x)
        return r
    if name == "obspy.UTCDateTime" and na == 1 and not kw:
        x = a[0]
        if x.op == "call" and x.a[0] is ext(name):
            return x
        if x.op == "poly" and any(
            y.op == "call" and y.a[0] is ext(name) for m, _ in x.a[0] for y, _e in m
        ):
            return x
        return None
    if name in ("numpy.zeros", "numpy.ones", "numpy.empty", "numpy.full"):
        b, k2 = pos_args(SIGS[name], a, kw)
        if b and b[0].op == "tuple" and len(b[0].a[0]) == 1:
            b[0] = b[0].a[0][0]
        if b and b[0].op == "list":
            b[0] = b[0].a[0][0] if len(b[0].a[0]) == 1 else mk("tuple", b[0].a[0])
        return mk("call", ext(name), tuple(b), _ck(k2))
    if name in ("numpy.array", "numpy.asarray"):
        # value-transparent wrappers are kept, with canonical name
        b, k2 = pos_args(["object", "dtype"], a, kw)
        if b and b[0].op == "tuple":
            b[0] = mk("list", b[0].a[0])
        if len(b) == 1 and not k2 and b[0].op == "call" and b[0].a[0] is ext("numpy.array"):
            return b[0]
        return mk("call", ext("numpy.array"), tuple(b), _ck(k2))
    if name == "pandas.Series":
        # values with their labels, however they are paired
        b, k2 = pos_args(SIGS[name], a, kw)
        if b and b[0] in (TRUE, FALSE) and len(b) <= 2 and set(k2) <= {"index", "dtype"}:
            return b[0]  # a condition met by every row, or none
        ix = b[1] if len(b) == 2 else k2.get("index") if len(b) == 1 and set(k2) == {"index"} else None
        if ix is not None and b[0].op in ("list", "tuple") and ix.op in ("list", "tuple") and len(ix.a[0]) == len(b[0].a[0]) == len(set(ix.a[0])) and all(is_const(x) for x in ix.a[0]):
            return mk("call", ext(name), (mk("dict", tuple(zip(ix.a[0], b[0].a[0]))),), ())
    if name == "numpy.isnan" and na == 1:
        return mk("call", ext("pandas.isnull"), tuple(a), ())
    if name in ("numpy.sum", "numpy.mean"):
        b, k2 = pos_args(["a", "axis"], a, kw)
        if name == "numpy.sum" and len(b) == 2 and not k2:
            return mk("call", ext(name), (_whole(b[0]), b[1]), ())
        if name == "numpy.mean" and len(b) == 2 and not k2 and b[1] is ZERO:
            m = _whole(b[0])
            n_ = m
            while n_.op == "poly" and len(n_.a[0]) == 1 and n_.a[0][0][1] == 1 and len(n_.a[0][0][0]) == 1:
                n_ = n_.a[0][0][0][0][0]  # as many rows in the squares as in the values
            return mul(mk("call", ext("numpy.sum"), (m, ZERO), ()), power(_len(I, n_, n), -1))
        return mk("call", ext(name), tuple(b), _ck(k2))
    if name == "type" and na == 1:
        c = I.class_of(a[0])
        if c is not None:
            return mk("cls", c.qual)
    return None


def _len(I, x, n):
    v = _value(I, "len", [x], {}, n)
    return mk("call", ext("len"), (x,), ()) if v is None else v


def _whole(x):
    """arithmetic on each element of an array, as arithmetic on the array"""
    if x.op == "map" and x.a[1] is TRUE and len(x.a[2]) == 1 and x.a[2][0].op == "poly":
        k, e = mk("k", x.a[0]), x.a[2][0]
        for y in TT.subterms(e):
            if y.op == "sub" and y.a[1] is k and x.a[0].a[0] is mk("call", ext("len"), (y.a[0],), ()):
                w = TT.subst(e, lambda z: y.a[0] if z is y else None)
                return x if TT.contains(w, lambda z: z is k) else w
    return x


def _elements(b):
    return b.a[1][0] if EN.called(b) in ("set", "list", "tuple", "frozenset") and len(b.a[1]) == 1 else b


def listed(t):
    """a collection of a few constants, written out"""
    return t.op in ("set", "list", "tuple") and len(t.a[0]) <= 12 and all(is_const(x) for x in t.a[0])


def subset(a, b):
    """whether a few listed constants are all in a collection"""
    return and_(*[in_(x, _elements(b)) for x in a.a[0]]) if listed(a) else None


def without(a, b):
    """those of a few listed constants that are not in a collection"""
    if not listed(a):
        return None
    none = mk("list", ())
    return mk("concat", tuple(ite(in_(x, _elements(b)), none, mk("list", (x,))) for x in a.a[0]))


def method(I, o, attr, args, kw, skw, n):
    # ---- strings -------------------------------------------------------
    so = None
    if is_str(o) or o.op == "fmt":
        r = str_method(I, o, attr, args, kw)
        if r is not None:
            return r
    if attr == "format" and o.op == "ite" and all(is_str(x) or x.op == "fmt" for x in o.a[1:]):
        r = [str_method(I, x, attr, args, kw) for x in o.a[1:]]
        if None not in r:
            return ite(o.a[0], *r)
    if attr in ("issubset", "issuperset") and len(args) == 1 and not kw:
        a, b = I.snap(o), I.snap(args[0])
        if attr == "issuperset":
            a, b = b, a
        r = subset(a, b)
        if r is not None:
            return r
    if attr == "difference" and len(args) == 1 and not kw:
        r = without(I.snap(o), I.snap(args[0]))
        if r is not None:
            return r
    # ---- paths ---------------------------------------------------------
    if attr == "joinpath":
        r = I.snap(o)
        for x in args:
            r = path_join(r, I.snap(x))
        return r
    if attr == "with_suffix" and len(args) == 1 and not kw:
        r = suffixed(I.snap(o), I.snap(args[0]))
        if r is not None:
            return r
    if attr == "savefig":
        return function(I, "matplotlib.pyplot.savefig", args, kw, skw, n)
    if attr == "open" and o.op in ("path", "ref") and I.snap(o).op == "path" or attr == "open" and o.op == "path":
        return function(I, "open", [I.snap(o)] + list(args), kw, skw, n)
    if attr in ("to_csv", "write") and args and args[0].op == "fmt":
        args = [file_arg(I.snap(args[0]))] + list(args[1:])
    if attr in ("get",) and len(args) in (1, 2):
        c = I.content(o) if o.op in ("ref", "sym") else o
        k = I.snap(args[0])
        d = args[1] if len(args) > 1 else kw.get("default", NONE)
        if c.op == "dict" and all(is_const(x) for x, _ in c.a[0]) and is_const(k):
            for x, v in c.a[0]:
                if x is k:
                    return v
            return d
        if c.op == "dict" and 0 < len(c.a[0]) <= 24 and all(is_str(x) for x, _ in c.a[0]) and d.op != "ref":
            r = d
            for x, v in reversed(c.a[0]):
                r = ite(eq(k, x), v, r)
            return r
        if c.op == "kwmerge" and is_const(k):
            for x, v in c.a[1]:
                if x == k.a[0].v:
                    return v
            c = c.a[0]
        r = I._getitem(c, k) if c.op == "setitem" else None
        if r is not None and r.op != "sub":
            return r
        while c.op == "mut" and c.a[0] == "pop" and is_const(k) and len(c.a[2]) == 2 and is_const(c.a[2][0]) and c.a[2][0] is not k and starred(c.a[1]):
            c = c.a[1]
        whole = c if starred(c) else I.snap(c)
        if d.op == "ref":
            # a mutable default: value semantics on the content
            dd = I.snap(d)
            t = mk("kwget", whole, k.a[0].v if is_str(k) else k, dd)
            if dd.op not in ("dict", "list"):
                return t
            r = I.newref(t)
            if d in I.origin:
                I.origin[r] = I.origin[d]
            return r
        return mk("kwget", whole, k.a[0].v if is_str(k) else k, I.snap(d))
    if attr in ("items", "keys", "values") and not args and not kw:
        c = I.content(o) if o.op in ("ref",) else o
        if c.op == "dict":
            return mk("call", ext("dict." + attr), (c,), ())
        return mk("call", ext("dict." + attr), (I.snap(o),), ())
    if attr == "iterrows" and not args:
        return mk("call", ext("pandas.iterrows"), (I.snap(o),), ())
    if attr == "copy" and not kw.get("_x"):
        c = I.class_of(o)
        return copy_of(I, o, False, n)
    if attr == "update" and len(args) == 1 and not kw and starred(I.content(args[0]) if args[0].op == "ref" else args[0]):
        # one entry after the other
        sd = I.snap(args[0])
        key = I.loopkey(mk("call", ext("len"), (sd,), ()))
        saved = dict(I.st.env)
        dk = mk("dkey", sd, mk("k", key))
        I.loop(None, key, lambda k: mk("dkey", sd, k), None, None, [EN._Thunk(lambda: I.store_sub(o, dk, mk("sub", sd, dk), n))])
        I.st.env = saved
        return NONE
    if attr == "update" and len(args) == 1 and o.op == "ref":
        c = I.content(o)
        u = I.content(args[0]) if args[0].op == "ref" else args[0]
        if u.op == "dict" and not kw:
            I.emit("mutate", n, fn="update", recv=o, root=I.root(o), args=[I.snap(u)])
            for k, v in u.a[0]:
                c = I._setitem(c, k, v)
            I._set_content(o, c)
            return NONE
    # attribute dictionary of instances
    if attr == "update" and o.op == "attr" and o.a[1] == "__dict__" and I.class_of(o.a[0]) is not None:
        inst = o.a[0]
        v = I.snap(args[0]) if args else NONE
        I.emit("setattr", n, fn="__dict__.update", recv=inst, root=I.root(inst), args=[v])
        for h in [h for h in I.st.heap if h[0] == "f" and h[1] is inst and h[2] != "$dict"]:
            I.st.heap[h] = mk("kwget", v, h[2], I.snap(I.st.heap[h]))
        I.st.heap[("f", inst, "$dict")] = v
        return NONE
    if attr == "pop" and len(args) == 2 and starred(I.content(o)) and is_str(args[0]):
        # the entry as get() gives it; the others are left as they are
        r = method(I, o, "get", args, kw, skw, n)
        mutate(I, o, attr, args, kw, n, skw)
        return r
    inplace = kw.get("inplace")
    mutates = False
    if attr in EN.MUTATORS:
        mutates = True
        if attr in ("filter", "merge", "interpolate", "resample", "normalize", "remove", "insert", "pop", "update", "sort", "rotate"):
            mutates = True
        # module-like receivers
        if o.op in ("ext", "mod"):
            mutates = False
        if attr == "merge" and args and o.op != "ref" and "on" in kw:
            mutates = False
        if attr == "filter" and I.content(o) is o and not args and kw and set(kw) <= {"like", "regex", "items", "axis"}:
            mutates = False  # labels of a table
    elif attr == "add" and o.op == "ref" and I.content(o).op in ("set", "mut", "phi", "call", "ite"):
        mutates = True
    if attr in EN.PD_INPLACE or inplace is not None:
        mutates = inplace is not None and inplace is not FALSE
    if mutates:
        return mutate(I, o, attr, args, kw, n, skw)
    sargs = [I.snap(a) for a in args]
    skwv = {k: I.snap(v) for k, v in kw.items()}
    if skw is not None:
        skwv["**"] = skw
    if skw is not None:
        skwv["**"] = skw
    so = I.snap(o)
    if attr in EN.NP_METHODS:
        nm = EN.NP_METHODS[attr]
        v = _value(I, nm, [so] + sargs, skwv, n)
        if v is None:
            a2, k2 = pos_args(SIGS.get(nm, []), [so] + sargs, skwv)
            v = mk("call", ext(nm), tuple(a2), _ck(k2))
        e = I.emit("call", n, fn=nm, recv=o, args=[so] + sargs, kw=skwv, result=v)
        if attr == "flatten":
            v = I.newref(v)
            if e is not None:
                e.result = v
        elif attr in VIEWS and v is not o:
            I.views[v] = o
        return v
    if attr in ("clip",):
        v = _value(I, "numpy.clip", [so] + sargs, skwv, n)
        if v is not None:
            I.emit("call", n, fn="numpy.clip", recv=o, args=[so] + sargs, kw=skwv, result=v)
            return v
    if attr in ("isna", "isnull") and not args:
        return mk("call", ext("pandas.isnull"), (so,), ())
    if attr in ("notna", "notnull") and not args:
        return not_(mk("call", ext("pandas.isnull"), (so,), ()))
    if attr == "between" and len(args) >= 2 and set(kw) <= {"inclusive"}:
        how = sargs[2] if len(args) == 3 else skwv.get("inclusive", const("both"))
        if len(args) <= 3 and is_str(how) and how.a[0].v in ("both", "left", "right", "neither"):
            how = how.a[0].v
            return and_((le if how in ("both", "left") else lt)(sargs[0], so), (le if how in ("both", "right") else lt)(so, sargs[1]))
    if attr == "assign" and not args and kw and not any(v.op in ("func", "bound", "cls") for v in kw.values()):
        v = so
        for k in kw:
            v = I._setitem(v, TT.const(k), skwv[k])
        return I.newref(v)
    if attr in ("to_numpy",) and not args:
        return mk("attr", so, "values")
    if attr in ("ge", "gt", "le", "lt", "eq", "ne", "mul", "add", "sub", "div") and len(args) == 1 and not kw:
        v = _value(I, "op." + attr, [so] + sargs, {}, n)
        if v is not None:
            return v
    if attr == "astype":
        sargs, skwv = [dtype(x) for x in sargs], {k: dtype(x) if k == "dtype" else x for k, x in skwv.items()}
    if attr in METH_SIGS and attr not in ("get",):
        a2, k2 = kw_args(METH_SIGS[attr], sargs, skwv)
    else:
        a2, k2 = sargs, skwv
    v = mk("call", mk("meth", so, attr), tuple(a2), _ck(k2))
    e = I.emit("call", n, fn="." + attr, recv=o, args=sargs, kw=skwv, result=v, root=I.root(o))
    if e is not None:
        e.extra = so
    if attr in ("slice", "select", "append_", "groupby", "dropna", "drop", "reset_index", "sort_values", "rename", "fillna"):
        r = I.newref(v)
        if attr == "select":
            I.shallow[r] = o
        return r
    return v


def starred(c):
    """keyword arguments collected by a function"""
    while c.op == "mut" and c.a[0] == "pop":
        c = c.a[1]
    return c.op == "sym" and str(c.a[0]).startswith("**") or c.op == "kwmerge"


def mutate(I, o, attr, args, kw, n, skw=None):
    sargs = [I.snap(a) for a in args]
    skwv = {k: I.snap(v) for k, v in kw.items()}
    if skw is not None:
        skwv["**"] = skw
    if o.op == "ite" and (o.a[1].op == "ref" or o.a[2].op == "ref"):
        box = {}

        def go(x, s):
            box[s] = mutate(I, x, attr, args, kw, n, skw)

        I.branch(o.a[0], lambda: go(o.a[1], "a"), lambda: go(o.a[2], "b"))
        return ite(o.a[0], box.get("a", EN.UNBOUND), box.get("b", EN.UNBOUND))
    e = I.emit("mutate", n, fn=attr, recv=o, root=I.root(o), args=sargs, kw=skwv)
    c = I.content(o)
    if e is not None:
        e.extra = I.snap(o)
    if attr == "append" and len(args) == 1:
        if c.op == "call" and c.a[0] in (ext("obspy.Stream"),) and not c.a[1] and not c.a[2]:
            c = mk("list", ())
        if c.op in ("list", "concat", "map", "phi", "mapto", "ite", "setitem", "repeat", "call", "sub", "attr", "sym", "fold", "mut", "upd"):
            I._set_content(o, EN.concat(c, mk("list", (args[0],))))
            return NONE
    if attr == "extend" and len(args) == 1:
        b = I.content(args[0]) if args[0].op == "ref" else args[0]
        if c.op == "call" and c.a[0] in (ext("obspy.Stream"),) and not c.a[1] and not c.a[2]:
            c = mk("list", ())
        if b.op not in ("list", "tuple", "map", "concat"):
            b = mk("items", I.snap(b)) if b.op != "items" else b
        if c.op not in ("dict",):
            I._set_content(o, EN.concat(c, b))
            return NONE
    if attr == "insert" and len(args) == 2 and args[0].op == "num" and c.op in ("list", "concat", "map", "phi", "ite"):
        i = int(args[0].a[0])
        if c.op == "list" and 0 <= i:
            I._set_content(o, mk("list", c.a[0][:i] + (args[1],) + c.a[0][i:]))
            return NONE
        if i == 0:
            I._set_content(o, EN.concat(mk("list", (args[1],)), c))
            return NONE
    if attr in ("clear", "reverse") and not args and c.op == "list":
        I._set_content(o, mk("list", c.a[0][::-1] if attr == "reverse" else ()))
        return NONE
    if attr == "pop":
        if c.op == "list" and not args and c.a[0]:
            I._set_content(o, mk("list", c.a[0][:-1]))
            return c.a[0][-1]
        if c.op == "list" and args and args[0].op == "num" and 0 <= int(args[0].a[0]) < len(c.a[0]):
            i = int(args[0].a[0])
            I._set_content(o, mk("list", c.a[0][:i] + c.a[0][i + 1:]))
            return c.a[0][i]
        v = mk("call", mk("meth", I.snap(o), "pop"), tuple(sargs), _ck(skwv))
        I._set_content(o, mk("mut", attr, I.snap(c), tuple(sargs), _ck(skwv)))
        return v
    a2, k2 = sargs, skwv
    if attr in METH_SIGS:
        a2, k2 = kw_args(METH_SIGS[attr], sargs, skwv)
    if attr == "add" and len(args) == 1:
        a2, k2 = sargs, {}
    if attr in EN.PD_INPLACE and kw.get("inplace") is TRUE and skw is None:
        # the same table as from the operation that returns one
        I._set_content(o, mk("call", mk("meth", I.snap(c), attr), tuple(a2), _ck({k: v for k, v in k2.items() if k != "inplace"})))
        return NONE
    I._set_content(o, mk("mut", attr, I.snap(c), tuple(a2), _ck(k2)))
    if attr in ("append", "extend", "insert", "remove", "clear", "reverse", "setdefault", "discard", "add", "put", "fill", "update") or kw.get("inplace") is TRUE:
        if attr == "setdefault":
            return mk("call", mk("meth", I.snap(c), attr), tuple(sargs), ())
        return NONE
    if attr == "sort" and c.op in ("list", "map", "concat"):
        return NONE
    return o


_FMT = re.compile(r"\{([^{}]*)\}")


def str_method(I, o, attr, args, kw):
    if attr == "format" and o.op == "fmt" and sum(not isinstance(x, str) for x in o.a[0]) < 6000:
        # values already put in stay as they are
        held = [x for x in o.a[0] if not isinstance(x, str)]
        n = iter(range(len(held)))
        r = str_method(I, const("".join(x if isinstance(x, str) else chr(0xE000 + next(n)) for x in o.a[0])), attr, args, kw)
        if r is None:
            return None
        parts = []
        for x in fmt_parts(r):
            if not isinstance(x, str):
                parts.append(x)
                continue
            for bit in re.split("([\ue000-\uf8ff])", x):
                parts.append(held[ord(bit) - 0xE000] if len(bit) == 1 and "\ue000" <= bit <= "\uf8ff" else bit)
        return fmt([x for x in parts if x != ""])
    if attr == "format" and is_str(o):
        s = o.a[0].v
        parts = []
        pos = 0
        auto = 0
        s2 = s.replace("{{", "\x00").replace("}}", "\x01")
        fix = lambda z: z.replace("\x00", "{").replace("\x01", "}")  # noqa
        for m in _FMT.finditer(s2):
            parts.append(fix(s2[pos:m.start()]))
            pos = m.end()
            fld, _, spec = m.group(1).partition(":")
            fld, _, conv = fld.partition("!")
            mm = re.match(r"^([A-Za-z_]\w*|\d*)((?:\.\w+|\[[^\]]*\])*)$", fld)
            if not mm:
                return None
            base, rest = mm.group(1), mm.group(2)
            open_ = any(k is None or not isinstance(k, str) or k.startswith("*") for k in kw) or any(x.op in ("star", "flat") for x in args)
            key = base
            if base == "":
                key, auto = str(auto), auto + 1
            if key.isdigit():
                v = args[int(key)] if int(key) < len(args) else None
            else:
                v = kw.get(key)
            if v is None:
                if open_:
                    return None
                # raises: no value is given for the field
                parts.append((const("<no " + key + ">"), ""))
                continue
            for r in re.findall(r"\.(\w+)|\[([^\]]*)\]", rest):
                if r[0]:
                    v = I.attr_of(v, r[0], None)
                else:
                    v = I.subscript(v, num(int(r[1])) if r[1].isdigit() else const(r[1]), None)
            sp = ("!" + conv + ":" if conv and conv != "s" else "") + spec
            parts.append((I.snap(v), sp.rstrip(":") if conv else sp))
        parts.append(fix(s2[pos:]))
        return fmt(parts)
    if attr == "zfill" and len(args) == 1 and args[0].op == "num" and args[0].a[0].denominator == 1 and o.op == "fmt" and len(o.a[0]) == 1:
        p = o.a[0][0]
        if isinstance(p, tuple) and p[1] == "" and p[0].op == "attr" and p[0].a[1] in ("year", "month", "day", "hour", "minute", "second", "microsecond", "julday"):
            # whole numbers, none of them negative
            return fmt([(p[0], "0%dd" % int(args[0].a[0]))])
    if attr == "join" and len(args) == 1:
        x = I.snap(args[0])
        if x.op in ("list", "tuple") and not any(y.op in ("star", "flat") for y in x.a[0]):
            parts = []
            for i, y in enumerate(x.a[0]):
                if i:
                    parts += fmt_parts(o)
                parts += fmt_parts(y)
            return fmt(parts)
        return mk("call", ext("str.join"), (o, x), ())
    if is_str(o):
        s = o.a[0].v
        if attr in ("upper", "lower", "strip", "title", "capitalize") and not args:
            return const(getattr(s, attr)())
        if attr == "split" and all(is_str(x) for x in args):
            return I.newref(mk("list", tuple(const(x) for x in s.split(*[x.a[0].v for x in args]))))
        if attr in ("startswith", "endswith") and len(args) == 1 and is_str(args[0]):
            return const(getattr(s, attr)(args[0].a[0].v))
        if attr == "replace" and all(is_str(x) for x in args):
            return const(s.replace(*[x.a[0].v for x in args]))
    return None
