"""C16: calls leave their inputs and all shared state as they were; results do not depend on history."""
import ast
import os

from qmsa.equiv import behaves  # noqa
from qmsa.owners import summaries, Owners, join
from qmsa.program import _dotted
from qmsa.terms import kids
from .common import *  # noqa

LEVEL_NOTE = ("For every public function of the current source the set of argument parts it may modify is computed (effects with ownership through attributes, elements, views, copies, loops and all calls) "
              "and compared with the parts it is documented to modify (rules/public.txt). Effects of library calls on their arguments are those of a table of in-place operations.")
FLOOR = 300
TABLE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "public.txt")
HERE = "inputs are left unmodified"


def table():
    """public functions with their parameters, what they may modify, the attributes of classes, and the functions of their own"""
    known, allowed, attrs, shared, own = {}, {}, {}, set(), {}
    for line in open(TABLE):
        line = line.split("#")[0].strip()
        if not line:
            continue
        k, _, rest = line.partition(" ")
        if k == "call":
            q, *ps = rest.split()
            known[q] = ps
        elif k == "own":
            q, *ps = rest.split()
            own[q] = ps
        elif k == "may":
            q, *xs = rest.split()
            allowed.setdefault(q, set()).update(tuple(x.split(".", 1)) if "." in x else (x, "") for x in xs)
        elif k == "class":
            q, *xs = rest.split()
            attrs[q] = set(xs)
        elif k == "shared":
            shared.update(rest.split())
    return known, allowed, attrs, shared, own


def rules(c):
    fs = every(c, True)
    mods, returns = summaries(fs)
    c.do(lambda c: arguments(c, fs, mods))
    c.do(lambda c: helpers(c, fs, mods))
    c.do(lambda c: decimated(c, returns))
    c.do(lambda c: shared(c, fs, mods))
    c.do(lambda c: caches(c, fs))
    c.do(lambda c: memories(c, fs))
    c.do(lambda c: surroundings(c))
    for f in (runs, steps, waveforms):
        c.do(f)


# attributes of arrays, traces and tables
FOREIGN = {"data", "stats", "index", "columns", "traces", "name", "shape", "dtype", "starttime", "endtime", "npts", "sampling_rate", "delta", "channel", "station", "network", "location", "__dict__", "update"}


def arguments(c, fs, mods):
    known, allowed, attrs, _, _ = table()
    byq = {f.qual + (".setter" if f.kind == "setter" else ""): f for f, s in fs}
    every_name = set().union(*attrs.values()) | FOREIGN
    for q, ps in sorted(known.items()):
        f = byq.get(q)
        if f is None or q not in mods:
            c.ob("inputs:" + q[len(P):], UNDECIDED, q, HERE, "function not found or not analysed")
            continue
        ok = allowed.get(q, set())
        init = q.endswith((".__init__", ".setter"))
        bad, odd = [], []
        for (p, at), w in sorted(mods[q].items()):
            if ":" in p:
                continue
            if p not in ps:
                odd.append((p, at, w))
                continue
            if (p, at) in ok or (p, "*") in ok or at and (p, at.split(".")[0]) in ok:
                continue
            if p == "self" and init and "." not in at:
                continue
            if at:
                # an attribute that no class has: a record of the function's own (see kept())
                first, *rest = at.split(".")
                names = set().union(*[attrs.get(k.qual, set()) for k in family(c, f)]) if p == "self" else every_name
                if first not in names or any(x not in every_name for x in rest):
                    odd.append((p, at, w))
                    continue
            bad.append((p, at, w))
        c.ob("inputs:" + q[len(P):], VIOLATED if bad else UNDECIDED if odd else PROVED, bad[0][2].split(":")[0] + ":" + bad[0][2].split(":")[1].split(" ")[0] if bad else "%s:%d" % (f.mod.rel, f.node.lineno), HERE,
             "; ".join("%s is modified: %s" % (p + ("." + a if a else ""), w) for p, a, w in (bad or odd)[:4]) or "%d parameters" % len(ps))


def helpers(c, fs, mods):
    """values handed to a function of the class or module's own: either it leaves them alone or they are not used again"""
    _, allowed, _, _, own = table()
    byq = {f.qual + (".setter" if f.kind == "setter" else ""): f for f, s in fs}
    rule = "values that are used again are left unmodified"
    for q, ps in sorted(own.items()):
        f = byq.get(q)
        if f is None or q not in mods:
            continue
        ok = allowed.get(q, set())
        more = [(p, at, w) for (p, at), w in sorted(mods[q].items()) if p in ps and p != "self" and (p, at) not in ok and (p, "") not in ok and (p, at.split(".")[0]) not in ok]
        bad = []
        for g, s in fs if more else ():
            for e in s.log if s is not None else ():
                if e.kind != "call" or e.fn != q or not isinstance(e.extra, dict):
                    continue
                for p, at, w in more:
                    v = e.extra.get(p)
                    u = v is not None and again(s, e, v, at)
                    if u:
                        bad.append("%s is modified (%s) and used again at %s" % (p, w, u))
        c.ob("own:" + q[len(P):], VIOLATED if bad else PROVED, "%s:%d" % (f.mod.rel, f.node.lineno), rule, "; ".join(bad[:3]) or "%d parameters" % len(ps))


def again(s, e, v, at):
    """a use of an object after a call: by identity for objects of the function itself, by its path for those of its arguments"""
    for a in at.split(".") if at else ():
        v = mk("attr", v, a)
    while v.op == "attr" and v.a[0].op == "ref":
        v = v.a[0]
    for x in s.log:
        if x.seq <= e.seq or x is e:
            continue
        terms = [x.recv, x.root] + list(x.extra.values() if isinstance(x.extra, dict) else ())
        if v.op != "ref":
            terms += list(x.args) + list(x.kw.values())
        if any(isinstance(t, T) and (t is v or v in reach(t)) for t in terms):
            return x.where
    return None


def reach(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        todo += kids(x)
    return seen


def decimated(c, returns):
    """decimating a grid without inplace leaves it as it was"""
    q = LUT.rsplit(".", 1)[0] + ".Grid3D.decimate"
    s = c.scenario("decimated", q, construct=False, args={"inplace": FALSE}, self_cls=LUT, types=dict(TYPED))
    if s is None:
        return
    o = Owners(s.I, {"self", "df"}, returns)
    every_ = [e for e in s.log if e.kind in ("mutate", "setattr") and e.recv is not None]
    bad = [e for e in every_ if o.of(e.recv)]
    c.ob("decimated", VIOLATED if bad else PROVED if every_ else UNDECIDED, bad[0] if bad else q, "a decimated copy shares nothing with the grid it is made from",
         "; ".join("%s by %s" % (e.where, e.fn) for e in bad[:3]) or "%d updates" % len(every_))


def family(c, f):
    k = f.cls
    return [x for x in c.prog.mro(k) if not isinstance(x, str)] if k is not None else []


def shared(c, fs, mods):
    """module-level and class-level objects and default arguments"""
    known, allowed, attrs, names, _ = table()
    mine = {}
    for q, m in mods.items():
        for (p, at), w in m.items():
            if ":" in p:
                mine.setdefault(q, []).append((p, w))
    for f, s in fs:
        q = f.qual + (".setter" if f.kind == "setter" else "")
        if q not in mods:
            continue
        bad = [x for x in mine.get(q, ()) if x[0].split(":", 1)[1] in names or x[0].startswith("default:") and q in known]
        odd = [x for x in mine.get(q, ()) if x not in bad]
        c.ob("shared:" + q[len(P):], VIOLATED if bad else UNDECIDED if odd else PROVED, "%s:%d" % (f.mod.rel, f.node.lineno), "no call modifies module tables, class-level objects or default arguments",
             "; ".join("%s: %s" % x for x in (bad or odd)[:3]))
    for m in c.prog.modules.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Global):
                bad = [n for n in x.names if m.name + "." + n in names]
                if bad:
                    c.ob("global:%s.%s" % (m.name, bad[0]), VIOLATED, "%s:%d" % (m.rel, x.lineno), "no function assigns the module's tables", ", ".join(bad))


CACHES = {"functools.lru_cache", "functools.cache", "functools.cached_property", "lru_cache", "cache", "cached_property"}
OUTSIDE = {"open", "pandas.read_csv", "obspy.read", "obspy.read_inventory", "numpy.load", "pathlib.Path.exists", "numpy.fromfile", "pickle.load", "struct.unpack", ".glob", ".exists", ".read", ".readline", ".is_file", ".iterdir"}


def caches(c, fs):
    """results kept between calls: only of pure functions with immutable results"""
    for f, s in fs:
        if f.kind == "setter":
            continue
        kept = []
        for d in getattr(f.node, "decorator_list", []):
            n = _dotted(d.func if isinstance(d, ast.Call) else d) or ""
            full = f.mod.imports.get(n.split(".")[0], n.split(".")[0]) + ("." + n.split(".", 1)[1] if "." in n else "")
            if full in CACHES or n in CACHES:
                kept.append(n)
        why = []
        if kept and s is not None:
            if any(e.kind == "call" and (e.fn in OUTSIDE) for e in s.log):
                why.append("reads files")
            me = f.node.args.args[0].arg if f.node.args.args and f.cls is not None else None
            if me:
                terms = list(every_term(s))
                if any(t.op == "attr" and t.a[0].op == "sym" and t.a[0].a[0] == me for t in terms):
                    why.append("depends on the state of its object")
            r = s.ret
            if r is not None and (r.op == "ref" or r.op in ("list", "dict", "set")):
                why.append("hands the same object to every caller")
            elif r is not None and not why:
                why.append("?")
        c.ob("kept:" + f.qual[len(P):], PROVED if not why else UNDECIDED if why == ["?"] else VIOLATED, "%s:%d" % (f.mod.rel, f.node.lineno), "results are kept between calls only where they cannot change",
             "%s: %s" % (", ".join(kept), ", ".join(why)) if why else "")


def memories(c, fs):
    """values a function leaves in its object, its class, its module or a default argument and takes from there in a later call:
    they must follow from the key they are kept under"""
    _, _, attrs, names, _ = table()
    rule = "results kept between calls follow from what they are kept under"
    for f, s in fs:
        if s is None or f.kind == "setter" or f.node.name == "__init__":
            continue
        mine = set().union(*[attrs.get(k.qual, set()) for k in family(c, f)]) if f.cls is not None else set().union(*attrs.values())
        kept = []
        for e in s.log:
            if e.recv is None or e.kind not in ("mutate", "setattr"):
                continue
            fn = str(e.fn)
            if e.kind == "setattr" or fn.startswith("setattr."):
                a = fn.split(".", 1)[1] if fn.startswith("setattr.") else fn
                if e.recv.op == "sym" and e.recv.a[0] == "self" and a not in mine and e.args:
                    kept.append((e, ("attr", a), [], e.args[-1]))
            elif fn in ("setitem", "setdefault") and len(e.args) == 2:
                o = s.I.origin.get(e.recv) or defaulted(f, e.recv)
                if o and o.split(":", 1)[1] not in names:
                    kept.append((e, ("origin", o), [e.args[0]], e.args[1]))
                elif e.recv.op == "attr" and e.recv.a[0].op == "sym" and e.recv.a[0].a[0] == "self" and e.recv.a[1] not in mine:
                    kept.append((e, ("attr", e.recv.a[1]), [e.args[0]], e.args[1]))
        if not kept:
            continue
        terms = [s.ret] if s.ret is not None else []
        for e in s.log:
            if e.kind not in ("expr",):
                terms += [x for x in list(e.args) + list(e.kw.values()) + [e.pc] if isinstance(x, T)]
        used = set().union(*[reach(t) for t in terms]) if terms else set()
        bad, odd = [], []
        for e, (how, what), keys, v in kept:
            if how == "attr" and not any(t.op == "attr" and t.a[0].op == "sym" and t.a[0].a[0] == "self" and t.a[1] == what for t in used):
                continue
            known = set().union(*[reach(k) for k in keys]) if keys else set()
            why = None
            todo, seen = [v], set()
            while todo:
                t = todo.pop()
                if t in seen or t in known:
                    continue
                seen.add(t)
                if t.op == "attr" and t.a[0].op == "sym" and t.a[0].a[0] == "self":
                    if t.a[1] != what:
                        why = "self.%s" % t.a[1]
                    continue
                if t.op == "sym" and not (s.I.origin.get(t)) and t.a[0] in {x.arg for x in f.node.args.args + f.node.args.kwonlyargs}:
                    why = why or str(t.a[0])
                    continue
                if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in OUTSIDE or t.op == "call" and t.a[0].op == "meth" and "." + str(t.a[0].a[1]) in OUTSIDE:
                    why = why or "files"
                todo += kids(t)
            (bad if why else odd).append("%s at %s depends on %s" % (what, e.where, why))
        c.ob("memory:" + f.qual[len(P):], VIOLATED if bad else UNDECIDED if odd else PROVED, "%s:%d" % (f.mod.rel, f.node.lineno), rule, "; ".join((bad or odd)[:3]))


def defaulted(f, t):
    """a parameter whose default is an object made once"""
    if t.op != "sym":
        return None
    a = f.node.args
    ps = a.posonlyargs + a.args
    for p, d in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
        if p.arg == t.a[0] and isinstance(d, (ast.Dict, ast.List, ast.Set, ast.Call)):
            return "default:" + f.qual + "." + p.arg
    return None


def every_term(s):
    seen = set()
    todo = [s.ret] if s.ret is not None else []
    for e in s.log:
        todo += [x for x in list(e.args) + list(e.kw.values()) + [e.pc, e.recv] if isinstance(x, T)]
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        yield t
        todo += [x for x in kids(t) if x not in seen]


SETTERS = {
    "os.chdir", "os.putenv", "os.umask", "numpy.seterr", "numpy.random.seed", "random.seed", "matplotlib.use", "matplotlib.rc", "matplotlib.pyplot.rc", "matplotlib.style.use", "matplotlib.pyplot.style.use",
    "warnings.filterwarnings", "warnings.simplefilter", "locale.setlocale", "pandas.set_option", "numpy.set_printoptions", "logging.disable", "matplotlib.rcParams.update", "matplotlib.pyplot.rcParams.update",
    "os.environ.update", "os.environ.setdefault", "sys.setrecursionlimit", "matplotlib.pyplot.switch_backend", "warnings.resetwarnings",
}
SCOPED = {"warnings.catch_warnings"}


def surroundings(c):
    """settings of the process: working directory, environment, numpy, warnings, plotting defaults"""
    for m in c.prog.modules.values():
        n, bad = 0, []

        def full(x):
            d = _dotted(x)
            if d is None:
                return None
            h, _, r = d.partition(".")
            return m.imports.get(h, h) + ("." + r if r else "")

        def go(x, inside, scoped):
            nonlocal n
            for y in ast.iter_child_nodes(x):
                i, sc = inside, scoped
                if isinstance(y, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                    i = True
                if isinstance(y, ast.With) and any(isinstance(w.context_expr, ast.Call) and full(w.context_expr.func) in SCOPED for w in y.items):
                    sc = True
                if i and isinstance(y, ast.Call):
                    n += 1
                    f = full(y.func)
                    if f in SETTERS and not (sc and f.startswith("warnings.")):
                        bad.append((y.lineno, f))
                if i and isinstance(y, (ast.Assign, ast.AugAssign)):
                    for t in y.targets if isinstance(y, ast.Assign) else [y.target]:
                        if isinstance(t, ast.Subscript) and full(t.value) in ("os.environ", "matplotlib.rcParams", "matplotlib.pyplot.rcParams"):
                            bad.append((y.lineno, full(t.value)))
                go(y, i, sc)

        go(m.tree, False, False)
        c.ob("process:" + m.name, VIOLATED if bad else PROVED, "%s:%d" % (m.rel, bad[0][0]) if bad else m.rel, "no call changes settings of the process",
             "; ".join("line %d: %s" % b for b in bad) or "%d calls" % n)


PROCESSORS = [
    ("detect", SCAN + ".detect"), ("locate", SCAN + ".locate"), ("trigger", TRIGGER + ".trigger"), ("pick", P + "signal.pickers.gaussian.GaussianPicker.pick_phases"),
    ("magnitude", P + "signal.local_mag.local_mag.LocalMag.calc_magnitude"), ("amplitudes", P + "signal.local_mag.amplitude.Amplitude.get_amplitudes"),
    ("magnitudes", P + "signal.local_mag.magnitude.Magnitude.calculate_magnitudes"), ("mean", P + "signal.local_mag.magnitude.Magnitude.mean_magnitude"),
    ("onsets", STALTA + ".calculate_onsets"), ("pads", ONSET + ".pad"), ("read", ARCHIVE + ".read_waveform_data"), ("serve", LUT + ".serve_traveltimes"),
]


def runs(c):
    """a call reads nothing that an earlier call of it wrote"""
    keep = {"Archive.read_waveform_data", "STALTAOnset.calculate_onsets", "LUT.serve_traveltimes", "core.lib.migrate", "core.lib.find_max_coa", "ScanmSEED.append", "ScanmSEED.empty", "ScanmSEED.write",
            "availability.write_availability", "Run.logger", "Grid3D.index2coord", "triggered_events.read_triggered_events", "coalescence.write_coalescence", "GaussianPicker.pick_phases", "LocalMag.calc_magnitude",
            "Event.write", "event.event_summary", "cut_waveforms.write_cut_waveforms", "Grid3D.unit_conversion_factor", "Grid3D.coord2grid", "util.gaussian_3d", "LUT.max_traveltime",
            "scanmseed.read_scanmseed", "availability.read_availability", "triggered_events.write_triggered_events", "plot.trigger.trigger_summary", "Amplitude._measure_signal_amps", "GaussianPicker._fit_gaussian",
            "util.resample", "QuakeScan._gaufit3d", "QuakeScan._splineloc", "QuakeScan._covfit3d", "QuakeScan._gaufilt3d"}
    for key, q in PROCESSORS:
        s = c.scenario("runs:" + key, q, construct=False, opaque=set(keep) - {q[len(P):].split(".", 1)[-1]} - {".".join(q.split(".")[-2:])}, types=dict(TYPED))
        if s is None:
            continue
        me = S("self")
        wrote = {}
        for e in s.log:
            if e.kind in ("mutate", "setattr") and e.recv is not None:
                t, path = e.recv, []
                while t.op in ("attr", "sub"):
                    if t.op == "attr":
                        path.append(str(t.a[1]))
                    t = t.a[0]
                if t is me:
                    fn = str(e.fn)
                    a = fn.split(".", 1)[1] if fn.startswith("setattr.") else fn if e.kind == "setattr" else None
                    path = path[::-1] + ([a] if a else [])
                    if path:
                        wrote.setdefault(tuple(path), e)
        used = {}
        for t in every_term(s):
            path, x = [], t
            while x.op == "attr":
                path.append(str(x.a[1]))
                x = x.a[0]
            if x is me and path:
                used[tuple(path[::-1])] = t
        # the object an update happens on is not a use of its value
        bad = [(p, e) for p, e in wrote.items() if p in used]
        c.ob("state:" + key, VIOLATED if bad else PROVED, bad[0][1] if bad else q, "a call uses nothing that an earlier call of it left behind",
             "; ".join("self.%s is used before it is set; set at %s" % (".".join(p), e.where) for p, e in bad) or "sets %s" % (", ".join(sorted(".".join(p) for p in wrote)) or "nothing"))


def steps(c):
    """one time step, or one event, uses nothing of those before it"""
    for key, s in (("step", detect(c)), ("event", locate(c)), ("listed-event", locate(c, from_file=True))):
        if s is None:
            continue
        bad, odd, n = [], [], 0
        for e in s.log:
            if not e.loops or e.kind in ("expr", "return") or str(e.fn).startswith("logging."):
                continue
            n += 1
            seen, todo = set(), [x for x in list(e.args) + list(e.kw.values()) + [e.pc] if isinstance(x, T)]
            while todo:
                t = todo.pop()
                if t in seen:
                    continue
                seen.add(t)
                if t.op in ("phi", "wphi") and any(t.a[0] is l for l in e.loops):
                    (odd if counter(t) else bad).append((e, t))
                todo += kids(t)
        c.ob("independent:" + key, VIOLATED if bad else UNDECIDED if odd else PROVED, (bad or odd)[0][0] if bad or odd else SCAN, "each time step and each event is processed without anything left from those before",
             "; ".join("%s uses %s" % (e.fn, show(t, 2)) for e, t in (bad or odd)[:3]) or "%d effects" % n)


def counter(t):
    """a value that only counts on from one iteration to the next"""
    ops = {x.op for x in TT_sub(t)}
    return not ops & {"call", "attr", "sub", "ite"}


def TT_sub(t):
    seen, todo = set(), list(kids(t))[1:]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        todo += kids(x)
    return seen


def waveforms(c):
    """the waveforms as read stay apart from the processed ones, and are modified nowhere"""
    n, bad = 0, []
    for f, s in every(c, True):
        if s is None:
            continue
        for e in s.log:
            if e.kind in ("mutate", "setattr") and e.recv is not None:
                n += 1
                t, path = e.recv, []
                while t.op in ("attr", "sub") or t in s.I.views:
                    if t in s.I.views:
                        t = s.I.views[t]
                        continue
                    if t.op == "attr":
                        path.append(str(t.a[1]))
                    t = t.a[0]
                if "raw_waveforms" in path:
                    bad.append(e)
    c.ob("raw:updates", VIOLATED if bad else PROVED, bad[0] if bad else P + "io.data", "the waveforms as read are not modified after they were read", "; ".join(e.where for e in bad) or "%d updates" % n)
