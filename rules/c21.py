"""C21: settings take effect exactly as given, else as documented."""
import ast
import os

from qmsa.check import VERIF
from qmsa.equiv import behaves
from .common import *  # noqa

LEVEL_NOTE = ("For every class a user configures, the constructor is analysed for arbitrary arguments and each attribute it leaves is compared with a reference constructor (ref/settings.py and the other references, "
              "analysed and never run): given values unchanged, documented defaults otherwise, former names as their successors. Reads of attributes not yet set, settings nothing reads and the call "
              "signatures users write are found on the syntax tree.")
FLOOR = 150
LM = P + "signal.local_mag."
GP = P + "signal.pickers.gaussian.GaussianPicker"
PP = P + "signal.pickers.base.PhasePicker"
AMP = LM + "amplitude.Amplitude"
MAG = LM + "magnitude.Magnitude"
LMG = LM + "local_mag.LocalMag"
G = P + "lut.lut.Grid3D"
KEPT = "the value given is kept, the documented default stands in for one left out, a former name counts as its successor"

BUILT = (
    # key, class, reference, opaque, calls, raises, types
    ("scan", SCAN, "settings.scan", {"Run.__init__", "GaussianPicker.__init__"}, ("Run.__init__", "GaussianPicker.__init__"), ("OnsetTypeError", "PickerTypeError", "MagsTypeError"), {"lut": LUT}),
    ("trigger", TRIGGER, "settings.trigger", {"Run.__init__", "Run.logger"}, ("Run.__init__", "Run.logger"), ("InvalidTriggerThresholdMethodException", "ValueError"), {"lut": LUT}),
    ("stalta", STALTA, "onset.init", (), (), ("ValueError",), {}),
    ("onset", ONSET, "onset.base_init", (), (), ("ValueError",), {}),
    ("picker", GP, "picker.init", (), (), ("InvalidPickThresholdMethodException", "AttributeError"), {}),
    ("base-picker", PP, "settings.base_picker", (), (), (), {}),
    ("amplitude", AMP, "amplitude.init", (), (), ("AttributeError",), {}),
    ("magnitude", MAG, "magnitude.init", (), (), ("TypeError",), {}),
    ("archive", ARCHIVE, "archive.archive", {"Archive.path_structure"}, ("Archive.path_structure",), (), {}),
    ("run", RUN, "output.run_init", (), (), (), {}),
)


# former names: assigned for what their setters do
OLD = ("onset_centred", "p_bp_filter", "s_bp_filter", "p_onset_win", "s_onset_win")


def rules(c):
    for f in (built, local, classes, former, unset, captured, used, calls):
        c.do(f)


def stored_by(fn):
    """attributes a function stores on its first argument"""
    me = fn.args.args[0].arg
    return {x.attr for x in ast.walk(fn) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == me}


def refnode(c, ref):
    mod, fn = ref.split(".")
    with open(os.path.join(VERIF, "ref", mod + ".py")) as h:
        return next(x for x in ast.parse(h.read()).body if isinstance(x, ast.FunctionDef) and x.name == fn)


def fields_of(c, q, ref):
    return tuple(sorted(a for a in stored_by(refnode(c, ref)) if a not in OLD))


def constructor(c, row):
    key, q, ref, op, cs, rs, types = row
    s, r = configured(c, row)
    no_shared_writes(c, "own:" + key, s, q + ".__init__", "the settings of one object are not written into the defaults of all")


def configured(c, row):
    key, q, ref, op, cs, rs, types = row
    return behaves(c, key, q + ".__init__", ref, ret=False, fields=fields_of(c, q, ref), opaque=op, calls=cs, raises=rs, mutates=("setattr.post_pad",) if key == "scan" else (), types=types, rule=KEPT)


def built(c):
    for row in BUILT:
        c.do(lambda c: constructor(c, row))


def local(c):
    behaves(c, "local", LMG + ".__init__", "magnitude.local_init", ret=False, fields=("amp", "mag", "plot"), opaque={"Amplitude.__init__", "Magnitude.__init__"}, calls=("Amplitude.__init__", "Magnitude.__init__"), rule="each parameter set reaches its part")


def classes(c):
    """the former onset classes: the same onset, with their position"""
    for cls, pos in (("CentredSTALTAOnset", "centred"), ("ClassicSTALTAOnset", "classic")):
        q = P + "signal.onsets.stalta." + cls
        s = c.scenario("old:" + cls, q + ".__init__", construct=False)
        r = c.scenario("old-ref:" + cls, STALTA + ".__init__", construct=False)
        for fl in fields_of(c, STALTA, "onset.init"):
            if fl == "position":
                c.eq("%s.position" % cls, s.attr(fl), const(pos), q + ".__init__", "the former class is the onset with this position")
            else:
                c.eq("%s.%s" % (cls, fl), s.attr(fl), r.attr(fl), q + ".__init__", "every other setting reaches the onset")


def former(c):
    run = lambda key, code, ref, **kw: behaves(c, key, code, "settings." + ref, **kw)
    for key, q, name, get, set_, fl in (
        ("scan_rate", SCAN, "scan_rate", "get_scan_rate", "set_scan_rate", "_scan_rate"),
        ("sampling_rate", SCAN, "sampling_rate", "get_scan_rate", "set_sampling_rate", "_scan_rate"),
        ("time_step", SCAN, "time_step", "get_timestep", "set_timestep", "timestep"),
        ("n_cores", SCAN, "n_cores", "get_threads", "set_threads", "threads"),
        ("fraction_tt", GP, "fraction_tt", "get_fraction", "set_fraction", "_fraction_tt"),
        ("interval", TRIGGER, "min_event_interval", "get_interval", None, "_min_event_interval"),
        ("repeat", TRIGGER, "minimum_repeat", "get_interval", None, "_min_event_interval"),
        ("method", TRIGGER, "threshold_method", "get_method", None, "_threshold_method"),
        ("pre", ONSET, "pre_pad", "get_pre_pad", "set_pre_pad", "_pre_pad"),
        ("post", ONSET, "post_pad", "get_post_pad", "set_post_pad", "_post_pad"),
        ("stalta-post", STALTA, "post_pad", "get_post_pad", None, "_post_pad"),
    ):
        run("get:" + key, q + "." + name, get, rule="a setting read back is the one in force")
        if set_ is not None:
            run("set:" + key, q + "." + name + ".setter", set_, ret=False, fields=(fl,), rule="a value assigned replaces the one in force, and nothing given changes nothing")
    for key, code in (("min_event_interval", TRIGGER + ".min_event_interval.setter"), ("minimum_repeat", TRIGGER + ".minimum_repeat.setter")):
        behaves(c, "set:" + key, code, "guards.min_event_interval", ret=False, fields=("_min_event_interval",), raises=("ValueError",), rule="an interval that fits the marginal window replaces the one in force")
    behaves(c, "set:method", TRIGGER + ".threshold_method.setter", "guards.threshold_method", ret=False, fields=("_threshold_method",), raises=("InvalidTriggerThresholdMethodException",), rule="a known method replaces the one in force")
    for prop, ref, fl in (("onset_centred", "centred", "position"), ("p_bp_filter", "p_filter", "bandpass_filters"), ("s_bp_filter", "s_filter", "bandpass_filters"),
                          ("p_onset_win", "p_window", "sta_lta_windows"), ("s_onset_win", "s_window", "sta_lta_windows")):
        behaves(c, "set:" + prop, STALTA + "." + prop + ".setter", "onset.set_" + ref, ret=False, fields=(fl,), mutates=("setitem",) if ref != "centred" else (), rule="the former name sets the same setting")
    behaves(c, "stations", P + "io.core.stations", "settings.stations_old", opaque={"read_stations"}, calls=("read_stations",), rule="the former name reads the same stations")
    for k, f in (("node_count", "_node_count"), ("node_spacing", "_node_spacing"), ("cell_count", "_node_count"), ("cell_size", "_node_spacing")):
        ref = {"node_count": "set_count", "node_spacing": "set_spacing", "cell_count": "set_count_old", "cell_size": "set_spacing_old"}[k]
        behaves(c, "set:" + k, G + "." + k + ".setter", "lut." + ref, ret=False, fields=(f,), rule="one positive value per axis replaces the one in force")


def unset(c):
    """constructors do not read an attribute before it is set, on any path"""
    for row in BUILT:
        key, q, ref, op, cs, rs, types = row
        k = c.prog.cls(q)
        s = c.scenario("beh:" + q + ".__init__:" + key, q + ".__init__", construct=False, opaque=op, types=types)
        known = set()
        for y in c.prog.mro(k):
            if hasattr(y, "methods"):
                for f in list(y.methods.values()) + list(y.setters.values()):
                    if f.node.args.args:
                        known |= stored_by(f.node)
        fixed = {a for y in c.prog.mro(k) if hasattr(y, "attrs") for a in y.attrs}
        slf, rate, bad, n = S("self"), at(S("onset"), "sampling_rate"), [], 0
        for e in s.log:
            for t in [e.pc, e.recv] + list(e.args) + list(e.kw.values()) + list((e.bound or {}).values()):
                if not isinstance(t, T):
                    continue
                n += 1
                # an onset without a sampling rate cannot be made
                t = subst(t, lambda x: FALSE if x.op == "is" and len(x.a) == 2 and NONE in x.a and rate in x.a else None)
                if t is FALSE:
                    break
                for x in subterms(t):
                    if x.op == "attr" and x.a[0] is slf and str(x.a[1]) in known and str(x.a[1]) not in fixed:
                        bad.append((e, str(x.a[1])))
        c.ob("unset:" + key, VIOLATED if bad else PROVED, bad[0][0] if bad else q + ".__init__", "no attribute is read while the object is made before it has a value",
             "; ".join("%s reads %s" % (e.where, a) for e, a in bad[:4]) or "%d values examined" % n)


def captured(c):
    """nothing derived from a setting is put aside when the object is made: the setting could be changed afterwards"""
    where = {}
    for m in c.prog.modules.values():
        for fn, own in functions(m.tree):
            for x in ast.walk(fn):
                if isinstance(x, ast.Attribute):
                    where.setdefault((x.attr, isinstance(x.ctx, ast.Store)), set()).add(own)
    show_ = ("__init__", "__str__", "__repr__")
    for key, q, ref, op, cs, rs, types in BUILT:
        s = c.scenario("beh:" + q + ".__init__:" + key, q + ".__init__", construct=False, opaque=op, types=types)
        have = {h[2] for h in s.I.st.heap if h[0] == "f" and h[1] is s.self}
        known = set(fields_of(c, q, ref)) | {a for o in BUILT for a in fields_of(c, o[1], o[2])}
        bad, open_ = [], []
        for a in sorted(have - known):
            v = s.attr(a)
            if v is None or not contains(v, lambda x: x.op == "kwget" or x.op == "sym" and x is not s.self):
                continue
            readers = {w for w in where.get((a, False), ()) if w.rpartition(".")[2] not in show_}
            writers = {w for w in where.get((a, True), ()) if w.rpartition(".")[2] != "__init__"}
            if readers:
                same = [b for b in known & have if s.attr(b) is v]
                (open_ if writers or not (v.op == "kwget" or same or contains(v, lambda x: any(x is s.attr(b) for b in known & have))) else bad).append(
                    "%s = %s read in %s" % (a, show(v, 5), ", ".join(sorted(readers)[:3])))
        c.ob("captured:" + key, VIOLATED if bad else UNDECIDED if open_ else PROVED, q + ".__init__", "processing reads settings from the object when it runs, so a setting changed after the object was made counts",
             "; ".join(bad + open_) or "%d attributes" % len(have))


def used(c):
    """every setting is read by something other than what stores, shows or renames it"""
    reads = {}
    for m in c.prog.modules.values():
        for fn, own in functions(m.tree):
            for x in ast.walk(fn):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                    reads.setdefault(x.attr, set()).add(own)
                elif isinstance(x, ast.Constant) and isinstance(x.value, str):
                    reads.setdefault(x.value, set()).add(own)
    for key, q, ref, op, cs, rs, types in BUILT:
        for a in sorted(stored_by(refnode(c, ref))):
            if a.startswith("_") or key == "onset" or a in OLD:
                continue
            where = {w for w in reads.get(a, ()) if w.rpartition(".")[2] not in ("__init__", "__str__", "__repr__") and w.rpartition(".")[2] != a}
            c.ob("used:%s.%s" % (key, a), PROVED if where else VIOLATED, q + ".__init__", "a setting that can be given is read by the processing it configures",
                 "read in %d functions" % len(where) if where else "nothing outside the constructor reads " + a)


def functions(tree):
    out = []
    for x in tree.body:
        if isinstance(x, ast.FunctionDef):
            out.append((x, x.name))
        elif isinstance(x, ast.ClassDef):
            out += [(y, x.name + "." + y.name) for y in x.body if isinstance(y, ast.FunctionDef)]
    return out


def calls(c):
    """import paths, parameter order and defaults of the calls users write"""
    with open(os.path.join(VERIF, "ref", "api.py")) as h:
        t = ast.parse(h.read())
    paths = {}
    for x in t.body:
        if isinstance(x, ast.ImportFrom):
            for a in x.names:
                paths[a.name] = x.module + "." + a.name
    for name, p in sorted(paths.items()):
        r = c.prog.resolve(p)
        c.ob("import:" + name, PROVED if r[0] in ("func", "class") else VIOLATED, p.rpartition(".")[0].replace(".", "/"), "the documented import path leads to the object", p)
    for x in t.body:
        if not isinstance(x, ast.FunctionDef):
            continue
        cls, _, meth = x.name.partition("__")
        r = c.prog.resolve(paths[cls])
        f = r[1] if r[0] == "func" else c.prog.find_method(r[1], meth or "__init__") if r[0] == "class" else None
        nm = x.name.replace("__", ".")
        if f is None:
            c.ob("call:" + nm, VIOLATED, paths[cls], "the documented call exists", "%s not found" % nm)
            continue
        bad, open_ = misfits(x.args, f)
        c.ob("call:" + nm, VIOLATED if bad else UNDECIDED if open_ else PROVED, "%s:%d" % (f.mod.rel, f.node.lineno), "parameters keep their order, names and defaults; any further one is optional",
             "; ".join(bad + open_) or ast.unparse(x.args))


def defaults(args):
    ps = args.posonlyargs + args.args
    d = dict(zip([p.arg for p in ps[len(ps) - len(args.defaults):]], args.defaults))
    d.update({p.arg: v for p, v in zip(args.kwonlyargs, args.kw_defaults) if v is not None})
    return [p.arg for p in ps], [p.arg for p in args.kwonlyargs], d


def value(node, mod):
    for _ in range(5):
        if isinstance(node, ast.Name) and node.id in mod.assigns:
            node = mod.assigns[node.id]
            node = node.value if isinstance(node, (ast.Assign, ast.AnnAssign)) else node
        else:
            break
    try:
        v = ast.literal_eval(node)
        return True, list(v) if isinstance(v, tuple) else v
    except (ValueError, TypeError, AttributeError):
        return False, None


def misfits(want, f):
    wp, wk, wd = defaults(want)
    fp, fk, fd = defaults(f.node.args)
    bad, open_ = [], []
    for i, p in enumerate(wp):
        if i >= len(fp) or fp[i] != p:
            if i == 0 and p == "self" and len(fp):
                continue
            bad.append("parameter %d is %s, required %s" % (i + 1, fp[i] if i < len(fp) else "missing", p))
            continue
        if p in wd and p not in fd:
            bad.append("%s has no default" % p)
        elif p in wd:
            ok, v = value(fd[p], f.mod)
            w = ast.literal_eval(wd[p])
            if not ok or (v is None) != (w is None):
                open_.append("default of %s: %s" % (p, ast.unparse(fd[p])))
            elif v != w or type(v) is not type(w) and not (isinstance(v, (int, float)) and not isinstance(v, bool) and isinstance(w, (int, float)) and not isinstance(w, bool)):
                bad.append("%s defaults to %r, required %r" % (p, v, w))
    for p in fp[len(wp):] + fk:
        if p not in fd:
            bad.append("%s must be given" % p)
    if want.kwarg is not None and f.node.args.kwarg is None:
        missing = "further settings are not accepted"
        (bad if not fk and len(fp) <= len(wp) else open_).append(missing)
    return bad, open_
