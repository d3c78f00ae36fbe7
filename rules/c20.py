"""C20: misuse is refused with the documented error, and no call ends in an internal one."""
import ast
import builtins
import symtable

from qmsa.equiv import behaves
from qmsa.program import _dotted
from qmsa.engine import UNBOUND
from .common import *  # noqa

LEVEL_NOTE = ("The condition under which each documented error is raised is computed for arbitrary arguments and settings and compared with a reference condition (ref/guards.py and the other "
              "references, analysed and never run), together with the order of guard and processing. Names, attributes, call signatures and the assignment of locals are resolved for the whole package.")
FLOOR = 300
LM = P + "signal.local_mag."
AMP = LM + "amplitude.Amplitude"
MAG = LM + "magnitude.Magnitude"
GP = P + "signal.pickers.gaussian.GaussianPicker"
DAT = P + "io.data.WaveformData"
CR = P + "lut.create_lut."
EX = P + "export."
U = P + "util."


def rules(c):
    for f in (requests, settings, files, processing, exporting, names, members, exceptions, signatures, lengths, transparent, assigned):
        c.do(f)


REFUSED = "refused with the documented error in exactly the documented cases, before anything else is done"


def refuses(c, key, code, ref, errors, calls=(), rule=REFUSED, **kw):
    kw.setdefault("ret", False)
    return behaves(c, key, code, ref, raises=errors, calls=calls, rule=rule, **kw)


def requests(c):
    run = {at(S("self"), "run"): RUN}
    refuses(c, "detect", SCAN + ".detect", "guards.detect", ("TimeSpanException",), ("QuakeScan._continuous_compute",), opaque={"Run.logger", "QuakeScan._continuous_compute"}, types=run, drop=("starttime", "n_steps"))
    refuses(c, "locate", SCAN + ".locate", "guards.locate", ("RuntimeError", "TimeSpanException"), ("QuakeScan._locate_events",), opaque={"Run.logger", "QuakeScan._locate_events"}, types=run, drop=("kwargs",))
    refuses(c, "trigger", TRIGGER + ".trigger", "trigger.trigger", ("TimeSpanException",), ("Trigger._trigger_batch",), opaque={"Trigger._trigger_batch"})
    refuses(c, "compute", SCAN + "._compute", "guards.compute", ("LUTPhasesException",), opaque={"STALTAOnset.calculate_onsets", "LUT.serve_traveltimes", "core.lib.migrate", "core.lib.find_max_coa", "Grid3D.index2coord"},
            types={at(S("self"), "lut"): LUT, at(S("self"), "onset"): STALTA})
    refuses(c, "amplitudes", AMP + ".get_amplitudes", "amplitude.measure", ("LUTPhasesException",),
            types={"event": EVENT, "lut": LUT, at(S("event"), "data"): DAT},
            opaque={"Amplitude._get_distances", "Amplitude._filter_trace", "Amplitude._get_amplitude_windows", "Amplitude._measure_signal_amps", "Amplitude._measure_noise_amp", "Amplitude.pad",
                    "WaveformData.get_wa_waveform", "WaveformData.check_availability", "LUT.traveltime_to", "Grid3D.index2coord", "Event.get_hypocentre"})


def settings(c):
    refuses(c, "scan", SCAN + ".__init__", "output.scan_init", ("OnsetTypeError", "PickerTypeError", "MagsTypeError"), opaque={"Run.__init__", "GaussianPicker.__init__"}, types={"lut": LUT})
    refuses(c, "interval", TRIGGER + ".min_event_interval.setter", "guards.min_event_interval", ("ValueError",), fields=("_min_event_interval",))
    refuses(c, "repeat", TRIGGER + ".minimum_repeat.setter", "guards.min_event_interval", ("ValueError",), fields=("_min_event_interval",))
    refuses(c, "method", TRIGGER + ".threshold_method.setter", "guards.threshold_method", ("InvalidTriggerThresholdMethodException",), fields=("_threshold_method",))
    refuses(c, "onset", ONSET + ".__init__", "onset.base_init", ("ValueError",))
    refuses(c, "stalta", STALTA + ".__init__", "onset.init", ("ValueError",))
    refuses(c, "halfwidth", ONSET + ".gaussian_halfwidth", "guards.halfwidth", ("AttributeError",))
    refuses(c, "position", STALTA + "._onset", "onset.onset", ("ValueError",), opaque={"STALTAOnset._trim_taper_pad", "centred_sta_lta_py", "overlapping_sta_lta_py", "core.lib.centred_sta_lta", "core.lib.overlapping_sta_lta"})
    refuses(c, "picker", GP + ".__init__", "picker.init", ("InvalidPickThresholdMethodException", "AttributeError"))
    refuses(c, "picker-method", GP + "._find_pick_threshold", "picker.threshold", ("InvalidPickThresholdMethodException",), opaque={"calculate_mad"})
    refuses(c, "pick-threshold", GP + ".pick_threshold.setter", "guards.pick_threshold", ("AttributeError",))
    refuses(c, "amplitude", AMP + ".__init__", "amplitude.init", ("AttributeError",))
    refuses(c, "measure", AMP + "._average_amplitude", "amplitude.average", ("NotImplementedError",))
    refuses(c, "magnitude", MAG + ".__init__", "magnitude.init", ("TypeError",))
    refuses(c, "curve", MAG + "._logA0", "magnitude.curves", ("ValueError",))
    refuses(c, "noise-filter", MAG + "._mag_r_squared", "magnitude.fit_quality", ("AttributeError",), opaque={"Magnitude._get_attenuation"})


def files(c):
    refuses(c, "stations", P + "io.core.read_stations", "guards.stations", ("StationFileHeaderException",), ret=True, rule="station files need their four columns; elevations become depths, names text")
    refuses(c, "responses", P + "io.core.read_response_inv", "guards.responses", ("NotImplementedError", "TypeError"), ret=True, rule="the inventory of a readable file")
    refuses(c, "velocities", P + "io.core.read_vmodel", "guards.velocities", ("InvalidVelocityModelHeader",), ret=True, rule="velocity models need depths")
    refuses(c, "layout", ARCHIVE + ".path_structure", "archive.layout", ("ArchivePathStructureError",))
    refuses(c, "archive-format", ARCHIVE + "._load_from_path", "archive.files", ("ArchiveFormatException",))
    refuses(c, "archive-data", ARCHIVE + ".read_waveform_data", "archive.waveforms", ("DataGapException", "ArchiveEmptyException"),
            opaque={"Archive._load_from_path", "util.merge_stream", "util.shift_to_sample", "WaveformData.__init__"})
    refuses(c, "scanmseed", P + "io.scanmseed.read_scanmseed", "scanmseed.read_scanmseed", ("NoScanMseedDataException",))
    refuses(c, "triggered", P + "io.triggered_events.read_triggered_events", "trigger.read", ("NoTriggerFilesFound",))
    refuses(c, "station-availability", P + "io.availability.read_availability", "guards.availability", ("NoStationAvailabilityDataException",), opaque={"_handle_old_structure"}, ret=True,
            rule="the files of every day of the period, or the documented error")
    refuses(c, "old-availability", P + "io.availability._handle_old_structure", "guards.old_availability", (), (".to_csv",), ret=True, rule="old files list stations; each counts for both phases")
    refuses(c, "tables", CR + "compute_traveltimes", "lut.compute", ("TypeError", "NotImplementedError", "ValueError"), opaque={"LUT.__init__", "LUT.save", "_compute_homogeneous", "_compute_1d_fmm", "_compute_1d_nlloc"})
    refuses(c, "nonlinloc", CR + "read_nlloc", "lut.from_nlloc", ("NotImplementedError",), opaque={"LUT.__init__", "LUT.save", "_read_nlloc"})
    refuses(c, "model-column", CR + "_compute_1d_fmm", "lut.fast_marching", ("InvalidVelocityModelHeader", "ValueError"), types={"lut": LUT}, opaque={"Grid3D.grid_xyz", "LUT.stations_xyz", "_eikonal_fmm"})


def processing(c):
    refuses(c, "nyquist", P + "signal.onsets.stalta.pre_process", "onset.preprocess", ("NyquistException",), opaque={"util.resample"})
    refuses(c, "no-onset", STALTA + ".calculate_onsets", "onset.calculate", ("DataAvailabilityException",), opaque={"STALTAOnset._onset", "stalta.pre_process", "WaveformData.check_availability", "time2sample"}, types={"data": DAT})
    refuses(c, "amp-nyquist", AMP + "._bandpass_filter", "amplitude.bandpass", ("NyquistException",), params=("tr",))
    refuses(c, "pick-order", AMP + "._get_amplitude_windows", "amplitude.windows", ("PickOrderException",), opaque={"Amplitude._get_picks"}, types={"event": EVENT})
    refuses(c, "checks", DAT + ".check_availability", "archive.availability", ("TypeError",))
    refuses(c, "response", DAT + ".get_real_waveform", "amplitude.remove_response", ("AttributeError", "ResponseNotFoundError", "ResponseRemovalError"))
    refuses(c, "upfactor", U + "resample", "archive.resample", ("BadUpfactorException",), opaque={"util.decimate", "util.upsample"})
    refuses(c, "no-peak", GP + "._find_peak", "picker.peak", ("NoOnsetPeak",))


def exporting(c):
    refuses(c, "units", EX + "to_obspy._read_single_event", "export.single", ("AttributeError",))
    refuses(c, "nlloc-picks", EX + "to_nlloc.nlloc_obs", "export.nonlinloc", ("ValueError",))
    refuses(c, "mfast-units", EX + "to_mfast.sac_mfast", "export.mfast", ("AttributeError",))
    refuses(c, "cut-units", P + "io.cut_waveforms.write_cut_waveforms", "export.cut", ("AttributeError",), opaque={"get_waveforms", "write_waveforms"}, types={"run": RUN, "event": EVENT})



# --- no internal errors ----------------------------------------------------------------------------------------------
MODULE_NAMES = {"__file__", "__name__", "__doc__", "__package__", "__path__", "__spec__", "__builtins__", "__loader__", "__class__"}


def own(mod):
    """syntax-tree nodes of a module with the function and class they stand in"""
    def go(n, fn, cls):
        for x in ast.iter_child_nodes(n):
            yield x, fn, cls
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield from go(x, fn or x, cls)
            elif isinstance(x, ast.ClassDef):
                yield from go(x, None, x)
            else:
                yield from go(x, fn, cls)
    yield from go(mod.tree, None, None)


def names(c):
    """every name is a local, a name of its module, or a builtin"""
    known = set(dir(builtins)) | MODULE_NAMES
    for m in c.prog.modules.values():
        top = symtable.symtable(m.src, m.rel, "exec")
        if any(isinstance(x, ast.ImportFrom) and any(a.name == "*" for a in x.names) for x, _, _ in own(m)):
            c.ob("names:" + m.name, UNDECIDED, m.rel, "every name is defined", "star import")
            continue
        have = {s.get_name() for s in top.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}
        bad, n = [], 0
        todo = [top]
        while todo:
            t = todo.pop()
            todo += t.get_children()
            for s in t.get_symbols():
                if s.is_declared_global() and s.is_assigned():
                    have.add(s.get_name())
        todo = [top]
        while todo:
            t = todo.pop()
            todo += t.get_children()
            for s in t.get_symbols():
                if s.is_referenced() and (s.is_global() or t is top):
                    n += 1
                    if s.get_name() not in have and s.get_name() not in known:
                        bad.append((t.get_name(), s.get_name()))
        lines = sorted("%s:%d %s" % (m.rel, x.lineno, x.id) for x, _, _ in own(m) if isinstance(x, ast.Name) and x.id in {b for _, b in bad})
        c.ob("names:" + m.name, VIOLATED if bad else PROVED, lines[0] if lines else m.rel, "every name used is a local, a name of its module, or a builtin",
             "; ".join(lines) if bad else "%d names resolved" % n)


OBJECT = set(dir(object)) | {"__dict__", "__name__", "__module__"}
FAULT = OBJECT | {"args", "with_traceback", "add_note", "__traceback__", "__cause__", "__context__", "__notes__"}
PLAIN = {"object", "ABC", "abc.ABC"}


def family(c, k):
    """classes of the package above and below a class, and whether all bases are known"""
    up = [x for x in c.prog.mro(k)]
    closed = all(not isinstance(x, str) or x.split(".")[-1] in ("object", "ABC") for x in up)
    fault = not closed and all(not isinstance(x, str) or x.split(".")[-1] in ("object", "ABC", "Exception", "ValueError", "TypeError", "RuntimeError") for x in up)
    down = [x for m in c.prog.modules.values() for x in m.classes.values() if k in c.prog.mro(x)]
    return [x for x in up if not isinstance(x, str)], down, closed, fault


def stored(k):
    """attributes a class gives its instances, and whether it may set others by computed name"""
    out, open_ = set(k.methods) | set(k.setters) | set(k.attrs), False
    for x in k.node.body:
        if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
            out.add(x.target.id)
        if isinstance(x, (ast.ClassDef, ast.FunctionDef)):
            out.add(x.name)
    for x in ast.walk(k.node):
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.add(x.attr)
        if isinstance(x, ast.Name) and x.id == "setattr" or isinstance(x, ast.Attribute) and x.attr in ("__dict__", "__getattr__"):
            open_ = True
        if isinstance(x, ast.FunctionDef) and x.name in ("__getattr__", "__getattribute__"):
            open_ = True
    return out, open_


def self_name(fn):
    decos = {_dotted(d) for d in fn.decorator_list}
    return fn.args.args[0].arg if fn.args.args and not decos & {"staticmethod", "classmethod"} else None


def members(c):
    """attributes of the package's modules, of self, and properties that can be set"""
    elsewhere = set()
    for m in c.prog.modules.values():
        for x, fn, cls in own(m):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                if not (cls is not None and isinstance(x.value, ast.Name) and fn is not None and x.value.id == self_name(fn)):
                    elsewhere.add(x.attr)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr" and len(x.args) > 1 and isinstance(x.args[1], ast.Constant):
                elsewhere.add(x.args[1].value)
    for m in c.prog.modules.values():
        n, bad = 0, []
        for x, fn, cls in own(m):
            if isinstance(x, ast.ImportFrom):
                base = m.name.split(".") if m.is_pkg else m.name.split(".")[:-1]
                base = base[: len(base) - x.level + 1] if x.level else []
                src = ".".join(base + ([x.module] if x.module else []))
                if src in c.prog.modules:
                    for a in x.names:
                        n += 1
                        if a.name != "*" and c.prog.member(c.prog.modules[src], a.name)[0] == "ext" and a.name not in c.prog.modules[src].imports and not defined(c.prog.modules[src], a.name):
                            bad.append((x.lineno, "%s has no %s" % (src, a.name)))
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id in m.imports:
                if fn is not None and x.value.id in local_names(fn):
                    continue
                r = c.prog.resolve(m.imports[x.value.id])
                if r[0] == "mod":
                    n += 1
                    if c.prog.member(r[1], x.attr)[0] == "ext" and x.attr not in r[1].imports and x.attr not in MODULE_NAMES and not defined(r[1], x.attr):
                        bad.append((x.lineno, "%s has no %s" % (r[1].name, x.attr)))
        c.ob("members:" + m.name, VIOLATED if bad else PROVED, "%s:%d" % (m.rel, bad[0][0]) if bad else m.rel, "what is taken from a module of the package exists there",
             "; ".join("line %d: %s" % b for b in bad) or "%d references resolved" % n)
        for k in m.classes.values():
            up, down, closed, fault = family(c, k)
            have, open_ = set(elsewhere) | (FAULT if fault else OBJECT), False
            for x in up + down:
                a, o = stored(x)
                have |= a
                open_ |= o
            n, bad, fixed = 0, [], []
            for fn in k.node.body:
                if not isinstance(fn, ast.FunctionDef) or self_name(fn) is None:
                    continue
                me = self_name(fn)
                tried = {id(y) for x in ast.walk(fn) if isinstance(x, ast.Try) and any("AttributeError" in ast.dump(h.type) if h.type else True for h in x.handlers) for y in ast.walk(x)}
                for x in ast.walk(fn):
                    if id(x) in tried and isinstance(getattr(x, "ctx", None), ast.Load):
                        continue
                    if not (isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me):
                        continue
                    n += 1
                    if isinstance(x.ctx, ast.Load) and x.attr not in have:
                        bad.append((x.lineno, x.attr))
                    if isinstance(x.ctx, ast.Store):
                        h = next((y for y in up if x.attr in y.methods), None)
                        if h is not None and h.methods[x.attr].kind == "property" and "cached" not in " ".join(str(d) for d in h.methods[x.attr].decos) and x.attr not in h.setters \
                                and not any(x.attr in y.setters for y in up[: up.index(h)]):
                            fixed.append((x.lineno, x.attr))
            st = PROVED if not bad else UNDECIDED if open_ or not (closed or fault) else VIOLATED
            for a, f in k.methods.items():
                if f.kind == "property" and a not in k.setters:
                    h = next((y for y in up if y is not k and a in y.setters), None)
                    if h is not None:
                        fixed.append((f.node.lineno, a))
            c.ob("attributes:" + k.qual, st, "%s:%d" % (m.rel, bad[0][0] if bad else k.node.lineno), "every attribute read from an instance is given to it somewhere",
                 "; ".join("line %d: %s" % b for b in bad) or "%d uses" % n)
            c.ob("settable:" + k.qual, VIOLATED if fixed else PROVED, "%s:%d" % (m.rel, fixed[0][0] if fixed else k.node.lineno), "properties that are assigned can be assigned",
                 "; ".join("line %d: %s has no setter" % b for b in fixed))
            todo = {}
            for y in reversed(up):
                for f in list(y.methods.values()) + list(y.setters.values()):
                    if "abstractmethod" in f.decos or "abc.abstractmethod" in f.decos:
                        todo[f.node.name] = y
                    else:
                        todo.pop(f.node.name, None)
                for a in y.attrs:
                    todo.pop(a, None)
            left = sorted(a for a, y in todo.items() if y is not k)
            if any(y is not k for y in up):
                c.ob("complete:" + k.qual, VIOLATED if left and not down[1:] else PROVED, "%s:%d" % (m.rel, k.node.lineno), "a concrete class implements what its base class requires", ", ".join(left))


def defined(mod, name):
    return any(isinstance(x, (ast.Name,)) and isinstance(x.ctx, ast.Store) and x.id == name for x in ast.walk(mod.tree)) or \
        any(isinstance(x, (ast.Import, ast.ImportFrom)) and any((a.asname or a.name.split(".")[0]) == name for a in x.names) for x in ast.walk(mod.tree)) or \
        any(isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == name for x in ast.walk(mod.tree))


def local_names(fn):
    a = fn.args
    out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
    return out | {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}


def exceptions(c):
    """raised and handled classes are exceptions, and carry what their handlers read"""
    for m in c.prog.modules.values():
        n, bad = 0, []
        for x, fn, cls in own(m):
            if isinstance(x, ast.Raise) and x.exc is not None:
                e = x.exc.func if isinstance(x.exc, ast.Call) else x.exc
                k = resolve_class(c, m, e)
                if k is None:
                    continue
                n += 1
                if not c.prog.is_exception(k):
                    bad.append((x.lineno, "%s is no exception" % k.name))
                init = c.prog.find_method(k, "__init__")
                if not isinstance(x.exc, ast.Call) and init is not None:
                    a = init.node.args
                    if len(a.posonlyargs + a.args) - 1 > len(a.defaults) or len(a.kwonlyargs) > len([d for d in a.kw_defaults if d is not None]):
                        bad.append((x.lineno, "%s needs arguments" % k.name))
            if isinstance(x, ast.ExceptHandler) and x.type is not None:
                ts = x.type.elts if isinstance(x.type, ast.Tuple) else [x.type]
                ks = [resolve_class(c, m, t) for t in ts]
                n += len(ts)
                for k in ks:
                    if k is not None and not c.prog.is_exception(k):
                        bad.append((x.lineno, "%s is no exception" % k.name))
                if x.name:
                    for y in ast.walk(x):
                        if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == x.name and isinstance(y.ctx, ast.Load):
                            for k, t in zip(ks, ts):
                                if k is not None:
                                    have = set(FAULT)
                                    for z in family(c, k)[0]:
                                        have |= stored(z)[0]
                                    if y.attr not in have:
                                        bad.append((y.lineno, "%s has no %s" % (k.name, y.attr)))
                                elif isinstance(t, ast.Name) and isinstance(getattr(builtins, t.id, None), type) and not hasattr(getattr(builtins, t.id)(), y.attr):
                                    bad.append((y.lineno, "%s has no %s" % (t.id, y.attr)))
        c.ob("exceptions:" + m.name, VIOLATED if bad else PROVED, "%s:%d" % (m.rel, bad[0][0]) if bad else m.rel,
             "what is raised and handled are exceptions, created with what they need, and have what their handlers read", "; ".join("line %d: %s" % b for b in bad) or "%d raised or handled" % n)


def resolve_class(c, m, e):
    d = _dotted(e)
    if d is None:
        return None
    head, _, rest = d.partition(".")
    r = c.prog.member(m, head)
    if r[0] == "mod" and rest and "." not in rest:
        r = c.prog.member(r[1], rest)
    elif rest:
        return None
    return r[1] if r[0] == "class" else None


def signatures(c):
    """calls of functions and methods of the package fit their parameters"""
    seen = {}
    for f, s in every(c, typed=True):
        if s is None:
            continue
        for at_, line, col, q, why in s.I.binds:
            if at_ is not None:
                seen.setdefault((at_.mod.rel, at_.qual, line, col, q), set()).add(why)
    per = {}
    for (rel, who, line, col, q), why in sorted(seen.items()):
        per.setdefault((rel, who), []).append((line, q, next((w for w in why if w), None) if None not in why else None))
    for (rel, who), xs in sorted(per.items()):
        bad = [x for x in xs if x[2]]
        c.ob("calls:" + who, VIOLATED if bad else PROVED, "%s:%d (%s)" % (rel, (bad or xs)[0][0], who), "calls fit the parameters of the function called",
             "; ".join("line %d: %s: %s" % x for x in bad) or "%d calls" % len(xs))


def lengths(c):
    """lists and tuples of known length have what is taken from them"""
    per = {}
    for f, s in every(c, typed=True):
        if s is None:
            continue
        for at_, line, n, have, fit, conds, pc, trys in s.I.unpacked:
            xs = per.setdefault((at_.mod.rel, at_.qual), {"n": set(), "bad": {}})
            xs["n"].add((line, n, conds is None))
            pcs = list(pc.a[0]) if pc.op == "and" else [pc]
            if fit or trys or not all(setting(x) for x in conds or ()) or and_(*(list(conds or ()) + pcs)) is FALSE:
                continue
            xs["bad"][line] = "element %d of %d" % (n, have) if conds is None else "%d values for %d names" % (have, n)
    for (rel, who), xs in sorted(per.items()):
        bad = sorted(xs["bad"].items())
        c.ob("lengths:" + who, VIOLATED if bad else PROVED, "%s:%d (%s)" % (rel, bad[0][0] if bad else min(xs["n"])[0], who), "a list or tuple of known length has the elements taken from it",
             "; ".join("line %d: %s" % b for b in bad) or "%d taken apart" % len(xs["n"]))


def transparent(c):
    """a function that is timed does what it does untimed"""
    d = c.reference("guards.untimed")
    for k in ("timed", "timed_plain"):
        r = c.reference("guards." + k)
        c.eq("transparent:" + k, r.ret, d.ret, U + "timeit", "a timed function returns what it returns untimed")
        calls = lambda s: [(e.recv, tuple(e.args), tuple(sorted((e.kw or {}).items())), e.pc, e.loops) for e in s.log if e.kind == "call" and str(e.fn).startswith("value:")]  # noqa
        got, want = calls(r), calls(d)
        kept = r.ret is d.ret or not any(x.op == "exc" for x in subterms(r.ret)) and not any(e.trys for e in r.log if e.kind == "call" and str(e.fn).startswith("value:"))
        c.ob("transparent:%s:once" % k, PROVED if got == want and kept else VIOLATED, U + "timeit", "a timed function is called once, with what it was given, and what it raises is raised",
             "%d call(s)%s" % (len(got), "" if kept else ", exceptions caught"))


def unassigned(t, pc=()):
    """conditions under which a value is one that was never assigned: list of literals, or None if it depends on a loop or an exception"""
    if t is UNBOUND:
        yield list(pc)
    elif t.op == "ite":
        yield from unassigned(t.a[1], pc + (t.a[0],))
        yield from unassigned(t.a[2], pc + (not_(t.a[0]),))
    elif any(x is UNBOUND for x in subterms(t)):
        yield None


def setting(t):
    """a condition on arguments and settings only"""
    return not any(x.op in ("call", "phi", "wphi", "fold", "foldbrk", "last", "lastbrk", "maybe", "exc", "opaque", "k", "ref", "loop", "psum", "map", "excval") for x in subterms(t))


# functions whose locals are assigned on every reachable path for a reason outside the function
REASONS = {
    "_threshold_method_string": "the setter of threshold_method admits only the methods handled",
    "_peak_to_trough_amplitude": "with one peak and one trough of equal prominence, one of the branches is taken",
    "read_nlloc": "at least one station and phase",
    "_plot_station_availability": "one or two phases",
}


def excuses(c, every_):
    """functions with a reason outside of them, and parts of such functions: those that nothing else uses"""
    used = {}
    for f, s in every_:
        for x in ast.walk(f.node):
            n = x.attr if isinstance(x, ast.Attribute) else x.id if isinstance(x, ast.Name) else None
            if n:
                used.setdefault(n, set()).add(f.node.name)
    out = dict(REASONS)
    again = True
    while again:
        again = False
        for f, s in every_:
            n = f.node.name
            by = used.get(n, set()) - {n}
            if n not in out and by and by <= set(out):
                out[n] = out[sorted(by)[0]]
                again = True
    return out


def assigned(c):
    """locals are assigned before they are used"""
    reasons = excuses(c, every(c))
    for f, s in every(c):
        if s is None:
            continue
        sure, maybe = [], []
        looped = {y.id for x in ast.walk(f.node) if isinstance(x, (ast.For, ast.While)) for y in ast.walk(x) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
        for e in s.log:
            if e.kind not in ("maybe_unbound", "unbound") or e.func != f.qual:
                continue
            pcs = list(e.pc.a[0]) if e.pc.op == "and" else [e.pc]
            if e.kind == "unbound":
                (maybe if e.loops or e.fn in looped else sure).append((e.line, e.fn, "never assigned before"))
                continue
            for w in unassigned(e.result):
                if w is None or not all(setting(x) for x in w):
                    maybe.append((e.line, e.fn, ""))
                    continue
                cond = and_(*(w + [x for x in pcs if setting(x)]))
                if cond is FALSE or and_(*(w + pcs)) is FALSE:
                    continue
                (sure if w else maybe).append((e.line, e.fn, "if " + show(cond, 6)))
        excused = f.node.name in reasons
        st = PROVED if not sure or excused else VIOLATED
        at_ = (sure or maybe or [(f.node.lineno, "", "")])[0]
        c.ob("assigned:" + s.name.partition(":")[2], st, "%s:%d (%s)" % (f.mod.rel, at_[0], f.qual), "a local is assigned before it is used, for all arguments and settings",
             reasons[f.node.name] if sure and excused else "; ".join("line %d: %s %s" % x for x in sure))
