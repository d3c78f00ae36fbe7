"""C19: where output goes, one file per item, and only when requested."""
from qmsa.bounds import called
from qmsa.equiv import behaves
from qmsa.check import fn_name as _fn_name
from .common import *  # noqa

LEVEL_NOTE = ("Every function that writes a file is interpreted abstractly: directory, file name, the order of creation and writing, and the exact condition under which each "
              "stage calls it are compared with reference definitions (ref/output.py, analysed and never run); an inventory of all file-system calls in the package finds writers "
              "the table does not know.")
FLOOR = 260
SAVE = "matplotlib.pyplot.savefig"


GP = P + "signal.pickers.gaussian.GaussianPicker"
LM = P + "signal.local_mag."
CUT = P + "io.cut_waveforms."
SINKS = (".to_csv", "numpy.save", SAVE, ".write", "open", ".open", "pickle.dump", "logging.FileHandler")


def run(c):
    behaves(c, "run", RUN + ".__init__", "output.run_init", fields=("path", "_name", "stage", "subname", "loglevel"), ret=False, rule="the run directory is named after the run, without dots")
    behaves(c, "name", RUN + ".name", "output.run_name", rule="run name, with the subname when there is one")
    behaves(c, "log", RUN + ".logger", "output.run_logger", opaque={"util.logger"}, calls=("util.logger",), ret=False, types={"self": RUN}, rule="logs lie below the stage and subname")
    s = writer(c, "logger", P + "util.logger", "output.logger", calls=(".mkdir", "logging.FileHandler", "logging.basicConfig"), ret=False, rule="a log file exactly when asked for, used by this run")
    reset = [e for e in s.log if e.kind in ("call", "mutate") and e.fn.lstrip(".") in ("removeHandler", "clear", "addHandler") or e.kind == "setattr" and e.fn == "handlers"]
    for e in s.calls("logging.basicConfig"):
        f = e.kw.get("force")
        c.ob("own-log", PROVED if f is TRUE else UNDECIDED if reset or f is not None and f is not FALSE else VIOLATED, e.where, "a run replaces the log handlers of the run before",
             "" if f is TRUE else "logging.basicConfig without force does nothing once logging is set up")


def fn_name(t):
    return _fn_name(t) if t.op == "call" and isinstance(t.a[0], T) else None


def trail(t):
    """the outermost path a term is made from"""
    todo = [t]
    while todo:
        x = todo.pop(0)
        if isinstance(x, T) and x.op == "path":
            return x
        todo.extend(x.a if isinstance(x, T) else x if isinstance(x, (tuple, list)) else ())
    return None


def writer(c, key, code, ref, **kw):
    """as the reference, and every file is written into a directory made before"""
    s, _ = behaves(c, key, code, ref, **kw)
    made = [e for e in s.log if e.kind == "call" and e.fn == ".mkdir"]
    n = 0
    for e in s.log:
        if e.kind != "call" or e.fn not in SINKS or (e.fn in ("open", ".open") and not any(is_str(x) and "w" in x.a[0].v for x in list(e.args) + list(e.kw.values()))):
            continue
        p = None
        for x in list(e.args) + list(e.kw.values()) + ([e.recv] if e.recv is not None and e.fn == ".open" else []):
            p = trail(x) if p is None else p
        if p is None:
            continue
        n += 1
        up = p.a[0][:-1]
        good = [m for m in made if _below(m.recv, p)]
        before = [m for m in good if m.seq < e.seq]
        rule = "%s: the directory exists before the file is written" % kw.get("rule", "")
        if not before:
            c.ob("%s:made#%d" % (key, n), VIOLATED if good or not made else UNDECIDED, e.where, rule, "%s is written to %s" % (e.fn, show(p, 6)))
        else:
            c.only_if("%s:made#%d" % (key, n), e.pc, or_(*[m.pc for m in before]), e, rule)
    return s


def _below(d, p):
    """directory term d is the parent (or an ancestor made with all parents up to the file) of path p"""
    if d is None:
        return False
    if d.op == "attr" and d.a[1] == "parent":
        return True  # of the file itself; which one is compared with the reference
    return d.op == "path" and d.a[0] == p.a[0][:-1] or d.op != "path" and p.a[0][:-1] == (d,)


def writers(c):
    t = {"run": RUN, "event": EVENT}
    writer(c, "scanmseed", P + "io.scanmseed.ScanmSEED.write", "output.scanmseed", calls=(".mkdir", ".write"), ret=False, types={"self": P + "io.scanmseed.ScanmSEED"}, rule="one file per day of coalescence")
    writer(c, "availability", P + "io.availability.write_availability", "output.availability", calls=(".mkdir", ".to_csv"), ret=False, types=t, rule="one file per day of availability")
    writer(c, "triggered", P + "io.triggered_events.write_triggered_events", "output.triggered", calls=(".mkdir", ".to_csv"), ret=False, types=t, rule="one file per day of triggered events")
    writer(c, "coalescence", P + "io.coalescence.write_coalescence", "output.coalescence", calls=(".mkdir", "numpy.save"), ret=False, types=t, rule="one map per event and kind")
    writer(c, "event_plot", P + "plot.event.event_summary", "output.event_plot", calls=(".mkdir", SAVE), ret=False, types=t, rule="one summary per event")
    writer(c, "trigger_plot", P + "plot.trigger.trigger_summary", "output.trigger_plot", opaque={"read_availability"}, calls=(".mkdir", SAVE), ret=False, types=t, rule="one summary per batch")
    writer(c, "pick_plot", GP + ".plot", "output.pick_plot", calls=(".mkdir", SAVE), ret=False, types=t, rule="one plot per event and station")
    writer(c, "amplitude_plot", LM + "magnitude.Magnitude.plot_amplitudes", "output.amplitude_plot", opaque={"Magnitude._get_attenuation"}, calls=(".mkdir", SAVE), ret=False, types=t, rule="one plot per event")
    writer(c, "event_file", EVENT + ".write", "export.event_file", opaque={"Event.max_coalescence"}, ret=False, types={"self": EVENT, "run": RUN, "lut": LUT}, calls=(".to_csv", ".mkdir"), rule="one file per event")
    writer(c, "pick_file", P + "signal.pickers.base.PhasePicker.write", "export.pick_file", ret=False, types={"run": RUN}, calls=(".to_csv", ".mkdir"), rule="one pick file per event")
    writer(c, "amplitude_file", P + "io.amplitudes.write_amplitudes", "export.amplitude_file", ret=False, types=t, calls=(".to_csv", ".mkdir"), rule="one amplitude file per event")
    writer(c, "cut", CUT + "write_cut_waveforms", "export.cut", opaque={"get_waveforms", "write_waveforms"}, types=t, ret=False, raises=("AttributeError",), calls=("write_waveforms", ".mkdir"), rule="waveforms of each type in their own folder")
    writer(c, "wave_file", CUT + "write_waveforms", "export.wave_file", ret=False, calls=(".write",), rule="one file per event with the suffix of its format")


STAGE = {"Trigger._get_threshold", "Trigger._identify_candidates", "Trigger._refine_candidates", "Trigger._filter_events", "Trigger._smooth_coa", "write_triggered_events", "trigger_summary",
         "read_scanmseed", "Trigger._threshold_method_string"}
LOCATE = {"QuakeScan._compute", "QuakeScan._calculate_location", "QuakeScan._read_event_waveform_data", "read_triggered_events", "write_coalescence", "PhasePicker.pick_phases", "GaussianPicker.pick_phases",
          "LocalMag.calc_magnitude", "Event.write", "event_summary", "write_cut_waveforms", "Event.add_waveform_data", "Event.add_compute_output", "Event.in_marginal_window", "Event.trim2window", "Event.__init__",
          "Onset.pad", "STALTAOnset.pad"}


def stages(c):
    types = {at(S("self"), "picker"): GP, at(S("self"), "mags"): LM + "local_mag.LocalMag", at(S("self"), "run"): RUN, at(S("self"), "lut"): LUT, at(S("self"), "onset"): STALTA, at(S("self"), "archive"): ARCHIVE}
    behaves(c, "locate", SCAN + "._locate_events", "output.locate", opaque=LOCATE, types=types, ret=False, ret_types={P + "io.event.Event.__init__": EVENT},
            ret_values={GP + ".pick_phases": lambda I, b, r: mk("tuple", (b["event"], mk("sub", r, num(1)))), LM + "local_mag.LocalMag.calc_magnitude": lambda I, b, r: mk("tuple", (b["event"], mk("sub", r, num(1))))},
            calls=("write_coalescence", "GaussianPicker.pick_phases", "LocalMag.calc_magnitude", "Event.write", "event_summary", "write_cut_waveforms"),
            rule="each output of locate is written for every located event, optional ones if and only if switched on")
    behaves(c, "magnitude", LM + "local_mag.LocalMag.calc_magnitude", "output.magnitude",
            opaque={"Amplitude.get_amplitudes", "Magnitude.calculate_magnitudes", "Magnitude.mean_magnitude", "Magnitude.plot_amplitudes", "Event.add_local_magnitude", "write_amplitudes"},
            types={"event": EVENT, "lut": LUT, "run": RUN, at(S("self"), "amp"): LM + "amplitude.Amplitude", at(S("self"), "mag"): LM + "magnitude.Magnitude"},
            calls=("Magnitude.plot_amplitudes", "write_amplitudes"), ret=False, rule="amplitudes always, their plot when asked for and there is a magnitude")
    behaves(c, "picks", GP + ".pick_phases", "picker.pick", opaque={
        "STALTAOnset.calculate_onsets", "LUT.index2coord", "Grid3D.index2coord", "LUT.traveltime_to", "GaussianPicker._determine_window", "GaussianPicker._distinguish_windows",
        "GaussianPicker._find_pick_threshold", "GaussianPicker._fit_gaussian", "Event.add_picks", "PhasePicker.write", "GaussianPicker.plot", "STALTAOnset.gaussian_halfwidth"},
        types={"event": EVENT, "lut": LUT, "run": RUN, at(S("self"), "onset"): STALTA}, calls=("PhasePicker.write", "GaussianPicker.plot"), ret=False, rule="picks always, their plots when asked for")
    behaves(c, "batch", TRIGGER + "._trigger_batch", "trigger.batch", calls=("write_triggered_events", "trigger_summary"), opaque=STAGE, ret=False, rule="events whenever there are candidates, a summary when asked for")
    behaves(c, "scan", SCAN + "._continuous_compute", "output.scan", opaque={"QuakeScan._compute", "Archive.read_waveform_data", "ScanmSEED.__init__", "ScanmSEED.append", "ScanmSEED.empty", "ScanmSEED.write", "write_availability", "Onset.pad", "STALTAOnset.pad",
            "Grid3D.unit_conversion_factor"}, types=types, ret=False, calls=("ScanmSEED.__init__", "ScanmSEED.write", "write_availability"), rule="what was scanned is written, and the availability always")
    behaves(c, "append", SCANMSEED + ".append", "scanmseed.append", calls=("ScanmSEED.write",), ret=False, opaque={"ScanmSEED.write"}, rule="a complete day is written, and every step when asked for")


SWITCHES = ("plot_event_summary", "plot_all_stns", "xy_files", "continuous_scanmseed_write", "write_cut_waveforms", "write_real_waveforms", "real_waveform_units", "write_wa_waveforms",
            "wa_waveform_units", "cut_waveform_format", "write_marginal_coalescence", "write_coalescence", "pre_cut", "post_cut", "log")


def switches(c):
    behaves(c, "scan-init", SCAN + ".__init__", "output.scan_init", ret=False, fields=SWITCHES, opaque={"Run.__init__", "GaussianPicker.__init__"}, calls=("Run.__init__",),
            types={"onset": STALTA, "lut": LUT}, rule="each output switch is the one given, off unless documented otherwise")
    behaves(c, "trigger-init", TRIGGER + ".__init__", "output.trigger_init", ret=False, fields=("plot_trigger_summary", "xy_files", "plot_all_stns", "write_event_time_windows"),
            opaque={"Run.__init__", "Run.logger"}, calls=("Run.__init__", "Run.logger"), types={"lut": LUT}, rule="each output switch is the one given, off unless documented otherwise")
    t = {at(S("self"), "run"): RUN}
    behaves(c, "detect-log", SCAN + ".detect", "output.detect_log", opaque={"util.logger", "QuakeScan._continuous_compute"}, calls=("util.logger",), ret=False, types=t, rule="detect logs below its own stage, when asked for")
    behaves(c, "locate-log", SCAN + ".locate", "output.locate_log", opaque={"util.logger", "QuakeScan._locate_events"}, calls=("util.logger",), ret=False, types=t, rule="locate logs below its own stage, when asked for")


WRITES = (".to_csv", ".to_json", ".to_excel", ".to_pickle", ".to_hdf", "numpy.save", "numpy.savez", "numpy.savetxt", SAVE, ".savefig", ".write", ".write_text", ".write_bytes", "open", ".open", "pickle.dump",
          "logging.FileHandler", ".mkdir", "os.mkdir", ".touch", ".tofile")
DELETES = ("shutil.rmtree", "os.remove", "os.unlink", "os.rmdir", ".unlink", ".rmdir", "os.removedirs")
TOOL = ("lut.create_lut.",)  # runs NonLinLoc, which works in the current directory


def target(e):
    """the term that names what a call writes to, or None"""
    if e.fn in ("open", ".open"):
        mode = [x.a[0].v for x in list(e.args)[(1 if e.fn == "open" else 0):] + [v for k, v in e.kw.items() if k == "mode"] if is_str(x)]
        if not mode or not set(mode[0]) & set("wax+"):
            return None
        return e.args[0] if e.fn == "open" and e.args else e.recv
    if e.fn in (".mkdir", ".touch", ".write_text", ".write_bytes"):
        return e.recv
    if e.fn == "pickle.dump":
        return None
    if e.fn == ".write" and (e.recv is None or called(e.recv) == "open" or fn_name(e.recv) in ("open", ".open")):
        return None
    return e.args[0] if e.args else None


def fixed_place(t):
    """nothing in the term depends on an argument or an attribute: always the same place"""
    return not any(x.op in ("sym", "attr", "kwget", "k", "ref", "opaque", "sub") for x in subterms(t))


def inventory(c):
    """every write and deletion of the package, also those the table above does not know"""
    n = 0
    for f, s in every(c):
        if s is None:
            continue
        own = any(t in f.qual for t in TOOL)
        for e in s.log:
            if e.kind != "call":
                continue
            if e.fn in WRITES:
                t = target(e)
                if t is None or own:
                    continue
                n += 1
                p = trail(t)
                nm = "inventory:%s:%s" % (f.qual.replace(P, ""), e.fn)
                if fixed_place(t):
                    c.ob(nm, VIOLATED, e.where, "files are written where the caller asked for", "%s writes to %s whatever the arguments" % (e.fn, show(t, 6)))
                elif p is not None and p.a[0][0].op == "attr" and p.a[0][0].a[1] == "path" and show(p.a[0][0], 9).endswith("run.path"):
                    st = p.a[0][1] if len(p.a[0]) > 1 else None
                    ok = st is not None and (is_str(st) and st.a[0].v in ("detect", "trigger", "locate") or st.op == "attr" and st.a[1] == "stage")
                    c.req(nm, True if ok else False if st is None or is_str(st) else None, e, "what a run writes lies below one of its stages", "found %s" % show(p, 6))
                else:
                    c.req(nm, True, e, "files are written where the caller asked for")
            elif e.fn in DELETES:
                n += 1
                t = e.recv if e.fn.startswith(".") else e.args[0] if e.args else None
                nm = "deletes:%s:%s" % (f.qual.replace(P, ""), e.fn)
                rule = "only files made by the computation itself are deleted, and only empty directories"
                if t is None:
                    c.ob(nm, UNDECIDED, e.where, rule, "unknown target")
                elif e.fn == "shutil.rmtree":
                    whole = [x for x in subterms(e.pc) if called(x) == "os.listdir" and x.a[1] and x.a[1][0] is t]
                    if whole:
                        c.only_if(nm, e.pc, not_(truth(whole[0])), e, rule)
                    elif any("tempfile" in (called(x) or "") for x in subterms(t)):
                        c.req(nm, True, e, rule)
                    else:
                        looks = any((called(x) or fn_name(x) or "").rsplit(".", 1)[-1] in ("iterdir", "listdir", "scandir", "exists", "walk") for x in subterms(e.pc) if contains(x, lambda y: y is t))
                        c.ob(nm, UNDECIDED if looks else VIOLATED, e.where, rule, "%s and everything in it is removed" % show(t, 6))
                elif e.fn.endswith("rmdir"):
                    c.req(nm, True, e, rule)
                else:
                    c.req(nm, _own_file(t), e, rule, "%s is removed" % show(t, 6))
    c.req("inventory", n >= 20 or None, P[:-1], "the writes of the package were found", "%d found" % n)


def _own_file(t):
    """control.in, or a file named layer.<phase>...: what NonLinLoc was run with and wrote"""
    for x in subterms(t):
        if is_str(x) and x.a[0].v == "control.in":
            return True
        if x.op == "fmt" and isinstance(x.a[0][0], str) and x.a[0][0].startswith("layer."):
            return True
        if is_str(x) and x.a[0].v.strip("*") == "" and x.a[0].v:
            return False  # a pattern that matches everything
    return None


def rules(c):
    c.do(run)
    c.do(writers)
    c.do(stages)
    c.do(switches)
    c.do(inventory)
