"""Scenarios (public entry points analysed with symbolic inputs) shared by rules."""
from qmsa.terms import *  # noqa
from qmsa.check import *  # noqa

P = "quakemigrate."
SCAN = P + "signal.scan.QuakeScan"
ARCHIVE = P + "io.data.Archive"
ONSET = P + "signal.onsets.base.Onset"
STALTA = P + "signal.onsets.stalta.STALTAOnset"
LUT = P + "lut.lut.LUT"
RUN = P + "io.core.Run"
EVENT = P + "io.event.Event"
SCANMSEED = P + "io.scanmseed.ScanmSEED"
EXC = P + "util."
DATA_EXC = {EXC + "ArchiveEmptyException", EXC + "DataGapException",
            EXC + "DataAvailabilityException"}


def S(n):
    return sym(n)


def setattrs(I, obj, **kw):
    I.quiet += 1
    for k, v in kw.items():
        I.store_attr(obj, k, v, None)
    I.quiet -= 1


def at(o, *names):
    for n in names:
        o = mk("attr", o, n)
    return o


def kwd(e, name):
    """argument of an effect by (public) parameter name"""
    v = e.bound.get(name) if e.bound else None
    if v is None:
        v = e.kw.get(name)
    if v is None and e.bound:
        for d in e.bound.values():
            if d is not None and d.op == "dict":
                for k, x in d.a[0]:
                    if k is const(name):
                        v = x
    return v


TRIGGER = P + "signal.trigger.Trigger"


def trigger(c):
    """Trigger(...).trigger(starttime, endtime, region) with opaque steps"""

    def pre(I, so):
        setattrs(I, so, run=S("run"), lut=S("lut"), pad=S("PAD"), marginal_window=S("MW"))

    return c.scenario(
        "trigger", TRIGGER + ".trigger",
        opaque={"read_scanmseed", "Trigger._get_threshold", "Trigger._identify_candidates",
                "Trigger._refine_candidates", "Trigger._filter_events", "Trigger._smooth_coa",
                "write_triggered_events", "trigger_summary", "Run.logger", "Grid3D.unit_conversion_factor",
                "Trigger._threshold_method_string"},
        types={"lut": LUT, "run": RUN}, ctor_args={"**kwargs": S("kwargs")}, pre=pre,
    )


SCAN_TYPES = {
    "archive": ARCHIVE, "onset": STALTA, "lut": LUT, "run": RUN,
}


def detect(c):
    """QuakeScan(...).detect(starttime, endtime); everything below the public
    boundaries of the other packages is opaque"""

    def pre(I, so):
        setattrs(I, so, timestep=S("TS"), continuous_scanmseed_write=S("cont_write"),
                 threads=S("threads"))

    return c.scenario(
        "detect", SCAN + ".detect",
        opaque={
            "Archive.read_waveform_data", "STALTAOnset.calculate_onsets", "Onset.pad", "STALTAOnset.pad",
            "LUT.serve_traveltimes", "core.lib.migrate", "core.lib.find_max_coa",
            "ScanmSEED.append", "ScanmSEED.empty", "ScanmSEED.write",
            "availability.write_availability", "LUT.index2coord", "Run.logger",
            "Grid3D.unit_conversion_factor", "Grid3D.index2coord",
        },
        types=SCAN_TYPES,
        ctor_args={"onset": S("onset"), "**kwargs": S("kwargs")},
        ret_types={P + "io.data.Archive.read_waveform_data": P + "io.data.WaveformData"},
        pre=pre,
        before=lambda I: setattrs(I, S("onset"), sampling_rate=S("RATE")),
    )


def kinds_caught(s, e):
    """exception types of the handlers whose try body contains effect e"""
    out = set()
    for t in e.trys:
        if t[1] == "body":
            for hs in t[2]:
                out |= set(hs)
    return out


def in_handler(e, types=None):
    for t in e.trys:
        if t[1] == "handler":
            if types is None or types & set(t[2][0]):
                return True
    return False


def loop_of(e, i=0):
    return e.loops[i] if len(e.loops) > i else None


def loop_counts(e):
    return [l.a[0] for l in e.loops if l.op == "loop"]


def prod_or(ts):
    return or_(*ts) if ts else FALSE


def only(c, key, effs, n, rule, where=None):
    """exactly n static effect sites"""
    return c.req(key, len(effs) == n if effs else False, effs[0] if effs else where, rule,
                 "found %d sites: %s" % (len(effs), ", ".join(e.where for e in effs)))


def show_log(s, depth=4, width=260, kinds=("call", "mutate", "raise", "catch", "maybe_unbound", "setattr")):
    for e in s.log:
        if e.kind in kinds and not (e.fn or "").startswith("logging"):
            a = ", ".join([show(x, depth) for x in e.args] + ["%s=%s" % (k, show(x, depth)) for k, x in e.kw.items()])
            r = show(e.recv, 2) if e.recv is not None else ""
            print(("%s %s | %s | %s" % (e.kind, e.fn, r, a))[:width])
            print(("     @%s IF %s" % (e.line, show(e.pc, depth)) + (" LOOP %s" % ",".join(show(l, 3) for l in e.loops) if e.loops else ""))[:width])


LOCATE_OPAQUE = {
    "Archive.read_waveform_data", "STALTAOnset.calculate_onsets", "Onset.pad", "STALTAOnset.pad",
    "LUT.serve_traveltimes", "core.lib.migrate", "core.lib.find_max_coa",
    "triggered_events.read_triggered_events", "coalescence.write_coalescence",
    "PhasePicker.pick_phases", "GaussianPicker.pick_phases", "LocalMag.calc_magnitude",
    "Event.write", "event.event_summary", "cut_waveforms.write_cut_waveforms", "Run.logger",
    "Grid3D.unit_conversion_factor", "Grid3D.index2coord", "Grid3D.coord2grid",
    "Amplitude.pad", "util.gaussian_1d", "util.gaussian_3d", "Grid3D.node_count", "Grid3D.node_spacing",
    "LUT.max_traveltime",
}
LOCATE_FIELDS = {
    (SCAN, "picker"): P + "signal.pickers.gaussian.GaussianPicker",
    (SCAN, "mags"): P + "signal.local_mag.local_mag.LocalMag",
}


def locate(c, extra_opaque=(), less=(), from_file=False):
    """QuakeScan(...).locate(starttime, endtime) or .locate(trigger_file=...)"""

    def pre(I, so):
        I.types[S("PICKER")] = c.prog.cls(P + "signal.pickers.gaussian.GaussianPicker")
        I.types[S("mags")] = c.prog.cls(P + "signal.local_mag.local_mag.LocalMag")
        I.types[at(S("mags"), "amp")] = c.prog.cls(P + "signal.local_mag.amplitude.Amplitude")
        setattrs(I, so, marginal_window=S("MW"), picker=S("PICKER"), mags=S("mags"),
                 threads=S("threads"), pre_cut=S("pre_cut"), post_cut=S("post_cut"),
                 plot_event_summary=S("plot_event_summary"), plot_all_stns=S("plot_all_stns"),
                 xy_files=S("xy_files"), write_cut_waveforms=S("write_cut_waveforms"),
                 write_real_waveforms=S("write_real_waveforms"),
                 real_waveform_units=S("real_waveform_units"),
                 write_wa_waveforms=S("write_wa_waveforms"),
                 wa_waveform_units=S("wa_waveform_units"),
                 cut_waveform_format=S("cut_waveform_format"),
                 write_marginal_coalescence=S("write_marginal_coalescence"),
                 write_coalescence=S("write_coalescence"))

    return c.scenario(
        "locate%s-%s-%s" % (sorted(extra_opaque), sorted(less), from_file),
        SCAN + ".locate", opaque=(LOCATE_OPAQUE | set(extra_opaque)) - set(less),
        args={"starttime": NONE, "endtime": NONE, "trigger_file": S("FILE")} if from_file
        else {"starttime": S("START"), "endtime": S("END"), "trigger_file": NONE},
        types=SCAN_TYPES, ctor_args={"onset": S("onset"), "**kwargs": S("kwargs")},
        ret_types={P + "io.data.Archive.read_waveform_data": P + "io.data.WaveformData"},
        ret_values={
            P + "signal.pickers.gaussian.GaussianPicker.pick_phases":
                lambda I, b, r: mk("tuple", (b["event"], mk("sub", r, num(1)))),
            P + "signal.local_mag.local_mag.LocalMag.calc_magnitude":
                lambda I, b, r: mk("tuple", (b["event"], mk("sub", r, num(1)))),
        },
        pre=pre, before=lambda I: setattrs(I, S("onset"), sampling_rate=S("RATE")),
    )


# ---- try/except helpers ---------------------------------------------------
def body_trys(e, types=DATA_EXC):
    """(tid, handler types) of the try bodies around effect e that catch one of types"""
    return [(t[0], t[2]) for t in e.trys if t[1] == "body" and any(set(h) & types for h in t[2])]


def caught_by(e):
    out = set()
    for t in e.trys:
        if t[1] == "body":
            for h in t[2]:
                out |= set(h)
    return out


def when_exc(pc, tid, handler=None):
    """path condition if the try `tid` raised (into the given handler)"""
    def f(x):
        if x.op == "exc":
            if x.a[0] == tid:
                return TRUE if handler is None or x.a[1] == handler else FALSE
            return None
    return subst(pc, f)


def scenario_archive(c):
    return c.scenario("archive.read", ARCHIVE + ".read_waveform_data",
                      ctor_args={"**kwargs": S("kwargs"), "archive_format": S("archive_format")},
                      opaque={"util.merge_stream", "util.shift_to_sample"},
                      before=lambda I: I.types.__setitem__(S("run"), c.prog.cls(RUN)))


def scenario_onsets(c):
    return c.scenario("calculate_onsets", STALTA + ".calculate_onsets",
                      args={"data": S("data"), "log": S("log"), "timespan": S("timespan")},
                      types={"data": P + "io.data.WaveformData"})


def method_name(t):
    """name of the method a call term invokes"""
    return t.a[0].a[1] if t.op == "call" and t.a[0].op == "meth" else None


def station_phase_key(t):
    """replace the two parts of a split station_phase key by named terms"""
    def f(x):
        if x.op == "sub" and x.a[1].op == "num":
            m = method_name(x.a[0]) or ""
            base = x.a[0].a[0].a[0] if m else None
            if m in ("split", "rsplit", "partition", "rpartition") and base is not None and base.op in ("dkey", "sym"):
                i = x.a[1].a[0]
                if i == 0:
                    return mk("part", base, const("station"))
                if i == (2 if "partition" in m else 1) or i == -1:
                    return mk("part", base, const("phase"))
        return None
    return subst(t, f)


def opaque_getitem(t, cls_name, as_sym):
    """calls of an opaque __getitem__ rewritten as subscripts of a symbol"""
    def f(x):
        if x.op == "call" and (fn_name(x) or "").endswith(cls_name + ".__getitem__"):
            kw = dict(x.a[2])
            if "key" in kw:
                return mk("sub", as_sym, kw["key"])
        return None
    return subst(t, f)


def effect_value(e, name):
    return e.args[-1]


def shared_writes(s):
    """updates of objects that outlive the call: module-level and class-level values, default arguments"""
    out = []
    for e in s.log:
        if e.kind in ("mutate", "setattr") and e.recv is not None:
            r = e.root if e.root is not None else s.I.root(e.recv)
            o = s.I.origin.get(r) or s.I.origin.get(e.recv)
            if o is None and r.op in ("cls", "mod", "func"):
                o = "object:" + str(r.a[0])
            if o is not None and not _deliberate(e, o):
                out.append((e, o))
    return out


def _deliberate(e, o):
    return o.startswith("object:matplotlib") or o.startswith("object:obspy")


def no_shared_writes(c, key, s, where, rule):
    bad = shared_writes(s)
    n = len([e for e in s.log if e.kind in ("mutate", "setattr")])
    c.req(key, not bad, bad[0][0] if bad else where, rule,
          "; ".join("%s writes %s" % (e.where, o) for e, o in bad[:4]) or "%d updates examined" % n)


TYPED = {
    S("event"): EVENT, S("lut"): LUT, S("run"): RUN, S("data"): P + "io.data.WaveformData", S("archive"): ARCHIVE, S("onset"): STALTA,
    at(S("self"), "lut"): LUT, at(S("self"), "archive"): ARCHIVE, at(S("self"), "run"): RUN, at(S("self"), "onset"): STALTA,
    at(S("self"), "picker"): P + "signal.pickers.gaussian.GaussianPicker", at(S("self"), "mags"): P + "signal.local_mag.local_mag.LocalMag",
    at(S("self"), "amp"): P + "signal.local_mag.amplitude.Amplitude", at(S("self"), "mag"): P + "signal.local_mag.magnitude.Magnitude",
    at(S("event"), "data"): P + "io.data.WaveformData",
}


def every(c, typed=False):
    """each function of the package analysed on its own for arbitrary arguments, calls of other project functions opaque"""
    fs = []
    for m in c.prog.modules.values():
        fs += list(m.funcs.values()) + [f for k in m.classes.values() for f in list(k.methods.values()) + (list(k.setters.values()) if typed else [])]
    names = {f.qual for f in fs}
    out = []
    for f in fs:
        try:
            q = f.qual + (".setter" if f.kind == "setter" else "")
            out.append((f, c.scenario(("typed:" if typed else "every:") + q, q, construct=False, opaque=names - {f.qual}, types=dict(TYPED) if typed else None)))
        except RecursionError:
            out.append((f, None))
    return out


# where P and S are measured
WINDOWS = mk("list", tuple(mk("list", (S(p + "_start"), S(p + "_end"))) for p in "ps"))
