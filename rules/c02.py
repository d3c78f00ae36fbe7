"""C02: missing data blanks one step / skips one event, never the whole run."""
from .common import *

LEVEL_NOTE = (
    "Exception-flow analysis: the raise sites reachable from the archive reader and the "
    "onset stage (interpreted from their entry points) are matched with the handlers "
    "around their calls in the detect and locate loops; the effects inside the handlers "
    "and the reachability (path condition) of every output effect after a handled "
    "exception are compared with what the property requires."
)
FLOOR = 12
CONFIG_EXC = {EXC + n for n in ("BadUpfactorException", "NyquistException", "ArchiveFormatException")} | {"TypeError", "ValueError"}


def loop_check(c, s, name, where):
    """the read and the onset computation are guarded by handlers of exactly DATA_EXC"""
    tids = {}
    for label, fns in (("read", "Archive.read_waveform_data"), ("onset", "calculate_onsets")):
        es = c.some("%s-%s-exists" % (name, label), s.calls(fns), where, "the stage is run for each step/event")
        for e in es:
            got = caught_by(e)
            c.req("%s-%s-handled" % (name, label), DATA_EXC <= got, e,
                  "each documented data shortage is handled within the step/event loop",
                  "handled: %s" % sorted(got))
            c.req("%s-%s-exact" % (name, label), got <= DATA_EXC or None if "?" in got else got <= DATA_EXC, e,
                  "no other error is swallowed by the run loop", "handled: %s" % sorted(got))
            for tid, hs in body_trys(e):
                tids[tid] = hs
            c.req("%s-%s-inside" % (name, label), bool(e.loops), e, "the handler is inside the loop, around one step/event")
    return tids


def rules(c):
    # ---------------- detect ----------------
    s = detect(c)
    before = le(c.expr("UTCDateTime(starttime)"), c.expr("UTCDateTime(endtime)"))
    tids = loop_check(c, s, "detect", SCAN + "._continuous_compute")
    rd = s.calls("Archive.read_waveform_data")
    lp = rd[0].loops[0] if rd and rd[0].loops else None
    empt = s.calls("ScanmSEED.empty")
    avail = [x for x in s.effs("setitem", "mutate")
             if x.recv is not None and x.recv.op == "attr" and x.recv.a[1] in ("loc", "iloc", "at") and in_handler(x, DATA_EXC)]
    for tid, hs in tids.items():
        for i in range(len(hs)):
            ex = when_exc(prod_or([when_exc(e.pc, tid, i) for e in empt if in_handler(e)]), tid, i)
            c.when("detect-blank-%d" % i, before, noexc(ex), empt[0] if empt else SCAN + "._continuous_compute",
                   "a handled data shortage blanks the step")
            ex = prod_or([when_exc(e.pc, tid, i) for e in avail])
            c.when("detect-availability-%d" % i, before, noexc(ex), avail[0] if avail else SCAN + "._continuous_compute",
                   "a handled data shortage records availability for the step")
    k = mk("k", lp) if lp is not None else None
    for e in empt:
        c.req("detect-blank-in-handler", in_handler(e, DATA_EXC), e, "steps are blanked only after a data shortage")
    for e in s.calls("ScanmSEED.append"):
        for tid, hs in tids.items():
            c.req("detect-no-append-on-shortage", noexc(when_exc(e.pc, tid)) is FALSE or any(t[0] == tid for t in e.trys), e,
                  "no coalescence is appended for a step without data")
            # inside the try body the append comes after the read and the computation
            c.req("detect-append-after", e.seq > max(x.seq for x in rd + s.calls("calculate_onsets")), e,
                  "coalescence is appended only after reading and computing succeeded")
    for e in avail:
        c.eq("detect-availability-step", e.args[0], k, e, "the zero row is recorded at this step")
        v = e.args[1]
        zero = v is num(0) or (v.op == "call" and fn_name(v) in ("numpy.zeros", "numpy.zeros_like"))
        c.req("detect-availability-zero", True if zero else (None if compare(v, num(0)) == UNDECIDED else False), e,
              "no station is available in a blanked step", show(v, 5))
    for kind in ("break", "return"):
        for e in s.effs(None, kind):
            if e.func.endswith("_continuous_compute") or (lp is not None and kind == "break" and lp in (e.loops or ())):
                c.req("detect-loop-exit", lp not in e.loops, e, "the step loop is not left early")
    for e in s.effs(None, "raise"):
        if in_handler(e, DATA_EXC):
            c.req("detect-no-reraise", False, e, "a data shortage does not end the run")
    for nm in ("ScanmSEED.write", "availability.write_availability"):
        ws = [w for w in s.calls(nm) if not w.loops]
        for tid, hs in tids.items():
            c.when("detect-%s-after-shortage" % nm.split(".")[-1], before,
                   noexc(prod_or([when_exc(w.pc, tid) for w in ws])), ws[0] if ws else SCAN,
                   "the run is completed and written although steps were blanked")

    # ---------------- locate ----------------
    for ff in (False, True):
        s = locate(c, from_file=ff)
        nm = "locate-file" if ff else "locate"
        tids = loop_check(c, s, nm, SCAN + "._locate_events")
        rd = s.calls("Archive.read_waveform_data")
        lp = rd[0].loops[0] if rd and rd[0].loops else None
        outs = []
        for fn in ("coalescence.write_coalescence", "pick_phases", "calc_magnitude", "Event.write",
                   "event.event_summary", "cut_waveforms.write_cut_waveforms"):
            outs += c.some("%s-%s" % (nm, fn.split(".")[-1]), s.calls(fn), SCAN + "._locate_events", "the output stage exists")
        for e in outs:
            for tid in tids:
                r = when_exc(e.pc, tid)
                inside = any(t[0] == tid for t in e.trys)
                c.req("%s-skip:%s" % (nm, e.fn.split(".")[-1]), r is FALSE and not inside, e,
                      "an event without data produces no output", show(r, 6))
        for kind in ("break", "return"):
            for e in s.effs(None, kind):
                if lp is None:
                    continue
                if kind == "return" and not e.func.endswith("_locate_events"):
                    continue
                if kind == "break" and e.loops[:1] == (lp,) and len(e.loops) > 1 or lp not in e.loops:
                    continue
                c.req(nm + "-loop-exit", False, e, "the event loop is not left early")
        for e in s.effs(None, "raise"):
            if in_handler(e, DATA_EXC):
                c.req(nm + "-no-reraise", False, e, "a data shortage does not end the run")

    # ---------------- raisers ----------------
    s = scenario_archive(c)
    rs = s.effs(None, "raise")
    esc = [r for r in rs if r.caught is None]
    for r in esc:
        c.req("read-raises:" + r.fn.split(".")[-1], r.fn in DATA_EXC | CONFIG_EXC, r,
              "reading reports data shortage only by the documented exceptions")
    em = c.some("read-empty", [r for r in esc if r.fn == EXC + "ArchiveEmptyException"], ARCHIVE + ".read_waveform_data",
                "an archive without files for the window is reported as empty")
    for r in em:
        hs = [t for t in r.trys if t[1] == "handler"]
        c.req("read-empty-cause", (any("StopIteration" in t[2][0] for t in hs) or None) if hs else None, r,
              "an empty file list is what makes the archive empty")
    gaps = c.some("read-gap", [r for r in esc if r.fn == EXC + "DataGapException"], ARCHIVE + ".read_waveform_data",
                  "nothing left in the window is reported as a gap")
    for g in gaps:
        late = [e for e in s.effs({"trim", "remove"}, ("mutate", "call")) + s.calls("Stream.trim") if e.seq > g.seq]
        c.req("read-gap-after-trim", not late, late[0] if late else g,
              "what remains is judged after cutting to the window")
    nexts = s.effs("next", "call")
    for e in nexts:
        c.req("read-next-handled", "StopIteration" in caught_by(e), e, "an exhausted file list does not escape as StopIteration")
    s = scenario_onsets(c)
    esc = [r for r in s.effs(None, "raise") if r.caught is None]
    for r in esc:
        c.req("onset-raises:" + r.fn.split(".")[-1], r.fn in DATA_EXC | CONFIG_EXC, r,
              "the onset stage reports data shortage only by the documented exception")
    da = c.some("onset-none", [r for r in esc if r.fn == EXC + "DataAvailabilityException"], STALTA + ".calculate_onsets",
                "no available station is reported as such")
    for r in da:
        dicts = find(r.pc, lambda x: x.op == "call" and fn_name(x) in ("dict.values",))
        c.req("onset-none-cause", bool(dicts) or None, r, "raised from the availability record")
    # ---------------- the exceptions carry the message the loops log ----------------
    for q in sorted(DATA_EXC):
        k = c.prog.cls(q)
        init = k.find_method("__init__") if hasattr(k, "find_method") else None
        s2 = c.scenario("msg-" + q, q + ".__init__", construct=False)
        sets = s2.effs("msg", "setattr")
        c.req("msg:" + q.split(".")[-1], bool(sets), q, "handlers log the message attribute of the exception")
