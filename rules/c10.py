"""C10: each event is treated in its own window; only in-window maxima are located."""
from .common import *
from qmsa.equiv import behaves

LEVEL_NOTE = (
    "Abstract interpretation of QuakeScan.locate over a symbolic event row: windows read, "
    "extra padding, sample times, origin, acceptance condition and trimming are reduced to "
    "normal forms over (trigger time, marginal window, pads, rate) and compared with the "
    "required forms; a may-write analysis checks that nothing created for one event is "
    "stored outside it."
)
FLOOR = 14


def columns(t):
    """the columns a table was made with, by name; None if it is not made column by column"""
    if t.op == "call" and t.a[0] is ext("pandas.DataFrame") and len(t.a[1]) == 1 and not t.a[2] and t.a[1][0].op == "dict":
        return {k.a[0].v: v for k, v in t.a[1][0].a[0] if k.op == "const"}
    return None


def anew(t):
    """a table whose rows are numbered again has the same rows"""
    while t.op == "call" and t.a[0].op == "meth" and t.a[0].a[1] == "reset_index" and not t.a[1] and dict(t.a[2]) == {"drop": TRUE}:
        t = t.a[0].a[0]
    return t


def spread(t):
    """the axes of the map (three of space, one of time) that "..." stands for"""
    if t.op == "sub" and t.a[1].op == "tuple" and sum(x is const(Ellipsis) for x in t.a[1].a[0]) == 1 and len(t.a[1].a[0]) <= 4:
        ks = list(t.a[1].a[0])
        i = ks.index(const(Ellipsis))
        ks[i:i + 1] = [mk("slice", NONE, NONE, NONE)] * (5 - len(ks))
        return mk("sub", t.a[0], mk("tuple", tuple(ks)))
    return t


def rules(c):
    for ff in (False, True):
        one(c, locate(c, from_file=ff), ff)
    extra(c)
    behaves(c, "trim", EVENT + ".trim2window", "export.trimmed", fields=("coa_data", "map4d", "otime"), ret=False,
            rule="series and map of the marginal window, rows numbered anew; the time of the largest coalescence is the origin")


def one(c, s, ff):
    nm = "file:" if ff else "period:"
    MW = S("MW")
    where = SCAN + "._locate_events"
    trs = c.some(nm + "events-read", s.calls("triggered_events.read_triggered_events"), where,
                 "locate works from the triggered events")
    pads = c.some(nm + "pad", s.calls("pad"), where, "the onset padding is requested")
    pads = [p for p in pads if p.recv is S("onset")]
    reads = c.some(nm + "read", s.calls("Archive.read_waveform_data"), where, "waveforms are read for each event")
    if not (trs and pads and reads):
        return
    for p in pads:
        c.eq(nm + "pad-timespan", kwd(p, "timespan"), mul(num(4), MW), p,
             "the onset padding is computed for the 4 marginal windows that are read")
    pre, post = [mk("sub", pads[0].result, num(i)) for i in (0, 1)]
    ev = trs[0].result
    kw = trs[0].bound.get("kwargs", None)
    for rd in reads:
        c.req(nm + "per-event", len(rd.loops) == 1, rd, "one read per event")
        rows = find(kwd(rd, "starttime"), lambda x: x.op == "row")
        if len(rows) != 1:
            c.req(nm + "window-row", None, rd, "the window is derived from the event's row")
            continue
        row = rows[0]
        c.req(nm + "row-of-events", row.a[0] is ev, rd, "the row is one of the triggered events")
        trig = mk("sub", row, const("CoaTime"))
        e = dict(trig=trig, MW=MW, pre=pre, post=post)
        c.eq(nm + "window-start", kwd(rd, "starttime"), c.expr("trig - 2*MW - pre", **e), rd,
             "data are read from two marginal windows before the trigger time, plus pre-pad")
        c.eq(nm + "window-end", kwd(rd, "endtime"), c.expr("trig + 2*MW + post", **e), rd,
             "data are read to two marginal windows after the trigger time, plus post-pad")
        amp = s.calls("Amplitude.pad")
        c.some(nm + "amp-pad", amp, where, "with magnitudes, the padding amplitudes need is requested")
        for i, (nme, cut, op) in enumerate((("pre_pad", "pre_cut", pre), ("post_pad", "post_cut", post))):
            got = kwd(rd, nme)
            if not amp:
                continue
            base = ite(S("mags"), mk("sub", amp[0].result, num(i)), num(0))
            want = c.expr("max(0, x - MW - op)", x=ite(S(cut), c.expr("max(b, q)", b=base, q=S(cut)), base), MW=MW, op=op)
            c.eq(nm + "extra-" + nme, got, want, rd,
                 "beyond the window read anyway, the larger of the amplitude and the cutting requirement is read")
        for a in amp[:1]:
            c.eq(nm + "amp-mw", kwd(a, "marginal_window"), MW, a, "amplitude padding allows for the marginal window")
            c.eq(nm + "amp-tt", kwd(a, "max_tt"), at(S("lut"), "max_traveltime"), a, "amplitude padding allows for the largest travel time")
            c.eq(nm + "amp-frac", kwd(a, "fraction_tt"), at(S("lut"), "fraction_tt"), a, "amplitude padding allows for the travel time uncertainty")
        # computed map and its time stamps
        on = c.some(nm + "onsets", s.calls("calculate_onsets"), where, "onsets computed per event")
        for m in on:
            c.eq(nm + "onset-input", kwd(m, "data"), rd.result, m, "onsets are computed from this event's data")
        migs = c.some(nm + "migrate", s.calls("core.lib.migrate"), where, "map computed per event")
        if not on or not migs:
            continue
        mg = migs[0]
        osr = at(mk("sub", on[0].result, num(1)), "sampling_rate")
        for n2, p in (("first_idx", pre), ("last_idx", post)):
            c.eq(nm + "migrate-" + n2, kwd(mg, n2), c.expr("int(round(p*int(r)))", p=p, r=osr), mg,
                 "the map covers the window without the onset padding")
        fm = s.calls("core.lib.find_max_coa")
        cd = [x for x in s.effs("coa_data", "setattr") if x.args[-1] is not NONE]
        c.some(nm + "series", cd, where, "the event carries the series of maxima")
        cols = columns(s.I.snap(cd[0].args[-1])) if cd else None
        if not fm or not cols:
            c.req(nm + "coa-frame", None, where, "series of maxima is tabulated")
            continue
        fm, fr, D = fm[0], cd[0], s.I.snap(cd[0].args[-1])
        hdr = c.expr("obspy.Trace(header={'npts': 4*MW*RATE + 1, 'sampling_rate': RATE, 'starttime': trig - 2*MW})",
                     trig=trig, MW=MW, RATE=S("RATE"))
        c.eq(nm + "times", cols.get("DT"), c.expr("h.times(type='utcdatetime')", h=hdr), fr,
             "sample times start two marginal windows before the trigger, one per sample of the scan rate, both ends included",
             trust={"obspy.Trace", ".times"})
        c.eq(nm + "coa", cols.get("COA"), mk("sub", fm.result, num(0)), fr, "column COA is the maximum coalescence")
        c.eq(nm + "coan", cols.get("COA_NORM"), mk("sub", fm.result, num(1)), fr, "column COA_NORM is the normalised maximum")
        ic = s.calls("index2coord")
        for j, ax in enumerate("XYZ"):
            want = mk("sub", ic[0].result, mk("tuple", (mk("slice", NONE, NONE, NONE), num(j)))) if ic else None
            if want is not None:
                c.eq(nm + "coord-" + ax, cols.get(ax), want, fr, "column %s is coordinate %d of the node of the maximum" % (ax, j))
        if ic:
            c.eq(nm + "coord-index", kwd(ic[0], "value"), mk("sub", fm.result, num(2)), ic[0], "the coordinates are those of the node of the maximum")
            c.eq(nm + "coord-unravel", kwd(ic[0], "unravel"), TRUE, ic[0], "the kernel's flat node index is unravelled")
        o1 = c.expr("D.iloc[D['COA'].astype(float).idxmax()]['DT']", D=D)
        ots = s.effs("otime", "setattr")
        real = [x for x in ots if x.args[-1] is not NONE]
        c.some(nm + "otime", real, where, "the origin time is taken from the map")
        if real:
            c.eq(nm + "otime-first", real[0].args[-1], o1, real[0], "the origin is the time of the maximum of the map",
                 trust={".idxmax", ".astype"})
        # acceptance
        acc = and_(lt(sub_(o1, MW), trig), lt(trig, add(o1, MW)))
        outs = s.calls("Event.write")
        for w in outs:
            c.only_if(nm + "accept-only", noexc(w.pc), acc, w, "only events whose maximum is within the marginal window of the trigger are located")
            st = le(c.expr("UTCDateTime(a)", a=S("START")), c.expr("UTCDateTime(b)", b=S("END"))) if not ff else TRUE
            c.when(nm + "accept-always", and_(acc, st), noexc(w.pc), w, "every such event is located and written")
        # trimming
        lo, hi = sub_(o1, MW), add(o1, MW)
        Dw = c.expr("D[(D['DT'] >= lo) & (D['DT'] <= hi)]", D=D, lo=lo, hi=hi)
        mp = [x for x in s.effs("map4d", "setattr") if x.args[-1] is not NONE]
        if mp:
            c.eq(nm + "map", mp[0].args[-1], mg.result, mp[0], "the event's map is the one computed for it")
        c.req(nm + "map-trimmed", len(mp) == 2 or (False if len(mp) < 2 else None), mp[-1] if mp else where, "the map is restricted to the marginal window once")
        if len(cd) >= 2:
            c.eq(nm + "trim-series", anew(cd[-1].args[-1]), Dw, cd[-1], "the series keeps the samples within the marginal window of the origin, ends included")
        if len(mp) == 2 and len(cd) >= 2:
            got = spread(mp[1].args[-1])
            want = c.expr("M[:, :, :, Dw.index[0]:Dw.index[-1] + 1]", M=mg.result, Dw=Dw)
            c.eq(nm + "trim-map", got, want, mp[1], "the map keeps the samples the trimmed series keeps")
            for l in mp[1:]:
                c.only_if(nm + "trim-cond", noexc(l.pc), acc, l, "only accepted events are trimmed")
        # what is marginalised is this event's trimmed map
        # per-event state
        evs = [x for x in s.effs("map4d", "setattr")]
        for x in evs:
            c.req(nm + "event-fresh", x.recv is not None and x.recv.op == "ref" and any(
                y.kind == "setattr" and y.fn == "uid" and y.recv is x.recv and y.loops == rd.loops for y in s.log),
                x, "the event object is created for each event inside the loop")
    # nothing of one event is kept outside of it
    lp = reads[0].loops
    for x in s.log:
        if x.kind == "setattr" and x.loops[:1] == lp and x.recv is s.self:
            c.req(nm + "scan-state", False, x, "processing an event does not alter the scan object (%s)" % x.fn)


def extra(c):
    # Event construction from a row: identity and trigger information
    s = c.scenario("Event()", EVENT + ".__init__", construct=False, args={"marginal_window": S("MW"), "triggered_event": S("ROW")})
    row = S("ROW")
    for name, want in (("uid", mk("sub", row, const("EventID"))), ("trigger_time", mk("sub", row, const("CoaTime"))), ("marginal_window", S("MW"))):
        v = s.attr(name)
        v = subst(v, lambda x: TRUE if x.op == "is" and False else None)
        es = s.effs(name, "setattr")
        c.some("event-" + name, es, EVENT + ".__init__", "an event carries its %s" % name)
        for e in es:
            c.eq("event-value-" + name, e.args[-1], want, e, "%s comes from the event's own row" % name)
    for name in ("locations", "picks", "localmag"):
        es = s.effs(name, "setattr")
        for e in es:
            v = e.args[-1]
            fresh = v.op == "ref" and v not in s.I.origin
            c.req("event-fresh-" + name, True if (fresh or v.op == "dict") else (False if v in s.I.origin else None), e,
                  "each event starts with its own empty %s" % name)
