"""C01: detect covers the requested period once, step by step, correctly stamped."""
from .common import *

LEVEL_NOTE = (
    "Symbolic-free abstract interpretation of QuakeScan.detect from its constructor to "
    "every call of the archive reader, the onset stage, the migration kernel, the "
    "coalescence stream and the availability writer. Each argument is reduced to a "
    "polynomial normal form over (start, end, timestep, scan rate, pads, step counter) "
    "and compared with the form the property requires; path conditions are compared as "
    "boolean functions."
)
FLOOR = 14


def rules(c):
    s = detect(c)
    st, en = c.expr("UTCDateTime(starttime)"), c.expr("UTCDateTime(endtime)")
    midnight = c.expr("en.time == t", en=en, t=mk("call", ext("datetime.time"), (num(0), num(0)), ()))
    E = ite(midnight, c.expr("en - 1/RATE", en=en), en)
    N = c.expr("int(np.ceil((E - st)/TS))", E=E, st=st)
    before = le(st, en)
    T = "step tiling"

    reads = c.some("read-exists", s.calls("Archive.read_waveform_data"), SCAN + ".detect", T)
    pads = c.some("pad-exists", s.calls("pad"), SCAN + ".detect", T)
    if not reads or not pads:
        return
    for p in pads:
        c.eq("pad-timespan", kwd(p, "timespan"), S("TS"), p, "onset padding is computed for one timestep")
    pre, post = [mk("sub", pads[0].result, num(i)) for i in (0, 1)]
    only(c, "one-read-per-step", reads, 1, "every step reads its window exactly once")
    rd = reads[0]
    c.req("step-loop", len(rd.loops) == 1, rd, "the read happens once per step, in one loop over the steps")
    key = rd.loops[0]
    c.eq("n-steps", key.a[0], N, rd,
         "number of steps = ceil((end - start)/timestep), end moved one sample earlier when it is midnight")
    k = mk("k", key)
    e = dict(st=st, k=k, pre=pre, post=post)
    c.eq("window-start", kwd(rd, "starttime"), c.expr("st + TS*k - pre", **e), rd,
         "step k reads from start + k*timestep - pre-pad")
    c.eq("window-end", kwd(rd, "endtime"), c.expr("st + TS*(k+1) - 1/RATE + post", **e), rd,
         "step k reads up to one sample before the start of step k+1, plus post-pad")
    c.eq("no-extra-pre", kwd(rd, "pre_pad"), num(0), rd, "detect reads no further pre-pad")
    c.eq("no-extra-post", kwd(rd, "post_pad"), num(0), rd, "detect reads no further post-pad")
    c.iff("read-condition", noexc(rd.pc), before, rd, "every step is read whenever start <= end")

    rs = [x for x in s.effs(EXC + "TimeSpanException", "raise")]
    c.some("timespan-raise", rs, SCAN + ".detect", "an end before the start is refused")
    for r in rs:
        c.iff("timespan-condition", r.pc, lt(en, st), r, "refused exactly when end < start")
        c.req("timespan-propagates", r.caught is None, r, "the refusal reaches the caller")

    # time stamps of the results
    data = rd.result
    stamp = [c.expr("d.starttime + pre", d=data, pre=pre), c.expr("st + TS*k", **e)]
    apps = c.some("append-exists", s.calls("ScanmSEED.append"), SCAN + ".detect", T)
    only(c, "one-append", apps, 1, "each successful step appends once")
    for a in apps:
        got = kwd(a, "starttime")
        if got not in stamp:
            # the data start where they were read from
            d0 = mk("attr", data, "starttime")
            got = subst(got, lambda x: kwd(rd, "starttime") if x is d0 else None)
        c.eq("append-stamp", got, stamp[0 if got is stamp[0] else 1], a,
             "results are stamped with the start of the unpadded step window", trust=vocab(pre)[0])
        c.req("append-loop", a.loops == rd.loops, a, "results are appended in the step loop")
        c.eq("append-ucf", kwd(a, "ucf"), at(S("lut"), "unit_conversion_factor"), a,
             "depth units of the stored location follow the grid units")
        c.iff("append-condition", noexc(a.pc), before, a, "every readable step is appended")
    ems = c.some("empty-exists", s.calls("ScanmSEED.empty"), SCAN + ".detect", T)
    only(c, "one-empty", ems, 1, "each unreadable step is filled once")
    for a in ems:
        c.eq("empty-window", c.expr("s0 + t*i", s0=kwd(a, "starttime"), t=kwd(a, "timestep"), i=kwd(a, "i")),
             c.expr("st + TS*k", **e), a, "the blank step starts at start + k*timestep")
        c.eq("empty-length", kwd(a, "timestep"), S("TS"), a, "the blank step lasts one timestep")
        c.req("empty-loop", a.loops == rd.loops, a, "blank steps are filled in the step loop")
    # migration uses the pads of the same window
    for m in c.some("migrate-exists", s.calls("core.lib.migrate"), SCAN + ".detect", T):
        on = s.calls("calculate_onsets")[0].result
        osr = at(mk("sub", on, num(1)), "sampling_rate")
        for nm, p in (("first_idx", pre), ("last_idx", post)):
            c.eq("migrate-" + nm, kwd(m, nm), c.expr("int(round(p*int(r)))", p=p, r=osr), m,
                 "the migrated samples are those of the unpadded step window")
    for m in s.calls("calculate_onsets"):
        c.eq("onset-input", kwd(m, "data"), data, m, "onsets are computed from the step's own data")
    # final writes
    for nm, n in (("ScanmSEED.write", "final-write"), ("availability.write_availability", "availability-write")):
        ws = c.some(n, s.calls(nm), SCAN + ".detect", "results reach disk at the end of the run")
        for w in ws[-1:]:
            c.req(n + "-once", len(w.loops) == 0, w, "written once, after the last step")
            c.when(n + "-always", before, noexc(w.pc), w, "written whenever the run completes")
    # availability rows
    av = [x for x in s.effs("setitem", "mutate")
          if x.args and x.args[0] is k and x.recv is not None and x.recv.op == "attr" and x.recv.a[1] in ("loc", "iloc", "at")]
    ok = [x for x in av if not in_handler(x)]
    c.some("availability-row", ok, SCAN + ".detect", "each step records station availability")
    for x in ok:
        c.eq("availability-value", x.args[1], at(mk("sub", s.calls("calculate_onsets")[0].result, num(1)), "availability"), x,
             "the availability row is the one the onset stage reported for this step")
    ren = s.effs("rename", "mutate")
    for x in ren:
        idx = x.kw.get("index")
        want = mk("dict", ((k, c.expr("str(st + TS*k)", **e)),))
        c.eq("availability-label", idx, want, x, "availability rows are labelled with the start of their step")
        c.iff("availability-label-condition", noexc(x.pc), before, x, "every step's row is labelled")
