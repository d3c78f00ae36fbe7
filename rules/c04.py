"""C04: migration stacks matching onsets and travel times of the available phases."""
from .common import *

LEVEL_NOTE = (
    "Abstract interpretation of the onset stage, the lookup table's travel-time server, "
    "QuakeScan._compute and the kernel wrapper. The order in which onsets are stacked "
    "(loop nest, element, filter condition) and the order in which travel times are "
    "stacked are reduced to normal-form list terms and required to enumerate the same "
    "sequence; scaling, normalisation and array shapes are compared with the required forms."
)
FLOOR = 14


def rules(c):
    c.do(onsets)
    c.do(server)
    for s, nm in ((detect(c), "detect:"), (locate(c), "locate:")):
        c.do(compute, s, nm)
    c.do(wrapper)
    c.do(peaks)


def onsets(c):
    s = c.scenario("onset order", STALTA + ".calculate_onsets", construct=False,
                   opaque={"WaveformData.check_availability", "stalta.pre_process", "STALTAOnset._onset"},
                   types={"data": P + "io.data.WaveformData"})
    where = STALTA + ".calculate_onsets"
    so, data = S("self"), S("data")
    calls = c.some("onset-computed", s.calls("STALTAOnset._onset"), where, "an onset is computed per station and phase")
    avs = c.some("availability-checked", s.calls("check_availability"), where, "availability is checked per station and phase")
    st = [x for x in s.effs("setitem", "mutate") if x.args and x.args[0].op == "fmt"]
    rets = [x for x in s.effs("availability", "setattr")]
    c.some("availability-reported", rets, where, "availability is reported with the onsets")
    if not (calls and avs and rets):
        return
    ca = avs[0]
    lp = ca.loops
    c.req("loop-nest", len(lp) == 2 or None, ca, "stations and phases are visited in one nest of two loops")
    if len(lp) != 2:
        return
    names = []
    for l in lp:
        it = l.a[0]
        names.append(it)
    c.eq("outer-loop", names[0], c.expr("len(x)", x=at(so, "phases")), ca, "phases are the outer loop")
    c.eq("inner-loop", names[1], c.expr("len(x)", x=at(data, "stations")), ca, "stations are the inner loop")
    ph = mk("sub", at(so, "phases"), mk("k", lp[0]))
    sta = mk("sub", at(data, "stations"), mk("k", lp[1]))
    key = c.expr("f'{a}_{b}'", a=sta, b=ph)
    okv = mk("sub", ca.result, num(0))
    # what is selected for this station and phase
    pp = s.calls("stalta.pre_process")
    c.some("pre-processed", pp, where, "waveforms are pre-processed per phase")
    for p in pp[:1]:
        sel = find(kwd(p, "stream"), lambda x: method_name(x) == "select")
        want = c.expr("d.waveforms.select(channel=m[p])", d=data, m=at(so, "channel_maps"), p=ph)
        c.eq("phase-channels", kwd(p, "stream"), want, p, "each phase uses the channels of its channel map", trust={".select"})
    for a in avs:
        w = kwd(a, "st")
        if w is None:
            w = a.args[0] if a.args else None
        good = c.expr("w.select(station=x)", w=pp[0].result if pp else S("?"), x=sta)
        c.eq("station-waveforms", w, good, a, "availability is judged on the waveforms of this station and phase", trust={".select"})
    # availability record
    ok = [x for x in st if x.loops == lp]
    c.some("availability-entry", ok, where, "availability of every station and phase is recorded")
    for x in ok:
        c.eq("availability-key", x.args[0], key, x, "entries are named station_phase")
        c.eq("availability-value", x.args[1], okv, x, "the entry is the availability just judged")
        c.iff("availability-every", noexc(x.pc), TRUE, x, "an entry is made for every station and phase, available or not")
    # appended onsets
    apps = [x for x in s.effs("append", "mutate") if x.loops == lp]
    c.some("onset-appended", apps, where, "onsets are collected in the same nest of loops")
    cond = not_(eq(okv, num(0)))
    res = calls[0].result
    for x in apps:
        v = x.args[0]
        direct = v is res
        nested = v.op == "sub" and v.a[1] is ph and v.a[0].op == "sub" and v.a[0].a[1] is sta
        c.req("onset-element", True if direct or nested else (False if v.op == "sub" and v.a[0].op == "sub" and compare(v.a[1], ph) == VIOLATED else None),
              x, "the collected onset is the one of this station and phase", show(v, 5))
        pc = noexc(x.pc)
        alt = [cond, eq(okv, num(1)), okv, lt(num(0), okv)]
        good = any(equivalent(pc, q) for q in alt)
        c.req("onset-filter", True if good else None, x, "onsets are collected for exactly the available station-phases", show(pc, 5))
        if not good:
            c.iff("onset-filter", pc, cond, x, "onsets are collected for exactly the available station-phases")
    for x in calls:
        if x.loops == lp:
            w = kwd(x, "stream")
            base = avs[0].args[0] if avs[0].args else kwd(avs[0], "st")
            same = contains(w, lambda y: method_name(y) == "select" and y.a[2] and y.a[2][-1][1] is sta)
            c.req("onset-own-waveforms", same or None, x, "the onset is computed from this station's waveforms", show(w, 4))
    ret = s.snap(s.ret)
    if ret.op == "tuple" and len(ret.a[0]) == 2:
        t = ret.a[0][0]
        isst = t.op == "call" and fn_name(t) in ("numpy.stack", "numpy.array", "numpy.vstack")
        c.req("stacked", isst or None, where, "the onsets are stacked", show(t, 4))
        lst = t.a[1][0] if isst and t.a[1] else None
        if isst:
            ax = dict(t.a[2]).get("axis") if len(t.a[1]) < 2 else t.a[1][1]
            c.req("stack-axis", ax in (None, num(0)), where, "stations-phases are the first axis", show(t, 3))
            # collected in loop order: a map over (phases, stations), nothing re-ordered
            m = lst
            seq = []
            while m is not None and m.op in ("map", "flat"):
                if m.op == "map":
                    seq.append(m.a[0])
                    m = m.a[2][0] if len(m.a[2]) == 1 else None
                else:
                    m = m.a[0]
            c.req("stack-order", tuple(seq) == tuple(lp) or (None if not seq else False), where,
                  "stacked in the order in which availability is recorded", show(lst, 5))
    # the data object handed on carries the same record and rate
    for x in rets:
        rec = [y for y in ok]
        d = x.args[-1]
        mentions = contains(d, lambda y: y is okv) and contains(d, lambda y: y is key)
        c.req("availability-handed-on", mentions or None, x, "the record handed on is the one filled here", show(d, 4))
        c.req("availability-unfiltered", not contains(d, lambda y: y.op == "call" and fn_name(y) in ("sorted", "reversed")) or None, x, "in the same order")
    for x in s.effs("sampling_rate", "setattr"):
        c.eq("rate-handed-on", x.args[-1], at(so, "sampling_rate"), x, "the rate of the onsets is handed on")


def equivalent(a, b):
    return counterexample(a, b) is None and counterexample(b, a) is None


def server(c):
    s = c.scenario("serve", LUT + ".serve_traveltimes", construct=False,
                   args={"sampling_rate": S("R"), "availability": S("AV")}, opaque={"LUT.__getitem__"})
    where = LUT + ".serve_traveltimes"
    L = S("L")
    got = station_phase_key(opaque_getitem(noexc(s.snap(s.ret)), "LUT", L))
    wants = []
    for cond in ("a == 1", "a != 0", "a", "a > 0", "bool(a)"):
        for cast in (".astype(np.int32)", ".astype('int32')"):
            t = c.expr("np.rint(np.stack([L[k.split('_')[0]][k.split('_')[1]] for k, a in AV.items() if %s], axis=-1)*R)%s" % (cond, cast), L=L)
            wants.append(station_phase_key(t))
    # the layers are laid down in the order of the record itself
    over = [x.a[0] for x in subterms(got) if x.op == "map" and x.a[0].op == "loop"]
    changed = [l for l in over if contains(l, lambda y: y.op == "call" and fn_name(y) in (
        "sorted", "reversed", "set", "frozenset", "numpy.unique", "numpy.sort")) and contains(l, lambda y: y is S("AV"))]
    c.req("tt-order", False if changed else True if over else None, where,
          "the travel-time grids are stacked in the order of the availability record, which is the order of the onsets",
          "; ".join(show(l, 6) for l in changed))
    c.one_of("tt-sequence", got, wants, where,
             "travel times of exactly the available station-phases, in the order of the availability record, last axis, rounded to samples of the given rate",
             trust={".astype", "numpy.stack"})
    dt = find(got, lambda x: method_name(x) == "astype")
    # fallback for tables written by old versions
    g = c.scenario("lut[]", LUT + ".__getitem__", construct=False)
    t = noexc(g.snap(g.ret))
    c.eq("tt-lookup", t, mk("sub", at(S("self"), "traveltimes"), S("key")), LUT + ".__getitem__", "looked up by station name")


def compute(c, s, nm):
    where = SCAN + "._compute"
    on = s.calls("calculate_onsets")
    sv = c.some(nm + "served", s.calls("serve_traveltimes"), where, "travel times are served for each window")
    mg = c.some(nm + "migrated", s.calls("core.lib.migrate"), where, "onsets are migrated")
    if not (on and sv and mg):
        return
    odata = mk("sub", on[0].result, num(1))
    for x in sv:
        c.eq(nm + "serve-rate", kwd(x, "sampling_rate"), at(odata, "sampling_rate"), x, "travel times are in samples of the onsets")
        c.eq(nm + "serve-availability", kwd(x, "availability"), at(odata, "availability"), x, "restricted to what the onset stage found available")
    for x in mg:
        c.eq(nm + "migrate-onsets", kwd(x, "onsets"), mk("sub", on[0].result, num(0)), x, "the stacked onsets are migrated")
        c.eq(nm + "migrate-tt", kwd(x, "traveltimes"), sv[0].result, x, "with the travel times served for them")
        av = at(odata, "availability")
        c.one_of(nm + "migrate-available", kwd(x, "available"),
                 [c.expr("np.sum([v for _, v in a.items()])", a=av), c.expr("sum(a.values())", a=av),
                  c.expr("np.sum(list(a.values()))", a=av), c.expr("o.shape[0]", o=mk("sub", on[0].result, num(0))),
                  c.expr("len(o)", o=mk("sub", on[0].result, num(0))), c.expr("t.shape[-1]", t=sv[0].result)],
                 x, "normalised by the number of available onsets")
    for x in s.calls("find_max_coa"):
        c.eq(nm + "peak-map", kwd(x, "map4d"), mg[0].result, x, "maxima are sought in the migrated map")


def lib_calls(s, name):
    return [e for e in s.log if e.kind == "call" and e.recv is not None and (e.fn or "").split(".")[-1] == name
            and contains(e.recv, lambda y: y.op == "call" and (fn_name(y) or "").startswith("ctypes."))]


def unwrap(t):
    """drop ctypes conversions"""
    if t is not None and t.op == "call" and ".c_" in (fn_name(t) or "") and len(t.a[1]) == 1:
        return t.a[1][0]
    return t


def wrapper(c):
    s = c.scenario("lib.migrate", P + "core.lib.migrate")
    where = P + "core.lib.migrate"
    cs = c.some("kernel-called", lib_calls(s, "migrate"), where, "the native kernel is called")
    for e in cs:
        a = e.args
        if len(a) < 10:
            c.req("kernel-args", False, e, "the kernel is called with its ten arguments")
            continue
        clipped = [x for x in find(a[0], lambda x: x.op in ("max",) or (x.op == "call" and fn_name(x) in ("max", "numpy.maximum", "numpy.clip")))]
        L = a[0]
        ok = L.op == "call" and fn_name(L) == "numpy.log"
        c.req("log-onsets", ok or compare(L, c.expr("np.log(o)", o=S("onsets"))) == UNDECIDED and None, e, "the logarithm of the onsets is stacked", show(L, 5))
        if ok:
            inner = L.a[1][0]
            los = find(inner, lambda x: x.op == "num" and 0 < x.a[0])
            pos = None
            for lo in los:
                for w in ("np.clip(o, lo, np.inf)", "max(o, lo)", "np.clip(o, lo, None)"):
                    if inner is c.expr(w, o=S("onsets"), lo=lo):
                        pos = True
            if inner is S("onsets"):
                pos = False
            if pos is None and compare(inner, S("onsets")) == VIOLATED:
                pos = False
            c.req("log-positive", pos, e, "onsets are bounded below by a positive number before the logarithm", show(inner, 5))
        onsets, tt = a[0], S("traveltimes")
        sh = mk("sub", at(onsets, "shape"), num(1))
        f, l = S("first_idx"), S("last_idx")
        ns = sub_(sub_(sh, f), l)
        c.eq("tt-arg", a[1], tt, e, "travel times are passed unchanged")
        c.eq("first-arg", unwrap(a[3]), f, e, "first sample")
        c.eq("last-arg", unwrap(a[4]), l, e, "last sample")
        shs = [ns, c.expr("o.shape[1] - f - l", o=S("onsets"), f=f, l=l), c.expr("o.shape[-1] - f - l", o=onsets, f=f, l=l)]
        c.one_of("n-samples", unwrap(a[5]), shs, e, "number of samples of the unpadded window")
        c.one_of("n-onsets", unwrap(a[6]), [mk("sub", at(onsets, "shape"), num(0)), mk("sub", at(S("onsets"), "shape"), num(0)),
                                            mk("sub", at(tt, "shape"), num(-1))], e, "number of stacked onsets")
        c.eq("available-arg", unwrap(a[7]), S("available"), e, "number of available onsets")
        c.eq("nodes-arg", unwrap(a[8]), c.expr("np.prod(t.shape[:-1])", t=tt), e, "number of grid nodes")
        m = a[2]
        okz = m.op == "call" and fn_name(m) in ("numpy.zeros", "numpy.empty", "numpy.full", "numpy.zeros_like")
        c.req("map-zeroed", (fn_name(m) == "numpy.zeros") if okz else None, e, "the map starts from zero (the kernel adds to it)", show(m, 4))
        ret = s.snap(s.ret)
        c.eq("map-returned", ret, mut_of(s, m), e, "the array the kernel filled is returned", trust={"numpy.zeros"})


def mut_of(s, m):
    r = s.snap(s.ret)
    # the kernel may have filled the array in place
    if contains(r, lambda y: y is m):
        return r
    return m


def peaks(c):
    s = c.scenario("lib.find_max_coa", P + "core.lib.find_max_coa")
    where = P + "core.lib.find_max_coa"
    cs = c.some("peak-kernel-called", lib_calls(s, "find_max_coa"), where, "the native kernel is called")
    for e in cs:
        a = e.args
        if len(a) < 7:
            c.req("peak-kernel-args", False, e, "the kernel is called with its seven arguments")
            continue
        m = S("map4d")
        c.eq("peak-map", a[0], m, e, "the map is passed unchanged")
        c.eq("peak-samples", unwrap(a[4]), mk("sub", at(m, "shape"), num(-1)), e, "number of samples")
        c.eq("peak-nodes", unwrap(a[5]), c.expr("np.prod(m.shape[:-1])", m=m), e, "number of grid nodes")
