"""C11: location estimates come from this event's marginal map, in the grid's frame and units."""
from .common import *

LEVEL_NOTE = (
    "Each estimator's return value, as a normal form over its map argument, is compared with "
    "a reference function (ref/scan.py, analysed and never run); the data flow from the event's "
    "trimmed 4-D map through the marginal map to each estimator, and from each estimator to the "
    "event's location entries, is followed in QuakeScan.locate; a may-write analysis shows that "
    "no estimator writes to the map it is given unless it is given a copy."
)
FLOOR = 20

EST = {"_splineloc": "spline location", "_gaufilt3d": "smoothing", "_covfit3d": "covariance fit"}
XYZ = ("X", "Y", "Z")


def rules(c):
    c.do(functions)
    c.do(flow)
    c.do(entries)
    c.do(accessors)


OP = {"Grid3D.index2coord", "Grid3D.coord2grid", "Grid3D.node_count", "Grid3D.node_spacing",
      "Grid3D.ll_corner", "util.gaussian_3d"}
FL = {(SCAN, "lut"): LUT}


def functions(c):
    for fn, ref, rule in (
        ("_mask3d", "mask3d", "the fit window is the nodes within (window - 1) // 2 of the peak, inside the grid"),
        ("_splineloc", ("spline", "spline_ij"),
         "the interpolated maximum of the window around the peak node, in whole-grid nodes, converted to "
         "coordinates; the gridded maximum if the window crosses the edge or the maximum leaves it"),
        ("_gaufit3d", "gaussian", "peak of the local Gaussian in whole-grid nodes, converted to coordinates; widths times node spacing"),
        ("_covfit3d", "covariance", "weighted mean and standard deviations of the node coordinates above the threshold, from the grid's corner"),
        ("_gaufilt3d", "smooth", "symmetric smoothing with a Gaussian of the shape of the map"),
    ):
        refs = ["scan." + r for r in ((ref,) if isinstance(ref, str) else ref)]
        c.matches("value:" + fn, SCAN + "." + fn, refs, None, rule, opaque=OP, fields=FL)
    # the Gaussian kernel and its defaults
    for fn in ("gaussian_3d", "gaussian_1d"):
        ref = "scan.gaussian_1d" if fn == "gaussian_1d" else "scan.gaussian_3d_ref"
        c.matches("value:" + fn, P + "util." + fn, ref, None, "the Gaussian is centred, one standard deviation per axis")


def strip_copy(t):
    def f(x):
        if x.op == "call" and fn_name(x) in ("numpy.copy", "numpy.array") and len(x.a[1]) == 1 and not x.a[2]:
            return subst(x.a[1][0], f)
        return None
    return subst(t, f)


def flow(c):
    for ff in (False, True):
        s = locate(c, extra_opaque=tuple("QuakeScan." + e for e in ("_splineloc", "_gaufit3d", "_covfit3d", "_gaufilt3d")), from_file=ff)
        c.do(one, s, "file:" if ff else "period:")


def one(c, s, nm):
    where = SCAN + ".locate"
    mp = [x for x in s.effs("map4d", "setattr") if x.args[-1] is not NONE]
    c.some(nm + "map", mp, where, "the event carries its coalescence map")
    if not mp:
        return
    M4 = mp[-1].args[-1]
    M3 = c.expr("np.sum(M, axis=-1) / np.nanmax(np.sum(M, axis=-1))", M=M4)
    for e in EST:
        cs = c.some(nm + "call" + e, s.calls("QuakeScan." + e), where, "%s is computed for every event" % EST[e])
        for x in cs:
            a = [x.bound[k] for k in x.bound if k != "self"][0]
            c.eq(nm + "input" + e, strip_copy(a), M3, x, "the %s is given the sum of the map over the marginal window, normalised by its maximum" % EST[e])
            fresh = a.op == "call" and fn_name(a) in ("numpy.copy", "numpy.array")
            ws = [w for w in own_writes(c, e)]
            c.req(nm + "untouched" + e, True if (fresh or not ws) else None if any(x2.root is None for x2 in ws) else False,
                  x, "the %s leaves the marginal map as it was (it is given a copy, or does not write to it)" % EST[e],
                  "writes at %s" % ", ".join(w.where for w in ws))
    sm = s.calls("QuakeScan._gaufilt3d")
    gf = c.some(nm + "call_gaufit3d", s.calls("QuakeScan._gaufit3d"), where, "the local Gaussian is fitted for every event")
    for x in gf:
        a = [x.bound[k] for k in x.bound if k != "self"][0]
        if sm:
            c.eq(nm + "input_gaufit3d", strip_copy(a), strip_copy(sm[0].result), x, "the local Gaussian is fitted to the smoothed marginal map")
    # results
    ev = mp[-1].recv
    got = {}
    for e in s.log:
        if e.kind == "mutate" and e.fn == "setitem" and e.args and is_str(e.args[0]) and e.args[0].a[0].v in ("spline", "gaussian", "covariance"):
            got[e.args[0].a[0].v] = e
    sp = s.calls("QuakeScan._splineloc")
    cv = s.calls("QuakeScan._covfit3d")
    res = {"spline": sp, "gaussian": gf, "covariance": cv}
    for k, rule in (("spline", "the spline location"), ("gaussian", "the local Gaussian fit"), ("covariance", "the global covariance fit")):
        e = got.get(k)
        c.some(nm + "entry-" + k, [e] if e else [], where, "%s is stored with the event" % rule)
        if e is None or not res[k]:
            continue
        r = res[k][0].result
        v = s.snap(e.args[1])
        for j, ax in enumerate(XYZ):
            want = mk("sub", r, num(j)) if k == "spline" else mk("sub", mk("sub", r, num(0)), num(j))
            c.eq(nm + "%s-%s" % (k, ax), item(v, ax), want, e, "%s of %s is component %d of its result" % (ax, rule, j))
            if k != "spline":
                c.eq(nm + "%s-Err%s" % (k, ax), item(v, "Err" + ax),
                     mk("sub", mk("sub", r, num(1)), num(j)), e, "the %s error of %s is component %d of its uncertainty" % (ax, rule, j))
        for x in res[k][:1]:
            c.eq(nm + "cond-" + k, noexc(x.pc), noexc(e.pc), e, "each located event gets the result computed for it")
    # consumers of the marginal map
    for fn, arg, rule in (("event.event_summary", "marginal_coalescence", "the summary plot shows the event's marginal map"),):
        for x in s.calls(fn):
            v = kwd(x, arg)
            if v is None:
                vs = [y for y in x.bound.values() if contains(y, lambda z: z is M4)]
                v = vs[0] if len(vs) == 1 else None
            c.eq(nm + "plot-map", strip_copy(v) if v is not None else None, M3, x, rule)
    for x in s.calls("coalescence.write_coalescence"):
        if kwd(x, "marginalised") is TRUE:
            c.eq(nm + "write-marginal", strip_copy(kwd(x, "coalescence_map")), M3, x, "the marginal map written is the event's marginal map")
        elif kwd(x, "marginalised") in (FALSE, None):
            c.one_of(nm + "write-map", strip_copy(kwd(x, "coalescence_map")), [m.args[-1] for m in mp], x, "the map written is the event's map")


def item(v, key):
    """entry of a dict term"""
    if v.op == "dict":
        for k, x in v.a[0]:
            if is_str(k) and k.a[0].v == key:
                return x
    return None


def own_writes(c, fn):
    s = c.scenario("fn:%s.%s:value:%s" % (SCAN, fn, fn), SCAN + "." + fn, construct=False, opaque=OP, fields=FL)
    f = c.prog.func(SCAN + "." + fn)
    p = sym(f.node.args.args[1].arg)
    return [e for e in s.log if e.kind == "mutate" and e.root is p]


def entries(c):
    # geometric-mean style summary error of the two fits
    for k, m in (("covariance", "add_covariance_location"),):
        s = c.scenario("entry:" + k, EVENT + "." + m, construct=False)
        es = [e for e in s.log if e.kind == "mutate" and e.fn == "setitem" and e.args and e.args[0] is const(k)]
        c.some("entry:" + k, es, EVENT + "." + m, "stored under its own name")
        for e in es:
            v = s.snap(e.args[1])
            u = S("xyz_unc")
            c.eq("err:" + k, item(v, "Err_XYZ"), c.expr("(u[0]*u[1]*u[2]) ** (1/3)", u=u), e,
                 "the overall error is the geometric mean of the three errors")


def accessors(c):
    """which estimate is reported as hypocentre and as its uncertainty"""
    for m, k, keys, rule in (
        ("hypocentre", "spline", ("X", "Y", "Z"), "the hypocentre is the spline location, in axis order"),
        ("loc_uncertainty", "gaussian", ("ErrX", "ErrY", "ErrZ"), "the location uncertainty is that of the local Gaussian, in axis order"),
    ):
        where = EVENT + "." + m
        for via in ("attribute",):
            s = c.scenario("acc:" + m, EVENT + ".in_marginal_window", construct=False)
            v = s.attr(m)
            loc = mk("sub", at(sym("self"), "locations"), const(k))
            want = c.expr("np.array([L[a], L[b], L[d]])", L=loc, a=const(keys[0]), b=const(keys[1]), d=const(keys[2]))
            c.eq("accessor:" + m, v, want, where, rule)
