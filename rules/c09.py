"""C09: trigger files and locate agree: locate reads back what trigger wrote."""
from .common import *
from qmsa.equiv import behaves

LEVEL_NOTE = (
    "The writer and the reader of the triggered-event files are interpreted abstractly and their file names, "
    "columns, conditions, filters and returned table compared, as normal forms, with one reference writer/reader "
    "pair that shares its naming function (ref/trigger.py, analysed and never run); the columns each stage produces "
    "and consumes (trigger's tables, the file, the Event built from a row) are collected from the analysed code and "
    "compared as sets; locate's hand-over of period or file to the reader is followed from the public entry point."
)
FLOOR = 12


def rules(c):
    c.do(files)
    c.do(use)
    c.do(columns)


def files(c):
    TE = P + "io.triggered_events."
    behaves(c, "write", TE + "write_triggered_events", "trigger.write", calls=(".to_csv", ".mkdir"), ret=False,
            rule="one file per day, named by run, year and day of year, with the documented columns")
    behaves(c, "read", TE + "read_triggered_events", "trigger.read", calls=("pandas.read_csv",), raises=("NoTriggerFilesFound",),
            rule="the files of the days in the period (or the file given) are read, events kept by origin time, times parsed")


    for fn in ("write_triggered_events", "read_triggered_events"):
        s = c.scenario("sh-" + fn, TE + fn, construct=False)
        no_shared_writes(c, "state:" + fn, s, TE + fn, "the columns of one file do not depend on the files written before")


def use(c):
    behaves(c, "event", EVENT + ".__init__", "trigger.event_init", fields=("uid", "trigger_time", "trigger_info", "marginal_window"), ret=False,
            opaque={"Event._parse_triggered_event"}, rule="the event's identifier, time and trigger values are those of its row")
    s = c.scenario("parse", EVENT + "._parse_triggered_event", construct=False)
    want = c.expr("{'TRIG_COA': r['TRIG_COA'], 'DEC_COA': r['COA'], 'DEC_COA_NORM': r['COA_NORM']}", r=S("event_data"))
    got = noexc(s.snap(s.ret))
    if got.op == "ite":
        pass
    c.eq("parse", got, want, EVENT + "._parse_triggered_event", "trigger values are taken from the columns of the same meaning")
    # locate hands period or file to the reader
    for ff in (False, True):
        s = locate(c, from_file=ff)
        rs = c.some("locate-reads", s.calls("read_triggered_events"), SCAN + ".locate", "locate reads the triggered events")
        for e in rs:
            f, a, b = kwd(e, "trigger_file"), kwd(e, "starttime"), kwd(e, "endtime")
            tag = "file" if ff else "period"
            if ff:
                c.eq("locate-file", f, S("FILE"), e, "the given file is read")
            else:
                c.eq("locate-start", a, c.expr("UTCDateTime(START)"), e, "events from the start of the period")
                c.eq("locate-end", b, c.expr("UTCDateTime(END)"), e, "events up to the end of the period")
            c.eq("locate-run-" + tag, kwd(e, "run") if kwd(e, "run") is not None else e.args[0], s.attr("run"), e, "the run locate belongs to")


def strs(t):
    return {y.a[0] for y in subterms(t) if y.op == "const" and isinstance(y.a[0], str)}


def columns(c):
    """columns flow: refined events -> file -> event"""
    s = c.scenario("w", P + "io.triggered_events.write_triggered_events", construct=False)
    w = s.calls(".to_csv")
    c.some("to-csv", w, P + "io.triggered_events.write_triggered_events", "the table is written")
    cols = None
    for e in w:
        r = recv(s, e)
        cols = strs(r) if r is not None else None
    if not cols:
        return
    ev = c.scenario("ei", EVENT + ".__init__", construct=False)
    rd = c.scenario("tr", P + "io.triggered_events.read_triggered_events", construct=False)
    used = set()
    row = S("triggered_event")
    for o in list(ev.log):
        for t in list(o.args) + [o.result, o.pc] + list(o.kw.values()):
            if t is None:
                continue
            for y in subterms(t):
                if y.op == "sub" and y.a[0] is row and y.a[1].op == "const":
                    used.add(y.a[1].a[0])
    for a in ("uid", "trigger_time", "trigger_info"):
        for y in subterms(noexc(ev.attr(a))):
            if y.op == "sub" and y.a[0] is row and y.a[1].op == "const":
                used.add(y.a[1].a[0])
    c.req("columns-used", used <= cols if used else None, EVENT + ".__init__", "every column an event is built from is written by trigger",
          "used %s; written %s" % (sorted(used), sorted(cols)))
    t = c.scenario("ref", TRIGGER + "._refine_candidates", construct=False)
    have = strs(noexc(t.snap(t.ret)))
    c.req("columns-made", cols <= have, TRIGGER + "._refine_candidates", "every column written is produced by trigger",
          "missing %s" % sorted(cols - have))


def recv(s, e):
    from qmsa.equiv import recv_term
    return recv_term(s, e)
