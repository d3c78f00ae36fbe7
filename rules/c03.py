"""C03: stored coalescence reads back with the same values, times and files."""
from .common import *
from qmsa.equiv import behaves

LEVEL_NOTE = (
    "ScanmSEED.append/empty/write and read_scanmseed are interpreted abstractly over symbolic series; the traces "
    "they build, the calls that store, merge, trim and read them with their conditions, the fields left behind and "
    "the table returned are compared, as normal forms, with a reference writer and reader (ref/scanmseed.py, "
    "analysed and never run) that use one table of channel factors and one file-naming rule. The arguments detect "
    "and trigger pass (unit factor, step times, padding) are followed from the public entry points."
)
FLOOR = 20


def rules(c):
    c.do(writer)
    c.do(reader)
    c.do(flow)


def writer(c):
    behaves(c, "append", SCANMSEED + ".append", "scanmseed.append", calls=("ScanmSEED.write", "obspy.Trace"),
            mutates=("merge", "trim"), fields=("stream", "written"), ret=False, opaque={"ScanmSEED.write"},
            rule="each channel is scaled by its factor, clipped to the integer range, rounded and stored from the step's first sample; days are split at midnight")
    behaves(c, "empty", SCANMSEED + ".empty", "scanmseed.empty", calls=("ScanmSEED.append",), opaque={"ScanmSEED.append"},
            rule="a blank step is a full step of zeros at the step's time")
    behaves(c, "write", SCANMSEED + ".write", "scanmseed.write", calls=(".write", ".mkdir"), fields=("written",), ret=False,
            rule="one file per day, named by year and day of year of the first sample")
    behaves(c, "init", SCANMSEED + ".__init__", "scanmseed.init", fields=("run", "continuous_write", "sampling_rate", "written", "stream"),
            ret=False, rule="the store starts empty and keeps the scan's sampling rate")


def reader(c):
    behaves(c, "read", P + "io.scanmseed.read_scanmseed", "scanmseed.read_scanmseed", calls=("obspy.read",), raises=("NoScanMseedDataException",), mutates=("merge",),
            rule="every day file overlapping the padded period is read with the padded limits; each channel is divided by the factor it was written with")
    c.matches("ucf", P + "lut.lut.Grid3D.unit_conversion_factor", "scanmseed.unit_conversion_factor", None,
              "metres per grid unit", types={})


def flow(c):
    s = detect(c)
    st = c.expr("UTCDateTime(starttime)")
    ucf = at(S("lut"), "unit_conversion_factor")
    for fn in ("ScanmSEED.append", "ScanmSEED.empty"):
        for e in c.some(fn + "-exists", s.calls(fn), SCAN + ".detect", "detect stores every step"):
            c.eq(fn + "-ucf", kwd(e, "ucf"), ucf, e, "depths are stored with the factor of the grid's unit")
    fmc = c.some("max-exists", s.calls("core.lib.find_max_coa"), SCAN + ".detect", "the stored series come from the migrated map")
    for e in s.calls("ScanmSEED.append"):
        for m in fmc:
            c.eq("append-coa", kwd(e, "max_coa"), mk("sub", m.result, num(0)), e, "COA is the maximum coalescence")
            c.eq("append-coan", kwd(e, "max_coa_n"), mk("sub", m.result, num(1)), e, "COA_N is the normalised maximum coalescence")
    for e in s.calls("ScanmSEED.append"):
        if e.recv is None:
            continue
        for a, w, r in (("sampling_rate", S("RATE"), "samples are stored at the scan rate"),
                        ("continuous_write", S("cont_write"), "continuous writing as configured"),
                        ("run", s.attr("run"), "stored below the run")):
            c.eq("store-" + a, s.attr(a, e.recv), w, e, r)
    t = trigger(c)
    for e in c.some("read-exists", t.calls("io.scanmseed.read_scanmseed"), TRIGGER + ".trigger", "trigger reads the stored series"):
        c.eq("read-run", kwd(e, "run"), S("run"), e, "trigger reads the run it belongs to")
        c.eq("read-ucf", kwd(e, "ucf"), ucf, e, "depths are read with the factor of the grid's unit")
        c.eq("read-pad", kwd(e, "pad"), S("PAD"), e, "the configured padding is read on both sides")
