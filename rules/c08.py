"""C08: trigger reports exactly the threshold exceedances as merged candidate events."""
from .common import *
from qmsa.equiv import behaves

LEVEL_NOTE = (
    "Every step of the trigger stage (day batches, smoothing, threshold, candidates, merging, selection) is interpreted "
    "abstractly for symbolic tables and settings; the values returned, the tables updated, the calls between the steps "
    "and their conditions are compared as normal forms with a reference formulation (ref/trigger.py, analysed and never "
    "run): same grouping expression, comparison operators, columns, window arithmetic and identifiers."
)
FLOOR = 45
STEPS = {"Trigger._get_threshold", "Trigger._identify_candidates", "Trigger._refine_candidates", "Trigger._filter_events",
         "Trigger._smooth_coa", "write_triggered_events", "trigger_summary", "read_scanmseed", "Trigger._trigger_batch",
         "Trigger._threshold_method_string"}


def rules(c):
    T = TRIGGER + "."
    behaves(c, "trigger", T + "trigger", "trigger.trigger", calls=("Trigger._trigger_batch",), raises=("TimeSpanException",),
            opaque=STEPS, ret=False, rule="the period is processed day by day")
    behaves(c, "batch", T + "_trigger_batch", "trigger.batch",
            calls=tuple(x for x in sorted(STEPS) if x != "Trigger._trigger_batch"), opaque=STEPS, ret=False, rule="threshold, candidates, merging, selection and writing in sequence")
    behaves(c, "smooth", T + "_smooth_coa", "trigger.smooth", mutates=("setitem",), rule="both series are smoothed with the configured kernel")
    behaves(c, "chunks", P + "signal.trigger.chunks2trace", "trigger.chunks2trace", rule="chunk values are spread over their samples")
    behaves(c, "threshold", T + "_get_threshold", "trigger.threshold", rule="static, MAD or median-ratio threshold", opaque={"util.calculate_mad"})
    behaves(c, "mad", P + "util.calculate_mad", "trigger.mad", rule="scaled median absolute deviation")
    behaves(c, "identify", T + "_identify_candidates", "trigger.identify", rule="contiguous samples at or above the threshold form one candidate")
    behaves(c, "refine", T + "_refine_candidates", "trigger.refine", rule="candidates closer than the minimum interval are merged")
    behaves(c, "filter", T + "_filter_events", "trigger.select", rule="events in the period and region (bounds inclusive)")
