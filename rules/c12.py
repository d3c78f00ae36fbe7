"""C12: phase picks are sought in the modelled arrival window and reported consistently."""
from .common import *
from qmsa.equiv import behaves

LEVEL_NOTE = (
    "Picking (modelled arrivals, search windows and their separation, noise threshold, peak selection, Gaussian fit, "
    "missing picks, the table and the file) is interpreted abstractly over symbolic events, travel times and onset "
    "functions and compared, as normal forms, with reference definitions (ref/picker.py, analysed and never run). "
    "Which event, table and onset picking is given is followed from locate."
)
FLOOR = 40
GP = P + "signal.pickers.gaussian.GaussianPicker"
PP = P + "signal.pickers.base.PhasePicker"


def rules(c):
    c.do(picking)
    c.do(windows)
    c.do(fitting)
    c.do(output)
    c.do(config)
    c.do(flow)


def picking(c):
    op = {"STALTAOnset.calculate_onsets", "LUT.index2coord", "Grid3D.index2coord", "LUT.traveltime_to", "GaussianPicker._determine_window",
          "GaussianPicker._distinguish_windows", "GaussianPicker._find_pick_threshold", "GaussianPicker._fit_gaussian", "Event.add_picks",
          "PhasePicker.write", "GaussianPicker.plot", "STALTAOnset.gaussian_halfwidth"}
    behaves(c, "pick", GP + ".pick_phases", "picker.pick", opaque=op, types={"event": EVENT, "lut": LUT, "run": RUN, at(S("self"), "onset"): STALTA},
            calls=("STALTAOnset.calculate_onsets", "GaussianPicker._determine_window", "GaussianPicker._distinguish_windows", "GaussianPicker._find_pick_threshold",
                   "GaussianPicker._fit_gaussian", "Event.add_picks", "PhasePicker.write", "GaussianPicker.plot", "LUT.traveltime_to"),
            rule="every available station-phase is picked with its own onset function, travel time and window; model times and residuals are relative to the event")
    behaves(c, "traveltime", LUT + ".traveltime_to", "picker.traveltime_to", opaque={"LUT._serve_traveltimes"}, rule="travel time of that phase to that station, interpolated at the event")


def windows(c):
    behaves(c, "window", GP + "._determine_window", "picker.window", opaque={"time2sample"}, rule="arrival plus and minus marginal window and fraction of the travel time")
    behaves(c, "separate", GP + "._distinguish_windows", "picker.separate", params=("windows",), ret=False, rule="windows of one station do not overlap and stay inside the onset function")


def fitting(c):
    behaves(c, "threshold", GP + "._find_pick_threshold", "picker.threshold", opaque={"calculate_mad"}, rule="noise outside all windows of the station by the configured method")
    behaves(c, "mad", P + "util.calculate_mad", "picker.mad", rule="scaled median absolute deviation")
    behaves(c, "gaussian", P + "util.gaussian_1d", "picker.gaussian", rule="Gaussian of height, mean and sigma")
    behaves(c, "fit", GP + "._fit_gaussian", "picker.fit", opaque={"GaussianPicker._find_peak", "GaussianPicker._pick_failure", "gaussian_1d"}, calls=("scipy.optimize.curve_fit", "GaussianPicker._find_peak"),
            rule="the peak of the windowed onset is fitted; time is absolute; anything else is a missing pick")
    c.do(sentinel)
    behaves(c, "peak", GP + "._find_peak", "picker.peak", raises=("NoOnsetPeak",), rule="the exceedance run that holds the maximum")


def sentinel(c):
    behaves(c, "failure", GP + "._pick_failure", "picker.failure", rule="missing picks carry the sentinel in time, error and SNR")


def output(c):
    behaves(c, "write", PP + ".write", "picker.write", calls=(".to_csv", ".mkdir"), ret=False, types={"run": RUN}, rule="one picks file per event, from a copy of the table")
    behaves(c, "add_picks", EVENT + ".add_picks", "picker.add_picks", fields=("picks",), ret=False, rule="the event keeps the table and what belongs to it")


def config(c):
    behaves(c, "init", GP + ".__init__", "picker.init", ret=False, raises=("InvalidPickThresholdMethodException", "AttributeError"),
            fields=("onset", "threshold_method", "percentile_pick_threshold", "mad_pick_threshold", "plot_picks", "write_seed_ids", "_fraction_tt"),
            rule="settings are kept as given, with the documented defaults")


def flow(c):
    s = locate(c)
    pk = c.some("picked", s.calls("GaussianPicker.pick_phases"), SCAN + ".locate", "located events are picked")
    for e in pk:
        c.eq("lut", kwd(e, "lut"), S("lut"), e, "picks use the table the event was located with")
        c.eq("run", kwd(e, "run"), s.attr("run"), e, "picks are written below the run")
