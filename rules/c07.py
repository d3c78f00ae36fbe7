"""C07: onset functions are aligned, bounded below and padded consistently."""
from .common import *
from qmsa.equiv import behaves

LEVEL_NOTE = (
    "The onset functions (pre-processing, window lengths, availability, filling, signal transform, STA/LTA windows in "
    "both positions, combination of channels, lower bound) and the padding rules are interpreted abstractly over "
    "symbolic waveforms and configurations and compared, as normal forms, with reference definitions (ref/onset.py, "
    "analysed and never run). That scan and locate ask for data with exactly these pads, and pass the travel-time "
    "maximum, is followed from the public entry points."
)
FLOOR = 50
U = P + "util."


def rules(c):
    c.do(kernels)
    c.do(onset)
    c.do(padding)
    c.do(config)
    c.do(flow)


def kernels(c):
    m = P + "signal.onsets.stalta."
    behaves(c, "overlapping", m + "overlapping_sta_lta_py", "onset.overlapping", rule="short window is the end of the long window; incomplete windows give 1")
    behaves(c, "centred", m + "centred_sta_lta_py", "onset.centred", rule="short window follows the long window; incomplete windows give 1")


def processing(c):
    m = P + "signal.onsets.stalta."
    behaves(c, "pre_process", m + "pre_process", "onset.preprocess", opaque={"util.resample"}, calls=("util.resample",), raises=("NyquistException",),
            mutates=("detrend", "taper", "filter"),
            rule="data are resampled to the onset rate, refused above Nyquist, detrended, tapered and band-passed with zero phase in a copy")
    op = {"STALTAOnset._onset", "stalta.pre_process", "WaveformData.check_availability", "time2sample"}
    behaves(c, "calculate", STALTA + ".calculate_onsets", "onset.calculate", calls=("stalta.pre_process", "WaveformData.check_availability", "STALTAOnset._onset", "util.time2sample"),
            mutates=("remove", "taper", "merge", "trim"), raises=("DataAvailabilityException",), opaque=op,
            types={"data": P + "io.data.WaveformData"},
            rule="per phase and station: selected channels, usable traces only, gaps filled over the whole window, one onset function each")


def onset(c):
    c.do(processing)
    behaves(c, "OnsetData", P + "signal.onsets.base.OnsetData.__init__", "onset.onset_data", ret=False,
            fields=("onsets", "phases", "channel_maps", "filtered_waveforms", "availability", "starttime", "endtime", "sampling_rate"),
            rule="onset data carry what they were made from")
    behaves(c, "onset", STALTA + "._onset", "onset.onset", opaque={"STALTAOnset._trim_taper_pad", "centred_sta_lta_py", "overlapping_sta_lta_py", "core.lib.centred_sta_lta", "core.lib.overlapping_sta_lta"},
            calls=("STALTAOnset._trim_taper_pad",),
            rule="the transformed channels' ratios are combined by root mean square and bounded below")
    behaves(c, "edges", STALTA + "._trim_taper_pad", "onset.blank_edges", opaque={"Onset.pad"}, calls=("Onset.pad",),
            rule="samples distorted by taper and incomplete windows are set to 1")


def padding(c):
    for fn in ("time2sample", "trim2sample"):
        behaves(c, fn, U + fn, "onset." + fn, rule="conversion between time and samples")
    behaves(c, "pad", ONSET + ".pad", "onset.pad", opaque={"trim2sample"}, calls=("util.trim2sample",), rule="window pads plus 6 % of the padded window for tapering, in whole samples")
    behaves(c, "pre_pad", STALTA + ".pre_pad", "onset.pre_pad", rule="longest long window plus three short windows before")
    behaves(c, "post_pad", STALTA + ".post_pad.setter", "onset.set_post_pad", fields=("_post_pad",), ret=False, rule="largest travel time plus two long windows after")
    behaves(c, "max_traveltime", LUT + ".max_traveltime", "onset.max_traveltime", opaque={"LUT._serve_traveltimes"}, rule="largest travel time of any phase to any station")
    behaves(c, "halfwidth", STALTA + ".gaussian_halfwidth", "onset.halfwidth", rule="half the short window in samples")


FIELDS = ("sampling_rate", "position", "use_python_backend", "signal_transform", "min_onset_value", "phases", "bandpass_filters",
          "sta_lta_windows", "channel_maps", "channel_counts", "all_channels", "allow_gaps", "full_timespan")


def config(c):
    behaves(c, "base", ONSET + ".__init__", "onset.base_init", ret=False, fields=("sampling_rate", "_pre_pad", "_post_pad"), raises=("ValueError",), rule="a sampling rate is required")
    behaves(c, "init", STALTA + ".__init__", "onset.init", ret=False, fields=FIELDS, raises=("ValueError",), rule="settings are kept as given, with the documented defaults; the lower bound must be positive")
    for prop, ref, fl in (("onset_centred", "centred", "position"), ("p_bp_filter", "p_filter", "bandpass_filters"), ("s_bp_filter", "s_filter", "bandpass_filters"),
                          ("p_onset_win", "p_window", "sta_lta_windows"), ("s_onset_win", "s_window", "sta_lta_windows")):
        behaves(c, prop, STALTA + "." + prop + ".setter", "onset.set_" + ref, ret=False, fields=(fl,), rule="the former name sets the same setting")
    for cls, pos in (("CentredSTALTAOnset", "centred"), ("ClassicSTALTAOnset", "classic")):
        q = P + "signal.onsets.stalta." + cls
        s = c.scenario("old:" + cls, q + ".__init__", construct=False)
        c.eq("old:" + cls, s.attr("position"), const(pos), q + ".__init__", "the former class is the onset with this position")


def flow(c):
    need = c.expr("np.ceil(lut.max_traveltime + 2 * max([w[1] for w in onset.sta_lta_windows.values()]))")
    for nm, s in (("detect", detect(c)), ("locate", locate(c))):
        where = SCAN + "." + nm
        if nm == "locate":  # detect uses the same constructor
            c.eq(nm + "-post_pad", s.attr("_post_pad", S("onset")), need, where, "the onset knows the largest travel time of the table")
        ps = c.some(nm + "-pads", s.calls("Onset.pad"), where, "data are requested with the onset's pads")
        co = c.some(nm + "-onsets", s.calls("STALTAOnset.calculate_onsets"), where, "onsets are computed")
        rd = c.some(nm + "-reads", s.calls("Archive.read_waveform_data"), where, "data are read")
        for e in co:
            c.one_of(nm + "-data", kwd(e, "data"), [r.result for r in rd], e, "onsets are computed from the data just read")
            c.eq(nm + "-timespan", kwd(e, "timespan"), NONE, e, "no sample is blanked outside the padding")
