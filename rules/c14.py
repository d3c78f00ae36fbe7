"""C14: local magnitudes follow the documented formula over the selected amplitudes."""
from .common import *
from qmsa.equiv import behaves

LEVEL_NOTE = (
    "Individual magnitudes, attenuation curves, filters, network mean and its error and fit quality are interpreted "
    "abstractly over a symbolic amplitude table and compared, as normal forms, with reference definitions "
    "(ref/magnitude.py, analysed and never run); how the result reaches the event and its file is followed from locate."
)
FLOOR = 30
MG = P + "signal.local_mag.magnitude.Magnitude"
LMG = P + "signal.local_mag.local_mag.LocalMag"
AMP = P + "signal.local_mag.amplitude.Amplitude"


def rules(c):
    c.do(single)
    c.do(mean)
    c.do(config)
    c.do(flow)


def single(c):
    behaves(c, "individual", MG + ".calculate_magnitudes", "magnitude.individual", opaque={"Magnitude._calc_mags"}, params=("amplitudes",),
            calls=("Magnitude._calc_mags",), rule="amplitudes and noise are scaled, noise corrected for gain, useless values dropped; the input is left alone")
    behaves(c, "formula", MG + "._calc_mags", "magnitude.formula", opaque={"Magnitude._get_attenuation"}, rule="log10 amplitude + attenuation + station correction; error from noise")
    behaves(c, "attenuation", MG + "._get_attenuation", "magnitude.attenuation", opaque={"Magnitude._logA0"}, rule="the function given, or the named curve")
    behaves(c, "curves", MG + "._logA0", "magnitude.curves", raises=("ValueError",), rule="the published curves; anything else is refused")


def mean(c):
    behaves(c, "network", MG + ".mean_magnitude", "magnitude.network", opaque={"Magnitude._filter_mags", "Magnitude._mag_r_squared"}, params=("magnitudes",),
            calls=("Magnitude._filter_mags", "Magnitude._mag_r_squared"), rule="(weighted) mean and standard deviation of exactly the used magnitudes")
    behaves(c, "filters", MG + "._filter_mags", "magnitude.filters", rule="every configured filter, and nothing else, decides what is used")
    behaves(c, "quality", MG + "._mag_r_squared", "magnitude.fit_quality", opaque={"Magnitude._get_attenuation"}, raises=("AttributeError",), rule="explained share of log amplitude variance")


def config(c):
    behaves(c, "init", MG + ".__init__", "magnitude.init", ret=False, raises=("TypeError",),
            fields=("A0", "use_hyp_dist", "amp_feature", "station_corrections", "amp_multiplier", "weighted_mean", "trace_filter", "noise_filter", "station_filter",
                    "dist_filter", "pick_filter", "r2_only_used"), rule="settings are kept as given, with the documented defaults")
    behaves(c, "local", LMG + ".__init__", "magnitude.local_init", ret=False, fields=("amp", "mag", "plot"), opaque={"Amplitude.__init__", "Magnitude.__init__"}, calls=("Amplitude.__init__", "Magnitude.__init__"), rule="each parameter set reaches its part")


def flow(c):
    behaves(c, "calc", LMG + ".calc_magnitude", "magnitude.calc",
            opaque={"Amplitude.get_amplitudes", "Magnitude.calculate_magnitudes", "Magnitude.mean_magnitude", "Magnitude.plot_amplitudes", "Event.add_local_magnitude", "write_amplitudes"},
            types={"event": EVENT, "lut": LUT, "run": RUN, at(S("self"), "amp"): AMP, at(S("self"), "mag"): MG},
            calls=("Amplitude.get_amplitudes", "Magnitude.calculate_magnitudes", "Magnitude.mean_magnitude", "Magnitude.plot_amplitudes", "Event.add_local_magnitude", "write_amplitudes"),
            rule="measured, computed, written and averaged once; an event without amplitudes carries the missing value")
    behaves(c, "add", EVENT + ".add_local_magnitude", "magnitude.add", ret=False, fields=("localmag",), before=lambda I: setattrs(I, S("self"), localmag=mk("dict", ())), rule="the event keeps magnitude, error and fit quality")
    s = locate(c)
    mg = c.some("calculated", s.calls("LocalMag.calc_magnitude"), SCAN + ".locate", "located events get a magnitude")
    for e in mg:
        c.eq("lut", kwd(e, "lut"), S("lut"), e, "the table the event was located with")
        c.eq("run", kwd(e, "run"), s.attr("run"), e, "amplitudes are written below the run")
