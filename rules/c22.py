"""C22: figures draw what was computed."""
from qmsa.equiv import behaves
from .common import *  # noqa
from .c19 import STAGE, LOCATE, LM

LEVEL_NOTE = ("Every figure is interpreted abstractly from its inputs to each drawing call: what is drawn against what, on which axes, under which conditions, with which limits, labels and "
              "texts is compared with reference definitions (ref/plots.py, analysed and never run). Colours of lines, widths, sizes and placement of decorations are left free.")
FLOOR = 60

STYLE = ("lw", "linewidth", "ls", "linestyle", "alpha", "zorder", "fontsize", "fontweight", "ha", "va", "marker", "s", "bbox", "transform", "edgecolor", "fill", "fmt", "framealpha", "clip_on",
         "c", "color", "loc", "pad", "sep", "frameon", "edgecolors", "orientation", "fraction", "aspect", "rotation", "pos", "dpi", "figsize", "where_")
DRAWN = (".plot", ".scatter", ".step", ".axvline", ".axhline", ".axvspan", ".text", ".set_xlim", ".set_ylim", ".set_title", ".set_xlabel", ".set_ylabel", ".annotate", ".errorbar", ".pcolormesh")
GP = P + "signal.pickers.gaussian.GaussianPicker"
MAG = P + "signal.local_mag.magnitude.Magnitude"
PLOT = P + "plot."
U = P + "util."


def draws(c, key, code, ref, calls=DRAWN, drop=STYLE, panels=(), **kw):
    return behaves(c, key, code, ref, calls=tuple(dict.fromkeys(calls + panels)), drop=drop, style=drop, **kw)


def grid(c):
    draws(c, "grid", panels=(".sharex", ".sharey", ".invert_yaxis", ".set_xlabel", ".set_ylabel"), code=LUT + ".plot", ref="plots.grid_figure", opaque={"Grid3D.get_grid_extent"}, ret=False, types={"self": LUT},
          calls=(".scatter", ".axvline", ".axhline", ".set_xlim", ".set_ylim", ".annotate", ".pcolormesh", "matplotlib.pyplot.subplot2grid"),
          rule="map and sections over the extent of the grid, with the slices, the hypocentre and the stations")


def trigger_plots(c):
    t = {"run": RUN, "lut": LUT}
    draws(c, "trigger", panels=(".sharex", "matplotlib.pyplot.subplot2grid", ".set_xlabel", ".set_ylabel", ".set_yticks"), code=PLOT + "trigger.trigger_summary", ref="plots.trigger_figure", opaque={"read_availability", "LUT.plot"}, ret=False, types=t,
          calls=(".plot", ".scatter", ".step", ".axvline", ".axvspan", ".text", ".set_xlim", ".set_ylim", "LUT.plot", "matplotlib.pyplot.savefig"),
          rule="both coalescence series, the threshold on the one used, the availability, the events with their windows and the region")


def event_plots(c):
    t = {"run": RUN, "lut": LUT, "event": EVENT}
    draws(c, "event", panels=(".add_subplot", "matplotlib.pyplot.subplot2grid", ".set_xlabel", ".set_ylabel", ".set_ticks", ".set_ticklabels"), code=PLOT + "event.event_summary", ref="plots.event_figure", opaque={"LUT.plot", "LUT.traveltime_to", "LUT.coord2grid", "Grid3D.coord2grid", "get_phase_component_strings"}, ret=False, types=t,
          calls=(".plot", ".scatter", ".axvline", ".text", ".set_xlim", "LUT.plot", ".add_patch"),
          rule="the waveforms and the modelled arrivals by station, the coalescence, the slices through its maximum, the uncertainty and the summary of the event")


def pick_plots(c):
    t = {"run": RUN, "event": EVENT}
    draws(c, "picks", panels=(".sharex", ".add_subplot", ".set_xlabel"), code=PLOT + "phase_picks.pick_summary", ref="plots.pick_figure", opaque={"get_phase_component_strings", "gaussian_1d"}, ret=False, types=t,
          calls=(".plot", ".axvline", ".axhline", ".axvspan", ".text", ".set_xlim", ".set_ylim", ".set_title"),
          rule="waveforms and onset functions with the window, threshold, fit, modelled arrival and pick of each phase")
    draws(c, "pick-plot", GP + ".plot", "plots.pick_plot", opaque={"pick_summary"}, calls=("pick_summary", "matplotlib.pyplot.savefig"), ret=False, types=t,
          rule="the picks, onsets, waveforms and windows of the station")


def amplitude_plots(c):
    t = {"run": RUN, "event": EVENT}
    draws(c, "amplitudes", panels=(".set_xscale", ".set_yscale", ".add_subplot"), code=PLOT + "amplitudes.amplitudes_summary", ref="plots.amplitude_figure", ret=False, types=t, opaque={"label_stations"},
          ret_values={PLOT + "amplitudes.label_stations": lambda I, b, r: mk("tuple", (b["ax"], mk("sub", r, num(1))))},
          calls=(".scatter", ".axhline", ".errorbar", ".text", "label_stations"), rule="noise and signal amplitudes, scaled and corrected as for the magnitude, against distance")
    draws(c, "labels", PLOT + "amplitudes.label_stations", "plots.amplitude_labels", calls=(".annotate",), rule="one label for each station, with its components, at its largest amplitude")
    draws(c, "predicted", panels=(".set_ylabel",), code=MAG + ".plot_amplitudes", ref="plots.amplitude_plot", drop=STYLE + ("ymin", "ymax"), opaque={"amplitudes_summary", "Magnitude._get_attenuation", "Event.get_loc_uncertainty"},
          calls=("amplitudes_summary", ".plot", ".axvline", ".set_xlim", ".set_ylim", ".set_title", ".set_xlabel"), ret=False, types=t,
          rule="the amplitude the magnitude predicts, with its bounds, against distance")


def callers(c):
    """each figure is given the results of its own event, batch or station"""
    behaves(c, "batch", TRIGGER + "._trigger_batch", "trigger.batch", calls=("trigger_summary",), opaque=STAGE, ret=False, rule="the series, events and threshold of the batch")
    types = {at(S("self"), "picker"): GP, at(S("self"), "mags"): LM + "local_mag.LocalMag", at(S("self"), "run"): RUN, at(S("self"), "lut"): LUT, at(S("self"), "onset"): STALTA, at(S("self"), "archive"): ARCHIVE}
    behaves(c, "locate", SCAN + "._locate_events", "output.locate", opaque=LOCATE, types=types, ret=False, ret_types={P + "io.event.Event.__init__": EVENT},
            ret_values={GP + ".pick_phases": lambda I, b, r: mk("tuple", (b["event"], mk("sub", r, num(1)))), LM + "local_mag.LocalMag.calc_magnitude": lambda I, b, r: mk("tuple", (b["event"], mk("sub", r, num(1))))},
            calls=("event_summary",), rule="the event, its map and the grid")
    behaves(c, "magnitude", LM + "local_mag.LocalMag.calc_magnitude", "output.magnitude",
            opaque={"Amplitude.get_amplitudes", "Magnitude.calculate_magnitudes", "Magnitude.mean_magnitude", "Magnitude.plot_amplitudes", "Event.add_local_magnitude", "write_amplitudes"},
            types={"event": EVENT, "lut": LUT, "run": RUN, at(S("self"), "amp"): LM + "amplitude.Amplitude", at(S("self"), "mag"): LM + "magnitude.Magnitude"},
            calls=("Magnitude.plot_amplitudes",), ret=False, rule="the amplitudes of the event")
    behaves(c, "pick-phases", GP + ".pick_phases", "picker.pick", opaque={
        "STALTAOnset.calculate_onsets", "LUT.index2coord", "Grid3D.index2coord", "LUT.traveltime_to", "GaussianPicker._determine_window", "GaussianPicker._distinguish_windows",
        "GaussianPicker._find_pick_threshold", "GaussianPicker._fit_gaussian", "Event.add_picks", "PhasePicker.write", "GaussianPicker.plot", "STALTAOnset.gaussian_halfwidth"},
        types={"event": EVENT, "lut": LUT, "run": RUN, at(S("self"), "onset"): STALTA}, calls=("GaussianPicker.plot",), ret=False, rule="the picks, onsets and travel times of the station")


def helpers(c):
    behaves(c, "components", U + "get_phase_component_strings", "plots.component_strings", rule="components of each phase, at most two panels for S")
    behaves(c, "gaussian", U + "gaussian_1d", "plots.gaussian", rule="the fitted curve")
    behaves(c, "clock", U + "DateFormatter.__call__", "plots.clock", raises=("ValueError",), types={"self": U + "DateFormatter"}, rule="times with fractions of a second")


def rules(c):
    for f in (grid, trigger_plots, event_plots, pick_plots, amplitude_plots, callers, helpers):
        f(c)
