"""C15: output files and exporters agree on columns, units and missing values."""
from .common import *
from qmsa.equiv import behaves
from . import c12, c13, c14

LEVEL_NOTE = (
    "Writers of event, pick, amplitude and waveform files and every exporter are interpreted abstractly over symbolic "
    "tables and compared, as normal forms, with reference definitions (ref/export.py, analysed and never run); the "
    "columns read by the catalogue reader are looked up among the columns written."
)
FLOOR = 40
EX = P + "export."
CUT = P + "io.cut_waveforms."
SETS = tuple("setattr." + n for n in (
    "extra resource_id creation_info coa coa_norm trig_coa dec_coa dec_coa_norm cut_waveforms_file real_cut_waveforms_file wa_cut_waveforms_file method_id longitude latitude "
    "depth time origins preferred_origin_id semi_major_axis_length semi_intermediate_axis_length semi_minor_axis_length confidence_ellipsoid preferred_description uncertainty "
    "origin_uncertainty origin_type evaluation_mode waveform_id phase_hint snr generic_amplitude unit type period time_window magnitude_hint filter_gain avg_amp mag "
    "station_magnitude_type amplitude_id picked epi_dist z_dist magnitude_type station_count r2 magnitudes preferred_magnitude_id").split())


def rules(c):
    c.do(files)
    c.do(catalogue)
    c.do(formats)
    c.do(waveforms)
    # the tables that are written: columns, quantities and sentinels
    for t in (c12.picking, c12.sentinel, c13.measurement, c13.values, c14.single):
        c.do(t)


def files(c):
    behaves(c, "saved_map", P + "io.coalescence.read_coalescence", "export.saved_map", calls=("numpy.load",), rule="the map as it was written")
    behaves(c, "event_file", EVENT + ".write", "export.event_file", opaque={"Event.max_coalescence"}, ret=False, types={"self": EVENT, "run": RUN, "lut": LUT}, mutates=("setitem",), calls=(".to_csv", ".mkdir", ".map"),
            rule="every documented column with its value, to the resolution of the grid; magnitudes whenever one was asked for")
    behaves(c, "peak", EVENT + ".max_coalescence", "export.peak", rule="time and values of the largest coalescence")
    behaves(c, "triggered", EVENT + "._parse_triggered_event", "export.triggered", rule="trigger and detect values under their own names, also from old files")
    behaves(c, "magnitude", EVENT + ".local_magnitude", "export.magnitude", rule="what was stored, or nothing")
    behaves(c, "hypocentre", EVENT + ".get_hypocentre", "export.hypocentre", rule="the three coordinates of the method asked for")
    behaves(c, "uncertainty", EVENT + ".get_loc_uncertainty", "export.uncertainty", rule="the three errors of the method asked for")
    behaves(c, "pick_file", P + "signal.pickers.base.PhasePicker.write", "export.pick_file", ret=False, types={"run": RUN}, mutates=("setitem",), calls=(".to_csv", ".mkdir", ".map"), rule="all picks, rounded on a copy")
    behaves(c, "amplitude_file", P + "io.amplitudes.write_amplitudes", "export.amplitude_file", ret=False, types={"run": RUN, "event": EVENT}, mutates=("setitem",), calls=(".to_csv", ".mkdir", ".map"), rule="all amplitudes, rounded on a copy")


def catalogue(c):
    behaves(c, "catalogue", EX + "to_obspy.read_quakemigrate", "export.catalogue", opaque={"_read_single_event"}, mutates=("append",), calls=("_read_single_event",),
            rule="every event file of the run, an empty catalogue for a run without events")
    behaves(c, "single", EX + "to_obspy._read_single_event", "export.single", raises=("AttributeError",), mutates=SETS + ("append",), rule="each value in the field of its meaning, in the target unit; missing values are left out")


def formats(c):
    behaves(c, "nonlinloc", EX + "to_nlloc.nlloc_obs", "export.nonlinloc", ret=False, raises=("ValueError",), mutates=("append",), calls=(".write", "open"), rule="picks of the kind asked for, one line each")
    behaves(c, "mfast", EX + "to_mfast.sac_mfast", "export.mfast", ret=False, raises=("AttributeError",), mutates=("update",), calls=(".write", "obspy.read", ".mkdir"), rule="three components per picked station with times relative to the trace")
    behaves(c, "snuffler_table", EX + "to_snuffler.snuffler_stations", "export.snuffler_table", ret=False, calls=(".write", "open"), rule="one line per station with its network")
    behaves(c, "snuffler_marks", EX + "to_snuffler.snuffler_markers", "export.snuffler_marks", ret=False, calls=(".write", "open", ".mkdir"), rule="event and picks with microseconds")


def waveforms(c):
    behaves(c, "cut", CUT + "write_cut_waveforms", "export.cut", opaque={"get_waveforms", "write_waveforms"}, types={"run": RUN, "event": EVENT}, ret=False, raises=("AttributeError",),
            mutates=("trim", "remove"), calls=("get_waveforms", "write_waveforms", ".mkdir"), rule="waveforms of the type, units and window asked for, in their folder")
    behaves(c, "corrected", CUT + "get_waveforms", "export.corrected", mutates=("append",), calls=(".get_real_waveform", ".get_wa_waveform"), rule="every usable trace corrected as asked; traces without response left out")
    behaves(c, "wave_file", CUT + "write_waveforms", "export.wave_file", ret=False, calls=(".write",), rule="the format asked for with its suffix")
