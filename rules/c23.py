"""C23: a run says what it does, with the settings in force."""
from qmsa.equiv import behaves
from .common import *  # noqa
from .c19 import LM, LOCATE

LEVEL_NOTE = ("The text each component gives of itself, and the messages of each stage, are compared piece by piece (constants, values and their formats, order, conditions) with reference "
              "definitions (ref/messages.py, analysed and never run).")
FLOOR = 40
GP = P + "signal.pickers.gaussian.GaussianPicker"
INFO = ("logging.info",)


def descriptions(c):
    for key, code, ref, kw in (
        ("run", RUN + ".__str__", "run", {}),
        ("archive", ARCHIVE + ".__str__", "archive", {}),
        ("table", LUT + ".__str__", "table", dict(opaque={"Grid3D.coord2grid"})),
        ("scan", SCAN + ".__str__", "scan", dict(types={at(S("self"), "run"): RUN})),
        ("trigger", TRIGGER + ".__str__", "trigger", {}),
        ("onset", STALTA + ".__str__", "onset", {}),
        ("picker", GP + ".__str__", "picker", {}),
        ("amplitudes", LM + "amplitude.Amplitude.__str__", "amplitude", {}),
        ("magnitudes", LM + "magnitude.Magnitude.__str__", "magnitude", {}),
        ("local-magnitudes", LM + "local_mag.LocalMag.__str__", "local_magnitudes", {}),
    ):
        behaves(c, "describe:" + key, code, "messages." + ref, rule="the settings that apply, with their values and units", **kw)


def stages(c):
    t = {at(S("self"), "run"): RUN, at(S("self"), "onset"): STALTA, at(S("self"), "archive"): ARCHIVE, at(S("self"), "lut"): LUT, "run": RUN}
    opq = {"Run.logger", "Archive.__str__"}
    for key, code, ref, more in (
        ("detect", SCAN + ".detect", "detect", {"QuakeScan._continuous_compute"}),
        ("locate", SCAN + ".locate", "locate", {"QuakeScan._locate_events"}),
        ("trigger", TRIGGER + ".trigger", "trigger_run", {"Trigger._trigger_batch"}),
        ("batch", TRIGGER + "._trigger_batch", "batch", {"read_scanmseed", "Trigger._smooth_coa", "Trigger._get_threshold", "Trigger._identify_candidates", "Trigger._refine_candidates",
                                                         "Trigger._filter_events", "write_triggered_events", "trigger_summary", "Trigger._threshold_method_string"}),
        ("window", EVENT + ".in_marginal_window", "in_window", set()),
        ("series", P + "io.scanmseed.read_scanmseed", "read_series", set()),
        ("events", P + "io.triggered_events.read_triggered_events", "read_events", set()),
        ("empty", SCANMSEED + ".empty", "empty_step", {"ScanmSEED._data2int", "ScanmSEED.append"}),
    ):
        behaves(c, "say:" + key, code, "messages." + ref, calls=INFO, opaque=opq | more, types=t, ret=False, rule="what the stage is about to do, what it found missing, and with which settings")


AMP, MG, DAT = LM + "amplitude.Amplitude", LM + "magnitude.Magnitude", P + "io.data.WaveformData"
WARN = ("logging.warning",)


def course(c):
    """What happens to each step, event, station, trace and measurement."""
    t = {at(S("self"), "picker"): GP, at(S("self"), "mags"): LM + "local_mag.LocalMag", at(S("self"), "run"): RUN, at(S("self"), "lut"): LUT, at(S("self"), "onset"): STALTA, at(S("self"), "archive"): ARCHIVE}
    amp = {"Amplitude._get_distances", "Amplitude._filter_trace", "Amplitude._get_amplitude_windows", "Amplitude._measure_signal_amps", "Amplitude._measure_noise_amp", "Amplitude.pad",
           "Event.get_hypocentre", "LUT.index2coord", "Grid3D.index2coord", "LUT.traveltime_to", "LUT.max_traveltime", "WaveformData.get_wa_waveform", "LUT._serve_traveltimes"}
    one = {"Amplitude._peak_to_trough_amplitude", "Amplitude._average_amplitude", "Amplitude._bandpass_filter", "Amplitude._highpass_filter"}
    for key, code, ref, kw in (
        ("step", SCAN + "._continuous_compute", "output.scan", dict(types=t, trust=(ONSET + ".pad", STALTA + ".pad"), opaque={
            "QuakeScan._compute", "Archive.read_waveform_data", "ScanmSEED.__init__", "ScanmSEED.append", "ScanmSEED.empty", "ScanmSEED.write", "write_availability", "Onset.pad", "STALTAOnset.pad",
            "Grid3D.unit_conversion_factor"})),
        ("event", SCAN + "._locate_events", "output.locate", dict(types=t, opaque=LOCATE, ret_types={P + "io.event.Event.__init__": EVENT}, ret_values={
            GP + ".pick_phases": lambda I, b, r: mk("tuple", (b["event"], mk("sub", r, num(1)))), LM + "local_mag.LocalMag.calc_magnitude": lambda I, b, r: mk("tuple", (b["event"], mk("sub", r, num(1))))})),
        ("onset", STALTA + ".calculate_onsets", "onset.calculate", dict(opaque={"STALTAOnset._onset", "stalta.pre_process", "WaveformData.check_availability", "time2sample"}, types={"data": DAT})),
        ("merge", P + "util.merge_stream", "archive.merged", {}),
        ("shift", P + "util.shift_to_sample", "archive.on_sample", dict(level=INFO + WARN)),
        ("resample", P + "util.resample", "archive.resample", dict(opaque={"util.decimate", "util.upsample"})),
        ("amplitude", AMP + ".get_amplitudes", "amplitude.measure", dict(level=WARN, opaque=amp, types={"event": EVENT, "lut": LUT, at(S("event"), "data"): DAT})),
        ("signal", AMP + "._measure_signal_amps", "amplitude.signal", dict(level=INFO + WARN, opaque=one, args={"windows": WINDOWS})),
        ("noise", AMP + "._measure_noise_amp", "amplitude.noise", dict(level=WARN, opaque=one)),
        ("filter", AMP + "._filter_trace", "amplitude.choose_filter", dict(level=WARN, opaque=one)),
        ("network", MG + ".mean_magnitude", "magnitude.network", dict(level=WARN, opaque={"Magnitude._filter_mags", "Magnitude._mag_r_squared"})),
        ("quality", MG + "._mag_r_squared", "magnitude.fit_quality", dict(opaque={"Magnitude._get_attenuation"})),
        ("magnitude", LM + "local_mag.LocalMag.calc_magnitude", "magnitude.calc", dict(level=WARN, 
            opaque={"Amplitude.get_amplitudes", "Magnitude.calculate_magnitudes", "Magnitude.mean_magnitude", "Magnitude.plot_amplitudes", "Event.add_local_magnitude", "write_amplitudes"},
            types={"event": EVENT, "lut": LUT, "run": RUN, at(S("self"), "amp"): AMP, at(S("self"), "mag"): MG})),
    ):
        kw = dict(kw)
        level = kw.pop("level", INFO)
        behaves(c, "course:" + key, code, ref, calls=level, ret=False, rule="what is left out or changed, why, and for which step, event or trace", **kw)


def errors(c):
    """The error says what was wrong, and carries what the log is given."""
    text = (".super.__init__",)
    for cls, ref, more in (
        ("NyquistException", "nyquist", ()), ("PickOrderException", "order", ()), ("ResponseNotFoundError", "response_problem", ()), ("ResponseRemovalError", "response_problem", ()),
        ("InvalidVelocityModelHeader", "header", ()), ("ArchivePathStructureError", "structure", ()), ("ChannelNameException", "channel_name", ()), ("BadUpfactorException", "upfactor", ()),
        ("NoOnsetPeak", "no_peak", ("msg",)), ("PeakToTroughError", "no_amplitude", ("msg",)), ("ArchiveEmptyException", "no_files", ("msg",)), ("DataAvailabilityException", "unusable", ("msg",)),
    ):
        behaves(c, "error:" + cls, EXC + cls + ".__init__", "messages." + ref, calls=text, fields=more, ret=False, rule="the error names what it is about")
    behaves(c, "error:DataGapException", EXC + "DataGapException.__init__", "messages.no_data", fields=("msg",), ret=False, rule="the error names what it is about")
    amp = {"Amplitude._get_picks", "WaveformData.get_real_waveform"}
    for key, code, ref, cls, kw in (
        ("filter", P + "signal.onsets.stalta.pre_process", "onset.preprocess", "NyquistException", dict(opaque={"util.resample"})),
        ("bandpass", AMP + "._bandpass_filter", "amplitude.bandpass", "NyquistException", {}),
        ("windows", AMP + "._get_amplitude_windows", "amplitude.windows", "PickOrderException", dict(opaque=amp, types={"event": EVENT})),
        ("response", DAT + ".get_real_waveform", "amplitude.remove_response", "ResponseNotFoundError", {}),
        ("removal", DAT + ".get_real_waveform", "amplitude.remove_response", "ResponseRemovalError", {}),
        ("layout", ARCHIVE + ".path_structure", "archive.layout", "ArchivePathStructureError", {}),
        ("upfactor", P + "util.resample", "archive.resample", "BadUpfactorException", dict(opaque={"util.decimate", "util.upsample"})),
        ("peak", GP + "._find_peak", "picker.peak", "NoOnsetPeak", {}),
        ("velocities", P + "io.core.read_vmodel", "guards.velocities", "InvalidVelocityModelHeader", {}),
        ("marching", P + "lut.create_lut._compute_1d_fmm", "lut.fast_marching", "InvalidVelocityModelHeader", dict(types={"lut": LUT}, opaque={"Grid3D.grid_xyz", "LUT.stations_xyz", "_eikonal_fmm"})),
    ):
        behaves(c, "raised:%s:%s" % (key, cls), code, ref, raises=(cls, "told"), ret=False, rule="the error is about the trace, station, value or name at fault", **kw)


def rules(c):
    descriptions(c)
    stages(c)
    course(c)
    errors(c)
