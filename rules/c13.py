"""C13: amplitudes are measured in the configured windows, units and channels."""
from .common import *
from qmsa.equiv import behaves

LEVEL_NOTE = (
    "Amplitude measurement (channel selection, response removal, filters, windows, peak-to-trough and average "
    "amplitudes, gain, noise, distances, the output row) is interpreted abstractly over symbolic events, tables and "
    "traces and compared, as normal forms, with reference definitions (ref/amplitude.py, analysed and never run); "
    "that locate reads enough data for the windows is followed through locate."
)
FLOOR = 40
AMP = P + "signal.local_mag.amplitude.Amplitude"
DAT = P + "io.data.WaveformData"


def rules(c):
    c.do(measurement)
    c.do(windows)
    c.do(values)
    c.do(response)
    c.do(filters)
    c.do(config)
    c.do(flow)


def measurement(c):
    op = {"Amplitude._get_distances", "Amplitude._filter_trace", "Amplitude._get_amplitude_windows", "Amplitude._measure_signal_amps", "Amplitude._measure_noise_amp", "Amplitude.pad",
          "Event.get_hypocentre", "LUT.index2coord", "Grid3D.index2coord", "LUT.traveltime_to", "LUT.max_traveltime", "WaveformData.get_wa_waveform", "LUT._serve_traveltimes"}
    behaves(c, "measure", AMP + ".get_amplitudes", "amplitude.measure", opaque=op, types={"event": EVENT, "lut": LUT, at(S("event"), "data"): DAT},
            raises=("LUTPhasesException",),
            calls=("Amplitude._get_distances", "Amplitude._filter_trace", "Amplitude._get_amplitude_windows", "Amplitude._measure_signal_amps", "Amplitude._measure_noise_amp",
                   "Amplitude.pad", "WaveformData.get_wa_waveform", "LUT.traveltime_to", ".select"), mutates=("trim",),
            rule="every station and component in the table has a row, measured on its own continuous, response-corrected trace")
    behaves(c, "distances", AMP + "._get_distances", "amplitude.distances", rule="kilometres, epicentral and vertical")


def windows(c):
    behaves(c, "windows", AMP + "._get_amplitude_windows", "amplitude.windows", opaque={"Amplitude._get_picks"}, types={"event": EVENT}, raises=("PickOrderException",),
            rule="P and S windows around pick or model, never overlapping")
    behaves(c, "picks", AMP + "._get_picks", "amplitude.picks", types={"event": EVENT}, rule="the picks of that station, or why there is none")
    behaves(c, "pad", AMP + ".pad", "amplitude.pad", rule="the data window holds noise, P and S windows and the taper")


def values(c):
    op = {"Amplitude._peak_to_trough_amplitude", "Amplitude._average_amplitude"}
    behaves(c, "signal", AMP + "._measure_signal_amps", "amplitude.signal", opaque=op, calls=("Amplitude._peak_to_trough_amplitude", "Amplitude._average_amplitude", "scipy.signal.sosfreqz", ".slice"),
            args={"windows": WINDOWS}, params=("amps",), rule="each phase is measured in its window, corrected for gain, stored in its columns")
    behaves(c, "noise", AMP + "._measure_noise_amp", "amplitude.noise", opaque=op, calls=("Amplitude._average_amplitude", ".slice"), rule="noise is measured before the P window")
    behaves(c, "peak_to_trough", AMP + "._peak_to_trough_amplitude", "amplitude.peak_to_trough", raises=("PeakToTroughError",), rule="largest adjacent peak-to-trough amplitude, its half in millimetres, frequency and time")
    behaves(c, "average", AMP + "._average_amplitude", "amplitude.average", raises=("NotImplementedError",), rule="average amplitude by the configured measure, in millimetres")


def response(c):
    behaves(c, "remove", DAT + ".get_real_waveform", "amplitude.remove_response", raises=("AttributeError", "ResponseNotFoundError", "ResponseRemovalError"),
            calls=(".get_response",), mutates=(".append", ".simulate", ".remove_response", ".detrend"), rule="a copy is corrected to the requested ground motion")
    behaves(c, "wood_anderson", DAT + ".get_wa_waveform", "amplitude.wood_anderson", opaque={"WaveformData.get_real_waveform", "wa_response"},
            calls=("WaveformData.get_real_waveform", "wa_response"), mutates=(".append", ".simulate", ".detrend"), rule="ground motion, then the Wood-Anderson instrument")
    behaves(c, "instrument", P + "util.wa_response", "amplitude.seismograph", rule="poles, zeros and gain of a Wood-Anderson instrument, for displacement or velocity")


def filters(c):
    op = {"Amplitude._bandpass_filter", "Amplitude._highpass_filter"}
    behaves(c, "choose", AMP + "._filter_trace", "amplitude.choose_filter", opaque=op, calls=("Amplitude._bandpass_filter", "Amplitude._highpass_filter"), rule="the selected filter; highpass above Nyquist")
    behaves(c, "bandpass", AMP + "._bandpass_filter", "amplitude.bandpass", params=("tr",), raises=("NyquistException",), rule="the filter applied and the one whose gain is corrected agree")
    behaves(c, "highpass", AMP + "._highpass_filter", "amplitude.highpass", params=("tr",), rule="the filter applied and the one whose gain is corrected agree")


def config(c):
    behaves(c, "init", AMP + ".__init__", "amplitude.init", ret=False, raises=("AttributeError",),
            fields=("signal_window", "noise_window", "noise_measure", "prominence_multiplier", "loc_method", "highpass_filter", "highpass_freq", "bandpass_filter",
                    "bandpass_lowcut", "bandpass_highcut", "filter_corners"), rule="settings are kept as given, with the documented defaults")
    behaves(c, "write", P + "io.amplitudes.write_amplitudes", "amplitude.write", calls=(".to_csv", ".mkdir"), params=("amplitudes",), ret=False, types={"run": RUN, "event": EVENT},
            rule="one amplitudes file per event, from a copy of the table")


def flow(c):
    behaves(c, "read", SCAN + "._read_event_waveform_data", "amplitude.read", opaque={"Amplitude.pad", "Archive.read_waveform_data", "LUT.max_traveltime"},
            types={at(S("self"), "archive"): ARCHIVE, at(S("self"), "mags"): P + "signal.local_mag.local_mag.LocalMag", at(S("self"), "mags", "amp"): AMP, at(S("self"), "lut"): LUT},
            calls=("Archive.read_waveform_data", "Amplitude.pad"), rule="enough data is read for the amplitude windows")
    behaves(c, "hypocentre", EVENT + ".get_hypocentre", "amplitude.hypocentre", rule="the chosen location in longitude, latitude, depth")
    s = locate(c)
    rd = c.some("read-call", s.calls("Archive.read_waveform_data"), SCAN + ".locate", "locate reads data")
    mg = c.some("measured", s.calls("LocalMag.calc_magnitude"), SCAN + ".locate", "amplitudes are measured on the located event")
