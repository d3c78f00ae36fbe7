"""Reference semantics of amplitude measurement (property C13)."""
import logging
import numpy as np
import pandas as pd
from obspy import Stream, UTCDateTime
from obspy.geodetics.base import gps2dist_azimuth
from scipy.signal import find_peaks, iirfilter, sosfreqz, hilbert
from quakemigrate import util

COLUMNS = ["id", "epi_dist", "z_dist", "P_amp", "P_freq", "P_time", "P_avg_amp", "P_filter_gain",
           "S_amp", "S_freq", "S_time", "S_avg_amp", "S_filter_gain", "Noise_amp", "is_picked"]


def init(self, amplitude_params={}):
    self.signal_window = amplitude_params.get("signal_window", 0.0)
    self.noise_window = amplitude_params.get("noise_window", 5.0)
    self.noise_measure = amplitude_params.get("noise_measure", "RMS")
    self.prominence_multiplier = amplitude_params.get("prominence_multiplier", 0.0)
    self.loc_method = amplitude_params.get("loc_method", "spline")
    self.highpass_filter = amplitude_params.get("highpass_filter", False)
    if self.highpass_filter:
        try:
            self.highpass_freq = amplitude_params["highpass_freq"]
        except KeyError:
            raise AttributeError("")
    self.bandpass_filter = amplitude_params.get("bandpass_filter", False)
    if self.bandpass_filter:
        try:
            self.bandpass_lowcut = amplitude_params["bandpass_lowcut"]
            self.bandpass_highcut = amplitude_params["bandpass_highcut"]
        except KeyError:
            raise AttributeError("")
    self.filter_corners = amplitude_params.get("filter_corners", 4)
    if self.highpass_filter and self.bandpass_filter:
        raise AttributeError("")
    if any(p in amplitude_params.keys() for p in ["water_level", "pre_filt", "remove_full_response"]):
        raise AttributeError("")


def measure(self, event, lut):
    table = pd.DataFrame(columns=COLUMNS)
    source = event.get_hypocentre(self.loc_method)
    ijk = lut.index2coord(source, inverse=True)[0]
    try:
        tt_p = lut.traveltime_to("P", ijk)
        tt_s = lut.traveltime_to("S", ijk)
    except KeyError:
        raise util.LUTPhasesException("")
    pre, post = self.pad(event.marginal_window, lut.max_traveltime, lut.fraction_tt)
    first, last = event.otime - pre, event.otime + post
    for i, (_, row) in enumerate(lut.station_data.iterrows()):
        station = row["Name"]
        epi, z = self._get_distances(source, row, lut.unit_conversion_factor)
        st = event.data.raw_waveforms.select(station=station).copy()
        st.trim(starttime=first, endtime=last)
        for j, comp in enumerate(["[E,2]", "[N,1]", "Z"]):
            amps = ["", epi, z] + 11 * [np.nan] + [False]
            tr = st.select(component=comp)
            if (bool(tr) and len(tr) == 1 and tr[0].stats.starttime < (first + tr[0].stats.delta)
                    and tr[0].stats.endtime > (last - tr[0].stats.delta)):
                tr = tr[0]
            else:
                amps[0] = f".{station}..{comp}"
                table.loc[i * 3 + j] = amps
                continue
            amps[0] = tr.id
            try:
                tr = event.data.get_wa_waveform(tr, velocity=False)
            except (util.ResponseNotFoundError, util.ResponseRemovalError) as e:
                logging.warning(e)
                table.loc[i * 3 + j] = amps
                continue
            sos = self._filter_trace(tr) if self.bandpass_filter or self.highpass_filter else None
            try:
                windows, picked = self._get_amplitude_windows(station, i, event, tt_p, tt_s, lut.fraction_tt)
                amps[14] = picked
            except util.PickOrderException as e:
                logging.warning(f"{e}")
                table.loc[i * 3 + j] = amps
                continue
            amps = self._measure_signal_amps(amps, tr, windows, self.noise_measure, sos)
            amps[13] = self._measure_noise_amp(tr, windows, self.noise_measure)
            table.loc[i * 3 + j] = amps
    return table.set_index("id")


def distances(self, ev_loc, station_data, unit_conversion_factor):
    lat, lon, depth = station_data[["Latitude", "Longitude", "Elevation"]].values
    x, y, z = ev_loc
    return gps2dist_azimuth(y, x, lat, lon)[0] / 1000, (z - depth) / (1000 / unit_conversion_factor)


def choose_filter(self, tr):
    if self.bandpass_filter:
        try:
            return self._bandpass_filter(tr)
        except util.NyquistException as e:
            logging.warning(f"\t{e} Applying a high-pass filter instead..")
            return self._highpass_filter(tr)
    return self._highpass_filter(tr)


def bandpass(self, tr):
    nyquist = 0.5 * tr.stats.sampling_rate
    low, high = self.bandpass_lowcut / nyquist, self.bandpass_highcut / nyquist
    if high - 1.0 > -1e-6:
        raise util.NyquistException(self.bandpass_highcut, nyquist, tr.id)
    tr.detrend("linear")
    tr.taper(0.05, "cosine")
    tr.filter(type="bandpass", freqmin=self.bandpass_lowcut, freqmax=self.bandpass_highcut, corners=self.filter_corners, zerophase=False)
    return iirfilter(N=self.filter_corners, Wn=[low, high], btype="bandpass", ftype="butter", output="sos")


def highpass(self, tr):
    corner = self.bandpass_lowcut if self.bandpass_filter else self.highpass_freq
    crit = corner / (0.5 * tr.stats.sampling_rate)
    tr.detrend("linear")
    tr.taper(0.05, "cosine")
    tr.filter(type="highpass", freq=corner, corners=self.filter_corners, zerophase=False)
    return iirfilter(N=self.filter_corners, Wn=crit, btype="highpass", ftype="butter", output="sos")


def windows(self, station, i, event, p_ttimes, s_ttimes, fraction_tt):
    p_pick, s_pick, picked = self._get_picks(station, event)
    for pick, phase in [[p_pick, "P"], [s_pick, "S"]]:
        if not isinstance(pick, UTCDateTime):
            if pick == "-1":
                if phase == "P":
                    p_pick = event.otime + p_ttimes[i]
                else:
                    s_pick = event.otime + s_ttimes[i]
            elif pick == f"No {phase} onset":
                p_pick = event.otime + p_ttimes[i]
                s_pick = event.otime + s_ttimes[i]
                break
    if not p_pick < s_pick:
        raise util.PickOrderException(event.uid, station, p_pick, s_pick)
    p_tol = event.marginal_window + p_ttimes[i] * fraction_tt
    s_tol = event.marginal_window + s_ttimes[i] * fraction_tt
    p_start, p_end = p_pick - p_tol, p_pick + p_tol
    s_start, s_end = s_pick - s_tol, s_pick + s_tol + self.signal_window
    if s_start < p_end:
        middle = p_end + (s_start - p_end) / 2
        return [[p_start, middle], [middle, s_end]], picked
    if s_start - p_end < self.signal_window:
        return [[p_start, s_start], [s_start, s_end]], picked
    return [[p_start, p_end + self.signal_window], [s_start, s_end]], picked


def picks(self, station, event):
    table = event.picks["df"]
    table = table.loc[table["Station"] == station]
    picked = False
    if len(table) > 0:
        try:
            p = UTCDateTime(str(table.loc[table["Phase"] == "P"]["PickTime"].iloc[0]))
            picked = True
        except IndexError:
            p = "No P onset"
        except ValueError:
            p = "-1"
        try:
            s = UTCDateTime(str(table.loc[table["Phase"] == "S"]["PickTime"].iloc[0]))
            picked = True
        except IndexError:
            s = "No S onset"
        except ValueError:
            s = "-1"
    else:
        p = s = "-1"
    return p, s, picked


def signal(self, amps, tr, windows, method="RMS", filter_sos=None):
    for k, (start, end) in enumerate(windows):
        window = tr.slice(start, end)
        window.detrend("linear")
        data = window.data
        if not bool(window) or data.max() == data.min():
            logging.warning(f"{'PS'[k]} signal window doesn't contain any data for trace {window.id}")
            continue
        try:
            half, freq, when = self._peak_to_trough_amplitude(window)
        except util.PeakToTroughError as e:
            logging.warning(f"Amplitude measurement failed in {'PS'[k]} signal window for trace {window.id}: {e.msg}")
            continue
        average = self._average_amplitude(window, method)
        gain = None
        if self.bandpass_filter or self.highpass_filter:
            _, gain = sosfreqz(filter_sos, worN=[freq], fs=tr.stats.sampling_rate)
            gain = np.abs(gain[0])
            if not gain:
                logging.info(f"\t    Warning: Invalid frequency ({freq:.5g} Hz) for {'PS'[k]}_amp measurement on:\n\t\t{tr}")
                continue
            half /= gain
            average /= gain
        amps[3 + k * 5 : 8 + k * 5] = (half, freq, when, average, gain)
    return amps


def peak_to_trough(self, trace):
    data = trace.data
    prominence = self.prominence_multiplier * np.max(np.abs(data))
    peaks, _ = find_peaks(data, prominence=prominence)
    troughs, _ = find_peaks(-data, prominence=prominence)
    full = None
    if len(peaks) == 0 or len(troughs) == 0:
        raise util.PeakToTroughError("")
    elif len(peaks) == 1 and len(troughs) == 1:
        full = np.abs(data[peaks] - data[troughs])[0]
        pos = 0
    elif len(peaks) == len(troughs):
        if peaks[0] < troughs[0]:
            a, b, c, d = peaks, troughs, peaks[1:], troughs[:-1]
        else:
            a, b, c, d = peaks, troughs, peaks[:-1], troughs[1:]
    elif not np.abs(len(peaks) - len(troughs)) == 1:
        raise util.PeakToTroughError("")
    elif len(peaks) > len(troughs):
        if not peaks[0] < troughs[0]:
            raise util.PeakToTroughError("")
        a, b, c, d = peaks[:-1], troughs, peaks[1:], troughs
    elif len(peaks) < len(troughs):
        if not peaks[0] > troughs[0]:
            raise util.PeakToTroughError("")
        a, b, c, d = peaks, troughs[1:], peaks, troughs[:-1]
    if not full:
        one = np.abs(data[a] - data[b])
        two = np.abs(data[c] - data[d])
        if np.max(one) >= np.max(two):
            pos, full, peaks, troughs = np.argmax(one), np.max(one), a, b
        else:
            pos, full, peaks, troughs = np.argmax(two), np.max(two), c, d
    t1 = trace.times()[peaks[pos]]
    t2 = trace.times()[troughs[pos]]
    return full * 1000 / 2, 1.0 / (np.abs(t1 - t2) * 2.0), trace.stats.starttime + t1 + (t2 - t1) / 2


def noise(self, tr, windows, method="RMS"):
    start = windows[0][0]
    window = tr.slice(start - self.noise_window, start)
    if not bool(window) or window.data.max() == window.data.min():
        logging.warning(f"Noise window doesn't contain any data for trace {window.id}")
        return np.nan
    window.detrend("linear")
    return self._average_amplitude(window, method)


def average(self, trace, method):
    if method == "RMS":
        value = np.sqrt(np.mean(np.square(trace.data)))
    elif method == "STD":
        value = np.std(trace.data)
    elif method == "ENV":
        value = np.mean(np.abs(hilbert(trace.data)))
    else:
        raise NotImplementedError("")
    return value * 1000.0


def pad(self, marginal_window, max_tt, fraction_tt):
    pre = self.noise_window + marginal_window
    post = self.signal_window + max_tt * (1 + fraction_tt) + marginal_window
    more = np.ceil((pre + post) * 0.06)
    return pre + more, post + more


def remove_response(self, tr, velocity=True):
    if not self.response_inv:
        raise AttributeError("")
    tr = tr.copy()
    tr.detrend("linear")
    if not self.remove_full_response:
        try:
            response = self.response_inv.get_response(tr.id, tr.stats.starttime)
        except Exception as e:
            raise util.ResponseNotFoundError(str(e), tr.id)
        paz = response.get_paz()
        if not velocity:
            paz.zeros.extend([0j])
        remove = {"poles": paz.poles, "zeros": paz.zeros, "gain": paz.normalization_factor, "sensitivity": response.instrument_sensitivity.value}
        try:
            tr.simulate(paz_remove=remove, pre_filt=self.pre_filt, water_level=self.water_level, taper=True, sacsim=True, pitsasim=False)
        except ValueError as e:
            raise util.ResponseRemovalError(e, tr.id)
    else:
        try:
            tr.remove_response(inventory=self.response_inv, output="VEL" if velocity else "DISP", pre_filt=self.pre_filt, water_level=self.water_level, taper=True)
        except ValueError as e:
            raise util.ResponseRemovalError(e, tr.id)
    try:
        self.real_waveforms.append(tr.copy())
    except AttributeError:
        self.real_waveforms = Stream()
        self.real_waveforms.append(tr.copy())
    return tr


def wood_anderson(self, tr, velocity=False):
    tr = tr.copy()
    tr.detrend("linear")
    tr = self.get_real_waveform(tr, velocity)
    tr.simulate(paz_simulate=util.wa_response(obspy_def=True), pre_filt=self.pre_filt, water_level=self.water_level, taper=True, sacsim=True, pitsasim=False)
    try:
        self.wa_waveforms.append(tr.copy())
    except AttributeError:
        self.wa_waveforms = Stream()
        self.wa_waveforms.append(tr.copy())
    return tr


def write(run, amplitudes, event):
    path = run.path / "locate" / run.subname / "amplitudes"
    path.mkdir(exist_ok=True, parents=True)
    table = amplitudes.copy()
    for col in ["epi_dist", "z_dist", "P_amp", "P_avg_amp", "S_amp", "S_avg_amp", "Noise_amp"]:
        table[col] = table[col].map(lambda x: f"{x:.5g}", na_action="ignore")
    for col in ["P_freq", "S_freq"]:
        table[col] = table[col].map(lambda x: f"{x:.2g}", na_action="ignore")
    for col in ["P_filter_gain", "S_filter_gain"]:
        table[col] = table[col].map(lambda x: f"{x:.3g}", na_action="ignore")
    if "ML" in table.columns:
        for col in ["ML", "ML_Err"]:
            table[col] = table[col].map(lambda x: f"{x:.3g}", na_action="ignore")
    table.to_csv((path / f"{event.uid}").with_suffix(".amps"), index=True)


def read(self, w_beg, w_end):
    pre = post = 0.0
    if self.mags:
        pre, post = self.mags.amp.pad(self.marginal_window, self.lut.max_traveltime, self.lut.fraction_tt)
    if self.pre_cut:
        pre = max(pre, self.pre_cut)
    if self.post_cut:
        post = max(post, self.post_cut)
    return self.archive.read_waveform_data(
        w_beg, w_end, max(0.0, pre - self.marginal_window - self.pre_pad), max(0.0, post - self.marginal_window - self.post_pad))


def hypocentre(self, method="spline"):
    where = self.locations[method]
    return np.array([where["X"], where["Y"], where["Z"]])


def seismograph(convert="DIS2DIS", obspy_def=True):
    poles = [-6.283185 - 4.712j, -6.283185 + 4.712j] if obspy_def else [-5.49779 + 5.60886j, -5.49779 - 5.60886j]
    zeros = [0j, 0j] if convert in ("DIS2DIS", "VEL2VEL") else [0j]
    return {"poles": poles, "zeros": zeros, "sensitivity": 2080, "gain": 1.0}
