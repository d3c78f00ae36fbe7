"""Reference semantics of the STA/LTA onset functions (property C07)."""
import logging
import numpy as np
from obspy import Stream
from scipy.signal import hilbert
from quakemigrate import util
from quakemigrate.core import centred_sta_lta, overlapping_sta_lta
from quakemigrate.signal.onsets.base import OnsetData
from quakemigrate.signal.onsets.stalta import centred_sta_lta_py, overlapping_sta_lta_py, pre_process

TINY = np.finfo(float).tiny


def time2sample(time, sampling_rate):
    return int(round(time * int(sampling_rate)))


def trim2sample(time, sampling_rate):
    """shortest whole number of samples that is not shorter than the time"""
    return np.ceil(time * sampling_rate) / sampling_rate


def pad(self, timespan):
    total = timespan + self.pre_pad + self.post_pad
    taper = np.ceil(total * 0.06)
    return (
        util.trim2sample(self.pre_pad + taper, self.sampling_rate),
        util.trim2sample(self.post_pad + taper, self.sampling_rate),
    )


def pre_pad(self):
    return max([w[1] for w in self.sta_lta_windows.values()]) + 3 * max([w[0] for w in self.sta_lta_windows.values()])


def set_post_pad(self, ttmax):
    self._post_pad = np.ceil(ttmax + 2 * max([w[1] for w in self.sta_lta_windows.values()]))


def halfwidth(self, phase):
    return self.sta_lta_windows[phase][0] * self.sampling_rate / 2


def base_init(self, **kwargs):
    self.sampling_rate = kwargs.get("sampling_rate")
    if self.sampling_rate is None:
        raise ValueError("")
    self._pre_pad = 0
    self._post_pad = 0


def preprocess(stream, sampling_rate, resample, upfactor, filter_, starttime, endtime):
    new = util.resample(stream, sampling_rate, resample, upfactor, starttime, endtime)
    if filter_[1] >= 0.5 * sampling_rate:
        raise util.NyquistException(filter_[1], 0.5 * sampling_rate, "")
    new = new.copy()
    new.detrend("linear")
    new.detrend("constant")
    new.taper(type="cosine", max_percentage=0.05)
    new.filter(type="bandpass", freqmin=filter_[0], freqmax=filter_[1], corners=filter_[2], zerophase=True)
    return new


def calculate(self, data, timespan=None):
    stack = []
    by_station = {}
    passed = Stream()
    availability = {}
    for phase in self.phases:
        selected = data.waveforms.select(channel=self.channel_maps[phase])
        # a window of n sample intervals holds n + 1 samples
        nsta = util.time2sample(self.sta_lta_windows[phase][0], self.sampling_rate) + 1
        nlta = util.time2sample(self.sta_lta_windows[phase][1], self.sampling_rate) + 1
        filtered = pre_process(selected, self.sampling_rate, data.resample, data.upfactor, self.bandpass_filters[phase], data.starttime, data.endtime)
        for station in data.stations:
            stream = filtered.select(station=station)
            ok, channels = data.check_availability(
                stream, all_channels=self.all_channels, n_channels=self.channel_counts[phase], allow_gaps=self.allow_gaps,
                full_timespan=self.full_timespan, check_sampling_rate=True, sampling_rate=self.sampling_rate)
            availability[f"{station}_{phase}"] = ok
            if ok == 0:
                logging.info(f"\t\tNo {phase} onset for {station}.")
                continue
            for channel, usable in channels.items():
                if usable == 0:
                    for trace in stream.select(id=channel):
                        stream.remove(trace)
            if self.allow_gaps or not self.full_timespan:
                fill = np.sqrt(np.finfo(float).tiny)
                stream.taper(type="cosine", max_percentage=0.05)
                stream.merge(method=1, fill_value=fill)
                stream.trim(starttime=data.starttime - 0.00001, endtime=data.endtime + 0.00001, pad=True, fill_value=fill, nearest_sample=False)
            by_station.setdefault(station, {}).update({phase: self._onset(stream, nsta, nlta, timespan)})
            stack.append(by_station[station][phase])
            passed += stream
    if sum(availability.values()) == 0:
        raise util.DataAvailabilityException
    return (
        np.stack(stack, axis=0),
        OnsetData(by_station, self.phases, self.channel_maps, passed, availability, data.starttime, data.endtime, self.sampling_rate),
    )


def onset_data(self, onsets, phases, channel_maps, filtered_waveforms, availability, starttime, endtime, sampling_rate):
    self.onsets = onsets
    self.phases = phases
    self.channel_maps = channel_maps
    self.filtered_waveforms = filtered_waveforms
    self.availability = availability
    self.starttime = starttime
    self.endtime = endtime
    self.sampling_rate = sampling_rate


def onset(self, stream, stw, ltw, timespan):
    if self.signal_transform == "energy":
        signals = [tr.data**2 for tr in stream]
    elif self.signal_transform == "abs":
        signals = [np.abs(tr.data) for tr in stream]
    elif self.signal_transform == "env":
        signals = [np.abs(hilbert(tr.data)) for tr in stream]
    elif self.signal_transform == "env_squared":
        signals = [np.abs(hilbert(tr.data)) ** 2 for tr in stream]
    else:
        raise ValueError
    if self.position == "centred":
        ratio = centred_sta_lta_py if self.use_python_backend else centred_sta_lta
    elif self.position == "classic":
        ratio = overlapping_sta_lta_py if self.use_python_backend else overlapping_sta_lta
    else:
        raise ValueError
    ratios = np.array([ratio(signal, stw, ltw) for signal in signals])
    if timespan:
        ratios = self._trim_taper_pad(ratios, stw, ltw, timespan)
    # root mean square over the channels
    return np.clip(np.sqrt(np.sum([r**2 for r in ratios], axis=0) / len(ratios)), self.min_onset_value, np.inf)


def blank_edges(self, onsets, stw, ltw, timespan):
    edge = util.time2sample(self.pad(timespan)[0] - self.pre_pad, self.sampling_rate)
    for o in onsets:
        o[: edge + ltw - 1] = 1.0
        o[-(stw + edge):] = 1.0
    return onsets


def overlapping(signal, nsta, nlta):
    total = np.require(np.cumsum(signal), dtype=float)
    short = total
    long = total.copy()
    short[nsta:] = short[nsta:] - short[:-nsta]
    short /= nsta
    long[nlta:] = long[nlta:] - long[:-nlta]
    long /= nlta
    # no ratio before the first complete long window
    short[: nlta - 1] = 1.0
    long[: nlta - 1] = 1.0
    zero = long < TINY
    long[zero] = TINY
    short[zero] = TINY
    return short / long


def centred(signal, nsta, nlta):
    total = np.require(np.cumsum(signal), dtype=float)
    short = total
    long = total.copy()
    short[nsta:] = short[nsta:] - short[:-nsta]
    # the short window follows the long window
    short[nsta:-nsta] = short[2 * nsta:]
    short /= nsta
    long[nlta:] = long[nlta:] - long[:-nlta]
    long /= nlta
    short[: nlta - 1] = 1.0
    long[: nlta - 1] = 1.0
    short[-nsta:] = 1.0
    long[-nsta:] = 1.0
    zero = long < TINY
    long[zero] = TINY
    short[zero] = TINY
    return short / long


def init(self, **kwargs):
    self.sampling_rate = kwargs.get("sampling_rate")
    self._pre_pad = 0
    self._post_pad = 0
    self.position = kwargs.get("position", "classic")
    self.use_python_backend = kwargs.get("use_python_backend", False)
    self.signal_transform = kwargs.get("signal_transform", "energy")
    self.min_onset_value = kwargs.get("min_onset_value", 0.4)
    if self.sampling_rate is None:
        raise ValueError("")
    if self.min_onset_value < 0.01:
        raise ValueError("")
    self.phases = kwargs.get("phases", ["P", "S"])
    self.bandpass_filters = kwargs.get("bandpass_filters", {"P": [2.0, 16.0, 2], "S": [2.0, 16.0, 2]})
    self.sta_lta_windows = kwargs.get("sta_lta_windows", {"P": [0.2, 1.0], "S": [0.2, 1.0]})
    self.channel_maps = kwargs.get("channel_maps", {"P": "*Z", "S": "*[N,E,1,2]"})
    self.channel_counts = kwargs.get("channel_counts", {"P": 1, "S": 2})
    self.all_channels = kwargs.get("all_channels", False)
    self.allow_gaps = kwargs.get("allow_gaps", False)
    self.full_timespan = kwargs.get("full_timespan", True)
    # former names
    self.onset_centred = kwargs.get("onset_centred")
    self.p_bp_filter = kwargs.get("p_bp_filter")
    self.s_bp_filter = kwargs.get("s_bp_filter")
    self.p_onset_win = kwargs.get("p_onset_win")
    self.s_onset_win = kwargs.get("s_onset_win")


def set_centred(self, value):
    if value is not None:
        self.position = "centred" if value else "classic"


def set_p_filter(self, value):
    if value is not None:
        self.bandpass_filters["P"] = value


def set_s_filter(self, value):
    if value is not None:
        self.bandpass_filters["S"] = value


def set_p_window(self, value):
    if value is not None:
        self.sta_lta_windows["P"] = value


def set_s_window(self, value):
    if value is not None:
        self.sta_lta_windows["S"] = value


def max_traveltime(self):
    return np.max(self._serve_traveltimes(self.phases))
