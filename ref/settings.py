"""Reference: what each setting given to an object becomes (property C21)."""
import logging
import pathlib
import time

import numpy as np
from quakemigrate import util
from quakemigrate.io.core import Run, read_stations
from quakemigrate.signal.local_mag import LocalMag
from quakemigrate.signal.onsets import Onset
from quakemigrate.signal.pickers import GaussianPicker, PhasePicker

DETECT = {"timestep": 120.0}


def scan(self, archive, lut, onset, run_path, run_name, **kwargs):
    if not isinstance(onset, Onset):
        raise util.OnsetTypeError
    self.archive = archive
    self.lut = lut
    self.onset = onset
    onset.post_pad = lut.max_traveltime
    self.pre_pad = 0.0
    self.post_pad = 0.0
    self.run = Run(run_path, run_name, kwargs.get("run_subname", ""), loglevel=kwargs.get("loglevel", "info"))
    self.log = kwargs.get("log", False)
    picker = kwargs.get("picker")
    if picker is None:
        picker = GaussianPicker(onset=onset)
    elif not isinstance(picker, PhasePicker):
        raise util.PickerTypeError
    self.picker = picker
    former = kwargs.get("time_step")
    self.timestep = kwargs.get("timestep", DETECT["timestep"]) if former is None else former
    self.marginal_window = kwargs.get("marginal_window", 2.0)
    former = kwargs.get("n_cores")
    self.threads = kwargs.get("threads", 1) if former is None else former
    if onset.sampling_rate is not None:
        self._scan_rate = onset.sampling_rate
    mags = kwargs.get("mags")
    if mags is not None and not isinstance(mags, LocalMag):
        raise util.MagsTypeError
    self.mags = mags
    self.plot_event_summary = kwargs.get("plot_event_summary", True)
    self.plot_all_stns = kwargs.get("plot_all_stns", True)
    self.plot_event_video = kwargs.get("plot_event_video", False)
    self.xy_files = kwargs.get("xy_files")
    self.continuous_scanmseed_write = kwargs.get("continuous_scanmseed_write", False)
    self.write_cut_waveforms = kwargs.get("write_cut_waveforms", False)
    self.write_real_waveforms = kwargs.get("write_real_waveforms", False)
    self.real_waveform_units = kwargs.get("real_waveform_units", "displacement")
    self.write_wa_waveforms = kwargs.get("write_wa_waveforms", False)
    self.wa_waveform_units = kwargs.get("wa_waveform_units", "displacement")
    self.cut_waveform_format = kwargs.get("cut_waveform_format", "MSEED")
    self.pre_cut = None
    self.post_cut = None
    self.write_marginal_coalescence = kwargs.get("write_marginal_coalescence", False)
    self.write_coalescence = kwargs.get("write_coalescence", False)


def trigger(self, lut, run_path, run_name, **kwargs):
    self.lut = lut
    self.run = Run(run_path, run_name, kwargs.get("trigger_name", ""), "trigger", loglevel=kwargs.get("loglevel", "info"))
    self.run.logger(kwargs.get("log", False))
    method = kwargs.get("threshold_method", "static")
    if method in ["static", "mad", "median_ratio"]:
        self._threshold_method = method
    elif method == "dynamic":
        self._threshold_method = "mad"
    else:
        raise util.InvalidTriggerThresholdMethodException
    self.static_threshold = kwargs.get("static_threshold", 1.5)
    self.mad_window_length = kwargs.get("mad_window_length", 3600.0)
    self.mad_multiplier = kwargs.get("mad_multiplier", 8.0)
    self.median_window_length = kwargs.get("median_window_length", 3600.0)
    self.median_multiplier = kwargs.get("median_multiplier", 1.2)
    self.marginal_window = kwargs.get("marginal_window", 2.0)
    # an interval given under the former name counts
    interval = kwargs.get("minimum_repeat") if kwargs.get("minimum_repeat") else kwargs.get("min_event_interval", 4.0)
    if interval < 2 * self.marginal_window:
        raise ValueError("")
    self._min_event_interval = interval
    self.normalise_coalescence = kwargs.get("normalise_coalescence", False)
    self.pad = kwargs.get("pad", 120.0)
    self.smooth_coa = kwargs.get("smooth_coa", False)
    self.smoothing_kernel_sigma = kwargs.get("smoothing_kernel_sigma", 0.2)
    self.smoothing_kernel_width = kwargs.get("smoothing_kernel_width", 4.0)
    self.plot_trigger_summary = kwargs.get("plot_trigger_summary", True)
    self.xy_files = kwargs.get("xy_files")
    self.plot_all_stns = kwargs.get("plot_all_stns", True)
    self.write_event_time_windows = kwargs.get("write_event_time_windows", False)


def base_picker(self, **kwargs):
    self.plot_picks = kwargs.get("plot_picks", True)


def local_mag(self, amp_params, mag_params, plot_amplitudes=True):
    self.amp = Amplitude(amp_params)
    self.mag = Magnitude(mag_params)
    self.plot = plot_amplitudes


# former names and checked settings


def get_interval(self):
    return self._min_event_interval


def get_method(self):
    return self._threshold_method


def get_scan_rate(self):
    return self._scan_rate


def set_scan_rate(self, value):
    # follows the onset
    if value is not None and value == self.onset.sampling_rate:
        self._scan_rate = value


def set_sampling_rate(self, value):
    pass


def get_timestep(self):
    return self.timestep


def set_timestep(self, value):
    if value is not None:
        self.timestep = value


def get_threads(self):
    return self.threads


def set_threads(self, value):
    if value is not None:
        self.threads = value


def get_fraction(self):
    return self._fraction_tt


def set_fraction(self, value):
    self._fraction_tt = value


def get_pre_pad(self):
    return self._pre_pad


def set_pre_pad(self, value):
    self._pre_pad = value


def get_post_pad(self):
    return self._post_pad


def set_post_pad(self, value):
    self._post_pad = value


def stations_old(station_file, **kwargs):
    return read_stations(station_file, **kwargs)
