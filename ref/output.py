"""Required output tree: where each stage writes, and when (property C19)."""
import logging
import pathlib
import sys
from datetime import datetime

import matplotlib.pyplot as plt
import numpy as np
import pandas as pd
from obspy import Stream, UTCDateTime
from obspy.io.mseed import InternalMSEEDError

import quakemigrate.util as util
from quakemigrate.io.amplitudes import write_amplitudes
from quakemigrate.io.availability import write_availability
from quakemigrate.io.coalescence import write_coalescence
from quakemigrate.io.core import Run
from quakemigrate.io.cut_waveforms import write_cut_waveforms
from quakemigrate.io.event import Event
from quakemigrate.io.scanmseed import ScanmSEED, read_scanmseed
from quakemigrate.io.triggered_events import read_triggered_events, write_triggered_events
from quakemigrate.plot.event import event_summary
from quakemigrate.plot.trigger import trigger_summary
from quakemigrate.signal.local_mag import LocalMag
from quakemigrate.signal.onsets import Onset
from quakemigrate.signal.pickers import PhasePicker


def folder(*parts):
    path = parts[0]
    for p in parts[1:]:
        path = path / p
    path.mkdir(exist_ok=True, parents=True)
    return path


# --- the run ----------------------------------------------------------------------------------------------------------
def run_init(self, path, name, subname="", stage=None, loglevel="info"):
    if "." in name or "." in subname:
        name = name.replace(".", "_")
        subname = subname.replace(".", "_")
    self.path = pathlib.Path(path) / name
    self._name = name
    self.stage = stage
    self.subname = subname
    self.loglevel = loglevel


def run_name(self):
    return self._name if self.subname == "" else f"{self._name}_{self.subname}"


def run_logger(self, log):
    util.logger(self.path / self.stage / self.subname / "logs" / self.name, log, loglevel=self.loglevel)


def logger(logstem, log, loglevel="info"):
    handlers = [logging.StreamHandler(sys.stdout)]
    if log:
        now = datetime.now().strftime("%Y-%m-%d_%H-%M-%S")
        file = logstem.parent / f"{logstem.name}_{now}"
        file.parent.mkdir(exist_ok=True, parents=True)
        handlers = [logging.FileHandler(str(file.with_suffix(".log"))), logging.StreamHandler(sys.stdout)]
    logging.basicConfig(level=logging.DEBUG if loglevel == "debug" else logging.INFO, format="%(message)s", handlers=handlers, force=True)


# --- one writer per kind of output ------------------------------------------------------------------------------------
def scanmseed(self, write_start=None, write_end=None):
    out = folder(self.run.path, "detect", "scanmseed")
    st = self.stream
    if write_start is not None and write_end is not None:
        st = st.slice(starttime=write_start, endtime=write_end)
    day = st[0].stats.starttime
    file = (out / f"{day.year}_{day.julday:03d}").with_suffix(".scanmseed")
    try:
        st.write(str(file), format="MSEED", encoding="STEIM2")
    except InternalMSEEDError:
        st.write(str(file), format="MSEED", encoding="STEIM1")
    self.written = True


def availability(run, availability):
    out = folder(run.path, "detect", "availability")
    availability.index = times = pd.to_datetime(availability.index)
    for date in set([time.date() for time in times]):
        part = availability[availability.index.date == date]
        part.index = [UTCDateTime(idx) for idx in part.index]
        date = UTCDateTime(date)
        part.to_csv((out / f"{date.year}_{date.julday:03d}_StationAvailability").with_suffix(".csv"))


def triggered(run, events, starttime, write_event_time_windows):
    out = folder(run.path, "trigger", run.subname, "events")
    cols = ["EventID", "CoaTime", "TRIG_COA", "COA_X", "COA_Y", "COA_Z", "COA", "COA_NORM"]
    if write_event_time_windows:
        cols.extend(["MinTime", "MaxTime"])
    file = (out / f"{run.name}_{starttime.year}_{starttime.julday:03d}_TriggeredEvents").with_suffix(".csv")
    events.copy().loc[:, cols].to_csv(file, index=False)


def trigger_plot(events, starttime, endtime, run, marginal_window, min_event_interval, detection_threshold, threshold_string, normalise_coalescence, lut, data, region,
                 discarded_events, interactive, xy_files=None, plot_all_stns=True):
    out = folder(run.path, "trigger", run.subname, "summaries")
    plt.savefig(str((out / f"{run.name}_{starttime.year}_{starttime.julday:03d}_Trigger").with_suffix(".pdf")))


def event_plot(run, event, marginalised_coa_map, lut, xy_files=None, plot_all_stns=True):
    out = folder(run.path, "locate", run.subname, "summaries")
    plt.savefig((out / f"{run.name}_{event.uid}_EventSummary").with_suffix(".pdf"), dpi=400)


def coalescence(run, coalescence_map, event, marginalised=False):
    out = folder(run.path, "locate", run.subname, "marginalised_coalescence_maps" if marginalised else "coalescence_maps")
    np.save((out / f"{event.uid}").with_suffix(".npy"), coalescence_map)


def pick_plot(self, event, station, onset_data, picks_df, traveltimes, run):
    out = folder(run.path, "locate", run.subname, "pick_plots", f"{event.uid}")
    if not bool(onset_data.filtered_waveforms.select(station=station)):
        return
    plt.savefig((out / f"{event.uid}_{station}").with_suffix(".pdf"))


def amplitude_plot(self, magnitudes, event, run, unit_conversion_factor, noise_measure="RMS"):
    out = folder(run.path, "locate", run.subname, "amplitude_plots")
    plt.savefig((out / f"{run.name}_{event.uid}_AmpVsDistance").with_suffix(".pdf"), dpi=400)


# --- what each stage writes -------------------------------------------------------------------------------------------
def locate(self, **kwargs):
    events = read_triggered_events(self.run, **kwargs)
    self.onset.post_pad = self.lut.max_traveltime
    self.pre_pad, self.post_pad = self.onset.pad(4 * self.marginal_window)
    n = len(events.index)
    for i, row in events.iterrows():
        event = Event(self.marginal_window, row)
        begin = event.trigger_time - 2 * self.marginal_window - self.pre_pad
        end = event.trigger_time + 2 * self.marginal_window + self.post_pad
        logging.info(util.log_spacer)
        logging.info(f"\tEVENT - {i+1} of {n} - {event.uid}")
        logging.info(util.log_spacer)
        try:
            logging.info("\tReading waveform data...")
            event.add_waveform_data(self._read_event_waveform_data(begin, end))
            logging.info("\tComputing 4-D coalescence function...")
            event.add_compute_output(*self._compute(event.data, event))
        except (util.ArchiveEmptyException, util.DataGapException, util.DataAvailabilityException) as e:
            logging.info(e.msg)
            continue
        if self.write_coalescence:
            logging.info("\tSaving full coalescence map...")
            write_coalescence(self.run, event.map4d, event)
        if not event.in_marginal_window():
            continue
        event.trim2window()
        logging.info("\tDetermining event location and uncertainty...")
        marginal = self._calculate_location(event)
        if self.write_marginal_coalescence:
            logging.info("\tSaving marginalised coalescence map...")
            write_coalescence(self.run, marginal, event, marginalised=True)
        logging.info("\tMaking phase picks...")
        event, _ = self.picker.pick_phases(event, self.lut, self.run)
        if self.mags is not None:
            logging.info("\tCalculating magnitude...")
            event, _ = self.mags.calc_magnitude(event, self.lut, self.run)
        event.write(self.run, self.lut)
        if self.plot_event_summary:
            event_summary(self.run, event, marginal, self.lut, xy_files=self.xy_files, plot_all_stns=self.plot_all_stns)
        if self.plot_event_video:
            logging.info("Support for event videos coming soon.")
        if self.write_cut_waveforms:
            write_cut_waveforms(self.run, event, self.cut_waveform_format, pre_cut=self.pre_cut, post_cut=self.post_cut)
        if self.write_real_waveforms:
            write_cut_waveforms(self.run, event, self.cut_waveform_format, pre_cut=self.pre_cut, post_cut=self.post_cut, waveform_type="real", units=self.real_waveform_units)
        if self.write_wa_waveforms:
            write_cut_waveforms(self.run, event, self.cut_waveform_format, pre_cut=self.pre_cut, post_cut=self.post_cut, waveform_type="wa", units=self.wa_waveform_units)
        logging.info(util.log_spacer)


def scan(self, starttime, n_steps):
    store = ScanmSEED(self.run, self.continuous_scanmseed_write, self.scan_rate)
    self.onset.post_pad = self.lut.max_traveltime
    self.pre_pad, self.post_pad = self.onset.pad(self.timestep)
    cols = np.array([[f"{stat}_{ph}" for stat in self.archive.stations] for ph in self.onset.phases]).flatten()
    availability = pd.DataFrame(index=range(n_steps), columns=cols)
    for i in range(n_steps):
        begin = starttime + self.timestep * i - self.pre_pad
        end = starttime + self.timestep * (i + 1) - 1 / self.scan_rate + self.post_pad
        logging.info(f" Processing : {begin + self.pre_pad}-{end - self.post_pad} ".center(110, "~"))
        try:
            times, coa, coa_n, where, onset_data = self._compute(self.archive.read_waveform_data(begin, end))
            store.append(times, coa, coa_n, where, self.lut.unit_conversion_factor)
            availability.loc[i] = onset_data.availability
        except (util.ArchiveEmptyException, util.DataGapException, util.DataAvailabilityException) as e:
            store.empty(starttime, self.timestep, i, e.msg, self.lut.unit_conversion_factor)
            availability.loc[i] = np.zeros(len(cols), dtype=int)
        availability.rename(index={i: str(starttime + self.timestep * i)}, inplace=True)
    if not store.written:
        store.write()
    write_availability(self.run, availability)


def detect_log(self, starttime, endtime):
    self.run.stage = "detect"
    self.run.logger(self.log)


def locate_log(self, starttime=None, endtime=None, trigger_file=None):
    self.run.stage = "locate"
    self.run.logger(self.log)


def scan_init(self, archive, lut, onset, run_path, run_name, **kwargs):
    if not isinstance(onset, Onset):
        raise util.OnsetTypeError
    self.run = Run(run_path, run_name, kwargs.get("run_subname", ""), loglevel=kwargs.get("loglevel", "info"))
    self.log = kwargs.get("log", False)
    picker = kwargs.get("picker")
    if picker is not None and not isinstance(picker, PhasePicker):
        raise util.PickerTypeError
    mags = kwargs.get("mags")
    if mags is not None and not isinstance(mags, LocalMag):
        raise util.MagsTypeError
    self.plot_event_summary = kwargs.get("plot_event_summary", True)
    self.plot_all_stns = kwargs.get("plot_all_stns", True)
    self.xy_files = kwargs.get("xy_files")
    self.continuous_scanmseed_write = kwargs.get("continuous_scanmseed_write", False)
    self.write_cut_waveforms = kwargs.get("write_cut_waveforms", False)
    self.write_real_waveforms = kwargs.get("write_real_waveforms", False)
    self.real_waveform_units = kwargs.get("real_waveform_units", "displacement")
    self.write_wa_waveforms = kwargs.get("write_wa_waveforms", False)
    self.wa_waveform_units = kwargs.get("wa_waveform_units", "displacement")
    self.cut_waveform_format = kwargs.get("cut_waveform_format", "MSEED")
    self.write_marginal_coalescence = kwargs.get("write_marginal_coalescence", False)
    self.write_coalescence = kwargs.get("write_coalescence", False)
    self.pre_cut = None
    self.post_cut = None


def trigger_init(self, lut, run_path, run_name, **kwargs):
    self.run = Run(run_path, run_name, kwargs.get("trigger_name", ""), "trigger", loglevel=kwargs.get("loglevel", "info"))
    self.run.logger(kwargs.get("log", False))
    self.plot_trigger_summary = kwargs.get("plot_trigger_summary", True)
    self.xy_files = kwargs.get("xy_files")
    self.plot_all_stns = kwargs.get("plot_all_stns", True)
    self.write_event_time_windows = kwargs.get("write_event_time_windows", False)


def magnitude(self, event, lut, run):
    amps = self.amp.get_amplitudes(event, lut)
    if amps[self.mag.amp_feature].isnull().all():
        write_amplitudes(run, amps, event)
        event.add_local_magnitude(np.nan, np.nan, np.nan)
        return event, np.nan
    mags = self.mag.calculate_magnitudes(amps)
    write_amplitudes(run, mags, event)
    mag, err, r2, mags = self.mag.mean_magnitude(mags)
    event.add_local_magnitude(mag, err, r2)
    if self.plot and mag is not np.nan:
        self.mag.plot_amplitudes(mags, event, run, lut.unit_conversion_factor, self.amp.noise_measure)
    return event, mag
