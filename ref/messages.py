"""Required descriptions and messages: what a run says about itself (property C23)."""
import logging
from datetime import time

import numpy as np
import pandas as pd
from obspy import UTCDateTime

import quakemigrate.util as util
from quakemigrate.io import read_scanmseed, write_triggered_events

RULE = "=" * 110


# --- descriptions of the components -----------------------------------------------------------------------------------
def run(self):
    return f"{RULE}\n{RULE}\n\tQuakeMigrate RUN - Path: {self.path} - Name: {self.name}\n{RULE}\n{RULE}\n"


def archive(self, response_only=False):
    if not self.response_inv:
        response = "\tNo instrument response inventory provided!\n"
    else:
        response = f"\tResponse removal parameters:\n\t\tWater level  = {self.water_level}\n"
        if self.pre_filt is not None:
            response += f"\t\tPre-filter   = {self.pre_filt} Hz\n"
        response += f"\t\tRemove full response (inc. FIR stages) = {self.remove_full_response}\n"
    if response_only:
        return response
    text = f"QuakeMigrate Archive object\n\tArchive path\t:\t{self.archive_path}\n\tPath structure\t:\t{self.format}\n\tResampling\t:\t{self.resample}"
    if self.upfactor:
        text += f"\n\tUpfactor\t:\t{self.upfactor}"
    text += "\n\tStations:"
    for station in self.stations:
        text += f"\n\t\t{station}"
    return text + f"\n{response}"


def table(self):
    low, *_, high = self.coord2grid(self.grid_corners, inverse=True)
    unit = self.unit_name
    text = "QuakeMigrate traveltime lookup table\nGrid parameters"
    text += f"\n\tLower-left corner  : {low[1]:10.5f}\u00b0N {low[0]:10.5f}\u00b0E {low[2]:10.3f} {unit:s}"
    text += f"\n\tUpper-right corner : {high[1]:10.5f}\u00b0N {high[0]:10.5f}\u00b0E {high[2]:10.3f} {unit:s}"
    text += f"\n\tNumber of nodes    : {self.node_count}\n\tNode spacing       : {self.node_spacing} {unit}\n\n"
    return text + "\tVelocity model:\n\t" + str(self.velocity_model).replace("\n", "\n\t")


def scan(self):
    text = f"\tScan parameters:\n\t\tScan sampling rate = {self.scan_rate} Hz\n\t\tThread count       = {self.threads}\n"
    if self.run.stage == "detect":
        return text + f"\t\tTime step          = {self.timestep} s\n"
    if self.run.stage == "locate":
        return text + f"\t\tMarginal window    = {self.marginal_window} s\n"
    return text


def trigger(self):
    text = f"\tTrigger parameters:\n\t\tPre/post pad = {self.pad} s\n\t\tMarginal window = {self.marginal_window} s\n\t\tMinimum event interval  = {self.min_event_interval} s\n\n"
    text += "\t\tTriggering from the " + ("normalised " if self.normalise_coalescence else "") + "maximum coalescence trace.\n\n"
    text += f"\t\tTrigger threshold method: {self.threshold_method}\n"
    if self.threshold_method == "static":
        text += f"\t\tStatic threshold = {self.static_threshold}\n\n"
    if self.threshold_method == "mad":
        text += f"\t\tMAD Window     = {self.mad_window_length}\n\t\tMAD Multiplier = {self.mad_multiplier}\n\n"
    if self.threshold_method == "median_ratio":
        text += f"\t\tMedian Window     = {self.median_window_length}\n\t\tMedian Multiplier = {self.median_multiplier}\n\n"
    if self.smooth_coa:
        text += ("\t\tApplying gaussian smoothing to the coalescence trace.\n"
                 f"\t\tGaussian kernel sigma = {self.smoothing_kernel_sigma} s\n\t\tGaussian kernel truncated at {self.smoothing_kernel_width} standard deviations.\n")
    return text


def onset(self):
    text = f"\tOnset parameters - using the {self.position} STA/LTA onset\n\t\tOnset function sampling rate = {self.sampling_rate} Hz\n\t\tPhase(s) = {self.phases}\n"
    for phase, corners in self.bandpass_filters.items():
        text += f"\n\t\t{phase} bandpass filter  = {corners} (Hz, Hz, -)"
    text += "\n"
    for phase, lengths in self.sta_lta_windows.items():
        text += f"\n\t\t{phase} onset [STA, LTA] = {lengths} (s, s)"
    return text + "\n"


def picker(self):
    text = "\tPhase picking by fitting a 1-D Gaussian to onsets\n"
    if self.threshold_method == "percentile":
        text += f"\t\tPercentile threshold  = {self.percentile_pick_threshold}\n"
    if self.threshold_method == "MAD":
        text += f"\t\tMAD multiplier  = {self.mad_pick_threshold}\n"
    if self._fraction_tt is not None:
        text += f"\t\tSearch window   = {self._fraction_tt * 100}% of traveltime\n"
    return text


def amplitude(self):
    text = (f"\t    Amplitude parameters:\n\t\tSignal window    = {self.signal_window} s\n\t\tNoise window     = {self.noise_window} s\n"
            f"\t\tNoise measure    = {self.noise_measure}\n\t\tLocation used    = {self.loc_method}\n")
    if self.prominence_multiplier != 0.0:
        text += f"\t\tProminence multiplier = {self.prominence_multiplier}\n"
    if self.highpass_filter:
        text += f"\t\tHighpass filter: \n\t\t    Filter frequency = {self.highpass_freq} Hz\n\t\t    Filter corners   = {self.filter_corners}\n"
    elif self.bandpass_filter:
        text += (f"\t\tBandpass filter: \n\t\t    Lowcut frequency  = {self.bandpass_lowcut} Hz\n"
                 f"\t\t    Highcut frequency = {self.bandpass_highcut} Hz\n\t\t    Filter corners    = {self.filter_corners}\n")
    return text


def magnitude(self):
    text = f"\t    Magnitude parameters:\n\t\tA0 attenuation function = {self.A0}\n\t\tUse hyp distance        = {self.use_hyp_dist}\n\t\tAmplitude feature       = {self.amp_feature}\n"
    if self.station_corrections:
        text += "\t\tUsing user-provided station corrections\n"
    text += f"\t\tAmplitude multiplier    = {self.amp_multiplier}\n\t\tUse weighted mean       = {self.weighted_mean}\n"
    if self.trace_filter is not None:
        text += f"\t\tTrace filter            = {self.trace_filter}\n"
    text += f"\t\tNoise filter            = {self.noise_filter} x\n"
    if self.station_filter is not None:
        text += f"\t\tStation filter          = {self.station_filter}\n"
    if self.dist_filter:
        text += f"\t\tDistance filter         = {self.dist_filter} km\n"
    if self.pick_filter:
        text += "\t\tUsing only Amplitudes from picked traces.\n"
    return text


def local_magnitudes(self):
    return "\tCalculating local magnitudes from Wood-Anderson corrected amplitude observations\n" + str(self.amp) + str(self.mag)


# --- what the stages say ----------------------------------------------------------------------------------------------
def detect(self, starttime, endtime):
    self.run.stage = "detect"
    self.run.logger(self.log)
    first, last = UTCDateTime(starttime), UTCDateTime(endtime)
    if first > last:
        raise util.TimeSpanException
    if last.time == time(0, 0):
        last -= 1 / self.scan_rate
    steps = int(np.ceil((last - first) / self.timestep))
    done = first + steps * self.timestep - 1 / self.scan_rate
    if done - last > 1 / self.scan_rate:
        logging.info(f"Warning: chosen run duration {last - first} s is not divisible by the specified timestep {self.timestep} s. Detect will instead compute up to {done}\n")
    logging.info(RULE)
    logging.info("\tDETECT - Continuous coalescence scan")
    logging.info(RULE)
    logging.info(f"\n\tScanning from {first} to {done}\n")
    logging.info(self)
    logging.info(self.onset)
    logging.info(RULE)
    self._continuous_compute(first, steps)
    logging.info(RULE)


def locate(self, starttime=None, endtime=None, trigger_file=None):
    self.run.stage = "locate"
    self.run.logger(self.log)
    if trigger_file is None and starttime is None and endtime is None:
        raise RuntimeError("nothing to locate")
    if (starttime is None) != (endtime is None):
        raise RuntimeError("half a period")
    first, last = starttime, endtime
    if starttime is not None:
        first, last = UTCDateTime(starttime), UTCDateTime(endtime)
        if first > last:
            raise util.TimeSpanException
    logging.info(RULE)
    logging.info("\tLOCATE - Determining event location and uncertainty")
    logging.info(RULE)
    if trigger_file is None:
        logging.info(f"\n\tLocating events from {first} to {last}\n")
    else:
        logging.info(f"\n\tLocating events in {trigger_file}")
    logging.info(self)
    logging.info(self.onset)
    logging.info(self.picker)
    if self.mags is not None:
        logging.info(self.archive.__str__(response_only=True))
        logging.info(self.mags)
    logging.info(RULE)
    if trigger_file is None:
        self._locate_events(starttime=first, endtime=last)
    else:
        self._locate_events(trigger_file=trigger_file)
    logging.info(RULE)


def trigger_run(self, starttime, endtime, region=None, interactive_plot=False):
    self.run.logger(self.log)
    first, last = UTCDateTime(starttime), UTCDateTime(endtime)
    if first > last:
        raise util.TimeSpanException
    logging.info(RULE)
    logging.info("\tTRIGGER - Triggering events from .scanmseed")
    logging.info(RULE)
    logging.info(f"\n\tTriggering events from {first} to {last}\n")
    logging.info(self)
    logging.info(RULE)
    now = first
    while now < last:
        following = UTCDateTime(now.date) + 86400
        self._trigger_batch(now, following if following <= last else last, region, interactive_plot)
        now = following
    logging.info(RULE)


def batch(self, batchstart, batchend, region, interactive_plot):
    logging.info("\tReading in .scanmseed...")
    data, stats = read_scanmseed(self.run, batchstart, batchend, self.pad, self.lut.unit_conversion_factor)
    if batchend.time == time(0, 0):
        batchend -= stats.delta
    if self.smooth_coa:
        data = self._smooth_coa(data, stats.sampling_rate)
    series = "COA_N" if self.normalise_coalescence else "COA"
    logging.info("\n\tTriggering events...")
    threshold = self._get_threshold(data[series], stats.sampling_rate)
    candidates = self._identify_candidates(data, series, threshold)
    if candidates.empty:
        logging.info("\tNo events triggered at this threshold - try a lower detection threshold.")
    else:
        events = self._filter_events(self._refine_candidates(candidates), batchstart, batchend, region)
        logging.info(f"\n\t\t{len(events)} event(s) triggered within the specified region between {batchstart} \n\t\tand {batchend}")
        logging.info("\n\tWriting triggered events to file...")
        write_triggered_events(self.run, events, batchstart, self.write_event_time_windows)
    if self.plot_trigger_summary:
        logging.info("\n\tPlotting trigger summary...")


def in_window(self):
    inside = self.otime - self.marginal_window < self.trigger_time < self.otime + self.marginal_window
    if not inside:
        logging.info(f"\tEvent {self.uid} is outside marginal window.")
        logging.info("\tDefine more realistic error - the marginal window should be an estimate of overall uncertainty")
        logging.info("\tdetermined from expected spatial uncertainty and uncertainty in the seismic velocity model.\n")
        logging.info(RULE)
    return inside


def missing_day(stats, starttime, endtime, readstart, readend):
    if stats.starttime > starttime:
        logging.info("\n\t    Warning! .scanmseed starttime is later than trigger() starttime!")
    elif stats.starttime > readstart:
        logging.info("\t    Warning! No .scanmseed data found for pre-pad!")
    if stats.endtime < endtime:
        logging.info("\n\t    Warning! .scanmseed endtime is before trigger() endtime!")
    elif stats.endtime < readend:
        logging.info("\t    Warning! No .scanmseed data found for post-pad!")
    logging.info(f"\t    ...from {stats.starttime} - {stats.endtime}.")


def read_series(run, starttime, endtime, pad, ucf):
    from obspy import Stream, read

    first, last = starttime - pad, endtime + pad
    day = UTCDateTime(first.date)
    found = Stream()
    n = 0
    while day + (n * 86400) <= last:
        now = first + (n * 86400)
        name = f"{now.year}_{now.julday:03d}"
        try:
            found += read(str((run.path / "detect" / "scanmseed" / name).with_suffix(".scanmseed")), starttime=first, endtime=last, format="MSEED")
        except FileNotFoundError:
            logging.info(f"\n\t    No .scanmseed file found for day {name}!")
        n += 1
    if not bool(found):
        raise util.NoScanMseedDataException
    found.merge(method=-1)
    missing_day(found.select(station="COA")[0].stats, starttime, endtime, first, last)


def read_events(run, **kwargs):
    first, last, given = kwargs.get("starttime", None), kwargs.get("endtime", None), kwargs.get("trigger_file", None)
    if given is None:
        files = []
        day = UTCDateTime(first.date)
        while day <= last:
            name = f"{run.name}_{day.year}_{day.julday:03d}"
            file = (run.path / "trigger" / run.subname / "events" / f"{name}_TriggeredEvents").with_suffix(".csv")
            if file.is_file():
                files.append(file)
            else:
                logging.info(f"\n\t    Cannot find file: {name}")
            day += 86400
        if len(files) == 0:
            raise util.NoTriggerFilesFound
        table = pd.concat((pd.read_csv(f) for f in files), ignore_index=True)
    else:
        table = pd.read_csv(given)
    table["CoaTime"] = table["CoaTime"].apply(UTCDateTime)
    if first is not None and last is not None:
        t = table["CoaTime"]
        if last.time == time(0, 0):
            table = table[(t >= first) & (t < last)]
        else:
            table = table[(t >= first) & (t <= last)]
    if len(table) == 0:
        logging.info("\n\t    No triggered events found! Check your trigger output files.\n")


def empty_step(self, starttime, timestep, i, msg, ucf):
    logging.info(msg)


def wrapped(func, level):
    """the timing of a function neither changes what it is given nor what it returns or raises"""

    def wrapper(*args, **kwargs):
        return func(*args, **kwargs)

    return wrapper


# --- errors -----------------------------------------------------------------------------------------------------------
def nyquist(self, freqmax, f_nyquist, tr_id):
    super().__init__(f"    Selected bandpass_highcut {freqmax} Hz is at or above the Nyquist frequency ({f_nyquist} Hz) for trace {tr_id}. ")


def order(self, event_uid, station, p_pick, s_pick):
    super().__init__(
        "The P-phase arrival-time pick is later than the S-phase arrival pick! Something has gone wrong.\n"
        f"Event: {event_uid}, station: {station}, p_pick: {p_pick}, s_pick: {s_pick}. There is probably a bug with the picker.")


def response_problem(self, e, tr_id):
    super().__init__(f"{e} -- skipping {tr_id}")


def header(self, key):
    super().__init__(f"Must include at least '{key}' in header.")


def structure(self, archive_format):
    super().__init__(
        f"The archive path structure you have selected: '{archive_format}' is not a valid option! See the documentation for 'quakemigrate.data.Archive.path_structure' "
        "for a complete list, or specify a custom format with 'Archive.format = custom/archive_{year}_{jday}/{day:02d}.{station}_structure'.")


def channel_name(self, trace):
    super().__init__(
        "Channel name header does not conform to\nthe IRIS SEED standard - 3 characters; ending in 'Z' for\nvertical and ending either 'E' & 'N' or '1' & '2' for\n"
        f"horizontal components.\n    Working on trace: {trace}")


def upfactor(self, trace):
    super().__init__(f"Chosen upfactor cannot be decimated to\ntarget sampling rate.\n    Working on trace: {trace}")


def no_peak(self, pick_threshold):
    self.msg = f"\t\t    No onset signal exceeding pick threshold ({pick_threshold:5.3f}) - continuing."
    super().__init__(self.msg)


def no_amplitude(self, err):
    self.msg = err
    super().__init__(err)


def no_files(self):
    super().__init__("No data was available for this timestep.")
    self.msg = "\t\tNo files found in archive for this time period."


def unusable(self):
    super().__init__("All data for this timestep did not pass the specified data quality criteria.")
    self.msg = (
        "\t\tAll data for this timestep failed to pass the\n\t\tspecified data quality criteria. This includes the\n"
        "\t\tpresence of gaps or overlaps, or the data not\n\t\tspanning the full time window.")


def no_data(self):
    self.msg = "\t\tNo data for the selected stations was found in the\n\t\tarchive for this time window."
