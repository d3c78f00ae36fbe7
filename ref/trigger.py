"""Reference semantics of trigger and of its hand-off files (properties C08, C09)."""
from datetime import time
import logging
import numpy as np
import pandas as pd
from obspy import UTCDateTime
from scipy.ndimage import gaussian_filter1d
from quakemigrate import util
from quakemigrate.io import read_scanmseed, write_triggered_events
from quakemigrate.plot import trigger_summary

DAY = 86400


def trigger(self, starttime, endtime, region=None, interactive_plot=False):
    first, last = UTCDateTime(starttime), UTCDateTime(endtime)
    if first > last:
        raise util.TimeSpanException
    now = first
    while now < last:
        tomorrow = UTCDateTime(now.date) + DAY
        end = last
        if tomorrow <= last:
            end = tomorrow
        self._trigger_batch(now, end, region, interactive_plot)
        now = tomorrow


def batch(self, batchstart, batchend, region, interactive_plot):
    data, stats = read_scanmseed(self.run, batchstart, batchend, self.pad, self.lut.unit_conversion_factor)
    # a batch up to midnight ends with the last sample of the day
    end = batchend - stats.delta if batchend.time == time(0, 0) else batchend
    if self.smooth_coa:
        data = self._smooth_coa(data, stats.sampling_rate)
    if self.normalise_coalescence:
        series = "COA_N"
    else:
        series = "COA"
    threshold = self._get_threshold(data[series], stats.sampling_rate)
    candidates = self._identify_candidates(data, series, threshold)
    if not candidates.empty:
        merged = self._refine_candidates(candidates)
        events = self._filter_events(merged, batchstart, end, region)
        discarded = merged[~merged.index.isin(events.index)].dropna()
        write_triggered_events(self.run, events, batchstart, self.write_event_time_windows)
    else:
        events = candidates
        discarded = candidates
    if self.plot_trigger_summary:
        trigger_summary(events, batchstart, end, self.run, self.marginal_window, self.min_event_interval, threshold,
                        self._threshold_method_string(), self.normalise_coalescence, self.lut, data, region, discarded,
                        interactive=interactive_plot, xy_files=self.xy_files, plot_all_stns=self.plot_all_stns)


def smooth(self, data, sampling_rate):
    for name in ("COA", "COA_N"):
        data.loc[:, name] = gaussian_filter1d(data[name], self.smoothing_kernel_sigma * sampling_rate, truncate=self.smoothing_kernel_width)
    return data


def spread(values, n, length):
    return np.reshape(np.broadcast_to(values[:, None], (n, length)), np.prod((n, length)))


def chunks2trace(a, new_shape):
    return np.reshape(np.broadcast_to(a[:, None], new_shape), np.prod(new_shape))


def threshold(self, scandata, sampling_rate):
    if self.threshold_method not in ["mad", "median_ratio"]:
        return np.zeros_like(scandata) + self.static_threshold
    window = self.mad_window_length if self.threshold_method == "mad" else self.median_window_length
    idx = np.arange(len(scandata))
    pieces = np.split(scandata.values, idx[idx % int(window * sampling_rate) == 0][1:])
    shape = (len(pieces), len(pieces[0]))
    n = len(scandata)
    medians = chunks2trace(np.asarray([np.median(p) for p in pieces]), shape)[:n]
    if self.threshold_method == "mad":
        mads = chunks2trace(np.asarray([util.calculate_mad(p) for p in pieces]), shape)[:n]
        return medians + mads * self.mad_multiplier
    return medians * self.median_multiplier


def mad(x, scale=1.4826):
    x = np.asarray(x)
    if not x.size:
        return np.nan
    if np.isnan(np.sum(x)):
        return np.nan
    return scale * np.median(np.abs(x - np.apply_over_axes(np.median, x, 0)), axis=0)


def identify(self, scandata, trigger_on, threshold):
    above = scandata[scandata[trigger_on] >= threshold]
    runs = [g for _, g in above.groupby(above.index - np.arange(len(above)))]
    table = pd.DataFrame(columns=["EventNum", "CoaTime", "TRIG_COA", "COA_X", "COA_Y", "COA_Z", "MinTime", "MaxTime", "COA", "COA_NORM"])
    interval, mw = self.min_event_interval, self.marginal_window
    for n, g in enumerate(runs):
        p = g.loc[g["COA"].idxmax()]
        t = p["DT"]
        t0, t1 = g["DT"].iloc[0], g["DT"].iloc[-1]
        lo = t - interval if (t - t0) < mw else t0 - (interval - mw)
        hi = t + interval if (t1 - t) < mw else t1 + (interval - mw)
        row = pd.Series([n, t, p[trigger_on], p["X"], p["Y"], p["Z"], lo, hi, p["COA"], p["COA_N"]],
                        index=["EventNum", "CoaTime", "TRIG_COA", "COA_X", "COA_Y", "COA_Z", "MinTime", "MaxTime", "COA", "COA_NORM"])
        table = pd.concat([table if not table.empty else None, row.to_frame().T.convert_dtypes()], ignore_index=True)
    return table


def refine(self, candidate_events):
    number = 1
    for i, this in candidate_events.iterrows():
        candidate_events.loc[i, "EventNum"] = number
        if i + 1 == len(candidate_events):
            continue
        following = candidate_events.iloc[i + 1]
        if all([this["MaxTime"] < following["CoaTime"] - self.marginal_window,
                following["MinTime"] > this["CoaTime"] + self.marginal_window]):
            number += 1
    groups = [g for _, g in candidate_events.groupby(candidate_events["EventNum"])]
    table = pd.DataFrame(columns=["EventID", "CoaTime", "TRIG_COA", "COA_X", "COA_Y", "COA_Z", "MinTime", "MaxTime", "COA", "COA_NORM"])
    for _, g in enumerate(groups):
        row = g.loc[g["TRIG_COA"].idxmax()].copy()
        row["MinTime"] = g["MinTime"].min()
        row["MaxTime"] = g["MaxTime"].max()
        uid = str(row["CoaTime"])
        for ch in ["-", ":", ".", " ", "Z", "T"]:
            uid = uid.replace(ch, "")
        row["EventID"] = uid[:17].ljust(17, "0")
        table = pd.concat([table if not table.empty else None, row.to_frame().T.convert_dtypes()], ignore_index=True)
    return table


def select(self, events, starttime, endtime, region):
    t = events["CoaTime"]
    kept = events.loc[(t >= starttime) & (t <= endtime), :].copy()
    if region is not None:
        x, y, z = kept["COA_X"], kept["COA_Y"], kept["COA_Z"]
        kept = kept.loc[(x >= region[0]) & (y >= region[1]) & (z >= region[2])
                        & (x <= region[3]) & (y <= region[4]) & (z <= region[5]), :].copy()
    return kept


def day_file(run, day):
    name = f"{run.name}_{day.year}_{day.julday:03d}_TriggeredEvents"
    return (run.path / "trigger" / run.subname / "events" / name).with_suffix(".csv")


def write(run, events, starttime, write_event_time_windows):
    (run.path / "trigger" / run.subname / "events").mkdir(exist_ok=True, parents=True)
    cols = ["EventID", "CoaTime", "TRIG_COA", "COA_X", "COA_Y", "COA_Z", "COA", "COA_NORM"]
    if write_event_time_windows:
        cols = cols + ["MinTime", "MaxTime"]
    events.copy().loc[:, cols].to_csv(day_file(run, starttime), index=False)


def read(run, **kwargs):
    first, last, given = kwargs.get("starttime", None), kwargs.get("endtime", None), kwargs.get("trigger_file", None)
    if given is None:
        files = []
        day = UTCDateTime(first.date)
        while day <= last:
            if day_file(run, day).is_file():
                files.append(day_file(run, day))
            day += DAY
        if len(files) == 0:
            raise util.NoTriggerFilesFound
        table = pd.concat((pd.read_csv(f) for f in files), ignore_index=True)
    else:
        table = pd.read_csv(given)
    table["CoaTime"] = table["CoaTime"].apply(UTCDateTime)
    if first is not None and last is not None:
        t = table["CoaTime"]
        if last.time == time(0, 0):
            table = table[(t >= first) & (t < last)]
        else:
            table = table[(t >= first) & (t <= last)]
    return table.reset_index()


def locate(self, starttime=None, endtime=None, trigger_file=None):
    if trigger_file is None:
        self._locate_events(starttime=UTCDateTime(starttime), endtime=UTCDateTime(endtime))
    else:
        self._locate_events(trigger_file=trigger_file)


def parse(self, event_data):
    return {"TRIG_COA": event_data["TRIG_COA"], "DEC_COA": event_data["COA"], "DEC_COA_NORM": event_data["COA_NORM"]}


def event_init(self, marginal_window, triggered_event=None):
    self.marginal_window = marginal_window
    if triggered_event is not None:
        self.uid = triggered_event["EventID"]
        self.trigger_time = triggered_event["CoaTime"]
        self.trigger_info = self._parse_triggered_event(triggered_event)
