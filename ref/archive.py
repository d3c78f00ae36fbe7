"""Reference semantics of archive reading, merging, resampling and availability (property C18)."""
import logging
import pathlib
import warnings
from itertools import chain

import numpy as np
from obspy import Stream, Trace, UTCDateTime, read

import quakemigrate.util as util
from quakemigrate.io.data import WaveformData

LAYOUTS = {
    "YEAR/JD/*_STATION_*": "{year}/{jday:03d}/*_{station}_*",
    "YEAR/JD/STATION": "{year}/{jday:03d}/{station}*",
    "STATION.YEAR.JULIANDAY": "*{station}.*.{year}.{jday:03d}",
    "/STATION/STATION.YearMonthDay": "{station}/{station}.{year}{month:02d}{day:02d}",
    "YEAR_JD/STATION*": "{year}_{jday:03d}/{station}*",
    "YEAR_JD/STATION_*": "{year}_{jday:03d}/{station}_*",
}


def archive(self, archive_path, stations, archive_format=None, **kwargs):
    self.archive_path = pathlib.Path(archive_path)
    self.stations = stations["Name"]
    if archive_format:
        self.path_structure(archive_format, kwargs.get("channels", "*"))
    else:
        self.format = kwargs.get("format")
    self.read_all_stations = kwargs.get("read_all_stations", False)
    self.resample = kwargs.get("resample", False)
    self.upfactor = kwargs.get("upfactor")
    self.interpolate = kwargs.get("interpolate", False)
    self.response_inv = kwargs.get("response_inv")
    removal = kwargs.get("response_removal_params", {})
    self.water_level = removal.get("water_level", 60.0)
    self.pre_filt = removal.get("pre_filt")
    self.remove_full_response = removal.get("remove_full_response", False)


def layout(self, archive_format="YEAR/JD/STATION", channels="*"):
    if archive_format == "SeisComp3":
        self.format = "{year}/*/{station}/" + channels + "/*.{station}.*.*.D.{year}.{jday:03d}"
    elif archive_format == "YEAR/JD/*_STATION_*":
        self.format = LAYOUTS["YEAR/JD/*_STATION_*"]
    elif archive_format == "YEAR/JD/STATION":
        self.format = LAYOUTS["YEAR/JD/STATION"]
    elif archive_format == "STATION.YEAR.JULIANDAY":
        self.format = LAYOUTS["STATION.YEAR.JULIANDAY"]
    elif archive_format == "/STATION/STATION.YearMonthDay":
        self.format = LAYOUTS["/STATION/STATION.YearMonthDay"]
    elif archive_format == "YEAR_JD/STATION*":
        self.format = LAYOUTS["YEAR_JD/STATION*"]
    elif archive_format == "YEAR_JD/STATION_*":
        self.format = LAYOUTS["YEAR_JD/STATION_*"]
    else:
        raise util.ArchivePathStructureError(archive_format)


def files(self, starttime, endtime):
    if self.format is None:
        raise util.ArchiveFormatException
    out = []
    day = UTCDateTime(starttime.date)
    while day <= endtime:
        name = self.format.format(year=day.year, month=day.month, day=day.day, jday=day.julday, station="{station}", dtime=day)
        if self.read_all_stations is True:
            out = chain(out, self.archive_path.glob(name.format(station="*").replace("**", "*")))
        else:
            for station in self.stations:
                out = chain(out, self.archive_path.glob(name.format(station=station)))
        day += 86400
    return out


def waveforms(self, starttime, endtime, pre_pad=0.0, post_pad=0.0):
    pre_pad = max(0.0, pre_pad)
    post_pad = max(0.0, post_pad)
    data = WaveformData(
        starttime=starttime, endtime=endtime, stations=self.stations, read_all_stations=self.read_all_stations, resample=self.resample, upfactor=self.upfactor,
        response_inv=self.response_inv, water_level=self.water_level, pre_filt=self.pre_filt, remove_full_response=self.remove_full_response, pre_pad=pre_pad, post_pad=post_pad,
    )
    found = self._load_from_path(starttime - pre_pad, endtime + post_pad)
    st = Stream()
    try:
        one = next(found)
        for file in chain([one], found):
            try:
                st += read(str(file), starttime=starttime - pre_pad, endtime=endtime + post_pad, nearest_sample=True)
            except TypeError:
                continue
        st = util.merge_stream(st)
        data.raw_waveforms = st.copy()
        st = util.shift_to_sample(st, interpolate=self.interpolate)
        if self.read_all_stations:
            mine = Stream()
            for station in self.stations:
                mine += st.select(station=station)
            st = mine.copy()
        if pre_pad != 0.0 or post_pad != 0.0:
            for tr in st:
                tr.trim(starttime=starttime, endtime=endtime, nearest_sample=True)
                if not bool(tr):
                    st.remove(tr)
        if not bool(st):
            raise util.DataGapException
        data.waveforms = st
    except StopIteration:
        raise util.ArchiveEmptyException
    return data


def waveform_data(self, starttime, endtime, stations=None, response_inv=None, water_level=60.0, pre_filt=None, remove_full_response=False, read_all_stations=False,
                  resample=False, upfactor=None, pre_pad=0.0, post_pad=0.0):
    self.starttime = starttime
    self.endtime = endtime
    self.stations = stations
    self.response_inv = response_inv
    self.water_level = water_level
    self.pre_filt = pre_filt
    self.remove_full_response = remove_full_response
    self.read_all_stations = read_all_stations
    self.resample = resample
    self.upfactor = upfactor
    self.pre_pad = pre_pad
    self.post_pad = post_pad
    self.raw_waveforms = None
    self.waveforms = Stream()
    self.wa_waveforms = None
    self.real_waveforms = None


def availability(self, st, all_channels=False, n_channels=None, allow_gaps=False, full_timespan=True, check_sampling_rate=False, sampling_rate=None, check_start_end_times=False):
    each = {}
    available = 0
    if bool(st):
        for name in sorted(set([tr.id for tr in st])):
            ch = st.select(id=name)
            each[name] = 0
            if any(tr.data.max() == tr.data.min() for tr in ch):
                continue
            if len(ch.get_gaps(max_gap=-0.000001)) != 0:
                continue
            if not allow_gaps:
                if len(ch.get_gaps()) != 0:
                    continue
            if check_sampling_rate:
                if not sampling_rate:
                    raise TypeError("")
                if any(tr.stats.sampling_rate != sampling_rate for tr in ch):
                    continue
            if full_timespan:
                if len(ch) > 1:
                    continue
                if ch[0].stats.npts < round((self.endtime - self.starttime) * ch[0].stats.sampling_rate, 6) + 1:
                    continue
            if check_start_end_times:
                if len(ch) > 1:
                    continue
                if ch[0].stats.starttime != self.starttime or ch[0].stats.endtime != self.endtime:
                    continue
            each[name] = 1
        if all(a == 1 for a in each.values()):
            if all_channels:
                if not n_channels:
                    raise TypeError("")
                if len(each) == n_channels:
                    available = 1
            else:
                available = 1
        elif not all_channels and any(a == 1 for a in each.values()):
            available = 1
    return available, each


def on_sample(stream, interpolate=False):
    stream = stream.copy()
    for tr in stream:
        late = tr.stats.starttime.microsecond % (1e6 / tr.stats.sampling_rate)
        if late == 0:
            if tr.stats.sampling_rate < 1.0:
                logging.warning(f"Trace\n\t{tr}\nhas a sampling rate less than 1 Hz, so off-sample data might not be corrected!")
            continue
        shift = round(late / 1e6 * tr.stats.sampling_rate) / tr.stats.sampling_rate - late / 1e6
        if not interpolate:
            logging.info(f"Trace\n\t{tr}\nhas off-sample data. Applying {shift:+f} s shift to timing.")
            tr.stats.starttime += shift
        else:
            logging.info(f"Trace\n\t{tr}\nhas off-sample data. Interpolating to apply a {shift:+f} s shift to timing.")
            start = tr.stats.starttime + shift
            if shift < 0.0:
                start += tr.stats.delta
            tr.interpolate(sampling_rate=tr.stats.sampling_rate, method="lanczos", a=20, starttime=start)
            if shift > 0.0:
                tr.data = np.append(tr.data, tr.data[-1])
            else:
                tr.data = np.append(tr.data[0], tr.data)
                tr.stats.starttime -= tr.stats.delta
    return stream


def resample(stream, sampling_rate, resample, upfactor, starttime, endtime):
    stream = stream.copy()
    for trace in stream:
        rate = trace.stats.sampling_rate
        if sampling_rate == rate:
            continue
        if (rate % sampling_rate) == 0:
            stream.remove(trace)
            stream += util.decimate(trace, sampling_rate)
        elif resample and upfactor is not None:
            if int(rate * upfactor) % sampling_rate != 0:
                raise util.BadUpfactorException(trace)
            stream.remove(trace)
            stream += util.decimate(util.upsample(trace, upfactor, starttime, endtime), sampling_rate)
        else:
            logging.info(f"Mismatched sampling rates - cannot decimate data from\n\t{trace}\n...to resample data, set resample = True and choose a suitable upfactor")
    stream.trim(starttime=starttime - 0.00001, endtime=endtime + 0.00001, nearest_sample=False)
    return stream


def decimate(trace, sampling_rate):
    trace = trace.copy()
    trace.detrend("linear")
    trace.detrend("demean")
    trace.taper(type="cosine", max_percentage=0.05)
    trace.filter("lowpass", freq=float(sampling_rate) / 2.000001, corners=2, zerophase=True)
    trace.decimate(factor=int(trace.stats.sampling_rate / sampling_rate), strict_length=False, no_filter=True)
    return trace


def upsample(trace, upfactor, starttime, endtime):
    data = trace.data
    fine = np.zeros((len(data) - 1) * upfactor + 1)
    fine[::upfactor] = data
    for i in range(1, upfactor):
        fine[i::upfactor] = float(i) / upfactor * data[1:] + float(upfactor - i) / upfactor * data[:-1]
    start = trace.stats.starttime
    if 0.0 < trace.stats.starttime - starttime < trace.stats.delta:
        n = np.round((trace.stats.starttime - starttime) * trace.stats.sampling_rate * upfactor)
        fine = np.append(np.full(int(n), trace.data[0]), fine)
        start = trace.stats.starttime - n / (trace.stats.sampling_rate * upfactor)
    if 0.0 < endtime - trace.stats.endtime < trace.stats.delta:
        n = np.round((endtime - trace.stats.endtime) * trace.stats.sampling_rate * upfactor)
        fine = np.append(fine, np.full(int(n), trace.data[-1]))
    out = Trace()
    out.data = fine
    out.stats = trace.stats.copy()
    out.stats.npts = len(out.data)
    out.stats.starttime = start
    out.stats.sampling_rate = int(upfactor * trace.stats.sampling_rate)
    out.trim(starttime=starttime - 0.00001, endtime=endtime + 0.00001, nearest_sample=False)
    return out


def merged(stream):
    stream = stream.copy()
    out = Stream()
    with warnings.catch_warnings():
        warnings.filterwarnings("error")
        for name in set([tr.id for tr in stream]):
            try:
                out += stream.select(id=name).merge(method=-1)
            except UserWarning as e:
                logging.info(f"\t\t{e}")
                logging.info(f"\t\t{stream.select(id=name)}")
                logging.info("\t\tThis channel will not be used for onset calculation.")
    return out


