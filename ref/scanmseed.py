"""Reference semantics of the coalescence store (properties C01, C03, C19)."""
import numpy as np
import pandas as pd
from obspy import Stream, Trace, UTCDateTime, read
from obspy.io.mseed import InternalMSEEDError
from quakemigrate import util
import logging

LIMIT = 21474.0


def init(self, run, continuous_write, sampling_rate):
    self.run = run
    self.continuous_write = continuous_write
    self.sampling_rate = sampling_rate
    self.written = False
    self.stream = Stream()


def unit_conversion_factor(self):
    return self.grid_proj.crs.axis_info[0].unit_conversion_factor


def append(self, starttime, max_coa, max_coa_n, coord, ucf):
    max_coa[max_coa > LIMIT] = LIMIT
    max_coa_n[max_coa_n > LIMIT] = LIMIT
    for name, series, factor in (
        ("COA", max_coa, 1e5),
        ("COA_N", max_coa_n, 1e5),
        ("X", coord[:, 0], 1e6),
        ("Y", coord[:, 1], 1e6),
        ("Z", coord[:, 2], 1e3 * ucf),
    ):
        self.stream += Trace(
            data=np.round(series * factor).astype(np.int32),
            header={"station": name, "network": "NW", "npts": len(max_coa),
                    "sampling_rate": self.sampling_rate, "starttime": starttime},
        )
    self.stream.merge(method=-1)
    self.written = False
    stats = self.stream[0].stats
    midnight = UTCDateTime(stats.endtime.date)
    if stats.endtime == UTCDateTime(stats.starttime.date) + 86400 - stats.delta:
        self.write()
        self.stream = Stream()
    elif stats.starttime.julday != stats.endtime.julday:
        self.write(stats.starttime, midnight - stats.delta)
        self.stream.trim(starttime=midnight - stats.delta + stats.delta)
        self.written = False
    if self.continuous_write and not self.written:
        self.write()


def empty(self, starttime, timestep, i, msg, ucf):
    n = util.time2sample(timestep, self.sampling_rate)
    zeros = np.full(n, 0)
    self.append(starttime + timestep * i, zeros, zeros, np.full((n, 3), 0), ucf)


def write(self, write_start=None, write_end=None):
    fpath = self.run.path / "detect" / "scanmseed"
    fpath.mkdir(exist_ok=True, parents=True)
    if write_start is not None and write_end is not None:
        st = self.stream.slice(starttime=write_start, endtime=write_end)
    else:
        st = self.stream
    first = st[0].stats.starttime
    file = (fpath / f"{first.year}_{first.julday:03d}").with_suffix(".scanmseed")
    try:
        st.write(str(file), format="MSEED", encoding="STEIM2")
    except InternalMSEEDError:
        st.write(str(file), format="MSEED", encoding="STEIM1")
    self.written = True


def read_scanmseed(run, starttime, endtime, pad, ucf):
    first, last = starttime - pad, endtime + pad
    day0 = UTCDateTime(first.date)
    found = Stream()
    dy = 0
    while day0 + (dy * 86400) <= last:
        now = first + (dy * 86400)
        file = (run.path / "detect" / "scanmseed" / f"{now.year}_{now.julday:03d}").with_suffix(".scanmseed")
        try:
            found += read(str(file), starttime=first, endtime=last, format="MSEED")
        except FileNotFoundError:
            logging.info("missing")
        dy += 1
    if not bool(found):
        raise util.NoScanMseedDataException
    found.merge(method=-1)
    stats = found.select(station="COA")[0].stats
    data = pd.DataFrame()
    data["DT"] = found[0].times(type="utcdatetime")
    data["COA"] = found.select(station="COA")[0].data / 1e5
    data["COA_N"] = found.select(station="COA_N")[0].data / 1e5
    data["X"] = found.select(station="X")[0].data / 1e6
    data["Y"] = found.select(station="Y")[0].data / 1e6
    data["Z"] = found.select(station="Z")[0].data / (1e3 * ucf)
    return data, stats
