"""Reference: which requests are refused, with which error, before anything is done (property C20)."""
import numpy as np
import pandas as pd
from obspy import UTCDateTime, read_inventory
from quakemigrate import util
from quakemigrate.io.availability import _handle_old_structure
from quakemigrate.signal.onsets import Onset
from quakemigrate.signal.pickers import PhasePicker
from quakemigrate.signal.local_mag import LocalMag


def detect(self, starttime, endtime):
    first, last = UTCDateTime(starttime), UTCDateTime(endtime)
    if first > last:
        raise util.TimeSpanException
    self._continuous_compute()


def locate(self, starttime=None, endtime=None, trigger_file=None):
    times = [starttime is not None, endtime is not None]
    if times == [False, False]:
        if trigger_file is None:
            raise RuntimeError("nothing to locate")
    elif times == [True, True]:
        if UTCDateTime(starttime) > UTCDateTime(endtime):
            raise util.TimeSpanException
    else:
        raise RuntimeError("both times or none")
    if trigger_file is not None:
        self._locate_events()
    else:
        self._locate_events()


def compute(self, data, event=None):
    onsets, onset_data = self.onset.calculate_onsets(data)
    try:
        self.lut.serve_traveltimes(onset_data.sampling_rate, onset_data.availability)
    except KeyError:
        raise util.LUTPhasesException("phases")


def min_event_interval(self, value):
    if value < 2 * self.marginal_window:
        raise ValueError("")
    self._min_event_interval = value


def threshold_method(self, value):
    if value in ("static", "mad", "median_ratio"):
        self._threshold_method = value
    elif value == "dynamic":
        self._threshold_method = "mad"
    else:
        raise util.InvalidTriggerThresholdMethodException


def pick_threshold(self, value):
    raise AttributeError("")


def halfwidth(self, phase):
    raise AttributeError("")


def stations(station_file, **kwargs):
    table = pd.read_csv(station_file, **kwargs)
    for column in ("Latitude", "Longitude", "Elevation", "Name"):
        if column not in table.columns:
            raise util.StationFileHeaderException
    table["Elevation"] = table["Elevation"].apply(lambda x: -1 * x)
    return table.astype({"Name": "str"})


def responses(response_file, sac_pz_format=False):
    if sac_pz_format:
        raise NotImplementedError("")
    try:
        inventory = read_inventory(response_file)
    except TypeError as e:
        raise TypeError("")
    return inventory


def velocities(vmodel_file, **kwargs):
    table = pd.read_csv(vmodel_file, **kwargs)
    if "Depth" not in table.columns:
        raise util.InvalidVelocityModelHeader("Depth")
    return table


def availability(run, starttime, endtime):
    out = None
    day = UTCDateTime(starttime.date)
    while day <= endtime:
        file = (run.path / "detect" / "availability" / f"{day.year}_{day.julday:03d}_StationAvailability").with_suffix(".csv")
        try:
            part = _handle_old_structure(file)
            if out is None:
                out = part
            else:
                out = pd.concat([out, part])
        except FileNotFoundError:
            pass
        day += 86400
    if out is None:
        raise util.NoStationAvailabilityDataException
    return out


def old_availability(availability_in_file, permanent_conversion=False):
    old = pd.read_csv(availability_in_file, index_col=0)
    names = [n.split("_") for n in old.columns]
    if len(names[0]) == 2:
        return old
    new = pd.DataFrame()
    for phase in ("P", "S"):
        for n in names:
            new[f"{n[0]}_{phase}"] = old[n[0]].values
    new.index = old.index
    if permanent_conversion:
        new.to_csv(availability_in_file)
    return new


# --- timing ----------------------------------------------------------------------------------------------------------
def untimed(f, a, k):
    return f(*a, **k)


def timed(f, a, k):
    return util.timeit("info")(f)(*a, **k)


def timed_plain(f, a, k):
    return util.timeit()(f)(*a, **k)
