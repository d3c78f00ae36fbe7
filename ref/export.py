"""Reference semantics of output tables and exporters (property C15)."""
import pathlib
from itertools import chain

import numpy as np
import pandas as pd
from obspy import Catalog, Stream, UTCDateTime, __version__, read
from obspy.core import AttribDict
from obspy.core.event import (
    Amplitude, ConfidenceEllipsoid, CreationInfo, Event, Magnitude, Origin, OriginUncertainty, Pick, StationMagnitude,
    TimeWindow, WaveformStreamID,
)
from obspy.geodetics import gps2dist_azimuth, kilometer2degrees

import quakemigrate
import quakemigrate.util as util
from quakemigrate.export.to_obspy import _read_single_event
from quakemigrate.io.cut_waveforms import get_waveforms, write_waveforms


ns = "http://quakemigrate.github.io/xmlns/event"
cmpaz = {"N": 0, "Z": 0, "E": 90}
cmpinc = {"N": 90, "Z": 0, "E": 90}
ONSETS_REVERSE = {"impulsive": "i", "emergent": "e"}
POLARITIES_REVERSE = {"positive": "u", "negative": "d"}


# --- catalogue --------------------------------------------------------------------------------------------------------
def catalogue(run_dir, units, run_subname="", local_mag_ph="S"):
    stage = pathlib.Path(run_dir) / "locate" / run_subname
    folder = stage / "events"
    files = []
    if folder.is_dir():
        try:
            files = folder.glob("*.event")
            one = next(files)
            files = chain([one], files)
        except StopIteration:
            pass
    cat = Catalog()
    for f in files:
        event = _read_single_event(f, stage, units, local_mag_ph)
        if event is not None:
            cat.append(event)
    cat.creation_info.creation_time = UTCDateTime()
    cat.creation_info.version = f"ObsPy {__version__}"
    return cat


def tagged(value):
    return {"value": value, "namespace": ns}


def single(event_file, locate_dir, units, local_mag_ph):
    row = pd.read_csv(event_file).iloc[0]
    uid = str(row["EventID"])
    if units == "km":
        metres = 1e3
    elif units == "m":
        metres = 1
    else:
        raise AttributeError("")
    event = Event()
    event.extra = AttribDict()
    event.resource_id = uid
    event.creation_info = CreationInfo(author="QuakeMigrate", version=quakemigrate.__version__)
    event.extra.coa = tagged(row["COA"])
    event.extra.coa_norm = tagged(row["COA_NORM"])
    event.extra.trig_coa = tagged(row["TRIG_COA"])
    event.extra.dec_coa = tagged(row["DEC_COA"])
    event.extra.dec_coa_norm = tagged(row["DEC_COA_NORM"])
    event.extra.cut_waveforms_file = tagged(str((locate_dir / "raw_cut_waveforms" / uid).with_suffix(".m").resolve()))
    if (locate_dir / "real_cut_waveforms").exists():
        event.extra.real_cut_waveforms_file = tagged(str((locate_dir / "real_cut_waveforms" / uid).with_suffix(".m").resolve()))
    if (locate_dir / "wa_cut_waveforms").exists():
        event.extra.wa_cut_waveforms_file = tagged(str((locate_dir / "wa_cut_waveforms" / uid).with_suffix(".m").resolve()))

    time = UTCDateTime(row["DT"])
    origin = Origin()
    origin.method_id = "spline"
    origin.longitude = row["X"]
    origin.latitude = row["Y"]
    origin.depth = row["Z"] * metres
    origin.time = time
    event.origins = [origin]
    event.preferred_origin_id = origin.resource_id
    origin = Origin()
    origin.method_id = "gaussian"
    origin.longitude = row["GAU_X"]
    origin.latitude = row["GAU_Y"]
    origin.depth = row["GAU_Z"] * metres
    origin.time = time
    event.origins.append(origin)

    volume = OriginUncertainty()
    axes = ConfidenceEllipsoid()
    axes.semi_major_axis_length = row["COV_ErrY"] * metres
    axes.semi_intermediate_axis_length = row["COV_ErrX"] * metres
    axes.semi_minor_axis_length = row["COV_ErrZ"] * metres
    axes.major_axis_plunge = 0
    axes.major_axis_azimuth = 0
    axes.major_axis_rotation = 0
    volume.confidence_ellipsoid = axes
    volume.preferred_description = "confidence ellipsoid"
    for origin in event.origins:
        origin.longitude_errors.uncertainty = kilometer2degrees(row["GAU_ErrX"] * metres / 1000)
        origin.latitude_errors.uncertainty = kilometer2degrees(row["GAU_ErrY"] * metres / 1000)
        origin.depth_errors.uncertainty = row["GAU_ErrZ"] * metres
        origin.origin_uncertainty = volume
    for origin in event.origins:
        origin.origin_type = "hypocenter"
        origin.evaluation_mode = "automatic"

    file = (locate_dir / "picks" / uid).with_suffix(".picks")
    if not file.is_file():
        return None
    picks = pd.read_csv(file)
    for _, line in picks.iterrows():
        station = str(line["Station"])
        phase = str(line["Phase"])
        wid = WaveformStreamID(network_code="", station_code=station)
        for method in ["modelled", "autopick"]:
            pick = Pick()
            pick.extra = AttribDict()
            pick.waveform_id = wid
            pick.method_id = method
            pick.phase_hint = phase
            if method == "modelled":
                pick.time = UTCDateTime(line["ModelledTime"])
            elif str(line["PickTime"]) == "-1":
                continue
            else:
                pick.time = UTCDateTime(line["PickTime"])
                pick.time_errors.uncertainty = float(line["PickError"])
                pick.extra.snr = tagged(float(line["SNR"]))
            event.picks.append(pick)

    file = (locate_dir / "amplitudes" / uid).with_suffix(".amps")
    if file.is_file():
        amps = pd.read_csv(file)
        n = 0
        for _, line in amps.iterrows():
            wid = WaveformStreamID(seed_string=line["id"])
            noise = line["Noise_amp"] / 1000
            for phase in ["P_amp", "S_amp"]:
                amp = Amplitude()
                if pd.isna(line[phase]):
                    continue
                amp.generic_amplitude = line[phase] / 1000
                amp.generic_amplitude_errors.uncertainty = noise
                amp.unit = "m"
                amp.type = "AML"
                amp.method_id = phase
                amp.period = 1 / line[f"{phase[0]}_freq"]
                amp.time_window = TimeWindow(reference=UTCDateTime(line[f"{phase[0]}_time"]))
                amp.waveform_id = wid
                amp.magnitude_hint = "ML"
                amp.evaluation_mode = "automatic"
                amp.extra = AttribDict()
                try:
                    amp.extra.filter_gain = tagged(line[f"{phase[0]}_filter_gain"])
                    amp.extra.avg_amp = tagged(line[f"{phase[0]}_avg_amp"] / 1000)
                except KeyError:
                    pass
                if phase[0] == local_mag_ph and not pd.isna(line["ML"]):
                    n += 1
                    m = StationMagnitude()
                    m.extra = AttribDict()
                    m.mag = line["ML"]
                    m.mag_errors.uncertainty = line["ML_Err"]
                    m.station_magnitude_type = "ML"
                    m.amplitude_id = amp.resource_id
                    m.extra.picked = tagged(line["is_picked"])
                    m.extra.epi_dist = tagged(line["epi_dist"])
                    m.extra.z_dist = tagged(line["z_dist"])
                    event.station_magnitudes.append(m)
                event.amplitudes.append(amp)
        if not pd.isna(row["ML"]):
            mag = Magnitude()
            mag.extra = AttribDict()
            mag.mag = row["ML"]
            mag.mag_errors.uncertainty = row["ML_Err"]
            mag.magnitude_type = "ML"
            mag.station_count = n
            mag.evaluation_mode = "automatic"
            mag.extra.r2 = tagged(row["ML_r2"])
            event.magnitudes = [mag]
            event.preferred_magnitude_id = mag.resource_id
    return event


# --- NonLinLoc --------------------------------------------------------------------------------------------------------
def nonlinloc(event, filename, autopick=True):
    if not isinstance(event, Event):
        raise ValueError("")
    info = []
    for pick in event.picks:
        if pick.method_id != ("autopick" if autopick else "modelled"):
            continue
        wid = pick.waveform_id
        station = wid.station_code or "?"
        component = wid.channel_code and wid.channel_code[-1].upper() or "?"
        if component not in "ZNEH":
            component = "?"
        error = pick.time_errors.uncertainty or -1
        if error == -1:
            try:
                error = (pick.time_errors.upper_uncertainty + pick.time_errors.lower_uncertainty) / 2
            except Exception:
                pass
        info.append(
            ("{:s} {:s} {:s} {:s} {:s} {:s} {:s} {:s} " "{:7.4f} GAU {:9.2e} {:9.2e} {:9.2e} {:9.2e} {:9.2e}").format(
                station.ljust(6), "?".ljust(4), component.ljust(4), ONSETS_REVERSE.get(pick.onset, "?").ljust(1),
                (pick.phase_hint or "?").ljust(6), POLARITIES_REVERSE.get(pick.polarity, "?").ljust(1),
                pick.time.strftime("%Y%m%d"), pick.time.strftime("%H%M"), pick.time.second + 1e-6 * pick.time.microsecond,
                error, -1, -1, -1, 1,
            )
        )
    if info:
        info = "\n".join(sorted(info) + [""])
    with open(filename, "w") as f:
        for line in info:
            f.write(line)


# --- MFAST ------------------------------------------------------------------------------------------------------------
def mfast(event, stations, output_path, units, filename=None):
    stream = read(event.extra.cut_waveforms_file.value)
    if units == "km":
        metres = 1e3
    elif units == "m":
        metres = 1
    else:
        raise AttributeError("")
    origin = event.preferred_origin()
    eventid = str(event.resource_id)
    stem = (eventid if filename is None else filename) + ".{}.{}"
    folder = pathlib.Path(output_path) / eventid
    folder.mkdir(parents=True, exist_ok=True)
    head = AttribDict()
    head.evla = origin.latitude
    head.evlo = origin.longitude
    head.evdp = origin.depth / 1000
    for _, station in stations.iterrows():
        st = stream.select(station=station.Name)
        dist, az, _ = gps2dist_azimuth(head.evla, head.evlo, station.Latitude, station.Longitude)
        there = AttribDict()
        there.stla = station.Latitude
        there.stlo = station.Longitude
        there.stel = station.Elevation * metres
        there.dist = dist / 1000
        there.az = az
        picks = [p for p in event.picks if p.waveform_id.station_code == station.Name]
        if not picks:
            continue
        zero = st[0].stats.starttime
        p = s = 0
        for pick in picks:
            if pick.phase_hint == "P":
                p = pick.time - zero
            elif pick.phase_hint == "S":
                s = pick.time - zero
        if s == 0:
            continue
        marks = AttribDict()
        marks.t0 = s
        marks.kt5 = "1"
        marks.kt0 = "1"
        marks.o = origin.time - zero
        if p != 0:
            marks.a = p
        for comp in ["Z", "N", "E"]:
            name = str(folder / stem.format(station.Name, comp.lower()))
            tr = st.select(channel=f"*{comp}")[0]
            tr.write(name, format="SAC")
            tr = read(name)[0]
            h = AttribDict()
            h.cmpaz = str(cmpaz[comp])
            h.cmpinc = str(cmpinc[comp])
            h.kcmpnm = f"HH{comp}"
            h.update(head)
            h.update(there)
            h.update(marks)
            tr.stats.sac.update(h)
            tr.write(name, format="SAC")


# --- Snuffler ---------------------------------------------------------------------------------------------------------
def snuffler_table(stations, output_path, filename, network_code=None):
    with (pathlib.Path(output_path) / filename).open(mode="w") as f:
        for i, station in stations.iterrows():
            if network_code is None:
                try:
                    code = station["Network"]
                except KeyError:
                    code = ""
            else:
                code = network_code
            f.write("{nw}.{stat}. {lat} {lon} {elev} {dep}\n".format(
                nw=code, stat=station["Name"], lat=station["Latitude"], lon=station["Longitude"], elev=station["Elevation"], dep="0"))


def snuffler_marks(event, output_path, filename=None):
    uid = str(event.resource_id)
    if filename is None:
        filename = f"{event.resource_id}.markers"
    folder = pathlib.Path(output_path) / uid
    folder.mkdir(parents=True, exist_ok=True)
    t = event.origins[0].time
    with (folder / filename).open("w") as f:
        f.write("# Snuffler Markers File Version 0.2\n")
        f.write("event: {year}-{month}-{day} {hr}:{min}:{sec}.{msec} 0 {eventid} 0.0 0.0 None None None Event None\n".format(
            year=t.year, month=str(t.month).zfill(2), day=str(t.day).zfill(2), hr=str(t.hour).zfill(2), min=str(t.minute).zfill(2),
            sec=str(t.second).zfill(2), msec=str(t.microsecond).zfill(6), eventid=uid))
        for pick in event.picks:
            if pick.phase_hint == "P":
                comp = "BHZ"
            elif pick.phase_hint == "S":
                comp = "BHN"
            else:
                comp = ""
            t = pick.time
            f.write("phase: {year}-{month}-{day} {hr}:{min}:{sec}.{msec} 5 {nw}.{stat}..{comp} None None None {phase} None False\n".format(
                year=t.year, month=str(t.month).zfill(2), day=str(t.day).zfill(2), hr=str(t.hour).zfill(2), min=str(t.minute).zfill(2),
                sec=str(t.second).zfill(2), msec=str(t.microsecond).zfill(6), nw=pick.waveform_id.network_code,
                stat=pick.waveform_id.station_code, comp=comp, phase=pick.phase_hint))


# --- writers ----------------------------------------------------------------------------------------------------------
def amplitude_file(run, amplitudes, event):
    folder = run.path / "locate" / run.subname / "amplitudes"
    folder.mkdir(exist_ok=True, parents=True)
    out = amplitudes.copy()
    for col in ["epi_dist", "z_dist", "P_amp", "P_avg_amp", "S_amp", "S_avg_amp", "Noise_amp"]:
        out[col] = out[col].map(lambda x: f"{x:.5g}", na_action="ignore")
    for col in ["P_freq", "S_freq"]:
        out[col] = out[col].map(lambda x: f"{x:.2g}", na_action="ignore")
    for col in ["P_filter_gain", "S_filter_gain"]:
        out[col] = out[col].map(lambda x: f"{x:.3g}", na_action="ignore")
    if "ML" in out.columns:
        for col in ["ML", "ML_Err"]:
            out[col] = out[col].map(lambda x: f"{x:.3g}", na_action="ignore")
    out.to_csv((folder / f"{event.uid}").with_suffix(".amps"), index=True)


def cut(run, event, file_format, pre_cut=0.0, post_cut=0.0, waveform_type="raw", units="displacement"):
    folder = run.path / "locate" / run.subname / f"{waveform_type}_cut_waveforms"
    folder.mkdir(exist_ok=True, parents=True)
    st = event.data.raw_waveforms.copy()
    if pre_cut:
        for tr in st.traces:
            tr.trim(starttime=event.otime - pre_cut)
    if post_cut:
        for tr in st.traces:
            tr.trim(endtime=event.otime + post_cut)
    for tr in st:
        if not bool(tr):
            st.remove(tr)
    whole = not pre_cut and not post_cut and units == "displacement"
    if waveform_type in ("real", "wa"):
        if waveform_type == "real" and isinstance(event.data.real_waveforms, Stream) and whole:
            st = event.data.real_waveforms
        elif waveform_type == "wa" and isinstance(event.data.wa_waveforms, Stream) and whole:
            st = event.data.wa_waveforms
        else:
            try:
                st = get_waveforms(st, event, waveform_type, units)
            except AttributeError as e:
                raise AttributeError("") from e
    if bool(st):
        write_waveforms(st, folder, f"{event.uid}", file_format)


def corrected(st, event, waveform_type, units):
    out = Stream()
    for tr in st.copy():
        if bool(tr) and tr.data.max() != tr.data.min():
            try:
                if waveform_type == "real":
                    new = event.data.get_real_waveform(tr, units == "velocity")
                else:
                    new = event.data.get_wa_waveform(tr, units == "velocity")
                out.append(new)
            except (util.ResponseNotFoundError, util.ResponseRemovalError):
                pass
    return out


def wave_file(st, fpath, fstem, file_format):
    ends = {"MSEED": ".m", "SAC": ".sac", "SEGY": ".segy", "GSE2": ".gse2"}
    st.write(str((fpath / fstem).with_suffix(ends.get(file_format, ".waveforms"))), format=file_format)


COLUMNS = [
    "EventID", "DT", "X", "Y", "Z", "COA", "COA_NORM", "GAU_X", "GAU_Y", "GAU_Z", "GAU_ErrX", "GAU_ErrY", "GAU_ErrZ",
    "COV_ErrX", "COV_ErrY", "COV_ErrZ", "COV_Err_XYZ", "TRIG_COA", "DEC_COA", "DEC_COA_NORM",
]


def event_file(self, run, lut):
    folder = run.path / "locate" / run.subname / "events"
    folder.mkdir(exist_ok=True, parents=True)
    row = {"EventID": self.uid, **self.trigger_info, **self.localmag}
    row = {**row, **self.max_coalescence}
    gau = dict((f"GAU_{k}", v) for (k, v) in self.locations["gaussian"].items())
    cov = dict((f"COV_{k}", v) for (k, v) in list(self.locations["covariance"].items())[3:])
    row = {**row, **self.locations["spline"], **gau, **cov}
    has_mag = self.localmag.get("ML") is not None
    out = pd.DataFrame([row])[COLUMNS + ["ML", "ML_Err", "ML_r2"] if has_mag else COLUMNS]
    for col in out.filter(like="COA").columns:
        out[col] = out[col].map(lambda x: f"{x:.4g}", na_action="ignore")
    for digits, axis in zip(lut.precision, ["X", "Y", "Z"]):
        cols = [axis, f"GAU_{axis}"]
        if axis == "Z":
            decimals = max(digits + 2, 3 if lut.unit_name == "km" else 0)
            cols.extend(out.filter(regex="Err[X,Y,Z]"))
            cols.extend(["COV_Err_XYZ"])
        else:
            decimals = max(digits + 2, 6)
        for col in cols:
            out[col] = out.loc[:, col].round(decimals=decimals)
            if decimals <= 0:
                out[col] = out.loc[:, col].astype(int)
    if has_mag:
        for col in ["ML", "ML_Err", "ML_r2"]:
            out[col] = out[col].map(lambda x: f"{x:.3g}", na_action="ignore")
    out.to_csv((folder / f"{self.uid}").with_suffix(".event"), index=False)


def peak(self):
    best = self.coa_data.iloc[self.coa_data["COA"].astype("float").idxmax()]
    return dict(zip(["DT", "COA", "COA_NORM"], best[["DT", "COA", "COA_NORM"]].values))


def trimmed(self):
    times = self.coa_data["DT"]
    kept = self.coa_data[(times >= self.otime - self.marginal_window) & (times <= self.otime + self.marginal_window)]
    self.map4d = self.map4d[:, :, :, kept.index[0] : kept.index[-1] + 1]
    self.coa_data = kept.reset_index(drop=True)
    self.otime = self.coa_data.iloc[self.coa_data["COA"].astype(float).idxmax()]["DT"]


def triggered(self, event_data):
    try:
        return {"TRIG_COA": event_data["TRIG_COA"], "DEC_COA": event_data["COA"], "DEC_COA_NORM": event_data["COA_NORM"]}
    except KeyError:
        try:
            return {"TRIG_COA": event_data["COA_V"], "DEC_COA": event_data["COA"], "DEC_COA_NORM": event_data["COA_NORM"]}
        except KeyError:
            return {"TRIG_COA": event_data["COA_V"], "DEC_COA": np.nan, "DEC_COA_NORM": np.nan}


def magnitude(self):
    if len(self.localmag) == 0:
        return None
    return (v for _, v in self.localmag.items())


def uncertainty(self, method="gaussian"):
    return np.array([self.locations[method][k] for k in ["ErrX", "ErrY", "ErrZ"]])


def hypocentre(self, method="spline"):
    return np.array([self.locations[method][k] for k in ["X", "Y", "Z"]])


def pick_file(self, run, event_uid, phase_picks):
    folder = run.path / "locate" / run.subname / "picks"
    folder.mkdir(exist_ok=True, parents=True)
    out = phase_picks.copy()
    for col in ["PickError", "SNR"]:
        out[col] = out[col].map(lambda x: f"{x:.3g}", na_action="ignore")
    out.to_csv((folder / f"{event_uid}").with_suffix(".picks"), index=False)


def saved_map(fname):
    return np.load(fname)
