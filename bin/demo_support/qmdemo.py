"""A small synthetic network, archive and run in a scratch directory."""
import os, sys, shutil, tempfile, pathlib, atexit, logging, warnings
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
import numpy as np, pandas as pd
import obspy
from obspy import UTCDateTime, Trace, Stream
from pyproj import Proj
from quakemigrate.lut import compute_traveltimes
from quakemigrate.io import Archive
from quakemigrate.signal import QuakeScan, Trigger
from quakemigrate.signal.onsets import STALTAOnset

SCRATCH = pathlib.Path(tempfile.mkdtemp(prefix="qmdemo"))
atexit.register(shutil.rmtree, SCRATCH, True)
HOME = os.getcwd()
STN = pd.DataFrame(
    [[64.30, -16.60, 0.1, "AAA"], [64.30, -16.50, 0.2, "BBB"], [64.35, -16.55, 0.3, "CCC"],
     [64.33, -16.62, 0.1, "DDD"], [64.34, -16.49, 0.2, "EEE"]],
    columns=["Latitude", "Longitude", "Elevation", "Name"])
VP, VS = 5.0, 3.0
T0 = UTCDateTime("2020-03-01T00:10:00")      # origin time of the synthetic event
SRC = (64.325, -16.55, 3.0)


def lut(nx=9, spacing=1.0, **kw):
    gp = Proj(proj="lcc", units="km", lon_0=-16.55, lat_0=64.325, lat_1=64.3, lat_2=64.35,
              datum="WGS84", ellps="WGS84", no_defs=True)
    cp = Proj(proj="longlat", datum="WGS84", ellps="WGS84", no_defs=True)
    ll = gp(-16.64, 64.29)
    c = cp.crs and cp
    lo = cp(-16.64, 64.29); hi = cp(-16.46, 64.36)
    spec = dict(ll_corner=[-16.64, 64.29, 0.0], ur_corner=[-16.46, 64.36, 8.0],
                node_spacing=[spacing, spacing, spacing], grid_proj=gp, coord_proj=cp)
    os.chdir(SCRATCH)
    try:
        return compute_traveltimes(spec, STN.copy(), method="homogeneous", phases=kw.pop("phases", ["P", "S"]),
                                   vp=VP, vs=VS, **kw)
    finally:
        os.chdir(HOME)


def traveltime(L, station, phase, src=SRC):
    xyz = L.coord2grid([[src[1], src[0], src[2]]])[0]
    s = STN[STN.Name == station].iloc[0]
    sx = L.coord2grid([[s.Longitude, s.Latitude, -s.Elevation]])[0]
    return float(np.linalg.norm(np.array(xyz) - np.array(sx))) / (VP if phase == "P" else VS)


def waveforms(L, t0=T0, start=None, length=1200.0, sr=50, seed=0, gaps=(), origins=None, amp=30.0):
    """noise plus P (vertical) and S (horizontal) wavelets of the given origins"""
    rng = np.random.default_rng(seed)
    start = start or UTCDateTime("2020-03-01T00:00:00")
    st = Stream()
    for name in STN.Name:
        for comp in "ZNE":
            n = int(length * sr)
            d = rng.normal(size=n)
            for (o, a) in (origins or [(t0, amp)]):
                ph = "P" if comp == "Z" else "S"
                i = int(round((o + traveltime(L, name, ph) - start) * sr))
                k = np.arange(int(2 * sr))
                w = a * np.exp(-k / (0.3 * sr)) * np.sin(2 * np.pi * 6.0 * k / sr)
                if 0 <= i and i + len(w) < n:
                    d[i:i + len(w)] += w
            tr = Trace(np.round(d * 1000).astype(np.int32),
                       header=dict(station=name, network="XX", location="", channel="HH" + comp,
                                   sampling_rate=sr, starttime=start))
            st += tr
    for a, b in gaps:
        st.cutout(a, b)
    return st


def archive_dir(st, name="archive"):
    root = SCRATCH / name
    for tr in st:
        t, end = tr.stats.starttime, tr.stats.endtime
        day = UTCDateTime(t.date)
        while day <= end:
            part = tr.slice(day, day + 86400 - tr.stats.delta)
            if part.stats.npts:
                d = root / str(day.year) / ("%03d" % day.julday)
                d.mkdir(parents=True, exist_ok=True)
                part.write(str(d / ("%s_%s_%s.m" % (tr.stats.station, tr.stats.channel, part.stats.starttime.strftime("%H%M%S")))), format="MSEED")
            day += 86400
    return root


def archive(st, name="archive", **kw):
    return Archive(archive_dir(st, name), STN, archive_format=kw.pop("archive_format", "YEAR/JD/STATION") , **kw)


def onset(sr=50, **kw):
    o = STALTAOnset(position=kw.pop("position", "classic"), sampling_rate=sr)
    o.phases = ["P", "S"]
    o.bandpass_filters = {"P": [2, 16, 2], "S": [2, 14, 2]}
    o.sta_lta_windows = {"P": [0.2, 1.5], "S": [0.2, 1.5]}
    for k, v in kw.items():
        setattr(o, k, v)
    return o


def quiet():
    logging.disable(logging.CRITICAL)
    sys.stdout = open(os.devnull, "w")


def loud():
    sys.stdout = sys.__stdout__


def check(ok, what):
    loud()
    print(("ok: " if ok else "FAILED: ") + what)
    sys.stdout.flush()
    if not ok:
        sys.exit(1)
