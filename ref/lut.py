"""Reference semantics of grids and lookup tables (property C17)."""
import copy
import os
import pathlib
import pickle
import struct
from shutil import rmtree

import numpy as np
import pandas as pd
from pyproj import Proj, Transformer
from scipy.interpolate import RegularGridInterpolator, interp1d

import quakemigrate.util as util
from subprocess import STDOUT, check_output

from quakemigrate.lut import LUT
from quakemigrate.lut.create_lut import (
    _bilinear_interpolate, _compute_1d_fmm, _compute_1d_nlloc, _compute_homogeneous, _eikonal_fmm,
    _grid_string, _read_nlloc, _velocity_gradient, _vmodel_string, _write_control_file,
)
from quakemigrate.io import read_lut


# --- grid -------------------------------------------------------------------------------------------------------------
def grid(self, ll_corner, ur_corner, node_spacing, grid_proj, coord_proj):
    self.grid_proj = grid_proj
    self.coord_proj = coord_proj
    self.ll_corner = self.coord2grid(ll_corner)[0]
    self.ur_corner = self.coord2grid(ur_corner)[0]
    self.node_spacing = node_spacing
    # as many nodes as cover the requested area
    self.node_count = 1 + np.ceil((self.ur_corner - self.ll_corner) / self.node_spacing)


def thin(self, df, inplace=False):
    df = np.array(df, dtype=int)
    kept = 1 + (self.node_count - 1) // df
    # centre the kept nodes in the grid
    first = (self.node_count - 1 - df * (kept - 1)) // 2
    origin = self.ll_corner + first * self.node_spacing
    spacing = df * self.node_spacing
    out = self if inplace else copy.deepcopy(self)
    out.ll_corner = origin
    out.node_count = kept
    out.node_spacing = spacing
    for station, tables in out.traveltimes.items():
        for phase, table in tables.items():
            out[station][phase] = table[first[0]::df[0], first[1]::df[1], first[2]::df[2]]
    if not inplace:
        return out


def to_grid(self, value, inverse=False, unravel=False):
    value = np.column_stack(np.unravel_index(value, self.node_count)) if unravel else np.array(value)
    if inverse:
        out = np.vstack(np.rint((value - self.ll_corner) / self.node_spacing).astype(int))
    else:
        out = np.vstack(self.ll_corner + self.node_spacing * value)
    return out.T if out.shape[1] == 1 else out


def project(self, value, inverse=False):
    a, b, d = np.array(value).T
    if inverse:
        t = Transformer.from_proj(self.grid_proj, self.coord_proj)
    else:
        t = Transformer.from_proj(self.coord_proj, self.grid_proj)
    return np.column_stack(t.transform(a, b, d))


def to_coord(self, value, inverse=False, unravel=False):
    if inverse:
        return self.index2grid(self.coord2grid(value), inverse=True)
    return self.coord2grid(self.index2grid(value, unravel=unravel), inverse=True)


def count(self):
    try:
        return self._node_count
    except AttributeError:
        return self._cell_count


def set_count(self, value):
    n = np.array(value, dtype="int32")
    assert np.all(n > 0)
    self._node_count = n


def spacing(self):
    try:
        return self._node_spacing
    except AttributeError:
        return self._cell_size


def set_spacing(self, value):
    d = np.array(value, dtype="float64")
    if d.size == 1:
        d = np.repeat(d, 3)
    else:
        assert d.shape == (3,)
    assert np.all(d > 0)
    self._node_spacing = d


def set_count_old(self, value):
    if value is not None:
        self.node_count = value


def set_spacing_old(self, value):
    if value is not None:
        self.node_spacing = value


def corners(self):
    last = self.node_count - 1
    i, j, k = np.meshgrid([0, last[0]], [0, last[1]], [0, last[2]], indexing="ij")
    return self.index2grid(np.c_[i.flatten(), j.flatten(), k.flatten()])


def extent(self, cells=False):
    low, high = self.grid_corners[0], self.grid_corners[-1]
    if cells is True:
        low = low - self.node_spacing / 2
        high = high + self.node_spacing / 2
    return self.coord2grid([low, high], inverse=True)


def xyz(self):
    nc = self.node_count
    ijk = np.meshgrid(*[np.arange(n) for n in nc], indexing="ij")
    pos = self.index2grid(np.column_stack([d.flatten() for d in ijk]))
    return [pos[:, d].reshape(nc) for d in range(3)]


def precision(self):
    return [-int(np.format_float_scientific(d).split("e")[1]) for d in np.subtract(*self.index2coord([[0, 0, 0], [1, 1, 1]]))]


def metres(self):
    return self.grid_proj.crs.axis_info[0].unit_conversion_factor


def unit(self):
    return "km" if self.grid_proj.crs.axis_info[0].unit_name == "kilometre" else "m"


# --- lookup table -----------------------------------------------------------------------------------------------------


def table(self, fraction_tt=0.1, lut_file=None, **grid_spec):
    self.station_data = pd.DataFrame()
    if grid_spec:
        super(LUT, self).__init__(**grid_spec)
        self.fraction_tt = fraction_tt
        self.traveltimes = {}
        self.phases = []
        self.velocity_model = ""
    else:
        self.fraction_tt = fraction_tt
        self.phases = ["P", "S"]
        if lut_file is not None:
            self.load(lut_file)


def samples(self, sampling_rate, availability=None):
    if availability is None:
        tt = self._serve_traveltimes(self.phases)
    else:
        tt = []
        for key, available in availability.items():
            station, phase = key.split("_")
            if available == 1:
                try:
                    tt.append(self[station][phase])
                except KeyError:
                    tt.append(self[station]["TIME_" + phase])
        tt = np.stack(tt, axis=-1)
    return np.rint(tt * sampling_rate).astype(np.int32)


def at_index(self, phase, ijk, station=None):
    if station is None:
        tt = self._serve_traveltimes([phase])
    elif isinstance(station, str):
        tt = self._serve_traveltimes([phase], [station])
    else:
        tt = self._serve_traveltimes([phase], station)
    nodes = tuple([np.arange(n) for n in self.node_count])
    f = RegularGridInterpolator(nodes, tt, bounds_error=False, fill_value=None)
    return f(ijk)[0]


def stacked(self, phases, stations=None):
    if stations is None:
        stations = self.station_data["Name"].values
    tt = []
    for phase in phases:
        for station in stations:
            try:
                tt.append(self[station][phase])
            except KeyError:
                tt.append(self[station]["TIME_" + phase])
    return np.stack(tt, axis=-1)


def save(self, filename):
    pathlib.Path(filename).parent.mkdir(parents=True, exist_ok=True)
    with open(filename, "wb") as f:
        pickle.dump(self.__dict__, f, 4)


def load(self, filename):
    with open(filename, "rb") as f:
        self.__dict__.update(pickle.load(f))


def read(lut_file):
    lut = LUT()
    with open(lut_file, "rb") as f:
        lut.__dict__.update(pickle.load(f))
    return lut


def span(self):
    stat_min, stat_max = self.station_extent
    grid_min, grid_max = self.get_grid_extent(cells=True)
    low = [min(a, b) for a, b in zip(stat_min, grid_min)]
    high = [max(a, b) for a, b in zip(stat_max, grid_max)]
    d = abs(np.subtract(high, low))
    return np.array([np.subtract(low, d * 0.05), np.add(high, 0.05 * d)])


def longest(self):
    return np.max(self._serve_traveltimes(self.phases))


def station_span(self):
    xyz = self.station_data[["Longitude", "Latitude", "Elevation"]]
    return [[f(d) for d in xyz.values.T] for f in (min, max)]


def station_grid(self):
    return self.coord2grid(self.station_data[["Longitude", "Latitude", "Elevation"]].values)


def add(self, other):
    if not isinstance(other, LUT):
        return self
    if self == other:
        both = copy.copy(self)
        both.traveltimes = {**other.traveltimes, **self.traveltimes}
        return both


def same(self, other):
    if not isinstance(other, LUT):
        return False
    a = (self.grid_corners == other.grid_corners).all()
    b = (self.node_spacing == other.node_spacing).all()
    d = self.grid_proj == other.grid_proj and self.coord_proj == other.coord_proj
    return a and b and d


def item(self, key):
    try:
        return self.traveltimes[key]
    except AttributeError:
        return self.maps[key]
    except KeyError:
        print("")


# --- construction -----------------------------------------------------------------------------------------------------
def from_nlloc(path, stations, phases=["P", "S"], fraction_tt=0.1, save_file=None, log=False):
    path = pathlib.Path(path)
    util.logger(pathlib.Path.cwd() / "logs" / "lut", log)
    for i, phase in enumerate(phases):
        for j, station in enumerate(stations["Name"].values):
            file = path / f"layer.{phase}.{station}.time"
            if i == 0 and j == 0:
                spec, transform, tt = _read_nlloc(file)
                n = np.array(spec[0])
                origin = np.array(spec[1])
                d = np.array(spec[2])
                gproj, cproj, name = transform
                if gproj is None:
                    raise NotImplementedError("")
                far = origin + (n - 1) * d
                t = Transformer.from_proj(gproj, cproj)
                lut = LUT(ll_corner=t.transform(*origin), ur_corner=t.transform(*far), node_spacing=d,
                          grid_proj=gproj, coord_proj=cproj, fraction_tt=fraction_tt)
                lut.node_count = n
            else:
                _, _, tt = _read_nlloc(file)
            lut.traveltimes.setdefault(station, {}).update({phase: tt})
    lut.station_data = stations
    lut.phases = phases
    if save_file is not None:
        lut.save(save_file)
    return lut


def homogeneous(lut, phase, velocity):
    nodes = lut.grid_xyz
    stations = lut.stations_xyz
    for i, station in enumerate(lut.station_data["Name"].values):
        dx, dy, dz = [nodes[j] - stations[i, j] for j in range(3)]
        lut.traveltimes.setdefault(station, {}).update({phase: np.sqrt(dx ** 2 + dy ** 2 + dz ** 2) / velocity})


def fast_marching(lut, phase, vmodel):
    try:
        depths, v = vmodel[["Depth", f"V{phase.lower()}"]].values.T
    except KeyError:
        raise util.InvalidVelocityModelHeader(f"V{phase.lower()}")
    lim = np.finfo(float)
    depths = np.insert(np.append(depths, lim.max), 0, lim.min)
    v = np.insert(np.append(v, v[-1]), 0, v[0])
    nodes = lut.grid_xyz
    stations = lut.stations_xyz
    if (lut.stations_xyz < lut.ll_corner).any() or (lut.stations_xyz > lut.ur_corner).any():
        raise ValueError("")
    layered = interp1d(depths, v)(nodes[2])
    for i, station in enumerate(lut.station_data["Name"].values):
        lut.traveltimes.setdefault(station, {}).update({phase: _eikonal_fmm(nodes, lut.node_spacing, layered, stations[i])})


def bilinear(xz, xz_origin, xz_dimensions, traveltimes):
    cells = (xz - xz_origin) / xz_dimensions
    i, k = np.floor(cells).astype(int).T
    a, b = np.remainder(cells, 1).T
    t = traveltimes
    upper = t[i, k] * (1 - a) + t[i + 1, k] * a
    lower = t[i, k + 1] * (1 - a) + t[i + 1, k + 1] * a
    return upper * (1 - b) + lower * b


def compute(grid_spec, stations, method, phases=["P", "S"], fraction_tt=0.1, save_file=None, log=False, **kwargs):
    util.logger(pathlib.Path.cwd() / "logs" / "lut", log)
    lut = LUT(**grid_spec, fraction_tt=fraction_tt)
    lut.station_data = stations
    lut.phases = phases
    if method == "1dsweep":
        method = "1dnlloc"
    if method == "homogeneous":
        lut.velocity_model = "Homogeneous velocity model:"
        for phase in phases:
            v = kwargs.get(f"v{phase.lower()}")
            if v is None:
                raise TypeError("")
            lut.velocity_model += f"\n\tV{phase.lower()} = {v:5.2f} {lut.unit_name}/s"
            _compute_homogeneous(lut, phase, v)
    elif method == "1dfmm" or method == "1dnlloc":
        lut.velocity_model = kwargs.get("vmod")
        if kwargs.get("vmod") is None:
            raise TypeError("")
        for phase in phases:
            if method == "1dfmm":
                _compute_1d_fmm(lut, phase, kwargs.get("vmod"))
            else:
                _compute_1d_nlloc(lut, phase, kwargs.get("vmod"), **kwargs)
    elif method == "3dfmm":
        raise NotImplementedError("")
    else:
        raise ValueError("")
    if save_file is not None:
        lut.save(save_file)
    return lut


def nlloc_sections(lut, phase, vmodel, **kwargs):
    dx = kwargs.get("nlloc_dx", 0.1)
    path = pathlib.Path(kwargs.get("nlloc_path", ""))
    block_model = kwargs.get("block_model", False)
    keep = kwargs.get("retain_nll_grids", False)
    if kwargs.get("nlloc_path", "") != "":
        if not (path / "Vel2Grid").exists() or not (path / "Grid2Time").exists():
            raise FileNotFoundError("")
    km = 1000 / lut.unit_conversion_factor
    nodes = [g / km for g in lut.grid_xyz]
    stations = lut.stations_xyz / km
    low, *_, high = lut.grid_corners / km
    vmodel = vmodel / km
    cwd = pathlib.Path.cwd()
    (cwd / "time").mkdir(exist_ok=True)
    (cwd / "model").mkdir(exist_ok=True)
    for i, station in enumerate(lut.station_data["Name"].values):
        x, y = [nodes[j] - stations[i, j] for j in range(2)]
        far = np.sqrt(x ** 2 + y ** 2).flatten()
        depths = nodes[2].flatten()
        span = [np.min([low[2], stations[i, 2]]), np.max([high[2], stations[i, 2]])]
        _write_control_file(stations[i], station, np.max(far), vmodel, span, phase, dx, block_model)
        for mode in ["Vel2Grid", "Grid2Time"]:
            out = check_output([str(path / mode), "control.in"], stderr=STDOUT)
            if b"ERROR" in out:
                raise Exception("")
        spec, _, tt = _read_nlloc(cwd / "time" / f"layer.{phase}.{station}.time", ignore_proj=True)
        section = _bilinear_interpolate(np.c_[far, depths], spec[1, 1:], spec[2, 1:], tt[0, :, :])
        lut.traveltimes.setdefault(station, {}).update({phase: section.reshape(lut.node_count)})
        os.remove(cwd / "control.in")
        if not keep:
            for name in (f"layer.{phase}.{station}.time*", f"layer.{phase}.mod.*"):
                for file in (cwd / "time").glob(name):
                    file.unlink()
    if keep:
        return
    for file in (cwd / "model").glob(f"layer.{phase}.mod.*"):
        file.unlink()
    for folder in (cwd / "model", cwd / "time"):
        if len(os.listdir(folder)) == 0:
            rmtree(folder)


def read_section(fname, ignore_proj=False):
    with open(f"{fname}.hdr", "r") as f:
        w = f.readline().split()
        n = int(w[0]), int(w[1]), int(w[2])
        o = float(w[3]), float(w[4]), float(w[5])
        d = float(w[6]), float(w[7]), float(w[8])
        _ = f.readline().split()
        w = f.readline().split()
        geographic = Proj(proj="longlat", ellps="WGS84", datum="WGS84", no_defs=True)
        proj = None
        kind = w[1]
        if kind == "SIMPLE":
            proj = Proj(proj="eqc", lat_0=float(w[3]), lon_0=float(w[5]), units="km")
        elif kind == "LAMBERT":
            known = {"WGS-84": "WGS84", "GRS-80": "GRS80", "WGS-72": "WGS72", "Australian": "aust_SA", "Krasovsky": "krass",
                     "International": "intl", "Hayford-1909": "intl", "Clarke-1880": "clrk80", "Clarke-1866": "clrk66",
                     "Airy": "airy", "Bessel": "bessel", "Hayford-1830": "evrst30", "Sphere": "sphere"}
            proj = Proj(proj="lcc", lon_0=float(w[7]), lat_0=float(w[5]), lat_1=float(w[9]), lat_2=float(w[11]), units="km",
                        ellps=known.get(w[3], "WGS84"), datum="WGS84")
        elif kind == "TRANS_MERC":
            proj = Proj(proj="tmerc", lon_0=float(w[7]), lat_0=float(w[5]), units="km")
    with open(f"{fname}.buf", "rb") as f:
        npts = n[0] * n[1] * n[2]
        tt = struct.unpack("f" * npts, f.read(npts * 4))
    tt = np.array(tt).reshape((n[0], n[1], n[2]))
    spec = np.array([[n[0], n[1], n[2]], [o[0], o[1], o[2]], [d[0], d[1], d[2]]])
    return spec, [proj, geographic, kind], tt


def control_file(station_xyz, station, max_dist, vmodel, depth_span, phase, dx, block_model):
    cwd = pathlib.Path.cwd()
    text = (
        "CONTROL 0 54321\n"
        "TRANS NONE\n\n"
        "VGOUT {model_path:s}\n"
        "VGTYPE {phase:s}\n\n"
        "VGGRID {grid:s} SLOW_LEN\n\n"
        "{vmodel:s}\n\n"
        "GTFILES {model_path:s} {time_path:s} {phase:s}\n"
        "GTMODE GRID2D ANGLES_NO\n\n"
        "GTSRCE {station:s} XYZ {x:f} {y:f} {z:f} 0.0\n\n"
        "GT_PLFD 1.0E-3 0"
    ).format(
        phase=phase, grid=_grid_string(max_dist, depth_span, dx), vmodel=_vmodel_string(vmodel, block_model, phase),
        model_path=str(cwd / "model" / "layer"), time_path=str(cwd / "time" / "layer"),
        station=station, x=station_xyz[0], y=station_xyz[1], z=station_xyz[2],
    )
    with open(cwd / "control.in", "w") as f:
        f.write(text)


def gradient(i, vmodel, phase):
    v = vmodel[f"V{phase.lower()}"]
    z = vmodel["Depth"]
    return (v[i + 1] - v[i]) / (z[i + 1] - z[i])


def section_grid(max_dist, depth_limits, dx):
    n = int(np.ceil(max_dist / dx)) + 5
    m = int(np.ceil((depth_limits[1] - depth_limits[0]) / dx)) + 5
    return "2 {0:d} {1:d} 0.0 0.0 {2:f} {3:f} {3:f} {3:f}".format(n, m, depth_limits[0], dx)


def layers(vmodel, block_model, phase):
    lines = []
    for i in range(len(vmodel)):
        change = 0.0
        if not block_model:
            try:
                change = _velocity_gradient(i, vmodel, phase)
            except KeyError:
                # nothing below the last layer
                change = 0.0
        lines.append("LAYER  {0:f} {1:f} {2:f} {1:f} {2:f} 0.0 0.0".format(vmodel["Depth"][i], vmodel[f"V{phase.lower()}"][i], change))
    return "\n".join(lines)


def modernise(old_lut_file, save_file):
    lut = read_lut(old_lut_file)
    try:
        tables = {}
        for station, phases in lut.maps.items():
            for name, table in phases.items():
                tables.setdefault(station, {}).update({name.split("_")[1]: table})
        lut.traveltimes = tables
        del lut.maps
    except AttributeError:
        pass
    lut.phases = ["P", "S"]
    lut.fraction_tt = 0.1
    try:
        lut.node_spacing = lut.cell_size
        lut.node_count = lut.cell_count
        del lut._cell_size, lut._cell_count
    except AttributeError:
        pass
    lut.save(save_file)


def eikonal(grid_xyz, node_spacing, velocity_grid, station_xyz):
    try:
        import skfmm
    except ImportError:
        raise ImportError("")
    x, y, z = grid_xyz
    sx, sy, sz = station_xyz
    source = np.unravel_index(np.argmin(abs(x - sx) + abs(y - sy) + abs(z - sz)), x.shape)
    phi = -np.ones(x.shape)
    phi[source] = 1.0
    return skfmm.travel_time(phi, velocity_grid, dx=node_spacing)
