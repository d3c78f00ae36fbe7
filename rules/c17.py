"""C17: one grid definition everywhere; lookup tables survive saving, thinning and reading."""
from .common import *
from qmsa.equiv import behaves

LEVEL_NOTE = (
    "Grid definition, conversions, extents, decimation, persistence, serving of travel times and the readers and "
    "builders of lookup tables are interpreted abstractly for symbolic grids and compared, as normal forms, with "
    "reference definitions (ref/lut.py, analysed and never run). Projections and interpolation themselves are external."
)
FLOOR = 40
G = P + "lut.lut.Grid3D"
CR = P + "lut.create_lut."
CONV = {"Grid3D.index2grid", "Grid3D.coord2grid", "Grid3D.index2coord"}


def rules(c):
    c.do(definition)
    c.do(conversion)
    c.do(thinning)
    c.do(serving)
    c.do(persistence)
    c.do(building)


def definition(c):
    behaves(c, "grid", G + ".__init__", "lut.grid", opaque=CONV, ret=False, fields=("ll_corner", "ur_corner", "_node_spacing", "_node_count", "grid_proj", "coord_proj"),
            sets=("_node_count", "_node_spacing"), rule="the nodes cover the requested area from its lower-left corner")
    for k, f in (("node_count", "_node_count"), ("node_spacing", "_node_spacing")):
        behaves(c, k, G + "." + k, "lut." + k[5:], rule="the value stored")
        behaves(c, "set_" + k, G + "." + k + ".setter", "lut.set_" + k[5:], ret=False, fields=(f,), sets=(f,), rule="one positive value per axis")
    behaves(c, "corners", G + ".grid_corners", "lut.corners", opaque=CONV, rule="first and last node of every axis")
    behaves(c, "extent", G + ".get_grid_extent", "lut.extent", opaque=CONV | {"Grid3D.grid_corners"}, rule="first and last corner, half a cell outside on request")
    behaves(c, "xyz", G + ".grid_xyz", "lut.xyz", opaque=CONV, rule="the position of every node, in the axis order of the tables")
    behaves(c, "precision", G + ".precision", "lut.precision", opaque=CONV, rule="decimals that resolve one node")
    behaves(c, "metres", G + ".unit_conversion_factor", "lut.metres", rule="metres per grid unit")
    behaves(c, "unit", G + ".unit_name", "lut.unit", rule="kilometres or metres")


def conversion(c):
    behaves(c, "index2grid", G + ".index2grid", "lut.to_grid", rule="origin plus index times spacing, and its inverse")
    behaves(c, "coord2grid", G + ".coord2grid", "lut.project", rule="input projection to grid projection, and back")
    behaves(c, "index2coord", G + ".index2coord", "lut.to_coord", opaque={"Grid3D.index2grid", "Grid3D.coord2grid"}, rule="composition of the two in either direction")


def thinning(c):
    behaves(c, "decimate", G + ".decimate", "lut.thin", types={"self": LUT}, opaque=CONV, mutates=("setitem",), fields=("ll_corner", "_node_count", "_node_spacing", "traveltimes", "ur_corner"),
            rule="every n-th node with the matching origin, spacing and count; a copy unless asked")


def serving(c):
    behaves(c, "samples", LUT + ".serve_traveltimes", "lut.samples", opaque={"LUT._serve_traveltimes"}, rule="travel times of the available station phases, in samples")
    behaves(c, "interpolated", LUT + ".traveltime_to", "lut.at_index", opaque={"LUT._serve_traveltimes"}, rule="travel time of a phase from a point between the nodes")
    behaves(c, "stacked", LUT + "._serve_traveltimes", "lut.stacked", rule="exactly the requested phases and stations, in that order")
    behaves(c, "longest", LUT + ".max_traveltime", "lut.longest", opaque={"LUT._serve_traveltimes"}, rule="largest travel time of all")
    behaves(c, "item", LUT + ".__getitem__", "lut.item", rule="the tables of one station")
    behaves(c, "span", LUT + ".max_extent", "lut.span", opaque={"LUT.station_extent", "Grid3D.get_grid_extent"}, rule="grid and stations with a margin")
    behaves(c, "station_span", LUT + ".station_extent", "lut.station_span", rule="smallest and largest station coordinates")
    behaves(c, "station_grid", LUT + ".stations_xyz", "lut.station_grid", opaque=CONV, rule="stations in grid coordinates, one row each")
    behaves(c, "add", LUT + ".__add__", "lut.add", opaque={"LUT.__eq__"}, fields=("traveltimes",), rule="tables are combined only on equal grids; those of the first table count")
    behaves(c, "same", LUT + ".__eq__", "lut.same", opaque={"Grid3D.grid_corners"}, rule="equal corners, spacing and projections")


def persistence(c):
    behaves(c, "table", LUT + ".__init__", "lut.table", opaque={"Grid3D.__init__"}, ret=False, fields=("fraction_tt", "traveltimes", "phases", "velocity_model", "station_data"),
            calls=("Grid3D.__init__", "pickle.load"), rule="a new table is empty; a loaded one keeps what was loaded")
    behaves(c, "save", LUT + ".save", "lut.save", ret=False, calls=("pickle.dump", "open", ".mkdir"), rule="every attribute is written")
    behaves(c, "load", LUT + ".load", "lut.load", ret=False, calls=("pickle.load", "open"), sets=("__dict__.update",), rule="every attribute is restored")
    behaves(c, "read", P + "io.core.read_lut", "lut.read", opaque={"LUT.__init__"}, calls=("pickle.load", "open"), sets=("__dict__.update",), rule="every attribute is restored")


def building(c):
    behaves(c, "compute", CR + "compute_traveltimes", "lut.compute", opaque={"LUT.__init__", "LUT.save", "_compute_homogeneous", "_compute_1d_fmm", "_compute_1d_nlloc"},
            raises=("TypeError", "NotImplementedError", "ValueError"), calls=("LUT.__init__", "LUT.save", "_compute_homogeneous", "_compute_1d_fmm", "_compute_1d_nlloc"),
            sets=("velocity_model", "station_data", "phases"), rule="one table per phase by the requested method, with its stations and phases")
    behaves(c, "nlloc", CR + "read_nlloc", "lut.from_nlloc", opaque={"LUT.__init__", "LUT.save", "_read_nlloc"}, raises=("NotImplementedError",), calls=("LUT.__init__", "_read_nlloc", ".save"),
            mutates=("update", "setattr.station_data", "setattr.phases"), sets=("_node_count",), rule="the grid of the files, with one table per station and phase")
    behaves(c, "homogeneous", CR + "_compute_homogeneous", "lut.homogeneous", types={"lut": LUT}, opaque={"Grid3D.grid_xyz", "LUT.stations_xyz"}, mutates=(".update",), rule="distance over velocity at every node")
    behaves(c, "marching", CR + "_compute_1d_fmm", "lut.fast_marching", types={"lut": LUT}, opaque={"Grid3D.grid_xyz", "LUT.stations_xyz", "_eikonal_fmm"}, mutates=(".update",),
            raises=("InvalidVelocityModelHeader", "ValueError"), rule="each station on the grid of the table")
    behaves(c, "eikonal", CR + "_eikonal_fmm", "lut.eikonal", args={"grid_xyz": mk("tuple", tuple(S("N" + x) for x in "xyz")), "station_xyz": mk("tuple", tuple(S("S" + x) for x in "xyz"))}, raises=("ImportError",), rule="times from the node nearest the station through the velocities of the nodes, with their spacing")
    behaves(c, "sections", CR + "_compute_1d_nlloc", "lut.nlloc_sections", types={"lut": LUT}, opaque={"Grid3D.grid_xyz", "LUT.stations_xyz", "Grid3D.grid_corners", "_read_nlloc", "_write_control_file", "_bilinear_interpolate", "Grid3D.unit_conversion_factor"},
            calls=("_write_control_file", "_read_nlloc", "_bilinear_interpolate", "check_output", ".mkdir", ".unlink", "os.remove", "rmtree"), mutates=(".update",), raises=("FileNotFoundError", "Exception"),
            rule="every node from the section of its station; the files it was made from are kept or removed as asked")
    behaves(c, "section", CR + "_read_nlloc", "lut.read_section", rule="grid, projection and values of a NonLinLoc file")
    behaves(c, "interpolation", CR + "_bilinear_interpolate", "lut.bilinear", rule="weights and nodes of the cell a point lies in")
    behaves(c, "control", CR + "_write_control_file", "lut.control_file", ret=False, opaque={"_grid_string", "_vmodel_string"}, calls=("_grid_string", "_vmodel_string", ".write"), rule="what NonLinLoc is asked to compute")
    behaves(c, "layers", CR + "_vmodel_string", "lut.layers", opaque={"_velocity_gradient"}, rule="one line per layer: depth, velocity and gradient")
    behaves(c, "update", P + "lut.update_lut", "lut.modernise", opaque={"read_lut", "LUT.save"}, ret=False, calls=("read_lut", ".save"), mutates=("update", "setdefault", "setattr.traveltimes", "setattr.phases", "setattr.fraction_tt", "setattr.node_spacing", "setattr.node_count"), rule="an old table keeps its travel times, spacing and node count")
    behaves(c, "gradient", CR + "_velocity_gradient", "lut.gradient", rule="velocity gradient of a layer")
    behaves(c, "section_grid", CR + "_grid_string", "lut.section_grid", rule="the section reaches past the farthest node and below the deepest")
