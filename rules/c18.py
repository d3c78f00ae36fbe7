"""C18: waveforms are read for the requested window and completeness is judged correctly."""
from .common import *
from qmsa.equiv import behaves
from . import c07

LEVEL_NOTE = (
    "Archive paths, reading, merging, shifting to samples, resampling and the availability tests are interpreted "
    "abstractly for symbolic archives, windows and settings and compared, as normal forms, with reference definitions "
    "(ref/archive.py, analysed and never run). Reading and filtering of single files is ObsPy's and external."
)
FLOOR = 30
U = P + "util."
DAT = P + "io.data.WaveformData"


def rules(c):
    c.do(archive)
    c.do(reading)
    c.do(judging)
    c.do(sampling)
    c.do(c07.processing)


def archive(c):
    behaves(c, "archive", ARCHIVE + ".__init__", "archive.archive", ret=False, opaque={"Archive.path_structure"}, calls=("Archive.path_structure",),
            fields=("archive_path", "stations", "format", "read_all_stations", "resample", "upfactor", "interpolate", "response_inv", "water_level", "pre_filt", "remove_full_response"),
            rule="settings are kept as given, with the documented defaults")
    behaves(c, "layout", ARCHIVE + ".path_structure", "archive.layout", ret=False, fields=("format",), raises=("ArchivePathStructureError",), rule="the documented layouts; anything else is refused")
    behaves(c, "data", DAT + ".__init__", "archive.waveform_data", ret=False, fields=(
        "starttime", "endtime", "stations", "response_inv", "water_level", "pre_filt", "remove_full_response", "read_all_stations", "resample", "upfactor", "pre_pad", "post_pad",
        "raw_waveforms", "waveforms", "wa_waveforms", "real_waveforms"), rule="window and settings are kept; no waveforms yet")


def reading(c):
    behaves(c, "files", ARCHIVE + "._load_from_path", "archive.files", raises=("ArchiveFormatException",), calls=(".glob",), rule="files of every day the window touches, of the stations asked for")
    behaves(c, "read", ARCHIVE + ".read_waveform_data", "archive.waveforms", opaque={"Archive._load_from_path", "util.merge_stream", "util.shift_to_sample", "WaveformData.__init__"},
            raises=("DataGapException", "ArchiveEmptyException"), calls=("Archive._load_from_path", "util.merge_stream", "util.shift_to_sample", "WaveformData.__init__", "obspy.read"),
            mutates=("trim", "remove"), sets=("raw_waveforms", "waveforms"), rule="padded window read, merged, originals kept, shifted, selected, cut to the window")
    behaves(c, "merge", U + "merge_stream", "archive.merged", mutates=("merge",), rule="fragments of each channel joined, a failing channel left out")


def judging(c):
    behaves(c, "available", DAT + ".check_availability", "archive.availability", raises=("TypeError",), rule="present, not flat, no overlap, and as configured without gaps, at the rate, over the window")


def sampling(c):
    behaves(c, "on_sample", U + "shift_to_sample", "archive.on_sample", mutates=("interpolate", "setattr.data", "setattr.starttime"), rule="moved by less than half a sample to a multiple of the sample interval")
    behaves(c, "resample", U + "resample", "archive.resample", opaque={"util.decimate", "util.upsample"}, calls=("util.decimate", "util.upsample"), raises=("BadUpfactorException",), mutates=("trim", "remove"),
            rule="decimated if possible, else resampled if asked")
    behaves(c, "decimate", U + "decimate", "archive.decimate", mutates=("detrend", "taper", "filter", "decimate"), rule="filtered below the new Nyquist frequency, on a copy")
    behaves(c, "upsample", U + "upsample", "archive.upsample", mutates=("trim",), rule="linear between samples, constant beyond them, on the finer grid")
