"""The calls users write: import paths, parameter order and defaults (property C21). A class stands for its
constructor; Class__method for a method. Analysed, never run."""
from quakemigrate import Archive, LUT, QuakeScan, Trigger, read_nlloc  # noqa
from quakemigrate.export.to_mfast import sac_mfast  # noqa
from quakemigrate.export.to_nlloc import nlloc_obs  # noqa
from quakemigrate.export.to_obspy import read_quakemigrate  # noqa
from quakemigrate.export.to_snuffler import snuffler_markers, snuffler_stations  # noqa
from quakemigrate.io import (  # noqa
    Event, Run, read_availability, read_coalescence, read_lut, read_response_inv, read_scanmseed, read_stations,
    read_triggered_events, read_vmodel, stations, write_amplitudes, write_availability, write_coalescence, write_cut_waveforms, write_triggered_events)
from quakemigrate.lut import compute_traveltimes, update_lut  # noqa
from quakemigrate.signal.local_mag import LocalMag  # noqa
from quakemigrate.signal.onsets import CentredSTALTAOnset, ClassicSTALTAOnset, Onset, STALTAOnset  # noqa
from quakemigrate.signal.pickers import GaussianPicker, PhasePicker  # noqa



def Archive(self, archive_path, stations, archive_format=None, **kwargs): ...
def Archive__path_structure(self, archive_format="YEAR/JD/STATION", channels="*"): ...
def LUT(self, fraction_tt=0.1, lut_file=None, **grid_spec): ...
def LUT__decimate(self, df, inplace=False): ...
def LUT__index2coord(self, value, inverse=False, unravel=False): ...
def LUT__index2grid(self, value, inverse=False, unravel=False): ...
def LUT__coord2grid(self, value, inverse=False): ...
def LUT__get_grid_extent(self, cells=False): ...
def LUT__serve_traveltimes(self, sampling_rate, availability=None): ...
def LUT__traveltime_to(self, phase, ijk, station=None): ...
def LUT__save(self, filename): ...
def LUT__load(self, filename): ...
def QuakeScan(self, archive, lut, onset, run_path, run_name, **kwargs): ...
def QuakeScan__detect(self, starttime, endtime): ...
def QuakeScan__locate(self, starttime=None, endtime=None, trigger_file=None): ...
def Trigger(self, lut, run_path, run_name, **kwargs): ...
def Trigger__trigger(self, starttime, endtime, region=None, interactive_plot=False): ...
def STALTAOnset(self, **kwargs): ...
def CentredSTALTAOnset(self, **kwargs): ...
def ClassicSTALTAOnset(self, **kwargs): ...
def GaussianPicker(self, onset=None, **kwargs): ...
def PhasePicker(self, **kwargs): ...
def LocalMag(self, amp_params, mag_params, plot_amplitudes=True): ...
def Run(self, path, name, subname="", stage=None, loglevel="info"): ...
def Event__get_hypocentre(self, method="spline"): ...
def Event__get_loc_uncertainty(self, method="gaussian"): ...
def read_nlloc(path, stations, phases=["P", "S"], fraction_tt=0.1, save_file=None, log=False): ...
def compute_traveltimes(grid_spec, stations, method, phases=["P", "S"], fraction_tt=0.1, save_file=None, log=False, **kwargs): ...
def update_lut(old_lut_file, save_file): ...
def read_lut(lut_file): ...
def read_stations(station_file, **kwargs): ...
def stations(station_file, **kwargs): ...
def read_response_inv(response_file, sac_pz_format=False): ...
def read_vmodel(vmodel_file, **kwargs): ...
def read_quakemigrate(run_dir, units, run_subname="", local_mag_ph="S"): ...
def nlloc_obs(event, filename, autopick=True): ...
def sac_mfast(event, stations, output_path, units, filename=None): ...
def snuffler_stations(stations, output_path, filename, network_code=None): ...
def snuffler_markers(event, output_path, filename=None): ...
def read_scanmseed(run, starttime, endtime, pad, ucf): ...
def read_availability(run, starttime, endtime): ...
def read_triggered_events(run, **kwargs): ...
def read_coalescence(fname): ...
