"""Reference semantics of phase picking (property C12)."""
import numpy as np
import pandas as pd
from scipy.optimize import curve_fit
from quakemigrate import util

MISSING = -1


def init(self, onset=None, **kwargs):
    self.onset = onset
    self.threshold_method = kwargs.get("threshold_method", "MAD")
    if self.threshold_method == "percentile":
        self.percentile_pick_threshold = kwargs.get("percentile_pick_threshold", 1.0)
    elif self.threshold_method == "MAD":
        self.mad_pick_threshold = kwargs.get("mad_pick_threshold", 8.0)
    else:
        raise util.InvalidPickThresholdMethodException
    if kwargs.get("pick_threshold"):
        raise AttributeError("")
    self.plot_picks = kwargs.get("plot_picks", False)
    self.write_seed_ids = kwargs.get("write_seed_ids", False)
    self._fraction_tt = kwargs.get("fraction_tt")


def pick(self, event, lut, run):
    _, onset_data = self.onset.calculate_onsets(event.data, timespan=4 * event.marginal_window)
    fraction = lut.fraction_tt if self._fraction_tt is None else self._fraction_tt
    source = lut.index2coord(event.hypocentre, inverse=True)[0]
    names = ["Station", "Phase", "ModelledTime", "PickTime", "PickError", "SNR", "Residual"]
    if self.write_seed_ids:
        names = ["Station", "SEED_ids", "Phase", "ModelledTime", "PickTime", "PickError", "SNR", "Residual"]
    table = pd.DataFrame(index=np.arange(sum([len(o) for o in onset_data.onsets.values()])), columns=names)
    fits = {}
    windows = {}
    row = 0
    for station, onsets in onset_data.onsets.items():
        for phase, onset in onsets.items():
            tt = lut.traveltime_to(phase, source, station)[0]
            windows.setdefault(station, {}).update({phase: self._determine_window(event, onset_data, tt, fraction)})
            n = len(onset)
        self._distinguish_windows(windows[station], list(onsets.keys()), n)
        for phase, onset in onsets.items():
            noise = self._find_pick_threshold(onset, windows[station], self.threshold_method)
            fit, *found = self._fit_gaussian(
                onset, onset_data.sampling_rate, self.onset.gaussian_halfwidth(phase), onset_data.starttime, noise, windows[station][phase])
            fits.setdefault(station, {}).update({phase: fit})
            model = event.otime + lut.traveltime_to(phase, source, station)[0]
            residual = MISSING if found[0] == MISSING else found[0] - model
            if self.write_seed_ids:
                used = onset_data.filtered_waveforms.select(station=station, channel=self.onset.channel_maps[phase])
                table.iloc[row] = [station, sorted({tr.id for tr in used}), phase, model, *found, residual]
            else:
                table.iloc[row] = [station, phase, model, *found, residual]
            row += 1
    event.add_picks(table, gaussfits=fits, pick_windows=windows)
    self.write(run, event.uid, table)
    if self.plot_picks:
        for station, onsets in onset_data.onsets.items():
            self.plot(event, station, onset_data, table, [lut.traveltime_to(phase, source, station)[0] for phase in onsets.keys()], run)
    return event, table


def window(self, event, onset_data, tt, fraction_tt):
    centre = util.time2sample(event.otime + tt - onset_data.starttime, onset_data.sampling_rate)
    half = util.time2sample(tt * fraction_tt + event.marginal_window, onset_data.sampling_rate)
    return [centre - half, centre, centre + half]


def separate(self, windows, phases, samples):
    order = sorted(phases, key=lambda phase: windows[phase][1])
    if windows[order[0]][0] < 0:
        windows[order[0]][0] = 0
    for a, b in util.pairwise(order):
        middle = int((windows[a][1] + windows[b][1]) / 2)
        windows[a][2] = min(middle, windows[a][2])
        windows[b][0] = max(middle, windows[b][0])
    if windows[order[-1]][2] > samples:
        windows[order[-1]][2] = samples


def threshold(self, onset, windows, method):
    noise = onset.copy()
    for w in windows.values():
        noise[w[0]:w[2]] = -1
    noise = noise[noise > 1]
    if len(noise) == 0:
        return np.nan
    if method == "percentile":
        level = np.percentile(noise, self.percentile_pick_threshold * 100)
    elif method == "MAD":
        level = np.median(noise) + util.calculate_mad(noise) * self.mad_pick_threshold
    else:
        raise util.InvalidPickThresholdMethodException
    return level


def mad(x, scale=1.4826):
    x = np.asarray(x)
    if not x.size:
        return np.nan
    if np.isnan(np.sum(x)):
        return np.nan
    return scale * np.median(np.abs(x - np.apply_over_axes(np.median, x, 0)), axis=0)


def gaussian(x, a, b, c):
    return a * np.exp(-1.0 * (x - b) ** 2 / (2 * c**2))


def failure(self, pick_threshold):
    fit = self.DEFAULT_GAUSSIAN_FIT.copy()
    fit["PickThreshold"] = pick_threshold
    return fit, MISSING, MISSING, MISSING


def fit(self, onset, sampling_rate, halfwidth, starttime, pick_threshold, window):
    try:
        peak = self._find_peak(onset[window[0]:window[2]], pick_threshold)
    except util.NoOnsetPeak:
        return self._pick_failure(pick_threshold)
    # one more sample on either side
    first = window[0] + (peak[0] - 1)
    last = window[0] + (peak[1] + 1)
    x = np.arange(first, last) / sampling_rate
    y = onset[first:last]
    guess = [max(y), (first + np.argmax(y)) / sampling_rate, halfwidth / sampling_rate]
    try:
        best, _ = curve_fit(util.gaussian_1d, x, y, guess)
    except (ValueError, RuntimeError):
        return self._pick_failure(pick_threshold)
    except TypeError:
        return self._pick_failure(pick_threshold)
    if not (window[0] < best[1] * sampling_rate and best[1] * sampling_rate < window[2]):
        return self._pick_failure(pick_threshold)
    return (
        {"popt": best, "xdata": x, "xdata_dt": np.array([starttime + t for t in x]), "PickValue": best[0], "PickThreshold": pick_threshold},
        starttime + float(best[1]),
        np.absolute(best[2]),
        best[0],
    )


def peak(self, windowed_onset, pick_threshold):
    over = np.where(windowed_onset > pick_threshold)[0]
    if len(over) == 0:
        raise util.NoOnsetPeak(pick_threshold)
    runs = np.split(over, np.where(np.diff(over) != 1)[0] + 1)
    top = np.argmax(windowed_onset)
    for i, run in enumerate(runs):
        if np.any(run == top):
            break
    if len(runs[i]) < 2:
        raise util.NoOnsetPeak(pick_threshold)
    return [runs[i][0], runs[i][-1] + 1]


def write(self, run, event_uid, phase_picks):
    folder = run.path / "locate" / run.subname / "picks"
    folder.mkdir(exist_ok=True, parents=True)
    table = phase_picks.copy()
    for name in ["PickError", "SNR"]:
        table[name] = table[name].map(lambda x: f"{x:.3g}", na_action="ignore")
    table.to_csv((folder / f"{event_uid}").with_suffix(".picks"), index=False)


def add_picks(self, pick_df, **kwargs):
    self.picks["df"] = pick_df
    for key, value in kwargs.items():
        self.picks[key] = value


def traveltime_to(self, phase, ijk, station=None):
    axes = tuple([np.arange(n) for n in self.node_count])
    if station is None:
        grids = self._serve_traveltimes([phase])
    elif isinstance(station, str):
        grids = self._serve_traveltimes([phase], [station])
    else:
        grids = self._serve_traveltimes([phase], station)
    return RegularGridInterpolator(axes, grids, bounds_error=False, fill_value=None)(ijk)[0]


from scipy.interpolate import RegularGridInterpolator
