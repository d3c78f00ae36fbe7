"""Reference semantics of local magnitudes (property C14)."""
import logging
import numpy as np


def init(self, magnitude_params={}):
    get = magnitude_params.get
    self.A0 = get("A0")
    if not self.A0:
        raise TypeError("")
    self.use_hyp_dist = get("use_hyp_dist", False)
    self.amp_feature = get("amp_feature", "S_amp")
    self.station_corrections = get("station_corrections", {})
    self.amp_multiplier = get("amp_multiplier", 1.0)
    self.weighted_mean = get("weighted_mean", False)
    self.trace_filter = get("trace_filter")
    self.noise_filter = get("noise_filter", 1.0)
    self.station_filter = get("station_filter")
    self.dist_filter = get("dist_filter", False)
    self.pick_filter = get("pick_filter", False)
    self.r2_only_used = get("r2_only_used", True)


def individual(self, amplitudes):
    amps = amplitudes[self.amp_feature].values * self.amp_multiplier
    noise = amplitudes["Noise_amp"].values * self.amp_multiplier
    gains = amplitudes[f"{self.amp_feature[0]}_filter_gain"]
    if not gains.isnull().values.all():
        noise /= gains
    amps[amps < noise] = np.nan
    amps[amps == 0.0] = np.nan
    if self.use_hyp_dist:
        dist = np.sqrt(amplitudes["epi_dist"].values ** 2 + amplitudes["z_dist"].values ** 2)
    else:
        dist = amplitudes["epi_dist"].values.copy()
    dist[dist == 0.0] = np.nan
    ml, err = self._calc_mags(amplitudes.index, amps, noise, dist)
    out = amplitudes.copy()
    out["ML"] = ml
    out["ML_Err"] = err
    return out


def formula(self, trace_ids, amps, noise_amps, dist):
    corrections = np.array([self.station_corrections[t] if t in self.station_corrections else 0.0 for t in trace_ids])
    attenuation = self._get_attenuation(dist)
    ml = np.log10(amps) + attenuation + corrections
    hi = np.log10(amps + noise_amps) + attenuation + corrections
    lo = np.log10(amps - noise_amps) + attenuation + corrections
    return ml, hi - lo


def attenuation(self, dist):
    if callable(self.A0):
        return self.A0(dist)
    return self._logA0(dist)


def curves(self, dist):
    name = self.A0
    if name == "keir2006":
        return 1.196997 * np.log10(dist / 17.0) + 0.001066 * (dist - 17.0) + 2.0
    if name == "Danakil2017":
        return 1.274336 * np.log10(dist / 17.0) - 0.000273 * (dist - 17.0) + 2.0
    if name == "Greenfield2018_askja":
        return 1.4406 * np.log10(dist / 17.0) + 0.003 * (dist - 17.0) + 2.0
    if name == "Greenfield2018_bardarbunga":
        return 1.2534 * np.log10(dist / 17.0) + 0.0032 * (dist - 17.0) + 2.0
    if name == "Greenfield2018_comb":
        return 1.1999 * np.log10(dist / 17.0) + 0.0016 * (dist - 17.0) + 2.0
    if name == "Hutton-Boore":
        return 1.11 * np.log10(dist / 100.0) + 0.00189 * (dist - 100.0) + 3.0
    if name == "Langston1998":
        return 0.776 * np.log10(dist / 17.0) + 0.000902 * (dist - 17.0) + 2.0
    if name == "UK":
        return 1.11 * np.log10(dist) + 0.00189 * dist - 1.16 * np.exp(-0.2 * dist) - 2.09
    raise ValueError("")


def network(self, magnitudes):
    table = magnitudes.copy()
    table["Station_Correction"] = [self.station_corrections[t] if t in self.station_corrections else 0.0 for t in table.index]
    gains = table[f"{self.amp_feature[0]}_filter_gain"]
    if not gains.isnull().values.all():
        table.loc[:, "Noise_amp"] /= gains
    table = self._filter_mags(table)
    used = table[table["Used"]]
    if len(used) == 0:
        logging.warning("\t    No magnitude observations match the filtering criteria! Skipping.")
        return np.nan, np.nan, np.nan, table
    ml = used["ML"].values
    if self.weighted_mean:
        w = (1 / used["ML_Err"]) ** 2
    else:
        w = np.ones_like(ml)
    mean = np.sum(ml * w) / np.sum(w)
    if len(ml) > 1:
        err = np.sqrt(np.sum(w * (ml - mean) ** 2) / np.sum(w))
    else:
        err = used["ML_Err"].values[0]
    return mean, err, self._mag_r_squared(table, mean, only_used=self.r2_only_used), table


def filters(self, magnitudes):
    table = magnitudes
    table.dropna(subset=[self.amp_feature, "Noise_amp"], inplace=True)
    if self.noise_filter != 0.0:
        above = table[self.amp_feature].values > table["Noise_amp"].values * self.noise_filter
        table["Noise_Filter"] = False
        table.loc[above, "Noise_Filter"] = True
    if self.trace_filter is not None:
        table["Trace_Filter"] = False
        table.loc[table.index.str.contains(self.trace_filter), "Trace_Filter"] = True
    if self.station_filter is not None:
        table["Station_Filter"] = True
        for station in list(self.station_filter):
            table.loc[table.index.str.contains(f".{station}.", regex=False), "Station_Filter"] = False
    if self.use_hyp_dist:
        dist = np.sqrt(table["epi_dist"].values ** 2 + table["z_dist"].values ** 2)
    else:
        dist = table["epi_dist"].values.copy()
    if self.dist_filter:
        table["Dist_Filter"] = False
        table.loc[(dist <= self.dist_filter), "Dist_Filter"] = True
    dist[dist == 0.0] = np.nan
    table["Dist"] = dist
    table["Used"] = table["ML"].notnull()
    if self.trace_filter is not None:
        table.loc[~table["Trace_Filter"], "Used"] = False
    if self.station_filter is not None:
        table.loc[~table["Station_Filter"], "Used"] = False
    if self.dist_filter:
        table.loc[~table["Dist_Filter"], "Used"] = False
    if self.pick_filter:
        table.loc[~table["is_picked"], "Used"] = False
    if self.noise_filter != 0.0:
        table.loc[~table["Noise_Filter"], "Used"] = False
    return table


def fit_quality(self, magnitudes, mean_mag, only_used=True):
    table = magnitudes
    if only_used:
        table = table[table["Used"]]
    else:
        if self.trace_filter is not None:
            table = table[table["Trace_Filter"]]
        if self.station_filter is not None:
            table = table[table["Station_Filter"]]
        if self.dist_filter:
            table = table[table["Dist_Filter"]]
        if self.noise_filter <= 0.0:
            raise AttributeError("")
        for _, row in table[~table["Noise_Filter"]].iterrows():
            noise = row["Noise_amp"] * self.amp_multiplier * np.power(10, row["Station_Correction"])
            predicted = np.power(10, (mean_mag - self._get_attenuation(row["Dist"])))
            if predicted / noise < 5:
                table = table.drop(labels=row.name)
    amps = table[self.amp_feature].values * self.amp_multiplier * np.power(10, table["Station_Correction"])
    if len(amps) < 2 or amps.min() == amps.max():
        logging.info("\t    Insufficient amplitude measurements to make an r2 estimate - skipping.")
        return np.nan
    predicted = mean_mag - self._get_attenuation(table["Dist"])
    log_amps = np.log10(amps)
    total = ((log_amps - log_amps.mean()) ** 2).sum()
    unexplained = ((log_amps - predicted) ** 2).sum()
    return (total - unexplained) / total


def calc(self, event, lut, run):
    from quakemigrate.io import write_amplitudes

    table = self.amp.get_amplitudes(event, lut)
    if table[self.mag.amp_feature].isnull().all():
        logging.warning("\t\tNo amplitude measurements were made! Skipping magnitude calculation")
        write_amplitudes(run, table, event)
        event.add_local_magnitude(np.nan, np.nan, np.nan)
        return event, np.nan
    table = self.mag.calculate_magnitudes(table)
    write_amplitudes(run, table, event)
    mag, err, r2, used = self.mag.mean_magnitude(table)
    event.add_local_magnitude(mag, err, r2)
    if self.plot and mag is not np.nan:
        self.mag.plot_amplitudes(used, event, run, lut.unit_conversion_factor, self.amp.noise_measure)
    return event, mag


def add(self, mag, mag_err, mag_r2):
    self.localmag = {"ML": mag, "ML_Err": mag_err, "ML_r2": mag_r2}


def local_init(self, amp_params, mag_params, plot_amplitudes=True):
    from quakemigrate.signal.local_mag.amplitude import Amplitude
    from quakemigrate.signal.local_mag.magnitude import Magnitude

    self.amp = Amplitude(amp_params)
    self.mag = Magnitude(mag_params)
    self.plot = plot_amplitudes
