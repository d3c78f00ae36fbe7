"""Required figures: what each draws, and where (property C22)."""
import logging

import matplotlib.pyplot as plt
import numpy as np
import pandas as pd
from matplotlib.gridspec import GridSpec
from matplotlib.patches import Ellipse
from mpl_toolkits.axes_grid1.anchored_artists import AnchoredSizeBar

import quakemigrate.util as util
from quakemigrate.io import read_availability
from quakemigrate.plot.amplitudes import amplitudes_summary, label_stations
from quakemigrate.plot.phase_picks import pick_summary

CLOCK = "%H:%M:%S.{ms}"


# --- common parts -----------------------------------------------------------------------------------------------------
def overlays(table, ax):
    if table is None:
        return
    table = pd.read_csv(table, names=["File", "Color", "Linewidth", "Linestyle"], header=None, comment="#")
    for _, entry in table.iterrows():
        line = pd.read_csv(entry["File"], names=["Longitude", "Latitude"], header=None, comment="#")
        ax.plot(line["Longitude"], line["Latitude"], c=entry["Color"], lw=entry["Linewidth"], ls=entry["Linestyle"])


def overlays_values(table, ax):
    if table is None:
        return
    table = pd.read_csv(table, names=["File", "Color", "Linewidth", "Linestyle"], header=None, comment="#")
    for _, entry in table.iterrows():
        line = pd.read_csv(entry["File"], names=["Longitude", "Latitude"], header=None, comment="#")
        ax.plot(line["Longitude"].values, line["Latitude"].values, c=entry["Color"], lw=entry["Linewidth"], ls=entry["Linestyle"])


def component_strings(channel_maps):
    p_comps = list(channel_maps["P"].strip("*").strip("[").strip("]"))[::2]
    s_comps = list(channel_maps["S"].strip("*").strip("[").strip("]"))[::2]
    p_str, s_str_1, s_str_2 = "", "", ""
    for p_comp in p_comps:
        p_str += f"{p_comp},"
    letters = [s_comps[i] for i in np.where([not x.isnumeric() for x in s_comps])[0]]
    digits = [s_comps[i] for i in np.where([x.isnumeric() for x in s_comps])[0]]
    if letters and digits:
        for i, (a, n) in enumerate(zip(letters, digits)):
            if i == 0:
                s_str_1 += f"{a},{n},"
            elif i == 1:
                s_str_2 += f"{a},{n},"
    else:
        for comps in [letters, digits]:
            if comps:
                s_str_1 += f"{comps[0]},"
                if len(comps) > 1:
                    s_str_2 += f"{comps[1]},"
    return f"[{p_str.rstrip(',')}]", f"[{s_str_1.rstrip(',')}]", f"[{s_str_2.rstrip(',')}]"


def clock_init(self, fmt, precision=3):
    self.fmt = fmt
    self.precision = precision


def clock(self, x, pos=0):
    if x == 0:
        raise ValueError
    moment = self.num2date(x)
    return moment.strftime(self.fmt).format(ms=moment.strftime("%f")[: self.precision])


# --- trigger ----------------------------------------------------------------------------------------------------------
def tag(ax, text):
    ax.text(0.01, 0.925, text)


def trigger_series(ax, when, values, label):
    ax.plot(when, values, label="Coalesence value")
    tag(ax, label)
    ax.set_ylabel(label)
    ax.xaxis.set_major_formatter(util.DateFormatter(CLOCK, 2))


def trigger_availability(ax, availability, endtime):
    phases = sorted(set([name.split("_")[1] for name in availability.columns]))
    if len(phases) > 2:
        share = len(phases)
        phases = ["*"]
        colours = ["green"]
    elif len(phases) == 1:
        if phases[0] == "P":
            colours = ["#F03B20"]
        else:
            colours = ["#3182BD"]
    elif (availability.filter(like=f"_{phases[0]}").values == availability.filter(like=f"_{phases[1]}").values).all():
        share = len(phases)
        phases = ["*"]
        colours = ["green"]
    else:
        colours = ["#F03B20", "#3182BD"]
    highest = []
    lowest = []
    for phase, _ in zip(phases, colours):
        count = availability.filter(regex=f"_{phase}$").sum(axis=1).astype(int)
        when = list(pd.to_datetime(count.index).tz_localize(None))
        if phases[0] == "*":
            count = (count / share).astype(int)
        count = count.values
        count = np.append(count, [count[-1]])
        when.append(pd.to_datetime(endtime.datetime))
        ax.step(when, count, where="post", label=phase)
        highest.append(max(count))
        lowest.append(min(count))
    tag(ax, "Station availability")
    ax.set_ylim([int(min(lowest) * 0.8), int(np.ceil(max(highest) * 1.1))])
    ax.set_yticks(range(int(min(lowest) * 0.8), int(np.ceil(max(highest) * 1.1)) + 1))
    ax.xaxis.set_major_formatter(util.DateFormatter(CLOCK, 2))
    ax.set_xlabel("DateTime")
    ax.set_ylabel("Available stations")


def trigger_windows(axes, events, marginal_window, discarded=False):
    for _, event in events.iterrows():
        first, last = event["MinTime"].datetime, event["MaxTime"].datetime
        opens = (event["CoaTime"] - marginal_window).datetime
        closes = (event["CoaTime"] + marginal_window).datetime
        for ax in axes:
            if discarded:
                ax.axvspan(first, last)
                ax.axvline(event["CoaTime"].datetime)
            else:
                ax.axvspan(first, opens, label="Minimum event interval")
                ax.axvspan(closes, last)
                ax.axvspan(opens, closes, label="Marginal window")
                ax.axvline(event["CoaTime"].datetime, label="Triggered event")


def trigger_scatter(fig, events, discarded=False):
    x, y, z = events[["COA_X", "COA_Y", "COA_Z"]].values.T
    if discarded:
        fig.axes[3].scatter(x, y, c="grey")
        fig.axes[4].scatter(x, z, c="grey")
        fig.axes[5].scatter(z, y, c="grey")
    else:
        low, high = events["TRIG_COA"].min() * 0.999, events["TRIG_COA"].max() * 1.001
        peak = events["TRIG_COA"].values
        shown = fig.axes[3].scatter(x, y, c=peak, vmin=low, vmax=high)
        fig.axes[4].scatter(x, z, c=peak, vmin=low, vmax=high)
        fig.axes[5].scatter(z, y, c=peak, vmin=low, vmax=high)
        cax = plt.subplot2grid((9, 18), (7, 5), colspan=2, rowspan=2, fig=fig)
        bar = fig.colorbar(shown, ax=cax)
        bar.ax.set_xlabel("Peak coalescence value")


def trigger_text(ax, events, threshold_string, marginal_window, min_event_interval, normalise_coalescence):
    which = "normalised coalescence" if normalise_coalescence else "coalescence"
    ax.text(0.45, 0.65, "Trigger threshold:")
    ax.text(0.47, 0.65, f"{threshold_string}")
    ax.text(0.45, 0.5, "Marginal window:")
    ax.text(0.47, 0.5, f"{marginal_window} s")
    ax.text(0.45, 0.35, "Minimum event interval:")
    ax.text(0.47, 0.35, f"{min_event_interval} s")
    ax.text(0.42, 0.15, f"Triggered {len(events)} event(s) on the {which} trace.")


def trigger_region(axes, region):
    west, south, top, east, north, bottom = region
    axes[0].plot([west, west, east, east, west], [south, north, north, south, south])
    axes[1].plot([west, west, east, east, west], [top, bottom, bottom, top, top])
    axes[2].plot([top, bottom, bottom, top, top], [south, south, north, north, south])


def trigger_figure(events, starttime, endtime, run, marginal_window, min_event_interval, detection_threshold, threshold_string, normalise_coalescence, lut, data, region,
                   discarded_events, interactive, xy_files=None, plot_all_stns=True):
    when = pd.to_datetime(data["DT"].astype(str)).values
    fig = plt.figure(figsize=(30, 15))
    for row in [0, 3, 6]:
        ax = plt.subplot2grid((9, 18), (row, 8), colspan=10, rowspan=3, fig=fig)
        ax.set_xlim([starttime.datetime, endtime.datetime])
    for ax in fig.axes[:2]:
        ax.sharex(fig.axes[2])
    trigger_series(fig.axes[0], when, data.COA.values, "Maximum coalescence")
    trigger_series(fig.axes[1], when, data.COA_N.values, "Normalised maximum coalescence")
    try:
        availability = read_availability(run, starttime, endtime)
        trigger_availability(fig.axes[2], availability, endtime)
    except util.NoStationAvailabilityDataException:
        availability = None
    if availability is None:
        lut.plot(fig, (9, 18))
    else:
        stations = []
        if plot_all_stns:
            stations = [name.split("_")[0] for name in availability.columns]
        else:
            for name, there in availability.items():
                if np.any(there == 1):
                    stations.append(name.split("_")[0])
        lut.plot(fig, (9, 18), station_list=list(set(sorted(stations))))
    overlays(xy_files, fig.axes[3])
    if region is not None:
        trigger_region(fig.axes[3:], region)
        trigger_windows(fig.axes[:2], discarded_events, marginal_window, True)
        trigger_scatter(fig, discarded_events, True)
    if not events.empty:
        trigger_windows(fig.axes[:2], events, marginal_window)
        trigger_scatter(fig, events)
    used = 1 if normalise_coalescence else 0
    fig.axes[used].step(when, detection_threshold, where="mid", label="Detection threshold")
    text = plt.subplot2grid((9, 18), (0, 0), colspan=8, rowspan=2, fig=fig)
    text.text(0.42, 0.8, f"{starttime.strftime('%Y-%m-%d %H:%M:%S')}  -  {endtime.strftime('%Y-%m-%d %H:%M:%S')}")
    trigger_text(text, events, threshold_string, marginal_window, min_event_interval, normalise_coalescence)
    fpath = run.path / "trigger" / run.subname / "summaries"
    plt.savefig(str((fpath / f"{run.name}_{starttime.year}_{starttime.julday:03d}_Trigger").with_suffix(".pdf")))
    if interactive:
        plt.show()


# --- event ------------------------------------------------------------------------------------------------------------
def event_gather(ax, lut, event, peak, stations):
    phases = event.onset_data.phases
    tts = np.array([lut.traveltime_to(phase, peak, stations) for phase in phases])
    arrivals = [[(event.otime + tt).datetime for tt in of_phase] for of_phase in tts]
    heights = abs(np.argsort(np.argsort(arrivals[0])) - len(arrivals[0])) * 2
    colours = ["#F03B20", "#3182BD"]
    if len(phases) == 1:
        if phases[0] == "P":
            colours = ["#F03B20"]
    for arrival, colour, phase in zip(arrivals, colours, phases):
        ax.scatter(arrival, heights, c=colour, label=f"Modelled {phase}")
    waves = event.onset_data.filtered_waveforms
    p_str, s_str_1, s_str_2 = util.get_phase_component_strings(event.onset_data.channel_maps)
    first = event.otime - 0.1
    last = min(event.otime + np.max(tts) * 1.5, event.data.endtime)
    when = waves[0].times("UTCDateTime")
    i0, i1 = [np.argmin(abs(when - t)) for t in (first, last)]
    for i, station in enumerate(stations):
        here = waves.select(station=station)
        for colour, comps, phase in zip(["#FB9A99", "#7570b3", "#1b9e77"], [p_str, s_str_1, s_str_2], ["P", "S", "S"]):
            traces = here.select(component=comps)
            if not bool(traces):
                continue
            for tr in traces:
                end = event.otime + max(tts[:, i]) * 1.5
                norm = max(abs(tr.data[i0 : np.argmin(abs(when - end))]))
                ax.plot(tr.times("matplotlib")[i0:i1], tr.data[i0:i1] / norm + heights[i], c=colour, label=f"{tr.stats.component} component ({phase})")
    ax.set_xlim([first.datetime, last.datetime])
    ax.set_ylim([0, max(heights) + 2])
    ax.xaxis.set_major_formatter(util.DateFormatter(CLOCK, 2))
    ax.yaxis.set_ticks(heights)
    ax.yaxis.set_ticklabels(stations)


def event_series(ax, event):
    when = [x.datetime for x in event.coa_data["DT"]]
    ax.plot(when, event.coa_data["COA"], label="Maximum coalescence")
    ax.set_ylabel("Maximum coalescence")
    ax.set_xlabel("DateTime")
    ax.set_xlim([when[0], when[-1]])
    ax.xaxis.set_major_formatter(util.DateFormatter(CLOCK, 2))


def event_text(ax, lut, event):
    per_km = 1000 / lut.unit_conversion_factor
    digits = [max((p + 2), 6) for p in lut.precision[:2]]
    digits.append(max((lut.precision[2] + 2), 3 if lut.unit_name == "km" else 0))
    where = [round(v, d) for v, d in zip(event.hypocentre, digits)]
    error = [round(v, digits[2]) for v in event.loc_uncertainty / per_km]
    ax.text(0.25, 0.8, f"Event: {event.uid}")
    ax.text(0.35, 0.65, "Origin time:")
    ax.text(0.37, 0.65, f"{event.otime.strftime('%Y-%m-%d %H:%M:%S.')}{event.otime.strftime('%f')[:3]}")
    ax.text(0.35, 0.55, "Hypocentre:")
    ax.text(0.37, 0.55, f"{where[1]}\u00b0N \u00b1 {error[1]} km\n{where[0]}\u00b0E \u00b1 {error[0]} km\n{where[2] / per_km} \u00b1 {error[2]} km")
    ax.text(0.35, 0.22, "Geometric mean covariance:")
    ax.text(0.37, 0.22, f"{event.locations['covariance']['Err_XYZ']:.3g}")
    found = event.local_magnitude
    if found is not None:
        mag, mag_err, mag_r2 = found
        ax.text(0.35, 0.09, "Local magnitude:")
        ax.text(0.37, 0.09, f"{mag:.3g} \u00b1 {mag_err:.3g}   r\u00b2 = {mag_r2:.3g}")


def event_ellipses(lut, event, uncertainty, clr):
    centre = event.get_hypocentre(method=uncertainty)
    error = event.get_loc_uncertainty(method=uncertainty)
    xyz = lut.coord2grid(centre)[0]
    half = abs(centre - lut.coord2grid(xyz + error, inverse=True))[0]
    label = f"{uncertainty.capitalize()} uncertainty"
    xy = Ellipse((centre[0], centre[1]), 2 * half[0], 2 * half[1], lw=2, edgecolor=clr, fill=False, label=label)
    xz = Ellipse((centre[0], centre[2]), 2 * half[0], 2 * half[2], lw=2, edgecolor=clr, fill=False)
    yz = Ellipse((centre[2], centre[1]), 2 * half[2], 2 * half[1], lw=2, edgecolor=clr, fill=False)
    return xy, xz, yz


def event_figure(run, event, marginalised_coa_map, lut, xy_files=None, plot_all_stns=True):
    grid = np.ma.masked_invalid(marginalised_coa_map)
    peak = np.column_stack(np.where(grid == np.nanmax(grid)))[0]
    slices = [grid[:, :, peak[2]], grid[:, peak[1], :], grid[peak[0], :, :].T]
    fig = plt.figure(figsize=(25, 15))
    fig.add_subplot(GridSpec(9, 15).new_subplotspec((0, 8), colspan=7, rowspan=7))
    fig.add_subplot(GridSpec(9, 15).new_subplotspec((7, 8), colspan=7, rowspan=2))
    if plot_all_stns:
        stations = event.data.stations
    else:
        stations = []
        for key, there in event.onset_data.availability.items():
            station, _ = key.split("_")
            if there == 1:
                stations.append(station)
        stations = list(set(sorted(stations)))
    lut.plot(fig, (9, 15), slices, event.hypocentre, "white", stations)
    event_gather(fig.axes[0], lut, event, peak, stations)
    event_series(fig.axes[1], event)
    overlays_values(xy_files, fig.axes[2])
    for ax in fig.axes[:2]:
        ax.axvline(event.otime.datetime, label="Origin time")
    for ax, ellipse in zip(fig.axes[2:], event_ellipses(lut, event, "gaussian", "k")):
        ax.add_patch(ellipse)
    text = plt.subplot2grid((9, 15), (0, 0), colspan=8, rowspan=2, fig=fig)
    event_text(text, lut, event)
    fpath = run.path / "locate" / run.subname / "summaries"
    plt.savefig((fpath / f"{run.name}_{event.uid}_EventSummary").with_suffix(".pdf"), dpi=400)


# --- picks ------------------------------------------------------------------------------------------------------------
def pick_lines(ax, pick, clr):
    half = pick["PickError"] / 2
    ax.axvline((pick["PickTime"] - half).datetime, c=clr)
    ax.axvline((pick["PickTime"] + half).datetime, c=clr)
    ax.axvline(pick["PickTime"].datetime, c=clr, label=f"{pick.Phase} pick time")


def pick_figure(event, station, waveforms, picks, onsets, channel_maps, ttimes, windows):
    fig = plt.figure(figsize=(30, 15))
    for i in [2, 1, 3, 4, 5]:
        ax = fig.add_subplot(3, 2, i + 1)
    axes = fig.axes
    axes[0].sharex(axes[3])
    axes[0].set_title("P phase")
    axes[3].set_xlabel("DateTime")
    for ax in axes[1:3]:
        ax.sharex(axes[4])
    axes[1].set_title("S phase")
    axes[4].set_xlabel("DateTime")
    text = fig.add_subplot(3, 2, 1)
    text.text(0.5, 0.8, f"Event: {event.uid}\nStation: {station}")
    otime = event.otime
    times = waveforms[0].times(type="utcdatetime")
    dtimes = [x.datetime for x in times]
    phases = [phase for phase, _ in onsets.items()]
    onsets = [onset for _, onset in onsets.items()]
    opens = otime + 0.5 * ttimes[0]
    closes = otime + 1.5 * ttimes[-1]
    first_win = np.min([v[0] for v in windows.values()]) - 10
    last_win = np.max([v[-1] for v in windows.values()]) + 10
    first = min(np.argmin([abs(t - opens) for t in times]), first_win)
    last = max(np.argmin([abs(t - closes) for t in times]), last_win)
    if first < 0:
        first = 0
    if last >= len(times):
        last = len(times) - 1
    p_str, s_str_1, s_str_2 = util.get_phase_component_strings(channel_maps)
    for i, (ax, comp) in enumerate(zip(axes[:3], [p_str, s_str_1, s_str_2])):
        traces = waveforms.select(component=comp)
        if not bool(traces):
            continue
        for tr in traces:
            y = tr.data
            ax.plot(dtimes[first : last + 1], y[first : last + 1])
        names = ""
        for tr in traces:
            names += f"{tr.id}, "
        ax.text(0.015, 0.95, names.rstrip(", "))
        top = max(abs(y[first_win : last_win + 1]))
        ax.set_ylim(ymin=-1.1 * top, ymax=1.1 * top)
    n = 3
    if len(phases) == 1 and phases[0] == "S":
        n += 1
    for i, (ax, ph) in enumerate(zip(axes[n:5], phases)):
        y = onsets[i]
        ax.plot(dtimes[first : last + 1], y[first : last + 1])
        ax.text(0.015, 0.95, f"{ph} onset")
        fit = event.picks["gaussfits"][station][ph]
        ax.axhline(fit["PickThreshold"], label="Pick threshold")
        text.text(0.05 + i * 0.5, 0.2, f"Pick threshold: {fit['PickThreshold']:5.3f}")
        if not fit["PickValue"] == -1:
            ax.plot([x.datetime for x in fit["xdata_dt"]], util.gaussian_1d(fit["xdata"], fit["popt"][0], fit["popt"][1], fit["popt"][2]))
        win = windows[ph]
        ax.set_ylim(0, max(max(onsets[i][win[0] : win[2] + 1]), fit["PickThreshold"]) * 1.1)
    which = range(5)
    colours = ["#F03B20", "#3182BD"]
    if len(phases) == 1:
        if phases[0] == "P":
            which = [0, 3]
            colours = ["#F03B20"]
        else:
            which = [1, 2, 4]
            colours = ["#3182BD"]
    for ind in which:
        ax = axes[ind]
        p_side = ind % 3 == 0
        model = otime + ttimes[0] if p_side else otime + ttimes[-1]
        ph = phases[0] if p_side else phases[-1]
        ax.axvline(model.datetime, label=f"Modelled {ph} arrival")
        if times[first] < otime:
            ax.axvline(otime.datetime, label="Event origin time")
        win = windows[phases[0]] if p_side else windows[phases[-1]]
        clr = colours[0] if p_side else colours[-1]
        ax.axvspan(dtimes[win[0]], dtimes[win[2]], color=clr, label="Picking window")
        ax.set_xlim(dtimes[first], dtimes[last])
    for i, pick in picks.iterrows():
        if pick["Phase"] == "P":
            c1, c2 = "#F03B20", "gray"
        else:
            c1, c2 = "gray", "#3182BD"
        if pick["PickTime"] != -1:
            for ind in which:
                ax = axes[ind]
                clr = c1 if ind % 3 == 0 else c2
                pick_lines(ax, pick, clr)
        text.text(0.1 + i * 0.5, 0.6, f"{pick.Phase} phase")
        text.text(0.05 + i * 0.5, 0.4, f"Pick time: {pick.PickTime}\nPick error: {pick.PickError:5.3f} s\nPick SNR: {pick.SNR:5.3f}\nPick residual: {pick.Residual:5.3f} s")
    return fig


def pick_plot(self, event, station, onset_data, picks_df, traveltimes, run):
    fpath = run.path / f"locate/{run.subname}/pick_plots/{event.uid}"
    waveforms = onset_data.filtered_waveforms.select(station=station)
    if not bool(waveforms):
        return
    picks = picks_df[picks_df["Station"] == station].reset_index(drop=True)
    pick_summary(event, station, waveforms, picks, onset_data.onsets[station], onset_data.channel_maps, traveltimes, event.picks["pick_windows"][station])
    plt.savefig((fpath / f"{event.uid}_{station}").with_suffix(".pdf"))


# --- amplitudes -------------------------------------------------------------------------------------------------------
def amplitude_figure(magnitudes, amp_feature, amp_multiplier, dist_err, r_squared, noise_measure="RMS"):
    fig = plt.figure(figsize=(25, 15))
    ax = fig.add_subplot(111)
    noise = magnitudes["Noise_amp"].values * amp_multiplier * np.power(10, magnitudes["Station_Correction"])
    ax.set_xscale("log")
    ax.set_yscale("log")
    ax.scatter(magnitudes["Dist"], noise, label=f"Noise amplitude ({noise_measure} amplitude in noise window)")
    ax.axhline(np.median(noise), label="Median noise amplitude")
    used = magnitudes[magnitudes["Used"]]
    measured = used[amp_feature] * amp_multiplier * np.power(10, used["Station_Correction"])
    ax.errorbar(used["Dist"], measured, xerr=dist_err, yerr=noise[magnitudes["Used"]], label=f"Signal amplitude (max amplitude in {amp_feature[0]}-wave signal window)")
    ax, stations = label_stations(ax, used.index, measured, used["Dist"])
    left = magnitudes[~magnitudes["Used"]]
    if len(left) > 0:
        ax.errorbar(left["Dist"], left[amp_feature] * amp_multiplier * np.power(10, left["Station_Correction"]), xerr=dist_err,
                    yerr=noise[~magnitudes["Used"]], label=f"Unused {amp_feature[0]}-wave amplitude observations")
        traces, amps, dists = [], [], []
        for i, trace in enumerate(left.index):
            if trace[:-1] not in stations:
                traces.append(trace)
                amps.append(left[amp_feature].iloc[i] * amp_multiplier * np.power(10, left["Station_Correction"].iloc[i]))
                dists.append(left["Dist"].iloc[i])
        label_stations(ax, traces, pd.Series(amps), pd.Series(dists), rejected=True)
    ax.text(0.98, 0.02, f"r-squared: {r_squared:.2f}")
    return fig, ax


def amplitude_plot(self, magnitudes, event, run, unit_conversion_factor, noise_measure="RMS"):
    mag, mag_err = event.localmag["ML"], event.localmag["ML_Err"]
    x_err, y_err, z_err = event.get_loc_uncertainty("gaussian") / (1000 / unit_conversion_factor)
    error = np.sqrt(x_err**2 + y_err**2)
    if self.use_hyp_dist:
        error = np.sqrt(error**2 + z_err**2)
    scale = self.amp_multiplier
    station = np.power(10, magnitudes["Station_Correction"])
    highest = (magnitudes[self.amp_feature].values * scale * station).max() * 5
    lowest = (magnitudes["Noise_amp"].values * scale * station).min() / 10
    near, far = magnitudes["Dist"].min() / 2, magnitudes["Dist"].max() * 1.5
    _, ax = amplitudes_summary(magnitudes, self.amp_feature, scale, error, event.localmag["ML_r2"], noise_measure)
    distances = np.linspace(near, far, 10000)
    att = self._get_attenuation(distances)
    predicted = np.power(10, (mag - att))
    ax.plot(distances, predicted, label=f'Predicted amplitude for ML = {mag:.2f} \u00B1 {mag_err:.2f}\nusing attenuation curve "{self.A0}"')
    ax.plot(distances, np.power(10, (mag + mag_err - att)))
    ax.plot(distances, np.power(10, (mag - mag_err - att)))
    if self.dist_filter:
        ax.axvline(self.dist_filter, label="Distance filter")
    ax.set_xlim(near, far)
    ax.set_ylim(lowest, max(np.max(predicted), highest))
    ax.set_title(f'Amplitude vs distance plot for event: "{event.uid}"')
    ax.set_ylabel("Amplitude / mm")
    ax.set_xlabel("Hypocentral Distance / km" if self.use_hyp_dist else "Epicentral Distance / km")


# --- grid -------------------------------------------------------------------------------------------------------------
def grid_figure(self, fig, gs, slices=None, hypocentre=None, station_clr="k", station_list=None):
    xy = plt.subplot2grid(gs, (2, 0), colspan=5, rowspan=5, fig=fig)
    xz = plt.subplot2grid(gs, (7, 0), colspan=5, rowspan=2, fig=fig)
    yz = plt.subplot2grid(gs, (2, 5), colspan=2, rowspan=5, fig=fig)
    xz.sharex(xy)
    yz.sharey(xy)
    edges = self.get_grid_extent(cells=True)
    extent = abs(edges[1] - edges[0])
    size = self.node_spacing * self.node_count
    xy.set_aspect(aspect=(extent[0] * size[1]) / (extent[1] * size[0]))
    bounds = np.stack(edges, axis=-1)
    for i, j, ax in [(0, 1, xy), (0, 2, xz), (2, 1, yz)]:
        ax.set_xlim([bounds[i][0], bounds[i][1]])
        ax.set_ylim([bounds[j][0], bounds[j][1]])
        if hypocentre is not None:
            ax.axvline(x=hypocentre[i])
            ax.axhline(y=hypocentre[j])
        if slices is None:
            continue
        shown = slices[i + j - 1]
        nx, ny = [dim + 1 for dim in shown.shape]
        g1, g2 = np.mgrid[bounds[i][0] : bounds[i][1] : nx * 1j, bounds[j][0] : bounds[j][1] : ny * 1j]
        sc = ax.pcolormesh(g1, g2, shown)
        if i + j - 1 != 0:
            continue
        cax = plt.subplot2grid(gs, (7, 5), colspan=2, rowspan=2, fig=fig)
        bar = fig.colorbar(sc, ax=cax)
        bar.ax.set_xlabel("Normalised coalescence\nvalue")
    stations = self.station_data
    if station_list is not None:
        stations = stations[stations["Name"].isin(station_list)]
    xy.scatter(stations.Longitude.values, stations.Latitude.values)
    xz.scatter(stations.Longitude.values, stations.Elevation.values)
    yz.scatter(stations.Elevation.values, stations.Latitude.values)
    for _, row in stations.iterrows():
        xy.annotate(row["Name"], [row.Longitude, row.Latitude])
    length = np.ceil(self.node_count[0] / 10) * self.node_spacing[0]
    AnchoredSizeBar(xy.transData, size=extent[0] * length / size[0], label=f"{length:.3g} {self.unit_name}")
    xz.invert_yaxis()
    xy.set_ylabel("Latitude (deg)")
    xz.set_xlabel("Longitude (deg)")
    xz.set_ylabel(f"Depth ({self.unit_name})")
    yz.set_xlabel(f"Depth ({self.unit_name})")


def gaussian(x, a, b, c):
    return a * np.exp(-1.0 * ((x - b) ** 2) / (2 * (c**2)))


# --- labels of the amplitudes ------------------------------------------------------------------------------------------
def one_label(ax, station, comps, distance, amp, rejected):
    parts = ""
    for comp in comps:
        parts += f"{comp},"
    label = f"{station}[{parts[:-1]}]"
    if rejected:
        ax.annotate(label, (distance, amp), color="gray")
    else:
        ax.annotate(label, (distance, amp))


def amplitude_labels(ax, tr_ids, amps, dists, rejected=False):
    stn = None
    stns = []
    comps = []
    for i, tr_id in enumerate(tr_ids):
        if not stn:
            stn = tr_id[:-1]
            first = 0
        if tr_id[:-1] != stn:
            one_label(ax, stn, comps, dists.iloc[i - 1], max(amps[first:i]), rejected)
            stns.append(stn)
            stn = tr_id[:-1]
            first = i
            comps = [tr_id[-1]]
            if i == len(tr_ids) - 1:
                one_label(ax, stn, comps, dists.iloc[i], max(amps[first:]), rejected)
                stns.append(stn)
        elif i == len(tr_ids) - 1:
            stn = tr_id[:-1]
            comps.append(tr_id[-1])
            one_label(ax, stn, comps, dists.iloc[i], max(amps[first:]), rejected)
            stns.append(stn)
        else:
            comps.append(tr_id[-1])
    return ax, stns
