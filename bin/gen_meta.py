#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json (development helper)."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC, ST, LIB, UT = ("quakemigrate/signal/scan.py", "quakemigrate/signal/onsets/stalta.py",
                   "quakemigrate/core/lib.py", "quakemigrate/util.py")
TR, IO = "quakemigrate/signal/trigger.py", "quakemigrate/io/"
LM = "quakemigrate/signal/local_mag/"

P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, technique=technique, note=note, na=na))


AI = "abstract interpretation of the Python source to normal-form terms; obligations per effect"

prop("C01", "Detect covers the requested period exactly once, correctly time-stamped",
     "Continuous detection from a start to an end time works through consecutive time steps that together cover the period exactly once: step k reads the data of [start + k*step, start + (k+1)*step) extended on each side by the onset padding computed for one step, and the number of steps is the period divided by the step, rounded up (an end at midnight first moves one sample earlier). Results, blank results and station availability of a step carry the time stamps of that step's own unpadded window, and all of it is written when the run completes. An end before the start is refused, with the documented error, before any waveform data are read.",
     ["inputs", "configurations"], "for every start time, end time, timestep, scan rate and onset padding",
     "The suite never runs detect; the statement ranges over all combinations of times, steps, rates and pads, of which an example run samples one.",
     [SC], [("detect loop", SC + ":QuakeScan.detect/_continuous_compute"), ("stamping of results", SC + ":QuakeScan._compute")],
     AI, "")

prop("C02", "Missing data blanks one time step or skips one event, never the whole run",
     "When the archive has no data, only gappy data, or no usable station for a detect time step, that step is recorded as blank (zero coalescence and zero availability for exactly that step) and the run continues; in locate, that one event is skipped without any output and the next event is processed. Every such data-shortage condition raised while reading data or computing onsets is one of the three documented conditions that the run loops handle. No other error is swallowed by those loops.",
     ["inputs", "fault_sequences", "histories"], "for every pattern of missing, gappy or unusable data over the steps and events of a run",
     "Tests contain no run with missing data; the property ranges over every combination of failing steps and events.",
     [SC, IO + "data.py", ST, UT, IO + "scanmseed.py"],
     [("per-step handler", SC + ":QuakeScan._continuous_compute"), ("per-event handler", SC + ":QuakeScan._locate_events"), ("raisers", IO + "data.py:Archive.read_waveform_data, " + ST + ":STALTAOnset.calculate_onsets")],
     AI + "; exception-flow (raise to handler) analysis", "")

prop("C03", "Stored coalescence reads back with the same values, times and files",
     "What detect stores of the coalescence time series, read back for any time window by trigger, is the same quantity: each channel is scaled to integers when written and divided by the same factor when read (coordinates back in degrees, depth back in grid units), values too large for the integer range are clipped and not wrapped, and every sample keeps its time. Writer and reader use the same channel names, the same one-file-per-day naming by year and day of year, and split or join days without losing or duplicating samples; missing days or channels give the documented data-availability error.",
     ["inputs", "histories"], "for every coalescence series, depth unit, and sequence of appended and blank steps, across day boundaries",
     "No test writes and reads a coalescence file; scale agreement and day boundaries depend on values and dates no fixture samples.",
     [IO + "scanmseed.py"], [("scaling and encoding", IO + "scanmseed.py:ScanmSEED"), ("reader", IO + "scanmseed.py:read_scanmseed")],
     AI + "; writer/reader factor agreement", "")

prop("C04", "Migration stacks matching onsets and travel times of the available phases",
     "For every set of stations and phases, the coalescence map is computed from onset functions and travel-time grids listed in the same station-phase order, restricted to exactly the available ones, with travel times in samples of the onset sampling rate, and normalised by the number of available onsets. The log of the onsets is what is stacked, over the samples of the unpadded window, and the map covers the grid times those samples.",
     ["inputs", "configurations"], "for every station/phase availability pattern, grid, sampling rate and window",
     "A single regression comparison with all stations present cannot show that ordering and restriction agree when some stations are missing.",
     [SC, ST, LIB, "quakemigrate/lut/lut.py"], [("onset stacking order", ST + ":STALTAOnset.calculate_onsets"), ("travel time order", "quakemigrate/lut/lut.py:LUT.serve_traveltimes"), ("kernel call", LIB + ":migrate")],
     AI + "; sibling order agreement", "")

prop("C05", "Native kernels stay within their arrays and are free of data races",
     "For every input the Python layer passes (any station count, grid of at least one node, window lengths, travel times not beyond the padding, thread count), the native onset, migration and peak-finding kernels access only elements inside the arrays they were given and compute exactly the requested samples: the stack is the exponential of the mean log onset over the available stations, each read at the sample plus its travel time (negative ones counted as zero); the peak is the largest value over all nodes, its normalised value that over the mean over all nodes, and its index the first node reaching it; STA/LTA windows that do not fit the data give one, as does a long-term average of zero. Parallel iterations write disjoint elements and share no unprotected mutable variable, so the result does not depend on the number of threads.",
     ["inputs", "schedules", "configurations"], "for every array size the callers can produce, every thread count and every interleaving of threads",
     "One small fixed-size example on one machine cannot exclude out-of-bounds accesses or races for other sizes and schedules.",
     ["quakemigrate/core/src/migratelib.c", "quakemigrate/core/src/onsetlib.c", LIB],
     [("migration kernel", "quakemigrate/core/src/migratelib.c"), ("STA/LTA kernels", "quakemigrate/core/src/onsetlib.c"), ("array allocation", LIB)],
     "clang AST: OpenMP data-sharing and affine index-bound analysis against the allocations made by the Python wrappers", "")

prop("C06", "Python and native code agree on every kernel's calling convention",
     "Every native function the Python layer calls exists, is exported on all platforms, and is called with the number, order, element types and meaning of the arguments it is compiled with; arrays passed across the boundary are C-contiguous with the element type the native code reads. The stacking wrapper refuses, before the call, travel-time tables whose number of entries differs from the number of onset functions; the other wrappers allocate every output array from the dimensions of their input.",
     ["inputs", "configurations"], "for every call of a kernel with any array the wrappers accept",
     "Type mismatches across a foreign-function boundary may give right answers for the sampled input and platform and are invisible to the Python tests.",
     [LIB, "quakemigrate/core/libnames.py", "quakemigrate/core/src/qmlib.h", "quakemigrate/core/src/qmlib.def", "quakemigrate/core/src/migratelib.c", "quakemigrate/core/src/onsetlib.c"],
     [("ctypes declarations", LIB), ("C prototypes", "quakemigrate/core/src/qmlib.h")],
     "cross-language interface comparison: clang AST against ctypes declarations and call sites", "")

prop("C07", "Onset functions are aligned, bounded below and padded consistently",
     "For every STA/LTA configuration the onset functions keep the sample positions of the input data: window lengths in samples follow from the configured window lengths and the sampling rate, the requested and returned data lengths match, and edges distorted by tapering, filtering or incomplete windows fall inside the padding. Padding is large enough for the longest window before and for the largest travel time after the period of interest. Values are clipped from below to a positive minimum before the logarithm is taken, and the two supported window positions differ only in the position of the short window.",
     ["inputs", "configurations"], "for every sampling rate, window pair, position, filter and timespan",
     "The one onset test compares one configuration to a stored array.",
     [ST, "quakemigrate/signal/onsets/base.py", LIB], [("window lengths and pads", ST), ("padding", "quakemigrate/signal/onsets/base.py:Onset.pad"), ("kernels", LIB)],
     AI, "")

prop("C08", "Trigger reports exactly the threshold exceedances as merged candidate events",
     "For every coalescence series, trigger groups contiguous samples at or above the threshold into candidates, takes the time, value and location of the largest sample as the candidate's origin, and merges candidates whose origin lies within the minimum event interval of a neighbour, keeping the origin of the strongest. Events outside the requested period or outside the optional region are discarded (bounds inclusive), each event gets the identifier formed from its origin time, and the threshold is computed from the series by the documented static, MAD or median-ratio rule.",
     ["inputs", "configurations"], "for every coalescence series, threshold method, interval and region",
     "Two tests cover the threshold arithmetic on one series; grouping, merging and filtering are untested and depend on the whole shape of the series.",
     [TR, UT], [("candidate detection", TR + ":Trigger._identify_candidates"), ("merging", TR + ":Trigger._refine_candidates"), ("filtering", TR + ":Trigger._filter_events"), ("threshold", TR + ":Trigger._get_threshold")],
     AI, "")

prop("C09", "Trigger files and locate agree: locate reads back what trigger wrote",
     "Triggered events are written to one file per day under the run's trigger directory, and locate, given a period, finds exactly the files of the days in the period by the same naming rule and selects events by origin time with inclusive bounds, or, given a file, reads that file. All columns locate and its outputs use are written by trigger, times are parsed back as times, and values refer to the same quantities in the same units. A missing file is reported with the documented error only if no file of the period exists.",
     ["inputs", "histories", "configurations"], "for every set of triggered events, run name, subname and period across day boundaries",
     "No test runs the hand-off; the naming and column agreement spans two modules and any number of days.",
     [IO + "triggered_events.py", IO + "event.py", SC, TR], [("writer", IO + "triggered_events.py:write_triggered_events"), ("reader", IO + "triggered_events.py:read_triggered_events")],
     AI + "; writer/reader agreement", "")

prop("C10", "Locate treats each event in its own window and accepts only in-window maxima",
     "For every triggered event locate reads data covering twice the marginal window on both sides of the trigger time, extended by the onset padding (and, when magnitudes or waveform cutting need it, further), computes the coalescence for that window only, and labels samples with their true times. The origin is the maximum of the map; the event is located only if that maximum falls within the marginal window around the trigger time (otherwise it is skipped without output), and the map is then restricted to that window. State of one event never enters another event's results.",
     ["inputs", "configurations", "histories"], "for every event list, marginal window, padding, magnitude and cutting configuration",
     "The suite never runs locate.",
     [SC, IO + "event.py"], [("event loop", SC + ":QuakeScan._locate_events"), ("windowing", IO + "event.py:Event.in_marginal_window/trim2window/mw_times")],
     AI, "")

prop("C11", "Locations and uncertainties come from the map in the right frame and units",
     "For every coalescence map the marginal map is the sum over the marginal window; the spline location, the local Gaussian fit and the global covariance are each computed from that event's marginal map without altering it, grid indices are converted to coordinates in axis order with the grid's origin and node spacing exactly once, and uncertainties are lengths in grid units. Values are stored under the names of the method and axis they belong to, in the hypocentre and uncertainty slots the event file reports.",
     ["inputs", "configurations"], "for every 4-D map, grid shape, spacing and projection",
     "No test locates an event; axis or unit confusion cancels for cubic grids with unit spacing and symmetric maps.",
     [SC, IO + "event.py", "quakemigrate/lut/lut.py", UT], [("marginalisation and estimators", SC + ":QuakeScan._calculate_location"), ("storage", IO + "event.py:Event")],
     AI, "")

prop("C12", "Phase picks are sought in the modelled arrival window and reported consistently",
     "For every event and available station-phase, the pick is sought in the window of the modelled arrival (origin time plus travel time) plus and minus the sum of the marginal window and the configured fraction of the travel time, modified so that P and S windows of a station do not overlap; the pick-fit uses the onset function of that station and phase, and picks below the noise threshold are recorded with the missing-value sentinel in time, error and SNR alike. Times stored and written are absolute, modelled times use travel times to the event location, and residuals are pick minus model or the sentinel.",
     ["inputs", "configurations"], "for every location, travel-time table, station availability and onset function",
     "No test picks a phase.",
     ["quakemigrate/signal/pickers/gaussian.py", "quakemigrate/signal/pickers/base.py"], [("picking", "quakemigrate/signal/pickers/gaussian.py:GaussianPicker"), ("output", "quakemigrate/signal/pickers/base.py:PhasePicker")],
     AI, "")

prop("C13", "Amplitudes are measured in the configured windows, units and channels",
     "For every event and channel, P and S amplitudes are measured in windows that start before and end after the picked or modelled arrival by the configured signal window and tolerances, noise in the window before the P window, all cut from response-corrected displacement in millimetres, with filter gain corrected at the measured frequency. The data window read for locate is long enough for those windows. Each measured value (amplitude, frequency, time, averages, gain, noise, distances) is stored in the output column that names it, for the phase it was measured for.",
     ["inputs", "configurations"], "for every event, channel, window and filter configuration",
     "No test measures an amplitude.",
     [LM + "amplitude.py", LM + "local_mag.py"], [("measurement", LM + "amplitude.py:Amplitude.get_amplitudes")],
     AI, "")

prop("C14", "Local magnitudes follow the documented formula over the selected amplitudes",
     "For every set of amplitudes, each channel magnitude is log10 of the scaled amplitude plus the attenuation at its distance plus the station correction, its error follows from the noise amplitude, and channels with missing amplitudes, or failing the noise, pick, distance, station or component filters, do not enter the mean. The network magnitude is the (optionally weighted) mean of exactly the used channel magnitudes with its error and fit quality; when none can be used the event carries the missing value and processing goes on.",
     ["inputs", "configurations"], "for every amplitude table and filter configuration",
     "No test computes a magnitude.",
     [LM + "magnitude.py", LM + "local_mag.py"], [("formula", LM + "magnitude.py:Magnitude")],
     AI, "")

prop("C15", "Output files and exporters agree on columns, units and missing values",
     "Every column an exporter reads from event, pick or amplitude files is written there, under the same name, quantity and unit: depths convert from grid units to the unit of the target format, amplitudes from millimetres, and times keep their sub-second part. The missing-pick sentinel is never exported as a pick, and each exported value lands in the target field of the same meaning (station, phase, component, method, uncertainty axis). Cut waveform files hold the waveform type, units and time window that were asked for.",
     ["inputs", "configurations"], "for every event, station naming, pick and amplitude set, and grid unit",
     "No test exports anything; unit and sub-second errors depend on the values.",
     ["quakemigrate/export/to_obspy.py", "quakemigrate/export/to_nlloc.py", "quakemigrate/export/to_mfast.py", "quakemigrate/export/to_snuffler.py", IO + "event.py", IO + "amplitudes.py", IO + "cut_waveforms.py", "quakemigrate/signal/pickers/base.py"],
     [("exporters", "quakemigrate/export/"), ("writers", IO + "event.py:Event.write, " + IO + "amplitudes.py, quakemigrate/signal/pickers/base.py:PhasePicker.write")],
     AI + "; table agreement", "")

prop("C16", "No call alters its inputs or shared state: results do not depend on history",
     "Library calls do not modify objects the caller passed in unless that is their documented purpose, and no call modifies module-level tables or default arguments, so repeating a call with equal inputs gives equal results whatever was run before. The waveforms as read from the archive are kept unmodified beside the processed ones and can be written out after processing.",
     ["histories", "inputs"], "for every sequence of calls in one process",
     "Tests run single calls; the defect appears only in the second call, or in an object the test does not look at afterwards.",
     ["quakemigrate/io/", "quakemigrate/signal/", "quakemigrate/lut/", "quakemigrate/export/", UT],
     [("copies before processing", IO + "data.py, " + UT), ("module tables", IO + "triggered_events.py, " + IO + "event.py")],
     AI + "; may-mutate (effect/ownership) analysis over all public entry points", "")

prop("C17", "Grid coordinates convert consistently and saved lookup tables reload unchanged",
     "For every grid, conversions between node indices, grid coordinates and geographic coordinates are mutual inverses with one origin, one node spacing and one axis order, and bounds tests use the same extent. Decimation keeps every n-th node of every travel-time grid together with the matching origin, spacing and node count and leaves the original table alone unless asked. Saving and reloading restores every attribute, and travel times are served for exactly the requested stations and phases. Tables built or read with any method hold one value per node of this grid, in its axis order, for every station and phase.",
     ["inputs", "configurations"], "for every grid specification, decimation factor and point",
     "No test exercises the conversions off the default grid or decimation with non-divisible node counts.",
     ["quakemigrate/lut/lut.py", "quakemigrate/lut/create_lut.py", IO + "core.py"], [("conversions", "quakemigrate/lut/lut.py:Grid3D"), ("persistence", "quakemigrate/lut/lut.py:LUT.save/load")],
     AI, "")

prop("C18", "Waveforms are read for the requested window and completeness judged correctly",
     "For every archive layout and window the archive reads the files of every day the padded window touches, keeps the requested stations, merges fragments of a channel, and returns data for the requested window on the requested sampling rate with the unprocessed originals alongside. A station-phase counts as available only if its channels are present, and, as configured, free of gaps, of the right sampling rate and covering the whole window. Resampling interpolates between samples and continues the first and last value to the edges of the window. No files, or nothing left after the checks, gives the documented data errors.",
     ["inputs", "configurations"], "for every archive content, window and availability configuration",
     "One test merges one stream; day boundaries, gaps and mixed sampling rates are not covered.",
     [IO + "data.py", UT], [("reading", IO + "data.py:Archive.read_waveform_data"), ("availability", IO + "data.py:WaveformData.check_availability"), ("merging and resampling", UT)],
     AI, "")

prop("C19", "Output goes only below the run directory, one file per item, only if requested",
     "Every file a run writes lies under the run's own directory in the subdirectory of its stage, output kind and optional subname, and its directory is created first. File names are formed from the event identifier or the day so that different events or days never share a file, so that repeating a stage replaces its own files and no others. Optional outputs are produced if and only if their switch is on, and mandatory outputs always. A log goes to the run it belongs to, and tidying up never deletes files the package did not make.",
     ["inputs", "configurations", "histories"], "for every run name, subname, event list and combination of output switches",
     "No test inspects the output tree; switches combine.",
     [IO, SC, TR, "quakemigrate/plot/", "quakemigrate/signal/pickers/base.py", LM + "local_mag.py"], [("run paths", IO + "core.py:Run"), ("writers", IO)],
     AI + "; write-effect (path, order and guard) analysis over every function", "a tool started in a subprocess (NonLinLoc) is outside the analysis; an event identifier is taken to hold no dot")

prop("C20", "Invalid requests and configurations are refused with the documented errors",
     "Each documented misuse (missing or inconsistent times, wrong threshold method, non-positive intervals, unknown onset position or type, invalid regions or formats, missing station columns, wrong magnitude object, phases absent from the lookup table, and the like) is refused with the documented error, on every path and before any result is produced, and valid requests are not refused. No public call ends in an internal error such as a use of a variable that was never assigned.",
     ["inputs", "configurations"], "for every combination of arguments and settings",
     "Tests do not exercise invalid settings; the guards are conditions over arbitrary arguments.",
     [UT, SC, TR, IO, "quakemigrate/signal/onsets/", LM], [("exceptions", UT), ("guards", "constructors and entry points")],
     AI + "; guard-condition comparison and definite-assignment analysis", "")

prop("C21", "Settings take effect as given; those left out take their documented defaults",
     "Every setting passed when a scan, trigger, onset, picker, local magnitude, archive or run is created is kept exactly as given, for any value and in any combination with the others (none overrides, scales or hides another), and every setting left out takes its documented default. A former name of a setting does the same as its successor; a value read back is the one in force; an object can be created with every documented setting. Settings are read from the object when the processing runs, so one changed after creation counts from the next run on, and every setting that can be given is used. The calls users write keep their import paths, parameter order, names and defaults.",
     ["configurations", "histories"], "for every combination of settings, and every order in which they are changed",
     "Tests build each object once, with a handful of settings; most defaults and all combinations are never looked at.",
     [SC, TR, "quakemigrate/signal/onsets/", "quakemigrate/signal/pickers/", LM, IO], [("constructors", "__init__ of the configured classes"), ("former names", "property setters"), ("calls", "public functions")],
     AI + "; read-before-set, dead-setting and captured-setting analyses; signature comparison", "")

prop("C22", "Figures show what was computed, in the right place and with the right values",
     "The trigger summary draws both coalescence series at their own times, the detection threshold on the series triggered on, the number of stations available at each time, and every event at its location and time with its marginal window and minimum interval, kept and discarded events apart, with the trigger region. The event summary draws the filtered waveforms and the modelled arrivals (origin time plus travel time) of the stations asked for, the coalescence of the event, the slices of the map through its maximum with hypocentre and uncertainty ellipse, and states the origin time, location, uncertainty and magnitude of that event in the units it names. Pick plots draw waveforms and onset functions of that station with the window, threshold, fit, modelled arrival and pick plus or minus half its error of the phase of each panel; amplitude plots draw noise and signal amplitudes with the multiplier and station corrections of the magnitude, with one label for each station at its largest amplitude, and the amplitudes that magnitude and its bounds predict. Colours, sizes and layout are free.",
     ["inputs", "configurations"], "for every event, set of stations, phases and combination of plotting options",
     "No test looks inside a figure; panels, phases and options combine.",
     ["quakemigrate/plot/", "quakemigrate/lut/lut.py", "quakemigrate/signal/pickers/gaussian.py", LM + "magnitude.py", UT],
     [("trigger summary", "quakemigrate/plot/trigger.py"), ("event summary", "quakemigrate/plot/event.py"), ("picks", "quakemigrate/plot/phase_picks.py"), ("amplitudes", "quakemigrate/plot/amplitudes.py"), ("grid", "quakemigrate/lut/lut.py:LUT.plot")],
     AI, "what the plotting library does with the values it is given is outside the analysis")

prop("C23", "A run says what it does, with the settings in force",
     "The text a run, archive, lookup table, scan, trigger, onset, picker, amplitude, magnitude or local magnitude object gives of itself states the settings that apply (and only those), each with its own value and unit, as they are at that moment. detect, locate and trigger announce the period and the settings they actually use, and every step without usable data, missing day of coalescence, absent triggered event or event outside the marginal window is reported with its own times, under exactly the condition that causes it.",
     ["configurations", "inputs"], "for every combination of settings and every course of a run",
     "No test reads the log or the description of an object; which lines appear depends on the combination of settings.",
     [SC, TR, IO, LM, "quakemigrate/lut/lut.py", "quakemigrate/signal/onsets/", "quakemigrate/signal/pickers/"], [("descriptions", "__str__ of the configured classes"), ("log", "logging.info calls of the stages")],
     AI + "; formatted text compared piece by piece", "")

NA = [
    ("N01", "Located hypocentres are close to the true source",
     "For synthetic data of a known source, the located hypocentre and origin time lie within the reported uncertainty of the truth.",
     "numerical accuracy of an inversion over runtime data: no static bound exists"),
    ("N02", "Travel times computed for a lookup table solve the eikonal equation",
     "Travel times stored in a lookup table agree with the solution for the given velocity model to the discretisation error.",
     "numerical accuracy of an external solver (scikit-fmm or NonLinLoc), outside the source under analysis"),
    ("N03", "A crash in the middle of a run leaves no truncated output files",
     "If the process dies at any point, each output file is either absent or complete.",
     "files are written in place by library calls (obspy, pandas) whose internal write order is not visible in the source; the codebase makes no attempt at atomic replacement, so there is no guarantee to check"),
]
for i, t, s, r in NA:
    prop(i, t, s, ["inputs"] if i != "N03" else ["crash_points"], "for every input" if i != "N03" else "for every crash point",
         "Needs every input or crash point.", [SC], [("locate", SC)], na=r)


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
            }, ensure_ascii=False) + "\n")
    checks, na = [], []
    sys.path.insert(0, V)
    import importlib
    for p in P:
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
            continue
        if not os.path.exists(os.path.join(V, "rules", p["id"].lower() + ".py")):
            na.append({"property": p["id"], "reason": "check not built yet"})
            continue
        m = importlib.import_module("rules." + p["id"].lower())
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 bin/check.py %s" % p["id"],
            "thorough_cmd": "python3 bin/check.py %s --thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": "static analysis: " + p["technique"],
            "level": "other",
            "level_note": m.LEVEL_NOTE,
        })
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3 -c 'import ast'", "checks": checks,
                   "not_applicable": na,
                   "notes": "All checks are static: they parse /repo's current source on every run and execute none of it."}, f, indent=1)
        f.write("\n")


main()
