From 0f529b712287414b99dee9d4d428163519f85c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:31 +0000
Subject: [PATCH 01/47] fix: keep the last in-window sample when trimming the
 4-D coalescence map

The coalescence series keeps the samples at both ends of the marginal
window, but the map dropped the last one, so the marginalised map summed
one sample fewer than the series it belongs to.
---
 quakemigrate/io/event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/io/event.py b/quakemigrate/io/event.py
index 2d44e0b..b60052a 100644
--- a/quakemigrate/io/event.py
+++ b/quakemigrate/io/event.py
@@ -431,7 +431,7 @@ class Event:
             (self.coa_data["DT"] >= window_start) & (self.coa_data["DT"] <= window_end)
         ]
         self.map4d = self.map4d[
-            :, :, :, self.coa_data.index[0] : self.coa_data.index[-1]
+            :, :, :, self.coa_data.index[0] : self.coa_data.index[-1] + 1
         ]
         self.coa_data.reset_index(drop=True, inplace=True)
 
-- 
2.43.0


From 01d58b50ca4137170b2b1f178a94dfa01f81be5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:50 +0000
Subject: [PATCH 02/47] fix: count expected samples without floating point
 error in full-timespan check

---
 quakemigrate/io/data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/io/data.py b/quakemigrate/io/data.py
index 7774784..64e2e11 100755
--- a/quakemigrate/io/data.py
+++ b/quakemigrate/io/data.py
@@ -604,7 +604,9 @@ class WaveformData:
                 # rate as provided. To check that as well, use
                 # `check_sampling_rate=True` and specify a sampling rate.
                 if full_timespan:
-                    n_samples = timespan * st_id[0].stats.sampling_rate + 1
+                    # Rounded, as the product may exceed the exact value by a
+                    # floating point error
+                    n_samples = round(timespan * st_id[0].stats.sampling_rate, 6) + 1
                     if len(st_id) > 1:
                         continue
                     elif st_id[0].stats.npts < n_samples:
-- 
2.43.0


From a0d70ccfaafeb889d019801f05714d6e688539da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:59 +0000
Subject: [PATCH 03/47] fix: do not alter the default output columns when
 writing event time windows

OUTPUT_COLS was extended in place: from the second file on, MinTime and
MaxTime were written repeatedly, also by Trigger objects which did not
ask for them.
---
 quakemigrate/io/triggered_events.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/io/triggered_events.py b/quakemigrate/io/triggered_events.py
index 059c5c5..920140c 100644
--- a/quakemigrate/io/triggered_events.py
+++ b/quakemigrate/io/triggered_events.py
@@ -125,7 +125,7 @@ def write_triggered_events(run, events, starttime, write_event_time_windows):
     fpath = run.path / "trigger" / run.subname / "events"
     fpath.mkdir(exist_ok=True, parents=True)
 
-    output_cols = OUTPUT_COLS
+    output_cols = OUTPUT_COLS.copy()
     if write_event_time_windows:
         output_cols.extend(["MinTime", "MaxTime"])
 
-- 
2.43.0


From 640d67fb8b8f8d416ed226e6b35c60107eaaaee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:38 +0000
Subject: [PATCH 04/47] fix: pad by a whole number of samples instead of
 truncating to milliseconds

trim2sample truncated the padded time to whole milliseconds after a floating
point multiplication, so that e.g. 2.01 s at 100 Hz became 2.009 s: shorter
than the time asked for, and not a whole number of samples. Sampling intervals
that are not whole milliseconds were never preserved.
---
 quakemigrate/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quakemigrate/util.py b/quakemigrate/util.py
index d4fd81c..1bef077 100644
--- a/quakemigrate/util.py
+++ b/quakemigrate/util.py
@@ -163,7 +163,7 @@ def time2sample(time, sampling_rate):
 
     Returns
     -------
-    out : int
+    out : float
         Time that correpsonds to an integer number of samples at a specific sampling
         rate.
 
@@ -260,13 +260,13 @@ def trim2sample(time, sampling_rate):
 
     Returns
     -------
-    out : int
+    out : float
         Time that correpsonds to an integer number of samples at a specific sampling
         rate.
 
     """
 
-    return int(np.ceil(time * sampling_rate) / sampling_rate * 1000) / 1000
+    return np.ceil(time * sampling_rate) / sampling_rate
 
 
 def wa_response(convert="DIS2DIS", obspy_def=True):
-- 
2.43.0


From b32e370c8c5d61fceccc970fd3f08453cc4471d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:24 +0000
Subject: [PATCH 05/47] fix: treat a failed Gaussian fit as a missing pick
 whatever the error

The handler for TypeError in GaussianPicker._fit_gaussian logged 'Continuing'
and then used the fit parameters, which are not assigned when curve_fit fails.
---
 quakemigrate/signal/pickers/gaussian.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quakemigrate/signal/pickers/gaussian.py b/quakemigrate/signal/pickers/gaussian.py
index 2fa8c89..9239f92 100644
--- a/quakemigrate/signal/pickers/gaussian.py
+++ b/quakemigrate/signal/pickers/gaussian.py
@@ -448,6 +448,7 @@ class GaussianPicker(PhasePicker):
                 "\t\t    Failed curve_fit - too few input data?"
                 f"{e}\n\t\t    Continuing..."
             )
+            return self._pick_failure(pick_threshold)
 
         # Unpack results:
         #  popt = [height, mean (seconds), sigma (seconds)]
-- 
2.43.0


From 859b843ed3dc3a635ee93f60fb33b5bf755e7365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:37 +0000
Subject: [PATCH 06/47] fix: do not fail to pick a phase whose onset function
 has no noise

np.percentile raises IndexError for an empty array, which ended locate when
the percentile threshold was used and no sample outside the pick windows
exceeded 1 (e.g. padded data). The MAD threshold gives nan, and no pick.
---
 quakemigrate/signal/pickers/gaussian.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quakemigrate/signal/pickers/gaussian.py b/quakemigrate/signal/pickers/gaussian.py
index 9239f92..224d7e5 100644
--- a/quakemigrate/signal/pickers/gaussian.py
+++ b/quakemigrate/signal/pickers/gaussian.py
@@ -345,6 +345,10 @@ class GaussianPicker(PhasePicker):
         # pad windows)
         onset_noise = onset_noise[onset_noise > 1]
 
+        if len(onset_noise) == 0:
+            # No noise to judge a peak against
+            return np.nan
+
         if method == "percentile":
             pick_threshold = np.percentile(
                 onset_noise, self.percentile_pick_threshold * 100
-- 
2.43.0


From 84d124276978cbbcafad113077d05b171a6059e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:40 +0000
Subject: [PATCH 07/47] fix: separate pick windows in order of arrival, not of
 configuration

With phases given as ['S', 'P'] the S window ended, and the P window began, at
the midpoint between the arrivals, so that neither window contained its own
arrival.
---
 quakemigrate/signal/pickers/gaussian.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quakemigrate/signal/pickers/gaussian.py b/quakemigrate/signal/pickers/gaussian.py
index 224d7e5..c5a6f5d 100644
--- a/quakemigrate/signal/pickers/gaussian.py
+++ b/quakemigrate/signal/pickers/gaussian.py
@@ -301,6 +301,9 @@ class GaussianPicker(PhasePicker):
 
         """
 
+        # Windows are compared in the order in which the phases arrive
+        phases = sorted(phases, key=lambda phase: windows[phase][1])
+
         # Handle first key
         first_idx = windows[phases[0]][0]
         windows[phases[0]][0] = 0 if first_idx < 0 else first_idx
-- 
2.43.0


From 12c47216831c9deb974f0f5d0fe6022edf55776c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:55 +0000
Subject: [PATCH 08/47] fix: weight the squared deviations, not their square
 root, in the magnitude error

The weighted standard deviation of the individual magnitudes squared the
weights, so that with weighted_mean the network magnitude uncertainty
scaled with the absolute size of the weights.
---
 quakemigrate/signal/local_mag/magnitude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/signal/local_mag/magnitude.py b/quakemigrate/signal/local_mag/magnitude.py
index c2cd2b6..1abbfcd 100644
--- a/quakemigrate/signal/local_mag/magnitude.py
+++ b/quakemigrate/signal/local_mag/magnitude.py
@@ -417,7 +417,7 @@ class Magnitude:
         # single estimate, then take the uncertainty from that value.
         if len(mags) > 1:
             mean_mag_err = np.sqrt(
-                np.sum(((mags - mean_mag) * weights) ** 2) / np.sum(weights)
+                np.sum(weights * (mags - mean_mag) ** 2) / np.sum(weights)
             )
         else:
             mean_mag_err = used_mags["ML_Err"].values[0]
-- 
2.43.0


From dd5b19f3f56820777711549ed52bc9cc60057bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:59 +0000
Subject: [PATCH 09/47] fix: leave out noise-dominated observations from the
 magnitude r-squared

DataFrame.drop returns a new frame; its result was discarded, so the
custom noise filter (r2_only_used=False) had no effect.
---
 quakemigrate/signal/local_mag/magnitude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/signal/local_mag/magnitude.py b/quakemigrate/signal/local_mag/magnitude.py
index 1abbfcd..b7d3927 100644
--- a/quakemigrate/signal/local_mag/magnitude.py
+++ b/quakemigrate/signal/local_mag/magnitude.py
@@ -888,7 +888,7 @@ class Magnitude:
                 # If predicted amp is more than 5x larger than noise amp, keep
                 # this observation for mag_r2 calculation
                 if predicted_amp / noise_amp < 5:
-                    magnitudes.drop(labels=mag.name)
+                    magnitudes = magnitudes.drop(labels=mag.name)
 
         # Calculate amplitudes -- including station corrections!
         amps = (
-- 
2.43.0


From 2313e6fb8340426ae5741d06e70a58f9b60e42cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:03 +0000
Subject: [PATCH 10/47] fix: do not use observations without a magnitude in the
 network average

An amplitude below the noise level (or zero) and an observation at zero
distance have no individual magnitude. With a noise filter below 1 they
were still marked as used, and the network magnitude became NaN.
---
 quakemigrate/signal/local_mag/magnitude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/signal/local_mag/magnitude.py b/quakemigrate/signal/local_mag/magnitude.py
index b7d3927..c07e7e8 100644
--- a/quakemigrate/signal/local_mag/magnitude.py
+++ b/quakemigrate/signal/local_mag/magnitude.py
@@ -789,7 +789,7 @@ class Magnitude:
         magnitudes["Dist"] = dist
 
         # Identify used mags (after applying all filters)
-        magnitudes["Used"] = True
+        magnitudes["Used"] = magnitudes["ML"].notnull()
         if self.trace_filter is not None:
             magnitudes.loc[~magnitudes["Trace_Filter"], "Used"] = False
         if self.station_filter is not None:
-- 
2.43.0


From 6e4248e7ce7b1e80c440fd2dc993916bf44f2273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:06 +0000
Subject: [PATCH 11/47] fix: do not change the amplitudes passed in when
 calculating magnitudes

Zero epicentral distances were replaced by NaN in the caller's table, and
mean_magnitude divided its input's noise amplitudes by the filter gain, so
that averaging the same table twice gave two different answers.
---
 quakemigrate/signal/local_mag/magnitude.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/quakemigrate/signal/local_mag/magnitude.py b/quakemigrate/signal/local_mag/magnitude.py
index c07e7e8..b7fe1c4 100644
--- a/quakemigrate/signal/local_mag/magnitude.py
+++ b/quakemigrate/signal/local_mag/magnitude.py
@@ -245,7 +245,7 @@ class Magnitude:
         if self.use_hyp_dist:
             dist = np.sqrt(edist.values**2 + zdist.values**2)
         else:
-            dist = edist.values
+            dist = edist.values.copy()
         dist[dist == 0.0] = np.nan
 
         # Calculate magnitudes and associated errors
@@ -378,12 +378,13 @@ class Magnitude:
             self.station_corrections[t] if t in self.station_corrections.keys() else 0.0
             for t in magnitudes.index
         ]
+        magnitudes = magnitudes.copy()
         magnitudes["Station_Correction"] = corrs
 
         # Correct noise amps for filter gain, if applicable: check whether _all_ filter
         # gains are null (= no filter was applied). If a filter was applied, remove the
-        # appropriate filter gain (P or S). Action is applied _in-place_ on the
-        # DataFrame
+        # appropriate filter gain (P or S). Action is applied on a copy of the
+        # DataFrame passed in.
         filter_gains = magnitudes[f"{self.amp_feature[0]}_filter_gain"]
         if not filter_gains.isnull().values.all():
             magnitudes.loc[:, "Noise_amp"] /= filter_gains
@@ -777,7 +778,7 @@ class Magnitude:
         if self.use_hyp_dist:
             dist = np.sqrt(edist.values**2 + zdist.values**2)
         else:
-            dist = edist.values
+            dist = edist.values.copy()
 
         # Apply distance filter
         if self.dist_filter:
-- 
2.43.0


From d38dcbc17e8eddcd9bf77d4b12acab335468d967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:41 +0000
Subject: [PATCH 12/47] fix: reject a bandpass filter without its frequencies

dict.get never raises the KeyError that is turned into the documented
AttributeError; the missing corner surfaced as a TypeError at the first
amplitude measurement.
---
 quakemigrate/signal/local_mag/amplitude.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/signal/local_mag/amplitude.py b/quakemigrate/signal/local_mag/amplitude.py
index b74947a..1428163 100644
--- a/quakemigrate/signal/local_mag/amplitude.py
+++ b/quakemigrate/signal/local_mag/amplitude.py
@@ -117,8 +117,8 @@ class Amplitude:
         self.bandpass_filter = amplitude_params.get("bandpass_filter", False)
         if self.bandpass_filter:
             try:
-                self.bandpass_lowcut = amplitude_params.get("bandpass_lowcut")
-                self.bandpass_highcut = amplitude_params.get("bandpass_highcut")
+                self.bandpass_lowcut = amplitude_params["bandpass_lowcut"]
+                self.bandpass_highcut = amplitude_params["bandpass_highcut"]
             except KeyError as e:
                 raise AttributeError(f"Bandpass filter frequencies not specified! {e}")
         self.filter_corners = amplitude_params.get("filter_corners", 4)
-- 
2.43.0


From 42c579e5ede994b2922b178933ded88e5811e6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:45 +0000
Subject: [PATCH 13/47] fix: index traveltimes by station position in the
 amplitude measurement

The traveltime arrays are ordered by position in the station table, but
were indexed by its row labels: a table with any other index than the
default one gave another station's traveltime, or an IndexError.
---
 quakemigrate/signal/local_mag/amplitude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/signal/local_mag/amplitude.py b/quakemigrate/signal/local_mag/amplitude.py
index 1428163..571c657 100644
--- a/quakemigrate/signal/local_mag/amplitude.py
+++ b/quakemigrate/signal/local_mag/amplitude.py
@@ -279,7 +279,7 @@ class Amplitude:
         logging.debug(f"{tr_start}, {tr_end}, {event.otime}")
 
         # Loop through stations in LUT, calculating amplitude info
-        for i, station_data in lut.station_data.iterrows():
+        for i, (_, station_data) in enumerate(lut.station_data.iterrows()):
             station = station_data["Name"]
 
             epi_dist, z_dist = self._get_distances(
-- 
2.43.0


From c2bf0096fda287ba369314e27c60cf06e3838724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:48 +0000
Subject: [PATCH 14/47] fix: check the station file header for all required
 columns

("Latitude" or ...) is "Latitude": a file without one of the other columns
raised a KeyError rather than the StationFileHeaderException.
---
 quakemigrate/io/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/io/core.py b/quakemigrate/io/core.py
index 99f1463..50fd029 100644
--- a/quakemigrate/io/core.py
+++ b/quakemigrate/io/core.py
@@ -89,7 +89,8 @@ def read_stations(station_file, **kwargs):
 
     stn_data = pd.read_csv(station_file, **kwargs)
 
-    if ("Latitude" or "Longitude" or "Elevation" or "Name") not in stn_data.columns:
+    required = {"Latitude", "Longitude", "Elevation", "Name"}
+    if not required.issubset(stn_data.columns):
         raise util.StationFileHeaderException
 
     stn_data["Elevation"] = stn_data["Elevation"].apply(lambda x: -1 * x)
-- 
2.43.0


From 38de50324ee3510b29f397402cf091ecf8c88f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:38 +0000
Subject: [PATCH 15/47] fix: move the grid origin to the first retained node in
 Grid3D.decimate

---
 quakemigrate/lut/lut.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quakemigrate/lut/lut.py b/quakemigrate/lut/lut.py
index 310cc96..b15f05d 100644
--- a/quakemigrate/lut/lut.py
+++ b/quakemigrate/lut/lut.py
@@ -127,6 +127,8 @@ class Grid3D:
         else:
             grid = copy.deepcopy(self)
 
+        # The first node kept becomes the origin of the decimated grid
+        grid.ll_corner = self.ll_corner + c1 * self.node_spacing
         grid.node_count = new_node_count
         grid.node_spacing = self.node_spacing * df
 
-- 
2.43.0


From 2718afb1eed7f0057d88fea86ce9db4693bc3e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:38 +0000
Subject: [PATCH 16/47] fix: keep the station data of a lookup table loaded via
 LUT(lut_file=...)

---
 quakemigrate/lut/lut.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/lut/lut.py b/quakemigrate/lut/lut.py
index b15f05d..839fd8a 100644
--- a/quakemigrate/lut/lut.py
+++ b/quakemigrate/lut/lut.py
@@ -455,6 +455,8 @@ class LUT(Grid3D):
     def __init__(self, fraction_tt=0.1, lut_file=None, **grid_spec):
         """Instantiate the LUT object."""
 
+        self.station_data = pd.DataFrame()
+
         if grid_spec:
             super().__init__(**grid_spec)
             self.fraction_tt = fraction_tt
@@ -467,8 +469,6 @@ class LUT(Grid3D):
             if lut_file is not None:
                 self.load(lut_file)
 
-        self.station_data = pd.DataFrame()
-
     def __str__(self):
         """Return short summary string of the lookup table object."""
 
-- 
2.43.0


From 060403735530318de738f476db049ef86862cfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:38 +0000
Subject: [PATCH 17/47] fix: use the node count of the NonLinLoc grid in
 read_nlloc

---
 quakemigrate/lut/create_lut.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quakemigrate/lut/create_lut.py b/quakemigrate/lut/create_lut.py
index 5c1b3b4..6697cb5 100644
--- a/quakemigrate/lut/create_lut.py
+++ b/quakemigrate/lut/create_lut.py
@@ -98,6 +98,8 @@ def read_nlloc(
                     coord_proj=cproj,
                     fraction_tt=fraction_tt,
                 )
+                # Rounding in the coordinate transformation must not add nodes
+                lut.node_count = node_count
             else:
                 _, _, traveltimes = _read_nlloc(file)
 
-- 
2.43.0


From 2306f5497d2b7d21adb5357a8f7f0078ac5e70e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:38 +0000
Subject: [PATCH 18/47] fix: centre the TRANS_MERC projection of NonLinLoc
 grids on its origin

---
 quakemigrate/lut/create_lut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/lut/create_lut.py b/quakemigrate/lut/create_lut.py
index 6697cb5..169d1aa 100644
--- a/quakemigrate/lut/create_lut.py
+++ b/quakemigrate/lut/create_lut.py
@@ -700,7 +700,7 @@ def _read_nlloc(fname, ignore_proj=False):
             orig_lat = float(line[5])
             orig_lon = float(line[7])
 
-            gproj = Proj(proj="tmerc", lon=orig_lon, lat=orig_lat, units="km")
+            gproj = Proj(proj="tmerc", lon_0=orig_lon, lat_0=orig_lat, units="km")
 
         transform = [gproj, cproj, line[1]]
 
-- 
2.43.0


From 4e3d36a7e72272d474175a7d4fed1e9c391e6376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:04 +0000
Subject: [PATCH 19/47] fix: measure NonLinLoc interpolation weights from the
 nodes used

---
 quakemigrate/lut/create_lut.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/lut/create_lut.py b/quakemigrate/lut/create_lut.py
index 169d1aa..4aca474 100644
--- a/quakemigrate/lut/create_lut.py
+++ b/quakemigrate/lut/create_lut.py
@@ -745,10 +745,11 @@ def _bilinear_interpolate(xz, xz_origin, xz_dimensions, traveltimes):
     """
 
     # Get indices of the nearest node
-    i, k = np.floor((xz - xz_origin) / xz_dimensions).astype(int).T
+    steps = (xz - xz_origin) / xz_dimensions
+    i, k = np.floor(steps).astype(int).T
 
     # Get fractional distance along each axis
-    x_d, z_d = (np.remainder(xz, xz_dimensions) / xz_dimensions).T
+    x_d, z_d = np.remainder(steps, 1).T
 
     # Get 4 data points of surrounding square
     c00 = traveltimes[i, k]
-- 
2.43.0


From 2420bbd3c2e82c2cb747468359a1bb0b06289240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:11 +0000
Subject: [PATCH 20/47] fix: pad the microseconds in Snuffler marker times

---
 quakemigrate/export/to_snuffler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/export/to_snuffler.py b/quakemigrate/export/to_snuffler.py
index c578a6d..7f33409 100644
--- a/quakemigrate/export/to_snuffler.py
+++ b/quakemigrate/export/to_snuffler.py
@@ -98,7 +98,7 @@ def snuffler_markers(event, output_path, filename=None):
         hr=str(origin.time.hour).zfill(2),
         min=str(origin.time.minute).zfill(2),
         sec=str(origin.time.second).zfill(2),
-        msec=origin.time.microsecond,
+        msec=str(origin.time.microsecond).zfill(6),
         eventid=str(event.resource_id),
     )
 
@@ -118,7 +118,7 @@ def snuffler_markers(event, output_path, filename=None):
                 hr=str(pick.time.hour).zfill(2),
                 min=str(pick.time.minute).zfill(2),
                 sec=str(pick.time.second).zfill(2),
-                msec=pick.time.microsecond,
+                msec=str(pick.time.microsecond).zfill(6),
                 nw=pick.waveform_id.network_code,
                 stat=pick.waveform_id.station_code,
                 comp=comp,
-- 
2.43.0


From 597996859196c2772b757c8546895b4ebeefc4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:11 +0000
Subject: [PATCH 21/47] fix: write each station's own network code to the
 Snuffler station file

---
 quakemigrate/export/to_snuffler.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/quakemigrate/export/to_snuffler.py b/quakemigrate/export/to_snuffler.py
index 7f33409..73b4b61 100644
--- a/quakemigrate/export/to_snuffler.py
+++ b/quakemigrate/export/to_snuffler.py
@@ -37,14 +37,15 @@ def snuffler_stations(stations, output_path, filename, network_code=None):
 
     with output.open(mode="w") as f:
         for i, station in stations.iterrows():
-            if network_code is None:
+            nw = network_code
+            if nw is None:
                 try:
-                    network_code = station["Network"]
+                    nw = station["Network"]
                 except KeyError:
-                    network_code = ""
+                    nw = ""
 
             line = line_template.format(
-                nw=network_code,
+                nw=nw,
                 stat=station["Name"],
                 lat=station["Latitude"],
                 lon=station["Longitude"],
-- 
2.43.0


From fc692b1f3fde8980595087c788f13a878fb2fb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:12 +0000
Subject: [PATCH 22/47] fix: assign a component to every pick in the Snuffler
 marker file

---
 quakemigrate/export/to_snuffler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quakemigrate/export/to_snuffler.py b/quakemigrate/export/to_snuffler.py
index 73b4b61..caf5df1 100644
--- a/quakemigrate/export/to_snuffler.py
+++ b/quakemigrate/export/to_snuffler.py
@@ -112,6 +112,8 @@ def snuffler_markers(event, output_path, filename=None):
                 comp = "BHZ"
             elif pick.phase_hint == "S":
                 comp = "BHN"
+            else:
+                comp = ""
             line = line_template.format(
                 year=pick.time.year,
                 month=str(pick.time.month).zfill(2),
-- 
2.43.0


From 4c62dfbe8472399ded579db0aa5883b2f433b998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:12 +0000
Subject: [PATCH 23/47] fix: write station elevation in metres to MFAST SAC
 headers

---
 quakemigrate/export/to_mfast.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quakemigrate/export/to_mfast.py b/quakemigrate/export/to_mfast.py
index ee45c67..26cab11 100644
--- a/quakemigrate/export/to_mfast.py
+++ b/quakemigrate/export/to_mfast.py
@@ -47,9 +47,9 @@ def sac_mfast(event, stations, output_path, units, filename=None):
 
     # Set distance conversion factor (from units of QM LUT projection units).
     if units == "km":
-        factor = 1
-    elif units == "m":
         factor = 1e3
+    elif units == "m":
+        factor = 1
     else:
         raise AttributeError(f"units must be 'km' or 'm'; not {units}")
 
@@ -75,7 +75,7 @@ def sac_mfast(event, stations, output_path, units, filename=None):
         station_header = AttribDict()
         station_header.stla = station.Latitude
         station_header.stlo = station.Longitude
-        station_header.stel = station.Elevation / factor  # convert to m
+        station_header.stel = station.Elevation * factor  # convert to m
 
         # Calculate the distance and azimuth between event and station
         dist, az, _ = gps2dist_azimuth(
-- 
2.43.0


From c4d2b33713601019d2a4e30ff65ce13da67cab69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:12 +0000
Subject: [PATCH 24/47] fix: return an empty catalogue for a run without
 located events

---
 quakemigrate/export/to_obspy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quakemigrate/export/to_obspy.py b/quakemigrate/export/to_obspy.py
index af8b301..ad396d5 100644
--- a/quakemigrate/export/to_obspy.py
+++ b/quakemigrate/export/to_obspy.py
@@ -71,6 +71,7 @@ def read_quakemigrate(run_dir, units, run_subname="", local_mag_ph="S"):
     locate_dir = pathlib.Path(run_dir) / "locate" / run_subname
     events_dir = locate_dir / "events"
 
+    event_files = []
     if events_dir.is_dir():
         try:
             event_files = events_dir.glob("*.event")
-- 
2.43.0


From c8ff0abf6b3c265352ce609391cfe65a33247bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:12 +0000
Subject: [PATCH 25/47] fix: export events whose local magnitude is missing

---
 quakemigrate/export/to_obspy.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/quakemigrate/export/to_obspy.py b/quakemigrate/export/to_obspy.py
index ad396d5..3418685 100644
--- a/quakemigrate/export/to_obspy.py
+++ b/quakemigrate/export/to_obspy.py
@@ -307,17 +307,19 @@ def _read_single_event(event_file, locate_dir, units, local_mag_ph):
 
                 event.amplitudes.append(amp)
 
-        mag = Magnitude()
-        mag.extra = AttribDict()
-        mag.mag = event_info["ML"]
-        mag.mag_errors.uncertainty = event_info["ML_Err"]
-        mag.magnitude_type = "ML"
-        # mag.origin_id = ?
-        mag.station_count = i
-        mag.evaluation_mode = "automatic"
-        mag.extra.r2 = {"value": event_info["ML_r2"], "namespace": ns}
-
-        event.magnitudes = [mag]
-        event.preferred_magnitude_id = mag.resource_id
+        # The network magnitude is missing if no amplitudes could be used
+        if not pd.isna(event_info["ML"]):
+            mag = Magnitude()
+            mag.extra = AttribDict()
+            mag.mag = event_info["ML"]
+            mag.mag_errors.uncertainty = event_info["ML_Err"]
+            mag.magnitude_type = "ML"
+            # mag.origin_id = ?
+            mag.station_count = i
+            mag.evaluation_mode = "automatic"
+            mag.extra.r2 = {"value": event_info["ML_r2"], "namespace": ns}
+
+            event.magnitudes = [mag]
+            event.preferred_magnitude_id = mag.resource_id
 
     return event
-- 
2.43.0


From cd7a2616eb8b8a00c9b9ab6f92b5dcb9f11dcb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:19 +0000
Subject: [PATCH 26/47] fix: cut a copy of the raw waveforms

---
 quakemigrate/io/cut_waveforms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/io/cut_waveforms.py b/quakemigrate/io/cut_waveforms.py
index 072321d..9a11e78 100644
--- a/quakemigrate/io/cut_waveforms.py
+++ b/quakemigrate/io/cut_waveforms.py
@@ -89,7 +89,8 @@ def write_cut_waveforms(
     fpath.mkdir(exist_ok=True, parents=True)
     fstem = f"{event.uid}"
 
-    st = event.data.raw_waveforms
+    # Work on a copy
+    st = event.data.raw_waveforms.copy()
 
     # "if pre_cut" catches both 0. and None
     if pre_cut:
-- 
2.43.0


From 62b73139aef3a17b1734dadb9b38d95a79cab485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:19 +0000
Subject: [PATCH 27/47] fix: write cut waveforms in the requested units when
 magnitudes are computed

---
 quakemigrate/io/cut_waveforms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quakemigrate/io/cut_waveforms.py b/quakemigrate/io/cut_waveforms.py
index 9a11e78..37e1c44 100644
--- a/quakemigrate/io/cut_waveforms.py
+++ b/quakemigrate/io/cut_waveforms.py
@@ -106,8 +106,10 @@ def write_cut_waveforms(
             st.remove(tr)
 
     if waveform_type == "real" or waveform_type == "wa":
+        # Waveforms kept from the amplitude measurements are in displacement
         if (
             waveform_type == "real"
+            and units == "displacement"
             and isinstance(event.data.real_waveforms, Stream)
             and not pre_cut
             and not post_cut
@@ -115,6 +117,7 @@ def write_cut_waveforms(
             st = event.data.real_waveforms
         elif (
             waveform_type == "wa"
+            and units == "displacement"
             and isinstance(event.data.wa_waveforms, Stream)
             and not pre_cut
             and not post_cut
-- 
2.43.0


From 9132e0f9a5de865d3f3ae57e5ee19d9f6f6fe7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:14 +0000
Subject: [PATCH 28/47] fix: pad upsampled data with the actual edge values

The pads added by upsample were cast to integers, so floating point data (for
example waveforms in physical units) were continued by zeros.
---
 quakemigrate/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/util.py b/quakemigrate/util.py
index 1bef077..26e0c19 100644
--- a/quakemigrate/util.py
+++ b/quakemigrate/util.py
@@ -562,7 +562,7 @@ def upsample(trace, upfactor, starttime, endtime):
         )
         logging.debug(f"Start pad = {start_pad}")
         # Add padding data (constant value)
-        start_fill = np.full(int(start_pad), trace.data[0], dtype=int)
+        start_fill = np.full(int(start_pad), trace.data[0])
         dnew = np.append(start_fill, dnew)
         # Calculate new starttime of trace
         new_starttime = trace.stats.starttime - start_pad / (
@@ -581,7 +581,7 @@ def upsample(trace, upfactor, starttime, endtime):
         )
         logging.debug(f"End pad = {end_pad}")
         # Add padding data (constant value)
-        end_fill = np.full(int(end_pad), trace.data[-1], dtype=int)
+        end_fill = np.full(int(end_pad), trace.data[-1])
         dnew = np.append(dnew, end_fill)
 
     out = Trace()
-- 
2.43.0


From 3094fe2e1671af3189a5d6bdb982245cc1ade3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:07 +0000
Subject: [PATCH 29/47] fix: do not run the STA/LTA kernels past the signal
 when the windows do not fit

---
 quakemigrate/core/src/onsetlib.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/quakemigrate/core/src/onsetlib.c b/quakemigrate/core/src/onsetlib.c
index fe14a1d..4ff8872 100644
--- a/quakemigrate/core/src/onsetlib.c
+++ b/quakemigrate/core/src/onsetlib.c
@@ -40,6 +40,11 @@ overlapping_sta_lta(const double * signal,
   const double frac = (double) head -> nlta / (double) head -> nsta;
   double buf, sta = 0., lta;
 
+  // Leave the onset untouched if the windows do not fit within the signal
+  if (head -> nsta < 1 || head -> nlta < head -> nsta || head -> nlta > head -> n) {
+    return;
+  }
+
   for (i = 0; i < head -> nsta; ++i) {
     sta += signal[i];
   }
@@ -84,6 +89,11 @@ centred_sta_lta(const double * signal,
   const double frac = (double) head -> nlta / (double) head -> nsta;
   double sta = 0., lta = 0.;
 
+  // Leave the onset untouched if the windows do not fit within the signal
+  if (head -> nsta < 1 || head -> nlta < 1 || head -> nsta > head -> n - head -> nlta) {
+    return;
+  }
+
   // Calculate initial LTA
   for (i = 0; i < head -> nlta; ++i) {
     lta += signal[i];
-- 
2.43.0


From d438f93033cdffd216d7af4a65321b0e7fde1cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:07 +0000
Subject: [PATCH 30/47] fix: return an STA/LTA of one where the long-term
 average is zero

---
 quakemigrate/core/src/onsetlib.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quakemigrate/core/src/onsetlib.c b/quakemigrate/core/src/onsetlib.c
index 4ff8872..85ad95d 100644
--- a/quakemigrate/core/src/onsetlib.c
+++ b/quakemigrate/core/src/onsetlib.c
@@ -54,12 +54,12 @@ overlapping_sta_lta(const double * signal,
     lta += buf;
     sta += buf - signal[i - head -> nsta];
   }
-  onset[head -> nlta - 1] = sta / lta * frac;
+  onset[head -> nlta - 1] = lta > 0. ? sta / lta * frac : 1.;
   for (i = head -> nlta; i < head -> n; ++i) {
     buf = signal[i];
     sta += buf - signal[i - head -> nsta];
     lta += buf - signal[i - head -> nlta];
-    onset[i] = sta / lta * frac;
+    onset[i] = lta > 0. ? sta / lta * frac : 1.;
   }
 }
 
@@ -105,7 +105,7 @@ centred_sta_lta(const double * signal,
   }
 
   // Set first value, and loop over rest of signal
-  onset[head -> nlta - 1] = sta / lta * frac;
+  onset[head -> nlta - 1] = lta > 0. ? sta / lta * frac : 1.;
   for (i = head -> nlta; i < head -> n - head -> nsta; ++i) {
     sta += signal[i + head -> nsta] - signal[i];
     lta += signal[i] - signal[i - head -> nlta];
-- 
2.43.0


From e57d44f86566c263eb2fa41e3ba2a1e5bd6135e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:31 +0000
Subject: [PATCH 31/47] fix: index the onset array with 64-bit arithmetic in
 the migration kernel

---
 quakemigrate/core/src/migratelib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/core/src/migratelib.c b/quakemigrate/core/src/migratelib.c
index ad539c6..9221264 100755
--- a/quakemigrate/core/src/migratelib.c
+++ b/quakemigrate/core/src/migratelib.c
@@ -54,7 +54,7 @@ migrate(double * onsets, int32_t * lookup_tables, double * map4d, int32_t fsmp,
     for (station = 0; station < n_stations; ++station) {
       traveltime = MAX(0, traveltimes[station]);
       for (sample = 0; sample < n_samples; ++sample) {
-        stack[sample] += onsets[station * (fsmp + lsmp + n_samples) + \
+        stack[sample] += onsets[(int64_t) station * (fsmp + lsmp + n_samples) + \
           traveltime + fsmp + sample];
       }
     }
-- 
2.43.0


From dc8f30627cd94fb02039ed3e92c7fd615fbdf2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:38 +0000
Subject: [PATCH 32/47] fix: recursive STA/LTA returns 1 where the long-term
 average is 0

---
 quakemigrate/core/src/onsetlib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/core/src/onsetlib.c b/quakemigrate/core/src/onsetlib.c
index 85ad95d..1d4633a 100644
--- a/quakemigrate/core/src/onsetlib.c
+++ b/quakemigrate/core/src/onsetlib.c
@@ -146,7 +146,7 @@ recursive_sta_lta(const double * signal,
     buf = signal[i];
     sta = csta * buf + (1 - csta) * sta;
     lta = clta * buf + (1 - clta) * lta;
-    onset[i] = sta / lta;
+    onset[i] = lta > 0. ? sta / lta : 1.;
   }
 
   // Null first nlta to remove transient signal from "recursive" measure
-- 
2.43.0


From b3ebc48cbf0a8237eefd8052876d22bb4e3485ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:48 +0000
Subject: [PATCH 33/47] fix: each run logs to its own file, also after another
 run in the process

---
 quakemigrate/util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/util.py b/quakemigrate/util.py
index 26e0c19..c4e062a 100644
--- a/quakemigrate/util.py
+++ b/quakemigrate/util.py
@@ -146,7 +146,10 @@ def logger(logstem, log, loglevel="info"):
     else:
         handlers = [logging.StreamHandler(sys.stdout)]
 
-    logging.basicConfig(level=level, format="%(message)s", handlers=handlers)
+    # Replace the handlers of any previous run in this process
+    logging.basicConfig(
+        level=level, format="%(message)s", handlers=handlers, force=True
+    )
 
 
 def time2sample(time, sampling_rate):
-- 
2.43.0


From 0640a0a6293dcf7fc3e4deedb5c8c4d370833af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:53 +0000
Subject: [PATCH 34/47] fix: keep the user's own files in a model directory
 when tidying up after NonLinLoc

---
 quakemigrate/lut/create_lut.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/quakemigrate/lut/create_lut.py b/quakemigrate/lut/create_lut.py
index 4aca474..bd190b4 100644
--- a/quakemigrate/lut/create_lut.py
+++ b/quakemigrate/lut/create_lut.py
@@ -523,9 +523,14 @@ def _compute_1d_nlloc(lut, phase, vmodel, **kwargs):
                 file.unlink()
 
     if not retain_nll_grids:
-        rmtree(cwd / "model")
-        # Check time directory is empty before removing (might have saved grids from
-        # previous runs)
+        for file in (cwd / "model").glob(f"layer.{phase}.mod.*"):
+            file.unlink()
+        # Check model and time directories are empty before removing (might have saved
+        # grids from previous runs, or hold other files)
+        if not os.listdir(cwd / "model"):
+            rmtree(cwd / "model")
+        else:
+            logging.info("Warning: model directory not empty. Not removed.")
         if not os.listdir(cwd / "time"):
             rmtree(cwd / "time")
         else:
-- 
2.43.0


From 346bfff56604fafe245a078ad2fc5cad7ddd2331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:07 +0000
Subject: [PATCH 35/47] fix: locate reports a missing starttime or endtime as
 documented

QuakeScan.locate converted both times before checking that both were given,
so supplying one without the other failed with a TypeError from UTCDateTime
instead of the intended RuntimeError.
---
 quakemigrate/signal/scan.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quakemigrate/signal/scan.py b/quakemigrate/signal/scan.py
index e41bbea..1c75904 100755
--- a/quakemigrate/signal/scan.py
+++ b/quakemigrate/signal/scan.py
@@ -373,14 +373,14 @@ class QuakeScan:
         self.run.stage = "locate"
         self.run.logger(self.log)
 
-        if not (starttime is None and endtime is None):
-            starttime, endtime = UTCDateTime(starttime), UTCDateTime(endtime)
-            if starttime > endtime:
-                raise util.TimeSpanException
         if trigger_file is None and starttime is None and endtime is None:
             raise RuntimeError("Must supply an input argument.")
         if (starttime is None) ^ (endtime is None):
             raise RuntimeError("Must supply a starttime AND an endtime.")
+        if starttime is not None:
+            starttime, endtime = UTCDateTime(starttime), UTCDateTime(endtime)
+            if starttime > endtime:
+                raise util.TimeSpanException
 
         logging.info(util.log_spacer)
         logging.info("\tLOCATE - Determining event location and uncertainty")
-- 
2.43.0


From 0616bbcb8363478df1c0df07d29b66f358a447b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:07 +0000
Subject: [PATCH 36/47] fix: unknown STA/LTA position or signal transform is
 reported

An unrecognised 'position' or 'signal_transform' setting was accepted, and
surfaced as an UnboundLocalError when the first onset was calculated.
---
 quakemigrate/signal/onsets/stalta.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/quakemigrate/signal/onsets/stalta.py b/quakemigrate/signal/onsets/stalta.py
index 4cb9812..7cc060e 100644
--- a/quakemigrate/signal/onsets/stalta.py
+++ b/quakemigrate/signal/onsets/stalta.py
@@ -521,6 +521,11 @@ class STALTAOnset(Onset):
             transformed_waveforms = [np.abs(hilbert(tr.data)) for tr in stream]
         elif self.signal_transform == "env_squared":
             transformed_waveforms = [np.abs(hilbert(tr.data)) ** 2 for tr in stream]
+        else:
+            raise ValueError(
+                "'signal_transform' must be 'energy', 'abs', 'env' or 'env_squared', "
+                f"not '{self.signal_transform}'."
+            )
 
         if self.position == "centred":
             if self.use_python_backend:
@@ -532,6 +537,10 @@ class STALTAOnset(Onset):
                 onset_fn = overlapping_sta_lta_py
             else:
                 onset_fn = overlapping_sta_lta
+        else:
+            raise ValueError(
+                f"'position' must be 'classic' or 'centred', not '{self.position}'."
+            )
 
         onsets = np.array(
             [onset_fn(waveform, stw, ltw) for waveform in transformed_waveforms]
-- 
2.43.0


From 43d4912136d60e6a7a282758a342d72cbfd347de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:07 +0000
Subject: [PATCH 37/47] fix: unknown pick threshold method is reported

A threshold method changed to an unsupported value after the picker was
created surfaced as an UnboundLocalError when the first pick was made.
---
 quakemigrate/signal/pickers/gaussian.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quakemigrate/signal/pickers/gaussian.py b/quakemigrate/signal/pickers/gaussian.py
index c5a6f5d..275f288 100644
--- a/quakemigrate/signal/pickers/gaussian.py
+++ b/quakemigrate/signal/pickers/gaussian.py
@@ -360,6 +360,8 @@ class GaussianPicker(PhasePicker):
             med = np.median(onset_noise)
             mad = util.calculate_mad(onset_noise)
             pick_threshold = med + (mad * self.mad_pick_threshold)
+        else:
+            raise util.InvalidPickThresholdMethodException
 
         return pick_threshold
 
-- 
2.43.0


From a5192b9a98d440975502d65f59ea0aa1762c529e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:23 +0000
Subject: [PATCH 38/47] fix: adding lookup tables keeps the operands and the
 tables of the first, as documented

---
 quakemigrate/lut/lut.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/lut/lut.py b/quakemigrate/lut/lut.py
index 839fd8a..3693c0f 100644
--- a/quakemigrate/lut/lut.py
+++ b/quakemigrate/lut/lut.py
@@ -882,8 +882,9 @@ class LUT(Grid3D):
             return self
         else:
             if self == other:
-                self.traveltimes.update(other.traveltimes)
-                return self
+                combined = copy.copy(self)
+                combined.traveltimes = {**other.traveltimes, **self.traveltimes}
+                return combined
             else:
                 print("Grid definitions do not match - cannot combine.")
 
-- 
2.43.0


From 757a0f8d2ce68492c89854332d600e8d49230876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:23 +0000
Subject: [PATCH 39/47] fix: ScanmSEED.append clips copies of the arrays it is
 given

---
 quakemigrate/io/scanmseed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/io/scanmseed.py b/quakemigrate/io/scanmseed.py
index 59937b8..c441be8 100644
--- a/quakemigrate/io/scanmseed.py
+++ b/quakemigrate/io/scanmseed.py
@@ -100,8 +100,8 @@ class ScanmSEED:
         """
 
         # Clip max value of COA to prevent int overflow
-        max_coa[max_coa > 21474.0] = 21474.0
-        max_coa_n[max_coa_n > 21474.0] = 21474.0
+        max_coa = np.minimum(max_coa, 21474.0)
+        max_coa_n = np.minimum(max_coa_n, 21474.0)
 
         meta = {
             "network": "NW",
-- 
2.43.0


From e9e044b2051f9b5d168f4f4e5c33ad5d455e210d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:24 +0000
Subject: [PATCH 40/47] fix: write_availability keeps the index of the table it
 is given

---
 quakemigrate/io/availability.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quakemigrate/io/availability.py b/quakemigrate/io/availability.py
index 59caf0c..4e143b8 100644
--- a/quakemigrate/io/availability.py
+++ b/quakemigrate/io/availability.py
@@ -136,6 +136,8 @@ def write_availability(run, availability):
     fpath = run.path / "detect" / "availability"
     fpath.mkdir(exist_ok=True, parents=True)
 
+    # Work on a copy
+    availability = availability.copy()
     availability.index = times = pd.to_datetime(availability.index)
     datelist = set([time.date() for time in times])
 
-- 
2.43.0


From fe233bb502ec8d9474142910575bbebb83f48135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:42 +0000
Subject: [PATCH 41/47] fix: the pads of a scan follow the current onset
 settings and its own lookup table

---
 quakemigrate/signal/scan.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quakemigrate/signal/scan.py b/quakemigrate/signal/scan.py
index 1c75904..e1fc8a6 100755
--- a/quakemigrate/signal/scan.py
+++ b/quakemigrate/signal/scan.py
@@ -422,6 +422,8 @@ class QuakeScan:
             self.run, self.continuous_scanmseed_write, self.scan_rate
         )
 
+        # The onset may have been changed, or used with another lookup table, since
+        self.onset.post_pad = self.lut.max_traveltime
         self.pre_pad, self.post_pad = self.onset.pad(self.timestep)
         availability_cols = np.array(
             [
@@ -491,6 +493,8 @@ class QuakeScan:
         triggered_events = read_triggered_events(self.run, **kwargs)
         n_events = len(triggered_events.index)
 
+        # The onset may have been changed, or used with another lookup table, since
+        self.onset.post_pad = self.lut.max_traveltime
         self.pre_pad, self.post_pad = self.onset.pad(4 * self.marginal_window)
 
         for i, triggered_event in triggered_events.iterrows():
-- 
2.43.0


From f600f5a81311a71c9c3fd726731099700a8996db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:19 +0000
Subject: [PATCH 42/47] fix: a scan given the former 'sampling_rate' setting
 can be created

The message explaining that the scan rate follows the onset reads
scan_rate, which was only set after the former setting was handled, so
QuakeScan(..., sampling_rate=50) ended in an AttributeError.
---
 quakemigrate/signal/scan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/signal/scan.py b/quakemigrate/signal/scan.py
index e1fc8a6..ff92def 100755
--- a/quakemigrate/signal/scan.py
+++ b/quakemigrate/signal/scan.py
@@ -243,8 +243,8 @@ class QuakeScan:
         # General QuakeScan parameters
         self.threads = kwargs.get("threads", 1)
         self.n_cores = kwargs.get("n_cores")  # DEPRECATING
-        self.sampling_rate = kwargs.get("sampling_rate")  # DEPRECATING
         self.scan_rate = self.onset.sampling_rate
+        self.sampling_rate = kwargs.get("sampling_rate")  # DEPRECATING
 
         # Magnitudes
         mags = kwargs.get("mags")
-- 
2.43.0


From 53f947839b461c23e6f4dfdafef48c9606e6dd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:39 +0000
Subject: [PATCH 43/47] fix: the former 'minimum_repeat' setting replaces the
 default interval

Trigger(marginal_window=3.0, minimum_repeat=8.0) was refused because the
default min_event_interval (4.0) was checked against the marginal window
before the value given under the former name was looked at.
---
 quakemigrate/signal/trigger.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/signal/trigger.py b/quakemigrate/signal/trigger.py
index 9b9c199..5458c11 100755
--- a/quakemigrate/signal/trigger.py
+++ b/quakemigrate/signal/trigger.py
@@ -218,9 +218,10 @@ class Trigger:
         self.median_multiplier = kwargs.get("median_multiplier", 1.2)
 
         self.marginal_window = kwargs.get("marginal_window", 2.0)
-        self.min_event_interval = kwargs.get("min_event_interval", 4.0)
         if kwargs.get("minimum_repeat"):
             self.minimum_repeat = kwargs.get("minimum_repeat")
+        else:
+            self.min_event_interval = kwargs.get("min_event_interval", 4.0)
         self.normalise_coalescence = kwargs.get("normalise_coalescence", False)
         self.pad = kwargs.get("pad", 120.0)
         self.smooth_coa = kwargs.get("smooth_coa", False)
-- 
2.43.0


From 6c6ee8a171c57e1619286ddadf1a51da11cb5dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:00 +0000
Subject: [PATCH 44/47] fix: availability of more than two phases is divided by
 their number in the trigger summary

---
 quakemigrate/plot/trigger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/plot/trigger.py b/quakemigrate/plot/trigger.py
index 03e4a54..5397ef6 100644
--- a/quakemigrate/plot/trigger.py
+++ b/quakemigrate/plot/trigger.py
@@ -240,9 +240,9 @@ def _plot_station_availability(ax, availability, endtime):
             "\t\t    Only P and/or S are currently supported! "
             "Plotting by station only."
         )
+        divideby = len(phases)
         phases = ["*"]
         colours = ["green"]
-        divideby = len(phases)
     elif len(phases) == 1:
         if phases[0] == "P":
             colours = ["#F03B20"]
-- 
2.43.0


From 7f86e45611c58c43db06f8162e9c3faa553768c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:31 +0000
Subject: [PATCH 45/47] fix: a station with a single amplitude observation is
 labelled, and the last station labelled is recorded

label_stations() never labelled the only observation of a list, and did not
return the last station if it had one observation, so that station was labelled
a second time for its unused observations.
---
 quakemigrate/plot/amplitudes.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/quakemigrate/plot/amplitudes.py b/quakemigrate/plot/amplitudes.py
index c97b293..7670d08 100644
--- a/quakemigrate/plot/amplitudes.py
+++ b/quakemigrate/plot/amplitudes.py
@@ -208,9 +208,7 @@ def label_stations(ax, tr_ids, amps, dists, rejected=False):
         if not stn:
             stn = tr_id[:-1]
             stn_start = 0
-            comps.append(tr_id[-1])
-            continue
-        elif tr_id[:-1] != stn:
+        if tr_id[:-1] != stn:
             stn_end = i
             distance = dists.iloc[i - 1]
             amp = max(amps[stn_start:stn_end])
@@ -255,6 +253,7 @@ def label_stations(ax, tr_ids, amps, dists, rejected=False):
                         va="bottom",
                         fontsize=8,
                     )
+                stns.append(stn)
         elif i == len(tr_ids) - 1:
             stn = tr_id[:-1]
             comps.append(tr_id[-1])
-- 
2.43.0


From 29ab0225290e92afce1962e53052084cb3fa2d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:48 +0000
Subject: [PATCH 46/47] fix: the summary of a lookup table gives latitudes as
 latitudes

coord2grid(inverse=True) returns longitude, latitude, depth.
---
 quakemigrate/lut/lut.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quakemigrate/lut/lut.py b/quakemigrate/lut/lut.py
index 3693c0f..7d3de12 100644
--- a/quakemigrate/lut/lut.py
+++ b/quakemigrate/lut/lut.py
@@ -486,11 +486,11 @@ class LUT(Grid3D):
         )
 
         out = out.format(
-            lat1=ll[0],
-            lon1=ll[1],
+            lat1=ll[1],
+            lon1=ll[0],
             dep1=ll[2],
-            lat2=ur[0],
-            lon2=ur[1],
+            lat2=ur[1],
+            lon2=ur[0],
             dep2=ur[2],
             unit_name=self.unit_name,
         )
-- 
2.43.0


From 5f7ffc6d8b58b4ac71d1662c11ffe1987629bd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:09 +0000
Subject: [PATCH 47/47] fix: the summary of a homogeneous lookup table gives
 velocities in the units of its grid

Velocities are in grid units per second, so 5.0 in a grid in kilometres was
reported as 5.00 m/s.
---
 quakemigrate/lut/create_lut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/lut/create_lut.py b/quakemigrate/lut/create_lut.py
index bd190b4..dd9ae21 100644
--- a/quakemigrate/lut/create_lut.py
+++ b/quakemigrate/lut/create_lut.py
@@ -198,7 +198,7 @@ def compute_traveltimes(
             velocity = kwargs.get(f"v{phase.lower()}")
             if velocity is None:
                 raise TypeError(f"Missing argument: 'v{phase.lower()}'")
-            lut.velocity_model += f"\n\tV{phase.lower()} = {velocity:5.2f} m/s"
+            lut.velocity_model += f"\n\tV{phase.lower()} = {velocity:5.2f} {lut.unit_name}/s"
 
             logging.info(f"\t...phase: {phase}...")
             _compute_homogeneous(lut, phase, velocity)
-- 
2.43.0

