From 8e5a234328cd9c51f66aac322d7b568ff5d92668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 01/73] fix: STA/LTA kernels no longer divide by a zero LTA or
 write past short signals

---
 quakemigrate/core/src/onsetlib.c | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/quakemigrate/core/src/onsetlib.c b/quakemigrate/core/src/onsetlib.c
index fe14a1d..90d0a46 100644
--- a/quakemigrate/core/src/onsetlib.c
+++ b/quakemigrate/core/src/onsetlib.c
@@ -40,6 +40,11 @@ overlapping_sta_lta(const double * signal,
   const double frac = (double) head -> nlta / (double) head -> nsta;
   double buf, sta = 0., lta;
 
+  // Windows do not fit within the signal - leave as null result
+  if (head -> n < head -> nlta) {
+    return;
+  }
+
   for (i = 0; i < head -> nsta; ++i) {
     sta += signal[i];
   }
@@ -49,12 +54,18 @@ overlapping_sta_lta(const double * signal,
     lta += buf;
     sta += buf - signal[i - head -> nsta];
   }
-  onset[head -> nlta - 1] = sta / lta * frac;
+  if (lta > 0.) {
+    onset[head -> nlta - 1] = sta / lta * frac;
+  }
   for (i = head -> nlta; i < head -> n; ++i) {
     buf = signal[i];
     sta += buf - signal[i - head -> nsta];
     lta += buf - signal[i - head -> nlta];
-    onset[i] = sta / lta * frac;
+    if (lta > 0.) {
+      onset[i] = sta / lta * frac;
+    } else {
+      onset[i] = 1.;
+    }
   }
 }
 
@@ -84,6 +95,11 @@ centred_sta_lta(const double * signal,
   const double frac = (double) head -> nlta / (double) head -> nsta;
   double sta = 0., lta = 0.;
 
+  // Windows do not fit within the signal - leave as null result
+  if (head -> n < head -> nlta + head -> nsta) {
+    return;
+  }
+
   // Calculate initial LTA
   for (i = 0; i < head -> nlta; ++i) {
     lta += signal[i];
@@ -95,7 +111,9 @@ centred_sta_lta(const double * signal,
   }
 
   // Set first value, and loop over rest of signal
-  onset[head -> nlta - 1] = sta / lta * frac;
+  if (lta > 0.) {
+    onset[head -> nlta - 1] = sta / lta * frac;
+  }
   for (i = head -> nlta; i < head -> n - head -> nsta; ++i) {
     sta += signal[i + head -> nsta] - signal[i];
     lta += signal[i] - signal[i - head -> nlta];
-- 
2.43.0


From b02f4e43645915de98850d3066075a01303f570d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 02/73] fix: trim2sample always returns a whole number of
 samples

---
 quakemigrate/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/util.py b/quakemigrate/util.py
index d4fd81c..4c34d79 100644
--- a/quakemigrate/util.py
+++ b/quakemigrate/util.py
@@ -266,7 +266,9 @@ def trim2sample(time, sampling_rate):
 
     """
 
-    return int(np.ceil(time * sampling_rate) / sampling_rate * 1000) / 1000
+    # Round to avoid floating point error when the time is already an integer number of
+    # samples
+    return int(np.ceil(round(time * sampling_rate, 6))) / sampling_rate
 
 
 def wa_response(convert="DIS2DIS", obspy_def=True):
-- 
2.43.0


From 4665f40dcfb5a81c0427ecb05250fcf1b2323fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 03/73] fix: pad upsampled data with its own end values, not
 their integer part

---
 quakemigrate/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/util.py b/quakemigrate/util.py
index 4c34d79..f2a49f3 100644
--- a/quakemigrate/util.py
+++ b/quakemigrate/util.py
@@ -564,7 +564,7 @@ def upsample(trace, upfactor, starttime, endtime):
         )
         logging.debug(f"Start pad = {start_pad}")
         # Add padding data (constant value)
-        start_fill = np.full(int(start_pad), trace.data[0], dtype=int)
+        start_fill = np.full(int(start_pad), trace.data[0])
         dnew = np.append(start_fill, dnew)
         # Calculate new starttime of trace
         new_starttime = trace.stats.starttime - start_pad / (
@@ -583,7 +583,7 @@ def upsample(trace, upfactor, starttime, endtime):
         )
         logging.debug(f"End pad = {end_pad}")
         # Add padding data (constant value)
-        end_fill = np.full(int(end_pad), trace.data[-1], dtype=int)
+        end_fill = np.full(int(end_pad), trace.data[-1])
         dnew = np.append(dnew, end_fill)
 
     out = Trace()
-- 
2.43.0


From fdddd3cb1e08169632fdfdaf398dd576f85916f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 04/73] fix: full-timespan data is not rejected because of
 floating point error

---
 quakemigrate/io/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/io/data.py b/quakemigrate/io/data.py
index 7774784..95f9139 100755
--- a/quakemigrate/io/data.py
+++ b/quakemigrate/io/data.py
@@ -604,7 +604,8 @@ class WaveformData:
                 # rate as provided. To check that as well, use
                 # `check_sampling_rate=True` and specify a sampling rate.
                 if full_timespan:
-                    n_samples = timespan * st_id[0].stats.sampling_rate + 1
+                    # Round to avoid floating point error (e.g. 1.1 s * 50 Hz)
+                    n_samples = round(timespan * st_id[0].stats.sampling_rate, 6) + 1
                     if len(st_id) > 1:
                         continue
                     elif st_id[0].stats.npts < n_samples:
-- 
2.43.0


From b3525528a333e0211fc71776d1539048378212be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 05/73] fix: marginal-window timestamps have one entry per
 sample for every window length

---
 quakemigrate/io/event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/io/event.py b/quakemigrate/io/event.py
index 2d44e0b..223453a 100644
--- a/quakemigrate/io/event.py
+++ b/quakemigrate/io/event.py
@@ -411,7 +411,7 @@ class Event:
         # Utilise the .times() method of `obspy.Trace` objects
         tr = Trace(
             header={
-                "npts": 4 * self.marginal_window * sampling_rate + 1,
+                "npts": util.time2sample(4 * self.marginal_window, sampling_rate) + 1,
                 "sampling_rate": sampling_rate,
                 "starttime": self.trigger_time - 2 * self.marginal_window,
             }
-- 
2.43.0


From 64bfc7c11b275863dc45b5a9ce12a67d0c8bd77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 06/73] fix: trim the 4-D coalescence map to the same samples
 as the coalescence data

---
 quakemigrate/io/event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/io/event.py b/quakemigrate/io/event.py
index 223453a..d3e811d 100644
--- a/quakemigrate/io/event.py
+++ b/quakemigrate/io/event.py
@@ -431,7 +431,7 @@ class Event:
             (self.coa_data["DT"] >= window_start) & (self.coa_data["DT"] <= window_end)
         ]
         self.map4d = self.map4d[
-            :, :, :, self.coa_data.index[0] : self.coa_data.index[-1]
+            :, :, :, self.coa_data.index[0] : self.coa_data.index[-1] + 1
         ]
         self.coa_data.reset_index(drop=True, inplace=True)
 
-- 
2.43.0


From 192e0e36a6f53a8331e639479404337325dc5ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:44 +0000
Subject: [PATCH 07/73] fix: flatlined data with a constant offset is
 recognised as flatlined after detrending

---
 quakemigrate/signal/onsets/stalta.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/quakemigrate/signal/onsets/stalta.py b/quakemigrate/signal/onsets/stalta.py
index 4cb9812..3eebc5c 100644
--- a/quakemigrate/signal/onsets/stalta.py
+++ b/quakemigrate/signal/onsets/stalta.py
@@ -187,6 +187,13 @@ def pre_process(stream, sampling_rate, resample, upfactor, filter_, starttime, e
 
     logging.debug(stream.__str__(extended=True))
     logging.debug(f"Resample={resample}, Upfactor={upfactor}")
+    # Set flatlined traces to exactly zero, so that they are still identified as flatlined
+    # by the availability check (detrending a constant leaves floating point noise)
+    stream = stream.copy()
+    for tr in stream:
+        if len(tr) > 0 and tr.data.max() == tr.data.min():
+            tr.data = np.zeros(len(tr))
+
     # Resample the data here
     resampled_stream = util.resample(
         stream, sampling_rate, resample, upfactor, starttime, endtime
-- 
2.43.0


From 52ceada24938bff44d5e3bc6dfc24e83f1cbb852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:11 +0000
Subject: [PATCH 08/73] fix: full-timespan check is not affected by the
 microsecond rounding of time differences

---
 quakemigrate/io/data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/io/data.py b/quakemigrate/io/data.py
index 95f9139..7e348ca 100755
--- a/quakemigrate/io/data.py
+++ b/quakemigrate/io/data.py
@@ -569,7 +569,8 @@ class WaveformData:
 
         availability = {}
         available = 0
-        timespan = self.endtime - self.starttime
+        # Exact difference; subtracting UTCDateTimes rounds to the nearest microsecond
+        timespan = (self.endtime.ns - self.starttime.ns) / 1e9
 
         # Check if any channels in stream
         if bool(st):
@@ -605,7 +606,7 @@ class WaveformData:
                 # `check_sampling_rate=True` and specify a sampling rate.
                 if full_timespan:
                     # Round to avoid floating point error (e.g. 1.1 s * 50 Hz)
-                    n_samples = round(timespan * st_id[0].stats.sampling_rate, 6) + 1
+                    n_samples = round(timespan * st_id[0].stats.sampling_rate, 5) + 1
                     if len(st_id) > 1:
                         continue
                     elif st_id[0].stats.npts < n_samples:
-- 
2.43.0


From 7fa09a439fd4680837b5ed104839b113712101bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 09/73] fix: only return waveforms for the requested stations
 when the archive format matches other files

---
 quakemigrate/io/data.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/quakemigrate/io/data.py b/quakemigrate/io/data.py
index 7e348ca..43a0535 100755
--- a/quakemigrate/io/data.py
+++ b/quakemigrate/io/data.py
@@ -299,6 +299,14 @@ class Archive:
             # Merge waveforms channel-by-channel with no-clobber merge
             st = util.merge_stream(st)
 
+            if not self.read_all_stations:
+                # Wildcards in the archive format can match files from other stations
+                # (e.g. "STA1*" matches "STA10"); keep only stations in station file
+                st_selected = Stream()
+                for station in self.stations:
+                    st_selected += st.select(station=station)
+                st = st_selected
+
             # Make copy of raw waveforms to output if requested
             data.raw_waveforms = st.copy()
 
-- 
2.43.0


From 19c61e4a763fb2ed3e8ad9e078eb368df4af658d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:13 +0000
Subject: [PATCH 10/73] fix: shift_to_sample does not fail on single-sample
 traces when interpolating

---
 quakemigrate/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/util.py b/quakemigrate/util.py
index f2a49f3..9135908 100644
--- a/quakemigrate/util.py
+++ b/quakemigrate/util.py
@@ -364,7 +364,8 @@ def shift_to_sample(stream, interpolate=False):
                 round(delta / 1e6 * tr.stats.sampling_rate) / tr.stats.sampling_rate
                 - delta / 1e6
             )
-            if not interpolate:
+            # A single sample can't be interpolated
+            if not interpolate or len(tr) < 2:
                 logging.info(
                     f"Trace\n\t{tr}\nhas off-sample data. Applying "
                     f"{time_shift:+f} s shift to timing."
-- 
2.43.0


From 04e1d5471a12c34a84d9fd6056b34f449305b5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:59 +0000
Subject: [PATCH 11/73] fix: decimated grids keep the position of the nodes
 when the factor does not divide the grid

---
 quakemigrate/lut/lut.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quakemigrate/lut/lut.py b/quakemigrate/lut/lut.py
index 310cc96..d98206e 100644
--- a/quakemigrate/lut/lut.py
+++ b/quakemigrate/lut/lut.py
@@ -127,6 +127,8 @@ class Grid3D:
         else:
             grid = copy.deepcopy(self)
 
+        # First retained node is not the original corner if there is a remainder
+        grid.ll_corner = self.ll_corner + c1 * self.node_spacing
         grid.node_count = new_node_count
         grid.node_spacing = self.node_spacing * df
 
-- 
2.43.0


From 3c398d231f62fc84b4afb218b34a5c781f85f5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:59 +0000
Subject: [PATCH 12/73] fix: adding lookup tables does not replace stations
 which are already present

---
 quakemigrate/lut/lut.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/lut/lut.py b/quakemigrate/lut/lut.py
index d98206e..092945e 100644
--- a/quakemigrate/lut/lut.py
+++ b/quakemigrate/lut/lut.py
@@ -882,7 +882,8 @@ class LUT(Grid3D):
             return self
         else:
             if self == other:
-                self.traveltimes.update(other.traveltimes)
+                for station, traveltimes in other.traveltimes.items():
+                    self.traveltimes.setdefault(station, traveltimes)
                 return self
             else:
                 print("Grid definitions do not match - cannot combine.")
-- 
2.43.0


From 1e5433bb7f67c5c4d11ee991e1c3398c08f41a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:59 +0000
Subject: [PATCH 13/73] fix: station data is not discarded when a lookup table
 is loaded with lut_file

---
 quakemigrate/lut/lut.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/lut/lut.py b/quakemigrate/lut/lut.py
index 092945e..14f149c 100644
--- a/quakemigrate/lut/lut.py
+++ b/quakemigrate/lut/lut.py
@@ -455,6 +455,8 @@ class LUT(Grid3D):
     def __init__(self, fraction_tt=0.1, lut_file=None, **grid_spec):
         """Instantiate the LUT object."""
 
+        self.station_data = pd.DataFrame()
+
         if grid_spec:
             super().__init__(**grid_spec)
             self.fraction_tt = fraction_tt
@@ -467,8 +469,6 @@ class LUT(Grid3D):
             if lut_file is not None:
                 self.load(lut_file)
 
-        self.station_data = pd.DataFrame()
-
     def __str__(self):
         """Return short summary string of the lookup table object."""
 
-- 
2.43.0


From 4d7eaa077034c397de8a5477670507a9a30dddee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:59 +0000
Subject: [PATCH 14/73] fix: bilinear interpolation of traveltimes takes the
 grid origin into account

---
 quakemigrate/lut/create_lut.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/lut/create_lut.py b/quakemigrate/lut/create_lut.py
index 5c1b3b4..28eeaee 100644
--- a/quakemigrate/lut/create_lut.py
+++ b/quakemigrate/lut/create_lut.py
@@ -742,11 +742,15 @@ def _bilinear_interpolate(xz, xz_origin, xz_dimensions, traveltimes):
 
     """
 
+    # Get position relative to the origin, in node spacings
+    position = (xz - xz_origin) / xz_dimensions
+
     # Get indices of the nearest node
-    i, k = np.floor((xz - xz_origin) / xz_dimensions).astype(int).T
+    nearest = np.floor(position)
+    i, k = nearest.astype(int).T
 
     # Get fractional distance along each axis
-    x_d, z_d = (np.remainder(xz, xz_dimensions) / xz_dimensions).T
+    x_d, z_d = (position - nearest).T
 
     # Get 4 data points of surrounding square
     c00 = traveltimes[i, k]
-- 
2.43.0


From 76bf60902651ba38f9a87140e3f0e6f7165c7f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:59 +0000
Subject: [PATCH 15/73] fix: use the origin of NonLinLoc transverse Mercator
 projections

---
 quakemigrate/lut/create_lut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/lut/create_lut.py b/quakemigrate/lut/create_lut.py
index 28eeaee..f4eb8a6 100644
--- a/quakemigrate/lut/create_lut.py
+++ b/quakemigrate/lut/create_lut.py
@@ -698,7 +698,7 @@ def _read_nlloc(fname, ignore_proj=False):
             orig_lat = float(line[5])
             orig_lon = float(line[7])
 
-            gproj = Proj(proj="tmerc", lon=orig_lon, lat=orig_lat, units="km")
+            gproj = Proj(proj="tmerc", lon_0=orig_lon, lat_0=orig_lat, units="km")
 
         transform = [gproj, cproj, line[1]]
 
-- 
2.43.0


From 3d40172fa071796ab7edac50f78626522233b6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:59 +0000
Subject: [PATCH 16/73] fix: NonLinLoc SIMPLE projections are true to scale at
 the origin latitude

---
 quakemigrate/lut/create_lut.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/lut/create_lut.py b/quakemigrate/lut/create_lut.py
index f4eb8a6..0a4dc11 100644
--- a/quakemigrate/lut/create_lut.py
+++ b/quakemigrate/lut/create_lut.py
@@ -643,7 +643,14 @@ def _read_nlloc(fname, ignore_proj=False):
             orig_lon = float(line[5])
 
             # The simple projection is the Plate Carree/Equidistant Cylindrical
-            gproj = Proj(proj="eqc", lat_0=orig_lat, lon_0=orig_lon, units="km")
+            # (true to scale at the origin latitude)
+            gproj = Proj(
+                proj="eqc",
+                lat_ts=orig_lat,
+                lat_0=orig_lat,
+                lon_0=orig_lon,
+                units="km",
+            )
         elif line[1] == "LAMBERT":
             proj_ellipsoid = line[3]
             orig_lat = float(line[5])
-- 
2.43.0


From 4dccca26bd8dc03c780cad84ccdc17657b231217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:59 +0000
Subject: [PATCH 17/73] fix: use the ellipsoid of NonLinLoc Lambert projections

---
 quakemigrate/lut/create_lut.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/quakemigrate/lut/create_lut.py b/quakemigrate/lut/create_lut.py
index 0a4dc11..9ecd203 100644
--- a/quakemigrate/lut/create_lut.py
+++ b/quakemigrate/lut/create_lut.py
@@ -699,7 +699,6 @@ def _read_nlloc(fname, ignore_proj=False):
                 lat_2=parallel_2,
                 units="km",
                 ellps=proj_ellipsoid,
-                datum="WGS84",
             )
         elif line[1] == "TRANS_MERC":
             orig_lat = float(line[5])
-- 
2.43.0


From 466a0045920f3184f873f96766a23d5723825c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:59 +0000
Subject: [PATCH 18/73] fix: grids read from NonLinLoc files keep their node
 count

---
 quakemigrate/lut/create_lut.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quakemigrate/lut/create_lut.py b/quakemigrate/lut/create_lut.py
index 9ecd203..1abb63e 100644
--- a/quakemigrate/lut/create_lut.py
+++ b/quakemigrate/lut/create_lut.py
@@ -98,6 +98,8 @@ def read_nlloc(
                     coord_proj=cproj,
                     fraction_tt=fraction_tt,
                 )
+                # Avoid an additional node due to rounding in the transformations
+                lut.node_count = node_count
             else:
                 _, _, traveltimes = _read_nlloc(file)
 
-- 
2.43.0


From e68f6e0aec9a3dbfe1ca45781bf3fe5ff0909d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:25 +0000
Subject: [PATCH 19/73] fix: use the reference ellipsoid of NonLinLoc
 transverse Mercator projections

---
 quakemigrate/lut/create_lut.py | 39 +++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/quakemigrate/lut/create_lut.py b/quakemigrate/lut/create_lut.py
index 1abb63e..f005b0e 100644
--- a/quakemigrate/lut/create_lut.py
+++ b/quakemigrate/lut/create_lut.py
@@ -653,12 +653,10 @@ def _read_nlloc(fname, ignore_proj=False):
                 lon_0=orig_lon,
                 units="km",
             )
-        elif line[1] == "LAMBERT":
+        elif line[1] in ["LAMBERT", "TRANS_MERC"]:
             proj_ellipsoid = line[3]
             orig_lat = float(line[5])
             orig_lon = float(line[7])
-            parallel_1 = float(line[9])
-            parallel_2 = float(line[11])
 
             if proj_ellipsoid == "WGS-84":
                 proj_ellipsoid = "WGS84"
@@ -693,20 +691,27 @@ def _read_nlloc(fname, ignore_proj=False):
                 )
                 proj_ellipsoid = "WGS84"
 
-            gproj = Proj(
-                proj="lcc",
-                lon_0=orig_lon,
-                lat_0=orig_lat,
-                lat_1=parallel_1,
-                lat_2=parallel_2,
-                units="km",
-                ellps=proj_ellipsoid,
-            )
-        elif line[1] == "TRANS_MERC":
-            orig_lat = float(line[5])
-            orig_lon = float(line[7])
-
-            gproj = Proj(proj="tmerc", lon_0=orig_lon, lat_0=orig_lat, units="km")
+            if line[1] == "LAMBERT":
+                parallel_1 = float(line[9])
+                parallel_2 = float(line[11])
+
+                gproj = Proj(
+                    proj="lcc",
+                    lon_0=orig_lon,
+                    lat_0=orig_lat,
+                    lat_1=parallel_1,
+                    lat_2=parallel_2,
+                    units="km",
+                    ellps=proj_ellipsoid,
+                )
+            else:
+                gproj = Proj(
+                    proj="tmerc",
+                    lon_0=orig_lon,
+                    lat_0=orig_lat,
+                    units="km",
+                    ellps=proj_ellipsoid,
+                )
 
         transform = [gproj, cproj, line[1]]
 
-- 
2.43.0


From c304a24dba5aa4a0a24ef76e7ea58d7deaefd93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:08 +0000
Subject: [PATCH 20/73] fix: split the coalescence stream at midnight when
 midnight is not on the sample grid

---
 quakemigrate/io/scanmseed.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/io/scanmseed.py b/quakemigrate/io/scanmseed.py
index 59937b8..dcddc3e 100644
--- a/quakemigrate/io/scanmseed.py
+++ b/quakemigrate/io/scanmseed.py
@@ -139,7 +139,12 @@ class ScanmSEED:
         elif stats.starttime.julday != stats.endtime.julday:
             logging.debug("Timestep doesn't fall at midnight!")
             write_start = stats.starttime
-            write_end = UTCDateTime(stats.endtime.date) - stats.delta
+            # Find the last sample before midnight (which might not be on the sample grid)
+            n_before = (
+                UTCDateTime(stats.endtime.date) - stats.starttime
+            ) * stats.sampling_rate
+            n_before = max(1, int(np.ceil(n_before - 0.01)))
+            write_end = stats.starttime + (n_before - 1) * stats.delta
             self.write(write_start, write_end)
             self.stream.trim(starttime=write_end + stats.delta)
             # Set written to false, because there is residual data that has not yet been
-- 
2.43.0


From 6e1dc415c04aca01e3ec6c9d110011eeaddb8e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:08 +0000
Subject: [PATCH 21/73] fix: read_scanmseed does not discard the data after a
 gap

---
 quakemigrate/io/scanmseed.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quakemigrate/io/scanmseed.py b/quakemigrate/io/scanmseed.py
index dcddc3e..d5f1021 100644
--- a/quakemigrate/io/scanmseed.py
+++ b/quakemigrate/io/scanmseed.py
@@ -304,6 +304,9 @@ def read_scanmseed(run, starttime, endtime, pad, ucf):
         raise util.NoScanMseedDataException
 
     scanmseed.merge(method=-1)
+    # If there are gaps between the files, set the coalescence to zero for the missing
+    # period, as is done by detect() for timesteps for which there is no data
+    scanmseed.merge(method=1, fill_value=0)
     stats = scanmseed.select(station="COA")[0].stats
 
     data = pd.DataFrame()
-- 
2.43.0


From a598205a6fb3af35cac9b5d2d9988c8d7057d4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:46 +0000
Subject: [PATCH 22/73] fix: threshold windows are not one sample short because
 of floating point error

---
 quakemigrate/signal/trigger.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/signal/trigger.py b/quakemigrate/signal/trigger.py
index 9b9c199..be76a81 100755
--- a/quakemigrate/signal/trigger.py
+++ b/quakemigrate/signal/trigger.py
@@ -458,7 +458,8 @@ class Trigger:
                 window_length = self.mad_window_length
             else:
                 window_length = self.median_window_length
-            breaks = breaks[breaks % int(window_length * sampling_rate) == 0][1:]
+            window_samples = util.time2sample(window_length, sampling_rate)
+            breaks = breaks[breaks % window_samples == 0][1:]
             chunks = np.split(scandata.values, breaks)
 
             # Calculate the median values
-- 
2.43.0


From 53742fc4116e6327f882290fe40fcdf9d751fb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:06 +0000
Subject: [PATCH 23/73] fix: columns of triggered event files do not depend on
 files written before

---
 quakemigrate/io/triggered_events.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/io/triggered_events.py b/quakemigrate/io/triggered_events.py
index 059c5c5..920140c 100644
--- a/quakemigrate/io/triggered_events.py
+++ b/quakemigrate/io/triggered_events.py
@@ -125,7 +125,7 @@ def write_triggered_events(run, events, starttime, write_event_time_windows):
     fpath = run.path / "trigger" / run.subname / "events"
     fpath.mkdir(exist_ok=True, parents=True)
 
-    output_cols = OUTPUT_COLS
+    output_cols = OUTPUT_COLS.copy()
     if write_event_time_windows:
         output_cols.extend(["MinTime", "MaxTime"])
 
-- 
2.43.0


From 87d3e1dee798e3251f72d3e040984a8397d56067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:06 +0000
Subject: [PATCH 24/73] fix: triggered events of a previous run are not
 retained if no events are triggered

---
 quakemigrate/signal/trigger.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/quakemigrate/signal/trigger.py b/quakemigrate/signal/trigger.py
index be76a81..8cef030 100755
--- a/quakemigrate/signal/trigger.py
+++ b/quakemigrate/signal/trigger.py
@@ -359,7 +359,7 @@ class Trigger:
                 "\tNo events triggered at this threshold - try a lower detection "
                 "threshold."
             )
-            events = candidate_events
+            events = pd.DataFrame(columns=REFINED_EVENTS_COLS)
             discarded = candidate_events
         else:
             refined_events = self._refine_candidates(candidate_events)
@@ -374,10 +374,12 @@ class Trigger:
                 f"\n\t\t{len(events)} event(s) triggered within the specified region "
                 f"between {batchstart} \n\t\tand {batchend}"
             )
-            logging.info("\n\tWriting triggered events to file...")
-            write_triggered_events(
-                self.run, events, batchstart, self.write_event_time_windows
-            )
+
+        # Also written if there are no events, to replace the output of a previous run
+        logging.info("\n\tWriting triggered events to file...")
+        write_triggered_events(
+            self.run, events, batchstart, self.write_event_time_windows
+        )
 
         if self.plot_trigger_summary:
             logging.info("\n\tPlotting trigger summary...")
-- 
2.43.0


From fac9e43852844d53d9cf34183ebdfdaef7709334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:58 +0000
Subject: [PATCH 25/73] fix: events less than one sample before midnight are
 triggered

---
 quakemigrate/signal/trigger.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quakemigrate/signal/trigger.py b/quakemigrate/signal/trigger.py
index 8cef030..7df541b 100755
--- a/quakemigrate/signal/trigger.py
+++ b/quakemigrate/signal/trigger.py
@@ -340,11 +340,11 @@ class Trigger:
             self.run, batchstart, batchend, self.pad, self.lut.unit_conversion_factor
         )
 
-        # Check if the batch extends to midnight; if so, reduce 'batchend' by one sample
-        # to ensure consistent treatment of multi-day runs (midnight = next day, so not
-        # included).
+        # Check if the batch extends to midnight; if so, reduce 'batchend' by the time
+        # resolution (midnight might not be on the sample grid) to ensure consistent
+        # treatment of multi-day runs (midnight = next day, so not included).
         if batchend.time == time(0, 0):
-            batchend -= stats.delta
+            batchend -= 1e-6
 
         if self.smooth_coa:
             data = self._smooth_coa(data, stats.sampling_rate)
-- 
2.43.0


From 9f4d5eb2b1d1666a59340fde984d5fa02459b260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:42 +0000
Subject: [PATCH 26/73] fix: detect does not compute an additional timestep
 because of floating point error

---
 quakemigrate/signal/scan.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/signal/scan.py b/quakemigrate/signal/scan.py
index e41bbea..5c20451 100755
--- a/quakemigrate/signal/scan.py
+++ b/quakemigrate/signal/scan.py
@@ -324,8 +324,9 @@ class QuakeScan:
         if endtime.time == time(0, 0):
             endtime -= 1 / self.scan_rate
 
-        # Number of steps to break run duration into
-        n_steps = int(np.ceil((endtime - starttime) / self.timestep))
+        # Number of steps to break run duration into (rounded to avoid an additional
+        # timestep because of floating point error, e.g. 2.1 / 0.7 > 3)
+        n_steps = int(np.ceil(np.round((endtime - starttime) / self.timestep, 9)))
 
         # Check if chosen start & endtimes and timestep are compatible
         calc_endtime = starttime + n_steps * self.timestep - 1 / self.scan_rate
-- 
2.43.0


From ff774a92a8dba1a8133bc3cdc8ce181ffd5acaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:38 +0000
Subject: [PATCH 27/73] fix: zero epicentral distances in the amplitude
 observations are not overwritten

---
 quakemigrate/signal/local_mag/magnitude.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/signal/local_mag/magnitude.py b/quakemigrate/signal/local_mag/magnitude.py
index c2cd2b6..78e29f7 100644
--- a/quakemigrate/signal/local_mag/magnitude.py
+++ b/quakemigrate/signal/local_mag/magnitude.py
@@ -245,7 +245,7 @@ class Magnitude:
         if self.use_hyp_dist:
             dist = np.sqrt(edist.values**2 + zdist.values**2)
         else:
-            dist = edist.values
+            dist = edist.values.copy()
         dist[dist == 0.0] = np.nan
 
         # Calculate magnitudes and associated errors
@@ -777,7 +777,7 @@ class Magnitude:
         if self.use_hyp_dist:
             dist = np.sqrt(edist.values**2 + zdist.values**2)
         else:
-            dist = edist.values
+            dist = edist.values.copy()
 
         # Apply distance filter
         if self.dist_filter:
-- 
2.43.0


From 5cdf2cd4fd4048d9cc6bbdb435a768241b712bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:38 +0000
Subject: [PATCH 28/73] fix: observations without a magnitude are not used for
 the mean magnitude

---
 quakemigrate/signal/local_mag/magnitude.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quakemigrate/signal/local_mag/magnitude.py b/quakemigrate/signal/local_mag/magnitude.py
index 78e29f7..a1bc007 100644
--- a/quakemigrate/signal/local_mag/magnitude.py
+++ b/quakemigrate/signal/local_mag/magnitude.py
@@ -790,6 +790,8 @@ class Magnitude:
 
         # Identify used mags (after applying all filters)
         magnitudes["Used"] = True
+        # No magnitude could be calculated (e.g. signal amplitude below noise level)
+        magnitudes.loc[magnitudes["ML"].isnull(), "Used"] = False
         if self.trace_filter is not None:
             magnitudes.loc[~magnitudes["Trace_Filter"], "Used"] = False
         if self.station_filter is not None:
-- 
2.43.0


From 823b0a879f5426ff8b6ff523afcf9ae0d3b99eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:38 +0000
Subject: [PATCH 29/73] fix: weights enter the weighted standard deviation of
 the magnitude linearly

---
 quakemigrate/signal/local_mag/magnitude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/signal/local_mag/magnitude.py b/quakemigrate/signal/local_mag/magnitude.py
index a1bc007..a017b4f 100644
--- a/quakemigrate/signal/local_mag/magnitude.py
+++ b/quakemigrate/signal/local_mag/magnitude.py
@@ -417,7 +417,7 @@ class Magnitude:
         # single estimate, then take the uncertainty from that value.
         if len(mags) > 1:
             mean_mag_err = np.sqrt(
-                np.sum(((mags - mean_mag) * weights) ** 2) / np.sum(weights)
+                np.sum(weights * (mags - mean_mag) ** 2) / np.sum(weights)
             )
         else:
             mean_mag_err = used_mags["ML_Err"].values[0]
-- 
2.43.0


From 0e1cf64cc6c14e750851c2c85f687deefa1b56a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:38 +0000
Subject: [PATCH 30/73] fix: mean_magnitude does not modify its input

---
 quakemigrate/signal/local_mag/magnitude.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/signal/local_mag/magnitude.py b/quakemigrate/signal/local_mag/magnitude.py
index a017b4f..a1a6e0c 100644
--- a/quakemigrate/signal/local_mag/magnitude.py
+++ b/quakemigrate/signal/local_mag/magnitude.py
@@ -373,6 +373,9 @@ class Magnitude:
 
         """
 
+        # Work on a copy
+        magnitudes = magnitudes.copy()
+
         # Get station corrections
         corrs = [
             self.station_corrections[t] if t in self.station_corrections.keys() else 0.0
@@ -382,8 +385,7 @@ class Magnitude:
 
         # Correct noise amps for filter gain, if applicable: check whether _all_ filter
         # gains are null (= no filter was applied). If a filter was applied, remove the
-        # appropriate filter gain (P or S). Action is applied _in-place_ on the
-        # DataFrame
+        # appropriate filter gain (P or S).
         filter_gains = magnitudes[f"{self.amp_feature[0]}_filter_gain"]
         if not filter_gains.isnull().values.all():
             magnitudes.loc[:, "Noise_amp"] /= filter_gains
-- 
2.43.0


From 85ff9638b48bb39d5d7f1fe66cd9ad086f5afbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:38 +0000
Subject: [PATCH 31/73] fix: r-squared excludes observations expected to be
 below the noise level

---
 quakemigrate/signal/local_mag/magnitude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/signal/local_mag/magnitude.py b/quakemigrate/signal/local_mag/magnitude.py
index a1a6e0c..d4707e1 100644
--- a/quakemigrate/signal/local_mag/magnitude.py
+++ b/quakemigrate/signal/local_mag/magnitude.py
@@ -892,7 +892,7 @@ class Magnitude:
                 # If predicted amp is more than 5x larger than noise amp, keep
                 # this observation for mag_r2 calculation
                 if predicted_amp / noise_amp < 5:
-                    magnitudes.drop(labels=mag.name)
+                    magnitudes = magnitudes.drop(labels=mag.name)
 
         # Calculate amplitudes -- including station corrections!
         amps = (
-- 
2.43.0


From e68c64b131d0da4d0d243c939ff64a71e519d202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:38 +0000
Subject: [PATCH 32/73] fix: the station filter does not match location codes

---
 quakemigrate/signal/local_mag/magnitude.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/quakemigrate/signal/local_mag/magnitude.py b/quakemigrate/signal/local_mag/magnitude.py
index d4707e1..fd66016 100644
--- a/quakemigrate/signal/local_mag/magnitude.py
+++ b/quakemigrate/signal/local_mag/magnitude.py
@@ -770,8 +770,7 @@ class Magnitude:
             magnitudes["Station_Filter"] = True
             for stn in list(self.station_filter):
                 magnitudes.loc[
-                    magnitudes.index.str.contains(f".{stn}.", regex=False),
-                    "Station_Filter",
+                    magnitudes.index.str.split(".").str[1] == stn, "Station_Filter"
                 ] = False
 
         # Calculate distances
-- 
2.43.0


From 687650aca6688a84bac220df58e13ceb4296d436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:36 +0000
Subject: [PATCH 33/73] fix: amplitude windows use the station's own
 traveltimes whatever the station index

---
 quakemigrate/signal/local_mag/amplitude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/signal/local_mag/amplitude.py b/quakemigrate/signal/local_mag/amplitude.py
index b74947a..1245b16 100644
--- a/quakemigrate/signal/local_mag/amplitude.py
+++ b/quakemigrate/signal/local_mag/amplitude.py
@@ -279,7 +279,7 @@ class Amplitude:
         logging.debug(f"{tr_start}, {tr_end}, {event.otime}")
 
         # Loop through stations in LUT, calculating amplitude info
-        for i, station_data in lut.station_data.iterrows():
+        for i, (_, station_data) in enumerate(lut.station_data.iterrows()):
             station = station_data["Name"]
 
             epi_dist, z_dist = self._get_distances(
-- 
2.43.0


From c2d8473cac9c355b0a616c87007b82d36125e295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:20 +0000
Subject: [PATCH 34/73] fix: missing responses are reported as such when
 removing the full response

---
 quakemigrate/io/data.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/quakemigrate/io/data.py b/quakemigrate/io/data.py
index 43a0535..0d77949 100755
--- a/quakemigrate/io/data.py
+++ b/quakemigrate/io/data.py
@@ -691,16 +691,16 @@ class WaveformData:
         tr = tr.copy()
         tr.detrend("linear")
 
+        try:
+            response = self.response_inv.get_response(tr.id, tr.stats.starttime)
+        except Exception as e:
+            raise util.ResponseNotFoundError(str(e), tr.id)
+
         if not self.remove_full_response:
             # Just remove the response encapsulated in the instrument transfer function
             # (stored as a PolesAndZeros response). NOTE: this does not account for the
             # effect of the digital FIR filters applied to the recorded waveforms.
             # However, due to this it is significantly faster to compute.
-            try:
-                response = self.response_inv.get_response(tr.id, tr.stats.starttime)
-            except Exception as e:
-                raise util.ResponseNotFoundError(str(e), tr.id)
-
             # Get the instrument transfer function as a PAZ dictionary
             paz = response.get_paz()
 
-- 
2.43.0


From 725ebc1d9d4ecc47a1a8597f62ff2ada8daf9e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:32 +0000
Subject: [PATCH 35/73] fix: writing cut waveforms does not trim the raw
 waveforms of the event

---
 quakemigrate/io/cut_waveforms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/io/cut_waveforms.py b/quakemigrate/io/cut_waveforms.py
index 072321d..9a11e78 100644
--- a/quakemigrate/io/cut_waveforms.py
+++ b/quakemigrate/io/cut_waveforms.py
@@ -89,7 +89,8 @@ def write_cut_waveforms(
     fpath.mkdir(exist_ok=True, parents=True)
     fstem = f"{event.uid}"
 
-    st = event.data.raw_waveforms
+    # Work on a copy
+    st = event.data.raw_waveforms.copy()
 
     # "if pre_cut" catches both 0. and None
     if pre_cut:
-- 
2.43.0


From 03924363e7f4aaf56ae98aabf1539cf9790c39b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:32 +0000
Subject: [PATCH 36/73] fix: corrected cut waveforms are in the requested units
 and contain all traces

---
 quakemigrate/io/cut_waveforms.py | 31 +++++++++----------------------
 1 file changed, 9 insertions(+), 22 deletions(-)

diff --git a/quakemigrate/io/cut_waveforms.py b/quakemigrate/io/cut_waveforms.py
index 9a11e78..e21b355 100644
--- a/quakemigrate/io/cut_waveforms.py
+++ b/quakemigrate/io/cut_waveforms.py
@@ -106,28 +106,15 @@ def write_cut_waveforms(
             st.remove(tr)
 
     if waveform_type == "real" or waveform_type == "wa":
-        if (
-            waveform_type == "real"
-            and isinstance(event.data.real_waveforms, Stream)
-            and not pre_cut
-            and not post_cut
-        ):
-            st = event.data.real_waveforms
-        elif (
-            waveform_type == "wa"
-            and isinstance(event.data.wa_waveforms, Stream)
-            and not pre_cut
-            and not post_cut
-        ):
-            st = event.data.wa_waveforms
-        else:
-            try:
-                st = get_waveforms(st, event, waveform_type, units)
-            except AttributeError as e:
-                raise AttributeError(
-                    "To output real or Wood-Anderson cut waveforms you must supply an "
-                    "instrument response inventory."
-                ) from e
+        # NOTE: waveforms corrected earlier (e.g. for amplitude measurements) may be in
+        # other units, and do not cover all traces or the full time window
+        try:
+            st = get_waveforms(st, event, waveform_type, units)
+        except AttributeError as e:
+            raise AttributeError(
+                "To output real or Wood-Anderson cut waveforms you must supply an "
+                "instrument response inventory."
+            ) from e
 
     if bool(st):
         write_waveforms(st, fpath, fstem, file_format)
-- 
2.43.0


From 1feec2a88da23483e99da481fda4a19bdc4c379d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:03 +0000
Subject: [PATCH 37/73] fix: report the Gaussian location uncertainties on the
 axes they belong to

np.linalg.eig returns the eigenvalues in no particular order, so the
uncertainty of a fit could be reported on (and scaled with the node spacing
of) another axis, e.g. that of Y as that of Z.
---
 quakemigrate/signal/scan.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quakemigrate/signal/scan.py b/quakemigrate/signal/scan.py
index 5c20451..ad8e8a1 100755
--- a/quakemigrate/signal/scan.py
+++ b/quakemigrate/signal/scan.py
@@ -18,6 +18,7 @@ import numpy as np
 from obspy import UTCDateTime
 import pandas as pd
 from scipy.interpolate import Rbf
+from scipy.optimize import linear_sum_assignment
 from scipy.signal import fftconvolve
 
 import quakemigrate.util as util
@@ -921,6 +922,8 @@ class QuakeScan:
             ]
         ).reshape(3, 3)
         egv, vec = np.linalg.eig(M)
+        # Assign each principal axis of the fit to the grid axis it is closest to
+        egv = egv[linear_sum_assignment(-np.abs(vec))[1]]
         sgm = np.sqrt(0.5 / np.clip(np.abs(egv), 1e-10, np.inf)) / 2
         val = np.exp(-K)
         csgm = np.sqrt(0.5 / np.clip(np.abs(M.diagonal()), 1e-10, np.inf))
-- 
2.43.0


From eca43607527a8198d607313e1cb6e6ce0463dac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:03 +0000
Subject: [PATCH 38/73] fix: keep the Gaussian location inside grids with a
 single-node axis

The fit does not constrain the location along an axis of one node, so that the
matrix inverted is singular (LinAlgError, or a location up to 1e15 nodes away).
---
 quakemigrate/signal/scan.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/signal/scan.py b/quakemigrate/signal/scan.py
index ad8e8a1..b90cdbb 100755
--- a/quakemigrate/signal/scan.py
+++ b/quakemigrate/signal/scan.py
@@ -896,7 +896,8 @@ class QuakeScan:
             [2 * P[0], P[3], P[4], P[3], 2 * P[1], P[5], P[4], P[5], 2 * P[2]]
         ).reshape((3, 3))
         H = np.array([P[6], P[7], P[8]])
-        loc = np.matmul(np.linalg.inv(G), H)
+        # Pseudo-inverse, as an axis of a single node is not constrained by the fit
+        loc = np.matmul(np.linalg.pinv(G, rcond=1e-10, hermitian=True), H)
         cx, cy, cz = loc
 
         K = (
-- 
2.43.0


From fea71e630eded24b02aa3e3199a1fbc1787b7e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:18 +0000
Subject: [PATCH 39/73] fix: separate pick windows in order of arrival,
 whatever the order of the phases

With phases=["S", "P"] the windows were separated as if S arrived first, so that
each window ended or began at the wrong side of its modelled arrival.
---
 quakemigrate/signal/pickers/gaussian.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quakemigrate/signal/pickers/gaussian.py b/quakemigrate/signal/pickers/gaussian.py
index 2fa8c89..f4dfd03 100644
--- a/quakemigrate/signal/pickers/gaussian.py
+++ b/quakemigrate/signal/pickers/gaussian.py
@@ -301,6 +301,9 @@ class GaussianPicker(PhasePicker):
 
         """
 
+        # Work through the phases in order of their modelled arrival times
+        phases = sorted(phases, key=lambda phase: windows[phase][1])
+
         # Handle first key
         first_idx = windows[phases[0]][0]
         windows[phases[0]][0] = 0 if first_idx < 0 else first_idx
-- 
2.43.0


From 129f8dab4cc69c37d7db5db0582d589af32ccf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:36 +0000
Subject: [PATCH 40/73] fix: do not fail to pick an event when there is no
 noise outside the pick windows

np.percentile raises an IndexError for an empty array (the MAD method gives nan
and makes no pick).
---
 quakemigrate/signal/pickers/gaussian.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quakemigrate/signal/pickers/gaussian.py b/quakemigrate/signal/pickers/gaussian.py
index f4dfd03..f96f457 100644
--- a/quakemigrate/signal/pickers/gaussian.py
+++ b/quakemigrate/signal/pickers/gaussian.py
@@ -347,6 +347,9 @@ class GaussianPicker(PhasePicker):
         # Remove data during pick windows, and data set to 1 (in onset function taper
         # pad windows)
         onset_noise = onset_noise[onset_noise > 1]
+        if len(onset_noise) == 0:
+            # No noise to determine a threshold from (no pick will be made)
+            return np.nan
 
         if method == "percentile":
             pick_threshold = np.percentile(
-- 
2.43.0


From f673b54431aa1adcb4e14c6ba4b9ff8760d3b173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:10 +0000
Subject: [PATCH 41/73] fix: make picks of onset peaks at the very start or end
 of the onset function

The extra sample before a peak at the first sample has index -1, which selected no
data (ValueError: max() iterable argument is empty); the one after a peak at the
last sample does not exist, so that the fit failed.
---
 quakemigrate/signal/pickers/gaussian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/signal/pickers/gaussian.py b/quakemigrate/signal/pickers/gaussian.py
index f96f457..94392c1 100644
--- a/quakemigrate/signal/pickers/gaussian.py
+++ b/quakemigrate/signal/pickers/gaussian.py
@@ -419,7 +419,9 @@ class GaussianPicker(PhasePicker):
             # fitting more stable, and guarantees at least 3 samples --> avoids an
             # under-constrained optimisation (3 fitting params).
             padded_peak_idxs = [peak_idxs[0] - 1, peak_idxs[1] + 1]
-            padded_peak_idxs = [window[0] + p for p in padded_peak_idxs]
+            padded_peak_idxs = [
+                min(max(window[0] + p, 0), len(onset)) for p in padded_peak_idxs
+            ]
             logging.debug(
                 f"\t\t    padded_peak_idxmin: {padded_peak_idxs[0]},"
                 f" padded_peak_idxmax: {padded_peak_idxs[1]}"
-- 
2.43.0


From 182357c0f23725bc7a99c73a1cdb9ddcd65758d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:10 +0000
Subject: [PATCH 42/73] fix: report a failed pick if there are too few samples
 to fit

The fit parameters are not defined in that case (UnboundLocalError).
---
 quakemigrate/signal/pickers/gaussian.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quakemigrate/signal/pickers/gaussian.py b/quakemigrate/signal/pickers/gaussian.py
index 94392c1..9c2c69a 100644
--- a/quakemigrate/signal/pickers/gaussian.py
+++ b/quakemigrate/signal/pickers/gaussian.py
@@ -456,6 +456,7 @@ class GaussianPicker(PhasePicker):
                 "\t\t    Failed curve_fit - too few input data?"
                 f"{e}\n\t\t    Continuing..."
             )
+            return self._pick_failure(pick_threshold)
 
         # Unpack results:
         #  popt = [height, mean (seconds), sigma (seconds)]
-- 
2.43.0


From 19bc5c11353dd0db69bb0ee1f68ea96fb56f727c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:02 +0000
Subject: [PATCH 43/73] fix: write each station's own network code to Snuffler
 station files

---
 quakemigrate/export/to_snuffler.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/quakemigrate/export/to_snuffler.py b/quakemigrate/export/to_snuffler.py
index c578a6d..9737bfa 100644
--- a/quakemigrate/export/to_snuffler.py
+++ b/quakemigrate/export/to_snuffler.py
@@ -39,12 +39,14 @@ def snuffler_stations(stations, output_path, filename, network_code=None):
         for i, station in stations.iterrows():
             if network_code is None:
                 try:
-                    network_code = station["Network"]
+                    network = station["Network"]
                 except KeyError:
-                    network_code = ""
+                    network = ""
+            else:
+                network = network_code
 
             line = line_template.format(
-                nw=network_code,
+                nw=network,
                 stat=station["Name"],
                 lat=station["Latitude"],
                 lon=station["Longitude"],
-- 
2.43.0


From 057fc4b3f0348520b9f3508136793d82cddb141f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:02 +0000
Subject: [PATCH 44/73] fix: pad the fractional seconds of Snuffler markers

---
 quakemigrate/export/to_snuffler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/export/to_snuffler.py b/quakemigrate/export/to_snuffler.py
index 9737bfa..30b9dec 100644
--- a/quakemigrate/export/to_snuffler.py
+++ b/quakemigrate/export/to_snuffler.py
@@ -100,7 +100,7 @@ def snuffler_markers(event, output_path, filename=None):
         hr=str(origin.time.hour).zfill(2),
         min=str(origin.time.minute).zfill(2),
         sec=str(origin.time.second).zfill(2),
-        msec=origin.time.microsecond,
+        msec=str(origin.time.microsecond).zfill(6),
         eventid=str(event.resource_id),
     )
 
@@ -120,7 +120,7 @@ def snuffler_markers(event, output_path, filename=None):
                 hr=str(pick.time.hour).zfill(2),
                 min=str(pick.time.minute).zfill(2),
                 sec=str(pick.time.second).zfill(2),
-                msec=pick.time.microsecond,
+                msec=str(pick.time.microsecond).zfill(6),
                 nw=pick.waveform_id.network_code,
                 stat=pick.waveform_id.station_code,
                 comp=comp,
-- 
2.43.0


From 7bb2d1193dbb80844f21675e2c8dc27a89c1ae7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:02 +0000
Subject: [PATCH 45/73] fix: keep station names as they are when reading picks
 for export

---
 quakemigrate/export/to_obspy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/export/to_obspy.py b/quakemigrate/export/to_obspy.py
index af8b301..1843293 100644
--- a/quakemigrate/export/to_obspy.py
+++ b/quakemigrate/export/to_obspy.py
@@ -215,7 +215,10 @@ def _read_single_event(event_file, locate_dir, units, local_mag_ph):
     # --- Handle picks file ---
     pick_file = locate_dir / "picks" / event_uid
     if pick_file.with_suffix(".picks").is_file():
-        picks = pd.read_csv(pick_file.with_suffix(".picks"))
+        # Read station & phase names verbatim (e.g. retain leading zeros)
+        picks = pd.read_csv(
+            pick_file.with_suffix(".picks"), converters={"Station": str, "Phase": str}
+        )
     else:
         return None
 
-- 
2.43.0


From cbc3765bcbda02987d487f7de0aaaa60435d9d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:02 +0000
Subject: [PATCH 46/73] fix: write station elevations to SAC headers in metres

---
 quakemigrate/export/to_mfast.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quakemigrate/export/to_mfast.py b/quakemigrate/export/to_mfast.py
index ee45c67..26cab11 100644
--- a/quakemigrate/export/to_mfast.py
+++ b/quakemigrate/export/to_mfast.py
@@ -47,9 +47,9 @@ def sac_mfast(event, stations, output_path, units, filename=None):
 
     # Set distance conversion factor (from units of QM LUT projection units).
     if units == "km":
-        factor = 1
-    elif units == "m":
         factor = 1e3
+    elif units == "m":
+        factor = 1
     else:
         raise AttributeError(f"units must be 'km' or 'm'; not {units}")
 
@@ -75,7 +75,7 @@ def sac_mfast(event, stations, output_path, units, filename=None):
         station_header = AttribDict()
         station_header.stla = station.Latitude
         station_header.stlo = station.Longitude
-        station_header.stel = station.Elevation / factor  # convert to m
+        station_header.stel = station.Elevation * factor  # convert to m
 
         # Calculate the distance and azimuth between event and station
         dist, az, _ = gps2dist_azimuth(
-- 
2.43.0


From 71a5ab3862d1ceb37ec28564315c4bdd1038520f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:49 +0000
Subject: [PATCH 47/73] fix: export events for which no magnitude could be
 calculated

---
 quakemigrate/export/to_obspy.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/quakemigrate/export/to_obspy.py b/quakemigrate/export/to_obspy.py
index 1843293..7fb7146 100644
--- a/quakemigrate/export/to_obspy.py
+++ b/quakemigrate/export/to_obspy.py
@@ -309,17 +309,19 @@ def _read_single_event(event_file, locate_dir, units, local_mag_ph):
 
                 event.amplitudes.append(amp)
 
-        mag = Magnitude()
-        mag.extra = AttribDict()
-        mag.mag = event_info["ML"]
-        mag.mag_errors.uncertainty = event_info["ML_Err"]
-        mag.magnitude_type = "ML"
-        # mag.origin_id = ?
-        mag.station_count = i
-        mag.evaluation_mode = "automatic"
-        mag.extra.r2 = {"value": event_info["ML_r2"], "namespace": ns}
-
-        event.magnitudes = [mag]
-        event.preferred_magnitude_id = mag.resource_id
+        # No magnitude if no (usable) amplitude measurements were made
+        if not pd.isna(event_info["ML"]):
+            mag = Magnitude()
+            mag.extra = AttribDict()
+            mag.mag = event_info["ML"]
+            mag.mag_errors.uncertainty = event_info["ML_Err"]
+            mag.magnitude_type = "ML"
+            # mag.origin_id = ?
+            mag.station_count = i
+            mag.evaluation_mode = "automatic"
+            mag.extra.r2 = {"value": event_info["ML_r2"], "namespace": ns}
+
+            event.magnitudes = [mag]
+            event.preferred_magnitude_id = mag.resource_id
 
     return event
-- 
2.43.0


From 68c4b9f20cff6fa6f1556bbbc2ec3551d0390bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:49 +0000
Subject: [PATCH 48/73] fix: skip stations and components without waveforms
 when writing SAC files

---
 quakemigrate/export/to_mfast.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/export/to_mfast.py b/quakemigrate/export/to_mfast.py
index 26cab11..63718f8 100644
--- a/quakemigrate/export/to_mfast.py
+++ b/quakemigrate/export/to_mfast.py
@@ -95,6 +95,10 @@ def sac_mfast(event, stations, output_path, units, filename=None):
             # If no phase picks for this station, continue
             continue
 
+        if not st:
+            # If no waveform data for this station, continue
+            continue
+
         reference = st[0].stats.starttime
         origin_time = origin.time - reference
         p_pick = s_pick = 0
@@ -119,7 +123,11 @@ def sac_mfast(event, stations, output_path, units, filename=None):
             pick_header.a = p_pick
 
         for comp in ["Z", "N", "E"]:
-            tr = st.select(channel=f"*{comp}")[0]
+            comp_st = st.select(channel=f"*{comp}")
+            if not comp_st:
+                # If no waveform data for this component, continue
+                continue
+            tr = comp_st[0]
 
             # Write out to SAC file, then read in again to fill header
             name = filename.format(station.Name, comp.lower())
-- 
2.43.0


From 749bec482edbdbb46117200ae5e1bcb4593703ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:16 +0000
Subject: [PATCH 49/73] fix: give SAC header times relative to the start of
 each trace

---
 quakemigrate/export/to_mfast.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/quakemigrate/export/to_mfast.py b/quakemigrate/export/to_mfast.py
index 63718f8..3661b6f 100644
--- a/quakemigrate/export/to_mfast.py
+++ b/quakemigrate/export/to_mfast.py
@@ -99,28 +99,22 @@ def sac_mfast(event, stations, output_path, units, filename=None):
             # If no waveform data for this station, continue
             continue
 
-        reference = st[0].stats.starttime
-        origin_time = origin.time - reference
-        p_pick = s_pick = 0
+        p_pick = s_pick = None
         for pick in picks:
             if pick.phase_hint == "P":
-                p_pick = pick.time - reference
+                p_pick = pick.time
             elif pick.phase_hint == "S":
-                s_pick = pick.time - reference
+                s_pick = pick.time
 
-        if s_pick == 0:
+        if s_pick is None:
             continue
 
         # Set pick error (think about good bounds?)
         kt5 = 1
 
         pick_header = AttribDict()
-        pick_header.t0 = s_pick
         pick_header.kt5 = str(kt5)
         pick_header.kt0 = str(kt5)
-        pick_header.o = origin_time
-        if p_pick != 0:
-            pick_header.a = p_pick
 
         for comp in ["Z", "N", "E"]:
             comp_st = st.select(channel=f"*{comp}")
@@ -129,6 +123,13 @@ def sac_mfast(event, stations, output_path, units, filename=None):
                 continue
             tr = comp_st[0]
 
+            # Times are relative to the start of each trace
+            reference = tr.stats.starttime
+            pick_header.o = origin.time - reference
+            pick_header.t0 = s_pick - reference
+            if p_pick is not None:
+                pick_header.a = p_pick - reference
+
             # Write out to SAC file, then read in again to fill header
             name = filename.format(station.Name, comp.lower())
             name = str(output_path / name)
-- 
2.43.0


From 448e2ba29153b89ef11eec08bbf3109385fe8d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:03 +0000
Subject: [PATCH 50/73] fix: export runs without any located events as an empty
 catalogue

---
 quakemigrate/export/to_obspy.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/quakemigrate/export/to_obspy.py b/quakemigrate/export/to_obspy.py
index 7fb7146..cd4f5a3 100644
--- a/quakemigrate/export/to_obspy.py
+++ b/quakemigrate/export/to_obspy.py
@@ -11,7 +11,6 @@ Catalog.
 
 """
 
-from itertools import chain
 import pathlib
 
 import pandas as pd
@@ -71,13 +70,8 @@ def read_quakemigrate(run_dir, units, run_subname="", local_mag_ph="S"):
     locate_dir = pathlib.Path(run_dir) / "locate" / run_subname
     events_dir = locate_dir / "events"
 
-    if events_dir.is_dir():
-        try:
-            event_files = events_dir.glob("*.event")
-            first = next(event_files)
-            event_files = chain([first], event_files)
-        except StopIteration:
-            pass
+    # NOTE: there is no "events" directory if no events were located
+    event_files = events_dir.glob("*.event") if events_dir.is_dir() else []
 
     cat = Catalog()
 
-- 
2.43.0


From c29846048eaa9afe19b18ed5b2db8dd8350cd1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:22 +0000
Subject: [PATCH 51/73] fix: reject locate() calls with only one of starttime
 and endtime

---
 quakemigrate/signal/scan.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quakemigrate/signal/scan.py b/quakemigrate/signal/scan.py
index b90cdbb..097320a 100755
--- a/quakemigrate/signal/scan.py
+++ b/quakemigrate/signal/scan.py
@@ -375,14 +375,14 @@ class QuakeScan:
         self.run.stage = "locate"
         self.run.logger(self.log)
 
-        if not (starttime is None and endtime is None):
-            starttime, endtime = UTCDateTime(starttime), UTCDateTime(endtime)
-            if starttime > endtime:
-                raise util.TimeSpanException
         if trigger_file is None and starttime is None and endtime is None:
             raise RuntimeError("Must supply an input argument.")
         if (starttime is None) ^ (endtime is None):
             raise RuntimeError("Must supply a starttime AND an endtime.")
+        if not (starttime is None and endtime is None):
+            starttime, endtime = UTCDateTime(starttime), UTCDateTime(endtime)
+            if starttime > endtime:
+                raise util.TimeSpanException
 
         logging.info(util.log_spacer)
         logging.info("\tLOCATE - Determining event location and uncertainty")
-- 
2.43.0


From 1373e62fd8489ae957b8dc65791811f93da54f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:22 +0000
Subject: [PATCH 52/73] fix: check the station file header for all required
 entries

---
 quakemigrate/io/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/io/core.py b/quakemigrate/io/core.py
index 99f1463..75856c7 100644
--- a/quakemigrate/io/core.py
+++ b/quakemigrate/io/core.py
@@ -89,7 +89,8 @@ def read_stations(station_file, **kwargs):
 
     stn_data = pd.read_csv(station_file, **kwargs)
 
-    if ("Latitude" or "Longitude" or "Elevation" or "Name") not in stn_data.columns:
+    required = ["Latitude", "Longitude", "Elevation", "Name"]
+    if any(column not in stn_data.columns for column in required):
         raise util.StationFileHeaderException
 
     stn_data["Elevation"] = stn_data["Elevation"].apply(lambda x: -1 * x)
-- 
2.43.0


From 8286ae3f440ea00931d608f7c5e79f2b39ec4d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:22 +0000
Subject: [PATCH 53/73] fix: keep station names as they are in the station file

---
 quakemigrate/io/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quakemigrate/io/core.py b/quakemigrate/io/core.py
index 75856c7..074db79 100644
--- a/quakemigrate/io/core.py
+++ b/quakemigrate/io/core.py
@@ -87,6 +87,10 @@ def read_stations(station_file, **kwargs):
 
     """
 
+    # Read station names verbatim (e.g. retain leading zeros)
+    if "dtype" not in kwargs:
+        kwargs.setdefault("converters", {"Name": str})
+
     stn_data = pd.read_csv(station_file, **kwargs)
 
     required = ["Latitude", "Longitude", "Elevation", "Name"]
-- 
2.43.0


From 3f00d915534cf457a2462a7c1beb1a885ed38bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:22 +0000
Subject: [PATCH 54/73] fix: reject bandpass filters without filter frequencies

---
 quakemigrate/signal/local_mag/amplitude.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/signal/local_mag/amplitude.py b/quakemigrate/signal/local_mag/amplitude.py
index 1245b16..571c657 100644
--- a/quakemigrate/signal/local_mag/amplitude.py
+++ b/quakemigrate/signal/local_mag/amplitude.py
@@ -117,8 +117,8 @@ class Amplitude:
         self.bandpass_filter = amplitude_params.get("bandpass_filter", False)
         if self.bandpass_filter:
             try:
-                self.bandpass_lowcut = amplitude_params.get("bandpass_lowcut")
-                self.bandpass_highcut = amplitude_params.get("bandpass_highcut")
+                self.bandpass_lowcut = amplitude_params["bandpass_lowcut"]
+                self.bandpass_highcut = amplitude_params["bandpass_highcut"]
             except KeyError as e:
                 raise AttributeError(f"Bandpass filter frequencies not specified! {e}")
         self.filter_corners = amplitude_params.get("filter_corners", 4)
-- 
2.43.0


From 87400d96e2198f1037e66cfac29c84310bb8f44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:09 +0000
Subject: [PATCH 55/73] fix: plot figures for runs with a channel map for one
 phase only

---
 quakemigrate/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/util.py b/quakemigrate/util.py
index 9135908..263e596 100644
--- a/quakemigrate/util.py
+++ b/quakemigrate/util.py
@@ -708,8 +708,8 @@ def get_phase_component_strings(channel_maps):
 
     """
 
-    p_comps = list(channel_maps["P"].strip("*").strip("[").strip("]"))[::2]
-    s_comps = list(channel_maps["S"].strip("*").strip("[").strip("]"))[::2]
+    p_comps = list(channel_maps.get("P", "").strip("*").strip("[").strip("]"))[::2]
+    s_comps = list(channel_maps.get("S", "").strip("*").strip("[").strip("]"))[::2]
     p_str, s_str_1, s_str_2 = "", "", ""
     for p_comp in p_comps:
         p_str += f"{p_comp},"
-- 
2.43.0


From d1d00f860d23f4c8948de7a0133681587d3d85d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:04 +0000
Subject: [PATCH 56/73] fix: accept hex colour codes in the table of xy files
 to plot

---
 quakemigrate/plot/event.py   | 7 +++++--
 quakemigrate/plot/trigger.py | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/quakemigrate/plot/event.py b/quakemigrate/plot/event.py
index f37bc45..0294a99 100644
--- a/quakemigrate/plot/event.py
+++ b/quakemigrate/plot/event.py
@@ -10,6 +10,7 @@ Module containing methods to generate event summaries and videos.
 
 """
 
+from io import StringIO
 import logging
 
 import matplotlib.pyplot as plt
@@ -449,11 +450,13 @@ def _plot_xy_files(xy_files, ax):
     """
 
     if xy_files is not None:
+        # Only whole lines are comments: colours may be given as hex codes, "#RRGGBB"
+        with open(xy_files) as f:
+            lines = [line for line in f if not line.lstrip().startswith("#")]
         xy_files = pd.read_csv(
-            xy_files,
+            StringIO("".join(lines)),
             names=["File", "Color", "Linewidth", "Linestyle"],
             header=None,
-            comment="#",
         )
         for _, f in xy_files.iterrows():
             xy_file = pd.read_csv(
diff --git a/quakemigrate/plot/trigger.py b/quakemigrate/plot/trigger.py
index 03e4a54..bcf7d39 100644
--- a/quakemigrate/plot/trigger.py
+++ b/quakemigrate/plot/trigger.py
@@ -10,6 +10,7 @@ Module to plot the triggered events on a decimated grid.
 
 """
 
+from io import StringIO
 import logging
 
 import matplotlib.pyplot as plt
@@ -566,11 +567,13 @@ def _plot_xy_files(xy_files, ax):
     """
 
     if xy_files is not None:
+        # Only whole lines are comments: colours may be given as hex codes, "#RRGGBB"
+        with open(xy_files) as f:
+            lines = [line for line in f if not line.lstrip().startswith("#")]
         xy_files = pd.read_csv(
-            xy_files,
+            StringIO("".join(lines)),
             names=["File", "Color", "Linewidth", "Linestyle"],
             header=None,
-            comment="#",
         )
         for _, f in xy_files.iterrows():
             xy_file = pd.read_csv(
-- 
2.43.0


From 1dcb91f013e97c7edb3115e70c300ab9c2221358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:50 +0000
Subject: [PATCH 57/73] fix: accept None (the documented default) for
 station_corrections

station_corrections=None raised an AttributeError when magnitudes were calculated.
---
 quakemigrate/signal/local_mag/magnitude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/signal/local_mag/magnitude.py b/quakemigrate/signal/local_mag/magnitude.py
index fd66016..623c74e 100644
--- a/quakemigrate/signal/local_mag/magnitude.py
+++ b/quakemigrate/signal/local_mag/magnitude.py
@@ -108,7 +108,7 @@ class Magnitude:
             raise TypeError("A0 attenuation correction not specified in params!")
         self.use_hyp_dist = magnitude_params.get("use_hyp_dist", False)
         self.amp_feature = magnitude_params.get("amp_feature", "S_amp")
-        self.station_corrections = magnitude_params.get("station_corrections", {})
+        self.station_corrections = magnitude_params.get("station_corrections") or {}
         self.amp_multiplier = magnitude_params.get("amp_multiplier", 1.0)
 
         # Parameters for mean magnitude calculation
-- 
2.43.0


From 2c50f0ec3b0b6b35bc4884751a8be118f9d08afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:58 +0000
Subject: [PATCH 58/73] fix: locate events whose trigger time or marginal
 window is off-sample

---
 quakemigrate/io/event.py    | 11 +++++++++--
 quakemigrate/signal/scan.py |  5 +++--
 quakemigrate/util.py        | 28 +++++++++++++++++++++++++++-
 3 files changed, 39 insertions(+), 5 deletions(-)

diff --git a/quakemigrate/io/event.py b/quakemigrate/io/event.py
index d3e811d..3839825 100644
--- a/quakemigrate/io/event.py
+++ b/quakemigrate/io/event.py
@@ -404,16 +404,23 @@ class Event:
         Returns
         -------
         times : `numpy.ndarray` of `obspy.UTCDateTime`, shape(nsamples)
-            Timestamps for time range `trigger_time` +/- 2 * `marginal_window`.
+            Timestamps for time range `trigger_time` +/- 2 * `marginal_window`, starting
+            from the nearest sample.
 
         """
 
+        # The trigger time may be off-sample, e.g. if the sampling rate used for detect was
+        # different
+        starttime = util.nearest_sample(
+            self.trigger_time - 2 * self.marginal_window, sampling_rate
+        )
+
         # Utilise the .times() method of `obspy.Trace` objects
         tr = Trace(
             header={
                 "npts": util.time2sample(4 * self.marginal_window, sampling_rate) + 1,
                 "sampling_rate": sampling_rate,
-                "starttime": self.trigger_time - 2 * self.marginal_window,
+                "starttime": starttime,
             }
         )
         return tr.times(type="utcdatetime")
diff --git a/quakemigrate/signal/scan.py b/quakemigrate/signal/scan.py
index 097320a..4161c01 100755
--- a/quakemigrate/signal/scan.py
+++ b/quakemigrate/signal/scan.py
@@ -497,8 +497,9 @@ class QuakeScan:
 
         for i, triggered_event in triggered_events.iterrows():
             event = Event(self.marginal_window, triggered_event)
-            w_beg = event.trigger_time - 2 * self.marginal_window - self.pre_pad
-            w_end = event.trigger_time + 2 * self.marginal_window + self.post_pad
+            times = event.mw_times(self.scan_rate)
+            w_beg = times[0] - self.pre_pad
+            w_end = times[-1] + self.post_pad
             logging.info(util.log_spacer)
             logging.info(f"\tEVENT - {i+1} of {n_events} - {event.uid}")
             logging.info(util.log_spacer)
diff --git a/quakemigrate/util.py b/quakemigrate/util.py
index 263e596..9dd17f3 100644
--- a/quakemigrate/util.py
+++ b/quakemigrate/util.py
@@ -20,7 +20,7 @@ from itertools import tee
 
 import matplotlib.ticker as ticker
 import numpy as np
-from obspy import Trace, Stream
+from obspy import Stream, Trace, UTCDateTime
 
 
 log_spacer = "=" * 110
@@ -245,6 +245,32 @@ class DateFormatter(ticker.Formatter):
         return dt.strftime(self.fmt).format(ms=ms)
 
 
+def nearest_sample(time, sampling_rate):
+    """
+    Utility function to find the "on-sample" timestamp (i.e. an integer number of samples
+    after midnight) closest to a time.
+
+    Parameters
+    ----------
+    time : `obspy.UTCDateTime` object
+        Timestamp for which to find the nearest sample.
+    sampling_rate : int
+        Sampling rate of input data/sampling rate at which to compute the coalescence
+        function.
+
+    Returns
+    -------
+    out : `obspy.UTCDateTime` object
+        Timestamp of the nearest sample.
+
+    """
+
+    midnight = UTCDateTime(time.date)
+    n_samples = round((time.ns - midnight.ns) * sampling_rate / 1e9)
+
+    return UTCDateTime(ns=midnight.ns + round(n_samples * 1e9 / sampling_rate))
+
+
 def trim2sample(time, sampling_rate):
     """
     Utility function to ensure time padding results in a time that is an integer number
-- 
2.43.0


From 6b0c76813cb76ca955a2867d6eab23104a9c5672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:29 +0000
Subject: [PATCH 59/73] fix: scan from the nearest sample if the start time of
 detect is off-sample

---
 quakemigrate/signal/scan.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quakemigrate/signal/scan.py b/quakemigrate/signal/scan.py
index 4161c01..b31f947 100755
--- a/quakemigrate/signal/scan.py
+++ b/quakemigrate/signal/scan.py
@@ -329,6 +329,9 @@ class QuakeScan:
         # timestep because of floating point error, e.g. 2.1 / 0.7 > 3)
         n_steps = int(np.ceil(np.round((endtime - starttime) / self.timestep, 9)))
 
+        # Make sure the scan starts on-sample, as does the data that will be read
+        starttime = util.nearest_sample(starttime, self.scan_rate)
+
         # Check if chosen start & endtimes and timestep are compatible
         calc_endtime = starttime + n_steps * self.timestep - 1 / self.scan_rate
         if calc_endtime - endtime > 1 / self.scan_rate:
-- 
2.43.0


From 7be491ca45f905f18f7b2741d96369634d6e19ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:40 +0000
Subject: [PATCH 60/73] fix: write events whose Gaussian location is not finite
 for coarse grids in metres

---
 quakemigrate/io/event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/io/event.py b/quakemigrate/io/event.py
index 3839825..04cce33 100644
--- a/quakemigrate/io/event.py
+++ b/quakemigrate/io/event.py
@@ -500,7 +500,7 @@ class Event:
                 decimals = max((axis_precision + 2), 6)
             for col in cols:
                 event_df[col] = event_df.loc[:, col].round(decimals=decimals)
-                if decimals <= 0:
+                if decimals <= 0 and np.isfinite(event_df[col]).all():
                     event_df[col] = event_df.loc[:, col].astype(int)
 
         # Set floating point precision for mags (if applicable)
-- 
2.43.0


From 9c5f3ecc9e8f6bc77eac59738bb778ceb6b1f7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:38 +0000
Subject: [PATCH 61/73] fix: latitude and longitude were swapped in the printed
 summary of a lookup table

---
 quakemigrate/lut/lut.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quakemigrate/lut/lut.py b/quakemigrate/lut/lut.py
index 14f149c..28a8377 100644
--- a/quakemigrate/lut/lut.py
+++ b/quakemigrate/lut/lut.py
@@ -486,11 +486,11 @@ class LUT(Grid3D):
         )
 
         out = out.format(
-            lat1=ll[0],
-            lon1=ll[1],
+            lat1=ll[1],
+            lon1=ll[0],
             dep1=ll[2],
-            lat2=ur[0],
-            lon2=ur[1],
+            lat2=ur[1],
+            lon2=ur[0],
             dep2=ur[2],
             unit_name=self.unit_name,
         )
-- 
2.43.0


From 4703d77d4a9286fc29e9ba5c97ebe55596656eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:38 +0000
Subject: [PATCH 62/73] fix: 1dnlloc traveltimes failed for a velocity model
 with a non-default index

---
 quakemigrate/lut/create_lut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/lut/create_lut.py b/quakemigrate/lut/create_lut.py
index f005b0e..55cf257 100644
--- a/quakemigrate/lut/create_lut.py
+++ b/quakemigrate/lut/create_lut.py
@@ -457,7 +457,7 @@ def _compute_1d_nlloc(lut, phase, vmodel, **kwargs):
     grid_xyz = [g / km_cf for g in lut.grid_xyz]
     stations_xyz = lut.stations_xyz / km_cf
     ll, *_, ur = lut.grid_corners / km_cf
-    vmodel = vmodel / km_cf
+    vmodel = vmodel.reset_index(drop=True) / km_cf
 
     # Make folders in which to run NonLinLoc
     cwd = pathlib.Path.cwd()
-- 
2.43.0


From 283b0ec42a8534661813dd0e009ebd10447dc711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:38 +0000
Subject: [PATCH 63/73] fix: only remove the model files made by NonLinLoc, not
 all contents of the model directory

---
 quakemigrate/lut/create_lut.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/quakemigrate/lut/create_lut.py b/quakemigrate/lut/create_lut.py
index 55cf257..6fb9851 100644
--- a/quakemigrate/lut/create_lut.py
+++ b/quakemigrate/lut/create_lut.py
@@ -519,13 +519,17 @@ def _compute_1d_nlloc(lut, phase, vmodel, **kwargs):
         if not retain_nll_grids:
             for file in (cwd / "time").glob(f"layer.{phase}.{station}.time*"):
                 file.unlink()
-            for file in (cwd / "time").glob(f"layer.{phase}.mod.*"):
-                file.unlink()
+            for directory in ["model", "time"]:
+                for file in (cwd / directory).glob(f"layer.{phase}.mod.*"):
+                    file.unlink()
 
     if not retain_nll_grids:
-        rmtree(cwd / "model")
-        # Check time directory is empty before removing (might have saved grids from
+        # Check directories are empty before removing (might have saved grids from
         # previous runs)
+        if not os.listdir(cwd / "model"):
+            rmtree(cwd / "model")
+        else:
+            logging.info("Warning: model directory not empty; Not removed.")
         if not os.listdir(cwd / "time"):
             rmtree(cwd / "time")
         else:
-- 
2.43.0


From fd6b24ee8740ca4db89ddcee140d24671abeb79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:38 +0000
Subject: [PATCH 64/73] fix: write a log file for every run of a process, not
 just the first

---
 quakemigrate/util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/util.py b/quakemigrate/util.py
index 9dd17f3..c73812a 100644
--- a/quakemigrate/util.py
+++ b/quakemigrate/util.py
@@ -146,7 +146,10 @@ def logger(logstem, log, loglevel="info"):
     else:
         handlers = [logging.StreamHandler(sys.stdout)]
 
-    logging.basicConfig(level=level, format="%(message)s", handlers=handlers)
+    # Replace the handlers of any previous run in this process
+    logging.basicConfig(
+        level=level, format="%(message)s", handlers=handlers, force=True
+    )
 
 
 def time2sample(time, sampling_rate):
-- 
2.43.0


From 4879dbd36632edd62d78a975029530723f6921f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:03 +0000
Subject: [PATCH 65/73] fix: response removal ignored that poles and zeros are
 in Hz or are those of an accelerometer

---
 quakemigrate/io/data.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/quakemigrate/io/data.py b/quakemigrate/io/data.py
index 0d77949..7e86d41 100755
--- a/quakemigrate/io/data.py
+++ b/quakemigrate/io/data.py
@@ -14,6 +14,7 @@ from itertools import chain
 import logging
 import pathlib
 
+import numpy as np
 from obspy import read, Stream, UTCDateTime
 
 import quakemigrate.util as util
@@ -703,14 +704,31 @@ class WaveformData:
             # However, due to this it is significantly faster to compute.
             # Get the instrument transfer function as a PAZ dictionary
             paz = response.get_paz()
+            zeros, poles = list(paz.zeros), list(paz.poles)
+            norm_factor = paz.normalization_factor
+
+            if paz.pz_transfer_function_type == "LAPLACE (HERTZ)":
+                # Convert to radians / second
+                norm_factor *= (2 * np.pi) ** (len(poles) - len(zeros))
+                zeros = [2 * np.pi * zero for zero in zeros]
+                poles = [2 * np.pi * pole for pole in poles]
 
             if not velocity:
-                paz.zeros.extend([0j])
+                zeros.append(0j)
+            if str(paz.input_units).upper() in [
+                "M/S**2",
+                "M/SEC**2",
+                "M/(S**2)",
+                "M/(SEC**2)",
+                "M/S/S",
+            ]:
+                # Accelerometer: the transfer function is for ground acceleration
+                zeros.append(0j)
 
             paz_dict = {
-                "poles": paz.poles,
-                "zeros": paz.zeros,
-                "gain": paz.normalization_factor,
+                "poles": poles,
+                "zeros": zeros,
+                "gain": norm_factor,
                 "sensitivity": response.instrument_sensitivity.value,
             }
 
-- 
2.43.0


From 4990034be8a53530896eb227c894dc9ae21d8597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:31 +0000
Subject: [PATCH 66/73] fix: shift_to_sample altered data already on the sample
 grid at rates such as 30 or 62.5 Hz

---
 quakemigrate/util.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/quakemigrate/util.py b/quakemigrate/util.py
index c73812a..181d3fb 100644
--- a/quakemigrate/util.py
+++ b/quakemigrate/util.py
@@ -377,22 +377,18 @@ def shift_to_sample(stream, interpolate=False):
     stream = stream.copy()
 
     for tr in stream:
-        # Check if microsecond is divisible by sampling rate; only guaranteed to work
-        # for sampling rates of 1 Hz or less
-        delta = tr.stats.starttime.microsecond % (1e6 / tr.stats.sampling_rate)
-        if delta == 0:
-            if tr.stats.sampling_rate < 1.0:
-                logging.warning(
-                    f"Trace\n\t{tr}\nhas a sampling rate less than 1 Hz, so off-sample "
-                    "data might not be corrected!"
-                )
+        # Fraction of a sample since the last "on-sample" timestamp
+        midnight = UTCDateTime(tr.stats.starttime.date)
+        n_samples = (
+            (tr.stats.starttime.ns - midnight.ns) * tr.stats.sampling_rate / 1e9
+        )
+        delta = n_samples % 1
+        # Calculate time shift to closest "on-sample" timestamp
+        time_shift = (round(delta) - delta) / tr.stats.sampling_rate
+        # Timestamps are rounded to the nearest microsecond
+        if abs(time_shift) < 1e-6:
             continue
         else:
-            # Calculate time shift to closest "on-sample" timestamp
-            time_shift = (
-                round(delta / 1e6 * tr.stats.sampling_rate) / tr.stats.sampling_rate
-                - delta / 1e6
-            )
             # A single sample can't be interpolated
             if not interpolate or len(tr) < 2:
                 logging.info(
-- 
2.43.0


From 6ea7263813599e49e53d7817a411ef3ba3a5ac45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:22 +0000
Subject: [PATCH 67/73] fix: uncertainties in the event summary of grids in
 metres were rounded to the kilometre

---
 quakemigrate/plot/event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/plot/event.py b/quakemigrate/plot/event.py
index 0294a99..aed45c9 100644
--- a/quakemigrate/plot/event.py
+++ b/quakemigrate/plot/event.py
@@ -341,7 +341,7 @@ def _plot_text_summary(ax, lut, event):
     precision.append(max((lut.precision[2] + 2), 0 + unit_correction))
 
     hypocentre = [round(dimh, dimp) for dimh, dimp in zip(event.hypocentre, precision)]
-    gau_unc = [round(dim, precision[2]) for dim in event.loc_uncertainty / km_cf]
+    gau_unc = [round(dim, precision[2]) / km_cf for dim in event.loc_uncertainty]
     hypo = (
         f"{hypocentre[1]}\u00b0N \u00b1 {gau_unc[1]} km\n"
         f"{hypocentre[0]}\u00b0E \u00b1 {gau_unc[0]} km\n"
-- 
2.43.0


From 9ee121d8f00907c93138dab2fe07784d7fd32f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:22 +0000
Subject: [PATCH 68/73] fix: number of available stations was plotted
 multiplied by the number of phases if more than two

---
 quakemigrate/plot/trigger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/plot/trigger.py b/quakemigrate/plot/trigger.py
index bcf7d39..0875838 100644
--- a/quakemigrate/plot/trigger.py
+++ b/quakemigrate/plot/trigger.py
@@ -241,9 +241,9 @@ def _plot_station_availability(ax, availability, endtime):
             "\t\t    Only P and/or S are currently supported! "
             "Plotting by station only."
         )
+        divideby = len(phases)
         phases = ["*"]
         colours = ["green"]
-        divideby = len(phases)
     elif len(phases) == 1:
         if phases[0] == "P":
             colours = ["#F03B20"]
-- 
2.43.0


From 682f39683ebd74ce70159c9cea6f2298cc807a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:22 +0000
Subject: [PATCH 69/73] fix: amplitude plots left out or repeated the label of
 a station with a single trace

---
 quakemigrate/plot/amplitudes.py | 94 ++++++---------------------------
 1 file changed, 15 insertions(+), 79 deletions(-)

diff --git a/quakemigrate/plot/amplitudes.py b/quakemigrate/plot/amplitudes.py
index c97b293..06f768f 100644
--- a/quakemigrate/plot/amplitudes.py
+++ b/quakemigrate/plot/amplitudes.py
@@ -201,84 +201,20 @@ def label_stations(ax, tr_ids, amps, dists, rejected=False):
 
     """
 
-    stn = None
-    stns = []
-    comps = []
-    for i, tr_id in enumerate(tr_ids):
-        if not stn:
-            stn = tr_id[:-1]
-            stn_start = 0
-            comps.append(tr_id[-1])
-            continue
-        elif tr_id[:-1] != stn:
-            stn_end = i
-            distance = dists.iloc[i - 1]
-            amp = max(amps[stn_start:stn_end])
-            compstring = ""
-            for comp in comps:
-                compstring += f"{comp},"
-            label = f"{stn}[{compstring[:-1]}]"
-            if not rejected:
-                ax.annotate(
-                    label, (distance, amp), ha="center", va="bottom", fontsize=8
-                )
-            else:
-                ax.annotate(
-                    label,
-                    (distance, amp),
-                    color="gray",
-                    ha="center",
-                    va="bottom",
-                    fontsize=8,
-                )
-            stns.append(stn)
-            stn = tr_id[:-1]
-            stn_start = i
-            comps = [tr_id[-1]]
-            if i == len(tr_ids) - 1:
-                distance = dists.iloc[i]
-                amp = max(amps[stn_start:])
-                compstring = ""
-                for comp in comps:
-                    compstring += f"{comp},"
-                label = f"{stn}[{compstring[:-1]}]"
-                if not rejected:
-                    ax.annotate(
-                        label, (distance, amp), ha="center", va="bottom", fontsize=8
-                    )
-                else:
-                    ax.annotate(
-                        label,
-                        (distance, amp),
-                        color="gray",
-                        ha="center",
-                        va="bottom",
-                        fontsize=8,
-                    )
-        elif i == len(tr_ids) - 1:
-            stn = tr_id[:-1]
-            comps.append(tr_id[-1])
-            distance = dists.iloc[i]
-            amp = max(amps[stn_start:])
-            compstring = ""
-            for comp in comps:
-                compstring += f"{comp},"
-            label = f"{stn}[{compstring[:-1]}]"
-            if not rejected:
-                ax.annotate(
-                    label, (distance, amp), ha="center", va="bottom", fontsize=8
-                )
-            else:
-                ax.annotate(
-                    label,
-                    (distance, amp),
-                    color="gray",
-                    ha="center",
-                    va="bottom",
-                    fontsize=8,
-                )
-            stns.append(stn)
-        else:
-            comps.append(tr_id[-1])
+    stns = list(dict.fromkeys(tr_id[:-1] for tr_id in tr_ids))
+    kwargs = {"color": "gray"} if rejected else {}
+    for stn in stns:
+        inds = [i for i, tr_id in enumerate(tr_ids) if tr_id[:-1] == stn]
+        distance = dists.iloc[inds[-1]]
+        amp = max(amps.iloc[inds])
+        compstring = ",".join(tr_ids[i][-1] for i in inds)
+        ax.annotate(
+            f"{stn}[{compstring}]",
+            (distance, amp),
+            ha="center",
+            va="bottom",
+            fontsize=8,
+            **kwargs,
+        )
 
     return ax, stns
-- 
2.43.0


From 6cfa3670f63a510e76ea7c95c11f9a88bff41d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:22 +0000
Subject: [PATCH 70/73] fix: pick plots mixed up the panels if the phases are
 specified as S, P

---
 quakemigrate/plot/phase_picks.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/plot/phase_picks.py b/quakemigrate/plot/phase_picks.py
index 62ed745..147cfc3 100644
--- a/quakemigrate/plot/phase_picks.py
+++ b/quakemigrate/plot/phase_picks.py
@@ -99,8 +99,11 @@ def pick_summary(
     times = waveforms[0].times(type="utcdatetime")
     dtimes = [x.datetime for x in times]
 
-    phases = [phase for phase, _ in onsets.items()]
-    onsets = [onset for _, onset in onsets.items()]
+    # Plot P to the left of S, whatever the order in which they were specified
+    ttimes = [ttime for _, ttime in sorted(zip(onsets.keys(), ttimes))]
+    picks = picks.sort_values("Phase", ignore_index=True)
+    phases = sorted(onsets.keys())
+    onsets = [onsets[phase] for phase in phases]
 
     # --- Calculate plotting window ---
     # Estimate suitable windows based on ttimes
-- 
2.43.0


From c1d6c9314b121e19f67b54baf0553c1024cccaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:12 +0000
Subject: [PATCH 71/73] fix: event summary failed for a station within half a
 sample of the hypocentre

---
 quakemigrate/plot/event.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/plot/event.py b/quakemigrate/plot/event.py
index aed45c9..35ac440 100644
--- a/quakemigrate/plot/event.py
+++ b/quakemigrate/plot/event.py
@@ -266,9 +266,10 @@ def _plot_waveform_gather(ax, lut, event, idx_max, stations):
                 comp = tr.stats.component
                 data = tr.data
 
-                # Get station specific range for norm factor
+                # Get station specific range (at least one sample) for norm factor
                 stat_maxt = event.otime + max(traveltimes[:, i]) * 1.5
-                norm = max(abs(data[mint_i : np.argmin(abs(times_utc - stat_maxt))]))
+                stat_maxt_i = max(np.argmin(abs(times_utc - stat_maxt)), mint_i + 1)
+                norm = max(abs(data[mint_i:stat_maxt_i]))
 
                 # Generate times for plotting
                 times = tr.times("matplotlib")[mint_i:maxt_i]
-- 
2.43.0


From 12e0fce81aa6cb1f9bf4e3c4285c1fb155c3a693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:47 +0000
Subject: [PATCH 72/73] fix: recursive STA/LTA is NaN while a signal has only
 zeros

---
 quakemigrate/core/src/onsetlib.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/core/src/onsetlib.c b/quakemigrate/core/src/onsetlib.c
index 90d0a46..bc5c41e 100644
--- a/quakemigrate/core/src/onsetlib.c
+++ b/quakemigrate/core/src/onsetlib.c
@@ -154,7 +154,8 @@ recursive_sta_lta(const double * signal,
     buf = signal[i];
     sta = csta * buf + (1 - csta) * sta;
     lta = clta * buf + (1 - clta) * lta;
-    onset[i] = sta / lta;
+    // Avoid division by zero (null result) until the first non-zero value
+    onset[i] = lta > 0. ? sta / lta : 1.;
   }
 
   // Null first nlta to remove transient signal from "recursive" measure
-- 
2.43.0


From e48070e15140d2ba6663b282f51b9eefe082b838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:40:16 +0000
Subject: [PATCH 73/73] fix: event summary and amplitude figures closed all
 figures of the user's program

---
 quakemigrate/plot/event.py                 | 2 +-
 quakemigrate/signal/local_mag/magnitude.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/quakemigrate/plot/event.py b/quakemigrate/plot/event.py
index 35ac440..4f33e3d 100644
--- a/quakemigrate/plot/event.py
+++ b/quakemigrate/plot/event.py
@@ -183,7 +183,7 @@ def event_summary(
     fstem = f"{run.name}_{event.uid}_EventSummary"
     file = (fpath / fstem).with_suffix(".pdf")
     plt.savefig(file, dpi=400)
-    plt.close("all")
+    plt.close(fig)
 
 
 WAVEFORM_COLOURS1 = ["#FB9A99", "#7570b3", "#1b9e77"]
diff --git a/quakemigrate/signal/local_mag/magnitude.py b/quakemigrate/signal/local_mag/magnitude.py
index 623c74e..4dca827 100644
--- a/quakemigrate/signal/local_mag/magnitude.py
+++ b/quakemigrate/signal/local_mag/magnitude.py
@@ -503,7 +503,7 @@ class Magnitude:
         dist_min = dist.min() / 2
         dist_max = dist.max() * 1.5
 
-        _, ax = amplitudes_summary(
+        fig, ax = amplitudes_summary(
             magnitudes,
             self.amp_feature,
             self.amp_multiplier,
@@ -571,7 +571,7 @@ class Magnitude:
         fstem = f"{run.name}_{event.uid}_AmpVsDistance"
         file = (fpath / fstem).with_suffix(".pdf")
         plt.savefig(file, dpi=400)
-        plt.close("all")
+        plt.close(fig)
 
     def _calc_mags(self, trace_ids, amps, noise_amps, dist):
         """
-- 
2.43.0

