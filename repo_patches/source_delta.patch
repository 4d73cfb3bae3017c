From 14d0ada814a582db47639edd18e0ed1e4df6216e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:38 +0000
Subject: [PATCH 01/90] fix: use an integer number of samples for hazard
 confidence intervals

The number of resampling iterations was computed with a true division, so
numpy.zeros() raised a TypeError and every hazard calculation with
CalculateCI = True failed.
---
 hazard/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazard/__init__.py b/hazard/__init__.py
index bb9670f..937f237 100644
--- a/hazard/__init__.py
+++ b/hazard/__init__.py
@@ -825,7 +825,7 @@ def calculateCI(Vr, years, nodata, minRecords, yrsPerSim=1,
     upper = 100. - lower # 95th percentile default
 
     nrecords = Vr.shape[0] # number of years (since we have aggregated into 1/yr)
-    nsamples = nrecords / sample_size # number of iterations to perform
+    nsamples = nrecords // sample_size # number of iterations to perform
     
     # RpUpper/RpLower = years x lat x lon
     RpUpper = nodata*np.ones((len(years), Vr.shape[1], Vr.shape[2]), dtype='f')
-- 
2.43.0


From 0977bd569986d62e6e034f025404c85de37d1d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:38 +0000
Subject: [PATCH 02/90] fix: use all sample_size records in each confidence
 interval sample

The end of each slice was one short, so each random sample held
sample_size - 1 records and some records were never used.
---
 hazard/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazard/__init__.py b/hazard/__init__.py
index 937f237..75a8c9a 100644
--- a/hazard/__init__.py
+++ b/hazard/__init__.py
@@ -842,7 +842,7 @@ def calculateCI(Vr, years, nodata, minRecords, yrsPerSim=1,
                 random.shuffle(Vr[:, i, j]) # shuffle the years
                 for n in range(nsamples): # iterate through fitting of random samples
                     nstart = n*sample_size
-                    nend  = (n + 1)*sample_size - 1
+                    nend  = (n + 1)*sample_size
                     vsub = Vr[nstart:nend, i, j] # select random 50(default) events
 
                     vsub.sort()
-- 
2.43.0


From 59d1db12ea73170ef749aeef1b7102cdf1149f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:38 +0000
Subject: [PATCH 03/90] fix: do not carry confidence interval fits over from
 another grid cell

The array of fitted return levels was shared by all grid cells. A sample
without any wind left the values of the previously processed cell in it.
---
 hazard/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazard/__init__.py b/hazard/__init__.py
index 75a8c9a..0dc17b1 100644
--- a/hazard/__init__.py
+++ b/hazard/__init__.py
@@ -831,14 +831,14 @@ def calculateCI(Vr, years, nodata, minRecords, yrsPerSim=1,
     RpUpper = nodata*np.ones((len(years), Vr.shape[1], Vr.shape[2]), dtype='f')
     RpLower = nodata*np.ones((len(years), Vr.shape[1], Vr.shape[2]), dtype='f')
 
-    # w: years x number of iterations
-    w = np.zeros((len(years), nsamples), dtype='f')
     wUpper = np.zeros((len(years)), dtype='f')
     wLower = np.zeros((len(years)), dtype='f')
 
     for i in range(Vr.shape[1]): # lat
         for j in range(Vr.shape[2]): # lon
             if Vr[:, i, j].max() > 0.0: # check for valid data
+                # w: years x number of iterations
+                w = np.zeros((len(years), nsamples), dtype='f')
                 random.shuffle(Vr[:, i, j]) # shuffle the years
                 for n in range(nsamples): # iterate through fitting of random samples
                     nstart = n*sample_size
-- 
2.43.0


From 52765a5355e18de097289031ac49ed0761a57370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:51 +0000
Subject: [PATCH 04/90] fix: round the region limits when selecting hazard grid
 points

The limits were truncated after scaling, so for limits such as 128.2 (which
becomes 128199.99...) the last row or column of the region was left out of
the hazard calculation.
---
 hazard/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hazard/__init__.py b/hazard/__init__.py
index 0dc17b1..de1ee4f 100644
--- a/hazard/__init__.py
+++ b/hazard/__init__.py
@@ -105,15 +105,15 @@ class TileGrid(object):
 
 
         ii, = ((np.round(wf_lon*1000).astype(int) >=
-                int(gridLimit['xMin']*1000)) &
+                int(np.round(gridLimit['xMin']*1000))) &
                (np.round(wf_lon*1000).astype(int) <=
-                int(gridLimit['xMax']*1000))).nonzero()
+                int(np.round(gridLimit['xMax']*1000)))).nonzero()
 
 
         jj, = ((np.round(wf_lat*1000).astype(int) >=
-                int(gridLimit['yMin']*1000)) &
+                int(np.round(gridLimit['yMin']*1000))) &
                (np.round(wf_lat*1000).astype(int) <=
-                int(gridLimit['yMax']*1000))).nonzero()
+                int(np.round(gridLimit['yMax']*1000)))).nonzero()
 
         self.imin = ii[0]
         self.imax = ii[-1]
-- 
2.43.0


From a370c3a0d33d92307d52c23b6e5f71a1962d9aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:54:49 +0000
Subject: [PATCH 05/90] fix: only return wind speeds of the selected location
 in locationPassage

The wind speed table was joined on the event alone, so each passage was
returned once for every location, with the wind speeds of the other
locations.
---
 database/queries.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/database/queries.py b/database/queries.py
index 6e93edb..a4b9cc1 100644
--- a/database/queries.py
+++ b/database/queries.py
@@ -123,6 +123,7 @@ def locationPassage(hazard_db, locId, distance=50):
              "INNER JOIN tblTracks t "
              "ON l.locId = t.locId "
              "JOIN tblWindSpeed w on w.eventId = t.eventId "
+             "AND w.locId = t.locId "
              "JOIN tblEvents e on e.eventId = t.eventId "
              "WHERE t.distClosest < ? and l.locId = ?")
     cur = hazard_db.execute(query, (distance, locId))
-- 
2.43.0


From debbbf119dd235089c17165bb864404645a6fb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:50 +0000
Subject: [PATCH 06/90] fix: track generation of a single simulation divided by
 zero

The progress message and the progress callback divided by the index of the
last simulation, which is 0 when NumSimulations is 1. Use the number of
simulations.
---
 TrackGenerator/TrackGenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TrackGenerator/TrackGenerator.py b/TrackGenerator/TrackGenerator.py
index 5819800..9404c07 100644
--- a/TrackGenerator/TrackGenerator.py
+++ b/TrackGenerator/TrackGenerator.py
@@ -1869,7 +1869,7 @@ def run(configFile, callback=None):
 
     comm.barrier()
 
-    N = sims[-1].index
+    N = len(sims)
 
     # Balance the simulations over the number of processors and do it
 
-- 
2.43.0


From 86103fa79c5345eda88c2644540c6248eb4ad835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:51 +0000
Subject: [PATCH 07/90] fix: draw the radius residual from the simulation's own
 random stream

The radius to maximum winds used the global numpy generator, which is seeded
once per process. The radii of a simulation therefore depended on the other
simulations run by the same process and on the number of processes.
---
 TrackGenerator/TrackGenerator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TrackGenerator/TrackGenerator.py b/TrackGenerator/TrackGenerator.py
index 9404c07..9909789 100644
--- a/TrackGenerator/TrackGenerator.py
+++ b/TrackGenerator/TrackGenerator.py
@@ -646,13 +646,13 @@ class TrackGenerator(object):
                     cdfSize = self.allCDFInitSize[ind, 1:3]
 
                 dp = initEnvPressure - genesisPressure
-                self.rmwEps = np.random.normal(0, scale=0.335)
+                self.rmwEps = normal(0., 0.335)
                 genesisRmax = trackSize.rmax(dp, genesisLat, self.rmwEps)
 
                 # Censor the initial Rmax to be < 100 km.
                 if genesisRmax > 100.:
                     while genesisRmax > 100.:
-                        self.rmwEps = np.random.normal(0, scale=0.335)
+                        self.rmwEps = normal(0., 0.335)
                         genesisRmax = trackSize.rmax(dp,
                                                      genesisLat,
                                                      self.rmwEps)
-- 
2.43.0


From 26706e4553387491050fdde581ac1327884af3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:13:08 +0000
Subject: [PATCH 08/90] fix: count the time over land from the latest landfall

The time over land was not set back when a storm returned to sea, so a
second landfall was filled as if the storm had been over land since the
first one.
---
 TrackGenerator/TrackGenerator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/TrackGenerator/TrackGenerator.py b/TrackGenerator/TrackGenerator.py
index 9909789..0e204ce 100644
--- a/TrackGenerator/TrackGenerator.py
+++ b/TrackGenerator/TrackGenerator.py
@@ -1013,6 +1013,7 @@ class TrackGenerator(object):
                 log.debug(('Central pressure {0} hours after landfall:'
                            '{1:.2f}'.format(tol, pressure[i])))
             else:
+                tol = 0.0
                 pstat = self.pStats.coeffs
                 pressure[i] = pressure[i - 1] + self.dp * self.dt
 
-- 
2.43.0


From 5487e2ce786dd9d2b683f04f7b5656727dd18bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:13:13 +0000
Subject: [PATCH 09/90] fix: sample the environmental pressure at each storm's
 own genesis

The sampled value overwrote the optional argument, so all later storms of a
simulation started with the environmental pressure of the first one.
---
 TrackGenerator/TrackGenerator.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/TrackGenerator/TrackGenerator.py b/TrackGenerator/TrackGenerator.py
index 0e204ce..aa2e507 100644
--- a/TrackGenerator/TrackGenerator.py
+++ b/TrackGenerator/TrackGenerator.py
@@ -617,19 +617,21 @@ class TrackGenerator(object):
             # provided - dependent on initial day of year:
 
             if not initEnvPressure:
-                initEnvPressure = \
+                genesisEnvPressure = \
                     self.mslp.get_pressure(np.array([[genesisDay],
                                                      [genesisLat],
                                                      [genesisLon]]))
+            else:
+                genesisEnvPressure = initEnvPressure
 
             # Sample an initial pressure if none is provided
 
             if not initPressure:
                 # Sample subject to the constraint initPressure <
-                # initEnvPressure
+                # genesisEnvPressure
                 ind = self.allCDFInitPressure[:, 0] == initCellNum
                 cdfInitPressure = self.allCDFInitPressure[ind, 1:3]
-                ix = cdfInitPressure[:, 0].searchsorted(initEnvPressure)
+                ix = cdfInitPressure[:, 0].searchsorted(genesisEnvPressure)
                 upperProb = cdfInitPressure[ix - 1, 1]
                 genesisPressure = ppf(uniform(0.0, upperProb),
                                       cdfInitPressure)
@@ -645,7 +647,7 @@ class TrackGenerator(object):
                     ind = self.allCDFInitSize[:, 0] == initCellNum
                     cdfSize = self.allCDFInitSize[ind, 1:3]
 
-                dp = initEnvPressure - genesisPressure
+                dp = genesisEnvPressure - genesisPressure
                 self.rmwEps = normal(0., 0.335)
                 genesisRmax = trackSize.rmax(dp, genesisLat, self.rmwEps)
 
@@ -670,7 +672,7 @@ class TrackGenerator(object):
             log.debug('initBearing: %.2f initSpeed: %.2f' +
                       ' initEnvPressure: %.2f initPressure: %.2f' +
                       ' initRmax: %.2f',
-                      genesisBearing, genesisSpeed, initEnvPressure,
+                      genesisBearing, genesisSpeed, genesisEnvPressure,
                       genesisPressure, genesisRmax)
 
             xMin = self.gridLimit['xMin']
@@ -684,7 +686,7 @@ class TrackGenerator(object):
                           ' for this genesis point.')
                 continue
 
-            if (initEnvPressure - genesisPressure) < 2:
+            if (genesisEnvPressure - genesisPressure) < 2:
                 log.debug(("Track does not start with sufficient "
                            "pressure deficit"))
                 continue
@@ -694,7 +696,7 @@ class TrackGenerator(object):
 
             data = self._singleTrack(j, genesisLon, genesisLat,
                                      genesisSpeed, genesisBearing,
-                                     genesisPressure, initEnvPressure,
+                                     genesisPressure, genesisEnvPressure,
                                      genesisRmax, genesisTime)
 
             track_dtype = np.dtype({'names':TCRM_COLS, 'formats':TCRM_FMTS})
-- 
2.43.0


From e598fb99c8aca4ae64385b71757659cad6a88b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:15:46 +0000
Subject: [PATCH 10/90] fix: save ascii grids over existing files and to open
 files

Saving over an existing file used the Python 2 file() builtin, and passing an
open file failed in os.path.isfile.
---
 Utilities/grid.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Utilities/grid.py b/Utilities/grid.py
index afe3e4d..e600c60 100644
--- a/Utilities/grid.py
+++ b/Utilities/grid.py
@@ -63,14 +63,14 @@ def grdSave(filename, data, lon, lat, delta, delimiter=' ', nodata=-9999,
                  nodata=-9999, fmt='%.10e, coords='latlon')
     """
 
-    if filename and os.path.isfile(filename):
+    if hasattr(filename, 'seek'):
+        fh = filename
+    elif filename and os.path.isfile(filename):
         if filename.endswith('.gz'):
             import gzip
-            fh = gzip.open(filename, 'wb')
+            fh = gzip.open(filename, 'wt')
         else:
-            fh = file(filename, 'w')
-    elif hasattr(filename, 'seek'):
-        fh = filename
+            fh = open(filename, 'w')
     else:
         try:
             fh = open(filename, 'w')
-- 
2.43.0


From 4cd916af73ff6ca189cee6bcfddcf48fb4951c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:20:11 +0000
Subject: [PATCH 11/90] fix: leave the times of tracks in memory unchanged when
 saving

---
 Utilities/track.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Utilities/track.py b/Utilities/track.py
index 84b6b98..a33aa42 100644
--- a/Utilities/track.py
+++ b/Utilities/track.py
@@ -324,11 +324,12 @@ def ncSaveTracks(trackfile, tracks,
                                      zlib=True, complevel=8, shuffle=True)
         tvar = tdata.createVariable('track', tdtype, ('time',),
                                     zlib=True, complevel=8, shuffle=True)
-        t.data['Datetime'] = date2num(t.data['Datetime'], timeunits, calendar)
-        times[:] = t.data['Datetime']
+        trackdata = t.data.copy()
+        trackdata['Datetime'] = date2num(trackdata['Datetime'], timeunits, calendar)
+        times[:] = trackdata['Datetime']
         times.units = 'hours since 1900-01-01 00:00'
         times.calendar = calendar
-        tvar[:] = t.data.astype(track_dtype)
+        tvar[:] = trackdata.astype(track_dtype)
         tvar.long_name = "Tropical cyclone track data"
         tvar.time_units = 'hours since 1900-01-01 00:00'
         tvar.calendar = calendar
-- 
2.43.0


From 25d0dfdc97c1174cf6ff4d82d7516670ff00dd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:20:11 +0000
Subject: [PATCH 12/90] fix: record the time units actually used in track files

---
 Utilities/track.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Utilities/track.py b/Utilities/track.py
index a33aa42..fb4176a 100644
--- a/Utilities/track.py
+++ b/Utilities/track.py
@@ -327,11 +327,11 @@ def ncSaveTracks(trackfile, tracks,
         trackdata = t.data.copy()
         trackdata['Datetime'] = date2num(trackdata['Datetime'], timeunits, calendar)
         times[:] = trackdata['Datetime']
-        times.units = 'hours since 1900-01-01 00:00'
+        times.units = timeunits
         times.calendar = calendar
         tvar[:] = trackdata.astype(track_dtype)
         tvar.long_name = "Tropical cyclone track data"
-        tvar.time_units = 'hours since 1900-01-01 00:00'
+        tvar.time_units = timeunits
         tvar.calendar = calendar
         tvar.lon_units = 'degrees east'
         tvar.lat_units = 'degrees north'
-- 
2.43.0


From 17c3d95eca0c7ae3524096a43dd552f34ad32c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:20:32 +0000
Subject: [PATCH 13/90] fix: round track times to the nearest second when
 reading

---
 Utilities/track.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/Utilities/track.py b/Utilities/track.py
index fb4176a..424678f 100644
--- a/Utilities/track.py
+++ b/Utilities/track.py
@@ -15,7 +15,7 @@ import time
 import logging
 import getpass
 import numpy as np
-from datetime import datetime
+from datetime import datetime, timedelta
 
 from os.path import join as pjoin
 import re
@@ -180,6 +180,9 @@ TCRM_CNVT = {
     8: lambda s: convert(float(s.strip() or 0), TCRM_UNIT[8], 'Pa'),
 }
 
+# Times are stored as floats, so round to the nearest second when reading:
+HALF_SECOND = timedelta(microseconds=500000)
+
 TRACK_DT_ERR = "Track data does not have required \
 attributes to convert to datetime object"
 
@@ -215,7 +218,7 @@ def ncReadTrackData(trackfile):
         calendar = ncobj.getncattr('calendar')
         dtt = num2date(dt[:], units, calendar)
         # Convert to true python datetimes
-        dtconversion = [datetime.strptime(d.strftime(), "%Y-%m-%d %H:%M:%S") for d in dtt]
+        dtconversion = [datetime.strptime((d + HALF_SECOND).strftime(), "%Y-%m-%d %H:%M:%S") for d in dtt]
         newtd = np.zeros(len(dtt), dtype=track_dtype)
         for f in ncobj.variables.keys():
             if f != 'Datetime' and f in track_dtype.names:
@@ -247,7 +250,7 @@ def ncReadTrackData(trackfile):
             for f in track_data.dtype.names:
                 if f != 'Datetime' and f in track_dtype.names:
                     newtd[f] = track_data[f]
-            dtconversion = [datetime.strptime(d.strftime(), "%Y-%m-%d %H:%M:%S") for d in dt]
+            dtconversion = [datetime.strptime((d + HALF_SECOND).strftime(), "%Y-%m-%d %H:%M:%S") for d in dt]
             newtd['Datetime'] = dtconversion
 
             track = Track(newtd)
-- 
2.43.0


From acfaf464c594813e1d236cd84ae3c3f1525ddc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:02 +0000
Subject: [PATCH 14/90] fix: multiplier worker threads could wait forever for a
 segment taken by another thread

---
 ProcessMultipliers/processMultipliers.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ProcessMultipliers/processMultipliers.py b/ProcessMultipliers/processMultipliers.py
index f45e1eb..f2b1ee2 100755
--- a/ProcessMultipliers/processMultipliers.py
+++ b/ProcessMultipliers/processMultipliers.py
@@ -1059,8 +1059,13 @@ def processMultV2(wspd, uu, vv, lon, lat, working_dir, dirns,
 
 
 def call_process_multiplier_segment(segment_queue, source_dir_band, wind_prj, bear_prj, dst_band):
-    while not segment_queue.empty():
-        processMultiplierSegment(segment_queue.get(), source_dir_band, wind_prj, bear_prj, dst_band)
+    while True:
+        try:
+            # Another thread may take the last segment at any time, so never wait here
+            segment = segment_queue.get_nowait()
+        except queue.Empty:
+            break
+        processMultiplierSegment(segment, source_dir_band, wind_prj, bear_prj, dst_band)
 
 
 def processMultiplierSegment(segment, source_dir_band, wind_prj, bear_prj, dst_band):
-- 
2.43.0


From 69e73497d71b3c82d02d093eb7e3565aa710555f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:59:56 +0000
Subject: [PATCH 15/90] fix: apply the northern multiplier to winds from just
 below 360 degrees

---
 ProcessMultipliers/processMultipliers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ProcessMultipliers/processMultipliers.py b/ProcessMultipliers/processMultipliers.py
index f2b1ee2..4a1e846 100755
--- a/ProcessMultipliers/processMultipliers.py
+++ b/ProcessMultipliers/processMultipliers.py
@@ -889,7 +889,8 @@ def processMult(wspd, uu, vv, lon, lat, working_dir, m4_max_file = 'm4_ne.tif',
         5: {'dir': 'sw', 'min': 202.5, 'max': 247.5},
         6: {'dir': 'w', 'min': 247.5, 'max': 292.5},
         7: {'dir': 'nw', 'min': 292.5, 'max': 337.5},
-        8: {'dir': 'n', 'min': 337.5, 'max': 360.}
+        # Bearings just below 360 are rounded up to 360 in the 32-bit rasters
+        8: {'dir': 'n', 'min': 337.5, 'max': np.inf}
     }
     band_numbers_for_indices_in_geotiff = [2, 3, 1, 6, 5, 7, 8, 4, 2]
     log.info("Processing all directions")
@@ -1091,7 +1092,8 @@ def processMultiplierSegment(segment, source_dir_band, wind_prj, bear_prj, dst_b
         5: {'dir': 'sw', 'min': 202.5, 'max': 247.5},
         6: {'dir': 'w', 'min': 247.5, 'max': 292.5},
         7: {'dir': 'nw', 'min': 292.5, 'max': 337.5},
-        8: {'dir': 'n', 'min': 337.5, 'max': 360.}
+        # Bearings just below 360 are rounded up to 360 in the 32-bit rasters
+        8: {'dir': 'n', 'min': 337.5, 'max': np.inf}
     }
     [x_offset, y_offset, width, height, segment_id, total_segments] = segment
     with threadLock_gust:
-- 
2.43.0


From 4d9c6b7aceaac03d6f835d0b03d3239fc613bfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:15:45 +0000
Subject: [PATCH 16/90] fix: size the wind field grid for each track when no
 region is given

Without a gridLimit setting the grid of the first track a process handled
was used for all its later tracks, so their wind fields were cut off and
depended on the number of processes.
---
 wind/__init__.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/wind/__init__.py b/wind/__init__.py
index d909e64..5351f10 100644
--- a/wind/__init__.py
+++ b/wind/__init__.py
@@ -415,7 +415,7 @@ class WindfieldGenerator(object):
 
     def setGridLimit(self, track):
         """
-        Set the outer bounds of the grid to encapsulate
+        Determine the outer bounds of the grid to encapsulate
         the extent of a single TC track.
 
         :param track: :class:`Track` object.
@@ -428,11 +428,12 @@ class WindfieldGenerator(object):
         track_limits['xMax'] = max(track_limits['xMax'], track.Longitude.max())
         track_limits['yMin'] = min(track_limits['yMin'], track.Latitude.min())
         track_limits['yMax'] = max(track_limits['yMax'], track.Latitude.max())
-        self.gridLimit = {}
-        self.gridLimit['xMin'] = np.floor(track_limits['xMin'])
-        self.gridLimit['xMax'] = np.ceil(track_limits['xMax'])
-        self.gridLimit['yMin'] = np.floor(track_limits['yMin'])
-        self.gridLimit['yMax'] = np.ceil(track_limits['yMax'])
+        gridLimit = {}
+        gridLimit['xMin'] = np.floor(track_limits['xMin'])
+        gridLimit['xMax'] = np.ceil(track_limits['xMax'])
+        gridLimit['yMin'] = np.floor(track_limits['yMin'])
+        gridLimit['yMax'] = np.ceil(track_limits['yMax'])
+        return gridLimit
 
     def calculateExtremesFromTrack(self, track, callback=None):
         """
@@ -447,9 +448,10 @@ class WindfieldGenerator(object):
                          extract point values for specified locations.
 
         """
-        if self.gridLimit is None:
-            self.setGridLimit(track)
-            log.info(f"Wind field domain set to {repr(self.gridLimit)}")
+        gridLimit = self.gridLimit
+        if gridLimit is None:
+            gridLimit = self.setGridLimit(track)
+            log.info(f"Wind field domain set to {repr(gridLimit)}")
 
         wt = WindfieldAroundTrack(track,
                                   profileType=self.profileType,
@@ -460,7 +462,7 @@ class WindfieldGenerator(object):
                                   thetaMax=self.thetaMax,
                                   margin=self.margin,
                                   resolution=self.resolution,
-                                  gridLimit=self.gridLimit,
+                                  gridLimit=gridLimit,
                                   domain=self.domain)
 
         if self.config.getboolean('Timeseries', 'Windfields', fallback=False):
@@ -468,12 +470,12 @@ class WindfieldGenerator(object):
                            'evolution.{0:03d}-{1:05d}.nc'.format(
                                *track.trackId))
             callback = writer.WriteFoliationCallback(output,
-                                                     self.gridLimit,
+                                                     gridLimit,
                                                      self.resolution,
                                                      self.margin,
                                                      wraps=callback)
 
-        return track, wt.regionalExtremes(self.gridLimit, callback)
+        return track, wt.regionalExtremes(gridLimit, callback)
 
     def calculateExtremesFromTrackfile(self, trackfile, callback=None):
         """
-- 
2.43.0


From a208cd764cb6ce339ad4d3bd8fe8d05d8133d0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:15:45 +0000
Subject: [PATCH 17/90] fix: let wind field runs without any track files finish

A simulation without cyclones writes no track files, and the wind field
stage then failed with an IndexError.
---
 wind/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wind/__init__.py b/wind/__init__.py
index 5351f10..c173ca3 100644
--- a/wind/__init__.py
+++ b/wind/__init__.py
@@ -830,7 +830,7 @@ def loadTracksFromFiles(trackfiles, gridLimit, margin):
             tracks = filterTracks(loadTracks(f), gridLimit, margin)
             for track in tracks:
                 yield track
-    else:
+    elif len(trackfiles) == 1:
         f = trackfiles[0]
         msg = f'Calculating wind fields for tracks in {f}'
         log.info(msg)
-- 
2.43.0


From a47a6a17dea4f74ccb9baae9610e24aac25d4202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:16:33 +0000
Subject: [PATCH 18/90] fix: never leave a partly written wind field file under
 its final name

After an interrupted run a partly written file could not be replaced when
the run was started again, or was taken as finished.
---
 wind/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wind/__init__.py b/wind/__init__.py
index c173ca3..45134f9 100644
--- a/wind/__init__.py
+++ b/wind/__init__.py
@@ -704,7 +704,11 @@ class WindfieldGenerator(object):
             }
         }
 
-        nctools.ncSaveGrid(filename, dimensions, variables, gatts=gatts)
+        # Only a complete file gets the final name, so an interrupted run
+        # leaves nothing that looks finished
+        tempfile = filename + '.tmp'
+        nctools.ncSaveGrid(tempfile, dimensions, variables, gatts=gatts)
+        os.replace(tempfile, filename)
 
     def dumpGustsFromTrackfiles(self, trackfiles, windfieldPath,
                                 timeStepCallback=None):
-- 
2.43.0


From 2a678dac4aa9cbd143220df175457672bc765c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:26:23 +0000
Subject: [PATCH 19/90] fix: keep the list of processed files usable after an
 interrupted entry

A partly written last line made every later run fail to read the list, and
the next entry was appended to it.
---
 Utilities/process.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/Utilities/process.py b/Utilities/process.py
index 02cc2ec..9747416 100644
--- a/Utilities/process.py
+++ b/Utilities/process.py
@@ -99,7 +99,12 @@ def pGetProcessedFiles(datFileName=None):
                          datFileName)
             for line in fh:
                 line.rstrip('\n')
-                directory, filename, moddate, md5sum = line.split('|')
+                try:
+                    directory, filename, moddate, md5sum = line.split('|')
+                except ValueError:
+                    LOGGER.warning("Skipping incomplete entry in %s",
+                                   datFileName)
+                    continue
                 pSetProcessedEntry(directory, filename, 'moddate',
                                    moddate.rstrip('\n'))
                 pSetProcessedEntry(directory, filename, 'md5sum',
@@ -137,6 +142,12 @@ def pWriteProcessedFile(filename):
         else:
             pSetProcessedEntry(directory, fname, 'md5sum', md5sum)
             pSetProcessedEntry(directory, fname, 'moddate', moddate)
+            if fh.tell() > 0:
+                # Do not continue the line of an interrupted entry
+                with open(GLOBAL_DATFILE, 'rb') as last:
+                    last.seek(-1, os.SEEK_END)
+                    if last.read() != b'\n':
+                        fh.write('\n')
             fh.write('|'.join([directory, fname, moddate, md5sum]) + '\n')
             fh.close()
             rc = 1
-- 
2.43.0


From 3eebc1142e28dc4fee6193cbac82180fbc3a3d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:26:23 +0000
Subject: [PATCH 20/90] fix: report whether the list of processed files was
 deleted

os.unlink returns None, so a successful deletion was reported as a failure.
---
 Utilities/process.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Utilities/process.py b/Utilities/process.py
index 9747416..0b95e49 100644
--- a/Utilities/process.py
+++ b/Utilities/process.py
@@ -169,10 +169,12 @@ def pDeleteDatFile():
     """
 
     rc = 0
-    if os.unlink(GLOBAL_DATFILE):
-        rc = 1
-    else:
+    try:
+        os.unlink(GLOBAL_DATFILE)
+    except OSError:
         LOGGER.warning("Cannot remove dat file %s", GLOBAL_DATFILE)
+    else:
+        rc = 1
     return rc
 
 def pAlreadyProcessed(directory, filename, attribute, value):
-- 
2.43.0


From d341182807d301f8cd41dc53d536054a7f834360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:30:56 +0000
Subject: [PATCH 21/90] fix: never take a failed download as a complete dataset

A connection that closed early, a damaged archive or a failing disk left an
empty or partial file, which later runs took as downloaded.
---
 Utilities/datasets.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/Utilities/datasets.py b/Utilities/datasets.py
index ccb9904..d1528f7 100644
--- a/Utilities/datasets.py
+++ b/Utilities/datasets.py
@@ -3,6 +3,9 @@
 =============================================
 
 """
+import os
+import zlib
+from http.client import HTTPException
 from urllib.request import urlopen
 from urllib.error import URLError
 from io import BytesIO
@@ -70,6 +73,9 @@ class DataSet(object):
                 if callback is not None:
                     callback(self.filename, done, size)
 
+            if done == 0 or done < size:
+                raise IOError('Cannot download file: transfer ended early')
+
             data.seek(0)
 
             if self.compression == 'gz':
@@ -80,10 +86,14 @@ class DataSet(object):
                 from zipfile import ZipFile
                 data = ZipFile(data)
 
-            with open(pjoin(self.path, self.filename), 'wb') as outfile:
-                outfile.write(data.read())
+            # Only a complete file gets the final name
+            content = data.read()
+            tempfile = pjoin(self.path, self.filename + '.tmp')
+            with open(tempfile, 'wb') as outfile:
+                outfile.write(content)
+            os.replace(tempfile, pjoin(self.path, self.filename))
 
-        except URLError:
+        except (URLError, EOFError, zlib.error, HTTPException):
             raise IOError('Cannot download file')
 
     def isDownloaded(self):
-- 
2.43.0


From 2a860c5ee4c67e67b5f2090efac1893cd0a32149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:30:56 +0000
Subject: [PATCH 22/90] fix: unpack datasets downloaded as zip archives

Reading the archive object failed with a TypeError.
---
 Utilities/datasets.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Utilities/datasets.py b/Utilities/datasets.py
index d1528f7..a023a6a 100644
--- a/Utilities/datasets.py
+++ b/Utilities/datasets.py
@@ -9,6 +9,7 @@ from http.client import HTTPException
 from urllib.request import urlopen
 from urllib.error import URLError
 from io import BytesIO
+from zipfile import BadZipFile
 from Utilities.config import ConfigParser
 from os.path import isfile, splitext, join as pjoin
 
@@ -84,7 +85,8 @@ class DataSet(object):
 
             if self.compression == 'zip':
                 from zipfile import ZipFile
-                data = ZipFile(data)
+                archive = ZipFile(data)
+                data = archive.open(archive.namelist()[0])
 
             # Only a complete file gets the final name
             content = data.read()
@@ -93,7 +95,7 @@ class DataSet(object):
                 outfile.write(content)
             os.replace(tempfile, pjoin(self.path, self.filename))
 
-        except (URLError, EOFError, zlib.error, HTTPException):
+        except (URLError, EOFError, zlib.error, BadZipFile, HTTPException):
             raise IOError('Cannot download file')
 
     def isDownloaded(self):
-- 
2.43.0


From 13bfd00a9fa94c353fd58f3870e741a1857a85b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:30:56 +0000
Subject: [PATCH 23/90] fix: download datasets from servers that do not send
 the length

The missing length failed with a TypeError.
---
 Utilities/datasets.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Utilities/datasets.py b/Utilities/datasets.py
index a023a6a..80c4170 100644
--- a/Utilities/datasets.py
+++ b/Utilities/datasets.py
@@ -63,7 +63,8 @@ class DataSet(object):
             meta = urlfile.info()
             data = BytesIO()
 
-            size = int(meta['Content-Length'])
+            # The length is unknown for some transfers
+            size = int(meta['Content-Length'] or 0)
             done = 0
             while True:
                 buf = urlfile.read(8192)
@@ -72,7 +73,7 @@ class DataSet(object):
                 data.write(buf)
                 done += len(buf)
                 if callback is not None:
-                    callback(self.filename, done, size)
+                    callback(self.filename, done, max(done, size))
 
             if done == 0 or done < size:
                 raise IOError('Cannot download file: transfer ended early')
-- 
2.43.0


From 437a9db44e245a314469695f31ce386f5549eb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:09 +0000
Subject: [PATCH 24/90] fix: return the configured value when the default is a
 list

cnfGetIniValue returned None for an option that is set in the file when
the caller's default was neither a string, number nor dict.
---
 Utilities/config.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Utilities/config.py b/Utilities/config.py
index 10a65ee..800f259 100644
--- a/Utilities/config.py
+++ b/Utilities/config.py
@@ -378,5 +378,4 @@ def cnfGetIniValue(configFile, section, option, default=None):
         return config.getint(section, option)
     if isinstance(default, float):
         return config.getfloat(section, option)
-    if isinstance(default, dict):
-        return config.geteval(section, option)
+    return config.geteval(section, option)
-- 
2.43.0


From e14ea2c60d08d7cbc9bd784d07c32c6d39a1fa34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:43:18 +0000
Subject: [PATCH 25/90] fix: round grid limits, margin and resolution to whole
 grid units

Truncation made settings such as a margin of 2.3 degrees give local and
regional grids of different sizes, so the wind field calculation failed.
A domain limit of 0 was taken as not given.
---
 Utilities/maputils.py | 36 ++++++++++++++++++------------------
 wind/__init__.py      | 12 ++++++------
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/Utilities/maputils.py b/Utilities/maputils.py
index 61a60e9..bec9896 100644
--- a/Utilities/maputils.py
+++ b/Utilities/maputils.py
@@ -491,24 +491,24 @@ def makeGrid(cLon, cLat, margin=2, resolution=0.01, minLon=None, maxLon=None,
         type(cLon)==np.ndarray or type(cLat)==np.ndarray):
         raise TypeError("Input values must be scalar values")
 
-    gridSize = int(resolution * 1000)
+    gridSize = int(round(1000 * resolution))
 
-    if minLon:
-        minLon_ = int(1000 * (minLon)) - int(1000 * margin)
+    if minLon is not None:
+        minLon_ = int(round(1000 * minLon)) - int(round(1000 * margin))
     else:
-        minLon_ = int(1000 * (cLon)) - int(1000 * margin)
-    if maxLon:
-        maxLon_ = int(1000 * (maxLon)) + int(1000 * margin) + 1
+        minLon_ = int(1000 * (cLon)) - int(round(1000 * margin))
+    if maxLon is not None:
+        maxLon_ = int(round(1000 * maxLon)) + int(round(1000 * margin)) + 1
     else:
-        maxLon_ = int(1000 * (cLon)) + int(1000 * margin) + 1
-    if minLat:
-        minLat_ = int(1000 * (minLat)) - int(1000 * margin)
+        maxLon_ = int(1000 * (cLon)) + int(round(1000 * margin)) + 1
+    if minLat is not None:
+        minLat_ = int(round(1000 * minLat)) - int(round(1000 * margin))
     else:
-        minLat_ = int(1000 * (cLat)) - int(1000 * margin)
-    if maxLat:
-        maxLat_ = int(1000 * (maxLat)) + int(1000 * margin) + 1
+        minLat_ = int(1000 * (cLat)) - int(round(1000 * margin))
+    if maxLat is not None:
+        maxLat_ = int(round(1000 * maxLat)) + int(round(1000 * margin)) + 1
     else:
-        maxLat_ = int(1000 * (cLat)) + int(1000 * margin) + 1
+        maxLat_ = int(1000 * (cLat)) + int(round(1000 * margin)) + 1
 
     xGrid = np.array(np.arange(minLon_, maxLon_, gridSize), dtype=int)
     yGrid = np.array(np.arange(minLat_, maxLat_, gridSize), dtype=int)
@@ -554,11 +554,11 @@ def makeGridDomain(cLon, cLat, minLon, maxLon, minLat, maxLat,
     if (type(cLon)==list or type(cLat)==list or
         type(cLon)==np.ndarray or type(cLat)==np.ndarray):
         raise TypeError("Input values must be scalar values")
-    gridSize = int(resolution * 1000)
-    minLon_ = int(1000 * (minLon)) - int(1000 * margin)
-    maxLon_ = int(1000 * (maxLon)) + int(1000 * margin) + 1
-    minLat_ = int(1000 * (minLat)) - int(1000 * margin)
-    maxLat_ = int(1000 * (maxLat)) + int(1000 * margin) + 1
+    gridSize = int(round(1000 * resolution))
+    minLon_ = int(round(1000 * minLon)) - int(round(1000 * margin))
+    maxLon_ = int(round(1000 * maxLon)) + int(round(1000 * margin)) + 1
+    minLat_ = int(round(1000 * minLat)) - int(round(1000 * margin))
+    maxLat_ = int(round(1000 * maxLat)) + int(round(1000 * margin)) + 1
 
     xGrid = np.array(np.arange(minLon_, maxLon_, gridSize), dtype=int)
     yGrid = np.array(np.arange(minLat_, maxLat_, gridSize), dtype=int)
diff --git a/wind/__init__.py b/wind/__init__.py
index 45134f9..6d6a4ab 100644
--- a/wind/__init__.py
+++ b/wind/__init__.py
@@ -238,13 +238,13 @@ class WindfieldAroundTrack(object):
         yMax = gridLimit['yMax']
 
         # Setup a 'millidegree' integer grid for the region
-        gridMargin = int(100. * self.margin)
-        gridStep = int(100. * self.resolution)
+        gridMargin = int(round(100. * self.margin))
+        gridStep = int(round(100. * self.resolution))
 
-        minLat = int(100. * yMin) - gridMargin
-        maxLat = int(100. * yMax) + gridMargin
-        minLon = int(100. * xMin) - gridMargin
-        maxLon = int(100. * xMax) + gridMargin
+        minLat = int(round(100. * yMin)) - gridMargin
+        maxLat = int(round(100. * yMax)) + gridMargin
+        minLon = int(round(100. * xMin)) - gridMargin
+        maxLon = int(round(100. * xMax)) + gridMargin
 
         latGrid = np.arange(minLat, maxLat + gridStep, gridStep, dtype=int)
         lonGrid = np.arange(minLon, maxLon + gridStep, gridStep, dtype=int)
-- 
2.43.0


From 1d1196a83d0174ea288682f8af56dddacda87579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:43:57 +0000
Subject: [PATCH 26/90] fix: place the local wind field by its own size

Margins that are not a multiple of the resolution gave windows one cell
larger than the local grid, and a storm on the edge of a region could be
placed at index -1.
---
 wind/__init__.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/wind/__init__.py b/wind/__init__.py
index 6d6a4ab..602eb3d 100644
--- a/wind/__init__.py
+++ b/wind/__init__.py
@@ -272,26 +272,23 @@ class WindfieldAroundTrack(object):
         for i in tqdm.tqdm(timesInRegion, disable=None):
             log.debug(("Calculating wind field at timestep "
                        "{0} of {1}".format(i, nsteps)))
+            # Calculate the local wind speeds and pressure at time i
+            Ux, Vy, P = self.localWindField(i)
+
             # Map the local grid to the regional grid
-            # Set up max/min over the whole domain
-            jmin, jmax = 0, int((maxLat - minLat + 2. * gridMargin) /
-                                gridStep) + 1
-            imin, imax = 0, int((maxLon - minLon + 2. * gridMargin) /
-                                gridStep) + 1
+            jmin, imin = 0, 0
 
             # If domain is set in gridLimit in config, use only those
             # limits instead
             if self.domain == 'bounded':
 
-                jmin = int((latCDegree[i] - minLat - gridMargin) / gridStep)
-                jmax = int((latCDegree[i] - minLat +
-                            gridMargin) / gridStep) + 1
-                imin = int((lonCDegree[i] - minLon - gridMargin) / gridStep)
-                imax = int((lonCDegree[i] - minLon +
-                            gridMargin) / gridStep) + 1
+                jmin = max(0, int((latCDegree[i] - minLat - gridMargin) /
+                                  gridStep))
+                imin = max(0, int((lonCDegree[i] - minLon - gridMargin) /
+                                  gridStep))
 
-            # Calculate the local wind speeds and pressure at time i
-            Ux, Vy, P = self.localWindField(i)
+            jmax = jmin + P.shape[0]
+            imax = imin + P.shape[1]
 
             # Calculate the local wind gust and bearing
             Ux *= self.gustFactor
-- 
2.43.0


From a01673ac9bac68f603e2388561b898c2ea6a1453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:43:57 +0000
Subject: [PATCH 27/90] fix: keep wind components with the gust when combining
 tracks

The gusts were replaced before the components were compared with them, so
components and bearing always stayed those of the first track.
---
 wind/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/wind/__init__.py b/wind/__init__.py
index 602eb3d..b049aba 100644
--- a/wind/__init__.py
+++ b/wind/__init__.py
@@ -499,9 +499,11 @@ class WindfieldGenerator(object):
 
         for result in results:
             gust1, bearing1, Vx1, Vy1, P1, lon1, lat1 = result
-            gust = np.where(gust1 > gust, gust1, gust)
-            Vx = np.where(gust1 > gust, Vx1, Vx)
-            Vy = np.where(gust1 > gust, Vy1, Vy)
+            mask = gust1 > gust
+            gust = np.where(mask, gust1, gust)
+            bearing = np.where(mask, bearing1, bearing)
+            Vx = np.where(mask, Vx1, Vx)
+            Vy = np.where(mask, Vy1, Vy)
             P = np.where(P1 < P, P1, P)
 
         return (gust, bearing, Vx, Vy, P, lon, lat)
-- 
2.43.0


From 3568a078f588f383cb634de4b3efd7a31fb972a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:48:06 +0000
Subject: [PATCH 28/90] fix: lay out the evolution file on the grid of the wind
 field

When the domain was not a whole number of grid steps the axes were
stretched to fit and layers could fall outside the file.
---
 wind/writer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wind/writer.py b/wind/writer.py
index a2ea33c..eb4d7f7 100644
--- a/wind/writer.py
+++ b/wind/writer.py
@@ -60,7 +60,9 @@ class WriteFoliationCallback(object):
         self.callback = wraps
 
         def series(start, stop, inc=resolution):
-            return np.linspace(start, stop, int(round((stop-start)/inc)) + 1)
+            # whole grid steps, up to or just past the stop
+            steps = int(np.ceil(round((stop - start) / inc, 6)))
+            return np.linspace(start, start + steps * inc, steps + 1)
 
         lat = series(gridLimit['yMin'] - margin, gridLimit['yMax'] + margin)
         lon = series(gridLimit['xMin'] - margin, gridLimit['xMax'] + margin)
-- 
2.43.0


From 5b0c01c085592831a66d5783f8d177b4ded75992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:56:00 +0000
Subject: [PATCH 29/90] fix: keep the sign of the vorticity in the compiled
 wind models

Fortran's sign() takes the magnitude of its first argument, so
anticyclonic vorticity in the outer vortex changed sign, unlike in the
Python version.
---
 wind/windmodels.f90 | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wind/windmodels.f90 b/wind/windmodels.f90
index a471243..380de90 100644
--- a/wind/windmodels.f90
+++ b/wind/windmodels.f90
@@ -74,8 +74,8 @@ subroutine fkerpert(R, lam, f, rMax, Vm, thetaFm, vFm, d2Vm, dVm, dP, beta, rho,
             (sqrt(beta * dP * delta * edelta / &
                      rho + (R(i) * f / 2)**2)) / R(i)
       end if
-      V = sign(V, f)
-      Z = sign(Z, f)
+      V = sign(b, f) * V
+      Z = sign(b, f) * Z
 
       if (R(i) > 2 * rMax) then
          Vt  = Umod * exp(-((R(i) / (2.*rMax)) - 1.) ** 2.)
@@ -163,7 +163,7 @@ subroutine fhollandvel(V, R, d2Vm, dVm, rMax, vMax, beta, dP, rho, f, n)
          V(i) = sqrt((dP * beta / rho) * delta * edelta + (R(i) * f / 2.) ** 2) - R(i) * abs(f) / 2.
       end if
 
-      V(i) = sign(V(i), f)
+      V(i) = sign(1.d0, f) * V(i)
 
    end do
    !$OMP END PARALLEL DO
@@ -202,7 +202,7 @@ subroutine fhollandvort(Z, R, d2Vm, dVm, rMax, vMax, beta, dP, rho, f, n)
                      rho + (R(i) * f / 2)**2)) / R(i)
       end if
 
-      Z(i) = sign(Z(i), f)
+      Z(i) = sign(1.d0, f) * Z(i)
    end do
    !$OMP END PARALLEL DO
 
-- 
2.43.0


From e5e764f7be948bcc34f576066b2519bfbfdd2e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:13 +0000
Subject: [PATCH 30/90] fix: treat a storm on the equator alike with and
 without extensions

The Python version had no wind (and no defined boundary layer) at
latitude zero, where the compiled one is cyclonic in the northern
sense.
---
 wind/windmodels.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/wind/windmodels.py b/wind/windmodels.py
index c275928..97b6239 100644
--- a/wind/windmodels.py
+++ b/wind/windmodels.py
@@ -403,7 +403,7 @@ class HollandWindProfile(WindProfileModel):
 
             icore = np.where(R <= self.rMax)
             V[icore] = (R[icore] * (R[icore] * (R[icore] * aa + bb) + cc))
-            V = np.sign(self.f) * V
+            V = np.copysign(1., self.f) * V
         return V
 
     def vorticity(self, R):
@@ -452,7 +452,7 @@ class HollandWindProfile(WindProfileModel):
 
             icore = np.where(R <= self.rMax)
             Z[icore] = R[icore] * (R[icore] * 4 * aa + 3 * bb) + 2 * cc
-            Z = np.sign(self.f) * Z
+            Z = np.copysign(1., self.f) * Z
 
         return Z
 
@@ -1100,6 +1100,7 @@ class KepertWindField(WindFieldModel):
 
         V = self.velocity(R)
         Z = self.vorticity(R)
+        sgn = np.copysign(1., self.f)
         if (vFm > 0) and (Vm/vFm < 5.):
             Umod = vFm * np.abs(1.25*(1. - (vFm/Vm)))
         else:
@@ -1125,7 +1126,7 @@ class KepertWindField(WindFieldModel):
         A0 = -(chi * (1 + i * (1 + chi)) * V) / (2 * chi**2 + 3 * chi + 2)
 
         # Symmetric surface wind component
-        u0s = A0.real * albe * np.sign(self.f)
+        u0s = A0.real * albe * sgn
         v0s = A0.imag
 
         Am = -(psi * (1 + 2 * albe + (1 + i) * (1 + albe) * eta) * Vt) / \
@@ -1136,8 +1137,8 @@ class KepertWindField(WindFieldModel):
         Am[ind] = AmIII[ind]
 
         # First asymmetric surface component
-        ums = (Am * np.exp(-i * (lam - thetaFm) * np.sign(self.f))).real * albe
-        vms = (Am * np.exp(-i * (lam - thetaFm) * np.sign(self.f))).imag * np.sign(self.f)
+        ums = (Am * np.exp(-i * (lam - thetaFm) * sgn)).real * albe
+        vms = (Am * np.exp(-i * (lam - thetaFm) * sgn)).imag * sgn
 
         Ap = -(eta * (1 - 2 * albe + (1 + i) * (1 - albe) * psi) * Vt) / \
               (albe * ((2 + 2 * i) * (1 + eta * psi) + 3 * eta + 3 * i * psi))
@@ -1147,8 +1148,8 @@ class KepertWindField(WindFieldModel):
         Ap[ind] = ApIII[ind]
 
         # Second asymmetric surface component
-        ups = (Ap * np.exp(i * (lam - thetaFm) * np.sign(self.f))).real * albe
-        vps = (Ap * np.exp(i * (lam - thetaFm) * np.sign(self.f))).imag * np.sign(self.f)
+        ups = (Ap * np.exp(i * (lam - thetaFm) * sgn)).real * albe
+        vps = (Ap * np.exp(i * (lam - thetaFm) * sgn)).imag * sgn
 
         # Total surface wind in (moving coordinate system)
         us = u0s + ups + ums
-- 
2.43.0


From 4d9e16ef88319ef56f94a38253e2c26d9277eee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:45 +0000
Subject: [PATCH 31/90] fix: use Akima's mean slope at corners in both
 interpolation versions

Where the slopes on both sides are constant the Python version took the
left slope instead of the mean, and the compiled one compared with an
absolute limit that depends on the units of the data.
---
 Utilities/akima.c  | 15 +++++++++++++--
 Utilities/akima.py |  2 +-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/Utilities/akima.c b/Utilities/akima.c
index 0df9dbd..61e1f02 100755
--- a/Utilities/akima.c
+++ b/Utilities/akima.c
@@ -61,6 +61,7 @@ setup(name='_akima', ext_modules=[Extension('_akima', ['akima.c'],
 #define WIN32_LEAN_AND_MEAN
 
 #include "Python.h"
+#include <math.h>
 #include "arrayobject.h"
 
 
@@ -83,7 +84,7 @@ int interpolate(
     double x0, x1, x2, x3;       /* extrapolated x values */
     double y0, y1, y2, y3;       /* extrapolated y values */
     double t0, t1, t2, t3;       /* temporary values */
-    double d0, d1;
+    double d0, d1, dmax;
     double g0, g1;               /* gradients at extrapolated values */
     double *p0, *p1, *p2, *p3;   /* buffer pointers. p3 holds slopes */
     char *pxi, *pyi, *pxo, *pyo; /* data pointers */
@@ -139,6 +140,16 @@ int interpolate(
     y3 = (2.0*p3[si-1] - p3[si-2]) * (x3 - x2) + y2;
     p3[si] = (y3 - y2) / (x3 - x2);
 
+    /* largest change of slope, the scale for equal slopes */
+    dmax = 0.0;
+    for (i = 0; i < si; i++) {
+        t0 = (i > 1) ? p3[i-2] : (i ? g1 : g0);
+        t1 = (i > 0) ? p3[i-1] : g1;
+        d0 = fabs(p3[i+1] - p3[i]) + fabs(t1 - t0);
+        if (d0 > dmax)
+            dmax = d0;
+    }
+
     /* slopes */
     t1 = g0;
     t2 = g1;
@@ -155,7 +166,7 @@ int interpolate(
         d1 = t1 - t0;
         if (d1 < 0.0)
             d1 *= -1.0;
-        if ((d0 + d1) < 1e-9) {
+        if ((d0 + d1) <= 1e-9 * dmax) {
             *p3++ = 0.5 * (t1 + t2);
         } else {
             *p3++ = (d0*t1 + d1*t2) / (d0 + d1);
diff --git a/Utilities/akima.py b/Utilities/akima.py
index fee063e..ed88e0d 100755
--- a/Utilities/akima.py
+++ b/Utilities/akima.py
@@ -159,7 +159,7 @@ def interpolate(x, y, x_new, axis=-1, out=None):
     f12 = f1 + f2
 
     ids = numpy.nonzero(f12 > 1e-9 * numpy.max(f12))[0]
-    b = m1[1:n + 1]
+    b = 0.5 * (m1[1:n + 1] + m1[2:n + 2])
 
     b[ids] = (f1[ids] * m1[ids + 1] + f2[ids] * m1[ids + 2]) / f12[ids]
     c = (3.0 * m - 2.0 * b[0:n - 1] - b[1:n]) / dx
-- 
2.43.0


From ad46e4fbe7f98777e67f718a24975e0024b851f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:58:17 +0000
Subject: [PATCH 32/90] fix: fill wind profiles for grids in any memory layout

With the extensions, results for arrays not in C order were left
unset.
---
 wind/windmodels.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wind/windmodels.py b/wind/windmodels.py
index 97b6239..8770d68 100644
--- a/wind/windmodels.py
+++ b/wind/windmodels.py
@@ -383,7 +383,7 @@ class HollandWindProfile(WindProfileModel):
 
         try:
             from ._windmodels import fhollandvel
-            V = np.empty_like(R)
+            V = np.empty(R.shape)
             fhollandvel(
                 V.ravel(), R.ravel(), d2Vm, dVm, self.rMax,
                 self.vMax, self.beta, self.dP, self.rho, self.f, V.size
@@ -425,7 +425,7 @@ class HollandWindProfile(WindProfileModel):
 
         try:
             from ._windmodels import fhollandvort
-            Z = np.empty_like(R)
+            Z = np.empty(R.shape)
             fhollandvort(
                 Z.ravel(), R.ravel(), d2Vm, dVm, self.rMax, self.vMax,
                 self.beta, self.dP, self.rho, self.f, Z.size
@@ -1087,7 +1087,7 @@ class KepertWindField(WindFieldModel):
                 from ._windmodels import fkerpert
 
                 d2Vm, dVm = self.profile.secondDerivative(), self.profile.firstDerivative()
-                Ux, Vy = np.empty_like(R), np.empty_like(R)
+                Ux, Vy = np.empty(R.shape), np.empty(R.shape)
                 n = Ux.size
                 fkerpert(
                     R.ravel(), lam.ravel(), self.f, self.rMax, Vm, thetaFm,
-- 
2.43.0


From f0929deecef527d91fe828beecdaa084c26da872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:02:05 +0000
Subject: [PATCH 33/90] fix: interpolate tracks that come without wind speeds

Tracks read from netCDF files have no wind speed column, and could not
be interpolated.
---
 Evaluate/interpolateTracks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Evaluate/interpolateTracks.py b/Evaluate/interpolateTracks.py
index afbae57..778c37b 100644
--- a/Evaluate/interpolateTracks.py
+++ b/Evaluate/interpolateTracks.py
@@ -67,7 +67,7 @@ def interpolate(track, delta, interpolation_type=None):
     handles numpy.ma masked arrays.
     """
     LOG.debug("Performing interpolation of TC track")
-    if not hasattr(track, 'Datetime'):
+    if not track.has_key('Datetime'):
         day_ = [datetime(*x) for x in zip(track.Year, track.Month,
                                           track.Day, track.Hour,
                                           track.Minute)]
@@ -99,7 +99,7 @@ def interpolate(track, delta, interpolation_type=None):
     newdates = num2date(_newtime) 
     newdates = np.array([n.replace(tzinfo=None) for n in newdates])
 
-    if not hasattr(track, 'Speed'):
+    if not track.has_key('WindSpeed'):
         idx = np.zeros(len(track.data))
         idx[0] = 1
         # TODO: Possibly could change `np.mean(dt)` to `dt`?
-- 
2.43.0


From 8bea096059532cc98db2a4a9a8e5ed1b14c0a794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:02:05 +0000
Subject: [PATCH 34/90] fix: interpolate pressures between valid observations
 only

Missing pressures (zeros) were taken as observations, so made up lower
pressures around them, and the last observation was replaced by the
value before it.
---
 Evaluate/interpolateTracks.py | 75 ++++++++++-------------------------
 1 file changed, 20 insertions(+), 55 deletions(-)

diff --git a/Evaluate/interpolateTracks.py b/Evaluate/interpolateTracks.py
index 778c37b..eef3df3 100644
--- a/Evaluate/interpolateTracks.py
+++ b/Evaluate/interpolateTracks.py
@@ -107,34 +107,35 @@ def interpolate(track, delta, interpolation_type=None):
                                        track.Latitude, track.CentralPressure,
                                        track.EnvPressure)
     # Find the indices of valid pressure observations:
-    validIdx = np.where(track.CentralPressure < sys.maxsize)[0]
+    validIdx = np.where((track.CentralPressure > 0) &
+                        (track.CentralPressure < sys.maxsize))[0]
 
     # FIXME: Need to address the issue when the time between obs is less
     # than delta (e.g. only two obs 5 hrs apart, but delta = 6 hrs).
 
+    npCentre = np.zeros(len(newtime))
+    nwSpd = np.zeros(len(newtime))
+    if len(validIdx) >= 2:
+        # Only between valid observations, anything else would require
+        # extrapolation:
+        inside = np.where((newtime >= timestep[validIdx[0]] - 1e-6) &
+                          (newtime <= timestep[validIdx[-1]] + 1e-6))[0]
+        npCentre[inside] = np.interp(newtime[inside], timestep[validIdx],
+                                     track.CentralPressure[validIdx])
+        nwSpd[inside] = np.interp(newtime[inside], timestep[validIdx],
+                                  track.WindSpeed[validIdx])
+
+    elif len(validIdx) == 1:
+        # If one valid observation, assume no change and
+        # apply value to all times
+        npCentre[:] = track.CentralPressure[validIdx]
+        nwSpd[:] = track.WindSpeed[validIdx]
+
     if len(track.data) <= 3:
         # Use linear interpolation only (only a start and end point given):
         nLon = interp1d(timestep, track.Longitude, kind='linear')(newtime)
         nLat = interp1d(timestep, track.Latitude, kind='linear')(newtime)
 
-        if len(validIdx) >= 2:
-            npCentre = interp1d(timestep,
-                                track.CentralPressure,
-                                kind='linear')(newtime)
-            nwSpd = interp1d(timestep,
-                             track.WindSpeed,
-                             kind='linear')(newtime)
-
-        elif len(validIdx) == 1:
-            # If one valid observation, assume no change and
-            # apply value to all times
-            npCentre = np.ones(len(newtime)) * track.CentralPressure[validIdx]
-            nwSpd = np.ones(len(newtime)) * track.WindSpeed[validIdx]
-
-        else:
-            npCentre = np.zeros(len(newtime))
-            nwSpd = np.zeros(len(newtime))
-
         npEnv = interp1d(timestep, track.EnvPressure, kind='linear')(newtime)
         nrMax = interp1d(timestep, track.rMax, kind='linear')(newtime)
 
@@ -161,42 +162,6 @@ def interpolate(track, delta, interpolation_type=None):
             nLon = splev(newtime, splrep(timestep, track.Longitude, s=0), der=0)
             nLat = splev(newtime, splrep(timestep, track.Latitude, s=0), der=0)
 
-        if len(validIdx) >= 2:
-            # No valid data at the final new time,
-            # would require extrapolation:
-            firsttime = np.where(newtime >= timestep[validIdx[0]])[0][0]
-            lasttime = np.where(newtime <= timestep[validIdx[-1]])[0][-1]
-
-            if firsttime == lasttime:
-                # only one valid observation:
-                npCentre = np.zeros(len(newtime))
-                nwSpd = np.zeros(len(newtime))
-                npCentre[firsttime] = track.CentralPressure[validIdx[0]]
-                nwSpd[firsttime] = track.WindSpeed[validIdx[0]]
-
-            else:
-                npCentre = np.zeros(len(newtime))
-                nwSpd = np.zeros(len(newtime))
-                _npCentre = interp1d(timestep[validIdx],
-                                     track.CentralPressure[validIdx],
-                                     kind='linear')(newtime[firsttime:lasttime])
-
-                _nwSpd = interp1d(timestep[validIdx],
-                                  track.WindSpeed[validIdx],
-                                  kind='linear')(newtime[firsttime:lasttime])
-
-                npCentre[firsttime:lasttime] = _npCentre
-                nwSpd[firsttime:lasttime] = _nwSpd
-                npCentre[lasttime] = _npCentre[-1]
-                nwSpd[lasttime] = _nwSpd[-1]
-
-        elif len(validIdx) == 1:
-            npCentre = np.ones(len(newtime)) * track.CentralPressure[validIdx]
-            nwSpd = np.ones(len(newtime)) * track.WindSpeed[validIdx]
-        else:
-            npCentre = np.zeros(len(newtime))
-            nwSpd = np.zeros(len(newtime))
-
         npEnv = interp1d(timestep, track.EnvPressure, kind='linear')(newtime)
         nrMax = interp1d(timestep, track.rMax, kind='linear')(newtime)
 
-- 
2.43.0


From fb66c2c1f719df0869bdd3acabbbe77e82d4e072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:02:05 +0000
Subject: [PATCH 35/90] fix: keep both ends of a track shorter than the
 interpolation step

The speed over the last step, which ends at the last observation and may
have another length, is now that of the step.
---
 Evaluate/interpolateTracks.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/Evaluate/interpolateTracks.py b/Evaluate/interpolateTracks.py
index eef3df3..d9e7d0a 100644
--- a/Evaluate/interpolateTracks.py
+++ b/Evaluate/interpolateTracks.py
@@ -94,6 +94,9 @@ def interpolate(track, delta, interpolation_type=None):
     timestep = 24.0*(time_ - time_[0])
 
     newtime = np.arange(timestep[0], timestep[-1] + .01, delta)
+    if len(newtime) == 1:
+        # Less than a time step between the first and the last observation
+        newtime = timestep[[0, -1]]
     newtime[-1] = timestep[-1]
     _newtime = (newtime / 24.) + time_[0] + date2num(np.datetime64('0000-12-31'))     #  Before Matplotlib 3.3, the epoch was 0000-12-31, later it changes to 1970-01-01 UTC 
     newdates = num2date(_newtime) 
@@ -110,9 +113,6 @@ def interpolate(track, delta, interpolation_type=None):
     validIdx = np.where((track.CentralPressure > 0) &
                         (track.CentralPressure < sys.maxsize))[0]
 
-    # FIXME: Need to address the issue when the time between obs is less
-    # than delta (e.g. only two obs 5 hrs apart, but delta = 6 hrs).
-
     npCentre = np.zeros(len(newtime))
     nwSpd = np.zeros(len(newtime))
     if len(validIdx) >= 2:
@@ -170,10 +170,9 @@ def interpolate(track, delta, interpolation_type=None):
         nthetaFm = np.zeros(newtime.size, dtype=float)
         nthetaFm[:-1] = bear_
         nthetaFm[-1] = bear_[-1]
-        dist = np.zeros(newtime.size, dtype=float)
-        dist[:-1] = dist_
-        dist[-1] = dist_[-1]
-        nvFm = dist / delta
+        nvFm = np.zeros(newtime.size, dtype=float)
+        nvFm[:-1] = dist_ / np.diff(newtime)
+        nvFm[-1] = nvFm[-2]
 
     else:
         nvFm = track.Speed[-1]
-- 
2.43.0


From 768ea440f787a6e08abe2f6d5d18bef84225448a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:03:52 +0000
Subject: [PATCH 36/90] fix: interpolated dates to the second

Rounding in the dates lost a minute: a record at 04:00 had an hour of 3
and a minute of 59.
---
 Evaluate/interpolateTracks.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Evaluate/interpolateTracks.py b/Evaluate/interpolateTracks.py
index d9e7d0a..e280789 100644
--- a/Evaluate/interpolateTracks.py
+++ b/Evaluate/interpolateTracks.py
@@ -3,7 +3,6 @@ import logging
 import numpy as np
 
 from datetime import datetime, timedelta
-from matplotlib.dates import num2date, date2num 
 from scipy.interpolate import interp1d, splev, splrep
 
 from Utilities.maputils import latLon2Azi
@@ -98,9 +97,10 @@ def interpolate(track, delta, interpolation_type=None):
         # Less than a time step between the first and the last observation
         newtime = timestep[[0, -1]]
     newtime[-1] = timestep[-1]
-    _newtime = (newtime / 24.) + time_[0] + date2num(np.datetime64('0000-12-31'))     #  Before Matplotlib 3.3, the epoch was 0000-12-31, later it changes to 1970-01-01 UTC 
-    newdates = num2date(_newtime) 
-    newdates = np.array([n.replace(tzinfo=None) for n in newdates])
+    start = (datetime.fromordinal(int(time_[0])) +
+             timedelta(seconds=round(86400. * (time_[0] % 1))))
+    newdates = np.array([start + timedelta(seconds=round(3600. * t))
+                         for t in newtime])
 
     if not track.has_key('WindSpeed'):
         idx = np.zeros(len(track.data))
-- 
2.43.0


From b8081d44ade9aaa2296eb597da840266ce9024e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:06:13 +0000
Subject: [PATCH 37/90] fix: save tracks with different records to one file

Single record tracks are not interpolated, so keep their own columns;
a file could not hold these along with interpolated tracks.
---
 Utilities/track.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/Utilities/track.py b/Utilities/track.py
index 424678f..62f9b70 100644
--- a/Utilities/track.py
+++ b/Utilities/track.py
@@ -308,16 +308,15 @@ def ncSaveTracks(trackfile, tracks,
 
     tgroup = ncobj.createGroup('tracks')
 
-    # Fidget with the dtype to convert :class:`datetime` objects to floats:
-    track_dtype = np.dtype(tracks[0].data.dtype)
-    dtidx = track_dtype.names.index('Datetime')
-    track_dtype = track_dtype.descr
-    track_dtype[dtidx] = ('Datetime', 'f8')
-    track_dtype = np.dtype(track_dtype)
-
     for n, t in enumerate(tracks):
         if len(t.data) == 0: # Empty track
             continue
+        # Fidget with the dtype to convert :class:`datetime` objects to floats:
+        track_dtype = np.dtype(t.data.dtype)
+        dtidx = track_dtype.names.index('Datetime')
+        track_dtype = track_dtype.descr
+        track_dtype[dtidx] = ('Datetime', 'f8')
+        track_dtype = np.dtype(track_dtype)
         tname = "tracks-{:04d}".format(n)
         tdata = tgroup.createGroup(tname)
         tdtype = tdata.createCompoundType(track_dtype, 'track_dtype')
-- 
2.43.0


From 6060462b8ef440740c4abcd9f3f13756ca8c972d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:13:46 +0000
Subject: [PATCH 38/90] fix: read input with separate year, month, day and hour
 columns

Record arrays raise ValueError, not KeyError, for a column they do not
have, so a file without a date column could not be read.
---
 Utilities/loadData.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Utilities/loadData.py b/Utilities/loadData.py
index badf3a7..d7c22ba 100644
--- a/Utilities/loadData.py
+++ b/Utilities/loadData.py
@@ -430,8 +430,8 @@ def parseDates(data, indicator, datefmt='%Y-%m-%d %H:%M:%S'):
 
     """
     try:
-        year, month, day, hour, minute, datetimes = date2ymdh(data['date'], datefmt)
-    except (KeyError):
+        dates = data['date']
+    except (ValueError, KeyError):
         # Sort out date/time information:
         month = np.array(data['month'], 'i')
         day = np.array(data['day'], 'i')
@@ -462,6 +462,8 @@ def parseDates(data, indicator, datefmt='%Y-%m-%d %H:%M:%S'):
 
         datetimes = np.array([datetime(y, m, d, h, mn) for y, m, d, h, mn
                               in zip(year, month, day, hour, minute)])
+    else:
+        year, month, day, hour, minute, datetimes = date2ymdh(dates, datefmt)
 
     return year, month, day, hour, minute, datetimes
 
-- 
2.43.0


From a906c46df446f94b025b192b13e138ec25501743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:13:46 +0000
Subject: [PATCH 39/90] fix: use the date format of the source when processing
 input data

---
 DataProcess/DataProcess.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/DataProcess/DataProcess.py b/DataProcess/DataProcess.py
index 9693a98..fea8a1a 100644
--- a/DataProcess/DataProcess.py
+++ b/DataProcess/DataProcess.py
@@ -198,6 +198,9 @@ class DataProcess(object):
         inputPressureUnits = config.get(self.source, 'PressureUnits')
         inputLengthUnits = config.get(self.source, 'LengthUnits')
         startSeason = config.getint('DataProcess', 'StartSeason')
+        inputDateFormat = '%Y-%m-%d %H:%M:%S'
+        if config.has_option(self.source, 'DateFormat'):
+            inputDateFormat = config.get(self.source, 'DateFormat')
 
         indicator = loadData.getInitialPositions(inputData)
         lat = np.array(inputData['lat'], 'float32')
@@ -237,7 +240,7 @@ class DataProcess(object):
                 pass
 
             year, month, day, hour, minute, datetimes \
-                = loadData.parseDates(inputData, indicator)
+                = loadData.parseDates(inputData, indicator, inputDateFormat)
 
             # Time between observations:
             dt = loadData.getTimeDelta(year, month, day, hour, minute)
-- 
2.43.0


From 374ba1dc6a9e010ddcb907e5890e95a245c4a9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:13:46 +0000
Subject: [PATCH 40/90] fix: process input data with an age column

Years and days of the year were not set, so processing failed.
---
 DataProcess/DataProcess.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DataProcess/DataProcess.py b/DataProcess/DataProcess.py
index fea8a1a..46b61fb 100644
--- a/DataProcess/DataProcess.py
+++ b/DataProcess/DataProcess.py
@@ -224,6 +224,9 @@ class DataProcess(object):
         try:
             dt = np.empty(indicator.size, 'f')
             dt[1:] = np.diff(inputData['age'])
+            year, month, day, hour, minute, datetimes \
+                = loadData.parseAge(inputData, indicator)
+            jdays = loadData.julianDays(year, month, day, hour, minute)
         except (ValueError, KeyError):
 
             try:
-- 
2.43.0


From e44db3584a938c6c334baa03edda6c4585b12634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:13:46 +0000
Subject: [PATCH 41/90] fix: split tracks at jumps in any direction

Only jumps to the east and north started a new track, and a track that
passed longitude zero to the west was split.
---
 DataProcess/DataProcess.py | 4 ++--
 Utilities/loadData.py      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/DataProcess/DataProcess.py b/DataProcess/DataProcess.py
index 46b61fb..b78ad10 100644
--- a/DataProcess/DataProcess.py
+++ b/DataProcess/DataProcess.py
@@ -251,8 +251,8 @@ class DataProcess(object):
             # Calculate julian days:
             jdays = loadData.julianDays(year, month, day, hour, minute)
 
-        delta_lon = np.diff(lon)
-        delta_lat = np.diff(lat)
+        delta_lon = np.abs(np.mod(np.diff(lon) + 180., 360.) - 180.)
+        delta_lat = np.abs(np.diff(lat))
 
         # Split into separate tracks if large jump occurs (delta_lon >
         # 15 degrees or delta_lat > 5 degrees) This avoids two tracks
diff --git a/Utilities/loadData.py b/Utilities/loadData.py
index d7c22ba..0964345 100644
--- a/Utilities/loadData.py
+++ b/Utilities/loadData.py
@@ -866,8 +866,8 @@ def loadTrackFile(configFile, trackFile, source, missingValue=0,
 
     lat = np.array(inputData['lat'], 'd')
     lon = np.mod(np.array(inputData['lon'], 'd'), 360)
-    delta_lon = np.diff(lon)
-    delta_lat = np.diff(lat)
+    delta_lon = np.abs(np.mod(np.diff(lon) + 180., 360.) - 180.)
+    delta_lat = np.abs(np.diff(lat))
 
     # Split into separate tracks if large jump occurs (delta_lon > 10 degrees
     # or delta_lat > 5 degrees)
-- 
2.43.0


From 1403c7d15704218052fe4f5c696d101ea8d71c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:13:46 +0000
Subject: [PATCH 42/90] fix: start the age of a split track at zero

---
 Utilities/loadData.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/Utilities/loadData.py b/Utilities/loadData.py
index 0964345..08050ca 100644
--- a/Utilities/loadData.py
+++ b/Utilities/loadData.py
@@ -846,6 +846,19 @@ def loadTrackFile(configFile, trackFile, source, missingValue=0,
     # Determine the initial TC positions...
     indicator = getInitialPositions(inputData)
 
+    lat = np.array(inputData['lat'], 'd')
+    lon = np.mod(np.array(inputData['lon'], 'd'), 360)
+    delta_lon = np.abs(np.mod(np.diff(lon) + 180., 360.) - 180.)
+    delta_lat = np.abs(np.diff(lat))
+
+    # Split into separate tracks if large jump occurs (delta_lon > 10 degrees
+    # or delta_lat > 5 degrees)
+    # This avoids two tracks being accidentally combined when seasons and track
+    # numbers match but basins are different as occurs in the IBTrACS dataset.
+    # This problem can also be prevented if the 'tcserialno' column is
+    # specified.
+    indicator[np.where(delta_lon > 10)[0] + 1] = 1
+    indicator[np.where(delta_lat > 5)[0] + 1] = 1
 
     # Sort date/time information
     if 'age' in inputData.dtype.names:
@@ -864,20 +877,6 @@ def loadTrackFile(configFile, trackFile, source, missingValue=0,
     # Calculate julian days
     jdays = julianDays(year, month, day, hour, minute)
 
-    lat = np.array(inputData['lat'], 'd')
-    lon = np.mod(np.array(inputData['lon'], 'd'), 360)
-    delta_lon = np.abs(np.mod(np.diff(lon) + 180., 360.) - 180.)
-    delta_lat = np.abs(np.diff(lat))
-
-    # Split into separate tracks if large jump occurs (delta_lon > 10 degrees
-    # or delta_lat > 5 degrees)
-    # This avoids two tracks being accidentally combined when seasons and track
-    # numbers match but basins are different as occurs in the IBTrACS dataset.
-    # This problem can also be prevented if the 'tcserialno' column is
-    # specified.
-    indicator[np.where(delta_lon > 10)[0] + 1] = 1
-    indicator[np.where(delta_lat > 5)[0] + 1] = 1
-
     pressure = filterPressure(np.array(inputData['pressure'], 'd'),
                               inputPressureUnits, missingValue)
     try:
-- 
2.43.0


From 167b47f464edecd547bcffcea8682bf81fd2b1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:13:46 +0000
Subject: [PATCH 43/90] fix: do not round the time between observations to
 whole hours

Speeds and rates of change of storms observed at other intervals were
wrong, or missing for intervals up to half an hour.
---
 Utilities/loadData.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utilities/loadData.py b/Utilities/loadData.py
index 08050ca..3a4d625 100644
--- a/Utilities/loadData.py
+++ b/Utilities/loadData.py
@@ -521,7 +521,7 @@ def getTimeDelta(year, month, day, hour, minute):
     """
     dates = [datetime(*x) for x in zip(year, month, day, hour, minute)]
     diffs = [d1 - d0 for d0, d1 in zip(dates[:-1], dates[1:])]
-    return np.array([0.0] + [round(d.days * 24. + d.seconds / 3600.)
+    return np.array([0.0] + [d.days * 24. + d.seconds / 3600.
                              for d in diffs], 'f')
 
 def getTimeElapsed(indicator, year, month, day, hour, minute):
-- 
2.43.0


From 569f64b21802656f955b7b378cc79ffa243fa33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:13:46 +0000
Subject: [PATCH 44/90] fix: mark empty pressures and wind speeds as missing

Empty fields were written as nan, and without a wind speed column the
wind speed file held whatever was in memory.
---
 DataProcess/DataProcess.py | 6 +++---
 Utilities/loadData.py      | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/DataProcess/DataProcess.py b/DataProcess/DataProcess.py
index b78ad10..3c7983d 100644
--- a/DataProcess/DataProcess.py
+++ b/DataProcess/DataProcess.py
@@ -283,8 +283,8 @@ class DataProcess(object):
         # Convert any non-physical central pressure values to maximum integer
         # This is required because IBTrACS has a mix of missing value codes
         # (i.e. -999, 0, 9999) in the same global dataset.
-        pressure = np.where((pressure < 600) | (pressure > 1100),
-                            sys.maxsize, pressure)
+        pressure = np.where((pressure >= 600) & (pressure <= 1100),
+                            pressure, sys.maxsize)
 
         if self.progressbar is not None:
             self.progressbar.update(0.25)
@@ -293,7 +293,7 @@ class DataProcess(object):
             vmax = np.array(inputData['vmax'], 'float32')
         except (ValueError, KeyError):
             self.logger.warning("No max wind speed data")
-            vmax = np.empty(indicator.size, 'f')
+            vmax = np.ones(indicator.size, 'f') * sys.maxsize
         else:
             novalue_index = np.where(vmax == sys.maxsize)
             vmax = metutils.convert(vmax, inputSpeedUnits, "mps")
diff --git a/Utilities/loadData.py b/Utilities/loadData.py
index 3a4d625..e4b12a4 100644
--- a/Utilities/loadData.py
+++ b/Utilities/loadData.py
@@ -750,8 +750,8 @@ def filterPressure(pressure, inputPressureUnits='hPa',
     # Convert any non-physical central pressure values to maximum integer
     # This is required because IBTrACS has a mix of missing value codes
     # (i.e. -999, 0, 9999) in the same global dataset.
-    pressure = np.where((pressure < 600) | (pressure > 1100),
-                        missingValue, pressure)
+    pressure = np.where((pressure >= 600) & (pressure <= 1100),
+                        pressure, missingValue)
     return pressure
 
 def getMinPressure(track, missingValue=sys.maxsize):
-- 
2.43.0


From 88f6afe6c0cf7524ca15c9f87e655542d3889e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:15:18 +0000
Subject: [PATCH 45/90] fix: wind profiles of masked arrays are masked arrays

---
 wind/windmodels.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/wind/windmodels.py b/wind/windmodels.py
index 8770d68..0194875 100644
--- a/wind/windmodels.py
+++ b/wind/windmodels.py
@@ -383,7 +383,7 @@ class HollandWindProfile(WindProfileModel):
 
         try:
             from ._windmodels import fhollandvel
-            V = np.empty(R.shape)
+            V = np.empty_like(R, dtype=float, order='C')
             fhollandvel(
                 V.ravel(), R.ravel(), d2Vm, dVm, self.rMax,
                 self.vMax, self.beta, self.dP, self.rho, self.f, V.size
@@ -425,7 +425,7 @@ class HollandWindProfile(WindProfileModel):
 
         try:
             from ._windmodels import fhollandvort
-            Z = np.empty(R.shape)
+            Z = np.empty_like(R, dtype=float, order='C')
             fhollandvort(
                 Z.ravel(), R.ravel(), d2Vm, dVm, self.rMax, self.vMax,
                 self.beta, self.dP, self.rho, self.f, Z.size
@@ -1087,7 +1087,8 @@ class KepertWindField(WindFieldModel):
                 from ._windmodels import fkerpert
 
                 d2Vm, dVm = self.profile.secondDerivative(), self.profile.firstDerivative()
-                Ux, Vy = np.empty(R.shape), np.empty(R.shape)
+                Ux = np.empty_like(R, dtype=float, order='C')
+                Vy = np.empty_like(R, dtype=float, order='C')
                 n = Ux.size
                 fkerpert(
                     R.ravel(), lam.ravel(), self.f, self.rMax, Vm, thetaFm,
-- 
2.43.0


From eaee9e478f453824e6aad8627bac201e25c34d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:17:16 +0000
Subject: [PATCH 46/90] fix: day of year of observations up to 1900

These years were treated as leap years, or not, by different rules, so
days after February were a day off.
---
 DataProcess/DataProcess.py | 3 ++-
 Utilities/loadData.py      | 7 +------
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/DataProcess/DataProcess.py b/DataProcess/DataProcess.py
index 3c7983d..a05c5de 100644
--- a/DataProcess/DataProcess.py
+++ b/DataProcess/DataProcess.py
@@ -19,6 +19,7 @@ import os
 import sys
 import logging
 import numpy as np
+from calendar import isleap
 from os.path import join as pjoin
 
 import Utilities.maputils as maputils
@@ -821,7 +822,7 @@ class DataProcess(object):
         # must be a recommended way of accounting for leap years)
 
         for i in range(len(jdays)):
-            if (years[i] % 4 == 0) and (jdays[i] >= 60):
+            if isleap(years[i]) and (jdays[i] >= 60):
                 jdays[i] -= 1
 
         bins = np.arange(1, 367)
diff --git a/Utilities/loadData.py b/Utilities/loadData.py
index e4b12a4..d40fe2a 100644
--- a/Utilities/loadData.py
+++ b/Utilities/loadData.py
@@ -607,13 +607,8 @@ def julianDays(year, month, day, hour, minute):
         raise ValueError(
             "Error in input minute information - check input file")
 
-    # set all years prior to 1900 to 1904 - strftime() requires year >=1900;
-    # and in the Gregorian calendar, 1900 is not a leap year (and there are
-    # many years prior to 1900 that are!).
     second = np.zeros((hour.size), 'i')
-    jyear = np.copy(year)
-    jyear[np.where(jyear < 1900)] = 1904
-    day = [datetime(jyear[i], month[i], day[i], hour[i], minute[i],
+    day = [datetime(year[i], month[i], day[i], hour[i], minute[i],
                     second[i]) for i in range(year.size)]
 
     jdays = np.array([int(day[i].strftime("%j")) for
-- 
2.43.0


From 472dcbfce4431bbd2f0ce0d8e8239b032e6e88f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:20:40 +0000
Subject: [PATCH 47/90] fix: distance and bearing between points across
 longitude zero

---
 Utilities/maputils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Utilities/maputils.py b/Utilities/maputils.py
index bec9896..861b866 100644
--- a/Utilities/maputils.py
+++ b/Utilities/maputils.py
@@ -165,8 +165,13 @@ def latLon2XY(xr, yr, lat, lon, ieast=1, azimuth=0):
     cosazi = np.cos(angle)
     sinazi = np.sin(angle)
 
+    # The shorter way round for points on either side of longitude zero
+    dlon = np.diff(lon)
+    dlon = np.where(dlon > np.pi, dlon - 2 * np.pi, dlon)
+    dlon = np.where(dlon < -np.pi, dlon + 2 * np.pi, dlon)
+
     xntru = xr + radius * (np.diff(lat))
-    yetru = yr + ieast * radius * (np.diff(lon)) * np.cos(lat[1:])
+    yetru = yr + ieast * radius * dlon * np.cos(lat[1:])
     xn = xntru * cosazi + yetru * sinazi
     ye = -xntru * sinazi + yetru * cosazi
 
-- 
2.43.0


From b62057eb96dd50e2a9b5f55409a248193fa786e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:59 +0000
Subject: [PATCH 48/90] fix: cell numbers across the equator, for small cells
 and partial ones

Cells were numbered by distance from zero, in whole degrees, and with
a different count of columns than their positions when the domain is not
a whole number of cells wide.
---
 Utilities/stats.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/Utilities/stats.py b/Utilities/stats.py
index 67b5cbe..b7ef233 100644
--- a/Utilities/stats.py
+++ b/Utilities/stats.py
@@ -90,17 +90,19 @@ def getCellNum(lon, lat, gridLimit, gridSpace):
     """
     Return the cell number given longitude and latititude
     """
-    lon = int(math.floor(lon))
-    lat = int(math.ceil(lat))
-
     if (lon < gridLimit['xMin'] or lon >= gridLimit['xMax'] or
             lat <= gridLimit['yMin'] or lat > gridLimit['yMax']):
         raise ValueError('Invalid input on cellNum: cell number is out of range')
 
-    j = abs((abs(lon) - abs(gridLimit['xMin']))) // abs(gridSpace['x'])
-    i = abs((abs(lat) - abs(gridLimit['yMax']))) // abs(gridSpace['y'])
+    latCells = np.size(
+        np.arange(gridLimit['yMax'], gridLimit['yMin'], -gridSpace['y']))
+    lonCells = np.size(
+        np.arange(gridLimit['xMin'], gridLimit['xMax'], gridSpace['x']))
+
+    j = min(int((lon - gridLimit['xMin']) // gridSpace['x']), lonCells - 1)
+    i = min(int((gridLimit['yMax'] - lat) // gridSpace['y']), latCells - 1)
 
-    return int(i * abs((gridLimit['xMax'] - gridLimit['xMin']) // gridSpace['x']) + j)
+    return i * lonCells + j
 
 
 def getCellLonLat(cellNum, gridLimit, gridSpace):
-- 
2.43.0


From 21a93204fd7462dcdc40d0664c25e0de98c9ab34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:53:57 +0000
Subject: [PATCH 49/90] fix: default kernel of the distributions is one that
 exists

The default, Gaussian, is not one of the names of the kernels, so that runs
without a kdeType setting failed.
---
 Utilities/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utilities/config.py b/Utilities/config.py
index 800f259..4e21d81 100644
--- a/Utilities/config.py
+++ b/Utilities/config.py
@@ -164,7 +164,7 @@ InputFile=Allstorms.ibtracs_wmo.v03r10.csv
 Source=IBTRACS
 
 [StatInterface]
-kdeType=Gaussian
+kdeType=gau
 kde2DType=Gaussian
 kdeStep=0.2
 minSamplesCell=100
-- 
2.43.0


From ad706b5a68ebfd2c6290c7125fda3e1b78bf1fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:53:57 +0000
Subject: [PATCH 50/90] fix: periodic distributions start at day one for every
 step

For steps that do not divide the period the table started before the first
value and lacked the last one.
---
 StatInterface/KDEParameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/StatInterface/KDEParameters.py b/StatInterface/KDEParameters.py
index 6f339ed..e70d7e7 100644
--- a/StatInterface/KDEParameters.py
+++ b/StatInterface/KDEParameters.py
@@ -153,7 +153,7 @@ class KDEParameters(object):
         self.pdf = self._generatePDF(self.grid, bw, self.parameters)
 
         if periodic:
-            idx = int(periodic/kdeStep)
+            idx = x.size
             self.pdf = 3.0*self.pdf[idx:2*idx]
             self.grid = self.grid[idx:2*idx]
 
-- 
2.43.0


From e85c4607836cd852fddfcdf607c5816ed4bbe8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:54:04 +0000
Subject: [PATCH 51/90] fix: sample an origin when the first longitudes have no
 probability

A uniform deviate of zero selected a longitude without any probability,
and the search for the latitude then ran past the end of the table.
---
 StatInterface/SamplingOrigin.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/StatInterface/SamplingOrigin.py b/StatInterface/SamplingOrigin.py
index eb8e106..53edfb5 100644
--- a/StatInterface/SamplingOrigin.py
+++ b/StatInterface/SamplingOrigin.py
@@ -121,11 +121,18 @@ class SamplingOrigin(object):
         unifX = np.random.rand()
         unifY = np.random.rand()
 
-        xi = np.array(self.cdfX).searchsorted(unifX)
+        xi = self._columnIndex(unifX)
         yj = self.cdfY[xi, :].searchsorted(unifY)
 
         return self.x[xi], self.y[yj]
 
+    def _columnIndex(self, q):
+        """
+        Index of the longitude with the given quantile. A quantile of zero
+        gives the first longitude that has a non-zero probability.
+        """
+        return np.asarray(self.cdfX).searchsorted(max(q, np.finfo(float).tiny))
+
     def ppf(self, q1, q2):
         """
         Percent point function on 2-d grid (inverse of CDF).
@@ -136,7 +143,7 @@ class SamplingOrigin(object):
         :returns: Longitude & latitude of the given quantile values.
 
         """
-        xi = self.cdfX.searchsorted(q1)
+        xi = self._columnIndex(q1)
         yj = self.cdfY[xi, :].searchsorted(q2)
         return self.x[xi], self.y[yj]
 
@@ -186,7 +193,7 @@ class SamplingOrigin(object):
         # For each random variable
         try:
             for i in range(ns):
-                xi = self.cdfX.searchsorted(unifX[i])
+                xi = self._columnIndex(unifX[i])
                 yj = self.cdfY[xi, :].searchsorted(unifY[i])
                 if (i % (ns/100)) == 0 and i != 0:
                     LOG.debug("Processing %ith element"%i)
-- 
2.43.0


From 4fec380b265b56dfe6dafbb9ddbc91d63e98e6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:54:14 +0000
Subject: [PATCH 52/90] fix: densities with kernels of a limited domain

Evaluating all points of the grid at once dropped the observations that are
not within the domain of the kernel for every point of the grid.
---
 StatInterface/KDEParameters.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/StatInterface/KDEParameters.py b/StatInterface/KDEParameters.py
index e70d7e7..1822676 100644
--- a/StatInterface/KDEParameters.py
+++ b/StatInterface/KDEParameters.py
@@ -242,6 +242,12 @@ class KDEParameters(object):
         kde.fit(kernel=self.kdeType, fft=False, 
                 gridsize=len(grid), clip=(min(grid), max(grid)), cut=0)
         
+        # Kernels with a limited domain can only be evaluated for one
+        # point at a time
+        if kde.kernel.domain is not None:
+            return np.nan_to_num(
+                np.array([float(np.squeeze(kde.evaluate(x))) for x in grid]))
+
         try:
             pdf = np.squeeze(kde.evaluate(grid))
             if pdf.ndim == 0 or pdf.size != len(grid):
-- 
2.43.0


From 5e81b6f4a4324728df423a2a288942a3eb20cda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:58:26 +0000
Subject: [PATCH 53/90] fix: recurrence interval of the highest of the
 simulated wind speeds

The number of observations was not a whole number for numbers of simulations
that are not a multiple of four. The highest wind speed was then given two
thirds of its recurrence interval or less, and the empirical levels failed for
intervals up to the simulated number of years.
---
 hazard/evd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazard/evd.py b/hazard/evd.py
index a9fefaa..94ad35f 100644
--- a/hazard/evd.py
+++ b/hazard/evd.py
@@ -369,7 +369,7 @@ def powerfit(data, intervals, numsim, nodata=-9999., minrecords=50):
     w = nodata * np.ones(len(intervals)) # Create empty return period array
     
     npyr = 365.25
-    nobs = npyr * numsim
+    nobs = int(npyr * numsim)
     
     wspd = np.zeros(int(nobs))
     wspd[-len(data):] = np.sort(data)
@@ -423,7 +423,7 @@ def empfit(data, intervals, numsim, nodata=-9999., minrecords=50):
     w = nodata * np.ones(len(intervals)) # Create empty return period array
     
     npyr = 365.25
-    nobs = npyr * numsim
+    nobs = int(npyr * numsim)
     
     wspd = np.zeros(int(nobs))
     wspd[-len(data):] = np.sort(data)
-- 
2.43.0


From 1e15120cf13b6fc91ac49ad107cd3d73eb67b45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:58:59 +0000
Subject: [PATCH 54/90] fix: leave samples without a fit out of the confidence
 limits

The missing value of the samples that could not be fitted was averaged with
the return levels of the others, giving limits of thousands of m/s below zero.
---
 hazard/__init__.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hazard/__init__.py b/hazard/__init__.py
index de1ee4f..b7ef8db 100644
--- a/hazard/__init__.py
+++ b/hazard/__init__.py
@@ -852,9 +852,15 @@ def calculateCI(Vr, years, nodata, minRecords, yrsPerSim=1,
                                                               minRecords/10, yrsPerSim)
 
                 # Pull out the upper and lower percentiles from the random sample fits
+                # (leaving out the samples that could not be fitted)
                 for n in range(len(years)):
-                    wUpper[n] = percentile(w[n,:], upper)
-                    wLower[n] = percentile(w[n,:], lower)
+                    valid = w[n, w[n, :] != nodata]
+                    if valid.size > 0:
+                        wUpper[n] = percentile(valid, upper)
+                        wLower[n] = percentile(valid, lower)
+                    else:
+                        wUpper[n] = nodata
+                        wLower[n] = nodata
 
                 # Store upper and lower percentiles for each return period, for each grid cell
                 RpUpper[:, i, j] = wUpper
-- 
2.43.0


From 4fa99106d9f852a840f069fc581698a23edc05fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:13:18 +0000
Subject: [PATCH 55/90] fix: evaluations run by several processes

The evaluations sent track file names and results with the buffer calls of
MPI, which only take arrays, and handed out more track files than there are
when the number of workers exceeds the number of files.
---
 Evaluate/genesisDensity.py       | 27 ++++++++++++++++-----------
 Evaluate/landfallRates.py        | 29 +++++++++++++++++------------
 Evaluate/longitudeCrossing.py    | 27 ++++++++++++++++-----------
 Evaluate/pressureDistribution.py | 27 ++++++++++++++++-----------
 Evaluate/trackDensity.py         | 29 +++++++++++++++++------------
 5 files changed, 82 insertions(+), 57 deletions(-)

diff --git a/Evaluate/genesisDensity.py b/Evaluate/genesisDensity.py
index 25ec56d..c82c7a4 100755
--- a/Evaluate/genesisDensity.py
+++ b/Evaluate/genesisDensity.py
@@ -265,41 +265,46 @@ class GenesisDensity(object):
         if (comm.rank == 0) and (comm.size > 1):
             w = 0
             n = 0
+            terminated = 0
             for d in range(1, comm.size):
-                comm.Send(trackfiles[w], dest=d, tag=work_tag)
-                log.debug("Processing track file {0:d} of {1:d}".\
-                          format(w, len(trackfiles)))
-                w += 1
+                if w < len(trackfiles):
+                    comm.send(trackfiles[w], dest=d, tag=work_tag)
+                    log.debug("Processing track file {0:d} of {1:d}".\
+                              format(w, len(trackfiles)))
+                    w += 1
+                else:
+                    comm.send(None, dest=d, tag=work_tag)
+                    terminated += 1
 
-            terminated = 0
+            status = MPI.Status()
             while terminated < comm.size - 1:
-                results, status = comm.Recv(MPI.ANY_SOURCE, tag=result_tag,
-                                             status=True)
+                results = comm.recv(source=MPI.ANY_SOURCE, tag=result_tag,
+                                    status=status)
                 self.synHist[n, :, :] = results
                 n += 1
 
                 d = status.source
                 if w < len(trackfiles):
-                    comm.Send(trackfiles[w], dest=d, tag=work_tag)
+                    comm.send(trackfiles[w], dest=d, tag=work_tag)
                     log.debug("Processing track file {0:d} of {1:d}".\
                               format(w, len(trackfiles)))
                     w += 1
                 else:
-                    comm.Send(None, dest=d, tag=work_tag)
+                    comm.send(None, dest=d, tag=work_tag)
                     terminated += 1
 
             self.calculateMeans()
 
         elif (comm.size > 1) and (comm.rank != 0):
             while True:
-                trackfile = comm.Recv(source=0, tag=work_tag)
+                trackfile = comm.recv(source=0, tag=work_tag)
                 if trackfile is None:
                     break
 
                 log.debug("Processing {0}".format(trackfile))
                 tracks = loadTracks(trackfile)
                 results = self._calculate(tracks) #/ self.synNumYears
-                comm.Send(results, dest=0, tag=result_tag)
+                comm.send(results, dest=0, tag=result_tag)
 
         elif (comm.size == 1) and (comm.rank == 0):
             for n, trackfile in enumerate(trackfiles):
diff --git a/Evaluate/landfallRates.py b/Evaluate/landfallRates.py
index 2d41ef9..7ae8e07 100644
--- a/Evaluate/landfallRates.py
+++ b/Evaluate/landfallRates.py
@@ -212,16 +212,21 @@ class LandfallRates(object):
 
             w = 0
             n = 0
+            terminated = 0
             for d in range(1, comm.size):
-                comm.Send(trackfiles[w], dest=d, tag=work_tag)
-                LOG.debug("Processing track file {0:d} of {1:d}".\
-                          format(w + 1, len(trackfiles)))
-                w += 1
+                if w < len(trackfiles):
+                    comm.send(trackfiles[w], dest=d, tag=work_tag)
+                    LOG.debug("Processing track file {0:d} of {1:d}".\
+                              format(w + 1, len(trackfiles)))
+                    w += 1
+                else:
+                    comm.send(None, dest=d, tag=work_tag)
+                    terminated += 1
 
-            terminated = 0
-            while terminated < comm.size() - 1:
-                results, status = comm.Recv(MPI.ANY_SOURCE, tag=result_tag,
-                                             status=True)
+            status = MPI.Status()
+            while terminated < comm.size - 1:
+                results = comm.recv(source=MPI.ANY_SOURCE, tag=result_tag,
+                                    status=status)
 
                 self.processResults(results, n)
                 n += 1
@@ -229,26 +234,26 @@ class LandfallRates(object):
                 d = status.source
 
                 if w < len(trackfiles):
-                    comm.Send(trackfiles[w], dest=d, tag=work_tag)
+                    comm.send(trackfiles[w], dest=d, tag=work_tag)
                     LOG.debug("Processing track file {0:d} of {1:d}".\
                               format(w + 1, len(trackfiles)))
                     w += 1
                 else:
-                    comm.Send(None, dest=d, tag=work_tag)
+                    comm.send(None, dest=d, tag=work_tag)
                     terminated += 1
 
             self.calculateStats()
 
         elif (comm.size > 1) and (comm.rank != 0):
             while True:
-                trackfile = comm.Recv(source=0, tag=work_tag)
+                trackfile = comm.recv(source=0, tag=work_tag)
                 if trackfile is None:
                     break
 
                 LOG.debug("Processing %s", trackfile)
                 tracks = loadTracks(trackfile)
                 results = self.processTracks(tracks)
-                comm.Send(results, dest=0, tag=result_tag)
+                comm.send(results, dest=0, tag=result_tag)
 
         elif comm.size == 1 and comm.rank == 0:
             # Assumed no Pypar - helps avoid the need to extend DummyPypar()
diff --git a/Evaluate/longitudeCrossing.py b/Evaluate/longitudeCrossing.py
index 6a60fde..b166a5b 100644
--- a/Evaluate/longitudeCrossing.py
+++ b/Evaluate/longitudeCrossing.py
@@ -229,16 +229,21 @@ class LongitudeCrossing(object):
 
             w = 0
             n = 0
+            terminated = 0
             for d in range(1, comm.size):
-                comm.Send(trackfiles[w], dest=d, tag=work_tag)
-                LOG.debug("Processing track file {0:d} of {1:d}".\
-                          format(w + 1, len(trackfiles)))
-                w += 1
+                if w < len(trackfiles):
+                    comm.send(trackfiles[w], dest=d, tag=work_tag)
+                    LOG.debug("Processing track file {0:d} of {1:d}".\
+                              format(w + 1, len(trackfiles)))
+                    w += 1
+                else:
+                    comm.send(None, dest=d, tag=work_tag)
+                    terminated += 1
 
-            terminated = 0
+            status = MPI.Status()
             while terminated < comm.size - 1:
-                results, status = comm.Recv(MPI.ANY_SOURCE, tag=result_tag,
-                                               status=None)
+                results = comm.recv(source=MPI.ANY_SOURCE, tag=result_tag,
+                                    status=status)
 
                 lonCrossHist[n, :, :], lonCrossEW[n, :, :], \
                     lonCrossWE[n, :, :] = results
@@ -247,19 +252,19 @@ class LongitudeCrossing(object):
                 d = status.source
 
                 if w < len(trackfiles):
-                    comm.Send(trackfiles[w], dest=d, tag=work_tag)
+                    comm.send(trackfiles[w], dest=d, tag=work_tag)
                     LOG.debug("Processing track file {0:d} of {1:d}".\
                               format(w + 1, len(trackfiles)))
                     w += 1
                 else:
-                    comm.Send(None, dest=d, tag=work_tag)
+                    comm.send(None, dest=d, tag=work_tag)
                     terminated += 1
 
             self.calcStats(lonCrossHist, lonCrossEW, lonCrossWE)
 
         elif (comm.size > 1) and (comm.rank != 0):
             while True:
-                trackfile = comm.Recv(source=0, tag=work_tag)
+                trackfile = comm.recv(source=0, tag=work_tag)
                 if trackfile is None:
                     break
 
@@ -267,7 +272,7 @@ class LongitudeCrossing(object):
                 tracks = loadTracks(trackfile)
                 lonCross, lonCrossEW, lonCrossWE = self.findCrossings(tracks)
                 results = (lonCross, lonCrossEW, lonCrossWE)
-                comm.Send(results, dest=0, tag=result_tag)
+                comm.send(results, dest=0, tag=result_tag)
 
         elif (comm.size == 1) and (comm.rank == 0):
             # Assumed no Pypar - helps avoid the need to extend DummyPypar()
diff --git a/Evaluate/pressureDistribution.py b/Evaluate/pressureDistribution.py
index 2687230..43b8239 100644
--- a/Evaluate/pressureDistribution.py
+++ b/Evaluate/pressureDistribution.py
@@ -259,16 +259,21 @@ class PressureDistribution(object):
 
             w = 0
             n = 0
+            terminated = 0
             for d in range(1, comm.size):
-                comm.Send(trackfiles[w], dest=d, tag=work_tag)
-                log.debug("Processing track file {0:d} of {1:d}".
-                          format(w + 1, len(trackfiles)))
-                w += 1
+                if w < len(trackfiles):
+                    comm.send(trackfiles[w], dest=d, tag=work_tag)
+                    log.debug("Processing track file {0:d} of {1:d}".
+                              format(w + 1, len(trackfiles)))
+                    w += 1
+                else:
+                    comm.send(None, dest=d, tag=work_tag)
+                    terminated += 1
 
-            terminated = 0
+            status = MPI.Status()
             while terminated < comm.size - 1:
-                results, status = comm.Recv(MPI.ANY_SOURCE, tag=result_tag,
-                                            status=None)
+                results = comm.recv(source=MPI.ANY_SOURCE, tag=result_tag,
+                                    status=status)
 
                 sMean, sMin, sMax, sMed, sMinCPDist, sMinCP = results
                 synMean[n, :, :] = sMean
@@ -282,19 +287,19 @@ class PressureDistribution(object):
                 d = status.source
 
                 if w < len(trackfiles):
-                    comn.Send(trackfiles[w], dest=d, tag=work_tag)
+                    comm.send(trackfiles[w], dest=d, tag=work_tag)
                     log.debug("Processing track file {0:d} of {1:d}".
                               format(w + 1, len(trackfiles)))
                     w += 1
                 else:
-                    comm.Send(None, dest=d, tag=work_tag)
+                    comm.send(None, dest=d, tag=work_tag)
                     terminated += 1
 
             self.calculateMeans(synMean, synMin, synMed, synMax, synMinCPDist)
 
         elif (comm.size > 1) and (comm.rank != 0):
             while True:
-                trackfile = comm.Recv(source=0, tag=work_tag)
+                trackfile = comm.recv(source=0, tag=work_tag)
                 if trackfile is None:
                     break
 
@@ -303,7 +308,7 @@ class PressureDistribution(object):
                 sMean, sMin, sMax, sMed = self.calculate(tracks)
                 sMinCPDist, sMinCP = self.calcMinPressure(tracks)
                 results = (sMean, sMin, sMax, sMed, sMinCPDist, sMinCP)
-                comm.Send(results, dest=0, tag=result_tag)
+                comm.send(results, dest=0, tag=result_tag)
 
         elif comm.size == 1 and comm.rank == 0:
             # Assumed no Pypar - helps avoid the need to extend DummyPypar()
diff --git a/Evaluate/trackDensity.py b/Evaluate/trackDensity.py
index e36163e..b853221 100644
--- a/Evaluate/trackDensity.py
+++ b/Evaluate/trackDensity.py
@@ -169,41 +169,46 @@ class TrackDensity(object):
         if (comm.rank == 0) and (comm.size > 1):
             w = 0
             n = 0
+            terminated = 0
             for d in range(1, comm.size):
-                comm.Send(trackfiles[w], dest=d, tag=work_tag)
-                log.debug("Processing track file {0:d} of {1:d}".\
-                              format(w, len(trackfiles)))
-                w += 1
+                if w < len(trackfiles):
+                    comm.send(trackfiles[w], dest=d, tag=work_tag)
+                    log.debug("Processing track file {0:d} of {1:d}".\
+                                  format(w, len(trackfiles)))
+                    w += 1
+                else:
+                    comm.send(None, dest=d, tag=work_tag)
+                    terminated += 1
 
-            terminated = 0
-            while (terminated < comm.size - 1):
-                results, status = comm.Recv(MPI.ANY_SOURCE, tag=result_tag,
-                                            status=True)
+            status = MPI.Status()
+            while terminated < comm.size - 1:
+                results = comm.recv(source=MPI.ANY_SOURCE, tag=result_tag,
+                                    status=status)
                 self.synHist[n, :, :] = results
                 n += 1
 
                 d = status.source
                 if w < len(trackfiles):
-                    comm.Send(trackfiles[w], dest=d, tag=work_tag)
+                    comm.send(trackfiles[w], dest=d, tag=work_tag)
                     log.debug("Processing track file {0:d} of {1:d}".\
                               format(w, len(trackfiles)))
                     w += 1
                 else:
-                    comm.Send(None, dest=d, tag=work_tag)
+                    comm.send(None, dest=d, tag=work_tag)
                     terminated += 1
 
             self.calculateMeans()
 
         elif (comm.size > 1) and (comm.rank != 0):
             while(True):
-                trackfile = comm.Recv(source=0, tag=work_tag)
+                trackfile = comm.recv(source=0, tag=work_tag)
                 if trackfile is None:
                     break
 
                 log.debug("Processing %s" % (trackfile))
                 tracks = loadTracks(trackfile)
                 results = self.calculate(tracks) / self.synNumYears
-                comm.Send(results, dest=0, tag=result_tag)
+                comm.send(results, dest=0, tag=result_tag)
 
         elif (comm.size == 1) and (comm.rank == 0):
             for n, trackfile in enumerate(trackfiles):
-- 
2.43.0


From 221d7052989357206f3148a0aae42fe89cd9584a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:13:18 +0000
Subject: [PATCH 56/90] fix: deadlock of the longitude crossing evaluation

Loading the historical tracks waits for all processes, but only the first
process loaded them.
---
 Evaluate/longitudeCrossing.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Evaluate/longitudeCrossing.py b/Evaluate/longitudeCrossing.py
index b166a5b..6031144 100644
--- a/Evaluate/longitudeCrossing.py
+++ b/Evaluate/longitudeCrossing.py
@@ -173,7 +173,6 @@ class LongitudeCrossing(object):
 
 
 
-    @disableOnWorkers
     def historic(self):
         """Calculate historical rates of longitude crossing"""
 
-- 
2.43.0


From f510b79903a8d5c7ccad7e6101ba954e6f5d282e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:13:18 +0000
Subject: [PATCH 57/90] fix: winding number of points in clockwise polygons

Downward edges were never counted, and edges below the point were counted
instead, so that points inside a coastline could be taken for points at sea.
---
 Utilities/Intersections.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Utilities/Intersections.py b/Utilities/Intersections.py
index 3b01b8c..6222c51 100644
--- a/Utilities/Intersections.py
+++ b/Utilities/Intersections.py
@@ -99,7 +99,8 @@ def _wnPnPoly(P, V):
             if V[i + 1].y > P.y:      # an upward crossing
                 if _isLeft(V[i], V[i + 1], P) > 0:  # P left of edge
                     wn += 1            # have a valid up intersect
-            elif V[i + 1].y <= P.y:     # a downward crossing
+        else:                      # start y > P.y
+            if V[i + 1].y <= P.y:     # a downward crossing
                 if _isLeft(V[i], V[i + 1], P) < 0:  # P right of edge
                     wn -= 1            # have a valid down intersect
     return wn != 0
-- 
2.43.0


From 74c90cd6b881598c059d9c1b3351106499ce3254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:13:18 +0000
Subject: [PATCH 58/90] fix: count longitude crossings at a track point once

A track point exactly on the line of longitude ends one segment and starts
the next, and both were counted as a crossing.
---
 Evaluate/longitudeCrossing.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/Evaluate/longitudeCrossing.py b/Evaluate/longitudeCrossing.py
index 6031144..fffbc04 100644
--- a/Evaluate/longitudeCrossing.py
+++ b/Evaluate/longitudeCrossing.py
@@ -127,15 +127,16 @@ class LongitudeCrossing(object):
                     end = Int.Point(t.Longitude[i + 1], t.Latitude[i + 1])
                     r = cross.LineLine(start, end, gStart, gEnd)
                     if r.status == "Intersection":
-                        lats.append(r.points[0].y)
                         startSide = Int._isLeft(gStart, gEnd, start)
                         endSide = Int._isLeft(gStart, gEnd, end)
-                        if ((startSide < 0.) and (endSide >= 0.)) \
-                                or ((startSide <= 0.) and (endSide > 0.)):
+                        # A point on the gate belongs to the eastern side, so
+                        # that the segments to and from it cross only once
+                        if (startSide < 0.) and (endSide >= 0.):
+                            lats.append(r.points[0].y)
                             welats.append(r.points[0].y)
 
-                        elif ((startSide > 0.) and (endSide <= 0.)) \
-                                or ((startSide >= 0.) and (endSide < 0.)):
+                        elif (startSide >= 0.) and (endSide < 0.):
+                            lats.append(r.points[0].y)
                             ewlats.append(r.points[0].y)
 
                     else:
-- 
2.43.0


From 3025df5c34183528fe3e27c81654a0bbe3e66eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:13:18 +0000
Subject: [PATCH 59/90] fix: count landfalls across the last gate

The gates were numbered from one, so that the first of the rates was always
zero and crossings of the last gate were left out.
---
 Evaluate/landfallRates.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Evaluate/landfallRates.py b/Evaluate/landfallRates.py
index 7ae8e07..6d6075a 100644
--- a/Evaluate/landfallRates.py
+++ b/Evaluate/landfallRates.py
@@ -107,20 +107,20 @@ class LandfallRates(object):
                 if not startOnshore and endOnshore:
                     # Landfall:
                     cross = Int.Crossings()
-                    for j in range(1, len(self.gates) - 1):
+                    for j in range(len(self.gates) - 1):
                         r = cross.LineLine(start, end,
-                                           self.gates[j-1],
-                                           self.gates[j])
+                                           self.gates[j],
+                                           self.gates[j + 1])
                         if r.status == "Intersection":
                             landfall.append(j)
 
                 elif startOnshore and not endOnshore:
                     # Moving offshore:
                     cross = Int.Crossings()
-                    for j in range(1, len(self.gates) - 1):
+                    for j in range(len(self.gates) - 1):
                         r = cross.LineLine(start, end,
-                                           self.gates[j - 1],
-                                           self.gates[j])
+                                           self.gates[j],
+                                           self.gates[j + 1])
                         if r.status == "Intersection":
                             offshore.append(j)
 
-- 
2.43.0


From 21ded94f8bca6e7b307a344ecaef68d196c91012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:13:18 +0000
Subject: [PATCH 60/90] fix: landfall rates of simulations without a landfall

The distribution of no crossings is undefined, and one such simulation made
the mean rates of all gates undefined.
---
 Evaluate/landfallRates.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Evaluate/landfallRates.py b/Evaluate/landfallRates.py
index 6d6075a..a442ea8 100644
--- a/Evaluate/landfallRates.py
+++ b/Evaluate/landfallRates.py
@@ -125,8 +125,14 @@ class LandfallRates(object):
                             offshore.append(j)
 
         # Generate the histograms to be returned:
-        lh, n = np.histogram(landfall, np.arange(len(self.gates)), density=True)
-        oh, n = np.histogram(offshore, np.arange(len(self.gates)), density=True)
+        lh = np.zeros(len(self.gates) - 1)
+        oh = np.zeros(len(self.gates) - 1)
+        if len(landfall) > 0:
+            lh, n = np.histogram(landfall, np.arange(len(self.gates)),
+                                 density=True)
+        if len(offshore) > 0:
+            oh, n = np.histogram(offshore, np.arange(len(self.gates)),
+                                 density=True)
         return lh, oh
 
     def processResults(self, results, index):
-- 
2.43.0


From 0a9362105b5c45e283d497ccf3bc5df61c6ee868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:13:18 +0000
Subject: [PATCH 61/90] fix: minimum pressures of simulations without tracks in
 the region

One such simulation made the mean distribution undefined.
---
 Evaluate/pressureDistribution.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Evaluate/pressureDistribution.py b/Evaluate/pressureDistribution.py
index 43b8239..1b974aa 100644
--- a/Evaluate/pressureDistribution.py
+++ b/Evaluate/pressureDistribution.py
@@ -170,7 +170,9 @@ class PressureDistribution(object):
                 minCP[i] = t.CentralPressure.min()
 
         bins = np.arange(850., 1020., 5.)
-        h, n = np.histogram(minCP, bins, density=True)
+        h = np.zeros(len(bins) - 1)
+        if np.any((minCP >= bins[0]) & (minCP <= bins[-1])):
+            h, n = np.histogram(minCP, bins, density=True)
         return h, minCP
 
     def calculateMeans(self, synMean, synMin, synMed, synMax, synMinCP):
-- 
2.43.0


From b1036bf890fefc3e97dcc9bc62c6b89734a959af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:13:18 +0000
Subject: [PATCH 62/90] fix: number of years of the historical track density

The last year was left out, and a record of a single year gave infinite
rates.
---
 Evaluate/trackDensity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Evaluate/trackDensity.py b/Evaluate/trackDensity.py
index b853221..1172e23 100644
--- a/Evaluate/trackDensity.py
+++ b/Evaluate/trackDensity.py
@@ -149,7 +149,7 @@ class TrackDensity(object):
             for t in tracks:
                 startYr = min(startYr, min(t.Year))
                 endYr = max(endYr, max(t.Year))
-            numYears = endYr - startYr
+            numYears = endYr - startYr + 1
 
             self.hist = self.calculate(tracks) / numYears
 
-- 
2.43.0


From a8042f54b79a77a5c962c2f209b9d57a2814568b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:13:18 +0000
Subject: [PATCH 63/90] fix: density evaluations of few simulations

The figures of sample simulations needed 41 and 3 simulations, and the
results were not saved when there were fewer.
---
 Evaluate/genesisDensity.py |  9 +++------
 Evaluate/trackDensity.py   | 13 +++----------
 2 files changed, 6 insertions(+), 16 deletions(-)

diff --git a/Evaluate/genesisDensity.py b/Evaluate/genesisDensity.py
index c82c7a4..64e8adb 100755
--- a/Evaluate/genesisDensity.py
+++ b/Evaluate/genesisDensity.py
@@ -427,12 +427,9 @@ class GenesisDensity(object):
         figure2 = FilledContourMapFigure()
         figure2.add(self.hist.T*(10.**-exponent), xgrid, ygrid,
                     "Historic", lvls*(10.**-exponent), cbarlab, map_kwargs)
-        figure2.add(self.synHist[0, :, :].T*(10.**-exponent), xgrid, ygrid,
-                    "Synthetic", lvls*(10.**-exponent), cbarlab, map_kwargs)
-        figure2.add(self.synHist[1, :, :].T*(10.**-exponent), xgrid, ygrid,
-                    "Synthetic", lvls*(10.**-exponent), cbarlab, map_kwargs)
-        figure2.add(self.synHist[2, :, :].T*(10.**-exponent), xgrid, ygrid,
-                    "Synthetic", lvls*(10.**-exponent), cbarlab, map_kwargs)
+        for n in range(min(len(self.synHist), 3)):
+            figure2.add(self.synHist[n, :, :].T*(10.**-exponent), xgrid, ygrid,
+                        "Synthetic", lvls*(10.**-exponent), cbarlab, map_kwargs)
 
         figure2.plot()
         outputFile = pjoin(self.plotPath, 'genesis_density_samples.png')
diff --git a/Evaluate/trackDensity.py b/Evaluate/trackDensity.py
index 1172e23..be88f89 100644
--- a/Evaluate/trackDensity.py
+++ b/Evaluate/trackDensity.py
@@ -324,16 +324,9 @@ class TrackDensity(object):
         figure2 = ArrayMapFigure()
         figure2.add(self.hist.T, self.X, self.Y, "Historic", datarange,
                     cbarlab, self.map_kwargs)
-        figure2.add(self.synHist[0, :, :].T, self.X, self.Y, "Synthetic",
-                    datarange, cbarlab, self.map_kwargs)
-        figure2.add(self.synHist[10, :, :].T, self.X, self.Y, "Synthetic",
-                    datarange, cbarlab, self.map_kwargs)
-        figure2.add(self.synHist[20, :, :].T, self.X, self.Y, "Synthetic",
-                    datarange, cbarlab, self.map_kwargs)
-        figure2.add(self.synHist[30, :, :].T, self.X, self.Y, "Synthetic",
-                    datarange, cbarlab, self.map_kwargs)
-        figure2.add(self.synHist[40, :, :].T, self.X, self.Y, "Synthetic",
-                    datarange, cbarlab, self.map_kwargs)
+        for n in range(0, min(len(self.synHist), 41), 10):
+            figure2.add(self.synHist[n, :, :].T, self.X, self.Y, "Synthetic",
+                        datarange, cbarlab, self.map_kwargs)
         figure2.plot()
         outputFile = pjoin(self.plotPath, 'track_density_samples.png')
         saveFigure(figure2, outputFile)
-- 
2.43.0


From 94d01646f532cd2c0b7950a898082d326c15084a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:16:58 +0000
Subject: [PATCH 64/90] fix: save masked grid values as missing

The values under the mask were written, so that cells without any observation
looked like cells with a pressure of zero.
---
 Utilities/nctools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utilities/nctools.py b/Utilities/nctools.py
index bb68bbc..b4fffe3 100644
--- a/Utilities/nctools.py
+++ b/Utilities/nctools.py
@@ -374,7 +374,7 @@ def ncSaveGrid(filename, dimensions, variables, nodata=-9999,
                                    fill_value=nodata)
 
         if (writedata and v['values'] is not None):
-            var[:] = np.array(v['values'], dtype=v['dtype'])
+            var[:] = np.ma.array(v['values'], dtype=v['dtype'])
 
         var.setncatts(v['atts'])
 
-- 
2.43.0


From fb7cf2f45cf0e3c315e5fae7ae964a2d63b93062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:03:43 +0000
Subject: [PATCH 65/90] fix: import of the shape file reader in tsmultipliers

---
 Utilities/tsmultipliers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utilities/tsmultipliers.py b/Utilities/tsmultipliers.py
index b226ad5..bfab4ff 100644
--- a/Utilities/tsmultipliers.py
+++ b/Utilities/tsmultipliers.py
@@ -26,7 +26,7 @@ import numpy as np
 from Utilities.files import flStartLog
 from Utilities.config import ConfigParser
 from Utilities.dynarray import DynamicRecArray
-from Utilities import shapefile
+import shapefile
 from Utilities import pathLocator
 
 
-- 
2.43.0


From 30e1369233770830c8fb45989a0b44a0f0098f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:03:44 +0000
Subject: [PATCH 66/90] fix: weights of the directions of site multipliers of
 time series

---
 Utilities/tsmultipliers.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/Utilities/tsmultipliers.py b/Utilities/tsmultipliers.py
index bfab4ff..7b493dd 100644
--- a/Utilities/tsmultipliers.py
+++ b/Utilities/tsmultipliers.py
@@ -81,29 +81,29 @@ def tsmultiply(inputFile, multipliers, outputFile):
     # Apply multipliers:
 
     ii = np.where((bear >= 0.0) & (bear < 45.))
-    gust[ii] *= (1./45.)*(mcn*(bear[ii] - 0.0) +
-                          mcne*(45. - bear[ii]))
+    gust[ii] *= (1./45.)*(mcn*(45. - bear[ii]) +
+                          mcne*(bear[ii] - 0.0))
     ii = np.where((bear >= 45.0) & (bear < 90.))
-    gust[ii] *= (1./45.)*(mcne*(bear[ii] - 45.0) +
-                          mce*(90. - bear[ii]))
+    gust[ii] *= (1./45.)*(mcne*(90. - bear[ii]) +
+                          mce*(bear[ii] - 45.0))
     ii = np.where((bear >= 90.0) & (bear < 135.))
-    gust[ii] *= (1./45.)*(mce*(bear[ii] - 90.0) +
-                          mcse*(135. - bear[ii]))
+    gust[ii] *= (1./45.)*(mce*(135. - bear[ii]) +
+                          mcse*(bear[ii] - 90.0))
     ii = np.where((bear >= 135.0) & (bear < 180.))
-    gust[ii] *= (1./45.)*(mcse*(bear[ii] - 135.0) +
-                          mcs*(180. - bear[ii]))
+    gust[ii] *= (1./45.)*(mcse*(180. - bear[ii]) +
+                          mcs*(bear[ii] - 135.0))
     ii = np.where((bear >= 180.0) & (bear < 225.))
-    gust[ii] *= (1./45.)*(mcs*(bear[ii] - 180.0) +
-                          mcsw*(225. - bear[ii]))
+    gust[ii] *= (1./45.)*(mcs*(225. - bear[ii]) +
+                          mcsw*(bear[ii] - 180.0))
     ii = np.where((bear >= 225.0) & (bear < 270.))
-    gust[ii] *= (1./45.)*(mcsw*(bear[ii] - 225.0) +
-                          mcw*(270. - bear[ii]))
+    gust[ii] *= (1./45.)*(mcsw*(270. - bear[ii]) +
+                          mcw*(bear[ii] - 225.0))
     ii = np.where((bear >= 270.0) & (bear < 315.))
-    gust[ii] *= (1./45.)*(mcw*(bear[ii] - 270.0) +
-                          mcnw*(315. - bear[ii]))
+    gust[ii] *= (1./45.)*(mcw*(315. - bear[ii]) +
+                          mcnw*(bear[ii] - 270.0))
     ii = np.where((bear >= 315.0) & (bear <= 360.))
-    gust[ii] *= (1./45.)*(mcnw*(bear[ii] - 315.0) +
-                          mcn*(360. - bear[ii]))
+    gust[ii] *= (1./45.)*(mcnw*(360. - bear[ii]) +
+                          mcn*(bear[ii] - 315.0))
 
 
     ii = np.where(gust==0)
-- 
2.43.0


From 37178fb9aa53743dd839e8e7d421569a337ee6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:04:32 +0000
Subject: [PATCH 67/90] fix: time series of a single record in tsmultipliers

---
 Utilities/tsmultipliers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Utilities/tsmultipliers.py b/Utilities/tsmultipliers.py
index 7b493dd..b0b5c58 100644
--- a/Utilities/tsmultipliers.py
+++ b/Utilities/tsmultipliers.py
@@ -65,6 +65,7 @@ def tsmultiply(inputFile, multipliers, outputFile):
     log.info("Processing {0}".format(inputFile))
     tsdata = np.genfromtxt(inputFile, dtype=INPUTFMT, names=INPUTNAMES,
                            delimiter=',', skip_header=1)
+    tsdata = np.atleast_1d(tsdata)
     tstep = tsdata['Time']
     lon = tsdata['Longitude']
     lat = tsdata['Latitude']
-- 
2.43.0


From 4afdd90eec218dcb82aadb238ee40b8568b02d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:34 +0000
Subject: [PATCH 68/90] fix: read track files that hold a single record

A file with one record came back as an array without dimension, and loading
the tracks failed.
---
 Utilities/columns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utilities/columns.py b/Utilities/columns.py
index 392121b..b770750 100644
--- a/Utilities/columns.py
+++ b/Utilities/columns.py
@@ -50,4 +50,4 @@ def colReadCSV(configFile, dataFile, source):
         raise TypeError(("{0} is not a string, filehandle "
                          "or generator.").format(dataFile))
 
-    return data
+    return np.atleast_1d(data)
-- 
2.43.0


From 011013aeeafb3061ff5e96b960e2592812467823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:34 +0000
Subject: [PATCH 69/90] fix: write segments of tracks with a single point

The whole arrays were passed as the coordinates of the point.
---
 Utilities/tracks2shp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Utilities/tracks2shp.py b/Utilities/tracks2shp.py
index 5770fa8..1d372c6 100644
--- a/Utilities/tracks2shp.py
+++ b/Utilities/tracks2shp.py
@@ -281,8 +281,8 @@ def tracks2line(tracks, outputFile, dissolve=False, netcdf_format=False):
             if len(track.data) == 1:
                 line = [
                     [
-                        [track.Longitude, track.Latitude],
-                        [track.Longitude, track.Latitude],
+                        [track.Longitude[0], track.Latitude[0]],
+                        [track.Longitude[0], track.Latitude[0]],
                     ]
                 ]
                 sf.line(line)
-- 
2.43.0


From d25efdb045eb247d5c2f15d0881c70f48217d9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:34 +0000
Subject: [PATCH 70/90] fix: keep every point of exported tracks that cross 0E

The point before the crossing was left out of the dissolved line, only one
crossing was recognised, and crossings from east to west were drawn as a line
across the whole map.
---
 Utilities/tracks2shp.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/Utilities/tracks2shp.py b/Utilities/tracks2shp.py
index 1d372c6..6147c29 100644
--- a/Utilities/tracks2shp.py
+++ b/Utilities/tracks2shp.py
@@ -232,17 +232,14 @@ def tracks2line(tracks, outputFile, dissolve=False, netcdf_format=False):
         if dissolve:
             if len(track.data) > 1:
                 dlon = np.diff(track.Longitude)
-                if dlon.min() < -180:
+                if np.abs(dlon).max() > 180:
                     # Track crosses 0E longitude - split track
                     # into multiple parts:
-                    idx = np.argmin(dlon)
+                    idx = np.flatnonzero(np.abs(dlon) > 180) + 1
                     parts = []
-                    lines = zip(track.Longitude[:idx], track.Latitude[:idx])
-
-                    parts.append(lines)
-                    lines = zip(track.Longitude[idx + 1 :], track.Latitude[idx + 1 :])  # noqa
-
-                    parts.append(lines)
+                    for lon, lat in zip(np.split(track.Longitude, idx),
+                                        np.split(track.Latitude, idx)):
+                        parts.append(list(zip(lon, lat)))
                     sf.line(parts)
                 else:
                     lines = zip(track.Longitude, track.Latitude)
@@ -290,7 +287,7 @@ def tracks2line(tracks, outputFile, dissolve=False, netcdf_format=False):
             else:
                 for n in range(len(track.data) - 1):
                     dlon = track.Longitude[n + 1] - track.Longitude[n]
-                    if dlon < -180.0:
+                    if abs(dlon) > 180.0:
                         # case where the track crosses 0E:
                         segment = [
                             [
-- 
2.43.0


From 315816f30747efb322be66e01b95e8e75a67da7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:13:03 +0000
Subject: [PATCH 71/90] fix: names of time series figures

Stripping characters instead of the prefix and the extension cut station names
that end or begin with the letters of the extension, so that the figures of
several stations got the same name.
---
 PlotInterface/plotTimeseries.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/PlotInterface/plotTimeseries.py b/PlotInterface/plotTimeseries.py
index 49afc71..b79d7f6 100644
--- a/PlotInterface/plotTimeseries.py
+++ b/PlotInterface/plotTimeseries.py
@@ -96,8 +96,9 @@ def plotTimeseries(inputPath, outputPath, locID=None):
         inputFileList = [f for f in files if f.startswith('ts.')]
         for f in inputFileList:
             # Here we assume the timeseries files are named ts.<location ID>.dat
-            locID = f.rstrip('.csv').lstrip('ts.')
-            outputFile = pjoin(outputPath, '%s.png' % f.rstrip('.csv'))
+            stem = os.path.splitext(f)[0]
+            locID = stem[len('ts.'):]
+            outputFile = pjoin(outputPath, '%s.png' % stem)
             inputData = loadTimeseriesData(pjoin(inputPath, f))
 
 
-- 
2.43.0


From 47034c5803962d5d6740ab9b4fd498283ca74ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:13:03 +0000
Subject: [PATCH 72/90] fix: plot time series of a single record

---
 PlotInterface/plotTimeseries.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/PlotInterface/plotTimeseries.py b/PlotInterface/plotTimeseries.py
index b79d7f6..4a45192 100644
--- a/PlotInterface/plotTimeseries.py
+++ b/PlotInterface/plotTimeseries.py
@@ -45,9 +45,10 @@ INPUT_CNVT = {
 def loadTimeseriesData(datafile):
     logging.debug("Loading timeseries data from {0}".format(datafile))
     try:
-        return np.genfromtxt(datafile, dtype=INPUT_FMTS, names=INPUT_COLS,
-                             comments='#', delimiter=',', skip_header=1,
-                             converters=INPUT_CNVT)
+        return np.atleast_1d(
+            np.genfromtxt(datafile, dtype=INPUT_FMTS, names=INPUT_COLS,
+                          comments='#', delimiter=',', skip_header=1,
+                          converters=INPUT_CNVT))
     except ValueError:
         logging.warning("Timeseries data file is empty - returning empty array")
         return np.empty(0, dtype={
-- 
2.43.0


From 4c427f742302c6de4aa1b83845db07020a282e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:13:03 +0000
Subject: [PATCH 73/90] fix: find the wind field of a scenario to plot

Wind fields are named after the track, so the file guessed from the name of a
netCDF track file was never there, nor the one guessed for a file with several
tracks. The program stopped before any plot was made.
---
 tcevent.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tcevent.py b/tcevent.py
index f48962d..3a97dd3 100755
--- a/tcevent.py
+++ b/tcevent.py
@@ -23,12 +23,13 @@ log.getLogger('matplotlib').setLevel(log.WARNING)
 from functools import reduce
 
 import os
+import glob
 import time
 import argparse
 import traceback
 
 from functools import wraps
-from os.path import join as pjoin, realpath, isdir, dirname
+from os.path import join as pjoin, realpath, isdir, isfile, dirname
 
 from Utilities import pathLocator
 from Utilities.config import ConfigParser
@@ -138,6 +139,13 @@ def doWindfieldPlotting(configFile):
         outputWindFile = pjoin(windfieldPath, 'gust.001-00001.nc')
     plotPath = pjoin(outputPath, 'plots', 'maxwind.png')
 
+    if not isfile(outputWindFile):
+        # The track is identified by its own number, not by the name
+        # or the number of tracks of the input file.
+        gustFiles = sorted(glob.glob(pjoin(windfieldPath, 'gust.*.nc')))
+        if gustFiles:
+            outputWindFile = gustFiles[0]
+
     f = Dataset(outputWindFile, 'r')
 
     xdata = f.variables['lon'][:]
-- 
2.43.0


From 547777670e9c5275d1719ee7cc5336a7ac3d50e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:38:12 +0000
Subject: [PATCH 74/90] fix: do not smooth missing values into a hazard map

---
 Utilities/smooth.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Utilities/smooth.py b/Utilities/smooth.py
index 430576b..1e26d80 100644
--- a/Utilities/smooth.py
+++ b/Utilities/smooth.py
@@ -41,5 +41,14 @@ def smooth(im, n=15):
 
     """
     g = gaussKern(n)
+    mask = numpy.ma.getmaskarray(im)
+    if mask.any():
+        # Average over the valid values only, and leave the others masked
+        weight = signal.convolve2d(~mask, g, mode='same', boundary='symm')
+        weight[mask] = 1.
+        improc = signal.convolve2d(numpy.ma.filled(im, 0.), g,
+                                   mode='same', boundary='symm')
+        return numpy.ma.array(improc / weight, mask=mask)
+
     improc = signal.convolve2d(im, g, mode='same', boundary='symm')
     return improc
-- 
2.43.0


From 5fb67a9030a5ea036cdba89a1eb5f19ca2b46fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:38:12 +0000
Subject: [PATCH 75/90] fix: plot the events of a hazard curve in the units of
 the curve

---
 PlotInterface/AutoPlotHazard.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PlotInterface/AutoPlotHazard.py b/PlotInterface/AutoPlotHazard.py
index a4225f8..de71ab3 100644
--- a/PlotInterface/AutoPlotHazard.py
+++ b/PlotInterface/AutoPlotHazard.py
@@ -231,7 +231,8 @@ class AutoPlotHazard(object):
             if len(recs) > 0:
                 data[-len(recs):] = recs['wspd']
 
-            allevents = np.sort(data)
+            allevents = metutils.convert(np.sort(data), 'mps',
+                                         self.plotUnits.units)
             log.debug("allevents length = {0}".format(len(allevents)))
 
             placeWspd = metutils.convert(wspd, 'mps',
-- 
2.43.0


From 9ab1ed2f2a7f2ca003af7fa65bdb85f41e7aa72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:39:36 +0000
Subject: [PATCH 76/90] fix: convert wind speeds to the kmh unit

---
 Utilities/metutils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Utilities/metutils.py b/Utilities/metutils.py
index 0226102..0bdb7ce 100644
--- a/Utilities/metutils.py
+++ b/Utilities/metutils.py
@@ -392,6 +392,8 @@ def convert(value, inunits, outunits):
         return value
     if inunits == 'kmh':
         inunits = 'kph'
+    if outunits == 'kmh':
+        outunits = 'kph'
     if inunits == "m/s":
         inunits = "mps"
 
-- 
2.43.0


From b46f35a6356a7505102df873c79dda801f82586b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:02:39 +0000
Subject: [PATCH 77/90] fix: pass the azimuth of maximum winds in degrees to
 the wind fields

---
 wind/__init__.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/wind/__init__.py b/wind/__init__.py
index b049aba..e660c69 100644
--- a/wind/__init__.py
+++ b/wind/__init__.py
@@ -30,7 +30,6 @@ calling the :meth:`run` with the location of a *configFile*::
 
 import logging as log
 import itertools
-import math
 import os
 import sys
 from os.path import join as pjoin
@@ -111,7 +110,7 @@ class WindfieldAroundTrack(object):
         self.beta = beta
         self.beta1 = beta1
         self.beta2 = beta2
-        self.thetaMax = math.radians(thetaMax)
+        self.thetaMax = thetaMax
         self.margin = margin
         self.resolution = resolution
         self.gustFactor = gustFactor
@@ -939,7 +938,6 @@ def run(configFile, callback=None):
     if config.has_option('Input', 'Multipliers'):
         multipliers = config.get('Input', 'Multipliers')
 
-    thetaMax = math.radians(thetaMax)
 
     # Attempt to start the track generator in parallel
     global MPI
-- 
2.43.0


From 160cf5f6ff9dd8a92977d74981a8c6b2b569f77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:23:54 +0000
Subject: [PATCH 78/90] fix: make all multiplier folders when an interrupted
 run left only some

---
 ProcessMultipliers/processMultipliers.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ProcessMultipliers/processMultipliers.py b/ProcessMultipliers/processMultipliers.py
index 4a1e846..52d0b91 100755
--- a/ProcessMultipliers/processMultipliers.py
+++ b/ProcessMultipliers/processMultipliers.py
@@ -210,12 +210,11 @@ class getMultipliers():
         if self.computed_wm_path is not None:
             return
 
-        # Assume if one is missing, they are all missing
+        # An interrupted run may have left only some of the folders
         dir_check = os.path.isdir(working_dir + '/shielding')
-        if dir_check is False:
-            for wm in type_mapping:
-                os.makedirs('{0}/{1}'.format(working_dir, wm))
-        else:
+        for wm in type_mapping:
+            os.makedirs('{0}/{1}'.format(working_dir, wm), exist_ok=True)
+        if dir_check:
             #Else clean up the folders to make sure we don't mix up old and new
             log.info('Deleting the contents of the shielding, terrain and topographic '
                      'folders in {0} to avoid using old files'.format(working_dir))
-- 
2.43.0


From 9a4cb73100d69f5104db3cb4bc3839d290113ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:23:54 +0000
Subject: [PATCH 79/90] fix: combined multipliers were the terrain alone where
 another multiplier is missing

---
 ProcessMultipliers/processMultipliers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ProcessMultipliers/processMultipliers.py b/ProcessMultipliers/processMultipliers.py
index 52d0b91..0d256a0 100755
--- a/ProcessMultipliers/processMultipliers.py
+++ b/ProcessMultipliers/processMultipliers.py
@@ -310,7 +310,7 @@ class getMultipliers():
             CopyDatasetInfo(ds1, dsOut)
             bandOut = dsOut.GetRasterBand(1)
             bandOut.SetNoDataValue(-9999)
-            BandWriteArray(bandOut, dataOut.data)
+            BandWriteArray(bandOut, dataOut.filled(-9999))
 
     @timer
     def build_combined_multipliers_for_all_directions(self, output_path):
-- 
2.43.0


From 500fbd393c418f2f49bf566029e9526502cea3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:46:58 +0000
Subject: [PATCH 80/90] fix: empty maximum wind speeds were kept as NaN instead
 of the missing value

---
 DataProcess/DataProcess.py | 2 +-
 Utilities/loadData.py      | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/DataProcess/DataProcess.py b/DataProcess/DataProcess.py
index a05c5de..a644aaa 100644
--- a/DataProcess/DataProcess.py
+++ b/DataProcess/DataProcess.py
@@ -296,7 +296,7 @@ class DataProcess(object):
             self.logger.warning("No max wind speed data")
             vmax = np.ones(indicator.size, 'f') * sys.maxsize
         else:
-            novalue_index = np.where(vmax == sys.maxsize)
+            novalue_index = np.where(np.isnan(vmax) | (vmax == sys.maxsize))
             vmax = metutils.convert(vmax, inputSpeedUnits, "mps")
             vmax[novalue_index] = sys.maxsize
 
diff --git a/Utilities/loadData.py b/Utilities/loadData.py
index d40fe2a..6ec778e 100644
--- a/Utilities/loadData.py
+++ b/Utilities/loadData.py
@@ -876,7 +876,8 @@ def loadTrackFile(configFile, trackFile, source, missingValue=0,
                               inputPressureUnits, missingValue)
     try:
         windspeed = np.array(inputData['vmax'], 'd')
-        novalue_index = np.where(windspeed == sys.maxsize)
+        novalue_index = np.where(np.isnan(windspeed) |
+                                 (windspeed == sys.maxsize))
         windspeed = metutils.convert(windspeed, inputSpeedUnits, "mps")
         windspeed[novalue_index] = missingValue
     except (ValueError, KeyError):
-- 
2.43.0


From f3df59f3ddf7b734e2d07f7fe9c3948428638e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:51:03 +0000
Subject: [PATCH 81/90] fix: packed netCDF variables overflowed when read with
 ncGetData

---
 Utilities/nctools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Utilities/nctools.py b/Utilities/nctools.py
index b4fffe3..e402f0a 100644
--- a/Utilities/nctools.py
+++ b/Utilities/nctools.py
@@ -139,7 +139,8 @@ def ncGetData(ncobj, var):
     # Get the data:
     d = varobj[:]
 
-    data = np.array(d, copy=True, dtype=varobj.dtype)
+    # Unpacked values have another data type than the stored ones
+    data = np.array(d, copy=True, dtype=d.dtype)
 
     return data
 
-- 
2.43.0


From 1d8eb18cc9b13fa52704a8c59390d721237002b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:51:03 +0000
Subject: [PATCH 82/90] fix: environmental pressures came from the other
 hemisphere if latitudes are stored from north to south

---
 TrackGenerator/TrackGenerator.py |  2 ++
 Utilities/loadData.py            |  2 ++
 Utilities/nctools.py             | 18 ++++++++++++++++++
 3 files changed, 22 insertions(+)

diff --git a/TrackGenerator/TrackGenerator.py b/TrackGenerator/TrackGenerator.py
index aa2e507..6a6b6fe 100644
--- a/TrackGenerator/TrackGenerator.py
+++ b/TrackGenerator/TrackGenerator.py
@@ -178,6 +178,8 @@ class SamplePressure(object):
     def __init__(self, mslp_file, var='slp'):
         ncobj = nctools.ncLoadFile(mslp_file)
         data = nctools.ncGetData(ncobj, var)
+        if nctools.ncIsNorthToSouth(ncobj, var):
+            data = data[:, ::-1, :]
         slpunits = getattr(ncobj.variables[var], 'units')
         data = metutils.convert(data, slpunits, 'hPa')
         self.data = spline_filter(data)
diff --git a/Utilities/loadData.py b/Utilities/loadData.py
index 6ec778e..cc90747 100644
--- a/Utilities/loadData.py
+++ b/Utilities/loadData.py
@@ -650,6 +650,8 @@ def ltmPressure(jdays, time, lon, lat, ncfile, ncvar='slp'):
     slpunits = getattr(ncobj.variables[ncvar], 'units')
 
     data = nctools.ncGetData(ncobj, ncvar)
+    if nctools.ncIsNorthToSouth(ncobj, ncvar):
+        data = data[:, ::-1, :]
     # Get the MSLP by interpolating to the location of the TC:
     penv = interp3d.interp3d(data, coords, scale=[365., 180., 360.],
                              offset=[0., -90., 0.])
diff --git a/Utilities/nctools.py b/Utilities/nctools.py
index e402f0a..fdbeaca 100644
--- a/Utilities/nctools.py
+++ b/Utilities/nctools.py
@@ -144,6 +144,24 @@ def ncGetData(ncobj, var):
 
     return data
 
+def ncIsNorthToSouth(ncobj, var):
+    """
+    Determine if the rows of a (time, lat, lon) variable are stored from
+    north to south.
+
+    :param ncobj: :class:`netCDF4.Dataset` object.
+    :param str var: Name of the variable in the dataset.
+
+    :returns: `True` if the latitudes decrease, `False` if they increase or
+              are not given.
+
+    """
+    latname = ncobj.variables[var].dimensions[1]
+    if latname not in ncobj.variables:
+        return False
+    lat = ncobj.variables[latname][:]
+    return bool(lat[0] > lat[-1])
+
 def ncGetVar(ncobj, name):
     """
     Return a `netCDF4.variable` object.
-- 
2.43.0


From caa2d2c33eeba637be419385c87d4ec28bd5924b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:51:14 +0000
Subject: [PATCH 83/90] fix: environmental pressure at records without a
 central pressure was made up from the missing value

---
 Evaluate/interpolateTracks.py | 20 ++++++++++++++++++--
 Utilities/loadData.py         |  3 ++-
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/Evaluate/interpolateTracks.py b/Evaluate/interpolateTracks.py
index e280789..61921ef 100644
--- a/Evaluate/interpolateTracks.py
+++ b/Evaluate/interpolateTracks.py
@@ -49,6 +49,22 @@ class Track2(object):
         return self.data[key]
 
 
+def interpolateKnown(time, values, newtime):
+    """
+    Linear interpolation between the values that are known (not NaN), which
+    are held constant before the first and after the last one.
+
+    :param time: :class:`numpy.ndarray` of times of the values.
+    :param values: :class:`numpy.ndarray` of values.
+    :param newtime: :class:`numpy.ndarray` of times to interpolate to.
+
+    :returns: :class:`numpy.ndarray` of interpolated values.
+    """
+    known = ~np.isnan(values)
+    if not known.any():
+        return np.full(len(newtime), np.nan)
+    return np.interp(newtime, time[known], values[known])
+
 def interpolate(track, delta, interpolation_type=None):
     """
     Interpolate the records in time to have a uniform time difference between
@@ -136,7 +152,7 @@ def interpolate(track, delta, interpolation_type=None):
         nLon = interp1d(timestep, track.Longitude, kind='linear')(newtime)
         nLat = interp1d(timestep, track.Latitude, kind='linear')(newtime)
 
-        npEnv = interp1d(timestep, track.EnvPressure, kind='linear')(newtime)
+        npEnv = interpolateKnown(timestep, track.EnvPressure, newtime)
         nrMax = interp1d(timestep, track.rMax, kind='linear')(newtime)
 
     else:
@@ -162,7 +178,7 @@ def interpolate(track, delta, interpolation_type=None):
             nLon = splev(newtime, splrep(timestep, track.Longitude, s=0), der=0)
             nLat = splev(newtime, splrep(timestep, track.Latitude, s=0), der=0)
 
-        npEnv = interp1d(timestep, track.EnvPressure, kind='linear')(newtime)
+        npEnv = interpolateKnown(timestep, track.EnvPressure, newtime)
         nrMax = interp1d(timestep, track.rMax, kind='linear')(newtime)
 
     if len(nLat) >= 2:
diff --git a/Utilities/loadData.py b/Utilities/loadData.py
index cc90747..81c8e98 100644
--- a/Utilities/loadData.py
+++ b/Utilities/loadData.py
@@ -929,7 +929,8 @@ def loadTrackFile(configFile, trackFile, source, missingValue=0,
     else:
         LOG.debug("Determining poci")
         eps = np.random.normal(0, scale=2.5717)
-        poci = getPoci(penv, pressure, lat, jdays, eps)
+        poci = getPoci(penv, pressure, lat, jdays, eps,
+                       missingValue=missingValue)
 
 
     speed, bearing = getSpeedBearing(indicator, lon, lat, dt,
-- 
2.43.0


From 1feee57476b91ccaadbb9c11f31ff6983ed601c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:46:39 +0000
Subject: [PATCH 84/90] fix: leave missing pressures out of the lowest pressure
 of a track

A best track with one missing central pressure, held as zero, had a lowest
pressure of zero. It was thereby left out of the distribution of lowest
pressures.
---
 Evaluate/pressureDistribution.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Evaluate/pressureDistribution.py b/Evaluate/pressureDistribution.py
index 1b974aa..9dbbf05 100644
--- a/Evaluate/pressureDistribution.py
+++ b/Evaluate/pressureDistribution.py
@@ -167,7 +167,11 @@ class PressureDistribution(object):
 
         for i, t in enumerate(tracks):
             if t.inRegion(self.gridLimit):
-                minCP[i] = t.CentralPressure.min()
+                pressure = t.CentralPressure.\
+                           compress((t.CentralPressure > 0.0) &
+                                    (t.CentralPressure < sys.maxsize))
+                if len(pressure) > 0:
+                    minCP[i] = pressure.min()
 
         bins = np.arange(850., 1020., 5.)
         h = np.zeros(len(bins) - 1)
-- 
2.43.0


From 8da6b93fc3fa9f0a5dfc253a673ec1d8ff4239d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:06:04 +0000
Subject: [PATCH 85/90] fix: no category five for track points without a
 central pressure

Missing central pressures of best tracks are held as zero. The shape file
export took them for pressures below 930 hPa.
---
 Utilities/tracks2shp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Utilities/tracks2shp.py b/Utilities/tracks2shp.py
index 6147c29..cfd6871 100644
--- a/Utilities/tracks2shp.py
+++ b/Utilities/tracks2shp.py
@@ -141,7 +141,10 @@ def add_category(tracks):
         track.data = add_field(track.data, [("Category", int)])
 
         for rec in track.data:
-            if rec["CentralPressure"] < 930:
+            if rec["CentralPressure"] <= 0:
+                # Missing central pressure
+                rec["Category"] = 0
+            elif rec["CentralPressure"] < 930:
                 rec["Category"] = 5
             elif rec["CentralPressure"] < 955:
                 rec["Category"] = 4
-- 
2.43.0


From 4a647b3d348af5bc32565dd149179193aa4e12ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:36:31 +0000
Subject: [PATCH 86/90] fix: great circle distance between identical points
 stopped with a math domain error

---
 Utilities/maputils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Utilities/maputils.py b/Utilities/maputils.py
index 861b866..749d3f6 100644
--- a/Utilities/maputils.py
+++ b/Utilities/maputils.py
@@ -198,9 +198,11 @@ def distGC(lat, lon):
     lat = np.radians(lat)
     lon = np.radians(lon)
 
-    angular_distance = math.acos(math.sin(lat[0]) * math.sin(lat[1]) + \
-                       math.cos(lat[0]) * math.cos(lat[1]) * \
-                       math.cos(lon[0] - lon[1]))
+    cosine = math.sin(lat[0]) * math.sin(lat[1]) + \
+             math.cos(lat[0]) * math.cos(lat[1]) * \
+             math.cos(lon[0] - lon[1])
+    # Rounding can leave the cosine just outside [-1, 1]:
+    angular_distance = math.acos(max(-1., min(1., cosine)))
 
     return radius*angular_distance
 
-- 
2.43.0


From 7abadf2525a857d1b69ae2d933e1a0c17e0356a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:36:31 +0000
Subject: [PATCH 87/90] fix: unit conversions missing from the tables left
 values unconverted

---
 Utilities/metutils.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/Utilities/metutils.py b/Utilities/metutils.py
index 0bdb7ce..d596aa7 100644
--- a/Utilities/metutils.py
+++ b/Utilities/metutils.py
@@ -396,6 +396,8 @@ def convert(value, inunits, outunits):
         outunits = 'kph'
     if inunits == "m/s":
         inunits = "mps"
+    if outunits == "m/s":
+        outunits = "mps"
 
     # Speeds:
     mps = {"kph":3.6, "kts":1.944, "mph":2.2369}
@@ -405,8 +407,8 @@ def convert(value, inunits, outunits):
 
     # Temperatures:
     C = {"F":1.8, "K":1.}
-    F = {"C":0.5556}
-    K = {"C":1.}
+    F = {"C":0.5556, "K":0.5556}
+    K = {"C":1., "F":1.8}
 
     # Pressures:
     kPa = {"hPa":10., "Pa":1000., "inHg":0.295299831, "mmHg":7.500615613,
@@ -416,8 +418,9 @@ def convert(value, inunits, outunits):
     Pa = {"kPa":0.001, "hPa":0.01, "inHg":0.0002953, "mmHg":0.007500616,
           "Pascals":1.0}
     inHg = {"kPa":3.386388667, "hPa":33.863886667, "Pa":3386.388666667,
-            "mmHg":25.4}
-    mmHg = {"kPa":0.13332239, "hPa":1.3332239, "Pa":133.32239, "inHg":0.0394}
+            "mmHg":25.4, "Pascals":3386.388666667}
+    mmHg = {"kPa":0.13332239, "hPa":1.3332239, "Pa":133.32239, "inHg":0.0394,
+            "Pascals":133.32239}
     pascals = {"kPa":0.001, "hPa":0.01, "inHg":0.0002953, "mmHg":0.007500616,
           "Pa":1.0}
 
@@ -428,9 +431,12 @@ def convert(value, inunits, outunits):
            "rad":math.pi/180.}
     m = {"km":0.001, "mi":0.000621371, "deg":0.00000899886, "nm":0.000539957,
          "rad":0.0000001570783}
-    mi = {"km":1.60934, "m":1609.34, "deg":0.014482}
-    nm = {"km":1.852, "m":1852, "deg":0.01666, "rad":math.pi/10800.}
-    rad = {"nm":10800./math.pi, "km":6366.248653, "deg":180./math.pi}
+    mi = {"km":1.60934, "m":1609.34, "deg":0.014482, "nm":0.868976,
+          "rad":0.000252792}
+    nm = {"km":1.852, "m":1852, "deg":0.01666, "rad":math.pi/10800.,
+          "mi":1.150779}
+    rad = {"nm":10800./math.pi, "km":6366.248653, "deg":180./math.pi,
+           "m":6366248.653, "mi":3955.80}
 
     # Mixing ratio:
     gkg = {"kgkg":0.001}
@@ -459,10 +465,12 @@ def convert(value, inunits, outunits):
                "kgkg":kgkg}
 
     # Additions required before multiplication:
-    convert_pre = {"F":{"C":-32.}}
+    convert_pre = {"F":{"C":-32., "K":-32.},
+                   "K":{"F":-273.}}
     # Additions required after multiplication:
     convert_post = {"C":{"K":273., "F":32.},
-                    "K":{"C":-273.}}
+                    "F":{"K":273.},
+                    "K":{"C":-273., "F":32.}}
 
     if inunits in convert_pre:
         if outunits in convert_pre[inunits]:
-- 
2.43.0


From 8973280cf3db25e1dbe5053ded01eae6b84b0670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:38:16 +0000
Subject: [PATCH 88/90] fix: converting an array of temperatures from
 Fahrenheit changed the given array

---
 Utilities/metutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utilities/metutils.py b/Utilities/metutils.py
index d596aa7..5bb3542 100644
--- a/Utilities/metutils.py
+++ b/Utilities/metutils.py
@@ -474,7 +474,7 @@ def convert(value, inunits, outunits):
 
     if inunits in convert_pre:
         if outunits in convert_pre[inunits]:
-            value += convert_pre[inunits][outunits]
+            value = value + convert_pre[inunits][outunits]
 
     if inunits in convert:
         if outunits in convert[inunits]:
-- 
2.43.0


From 8d7fe3b393b38bc97f61d32243fab1e105cda5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:46:15 +0000
Subject: [PATCH 89/90] fix: central pressures above the outer pressure gave a
 wind speed of 0.95 m/s instead of none

---
 Utilities/loadData.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Utilities/loadData.py b/Utilities/loadData.py
index 81c8e98..f164939 100644
--- a/Utilities/loadData.py
+++ b/Utilities/loadData.py
@@ -274,6 +274,7 @@ def maxWindSpeed(index, deltatime, lon, lat, pressure, penv,
     # 3-second gust: 1.11
 
     v = gustfactor * np.sqrt(deltap * 100 * beta / (rho * np.exp(1.)))
+    v = np.ma.filled(v, 0)
     np.putmask(v, (np.isnan(v) |
                    np.isinf(v) |
                    (pressure >= 10e+7) |
-- 
2.43.0


From 9a2f18bb1ab6f9466840f77bcd227721d2b191cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:49:02 +0000
Subject: [PATCH 90/90] fix: conversion to and from UTM coordinates failed with
 a type error

---
 Utilities/lat_long_UTM_conversion.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Utilities/lat_long_UTM_conversion.py b/Utilities/lat_long_UTM_conversion.py
index 9261d4f..3b0f9ce 100644
--- a/Utilities/lat_long_UTM_conversion.py
+++ b/Utilities/lat_long_UTM_conversion.py
@@ -94,7 +94,7 @@ def LLtoUTM(lat, long, reference_ellipsoid=23, ZoneNumber=None):
     k0 = 0.9996
 
     # Make sure the longitude is between -180.00 .. 179.9
-    longTemp = (int+180)-int((int+180)/360)*360-180  # -180.00 .. 179.9
+    longTemp = (long+180)-int((long+180)/360)*360-180  # -180.00 .. 179.9
 
     latRad = lat*_deg2rad
     longRad = longTemp*_deg2rad
@@ -278,8 +278,8 @@ def UTMtoLL(northing, easting, zone, isSouthernHemisphere=True,
 
     long = (D-(1+2*T1+C1)*D*D*D/6+(5-2*C1+28*T1-3*C1*C1+8*eccPrimeSquared+24*T1*T1)
             *D*D*D*D*D/120)/cos(phi1Rad)
-    long = longOrigin + int * _rad2deg
-    return (lat, int)
+    long = longOrigin + long * _rad2deg
+    return (lat, long)
 
 if __name__ == '__main__':
     (z, e, n) = LLtoUTM(45.00, -75.00, 23)
-- 
2.43.0

