From 28886701a27063c4da0b2fd9abc58faada3762db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:54 +0000
Subject: [PATCH 001/109] fix: do not drop entries from velocity_inertial_list
 while a csv writer thread iterates over it

---
 src/auv_nav/process.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index 632374e..0e5b821 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -1087,7 +1087,8 @@ def process(
                 )
 
         if interpolate_remove_flag:
-            del velocity_inertial_list[0]
+            # Do not modify the list in place: a csv writer thread is using it
+            velocity_inertial_list = velocity_inertial_list[1:]
             interpolate_remove_flag = False  # reset flag
         Console.info(
             "Completed interpolation and coordinate transfomations for",
-- 
2.43.0


From 6454d18c1f756db108ea964cdc52f4de495f53cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:54 +0000
Subject: [PATCH 002/109] fix: tolerate csv writer threads creating the csv
 folder first

---
 src/auv_nav/process.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index 0e5b821..8e3b500 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -1713,8 +1713,7 @@ def process(
         Console.info("Writing csv outputs to {}".format(csvpath))
         if csv_usbl:
             if len(usbl_list) > 1:
-                if not csvpath.exists():
-                    csvpath.mkdir()
+                csvpath.mkdir(parents=True, exist_ok=True)
                 auv_usbl_file = csvpath / "auv_usbl.csv"
                 with auv_usbl_file.open("w") as fileout:
                     fileout.write(
-- 
2.43.0


From ba0b5af87ee6aa06665a82214b3c7c638c3183c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:54 +0000
Subject: [PATCH 003/109] fix: do not convert camera poses to relative poses
 while csv writer threads use them

---
 src/auv_nav/process.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index 8e3b500..02764fe 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -2029,6 +2029,10 @@ def process(
             t.start()
             threads.append(t)
     if spp_output_activate and ekf_activate:
+        # The csv writer threads are still using the camera lists. Work on copies.
+        camera1_ekf_list = copy.deepcopy(camera1_ekf_list)
+        camera2_ekf_list = copy.deepcopy(camera2_ekf_list)
+        camera3_ekf_list = copy.deepcopy(camera3_ekf_list)
         Console.info("Converting covariance matrices into information matrices...")
         for i in range(len(camera1_ekf_list)):
             camera1_ekf_list[i].get_info()
-- 
2.43.0


From 6a7e0def32713576b9bde3172a43066b737da347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:47 +0000
Subject: [PATCH 004/109] fix: do not carry image timestamps over from a
 previously parsed dive

---
 src/auv_nav/parsers/parse_acfr_images.py   | 4 ++--
 src/auv_nav/parsers/parse_biocam_images.py | 8 ++++----
 src/auv_nav/parsers/parse_ntnu_stereo.py   | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/auv_nav/parsers/parse_acfr_images.py b/src/auv_nav/parsers/parse_acfr_images.py
index 560e515..a3b03a9 100644
--- a/src/auv_nav/parsers/parse_acfr_images.py
+++ b/src/auv_nav/parsers/parse_acfr_images.py
@@ -16,8 +16,6 @@ import os
 from auv_nav.tools.time_conversions import date_time_to_epoch
 from oplab import Console, get_raw_folder
 
-epoch_timestamp_camera1 = []
-epoch_timestamp_camera2 = []
 values = []
 data_list = []
 tolerance = 0.05  # 0.01 # stereo pair must be within 10ms of each other
@@ -105,6 +103,8 @@ def parse_acfr_images(mission, vehicle, category, ftype, outpath):
         Console.warn("   --  Will assume that you want to process one camera only.")
         camera2_filename = camera1_filename
 
+    epoch_timestamp_camera1 = []
+    epoch_timestamp_camera2 = []
     data_list = []
     if ftype == "acfr":
         data_list = ""
diff --git a/src/auv_nav/parsers/parse_biocam_images.py b/src/auv_nav/parsers/parse_biocam_images.py
index 5ea0ad9..36176c1 100644
--- a/src/auv_nav/parsers/parse_biocam_images.py
+++ b/src/auv_nav/parsers/parse_biocam_images.py
@@ -20,10 +20,6 @@ from scipy.stats import linregress
 from auv_nav.tools.time_conversions import date_time_to_epoch
 from oplab import Console, get_raw_folder
 
-stamp_pc1 = []
-stamp_pc2 = []
-stamp_cam1 = []
-stamp_cam2 = []
 values = []
 data_list = []
 tolerance = 0.05  # 0.01 # stereo pair must be within 10ms of each other
@@ -168,6 +164,10 @@ def parse_biocam_images(mission, vehicle, category, ftype, outpath):
         + " BioCam images!"
     )
 
+    stamp_pc1 = []
+    stamp_pc2 = []
+    stamp_cam1 = []
+    stamp_cam2 = []
     data_list = []
     if ftype == "acfr":
         data_list = ""
diff --git a/src/auv_nav/parsers/parse_ntnu_stereo.py b/src/auv_nav/parsers/parse_ntnu_stereo.py
index ca1c72f..58ed8e0 100644
--- a/src/auv_nav/parsers/parse_ntnu_stereo.py
+++ b/src/auv_nav/parsers/parse_ntnu_stereo.py
@@ -14,8 +14,6 @@ See LICENSE.md file in the project root for full license information.
 from auv_nav.tools.time_conversions import date_time_to_epoch
 from oplab import Console, get_raw_folder
 
-epoch_timestamp_camera1 = []
-epoch_timestamp_camera2 = []
 values = []
 data_list = []
 tolerance = 0.05  # 0.01 # stereo pair must be within 10ms of each other
@@ -93,6 +91,8 @@ def parse_ntnu_stereo_images(mission, vehicle, category, ftype, outpath):
     camera2_relpath = [x.relative_to(mission_path) for x in p if x.is_file()]
     camera2_filename = [x.name for x in camera2_relpath]
 
+    epoch_timestamp_camera1 = []
+    epoch_timestamp_camera2 = []
     data_list = []
     if ftype == "acfr":
         data_list = ""
-- 
2.43.0


From a530a5a7d7221e7815d602bbbef725f66abc1655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:47 +0000
Subject: [PATCH 005/109] fix: order parsed measurements by time as a number,
 not as text

---
 src/auv_nav/parsers/parse_interlacer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/parsers/parse_interlacer.py b/src/auv_nav/parsers/parse_interlacer.py
index b6e6b34..786245d 100644
--- a/src/auv_nav/parsers/parse_interlacer.py
+++ b/src/auv_nav/parsers/parse_interlacer.py
@@ -31,7 +31,7 @@ def parse_interlacer(outpath, filename):
         with filepath.open("r") as json_file:
             data = json.load(json_file)
             for i, data_packet in enumerate(data):
-                value.append(str(float(data_packet["epoch_timestamp"])))
+                value.append(float(data_packet["epoch_timestamp"]))
 
     except ValueError:
         Console.quit("Error: no data in JSON file")
-- 
2.43.0


From d80ad84cdd062df4f5104c4adc0022960227de75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:36 +0000
Subject: [PATCH 006/109] fix: tide-correct measurements at both ends of the
 tide record and in any order

---
 src/auv_nav/parse.py | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/src/auv_nav/parse.py b/src/auv_nav/parse.py
index e2549bc..297472f 100644
--- a/src/auv_nav/parse.py
+++ b/src/auv_nav/parse.py
@@ -13,6 +13,8 @@ from datetime import datetime
 from multiprocessing.pool import ThreadPool
 from pathlib import Path
 
+import numpy as np
+
 # fmt: off
 from auv_nav.parsers.parse_acfr_images import parse_acfr_images
 from auv_nav.parsers.parse_ae2000 import parse_ae2000
@@ -40,7 +42,6 @@ from auv_nav.parsers.parse_voyis import parse_voyis_images
 # from lib_sensors.parse_chemical import parse_chemical
 from auv_nav.plot.plot_parse_data import plot_parse_data
 from auv_nav.sensors import Category
-from auv_nav.tools.interpolate import interpolate
 from oplab import Console, Mission, Vehicle, get_processed_folder, get_raw_folder
 
 # fmt: on
@@ -710,26 +711,17 @@ def parse_single(filepath, force_overwrite):
                 # Offset depth to acknowledge for tides
                 missing_tide_data_before = False
                 missing_tide_data_after = False
-                j = 0
+                tide_list.sort(key=lambda tide: tide["epoch_timestamp"])
+                tide_times = [tide["epoch_timestamp"] for tide in tide_list]
+                tide_heights = [tide["data"][0]["height"] for tide in tide_list]
                 for k in range(len(results)):
-                    while (
-                        j < len(tide_list)-2
-                        and tide_list[j]["epoch_timestamp"]
-                        < results[k]["epoch_timestamp"]
-                    ):
-                        j = j + 1
-
-                    if j == 0:
+                    if results[k]["epoch_timestamp"] < tide_times[0]:
                         missing_tide_data_before = True
-                    elif (
-                        results[k]["epoch_timestamp"] <= tide_list[j]["epoch_timestamp"]
-                    ):
-                        _result = interpolate(
-                            results[k]["epoch_timestamp"],
-                            tide_list[j - 1]["epoch_timestamp"],
-                            tide_list[j]["epoch_timestamp"],
-                            tide_list[j - 1]["data"][0]["height"],
-                            tide_list[j]["data"][0]["height"],
+                    elif results[k]["epoch_timestamp"] <= tide_times[-1]:
+                        _result = float(
+                            np.interp(
+                                results[k]["epoch_timestamp"], tide_times, tide_heights
+                            )
                         )
                         if results[0]["category"] == Category.DEPTH:
                             results[k]["data"][0]["depth"] = (
-- 
2.43.0


From f9e68943714e2487e640093ae5d776993f9ec282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:36 +0000
Subject: [PATCH 007/109] fix: merging dives failed before the merged file was
 put in time order

---
 src/auv_nav/parse.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/auv_nav/parse.py b/src/auv_nav/parse.py
index 297472f..1b2d5f9 100644
--- a/src/auv_nav/parse.py
+++ b/src/auv_nav/parse.py
@@ -91,7 +91,7 @@ def merge_json_files(json_file_list):
                 item["camera3"][0]["filename"] = (
                     dive_prefix + item["camera3"][0]["filename"]
                 )
-            if item["category"] == "laser":
+            if item["category"] == "laser" and "filename" in item:
                 item["filename"] = dive_prefix + item["filename"]
             data_list.append(item)
 
@@ -156,15 +156,15 @@ def parse(filepath, force_overwrite, merge):
 
         # copy mission.yaml and vehicle.yaml to processed folder for
         # process step
-        mission_processed = get_processed_folder(filepath[0]) / "mission.yaml"
-        vehicle_processed = get_processed_folder(filepath[0]) / "vehicle.yaml"
-        camera_processed = get_processed_folder(filepath[0]) / "camera.yaml"
+        mission_raw = get_raw_folder(filepath[0]) / "mission.yaml"
+        vehicle_raw = get_raw_folder(filepath[0]) / "vehicle.yaml"
+        camera_raw = get_raw_folder(filepath[0]) / "camera.yaml"
         mission_merged = processed_path / foldername / "mission.yaml"
         vehicle_merged = processed_path / foldername / "vehicle.yaml"
         camera_merged = processed_path / foldername / "camera.yaml"
-        mission_processed.copy(mission_merged)
-        vehicle_processed.copy(vehicle_merged)
-        camera_processed.copy(camera_merged)
+        mission_raw.copy(mission_merged)
+        vehicle_raw.copy(vehicle_merged)
+        camera_raw.copy(camera_merged)
 
         # interlace the data based on timestamps
         Console.info("Interlacing merged data...")
-- 
2.43.0


From 0b8f2f50719b56c2db72edd9cdeb1dc97e4755f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:17 +0000
Subject: [PATCH 008/109] fix: interpolate poses in the last navigation
 interval instead of extrapolating or dropping them; drop poses outside the
 navigation data

---
 src/auv_nav/tools/interpolate.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/auv_nav/tools/interpolate.py b/src/auv_nav/tools/interpolate.py
index e62e609..ab1f3dc 100644
--- a/src/auv_nav/tools/interpolate.py
+++ b/src/auv_nav/tools/interpolate.py
@@ -283,6 +283,8 @@ def eigen_sorted(a):
 
 
 def interpolate_covariance(t, t0, t1, cov0, cov1):
+    if t1 == t0:
+        return cov0
     x = (t - t0) / (t1 - t0)
     cov = (1 - x) * cov0 + x * cov1
     return cov
@@ -312,7 +314,7 @@ def interpolate_sensor_list(
     latlon_reference,
     _centre_list,
 ):
-    j = 0
+    j = min(1, len(_centre_list) - 1)
     [origin_x_offset, origin_y_offset, origin_z_offset] = origin_offsets
     [latitude_reference, longitude_reference] = latlon_reference
     # Check if camera activates before dvl and orientation sensors.
@@ -326,6 +328,7 @@ def interpolate_sensor_list(
             "{} timestamps does not overlap with dead reckoning data, "
             "check timestamp_history.pdf via -v option.".format(sensor_name)
         )
+        del sensor_list[:]
     else:
         sensor_overlap_flag = 0
         for i in range(len(sensor_list)):
@@ -350,7 +353,7 @@ def interpolate_sensor_list(
                     del sensor_list[:i]
                 break
         for i in range(len(sensor_list)):
-            if j >= len(_centre_list) - 1:
+            if sensor_list[i].epoch_timestamp > end_time:
                 ii = len(sensor_list) - i
                 if ii > 0:
                     Console.warn(
@@ -370,14 +373,7 @@ def interpolate_sensor_list(
                 sensor_overlap_flag = 1
                 break
             while _centre_list[j].epoch_timestamp < sensor_list[i].epoch_timestamp:
-                if (
-                    j + 1 > len(_centre_list) - 1
-                    or _centre_list[j + 1].epoch_timestamp
-                    > sensor_list[-1].epoch_timestamp
-                ):
-                    break
                 j += 1
-            # if j>=1: ?
 
             sensor_list[i].roll = interpolate(
                 sensor_list[i].epoch_timestamp,
-- 
2.43.0


From bc5562b8e9ea574b812945f6c6dbc59356383d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:17 +0000
Subject: [PATCH 009/109] fix: interpolate laser poses in the first interval
 and across the 0/360 heading wrap

---
 src/auv_nav/tools/interpolate.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/auv_nav/tools/interpolate.py b/src/auv_nav/tools/interpolate.py
index ab1f3dc..d6c564e 100644
--- a/src/auv_nav/tools/interpolate.py
+++ b/src/auv_nav/tools/interpolate.py
@@ -142,7 +142,7 @@ def interpolate_camera(query_timestamp, camera_list, filename):
             break
     c1 = camera_list[i]
     c2 = camera_list[i]
-    if i > 1:
+    if i > 0:
         c1 = camera_list[i - 1]
 
     c = Camera()
@@ -197,8 +197,16 @@ def interpolate_camera(query_timestamp, camera_list, filename):
         c1.pitch,
         c2.pitch,
     )
-    c.yaw = interpolate(
-        query_timestamp, c1.epoch_timestamp, c2.epoch_timestamp, c1.yaw, c2.yaw
+    # Average headings along the shorter arc
+    c.yaw = (
+        interpolate(
+            query_timestamp,
+            c1.epoch_timestamp,
+            c2.epoch_timestamp,
+            c1.yaw,
+            c1.yaw + (c2.yaw - c1.yaw + 180) % 360 - 180,
+        )
+        % 360
     )
     c.x_velocity = interpolate(
         query_timestamp,
-- 
2.43.0


From b3a7133e6820c038ee8fe6a711eeeafd0a5029c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:17 +0000
Subject: [PATCH 010/109] fix: inertial_to_body is the inverse of
 body_to_inertial for every attitude

---
 src/auv_nav/tools/inertial_to_body.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/tools/inertial_to_body.py b/src/auv_nav/tools/inertial_to_body.py
index a57bf22..e314592 100644
--- a/src/auv_nav/tools/inertial_to_body.py
+++ b/src/auv_nav/tools/inertial_to_body.py
@@ -67,7 +67,7 @@ def inertial_to_body(roll, pitch, yaw, old_x, old_y, old_z):
 
     new_z = (
         (sy * sr + cy * sp * cr) * old_x  # c
-        + (-cy * sr + sy * sp * sr) * old_y  # f
+        + (-cy * sr + sy * sp * cr) * old_y  # f
         + (cp * cr) * old_z  # i
     )
 
-- 
2.43.0


From 0562ec71e2f5a6bf9d81ace9b276d376c9c46821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:15 +0000
Subject: [PATCH 011/109] fix: interpolate depth and altitude before their
 second sample with the first two samples, not the last one

---
 src/auv_nav/process.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index 02764fe..a3ca8fe 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -664,7 +664,8 @@ def process(
 
     non_processed_altitude_index_list.reverse()
     for i in non_processed_altitude_index_list:
-        altitude_list[i].seafloor_depth = altitude_list[i + 1].seafloor_depth
+        if i + 1 < len(altitude_list):
+            altitude_list[i].seafloor_depth = altitude_list[i + 1].seafloor_depth
 
     # # if velocity_body_list is empty, then estimate it from velocity_inertial_list
     # # and orientation_list
@@ -768,8 +769,9 @@ def process(
     will any (sudden start and stop) affect it?
     """
     j = 0
-    k = 0
-    n = 0
+    # Depth and altitude are interpolated between samples k - 1 and k (n - 1 and n)
+    k = min(1, len(depth_list) - 1)
+    n = min(1, len(altitude_list) - 1)
     start_interpolate_index = 0
 
     while (
-- 
2.43.0


From de0223b9963896fd05a6952706ea5cf069303055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:26 +0000
Subject: [PATCH 012/109] fix: give dead-reckoned poses a latitude and
 longitude when there are no USBL fixes

---
 src/auv_nav/process.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index a3ca8fe..fca4d52 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -1157,6 +1157,13 @@ def process(
                 )
     else:
         Console.warn("There are no USBL measurements. Starting DR at origin...")
+        for item in dead_reckoning_centre_list + dead_reckoning_dvl_list:
+            item.latitude, item.longitude = metres_to_latlon(
+                mission.origin.latitude,
+                mission.origin.longitude,
+                item.eastings,
+                item.northings,
+            )
 
     # particle filter data fusion of usbl_data and dvl_imu_data
     if particle_filter_activate and len(usbl_list) > 0:
-- 
2.43.0


From f7b6f02460e7cf9ee71de92fb5bcc68a5c3420be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:26 +0000
Subject: [PATCH 013/109] fix: angular speed at the end of a two-sample
 orientation list

---
 src/auv_nav/tools/dvl_level_arm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/tools/dvl_level_arm.py b/src/auv_nav/tools/dvl_level_arm.py
index f086f39..03f472b 100644
--- a/src/auv_nav/tools/dvl_level_arm.py
+++ b/src/auv_nav/tools/dvl_level_arm.py
@@ -44,7 +44,7 @@ def compute_angular_speeds(orientation_vec, i):
     if i >= 1 and i < len(orientation_vec) - 1:
         o1 = orientation_vec[i - 1]
         o2 = orientation_vec[i + 1]
-    elif i > 1 and i == len(orientation_vec) - 1:
+    elif i >= 1 and i == len(orientation_vec) - 1:
         o1 = orientation_vec[i - 1]
         o2 = orientation_vec[i]
     elif i == 0:
-- 
2.43.0


From aad28c68da42b3467eb2df1bd304aa5a75c72213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:50 +0000
Subject: [PATCH 014/109] fix: camera latitude and longitude are those of the
 camera, not of the vehicle centre

---
 src/auv_nav/sensors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/sensors.py b/src/auv_nav/sensors.py
index ffdafb6..2b485bc 100644
--- a/src/auv_nav/sensors.py
+++ b/src/auv_nav/sensors.py
@@ -1898,8 +1898,8 @@ class Camera(SyncedOrientationBodyVelocity):
         [self.latitude, self.longitude] = metres_to_latlon(
             latitude_reference,
             longitude_reference,
-            other.eastings,
-            other.northings,
+            self.eastings,
+            self.northings,
         )
 
         self.updated = True
-- 
2.43.0


From 4c0f2ebb61e4258c85f656da3ef939f8f0ee9b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:30 +0000
Subject: [PATCH 015/109] fix: offset dead reckoning by all USBL fixes taken
 during it; sparse, single or non-overlapping fixes crashed

---
 src/auv_nav/localisation/usbl_offset.py | 130 ++++++------------------
 1 file changed, 33 insertions(+), 97 deletions(-)

diff --git a/src/auv_nav/localisation/usbl_offset.py b/src/auv_nav/localisation/usbl_offset.py
index 9e9ad1d..4e9fcd8 100644
--- a/src/auv_nav/localisation/usbl_offset.py
+++ b/src/auv_nav/localisation/usbl_offset.py
@@ -26,109 +26,45 @@ def usbl_offset(
     eastings_usbl,
 ):
     # ===============Average Offset============================================
-    start_dead_reckoning = 0
-    start_usbl = 0
+    # Average, over all USBL fixes taken while dead reckoning, of the difference
+    # between the fix and the dead-reckoned position interpolated at its time
+    northings_differences = []
+    eastings_differences = []
 
-    threshold = 20  # what to consider a big jump in time
-    exit_flag = False
-
-    # Find suitable start points
-    if time_usbl[0] < time_dead_reckoning[0]:
-        Console.info("USBL starts before dead_reckoning")
-        while exit_flag is False:
-            if start_usbl + 1 >= len(time_usbl):
-                break
-            if (
-                time_dead_reckoning[start_dead_reckoning] - time_usbl[start_usbl + 1]
-                > 0
-            ):
-                start_usbl = start_usbl + 1
-            else:
-                if (
-                    time_dead_reckoning[start_dead_reckoning] - time_usbl[start_usbl]
-                    < threshold
-                    and time_usbl[start_usbl + 1] - time_usbl[start_usbl] < threshold
-                ):
-                    start_usbl += 1
-                    exit_flag = True
-                else:
-                    start_dead_reckoning = start_dead_reckoning + 1
-    else:
-        # print('usbl starts after dead_reckoning')
-        while exit_flag is False:
-            if time_dead_reckoning[start_dead_reckoning] - time_usbl[start_usbl] < 0:
-                start_dead_reckoning = start_dead_reckoning + 1
-
-            else:
-                if (
-                    time_dead_reckoning[start_dead_reckoning] - time_usbl[start_usbl]
-                    < threshold
-                    and time_usbl[start_usbl + 1] - time_usbl[start_usbl] < threshold
-                ):
-                    start_usbl += 1
-                    exit_flag = True
-                else:  # if the jump is too big, ignore and try another fix
-                    start_usbl = start_usbl + 1
-
-    northings_dead_reckoning_interpolated = []
-    eastings_dead_reckoning_interpolated = []
-
-    for j_usbl in range(start_usbl, len(time_usbl)):
-        if start_dead_reckoning + 1 >= len(time_dead_reckoning):
+    j = min(1, len(time_dead_reckoning) - 1)
+    for i in range(len(time_usbl)):
+        if time_usbl[i] < time_dead_reckoning[0]:
+            continue
+        if time_usbl[i] > time_dead_reckoning[-1]:
             break
-        try:
-            while time_dead_reckoning[start_dead_reckoning + 1] < time_usbl[j_usbl]:
-                start_dead_reckoning += 1
-        except IndexError:
-            break
-        northings_dead_reckoning_interpolated.append(
-            interpolate(
-                time_usbl[j_usbl],
-                time_dead_reckoning[start_dead_reckoning],
-                time_dead_reckoning[start_dead_reckoning + 1],
-                northings_dead_reckoning[start_dead_reckoning],
-                northings_dead_reckoning[start_dead_reckoning + 1],
+        while time_dead_reckoning[j] < time_usbl[i]:
+            j += 1
+        northings_differences.append(
+            northings_usbl[i]
+            - interpolate(
+                time_usbl[i],
+                time_dead_reckoning[j - 1],
+                time_dead_reckoning[j],
+                northings_dead_reckoning[j - 1],
+                northings_dead_reckoning[j],
             )
         )
-        eastings_dead_reckoning_interpolated.append(
-            interpolate(
-                time_usbl[j_usbl],
-                time_dead_reckoning[start_dead_reckoning],
-                time_dead_reckoning[start_dead_reckoning + 1],
-                eastings_dead_reckoning[start_dead_reckoning],
-                eastings_dead_reckoning[start_dead_reckoning + 1],
+        eastings_differences.append(
+            eastings_usbl[i]
+            - interpolate(
+                time_usbl[i],
+                time_dead_reckoning[j - 1],
+                time_dead_reckoning[j],
+                eastings_dead_reckoning[j - 1],
+                eastings_dead_reckoning[j],
             )
         )
 
-    northings_offset = sum(
-        northings_usbl[
-            start_usbl : start_usbl + len(northings_dead_reckoning_interpolated)  # noqa
-        ]
-    ) / len(
-        northings_usbl[
-            start_usbl : (  # noqa
-                start_usbl + len(northings_dead_reckoning_interpolated)
-            )
-        ]
-    ) - sum(
-        northings_dead_reckoning_interpolated
-    ) / len(
-        northings_dead_reckoning_interpolated
-    )
-    eastings_offset = sum(
-        eastings_usbl[
-            start_usbl : (  # noqa
-                start_usbl + len(eastings_dead_reckoning_interpolated)
-            )
-        ]
-    ) / len(
-        eastings_usbl[
-            start_usbl : start_usbl + len(eastings_dead_reckoning_interpolated)  # noqa
-        ]
-    ) - sum(
-        eastings_dead_reckoning_interpolated
-    ) / len(
-        eastings_dead_reckoning_interpolated
-    )
+    if len(northings_differences) == 0:
+        Console.warn("There are no USBL fixes during dead reckoning")
+        return 0.0, 0.0
+
+    northings_offset = sum(northings_differences) / len(northings_differences)
+    eastings_offset = sum(eastings_differences) / len(eastings_differences)
 
     return northings_offset, eastings_offset
-- 
2.43.0


From 45d1715aa14c6ecf41ece29dc60da2999176a260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:19 +0000
Subject: [PATCH 016/109] fix: the EKF ignores infinite measurements as it
 ignores NaN ones

---
 src/auv_nav/localisation/ekf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/localisation/ekf.py b/src/auv_nav/localisation/ekf.py
index 018464f..a29465e 100644
--- a/src/auv_nav/localisation/ekf.py
+++ b/src/auv_nav/localisation/ekf.py
@@ -529,9 +529,9 @@ class EkfImpl(object):
         # First, determine how many state vector values we're updating
         update_indices = []
         for i in range(len(measurement.update_vector)):
-            nans_around = np.isnan(measurement.measurement[i]).any()
+            is_finite = np.isfinite(measurement.measurement[i]).all()
             update_value = measurement.update_vector[i]
-            if update_value == 1 and not nans_around:
+            if update_value == 1 and is_finite:
                 update_indices.append(i)
 
         # Now build the sub-matrices from the full-sized matrices
-- 
2.43.0


From a2544b60241891eca78cb0802b70f7979cffb7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:19 +0000
Subject: [PATCH 017/109] fix: the EKF does not publish states after the end of
 the navigation data

---
 src/auv_nav/localisation/ekf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/auv_nav/localisation/ekf.py b/src/auv_nav/localisation/ekf.py
index a29465e..b489e2f 100644
--- a/src/auv_nav/localisation/ekf.py
+++ b/src/auv_nav/localisation/ekf.py
@@ -984,6 +984,8 @@ class ExtendedKalmanFilter(object):
                 current_stamp = min(valid_stamps)
             else:
                 break  # If there is no timestep left to predict to, we are done
+            if current_stamp > self.end_time:
+                break  # Do not predict beyond the end of the navigation data
 
             self.ekf.predict(
                 current_stamp,
-- 
2.43.0


From 6728a639657d40a204edef0b1406f3b8eeb9863c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:19 +0000
Subject: [PATCH 018/109] fix: EKF altitude refers to the vehicle origin like
 its depth

---
 src/auv_nav/localisation/ekf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/auv_nav/localisation/ekf.py b/src/auv_nav/localisation/ekf.py
index b489e2f..739c060 100644
--- a/src/auv_nav/localisation/ekf.py
+++ b/src/auv_nav/localisation/ekf.py
@@ -1097,6 +1097,8 @@ def save_ekf_to_list(
             b.northings += x_offset
             b.eastings += y_offset
             b.depth += z_offset
+        else:
+            z_offset = 0.0
 
         # Transform to lat lon using origins
         b.latitude, b.longitude = metres_to_latlon(
@@ -1108,7 +1110,7 @@ def save_ekf_to_list(
 
         # Interpolate altitude from DVL
         while (
-            dr_idx < len(dead_reckoning_dvl_list)
+            dr_idx < len(dead_reckoning_dvl_list) - 1
             and dead_reckoning_dvl_list[dr_idx].epoch_timestamp < b.epoch_timestamp
         ):
             dr_idx += 1
@@ -1119,6 +1121,7 @@ def save_ekf_to_list(
             dead_reckoning_dvl_list[dr_idx - 1].altitude,
             dead_reckoning_dvl_list[dr_idx].altitude,
         )
+        b.altitude -= z_offset
         ekf_list.append(b)
     return ekf_list
 
-- 
2.43.0


From ad56f3f077db3c383ec247a152ec897f08bbed00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:12 +0000
Subject: [PATCH 019/109] fix: smooth the first EKF state with a matrix product

---
 src/auv_nav/localisation/ekf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/localisation/ekf.py b/src/auv_nav/localisation/ekf.py
index 739c060..45cc519 100644
--- a/src/auv_nav/localisation/ekf.py
+++ b/src/auv_nav/localisation/ekf.py
@@ -648,7 +648,7 @@ class EkfImpl(object):
                 A = self.compute_transfer_function_jacobian(delta, x_prior, f)
 
                 p_prior_pred = A @ p_prior @ A.T + self.process_noise_covariance * delta
-                J = p_prior * A.T * np.linalg.inv(p_prior_pred)
+                J = p_prior @ A.T @ np.linalg.inv(p_prior_pred)
 
                 innovation = x_smoothed - f @ x_prior
                 # Wrap angles of the innovation_subset
-- 
2.43.0


From f76c5a3bf370a57bc16d41e8f337818c21999c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:03 +0000
Subject: [PATCH 020/109] fix: no progress to report when there is nothing to
 do

---
 src/oplab/console.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oplab/console.py b/src/oplab/console.py
index a548403..54d890b 100644
--- a/src/oplab/console.py
+++ b/src/oplab/console.py
@@ -264,6 +264,8 @@ class Console:
         fill : str
             Bar fill character, by default '█'
         """
+        if total == 0:
+            return
         percent = ("{0:." + str(decimals) + "f}").format(
             100 * (iteration / float(total))
         )
-- 
2.43.0


From d28592b5d91c84065bc796190fe23f79c24d456c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:04 +0000
Subject: [PATCH 021/109] fix: timestamps in raw data are UTC, do not read them
 in the host's time zone

---
 src/auv_nav/parsers/koyo20rov.py           |  4 ++--
 src/auv_nav/parsers/parse_koyo21rov.py     |  5 +++--
 src/auv_nav/parsers/parse_sonardyne_mrt.py | 10 +++++-----
 src/auv_nav/sensors.py                     | 20 +++++++++++++++-----
 src/auv_nav/tools/time_conversions.py      |  2 +-
 5 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/src/auv_nav/parsers/koyo20rov.py b/src/auv_nav/parsers/koyo20rov.py
index 00bd39f..9388042 100644
--- a/src/auv_nav/parsers/koyo20rov.py
+++ b/src/auv_nav/parsers/koyo20rov.py
@@ -8,7 +8,7 @@ See LICENSE.md file in the project root for full license information.
 
 
 from copy import deepcopy
-from datetime import datetime
+from datetime import datetime, timezone
 from pathlib import Path
 from typing import Union
 
@@ -249,7 +249,7 @@ def epoch_to_timestr(epoch: Union[int, float]) -> str:
     Returns:
         str: date as YYYYMMDD_hhmmss
     """
-    time = datetime.fromtimestamp(epoch)
+    time = datetime.fromtimestamp(epoch, tz=timezone.utc)
     timestr = (
         f"{time.year:04}{time.month:02}{time.day:02}"
         f"_{time.hour:02}{time.minute:02}{time.second:02}"
diff --git a/src/auv_nav/parsers/parse_koyo21rov.py b/src/auv_nav/parsers/parse_koyo21rov.py
index 6acefac..3214cab 100644
--- a/src/auv_nav/parsers/parse_koyo21rov.py
+++ b/src/auv_nav/parsers/parse_koyo21rov.py
@@ -5,6 +5,7 @@ All rights reserved.
 Licensed under the BSD 3-Clause License.
 See LICENSE.md file in the project root for full license information.
 """
+import calendar
 import time
 from math import isnan
 
@@ -83,7 +84,7 @@ def parse_koyo21rov(mission, vehicle, category, ftype, outpath):
     if "timestamp" in mission_data.columns:
         # filtered position. Convert on the fly using a lambda function
         mission_data["epoch_timestamp"] = mission_data.apply(
-            lambda row: time.mktime(
+            lambda row: calendar.timegm(
                 time.strptime(row["timestamp"], "%Y-%m-%d %H:%M:%S")
             ),
             axis=1,
@@ -91,7 +92,7 @@ def parse_koyo21rov(mission, vehicle, category, ftype, outpath):
     else:
         # raw data
         mission_data["epoch_timestamp"] = mission_data.apply(
-            lambda row: time.mktime(
+            lambda row: calendar.timegm(
                 time.strptime(
                     str(row["Date"]) + " " + str(row["Time"]), "%Y/%m/%d %H:%M:%S"
                 )
diff --git a/src/auv_nav/parsers/parse_sonardyne_mrt.py b/src/auv_nav/parsers/parse_sonardyne_mrt.py
index ed7bfaf..fc0d9e0 100644
--- a/src/auv_nav/parsers/parse_sonardyne_mrt.py
+++ b/src/auv_nav/parsers/parse_sonardyne_mrt.py
@@ -35,7 +35,7 @@ class MRTBase:  # 9
         try:
             self.epoch_timestamp = datetime.datetime.strptime(
                 self.time_stamp, "%Y-%m-%d %H:%M:%S.%f"
-            ).timestamp()
+            ).replace(tzinfo=datetime.timezone.utc).timestamp()
         except ValueError:
             pass
 
@@ -822,7 +822,7 @@ def parse_sonardyne_gga(mission, vehicle, category, ftype, outpath):
 
         data = {
             "epoch_timestamp": datetime.datetime.strptime(auv_obs.time_stamp, "%Y-%m-%d %H:%M:%S.%f"
-        ).timestamp() + timeoffset_s,
+        ).replace(tzinfo=datetime.timezone.utc).timestamp() + timeoffset_s,
             "class": class_string,
             "sensor": sensor_string,
             "frame": frame_string,
@@ -945,7 +945,7 @@ def parse_sonardyne_gga2(mission, vehicle, category, ftype, outpath):
 
         data = {
             "epoch_timestamp": datetime.datetime.strptime(auv_obs.time_stamp, "%Y-%m-%d %H:%M:%S.%f"
-        ).timestamp() + timeoffset_s,
+        ).replace(tzinfo=datetime.timezone.utc).timestamp() + timeoffset_s,
             "class": class_string,
             "sensor": sensor_string,
             "frame": frame_string,
@@ -1068,7 +1068,7 @@ def parse_sonardyne_gga3(mission, vehicle, category, ftype, outpath):
 
         data = {
             "epoch_timestamp": datetime.datetime.strptime(auv_obs.time_stamp, "%Y-%m-%d %H:%M:%S.%f"
-        ).timestamp() + timeoffset_s,
+        ).replace(tzinfo=datetime.timezone.utc).timestamp() + timeoffset_s,
             "class": class_string,
             "sensor": sensor_string,
             "frame": frame_string,
@@ -1191,7 +1191,7 @@ def parse_sonardyne_gga4(mission, vehicle, category, ftype, outpath):
 
         data = {
             "epoch_timestamp": datetime.datetime.strptime(auv_obs.time_stamp, "%Y-%m-%d %H:%M:%S.%f"
-        ).timestamp() + timeoffset_s,
+        ).replace(tzinfo=datetime.timezone.utc).timestamp() + timeoffset_s,
             "class": class_string,
             "sensor": sensor_string,
             "frame": frame_string,
diff --git a/src/auv_nav/sensors.py b/src/auv_nav/sensors.py
index 2b485bc..ec1a656 100644
--- a/src/auv_nav/sensors.py
+++ b/src/auv_nav/sensors.py
@@ -227,7 +227,9 @@ class BodyVelocity(OutputFormat):
         date_obj = datetime.datetime.strptime(filename[0:8], "%Y%m%d")
         time_obj = datetime.datetime.strptime(line["time"], "%H:%M:%S.%f")
         date_time_obj = datetime.datetime.combine(date_obj, time_obj.time())
-        self.epoch_timestamp = date_time_obj.timestamp()
+        self.epoch_timestamp = date_time_obj.replace(
+            tzinfo=datetime.timezone.utc
+        ).timestamp()
         self.epoch_timestamp_dvl = self.epoch_timestamp
         vx = float(line["u_dvl"])
         vy = float(line["v_dvl"])
@@ -652,7 +654,9 @@ class Orientation(OutputFormat):
         self.sensor_string = "eiva_navipac"
         parts = line.split()
         date_time_obj = datetime.datetime.strptime(parts[2], "%Y:%m:%d:%H:%M:%S.%f")
-        self.epoch_timestamp = date_time_obj.timestamp()
+        self.epoch_timestamp = date_time_obj.replace(
+            tzinfo=datetime.timezone.utc
+        ).timestamp()
         if self.epoch_timestamp == 0:
             # Invalid timestamp
             self.epoch_timestamp = None
@@ -888,7 +892,9 @@ class Depth(OutputFormat):
         self.sensor_string = "eiva_navipac"
         parts = line.split()
         date_time_obj = datetime.datetime.strptime(parts[4], "%Y:%m:%d:%H:%M:%S.%f")
-        self.epoch_timestamp = date_time_obj.timestamp()
+        self.epoch_timestamp = date_time_obj.replace(
+            tzinfo=datetime.timezone.utc
+        ).timestamp()
         self.depth_timestamp = self.epoch_timestamp
         if self.epoch_timestamp == 0:
             # Invalid timestamp
@@ -1040,7 +1046,9 @@ class Altitude(OutputFormat):
         date_obj = datetime.datetime.strptime(filename[0:8], "%Y%m%d")
         time_obj = datetime.datetime.strptime(row["time"], "%H:%M:%S.%f")
         date_time_obj = datetime.datetime.combine(date_obj, time_obj.time())
-        self.epoch_timestamp = date_time_obj.timestamp()
+        self.epoch_timestamp = date_time_obj.replace(
+            tzinfo=datetime.timezone.utc
+        ).timestamp()
         self.altitude_timestamp = self.epoch_timestamp
         # alt0 = float(row["dvl_alt0"])  # fore
         alt1 = float(row["dvl_alt1"])  # left
@@ -1273,7 +1281,9 @@ class Usbl(OutputFormat):
         self.sensor_string = "eiva_navipac"
         parts = line.split()
         date_time_obj = datetime.datetime.strptime(parts[3], "%Y:%m:%d:%H:%M:%S.%f")
-        self.epoch_timestamp = date_time_obj.timestamp()
+        self.epoch_timestamp = date_time_obj.replace(
+            tzinfo=datetime.timezone.utc
+        ).timestamp()
         if self.epoch_timestamp == 0:
             # Invalid timestamp
             self.epoch_timestamp = None
diff --git a/src/auv_nav/tools/time_conversions.py b/src/auv_nav/tools/time_conversions.py
index 9827b7e..1d20e44 100644
--- a/src/auv_nav/tools/time_conversions.py
+++ b/src/auv_nav/tools/time_conversions.py
@@ -52,7 +52,7 @@ def get_localtimezone():
 
 
 def epoch_to_day(epoch):
-    return time.strftime("%Y/%m/%d", time.localtime(epoch))
+    return time.strftime("%Y/%m/%d", time.gmtime(epoch))
 
 
 def string_to_epoch(date_time):
-- 
2.43.0


From ce47d79fb8500bb192a8379818d98f8518b729b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:04 +0000
Subject: [PATCH 022/109] fix: CET is one hour ahead of UTC in read_timezone

---
 src/auv_nav/tools/time_conversions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/tools/time_conversions.py b/src/auv_nav/tools/time_conversions.py
index 1d20e44..47ff7a1 100644
--- a/src/auv_nav/tools/time_conversions.py
+++ b/src/auv_nav/tools/time_conversions.py
@@ -84,7 +84,7 @@ def read_timezone(timezone):
         if timezone == "utc" or timezone == "UTC":
             timezone_offset_h = 0.0
         elif timezone == "cet" or timezone == "CET":
-            timezone_offset_h = 0.0
+            timezone_offset_h = 1.0
         elif timezone == "jst" or timezone == "JST":
             timezone_offset_h = 9.0
         elif timezone == "bst" or timezone == "BST":
-- 
2.43.0


From 220b07272cb118c31382068aecdcdc7ae834b387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:59 +0000
Subject: [PATCH 023/109] fix: NTNU image names carry four fractional digits of
 a second

---
 src/auv_nav/parsers/parse_ntnu_stereo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/parsers/parse_ntnu_stereo.py b/src/auv_nav/parsers/parse_ntnu_stereo.py
index 58ed8e0..203740e 100644
--- a/src/auv_nav/parsers/parse_ntnu_stereo.py
+++ b/src/auv_nav/parsers/parse_ntnu_stereo.py
@@ -36,10 +36,10 @@ def timestamp_from_filename(filename, timezone_offset, timeoffset):
     hour = int(filename[7:9])
     mins = int(filename[9:11])
     secs = int(filename[11:13])
-    msec = int(filename[14:18])
+    fraction = int(filename[14:18])  # four digits: tenths of milliseconds
 
     epoch_time = date_time_to_epoch(yyyy, mm, dd, hour, mins, secs, timezone_offset)
-    epoch_timestamp = float(epoch_time + msec / 1000 + timeoffset)
+    epoch_timestamp = float(epoch_time + fraction / 10000 + timeoffset)
     return epoch_timestamp
 
 
-- 
2.43.0


From 2adc17f641146a8100fb10b91554b2838294df56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:24 +0000
Subject: [PATCH 024/109] fix: keep the times read from an image timestamp file

---
 src/oplab/filename_to_date.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oplab/filename_to_date.py b/src/oplab/filename_to_date.py
index 9493234..9b8704d 100644
--- a/src/oplab/filename_to_date.py
+++ b/src/oplab/filename_to_date.py
@@ -187,7 +187,7 @@ class FilenameToDate:
         Console.info("Found", last_idx, "timestamp records in", filename)
 
         for index, row in df.iterrows():
-            row["epoch_timestamp"] = self.string_to_epoch(
+            df.at[index, "epoch_timestamp"] = self.string_to_epoch(
                 row["combined"], row["combined_format"]
             )
 
-- 
2.43.0


From 9979554c33d4d5326141bc96c46bb91c8bd4fd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:31 +0000
Subject: [PATCH 025/109] fix: cameras without a timeoffset_s entry use their
 timeoffset, which defaults to zero

---
 src/oplab/mission.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/oplab/mission.py b/src/oplab/mission.py
index 508dc6f..9b8aa16 100644
--- a/src/oplab/mission.py
+++ b/src/oplab/mission.py
@@ -131,8 +131,7 @@ class CameraEntry:
             if "timeoffset" in node:
                 self.timeoffset = node["timeoffset"]
             self.records_laser = node.get("records_laser", False)
-            if "timeoffset_s" in node:
-                self.timeoffset_s = node["timeoffset_s"]
+            self.timeoffset_s = node.get("timeoffset_s", self.timeoffset)
 
     def write(self, node):
         node["name"] = self.name
-- 
2.43.0


From 7203c5e9305393d241db276d8e67918f3423a938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:55 +0000
Subject: [PATCH 026/109] fix: an empty tide record leaves depths uncorrected
 instead of failing

---
 src/auv_nav/parse.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/auv_nav/parse.py b/src/auv_nav/parse.py
index 1b2d5f9..1d990c9 100644
--- a/src/auv_nav/parse.py
+++ b/src/auv_nav/parse.py
@@ -652,6 +652,8 @@ def parse_single(filepath, force_overwrite):
             tide_list = parse_tide_CTI(mission, vehicle, "tide", ftype, outpath)
         else:
             Console.quit("Mission tide format", mission.tide.format, "not supported.")
+        if len(tide_list) == 0:
+            Console.warn("No tide data found, depths will not be corrected for tides.")
     else:
         tide_list = None
 
@@ -701,7 +703,7 @@ def parse_single(filepath, force_overwrite):
             results[0]["category"] == Category.DEPTH
             or results[0]["category"] == Category.USBL
         ):
-            if not mission.tide.empty():
+            if not mission.tide.empty() and len(tide_list) > 0:
                 # proceed to tidal correction
                 if results[0]["category"] == Category.DEPTH:
                     sensor = "depth sensor"
-- 
2.43.0


From f505040cd9aa9101ae6af8362cafc0f316cf85be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:46 +0000
Subject: [PATCH 027/109] fix: do not combine a PHINS attitude with the heading
 of a later epoch

---
 src/auv_nav/sensors.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/auv_nav/sensors.py b/src/auv_nav/sensors.py
index ec1a656..80c3a7b 100644
--- a/src/auv_nav/sensors.py
+++ b/src/auv_nav/sensors.py
@@ -704,6 +704,9 @@ class Orientation(OutputFormat):
         if line[0] == PhinsHeaders.HEADING:
             # phins +ve clockwise so no need to change
             self.yaw = float(line[1])
+            # an attitude still waiting here lost its own heading
+            self.roll = None
+            self.pitch = None
 
         if line[1] == PhinsHeaders.ATTITUDE:
             self.roll = -1 * float(line[2])
-- 
2.43.0


From 554c596f859b1ccfedded57936cd6afa7af8d1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:46 +0000
Subject: [PATCH 028/109] fix: do not output the altitude of a PHINS epoch
 without valid time at the next epoch

---
 src/auv_nav/parsers/parse_phins.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/auv_nav/parsers/parse_phins.py b/src/auv_nav/parsers/parse_phins.py
index 2965641..fc2a766 100644
--- a/src/auv_nav/parsers/parse_phins.py
+++ b/src/auv_nav/parsers/parse_phins.py
@@ -227,8 +227,6 @@ class PhinsParser:
                     data = self.altitude.export(self.output_format)
             if header == PhinsHeaders.DVL:
                 self.body_velocity.from_phins(line)
-                if self.altitude.valid():
-                    data = self.altitude.export(self.output_format)
         return data
 
 
-- 
2.43.0


From 3859ee767f0ac709c05957bc25fc9db1081d7d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:46 +0000
Subject: [PATCH 029/109] fix: a PHINS sentence with missing fields is skipped
 instead of ending the parse; vertical speed uncertainty is positive

---
 src/auv_nav/parsers/parse_phins.py | 13 ++++++++++--
 src/auv_nav/sensors.py             | 33 +++++++++++++++++-------------
 2 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/src/auv_nav/parsers/parse_phins.py b/src/auv_nav/parsers/parse_phins.py
index fc2a766..fe58c70 100644
--- a/src/auv_nav/parsers/parse_phins.py
+++ b/src/auv_nav/parsers/parse_phins.py
@@ -145,8 +145,17 @@ class PhinsParser:
                 line = line_and_md5[0].strip().split(",")
                 if not self.line_is_valid(line, line_and_md5):
                     continue
-                header = line[1]
-                data = self.process_line(header, line)
+                try:
+                    header = line[1]
+                    data = self.process_line(header, line)
+                except (IndexError, ValueError) as exc:
+                    Console.warn(
+                        "Badly formatted packet (PHINS): "
+                        + str(line)
+                        + " Exception: "
+                        + str(exc)
+                    )
+                    continue
                 if data is not None:
                     data_list.append(data)
             return data_list
diff --git a/src/auv_nav/sensors.py b/src/auv_nav/sensors.py
index 80c3a7b..f526bd4 100644
--- a/src/auv_nav/sensors.py
+++ b/src/auv_nav/sensors.py
@@ -525,15 +525,17 @@ class InertialVelocity(OutputFormat):
         if line[1] == PhinsHeaders.VEL:
             # phins convention is west +ve so a minus should be necessary
             # phins convention is up +ve
-            self.east_velocity = float(line[2])
-            self.north_velocity = float(line[3])
-            self.down_velocity = -1 * float(line[4])
+            east, north, up = [float(x) for x in line[2:5]]
+            self.east_velocity = east
+            self.north_velocity = north
+            self.down_velocity = -1 * up
         elif line[1] == PhinsHeaders.VEL_STD:
             # phins convention is west +ve
             # phins convention is up +ve
-            self.east_velocity_std = float(line[2])
-            self.north_velocity_std = float(line[3])
-            self.down_velocity_std = -1 * float(line[4])
+            east_std, north_std, up_std = [float(x) for x in line[2:5]]
+            self.east_velocity_std = east_std
+            self.north_velocity_std = north_std
+            self.down_velocity_std = up_std
 
     def from_json(self, json):
         self.epoch_timestamp = json["epoch_timestamp"]
@@ -709,15 +711,17 @@ class Orientation(OutputFormat):
             self.pitch = None
 
         if line[1] == PhinsHeaders.ATTITUDE:
-            self.roll = -1 * float(line[2])
+            roll, pitch = float(line[2]), float(line[3])
+            self.roll = -1 * roll
             # phins +ve nose up so no need to change
-            self.pitch = -1 * float(line[3])
+            self.pitch = -1 * pitch
             self.apply_offset()
 
         if line[1] == PhinsHeaders.ATTITUDE_STD:
-            self.yaw_std = float(line[2])
-            self.roll_std = float(line[3])
-            self.pitch_std = float(line[4])
+            yaw_std, roll_std, pitch_std = [float(x) for x in line[2:5]]
+            self.yaw_std = yaw_std
+            self.roll_std = roll_std
+            self.pitch_std = pitch_std
             self.apply_std_offset()
 
     def from_ros(self, msg, msg_type, output_dir):
@@ -1080,10 +1084,11 @@ class Altitude(OutputFormat):
 
     def from_phins(self, line, altitude_timestamp):
         self.sensor_string = "phins"
+        sound_velocity, correction, altitude = [float(x) for x in line[2:5]]
         self.altitude_timestamp = altitude_timestamp
-        self.sound_velocity = float(line[2])
-        self.sound_velocity_correction = float(line[3])
-        self.altitude = float(line[4])
+        self.sound_velocity = sound_velocity
+        self.sound_velocity_correction = correction
+        self.altitude = altitude
         self.altitude_std = self.altitude * self.altitude_std_factor
 
     def from_json(self, json):
-- 
2.43.0


From 8621350f20e56b599f9b57314e167c49a27963f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:41 +0000
Subject: [PATCH 030/109] fix: an attitude from a PHINS epoch without valid
 time does not get the time of the next epoch

---
 src/auv_nav/parsers/parse_phins.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/auv_nav/parsers/parse_phins.py b/src/auv_nav/parsers/parse_phins.py
index fe58c70..c800e2e 100644
--- a/src/auv_nav/parsers/parse_phins.py
+++ b/src/auv_nav/parsers/parse_phins.py
@@ -96,6 +96,7 @@ class PhinsParser:
         self.orientation = Orientation(self.headingoffset)
         self.depth = Depth(depth_std_factor, self.timestamp)
         self.altitude = Altitude(altitude_std_factor)
+        self.epoch_without_time = False
 
     def set_timestamp(self, epoch_timestamp):
         self.body_velocity.epoch_timestamp = epoch_timestamp
@@ -192,7 +193,11 @@ class PhinsParser:
     def process_line(self, header, line):
         data = None
         if header == PhinsHeaders.TIME:
+            if self.epoch_without_time:
+                # the attitude of that epoch must not get the time of this one
+                self.orientation.clear()
             epoch_timestamp = self.timestamp.epoch_timestamp_from_phins(line)
+            self.epoch_without_time = epoch_timestamp is None
             self.set_timestamp(epoch_timestamp)
 
         if self.category == Category.VELOCITY:
-- 
2.43.0


From 93de45443d78ff4937d9248eefc412cd03631a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:50 +0000
Subject: [PATCH 031/109] fix: a malformed PHINS time leaves the epoch without
 time

---
 src/auv_nav/parsers/parse_phins.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/auv_nav/parsers/parse_phins.py b/src/auv_nav/parsers/parse_phins.py
index c800e2e..940131d 100644
--- a/src/auv_nav/parsers/parse_phins.py
+++ b/src/auv_nav/parsers/parse_phins.py
@@ -36,11 +36,11 @@ class PhinsTimestamp:
 
     def epoch_timestamp_from_phins(self, line):
         epoch_timestamp = None
-        time_string = str(line[2])
+        time_string = str(line[2]) if len(line) > 2 else ""
         if len(time_string) == 10 or len(time_string) == 13:
-            hour = int(time_string[0:2])
-            mins = int(time_string[2:4])
             try:
+                hour = int(time_string[0:2])
+                mins = int(time_string[2:4])
                 secs = int(time_string[4:6])
                 # phins sometimes returns 60s...
                 if secs < 60:
-- 
2.43.0


From 7c83088084bb8146c1629dadf6ea43102f817b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:42 +0000
Subject: [PATCH 032/109] fix: PHINS data that precede any valid time do not
 get the time of a later epoch

---
 src/auv_nav/parsers/parse_phins.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/parsers/parse_phins.py b/src/auv_nav/parsers/parse_phins.py
index 940131d..3ae0f24 100644
--- a/src/auv_nav/parsers/parse_phins.py
+++ b/src/auv_nav/parsers/parse_phins.py
@@ -96,7 +96,7 @@ class PhinsParser:
         self.orientation = Orientation(self.headingoffset)
         self.depth = Depth(depth_std_factor, self.timestamp)
         self.altitude = Altitude(altitude_std_factor)
-        self.epoch_without_time = False
+        self.epoch_without_time = True
 
     def set_timestamp(self, epoch_timestamp):
         self.body_velocity.epoch_timestamp = epoch_timestamp
@@ -194,8 +194,9 @@ class PhinsParser:
         data = None
         if header == PhinsHeaders.TIME:
             if self.epoch_without_time:
-                # the attitude of that epoch must not get the time of this one
+                # data from that epoch must not get the time of this one
                 self.orientation.clear()
+                self.inertial_velocity.clear()
             epoch_timestamp = self.timestamp.epoch_timestamp_from_phins(line)
             self.epoch_without_time = epoch_timestamp is None
             self.set_timestamp(epoch_timestamp)
-- 
2.43.0


From 1cecb6cbbf827dfdaad420532c41f03f94441e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:54 +0000
Subject: [PATCH 033/109] fix: parse without -F skips every dive whose
 processed folder exists

---
 src/auv_nav/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/parse.py b/src/auv_nav/parse.py
index 1d990c9..63ab543 100644
--- a/src/auv_nav/parse.py
+++ b/src/auv_nav/parse.py
@@ -784,7 +784,7 @@ def check_output_files_exist(processed_dataset_folder):
     """Check if any of the files exist, which `auv_nav parse` writes to disk"""
     mission_file = processed_dataset_folder / "mission.yaml"
     vehicle_file = processed_dataset_folder / "vehicle.yaml"
-    camera_file = processed_dataset_folder / ""
+    camera_file = processed_dataset_folder / "camera.yaml"
     nav_file = processed_dataset_folder / "nav" / "nav_standard.json"
     data_plot_file = processed_dataset_folder / "nav" / "json_data_info.html"
     history_plot_file = processed_dataset_folder / "nav" / "timestamp_history.html"
-- 
2.43.0


From 2789c655a0393069dfb47b365adf8e8aba295a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:54 +0000
Subject: [PATCH 034/109] fix: parse --merge overwrites an existing merged dive
 without -F

---
 src/auv_nav/parse.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/auv_nav/parse.py b/src/auv_nav/parse.py
index 63ab543..ef35490 100644
--- a/src/auv_nav/parse.py
+++ b/src/auv_nav/parse.py
@@ -139,6 +139,18 @@ def parse(filepath, force_overwrite, merge):
         # Create folder if it does not exist
         processed_path = get_processed_folder(filepath[0]).parent
         nav_folder = processed_path / foldername / "nav"
+        if not force_overwrite:
+            existing_files = check_output_files_exist(processed_path / foldername)
+            if existing_files:
+                Console.warn(
+                    "It looks like these dives have already been merged.\n"
+                    + "The following file(s) already exist:\n"
+                    + existing_files
+                    + "If you would like auv_nav to overwrite existing file,"
+                    + " rerun it with the flag -F."
+                )
+                Console.warn("Merging skipped")
+                return
         # make output path if not exist
         if not nav_folder.exists():
             try:
-- 
2.43.0


From 1d6bc99fbb0e3933d34b12c43512e1428a6edc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:54 +0000
Subject: [PATCH 035/109] fix: acfr_to_oplab looks for other file names than it
 writes and overwrites them without -F

---
 src/auv_nav/convert.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/auv_nav/convert.py b/src/auv_nav/convert.py
index 86c507f..8c33235 100644
--- a/src/auv_nav/convert.py
+++ b/src/auv_nav/convert.py
@@ -132,19 +132,21 @@ def acfr_to_oplab(args):
 
         print("Found", len(dr), "dr entries")
 
-        csv_filename = "auv_acfr_centre.csv"
+        csv_filename = "auv_acfr_centre"
+        csv_file = csv_filepath / (csv_filename + ".csv")
 
-        if (csv_filepath / csv_filename).exists() and not force_overwite:
+        if csv_file.exists() and not force_overwite:
             Console.error("The DR file already exists. Use -F to force overwrite it")
             Console.quit("Default behaviour: not to overwrite results")
         else:
             write_csv(csv_filepath, dr, csv_filename, csv_flag=True)
-            Console.info("Output vehicle pose written to", csv_filepath / csv_filename)
+            Console.info("Output vehicle pose written to", csv_file)
     if args.stereo_pose:
         Console.info("Stereo pose provided! Converting it to camera CSVs...")
         spp = AcfrStereoPoseParser(args.stereo_pose)
         cam1, cam2 = spp.get_cameras()
-        if (csv_filepath / "auv_dr_LC.csv").exists() and not force_overwite:
+        camera_files = [csv_filepath / "auv_acfr_LC.csv", csv_filepath / "auv_acfr_RC.csv"]
+        if any(f.exists() for f in camera_files) and not force_overwite:
             Console.error(
                 "The camera files already exists. Use -F to force overwrite it"
             )
-- 
2.43.0


From f2a283683ed75839b2c38e4f870b46bd718c73f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:02 +0000
Subject: [PATCH 036/109] fix: sensor frame, topic and filter settings are lost
 when a mission is written

---
 src/oplab/mission.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/oplab/mission.py b/src/oplab/mission.py
index 9b8aa16..51a649c 100644
--- a/src/oplab/mission.py
+++ b/src/oplab/mission.py
@@ -244,6 +244,7 @@ class DefaultEntry(TimeZoneEntry):
         self.apply_depth_filter = True # for usbl to filter info using depth in usbl_filter.py
         self.apply_north_east_filter = True # for usbl to filter info using north and east in usbl_filter.py
         self._empty = True
+        self.origin = None
         self.topic = None
 
     def empty(self):
@@ -279,9 +280,9 @@ class DefaultEntry(TimeZoneEntry):
     def write(self, node):
         super().write(node)
         node["format"] = self.format
-        if "origin" in node:
+        if self.origin is not None:
             node["origin"] = self.origin
-        if "topic" in node:
+        if self.topic is not None:
             node["topic"] = self.topic
         node["filepath"] = self.filepath
         node["filename"] = self.filename
@@ -289,6 +290,9 @@ class DefaultEntry(TimeZoneEntry):
         node["id"] = self.label
         node["std_factor"] = self.std_factor
         node["std_offset"] = self.std_offset
+        node["field_id"] = self.field_id
+        node["apply_depth_filter"] = self.apply_depth_filter
+        node["apply_north_east_filter"] = self.apply_north_east_filter
 
 
 class Mission:
-- 
2.43.0


From 0851893e804263b2b49d917406d26009e7963861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:02 +0000
Subject: [PATCH 037/109] fix: camera topic and timeoffset_s are lost when a
 mission is written

---
 src/oplab/mission.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/oplab/mission.py b/src/oplab/mission.py
index 51a649c..5257448 100644
--- a/src/oplab/mission.py
+++ b/src/oplab/mission.py
@@ -106,6 +106,7 @@ class CameraEntry:
         self.origin = None
         self.type = None
         self.path = None
+        self.topic = None
         self.timeoffset = None
         self.timeoffset_s = None
         if node is not None:
@@ -124,7 +125,6 @@ class CameraEntry:
             if "origin" in node:
                 self.origin = node["origin"]
                 Console.info("Using camera " + self.name + " mounted at " + self.origin)
-            self.topic = None
             if "topic" in node:
                 self.topic = node["topic"]
             self.timeoffset = 0.0
@@ -139,8 +139,12 @@ class CameraEntry:
         node["type"] = self.type
         node["path"] = self.path
         node["records_laser"] = self.records_laser
-        if hasattr(self, "timeoffset"):
+        if self.topic is not None:
+            node["topic"] = self.topic
+        if self.timeoffset is not None:
             node["timeoffset"] = self.timeoffset
+        if self.timeoffset_s is not None:
+            node["timeoffset_s"] = self.timeoffset_s
 
 
 
-- 
2.43.0


From 8e19c93c28774181d2da859dc7aa6cb8c10b8493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:02 +0000
Subject: [PATCH 038/109] fix: missions with payloads cannot be written

---
 src/oplab/mission.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/oplab/mission.py b/src/oplab/mission.py
index 5257448..b498051 100644
--- a/src/oplab/mission.py
+++ b/src/oplab/mission.py
@@ -437,8 +437,8 @@ class Mission:
                             )
                             Console.info("current payload:", payload_entry)
                             Console.error(
-                                "The payload mounted at "
-                                + payload.origin
+                                "The payload "
+                                + payload_entry
                                 + " does not correspond to any frame in vehicle.yaml."  # noqa
                             )
                             error_and_exit()
@@ -502,12 +502,11 @@ class Mission:
                 if not self.image.empty():
                     mission_dict["image"] = OrderedDict()
                     self.image.write(mission_dict["image"])
-                if len(self.payloads) > 1:
-                    mission_dict["payloads"] = []
-                    for payload in self.payloads:
-                        payload_entry = OrderedDict()
-                        payload.write(payload_entry)
-                        mission_dict["payloads"].append(payload_entry)
+                if len(self.payloads) > 0:
+                    mission_dict["payloads"] = OrderedDict()
+                    for name, payload in self.payloads.items():
+                        mission_dict["payloads"][name] = OrderedDict()
+                        payload.write(mission_dict["payloads"][name])
                 yaml.dump(
                     mission_dict,
                     f,
-- 
2.43.0


From 9c3f85e2e2fb7dfe7fd71792cfbde93d8d5d9f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:02 +0000
Subject: [PATCH 039/109] fix: old-format vehicles cannot be loaded without an
 orientation or velocity sensor in the mission

---
 src/oplab/vehicle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oplab/vehicle.py b/src/oplab/vehicle.py
index 772d4d8..22ff792 100644
--- a/src/oplab/vehicle.py
+++ b/src/oplab/vehicle.py
@@ -117,12 +117,12 @@ class Vehicle:
                         mission_data = yaml.safe_load(mission_stream)
                 if "ins" in self.data:
                     if mission_data is not None:
-                        self.ins.load(self.data["ins"], mission_data["orientation"])
+                        self.ins.load(self.data["ins"], mission_data.get("orientation"))
                     else:
                         self.ins.load(self.data["ins"])
                 if "dvl" in self.data:
                     if mission_data is not None:
-                        self.dvl.load(self.data["dvl"], mission_data["velocity"])
+                        self.dvl.load(self.data["dvl"], mission_data.get("velocity"))
                     else:
                         self.dvl.load(self.data["dvl"])
                 if "depth" in self.data:
-- 
2.43.0


From f6a9d56de35c6192fbcdc684755c745995f42abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:15 +0000
Subject: [PATCH 040/109] fix: the origin of a camera is ignored or missing
 depending on the first camera

---
 src/oplab/mission.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/oplab/mission.py b/src/oplab/mission.py
index b498051..024ec79 100644
--- a/src/oplab/mission.py
+++ b/src/oplab/mission.py
@@ -189,10 +189,10 @@ class ImageEntry(TimeZoneEntry):
         if mission_yaml_version >= 1:
             for camera in node["cameras"]:
                 self.cameras.append(CameraEntry(camera))
-            if "origin" not in node["cameras"][0]:
-                # Assuming that the camera names in mission.yaml corresponds
-                # to the frame names in vehicle.yaml
-                for i, camera in enumerate(self.cameras):
+            for camera in self.cameras:
+                if camera.origin is None:
+                    # Assuming that the camera names in mission.yaml corresponds
+                    # to the frame names in vehicle.yaml
                     camera.origin = camera.name
         else:
             self.cameras.append(CameraEntry())
-- 
2.43.0


From eb88aa9e70c8cbf6e4a573afe69d2eb68619c6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:26 +0000
Subject: [PATCH 041/109] fix: images of old-format SeaXerocks missions cannot
 be parsed (camera time offset is None)

---
 src/oplab/mission.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oplab/mission.py b/src/oplab/mission.py
index 024ec79..1622658 100644
--- a/src/oplab/mission.py
+++ b/src/oplab/mission.py
@@ -108,7 +108,7 @@ class CameraEntry:
         self.path = None
         self.topic = None
         self.timeoffset = None
-        self.timeoffset_s = None
+        self.timeoffset_s = 0.0
         if node is not None:
             self.name = node["name"]
             if "type" in node:
-- 
2.43.0


From 370188415d994f5a4b4c184d6bd763b9e1575cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:11 +0000
Subject: [PATCH 042/109] fix: missions without an origin date, such as the
 shipped TS1 and TS2 ones, cannot be loaded

---
 src/oplab/mission.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oplab/mission.py b/src/oplab/mission.py
index 1622658..5499214 100644
--- a/src/oplab/mission.py
+++ b/src/oplab/mission.py
@@ -90,7 +90,7 @@ class OriginEntry:
         self.latitude = node["latitude"]
         self.longitude = node["longitude"]
         self.crs = node["coordinate_reference_system"]
-        self.date = node["date"]
+        self.date = node.get("date", "")
 
     def write(self, node):
         node["latitude"] = self.latitude
-- 
2.43.0


From d2e96a28f96bac5b971b4a459c9df277501f344a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:33 +0000
Subject: [PATCH 043/109] fix: navigation csv files of a single item are not
 written

---
 src/auv_nav/tools/csv_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/tools/csv_tools.py b/src/auv_nav/tools/csv_tools.py
index 35d0207..05b4765 100644
--- a/src/auv_nav/tools/csv_tools.py
+++ b/src/auv_nav/tools/csv_tools.py
@@ -45,7 +45,7 @@ def write_csv(
     csv_flag: Optional[bool] = True,
     mutex: Optional[Lock] = None,
 ):
-    if csv_flag is True and len(data_list) > 1:
+    if csv_flag is True and len(data_list) > 0:
         csv_file = Path(csv_filepath)
 
         if not csv_file.exists():
-- 
2.43.0


From 6049357acb12eaa875355bc3e79a61c353ad5cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:15 +0000
Subject: [PATCH 044/109] fix: ACFR vehicle pose files are written in degrees
 although they are defined in radians

---
 src/auv_nav/parsers/acfr_vehicle_pose.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/auv_nav/parsers/acfr_vehicle_pose.py b/src/auv_nav/parsers/acfr_vehicle_pose.py
index 49938bd..1f53835 100644
--- a/src/auv_nav/parsers/acfr_vehicle_pose.py
+++ b/src/auv_nav/parsers/acfr_vehicle_pose.py
@@ -228,11 +228,11 @@ class AcfrVehiclePoseWriter:
                     + " \t"
                     + str(dr.depth)
                     + " \t"
-                    + str(dr.roll)
+                    + str(math.radians(dr.roll))
                     + " \t"
-                    + str(dr.pitch)
+                    + str(math.radians(dr.pitch))
                     + " \t"
-                    + str(dr.yaw)
+                    + str(math.radians(dr.yaw))
                     + " \t"
                     + str(dr.altitude)
                     + "\n"
-- 
2.43.0


From d4878e3d97b20f95b9ea6698e63d5c1d0e135e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:15 +0000
Subject: [PATCH 045/109] fix: roll and pitch of ACFR vehicle poses are mixed
 up when they are read

---
 src/auv_nav/parsers/acfr_vehicle_pose.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/parsers/acfr_vehicle_pose.py b/src/auv_nav/parsers/acfr_vehicle_pose.py
index 1f53835..203804b 100644
--- a/src/auv_nav/parsers/acfr_vehicle_pose.py
+++ b/src/auv_nav/parsers/acfr_vehicle_pose.py
@@ -185,8 +185,8 @@ class AcfrVehiclePoseParser:
             dr.depth = entry.z_depth
             dr.latitude = entry.latitude
             dr.longitude = entry.longitude
-            dr.roll = entry.y_euler_angle
-            dr.pitch = -entry.x_euler_angle
+            dr.roll = entry.x_euler_angle
+            dr.pitch = entry.y_euler_angle
             dr.yaw = entry.z_euler_angle
             dr.altitude = entry.altitude
 
-- 
2.43.0


From 6b6f159a12cacf755348d1a5b9a43b227202f01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:15 +0000
Subject: [PATCH 046/109] fix: ACFR vehicle pose files written by auv_nav
 cannot be read back

---
 src/auv_nav/parsers/acfr_vehicle_pose.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/auv_nav/parsers/acfr_vehicle_pose.py b/src/auv_nav/parsers/acfr_vehicle_pose.py
index 203804b..0059538 100644
--- a/src/auv_nav/parsers/acfr_vehicle_pose.py
+++ b/src/auv_nav/parsers/acfr_vehicle_pose.py
@@ -159,15 +159,18 @@ class AcfrVehiclePoseParser:
         f = Path(filename)
         stream = f.open("r")
 
-        for i, line in enumerate(stream):
+        for line in stream:
+            # Skip the header, its length depends on who produced the file
+            if not line.strip() or line.startswith("%"):
+                continue
             # Read origins
-            # Line 56: ORIGIN_LATITUDE  59.8136000000000010
-            # Line 57: ORIGIN_LONGITUDE -7.3532999999999999
-            if i == 44:
+            # ORIGIN_LATITUDE  59.8136000000000010
+            # ORIGIN_LONGITUDE -7.3532999999999999
+            if line.startswith("ORIGIN_LATITUDE"):
                 self.origin_latitude = float(line.split()[1])
-            if i == 45:
+            elif line.startswith("ORIGIN_LONGITUDE"):
                 self.origin_longitude = float(line.split()[1])
-            if i > 45:
+            else:
                 self._entries.append(AcfrVehiclePose(line))
         print("Parsed", len(self._entries), "entries")
 
-- 
2.43.0


From d31185cf3af6a6eda212c2c85b1f46ad1c56e549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:16 +0000
Subject: [PATCH 047/109] fix: ACFR stereo pose files are written with camera
 angles in degrees instead of stereo-rig angles in radians

---
 src/auv_nav/parsers/acfr_stereo_pose.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/auv_nav/parsers/acfr_stereo_pose.py b/src/auv_nav/parsers/acfr_stereo_pose.py
index a2bb6f2..cc49c25 100644
--- a/src/auv_nav/parsers/acfr_stereo_pose.py
+++ b/src/auv_nav/parsers/acfr_stereo_pose.py
@@ -274,6 +274,7 @@ class AcfrStereoPoseWriter:
             for i, (c1, c2) in enumerate(zip(cam1_list, cam2_list)):
                 c1.filename = Path(c1.filename).name
                 c2.filename = Path(c2.filename).name
+                # Euler angles of the stereo rig, see AcfrStereoPoseParser.get_cameras
                 f.write(
                     str(i)
                     + " \t"
@@ -289,11 +290,11 @@ class AcfrStereoPoseWriter:
                     + " \t"
                     + str(c1.depth)
                     + " \t"
-                    + str(c1.roll)
+                    + str(math.radians(-c1.pitch))
                     + " \t"
-                    + str(c1.pitch)
+                    + str(math.radians(c1.roll))
                     + " \t"
-                    + str(c1.yaw)
+                    + str(math.radians(c1.yaw - 90))
                     + " \t"
                     + str(c1.filename)
                     + " \t"
-- 
2.43.0


From 4c6434dcae8cf87d0245aea7ec906ea46cfb6a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:16 +0000
Subject: [PATCH 048/109] fix: writing ACFR stereo poses alters the poses given

---
 src/auv_nav/parsers/acfr_stereo_pose.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/auv_nav/parsers/acfr_stereo_pose.py b/src/auv_nav/parsers/acfr_stereo_pose.py
index cc49c25..83b0318 100644
--- a/src/auv_nav/parsers/acfr_stereo_pose.py
+++ b/src/auv_nav/parsers/acfr_stereo_pose.py
@@ -272,8 +272,6 @@ class AcfrStereoPoseWriter:
             f.write("ORIGIN_LATITUDE  " + str(self.origin_latitude) + "\n")
             f.write("ORIGIN_LONGITUDE " + str(self.origin_longitude) + "\n")
             for i, (c1, c2) in enumerate(zip(cam1_list, cam2_list)):
-                c1.filename = Path(c1.filename).name
-                c2.filename = Path(c2.filename).name
                 # Euler angles of the stereo rig, see AcfrStereoPoseParser.get_cameras
                 f.write(
                     str(i)
@@ -296,9 +294,9 @@ class AcfrStereoPoseWriter:
                     + " \t"
                     + str(math.radians(c1.yaw - 90))
                     + " \t"
-                    + str(c1.filename)
+                    + Path(c1.filename).name
                     + " \t"
-                    + str(c2.filename)
+                    + Path(c2.filename).name
                     + " \t"
                     + str(c1.altitude)
                     + " \t 0 \t 0\n"
-- 
2.43.0


From da595ab100110ff5fd904bb39f8fa55071eb72d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:23 +0000
Subject: [PATCH 049/109] fix: only the images of the last dive are used when
 correction parameters are computed from several dives

---
 src/correct_images/corrector.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/correct_images/corrector.py b/src/correct_images/corrector.py
index c9dcde2..114ec99 100644
--- a/src/correct_images/corrector.py
+++ b/src/correct_images/corrector.py
@@ -666,17 +666,17 @@ class Corrector:
             )
         else:
             # Copy the images list from the camera
-            self.camera_image_list = self.camera.image_list
+            self.camera_image_list = list(self.camera.image_list)
 
-            # Join the current image list with the original image list (copy)
-            self.camera_image_list.extend(_original_image_list)
-            # Show size of the extended image list
-            # Informative for message for multidive
-            Console.info(
-                "The camera image list has", len(self.camera_image_list), "entries"
-            )
-            # Join the current image list with the original image list (copy)
-            self.altitude_list.extend(_original_altitude_list)
+        # Join the current image list with the original image list (copy)
+        self.camera_image_list.extend(_original_image_list)
+        # Show size of the extended image list
+        # Informative for message for multidive
+        Console.info(
+            "The camera image list has", len(self.camera_image_list), "entries"
+        )
+        # Join the current image list with the original image list (copy)
+        self.altitude_list.extend(_original_altitude_list)
 
     def get_altitude_and_depth_maps(self):
         """Generate distance matrix numpy files and save them"""
-- 
2.43.0


From f3317ebdf590c48ffa2efe491de26e391bd0f036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:23 +0000
Subject: [PATCH 050/109] fix: altitudes of images without a depth map are kept
 when the images are dropped

---
 src/correct_images/corrector.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/correct_images/corrector.py b/src/correct_images/corrector.py
index 114ec99..ac5963a 100644
--- a/src/correct_images/corrector.py
+++ b/src/correct_images/corrector.py
@@ -720,6 +720,7 @@ class Corrector:
                 )
                 for idx in sorted(images_to_drop, reverse=True):
                     del self.camera_image_list[idx]
+                    del self.altitude_list[idx]
             assert len(self.camera_image_list) == len(self.depth_map_list)
 
             Console.info("Depth maps loaded")
-- 
2.43.0


From 576705d68edcac1a6823ec5ac022788057fc68cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:23 +0000
Subject: [PATCH 051/109] fix: manual balance fails when the list of processed
 images is written

---
 src/correct_images/corrector.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/correct_images/corrector.py b/src/correct_images/corrector.py
index ac5963a..adbd709 100644
--- a/src/correct_images/corrector.py
+++ b/src/correct_images/corrector.py
@@ -1279,7 +1279,11 @@ class Corrector:
         d = {"image_names": image_names, "relative_path": self.processed_image_list}
         dataframe = pd.DataFrame(d)
 
-        orig_dataframe = pd.read_csv(self.altitude_csv_path)
+        if self.altitude_csv_path is None:
+            # manual_balance does not use any navigation
+            orig_dataframe = pd.DataFrame({"relative_path": self.camera_image_list})
+        else:
+            orig_dataframe = pd.read_csv(self.altitude_csv_path)
         orig_dataframe["raw_relative_path"] = orig_dataframe["relative_path"]
 
         # Merge the two dataframes when image filenames are the same
-- 
2.43.0


From 8fc30a213e3cd9e4cd869078747cd135f7b49a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:23 +0000
Subject: [PATCH 052/109] fix: correct_images correct fails because parse
 expects a list of dives

---
 src/correct_images/correct_images.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/correct_images/correct_images.py b/src/correct_images/correct_images.py
index 9de5230..70f1e72 100644
--- a/src/correct_images/correct_images.py
+++ b/src/correct_images/correct_images.py
@@ -316,7 +316,16 @@ def call_correct(args):
     args : parse_args object
         User provided arguments for path of source images
     """
-    call_parse(args)
+    # parse expects a list of paths and the location and size of the memmaps
+    parse_args = argparse.Namespace(
+        **{
+            "memmap_location": ".",
+            "memmap_size_gb": 50,
+            **vars(args),
+            "path": [args.path],
+        }
+    )
+    call_parse(parse_args)
     call_process(args)
 
 
-- 
2.43.0


From c96290601e536593fd2502a63b9a8fd5a0dce842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:23 +0000
Subject: [PATCH 053/109] fix: correct_images parse fails if one of the cameras
 has no images

---
 src/correct_images/correct_images.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/correct_images/correct_images.py b/src/correct_images/correct_images.py
index 70f1e72..650bbd5 100644
--- a/src/correct_images/correct_images.py
+++ b/src/correct_images/correct_images.py
@@ -249,6 +249,8 @@ def call_parse(args):
                 camera.name,
                 "] defined in <camera.yaml> but not found in configuration. Skipping.",
             )
+        elif len(camera.image_list) == 0:
+            Console.info("No images found for the camera at the path provided")
         else:
             Console.info("Parsing for camera", camera.name)
             # Create a Corrector object for each camera with empty configuration
-- 
2.43.0


From 6349657c699c14afa1c288de6577d2334a8fff50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:07 +0000
Subject: [PATCH 054/109] fix: distortion is not corrected because the
 calibration is searched under another name than auv_cal gives it

---
 src/correct_images/corrector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/correct_images/corrector.py b/src/correct_images/corrector.py
index adbd709..ce5f90a 100644
--- a/src/correct_images/corrector.py
+++ b/src/correct_images/corrector.py
@@ -1243,7 +1243,7 @@ class Corrector:
         # check for calibration file if distortion correction needed
         if self.undistort:
             camera_params_folder = Path(self.path_processed).parents[0] / "calibration"
-            camera_params_filename = "mono" + self.camera_name + ".yaml"
+            camera_params_filename = "mono_" + self.camera_name + ".yaml"
             camera_params_file_path = camera_params_folder / camera_params_filename
 
             if not camera_params_file_path.exists():
-- 
2.43.0


From f915b4d145dc719c6b7b7b7fb1b5e82a23bf9620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:10 +0000
Subject: [PATCH 055/109] fix: mean and std of corrected images depend on the
 image order if pixels are saturated

---
 src/correct_images/tools/numerical.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/correct_images/tools/numerical.py b/src/correct_images/tools/numerical.py
index 5b6062a..b862ff9 100644
--- a/src/correct_images/tools/numerical.py
+++ b/src/correct_images/tools/numerical.py
@@ -19,7 +19,7 @@ from ..loaders import default
 
 
 class RunningMeanStd:
-    __slots__ = ["_mean", "mean2", "_std", "count", "clipping_max"]
+    __slots__ = ["_mean", "mean2", "_std", "count", "pixel_count", "clipping_max"]
 
     def __init__(self, dimensions, clipping_max=0.95):
         """Class to compute the mean of a dataset incrementally."""
@@ -27,6 +27,8 @@ class RunningMeanStd:
         self.mean2 = np.zeros(dimensions, dtype=np.float32).squeeze()
         self._std = np.zeros(dimensions, dtype=np.float32).squeeze()
         self.count = 0
+        # Number of images that contribute to each pixel
+        self.pixel_count = np.zeros(dimensions, dtype=np.float32).squeeze()
         self.clipping_max = clipping_max
 
     def compute(self, image):
@@ -34,16 +36,11 @@ class RunningMeanStd:
         self.count += 1
 
         image = np.squeeze(image)
-        # Clipping image to mean if above threshold:
-        #  - Need to reshape to 1-D array view
-        mean_1d_view = self._mean.ravel()
-        image_1d_view = image.ravel()
-        image_1d_view[image_1d_view > self.clipping_max] = mean_1d_view[
-            image_1d_view > self.clipping_max
-        ]
-        # remove size:1 dimension from mean using squeeze
-        delta = image - self._mean
-        self._mean += delta / self.count
+        # Ignore pixels above the clipping threshold
+        valid = ~(image > self.clipping_max)
+        self.pixel_count += valid
+        delta = np.where(valid, image - self._mean, 0)
+        self._mean += delta / np.maximum(self.pixel_count, 1)
         self.mean2 += delta * (image - self._mean)
 
     @property
@@ -58,7 +55,7 @@ class RunningMeanStd:
     def std(self):
         """Get the standard deviation of the current batch."""
         if self.count > 1:
-            self._std = np.sqrt(self.mean2 / self.count)
+            self._std = np.sqrt(self.mean2 / np.maximum(self.pixel_count, 1))
             self._std[self._std < 1e-6] = 1e-6
             return self._std
         else:
-- 
2.43.0


From 4813e340ffbb7a2c8d9753c01639d96c6c7b8d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:10 +0000
Subject: [PATCH 056/109] fix: mean depth maps are biased towards zero where
 the first maps have no depth

---
 src/correct_images/tools/numerical.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/correct_images/tools/numerical.py b/src/correct_images/tools/numerical.py
index b862ff9..0a8032d 100644
--- a/src/correct_images/tools/numerical.py
+++ b/src/correct_images/tools/numerical.py
@@ -79,7 +79,6 @@ def running_mean_std(
     (np.ndarray, np.ndarray)
         Mean and std arrays
     """
-    count = 0
     tmp = None
     if width is not None and height is not None:
         tmp = loader(file_list[0], width, height)
@@ -89,22 +88,21 @@ def running_mean_std(
 
     mean = np.zeros(dimensions, dtype=np.float32)
     mean2 = np.zeros(dimensions, dtype=np.float32)
-    std = np.zeros(dimensions, dtype=np.float32)
+    # Number of images that contribute to each pixel
+    count = np.zeros(dimensions, dtype=np.float32)
 
     for item in file_list:
         if width is not None and height is not None:
             value = loader(item, width, height).astype(np.float32)
         else:
             value = loader(item).astype(np.float32)
-        if ignore_zeroes:
-            value[value == 0] = mean[value == 0]
-        count += 1
-        delta = value - mean
-        mean += delta / count
+        valid = value != 0 if ignore_zeroes else np.ones(dimensions, dtype=bool)
+        count += valid
+        delta = np.where(valid, value - mean, 0)
+        mean += delta / np.maximum(count, 1)
         delta2 = value - mean
         mean2 += delta * delta2
-    if count > 1:
-        std = np.sqrt(mean2 / count)
+    std = np.sqrt(mean2 / np.maximum(count, 1))
     return mean, std
 
 
-- 
2.43.0


From 7cf9a288e96a4e798c5603349304c60ad19208e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:10 +0000
Subject: [PATCH 057/109] fix: trimmed mean and std of images are not a number

---
 src/correct_images/tools/numerical.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/correct_images/tools/numerical.py b/src/correct_images/tools/numerical.py
index 0a8032d..38ab6da 100644
--- a/src/correct_images/tools/numerical.py
+++ b/src/correct_images/tools/numerical.py
@@ -288,32 +288,26 @@ def image_mean_std_trimmed(data, ratio_trimming=0.2, calculate_std=True):
     numpy.ndarray
         Trimmed mean and std
     """
-    n = data.shape[0]
-    a = data.shape[1]
-    b = data.shape[2]
-    c = 1
-    if len(data.shape) == 4:
-        c = data.shape[3]
+    if len(data.shape) == 3:
+        # Monochrome
+        data = data[:, :, :, np.newaxis]
+    _, a, b, c = data.shape
     ret_mean = np.zeros((a, b, c), np.float32)
     ret_std = np.zeros((a, b, c), np.float32)
 
-    effective_index = [list(range(0, n))]
-
     message = "calculating mean and std of images " + datetime.datetime.now().strftime(
         "%Y-%m-%d %H:%M:%S"
     )
 
     for ch in range(c):
         if ratio_trimming <= 0:
-            ret_mean, ret_std = mean_std_array(data[:, :, :, ch])
-            return ret_mean, ret_std
-
+            ret_mean[:, :, ch], ret_std[:, :, ch] = mean_std_array(data[:, :, :, ch])
         else:
             for idx_a in trange(a, ascii=True, desc=message):
                 results = [None] * b
                 for idx_b in range(b):
                     results[idx_b] = calc_mean_and_std_trimmed(
-                        data[effective_index, idx_a, idx_b, ch],
+                        data[:, idx_a, idx_b, ch],
                         ratio_trimming,
                         calculate_std,
                     )
-- 
2.43.0


From 4c3bcff814ca151431b015b42c93254e514dcb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:10 +0000
Subject: [PATCH 058/109] fix: altitudes and intensities are mismatched in
 curve fitting if only one of them is not finite

---
 src/correct_images/tools/curve_fitting.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/correct_images/tools/curve_fitting.py b/src/correct_images/tools/curve_fitting.py
index d557bbc..b1e40b8 100644
--- a/src/correct_images/tools/curve_fitting.py
+++ b/src/correct_images/tools/curve_fitting.py
@@ -90,8 +90,9 @@ def curve_fitting(
     numpy.ndarray
         parameters
     """
-    altitudes = altitudes[np.isfinite(altitudes)]
-    intensities = intensities[np.isfinite(intensities)]
+    finite = np.isfinite(altitudes) & np.isfinite(intensities)
+    altitudes = altitudes[finite]
+    intensities = intensities[finite]
 
     if altitudes.size == 0:
         Console.warn(
-- 
2.43.0


From 15dfb5344f8c3383f755df2237a4cfd5ac704d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:13 +0000
Subject: [PATCH 059/109] fix: manual balance of grayscale images fails

---
 src/correct_images/corrector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/correct_images/corrector.py b/src/correct_images/corrector.py
index ce5f90a..2344813 100644
--- a/src/correct_images/corrector.py
+++ b/src/correct_images/corrector.py
@@ -1388,7 +1388,7 @@ class Corrector:
             ):
                 # debayer images
                 image_rgb = corrections.debayer(image, self._type)
-            elif self._type != "bgr":
+            elif self._type != "bgr" and self._type != "grayscale":
                 image_rgb = image.copy()
                 image_rgb[:, :, [0, 1, 2]] = image_rgb[:, :, [2, 1, 0]]
             else:
-- 
2.43.0


From e9f1b9dde74f4a60ca1608308867507745e8e3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:13 +0000
Subject: [PATCH 060/109] fix: red and blue are swapped in corrected images of
 rgb and bgr cameras

---
 src/correct_images/corrector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/correct_images/corrector.py b/src/correct_images/corrector.py
index 2344813..a40ed5f 100644
--- a/src/correct_images/corrector.py
+++ b/src/correct_images/corrector.py
@@ -1374,7 +1374,7 @@ class Corrector:
             ):
                 # debayer images
                 image_rgb = corrections.debayer(image, self._type)
-            elif self._type != "bgr" and self._type != "grayscale":
+            elif self._type == "bgr":
                 image_rgb = image.copy()
                 image_rgb[:, :, [0, 1, 2]] = image_rgb[:, :, [2, 1, 0]]
             else:
@@ -1388,7 +1388,7 @@ class Corrector:
             ):
                 # debayer images
                 image_rgb = corrections.debayer(image, self._type)
-            elif self._type != "bgr" and self._type != "grayscale":
+            elif self._type == "bgr":
                 image_rgb = image.copy()
                 image_rgb[:, :, [0, 1, 2]] = image_rgb[:, :, [2, 1, 0]]
             else:
-- 
2.43.0


From d1d30bd5b4bad6a1463fa864287d833532d7d23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:13 +0000
Subject: [PATCH 061/109] fix: processing fails if an output image is only
 written correctly at the second attempt

---
 src/correct_images/tools/file_handlers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/correct_images/tools/file_handlers.py b/src/correct_images/tools/file_handlers.py
index 8c443e6..10469ca 100644
--- a/src/correct_images/tools/file_handlers.py
+++ b/src/correct_images/tools/file_handlers.py
@@ -152,7 +152,7 @@ def write_output_image(image, filename, dest_path, dest_format):
             f"Failed to write image {file_path} after {max_tries} unsuccessful attempts"
         )
     elif i > 0:
-        Console.warning(
+        Console.warn(
             f"Image {file_path} was written successfully after {i} failed attempt(s)"
         )
 
-- 
2.43.0


From 4a23aea83196b5232ed8f533b415cafd34551b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:13 +0000
Subject: [PATCH 062/109] fix: images are not rescaled if their name contains
 the name of another image

---
 src/correct_images/corrections/rescale.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/correct_images/corrections/rescale.py b/src/correct_images/corrections/rescale.py
index 2c7a47e..253d51d 100644
--- a/src/correct_images/corrections/rescale.py
+++ b/src/correct_images/corrections/rescale.py
@@ -118,8 +118,10 @@ def rescale_images(
         trimmed_path_list = [
             path for path in image_path_list if Path(path).stem in image_name
         ]
+        # The name of an image can be part of the name of another image
+        trimmed_path_list = sorted(trimmed_path_list, key=lambda p: len(Path(p).stem))
         trimmed_dataframe = dataframe.loc[
-            dataframe["relative_path"].isin(trimmed_path_list)
+            dataframe["relative_path"].isin(trimmed_path_list[-1:])
         ]
         altitude = trimmed_dataframe["altitude [m]"]
         if len(altitude) > 0:
@@ -128,7 +130,7 @@ def rescale_images(
                 image,
                 interpolate_method,
                 target_pixel_size_m,
-                altitude,
+                altitude.iloc[0],
                 f_x,
                 f_y,
                 maintain_pixels,
-- 
2.43.0


From 847bd8f07f2552dbfddeef0b466b266fcbb3ef2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:13 +0000
Subject: [PATCH 063/109] fix: grayscale images cannot be rescaled

---
 src/correct_images/corrections/rescale.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/correct_images/corrections/rescale.py b/src/correct_images/corrections/rescale.py
index 253d51d..9ad6002 100644
--- a/src/correct_images/corrections/rescale.py
+++ b/src/correct_images/corrections/rescale.py
@@ -58,7 +58,7 @@ def rescale(
         Console.error("  * lanczos")
         Console.quit("Rescaling method not implemented.")
 
-    image_rgb = Image.fromarray(image_array, "RGB")
+    image_rgb = Image.fromarray(image_array)
 
     if maintain_pixels:
         if vertical_rescale < 1 or horizontal_rescale < 1:
-- 
2.43.0


From 771d9ed850129287cdf95c5db309578c3f5b0a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:41 +0000
Subject: [PATCH 064/109] fix: plane coefficients are wrong if the normal given
 does not have unit length

---
 src/auv_cal/plane_fitting.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/auv_cal/plane_fitting.py b/src/auv_cal/plane_fitting.py
index a8b012b..247aa92 100644
--- a/src/auv_cal/plane_fitting.py
+++ b/src/auv_cal/plane_fitting.py
@@ -25,10 +25,8 @@ class Plane:
 
     def from_coeffs(self, coeffs):
         self.coeffs = np.array(coeffs, dtype=np.float64)
+        self.coeffs /= norm(self.coeffs[0:3])
         self.normal = self.coeffs[0:3]
-        norm_normal = norm(self.normal)
-        self.normal /= norm_normal
-        self.coeffs /= norm_normal
         self.point = np.array([0.0, 1.0, 10.0], dtype=np.float64)
         self.point[0] = -(
             (
-- 
2.43.0


From 802b1932a23564f6f469cecb06439a1d60dbe0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:41 +0000
Subject: [PATCH 065/109] fix: intersecting a ray with a plane alters the ray

---
 src/auv_cal/plane_fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_cal/plane_fitting.py b/src/auv_cal/plane_fitting.py
index 247aa92..0d59697 100644
--- a/src/auv_cal/plane_fitting.py
+++ b/src/auv_cal/plane_fitting.py
@@ -131,7 +131,7 @@ class Plane:
         return self.coeffs
 
     def ray_intersection(self, ray_point, ray_vec):
-        ray_vec /= norm(ray_vec)
+        ray_vec = ray_vec / norm(ray_vec)
         if np.dot(self.normal, ray_vec) == 0:
             return None
         num = np.dot(self.normal, self.point) - np.dot(self.normal, ray_point)
-- 
2.43.0


From 1cfb1a9235996baf9242db481e8e913832126f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:41 +0000
Subject: [PATCH 066/109] fix: plane built from angles does not contain the
 given point

---
 src/auv_cal/laser_calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_cal/laser_calibrator.py b/src/auv_cal/laser_calibrator.py
index 3a8f7ea..cdcd2b5 100644
--- a/src/auv_cal/laser_calibrator.py
+++ b/src/auv_cal/laser_calibrator.py
@@ -49,8 +49,8 @@ def build_plane(pitch, yaw, point):
     b = math.tan(math.radians(yaw))
     c = math.tan(math.radians(pitch))
     normal = np.array([a, b, c])
-    normal = normal / np.linalg.norm(normal)
     d = -np.dot(normal, point)
+    normal = normal / np.linalg.norm(normal)
     plane = np.array([a, b, c, d])
     offset = (-d - point[1] * b) / a
     return plane, normal, offset
-- 
2.43.0


From 8b188c3aeef0949d394bfd9ff5621bd8c51ed0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:41 +0000
Subject: [PATCH 067/109] fix: uncertainty planes of the second laser are those
 of the first laser

---
 src/auv_cal/laser_calibrator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/auv_cal/laser_calibrator.py b/src/auv_cal/laser_calibrator.py
index cdcd2b5..40e5a25 100644
--- a/src/auv_cal/laser_calibrator.py
+++ b/src/auv_cal/laser_calibrator.py
@@ -783,6 +783,10 @@ class LaserCalibrator:
 
         total_no_points = len(cloud)
 
+        # Do not keep the results of a previous fit (e.g. of the other laser)
+        self.triples = []
+        self.uncertainty_planes = []
+
         # Fit mean plane
         Console.info("Fitting a plane to", total_no_points, "points...")
         p = Plane([1, 0, 0, 1.5])
-- 
2.43.0


From 6bf1c1c8ebd171d3b7df9df8b3cf78cb67b9d6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:41 +0000
Subject: [PATCH 068/109] fix: laser calibration triangulates images that were
 not taken at the same time

---
 src/auv_cal/laser_calibrator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/auv_cal/laser_calibrator.py b/src/auv_cal/laser_calibrator.py
index 40e5a25..cc51e4c 100644
--- a/src/auv_cal/laser_calibrator.py
+++ b/src/auv_cal/laser_calibrator.py
@@ -1030,17 +1030,17 @@ class LaserCalibrator:
         limages_rs = []
         rimages_rs = []
         rs_size = 500
-        if len(limages) > rs_size:
+        if len(limages_sync) > rs_size:
             f = lambda m, n: [  # noqa
                 i * n // m + n // (2 * m) for i in range(m)
             ]  # See https://stackoverflow.com/a/9873804/707946
-            selection = f(rs_size, len(limages))
+            selection = f(rs_size, len(limages_sync))
             for s in selection:
                 limages_rs.append(limages_sync[s])
                 rimages_rs.append(rimages_sync[s])
         else:
-            limages_rs = limages
-            rimages_rs = rimages
+            limages_rs = limages_sync
+            rimages_rs = rimages_sync
 
         Console.info("Processing", str(len(limages_sync)), "synchronised images...")
         result = joblib.Parallel(n_jobs=-1)(
-- 
2.43.0


From bd04c2d4e55fadccbb9c5bd3e83a6ab4687d8970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:41 +0000
Subject: [PATCH 069/109] fix: laser detections of an image without laser
 cannot be read again

---
 src/auv_cal/laser_calibrator.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/auv_cal/laser_calibrator.py b/src/auv_cal/laser_calibrator.py
index cc51e4c..f961055 100644
--- a/src/auv_cal/laser_calibrator.py
+++ b/src/auv_cal/laser_calibrator.py
@@ -401,8 +401,11 @@ def get_laser_pixels_in_image_pair(
             start_row=start_row,
             end_row=end_row,
         )
-        write_str = "top: \n- " + "- ".join(
-            ["[" + str(p1[i][0]) + ", " + str(p1[i][1]) + "]\n" for i in range(len(p1))]
+        write_str = "top: \n" + "".join(
+            [
+                "- [" + str(p1[i][0]) + ", " + str(p1[i][1]) + "]\n"
+                for i in range(len(p1))
+            ]
         )
         if two_lasers:
             p1b = findLaserInImage(
@@ -413,9 +416,9 @@ def get_laser_pixels_in_image_pair(
                 start_row=start_row_b,
                 end_row=end_row_b,
             )
-            write_str += "bottom: \n- " + "- ".join(
+            write_str += "bottom: \n" + "".join(
                 [
-                    "[" + str(p1b[i][0]) + ", " + str(p1b[i][1]) + "]\n"
+                    "- [" + str(p1b[i][0]) + ", " + str(p1b[i][1]) + "]\n"
                     for i in range(len(p1b))
                 ]
             )
@@ -485,11 +488,8 @@ def get_laser_pixels_in_image_pair(
             with filename.open("r") as f:
                 r = yaml.safe_load(f)
             if r is not None:
-                a1 = r["top"]
-                if "bottom" in r:
-                    a1b = r["bottom"]
-                else:
-                    a1b = []
+                a1 = r["top"] or []
+                a1b = r.get("bottom") or []
                 i = 0
                 for i in range(len(a1)):
                     points.append([a1[i][0], a1[i][1]])
-- 
2.43.0


From 4147218d97600c6e938280980d13a712a568358e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:16 +0000
Subject: [PATCH 070/109] fix: stereo images cannot be parsed if the second
 camera has none

---
 src/auv_nav/parsers/parse_biocam_images.py | 4 +++-
 src/auv_nav/parsers/parse_ntnu_stereo.py   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/parsers/parse_biocam_images.py b/src/auv_nav/parsers/parse_biocam_images.py
index 36176c1..ef538ad 100644
--- a/src/auv_nav/parsers/parse_biocam_images.py
+++ b/src/auv_nav/parsers/parse_biocam_images.py
@@ -189,7 +189,9 @@ def parse_biocam_images(mission, vehicle, category, ftype, outpath):
         for j in range(len(camera2_filename)):
             values.append(abs(float(stamp_pc1[i]) - float(stamp_pc2[j])))
 
-        (sync_difference, sync_pair) = min((v, k) for k, v in enumerate(values))
+        (sync_difference, sync_pair) = min(
+            ((v, k) for k, v in enumerate(values)), default=(float("inf"), None)
+        )
 
         if sync_difference < tolerance:
             if ftype == "oplab":
diff --git a/src/auv_nav/parsers/parse_ntnu_stereo.py b/src/auv_nav/parsers/parse_ntnu_stereo.py
index 203740e..2cdb875 100644
--- a/src/auv_nav/parsers/parse_ntnu_stereo.py
+++ b/src/auv_nav/parsers/parse_ntnu_stereo.py
@@ -120,7 +120,9 @@ def parse_ntnu_stereo_images(mission, vehicle, category, ftype, outpath):
                     - float(epoch_timestamp_camera2[j])
                 )
             )
-        (sync_difference, sync_pair) = min((v, k) for k, v in enumerate(values))
+        (sync_difference, sync_pair) = min(
+            ((v, k) for k, v in enumerate(values)), default=(float("inf"), None)
+        )
         if sync_difference > tolerance:
             # Skip the pair
             continue
-- 
2.43.0


From 04534c8186ecff7a35158919d027cf6af2195adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:16 +0000
Subject: [PATCH 071/109] fix: BioCam laser images abort the conversion to the
 ACFR format

---
 src/auv_nav/parsers/parse_biocam_images.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/auv_nav/parsers/parse_biocam_images.py b/src/auv_nav/parsers/parse_biocam_images.py
index ef538ad..4197940 100644
--- a/src/auv_nav/parsers/parse_biocam_images.py
+++ b/src/auv_nav/parsers/parse_biocam_images.py
@@ -244,6 +244,9 @@ def parse_biocam_images(mission, vehicle, category, ftype, outpath):
                 )
                 # fileout.write(data)
                 data_list += data
+    if ftype == "acfr":
+        # The ACFR format does not include laser images
+        camera3_filename = []
     for i in range(len(camera3_filename)):
         t3, tc3 = biocam_timestamp_from_filename(
             Path(camera3_filename[i]).name, timezone_offset, timeoffset
-- 
2.43.0


From 0aaf62949a8d03afb145dd8875cf52c934bff290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:00 +0000
Subject: [PATCH 072/109] fix: interrupted parsing leaves navigation data that
 is incomplete or not in order

---
 src/auv_nav/parse.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/auv_nav/parse.py b/src/auv_nav/parse.py
index ef35490..ec8aa3c 100644
--- a/src/auv_nav/parse.py
+++ b/src/auv_nav/parse.py
@@ -158,9 +158,11 @@ def parse(filepath, force_overwrite, merge):
             except Exception as e:
                 print("Warning:", e)
 
-        # create file (overwrite if exists)
+        # Use a temporary file until the data is complete and in order, so that
+        # an interrupted run does not leave an incomplete navigation file behind
         filename = "nav_standard.json"
-        nav_file = nav_folder / filename
+        temp_filename = filename + ".tmp"
+        nav_file = nav_folder / temp_filename
         Console.info("Writing the ouput to:", str(nav_file))
         with nav_file.open("w") as fileout:
             json.dump(data_list, fileout, indent=2)
@@ -180,7 +182,8 @@ def parse(filepath, force_overwrite, merge):
 
         # interlace the data based on timestamps
         Console.info("Interlacing merged data...")
-        parse_interlacer(nav_folder, filename)
+        parse_interlacer(nav_folder, temp_filename)
+        nav_file.replace(nav_folder / filename)
         Console.info(
             "...done interlacing merged data. Output saved to",
             nav_folder / filename,
@@ -774,8 +777,10 @@ def parse_single(filepath, force_overwrite):
     for i in data_list:
         data_list_temp += i
 
-    # create file (overwrite if exists)
-    nav_file = outpath / filename
+    # Use a temporary file until the data is complete and in order, so that an
+    # interrupted run does not leave an incomplete navigation file behind
+    temp_filename = filename + ".tmp"
+    nav_file = outpath / temp_filename
     with nav_file.open("w") as fileout:
         json.dump(data_list_temp, fileout, indent=2)
     fileout.close()
@@ -786,7 +791,8 @@ def parse_single(filepath, force_overwrite):
 
     # interlace the data based on timestamps
     Console.info("Interlacing data...")
-    parse_interlacer(outpath, filename)
+    parse_interlacer(outpath, temp_filename)
+    nav_file.replace(outpath / filename)
     Console.info("...done interlacing data. Output saved to", outpath / filename)
     plot_parse_data(outpath, ftype) # it makes the program stuck with unknown reasons
     Console.info("Complete parse data")
-- 
2.43.0


From ef1b48def5cc8ddc03f91819cc6641cb132c2b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:33 +0000
Subject: [PATCH 073/109] fix: interrupted run leaves an incomplete default
 configuration that later runs use

---
 src/oplab/folder_structure.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/oplab/folder_structure.py b/src/oplab/folder_structure.py
index 473d844..5513ca6 100644
--- a/src/oplab/folder_structure.py
+++ b/src/oplab/folder_structure.py
@@ -138,7 +138,12 @@ def remove_directory(folder: Path):
 def _copy(self, target):
     if not target.parent.exists():
         target.parent.mkdir(exist_ok=True, parents=True)
-    shutil.copyfile(str(self), str(target))  # str() only there for Python < (3, 6)
+    # Use a temporary file, so that an interrupted copy does not leave an
+    # incomplete file behind that is taken for a complete one by the next run
+    target = target.resolve()
+    temporary = target.parent / (target.name + ".tmp")
+    shutil.copyfile(str(self), str(temporary))  # str() for Python < (3, 6)
+    temporary.replace(target)
 
 
 Path.copy = _copy
-- 
2.43.0


From d8a2e2a4c7a6a00ebdbaf55659a391795a1baaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:05 +0000
Subject: [PATCH 074/109] fix: interrupted laser calibration leaves incomplete
 detections that later runs use

---
 src/auv_cal/laser_calibrator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/auv_cal/laser_calibrator.py b/src/auv_cal/laser_calibrator.py
index f961055..f1598b5 100644
--- a/src/auv_cal/laser_calibrator.py
+++ b/src/auv_cal/laser_calibrator.py
@@ -422,8 +422,12 @@ def get_laser_pixels_in_image_pair(
                     for i in range(len(p1b))
                 ]
             )
-        with filename.open("w") as f:
+        # Use a temporary file, so that an interrupted run does not leave an
+        # incomplete list of detections that would be used by the next run
+        temporary = filename.with_name(filename.name + ".tmp")
+        with temporary.open("w") as f:
             f.write(write_str)
+        temporary.replace(filename)
         p1 = np.array(p1, dtype=np.float32)
         p1b = np.array(p1b, dtype=np.float32)
         return p1, p1b
-- 
2.43.0


From dd59bf0db17ab9681290890b8456c49c65bcd1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:42 +0000
Subject: [PATCH 075/109] fix: USBL dump positions south of the equator or west
 of Greenwich are wrong by up to two degrees

---
 src/auv_nav/parsers/parse_usbl_dump.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/auv_nav/parsers/parse_usbl_dump.py b/src/auv_nav/parsers/parse_usbl_dump.py
index ba3293b..3410cac 100644
--- a/src/auv_nav/parsers/parse_usbl_dump.py
+++ b/src/auv_nav/parsers/parse_usbl_dump.py
@@ -86,22 +86,18 @@ def parse_usbl_dump(mission, vehicle, category, ftype, outpath):
                     latitude_degrees = int(latitude_list[0])
                     latitude_minutes = float(latitude_list[1])
 
-                    if latitude_full[1] != "N":
-                        latitude_degrees = latitude_degrees * -1  # southern hemisphere
-
                     latitude = latitude_degrees + latitude_minutes / 60
+                    if latitude_full[1] != "N":
+                        latitude = -latitude  # southern hemisphere
 
                     longitude_full = line_split[7].split(" ")
                     longitude_list = longitude_full[0].split("-")
                     longitude_degrees = int(longitude_list[0])
                     longitude_minutes = float(longitude_list[1])
 
-                    if longitude_full[1] != "E":
-                        longitude_degrees = (
-                            longitude_degrees * -1
-                        )  # southern hemisphere
-
                     longitude = longitude_degrees + longitude_minutes / 60
+                    if longitude_full[1] != "E":
+                        longitude = -longitude  # western hemisphere
 
                     depth_full = line_split[8].split("=")
                     depth = float(depth_full[1])
-- 
2.43.0


From c0ee07dc2a75d7259966c86fe8c8027a358e7142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:42 +0000
Subject: [PATCH 076/109] fix: standard deviations are negative for negative
 values

---
 src/auv_nav/parsers/parse_NOC_polpred.py |  2 +-
 src/auv_nav/parsers/parse_tide_CTI.py    |  2 +-
 src/auv_nav/parsers/parse_usbl_dump.py   |  4 +-
 src/auv_nav/sensors.py                   | 70 ++++++++++++------------
 4 files changed, 40 insertions(+), 38 deletions(-)

diff --git a/src/auv_nav/parsers/parse_NOC_polpred.py b/src/auv_nav/parsers/parse_NOC_polpred.py
index 943a1a1..f6642fb 100644
--- a/src/auv_nav/parsers/parse_NOC_polpred.py
+++ b/src/auv_nav/parsers/parse_NOC_polpred.py
@@ -60,7 +60,7 @@ def parse_NOC_polpred(mission, vehicle, category, ftype, outpath):
                     epoch_timestamp = epoch_time + msec / 1000 + timeoffset
                     tide.epoch_timestamp = epoch_timestamp
                     tide.height = float(line[22:28])
-                    tide.height_std = tide.height * tide.height_std_factor
+                    tide.height_std = abs(tide.height) * tide.height_std_factor
 
                     data = tide.export(output_format)
                     data_list.append(data)
diff --git a/src/auv_nav/parsers/parse_tide_CTI.py b/src/auv_nav/parsers/parse_tide_CTI.py
index 38aa1c5..5155368 100644
--- a/src/auv_nav/parsers/parse_tide_CTI.py
+++ b/src/auv_nav/parsers/parse_tide_CTI.py
@@ -74,7 +74,7 @@ def parse_tide_CTI(mission, vehicle, category, ftype, outpath):
                     _ini = line.find(",") + 1
                     _end = line.find(",", _ini)
                     tide.height = float(line[_ini:_end])
-                    tide.height_std = tide.height * tide.height_std_factor
+                    tide.height_std = abs(tide.height) * tide.height_std_factor
 
                     data = tide.export(output_format)
                     data_list.append(data)
diff --git a/src/auv_nav/parsers/parse_usbl_dump.py b/src/auv_nav/parsers/parse_usbl_dump.py
index 3410cac..d3de3f7 100644
--- a/src/auv_nav/parsers/parse_usbl_dump.py
+++ b/src/auv_nav/parsers/parse_usbl_dump.py
@@ -118,8 +118,8 @@ def parse_usbl_dump(mission, vehicle, category, ftype, outpath):
                         latitude, longitude, distance_std, distance_std
                     )
 
-                    latitude_std = latitude - latitude_offset
-                    longitude_std = longitude - longitude_offset
+                    latitude_std = abs(latitude - latitude_offset)
+                    longitude_std = abs(longitude - longitude_offset)
 
                     # calculate in metres from reference
                     eastings_ship = 0
diff --git a/src/auv_nav/sensors.py b/src/auv_nav/sensors.py
index f526bd4..a50dc49 100644
--- a/src/auv_nav/sensors.py
+++ b/src/auv_nav/sensors.py
@@ -379,23 +379,23 @@ class BodyVelocity(OutputFormat):
         elif sensor_std["model"] == "linear":
             if "offset_x" in sensor_std:
                 self.x_velocity_std = (
-                    sensor_std["offset_x"] + sensor_std["factor_x"] * self.x_velocity
+                    sensor_std["offset_x"] + sensor_std["factor_x"] * abs(self.x_velocity)
                 )
                 self.y_velocity_std = (
-                    sensor_std["offset_y"] + sensor_std["factor_y"] * self.y_velocity
+                    sensor_std["offset_y"] + sensor_std["factor_y"] * abs(self.y_velocity)
                 )
                 self.z_velocity_std = (
-                    sensor_std["offset_z"] + sensor_std["factor_z"] * self.z_velocity
+                    sensor_std["offset_z"] + sensor_std["factor_z"] * abs(self.z_velocity)
                 )
             else:
                 self.x_velocity_std = (
-                    sensor_std["offset"] + sensor_std["factor"] * self.x_velocity
+                    sensor_std["offset"] + sensor_std["factor"] * abs(self.x_velocity)
                 )
                 self.y_velocity_std = (
-                    sensor_std["offset"] + sensor_std["factor"] * self.y_velocity
+                    sensor_std["offset"] + sensor_std["factor"] * abs(self.y_velocity)
                 )
                 self.z_velocity_std = (
-                    sensor_std["offset"] + sensor_std["factor"] * self.z_velocity
+                    sensor_std["offset"] + sensor_std["factor"] * abs(self.z_velocity)
                 )
         else:
             Console.error("The STD model you entered for DVL is not supported.")
@@ -775,9 +775,9 @@ class Orientation(OutputFormat):
             self.pitch_std = json["data"][2]["pitch_std"]
             self.yaw_std = json["data"][0]["heading_std"]
         elif sensor_std["model"] == "linear":
-            self.roll_std = sensor_std["offset"] + sensor_std["factor"] * self.roll
-            self.pitch_std = sensor_std["offset"] + sensor_std["factor"] * self.pitch
-            self.yaw_std = sensor_std["offset"] + sensor_std["factor"] * self.yaw
+            self.roll_std = sensor_std["offset"] + sensor_std["factor"] * abs(self.roll)
+            self.pitch_std = sensor_std["offset"] + sensor_std["factor"] * abs(self.pitch)
+            self.yaw_std = sensor_std["offset"] + sensor_std["factor"] * abs(self.yaw)
         else:
             Console.error("The STD model you entered for Orientation is not supported.")
             Console.quit("STD model not supported.")
@@ -893,7 +893,7 @@ class Depth(OutputFormat):
         self.epoch_timestamp = ros_stamp_to_epoch(msg.header.stamp) - self.tz_offset_s
         self.depth_timestamp = self.epoch_timestamp
         if self.depth_std == 0:
-            self.depth_std = self.depth * self.depth_std_factor
+            self.depth_std = abs(self.depth) * self.depth_std_factor
 
     def from_eiva_navipac(self, line):
         self.sensor_string = "eiva_navipac"
@@ -908,30 +908,30 @@ class Depth(OutputFormat):
             self.epoch_timestamp = None
             return
         self.depth = float(parts[5])
-        self.depth_std = self.depth * self.depth_std_factor
+        self.depth_std = abs(self.depth) * self.depth_std_factor
 
     def from_alr(self, t, d):
         self.epoch_timestamp = t
         self.depth_timestamp = self.epoch_timestamp
         self.depth = d
-        self.depth_std = self.depth * self.depth_std_factor
+        self.depth_std = abs(self.depth) * self.depth_std_factor
 
     def from_koyo21rov(self, t, d):
         self.epoch_timestamp = t
         self.depth_timestamp = self.epoch_timestamp
         self.depth = d
-        self.depth_std = self.depth * self.depth_std_factor
+        self.depth_std = abs(self.depth) * self.depth_std_factor
 
     def from_autosub(self, data, i):
         self.epoch_timestamp = data["eTime"][i]
         self.depth_timestamp = self.epoch_timestamp
         self.depth = data["DepCtldepth"][i]
-        self.depth_std = self.depth * self.depth_std_factor
+        self.depth_std = abs(self.depth) * self.depth_std_factor
 
     def from_phins(self, line):
         self.sensor_string = "phins"
         self.depth = float(line[2])
-        self.depth_std = self.depth * self.depth_std_factor
+        self.depth_std = abs(self.depth) * self.depth_std_factor
         time_string = str(line[3])
         hour = int(time_string[0:2])
         mins = int(time_string[2:4])
@@ -957,7 +957,7 @@ class Depth(OutputFormat):
         if sensor_std["model"] == "sensor":
             self.depth_std = json["data"][0]["depth_std"]
         elif sensor_std["model"] == "linear":
-            self.depth_std = sensor_std["offset"] + sensor_std["factor"] * self.depth
+            self.depth_std = sensor_std["offset"] + sensor_std["factor"] * abs(self.depth)
         else:
             Console.error("The STD model you entered for Depth is not supported.")
             Console.quit("STD model not supported.")
@@ -1046,7 +1046,7 @@ class Altitude(OutputFormat):
             Console.quit("Altitude ROS parser for", msg_type, "not supported.")
         self.epoch_timestamp = ros_stamp_to_epoch(msg.header.stamp) - self.tz_offset_s
         self.altitude_timestamp = self.epoch_timestamp
-        self.altitude_std = self.altitude * self.altitude_std_factor
+        self.altitude_std = abs(self.altitude) * self.altitude_std_factor
 
     def from_ntnu_dvl(self, filename, row):
         self.sensor_string = "ntnu_dvl"
@@ -1062,25 +1062,25 @@ class Altitude(OutputFormat):
         # alt2 = float(row["dvl_alt2"])  # right
         alt3 = float(row["dvl_alt3"])  # aft
         self.altitude = (alt1 + alt3) / 2.0
-        self.altitude_std = self.altitude * self.altitude_std_factor
+        self.altitude_std = abs(self.altitude) * self.altitude_std_factor
 
     def from_alr(self, t, a):
         self.epoch_timestamp = t
         self.altitude_timestamp = self.epoch_timestamp
         self.altitude = a
-        self.altitude_std = self.altitude * self.altitude_std_factor
+        self.altitude_std = abs(self.altitude) * self.altitude_std_factor
 
     def from_koyo21rov(self, t, a):
         self.epoch_timestamp = t
         self.altitude_timestamp = self.epoch_timestamp
         self.altitude = a
-        self.altitude_std = self.altitude * self.altitude_std_factor
+        self.altitude_std = abs(self.altitude) * self.altitude_std_factor
 
     def from_autosub(self, data, i):
         self.epoch_timestamp = data["eTime"][i]
         self.altitude_timestamp = self.epoch_timestamp
         self.altitude = data["ADCPAvAlt"][i]
-        self.altitude_std = self.altitude * self.altitude_std_factor
+        self.altitude_std = abs(self.altitude) * self.altitude_std_factor
 
     def from_phins(self, line, altitude_timestamp):
         self.sensor_string = "phins"
@@ -1089,7 +1089,7 @@ class Altitude(OutputFormat):
         self.sound_velocity = sound_velocity
         self.sound_velocity_correction = correction
         self.altitude = altitude
-        self.altitude_std = self.altitude * self.altitude_std_factor
+        self.altitude_std = abs(self.altitude) * self.altitude_std_factor
 
     def from_json(self, json):
         self.epoch_timestamp = json["epoch_timestamp"]
@@ -1229,11 +1229,11 @@ class Usbl(OutputFormat):
             self.depth_std = np.sqrt(msg.pose.covariance[14])
 
             if self.eastings_std == 0:
-                self.eastings_std = self.std_factor * self.depth + self.std_offset
+                self.eastings_std = self.std_factor * abs(self.depth) + self.std_offset
             if self.northings_std == 0:
-                self.northings_std = self.std_factor * self.depth + self.std_offset
+                self.northings_std = self.std_factor * abs(self.depth) + self.std_offset
             if self.depth_std == 0:
-                self.depth_std = self.std_factor * self.depth + self.std_offset
+                self.depth_std = self.std_factor * abs(self.depth) + self.std_offset
 
             # Convert to lat lon from the reference
             self.latitude, self.longitude = metres_to_latlon(
@@ -1335,9 +1335,9 @@ class Usbl(OutputFormat):
         self.distance_to_ship = -1.0
         self.eastings = sin(bearing * pi / 180.0) * lateral_distance
         self.northings = cos(bearing * pi / 180.0) * lateral_distance
-        self.eastings_std = self.std_factor * self.depth + self.std_offset
-        self.northings_std = self.std_factor * self.depth + self.std_offset
-        self.depth_std = self.std_factor * self.depth + self.std_offset
+        self.eastings_std = self.std_factor * abs(self.depth) + self.std_offset
+        self.northings_std = self.std_factor * abs(self.depth) + self.std_offset
+        self.depth_std = self.std_factor * abs(self.depth) + self.std_offset
         # If your displacements aren't too great (less than a few kilometers)
         # and you're not right at the poles, use the quick and dirty estimate
         # that 111,111 meters (111.111 km) in the y direction is 1 degree (of
@@ -1364,9 +1364,9 @@ class Usbl(OutputFormat):
         self.distance_to_ship = -1.0
         self.eastings = sin(bearing * pi / 180.0) * lateral_distance
         self.northings = cos(bearing * pi / 180.0) * lateral_distance
-        self.eastings_std = self.std_factor * self.depth + self.std_offset
-        self.northings_std = self.std_factor * self.depth + self.std_offset
-        self.depth_std = self.std_factor * self.depth + self.std_offset
+        self.eastings_std = self.std_factor * abs(self.depth) + self.std_offset
+        self.northings_std = self.std_factor * abs(self.depth) + self.std_offset
+        self.depth_std = self.std_factor * abs(self.depth) + self.std_offset
         # If your displacements aren't too great (less than a few kilometers)
         # and you're not right at the poles, use the quick and dirty estimate
         # that 111,111 meters (111.111 km) in the y direction is 1 degree (of
@@ -1391,11 +1391,13 @@ class Usbl(OutputFormat):
             self.northings_std = json["data_target"][2]["northings_std"]
             self.eastings_std = json["data_target"][3]["eastings_std"]
         elif sensor_std["model"] == "linear":
+            # The distance is negative if it is not known
+            distance_to_ship = max(self.distance_to_ship, 0.0)
             self.northings_std = (
-                sensor_std["offset"] + sensor_std["factor"] * self.distance_to_ship
+                sensor_std["offset"] + sensor_std["factor"] * distance_to_ship
             )
             self.eastings_std = (
-                sensor_std["offset"] + sensor_std["factor"] * self.distance_to_ship
+                sensor_std["offset"] + sensor_std["factor"] * distance_to_ship
             )
 
             # determine range to input to uncertainty model
@@ -1569,7 +1571,7 @@ class Tide(OutputFormat):
         if sensor_std["model"] == "sensor":
             self.height_std = json["data"][0]["tide_std"]
         elif sensor_std["model"] == "linear":
-            self.height_std = sensor_std["offset"] + sensor_std["factor"] * self.height
+            self.height_std = sensor_std["offset"] + sensor_std["factor"] * abs(self.height)
         else:
             Console.error("The STD model you entered for TIDE is not supported.")
             Console.quit("STD model not supported.")
-- 
2.43.0


From b554ea6af73a9b731133d4afc566e2fca8e3105b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:42 +0000
Subject: [PATCH 077/109] fix: uncertainty of NMEA positions in degrees is
 derived from the depth

---
 src/auv_nav/sensors.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/auv_nav/sensors.py b/src/auv_nav/sensors.py
index a50dc49..f00e171 100644
--- a/src/auv_nav/sensors.py
+++ b/src/auv_nav/sensors.py
@@ -1343,8 +1343,8 @@ class Usbl(OutputFormat):
         # that 111,111 meters (111.111 km) in the y direction is 1 degree (of
         # latitude) and 111,111 * cos(latitude) meters in the x direction is
         # 1 degree (of longitude).
-        self.latitude_std = self.eastings_std / 111.111e3
-        self.longitude_std = self.northings_std / (
+        self.latitude_std = self.northings_std / 111.111e3
+        self.longitude_std = self.eastings_std / (
             111.111e3 * cos(self.latitude * pi / 180.0)
         )
 
@@ -1372,8 +1372,10 @@ class Usbl(OutputFormat):
         # that 111,111 meters (111.111 km) in the y direction is 1 degree (of
         # latitude) and 111,111 * cos(latitude) meters in the x direction is
         # 1 degree (of longitude).
-        self.latitude_std = self.depth / 111.111e3
-        self.longitude_std = self.latitude_std * cos(self.latitude * pi / 180.0)
+        self.latitude_std = self.northings_std / 111.111e3
+        self.longitude_std = self.eastings_std / (
+            111.111e3 * cos(self.latitude * pi / 180.0)
+        )
 
     def from_json(self, json, sensor_std):
         self.epoch_timestamp = json["epoch_timestamp"]
-- 
2.43.0


From 16c69cd50e64df74ea2b538d2f2139ea12c16ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:42 +0000
Subject: [PATCH 078/109] fix: heading of the ship is interpolated the wrong
 way around when it passes north

---
 src/auv_nav/parsers/parse_gaps.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/auv_nav/parsers/parse_gaps.py b/src/auv_nav/parsers/parse_gaps.py
index 5f92c1a..055beb0 100644
--- a/src/auv_nav/parsers/parse_gaps.py
+++ b/src/auv_nav/parsers/parse_gaps.py
@@ -315,10 +315,11 @@ def parse_gaps(mission, vehicle, category, ftype, outpath):
                         inter_time * (latitude_posterior - latitude_prior)
                         + latitude_prior
                     )
-                    heading_ship = (
-                        inter_time * (heading_ship_posterior - heading_ship_prior)
-                        + heading_ship_prior
-                    )
+                    # turn the shorter way between the two headings
+                    heading_ship_change = (
+                        heading_ship_posterior - heading_ship_prior + 180
+                    ) % 360 - 180
+                    heading_ship = inter_time * heading_ship_change + heading_ship_prior
 
                     while heading_ship > 360:
                         heading_ship = heading_ship - 360
-- 
2.43.0


From eaf3a4fc0d113aec4a3416d9625ee7b10f43a555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:45 +0000
Subject: [PATCH 079/109] fix: standard deviations are rotated like vectors and
 can become negative

---
 src/auv_nav/sensors.py | 37 +++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/src/auv_nav/sensors.py b/src/auv_nav/sensors.py
index f00e171..f34c4cb 100644
--- a/src/auv_nav/sensors.py
+++ b/src/auv_nav/sensors.py
@@ -126,6 +126,16 @@ class OutputFormat:
         return data
 
 
+def rotate_std(yaw, x_std, y_std):
+    """Standard deviations after a rotation about the z axis by yaw in degrees"""
+    c = cos(yaw * pi / 180.0)
+    s = sin(yaw * pi / 180.0)
+    return (
+        sqrt((c * x_std) ** 2 + (s * y_std) ** 2),
+        sqrt((s * x_std) ** 2 + (c * y_std) ** 2),
+    )
+
+
 class BodyVelocity(OutputFormat):
     def __init__(
         self,
@@ -262,18 +272,10 @@ class BodyVelocity(OutputFormat):
             self.y_velocity,
             self.z_velocity,
         )
-        [
-            self.x_velocity_std,
-            self.y_velocity_std,
-            self.z_velocity_std,
-        ] = body_to_inertial(
-            0,
-            0,
-            self.yaw_offset,
-            self.x_velocity_std,
-            self.y_velocity_std,
-            self.z_velocity_std,
-        )
+        if with_std:
+            self.x_velocity_std, self.y_velocity_std = rotate_std(
+                self.yaw_offset, self.x_velocity_std, self.y_velocity_std
+            )
 
     def from_ros(self, msg, msg_type, output_dir):
         """Parse ROS topic / from DVL data"""
@@ -642,14 +644,9 @@ class Orientation(OutputFormat):
                 self.yaw = self.yaw + 360
 
     def apply_std_offset(self):
-        # account for sensor rotational offset
-        [self.roll_std, self.pitch_std, self.heading_std] = body_to_inertial(
-            0,
-            0,
-            self.yaw_offset,
-            self.roll_std,
-            self.pitch_std,
-            self.yaw_std,
+        # account for sensor rotational offset. It is the variances that add up.
+        self.roll_std, self.pitch_std = rotate_std(
+            self.yaw_offset, self.roll_std, self.pitch_std
         )
 
     def from_eiva_navipac(self, line):
-- 
2.43.0


From 16f3a5c2c55824d602c0f5b516cc31cdb5b07206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:51 +0000
Subject: [PATCH 080/109] fix: points cannot be undistorted, rectified or
 projected with a camera model

---
 src/oplab/camera_models.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/oplab/camera_models.py b/src/oplab/camera_models.py
index 4bedf10..17f7e16 100644
--- a/src/oplab/camera_models.py
+++ b/src/oplab/camera_models.py
@@ -183,14 +183,14 @@ class MonoCamera:
         px = p[0]
         py = p[1]
         ztemp = np.array([0, 0, 0], dtype="float32")
-        p_unif = np.array([[[(px - cx) / fx, (py - cy) / fy, 1]]], dtype=np.float)
+        p_unif = np.array([[[(px - cx) / fx, (py - cy) / fy, 1]]], dtype=float)
         out_p = []
         out_p = cv2.projectPoints(p_unif, ztemp, ztemp, self.K, self.d)[0][0][0]
         return self.return_valid(out_p)
 
     def undistort_point(self, p):
         # Undistorts points
-        p = np.array([p], dtype=np.float).reshape(1, 2)
+        p = np.array([p], dtype=float).reshape(1, 2)
         # If matrix P is identity or omitted, dst will contain
         # normalized point coordinates
         dst = cv2.undistortPoints(p, self.K, self.d)[0][0]
@@ -212,18 +212,14 @@ class MonoCamera:
         return self.return_valid(p)
 
     def undistort_and_rectify_point(self, p):
-        p_und = self.undistort_point(p)
-        if p_und is None:
-            return None
-        p_unif = np.array([p_und[0], p_und[1], 1], dtype=np.float).reshape(3, 1)
-        p_und_rec = self.R @ p_unif
-        p_und_rec = p_und_rec[0:2, 0]
+        p = np.array([p], dtype=float).reshape(1, 2)
+        p_und_rec = cv2.undistortPoints(p, self.K, self.d, R=self.R, P=self.P)[0][0]
         return self.return_valid(p_und_rec)
 
     def unrectify_and_distort_point(self, p):
-        p_unif = np.array([p[0], p[1], 1], dtype=np.float).reshape(3, 1)
-        p_unrec = self.R.T @ p_unif
-        return self.distort_point(p_unrec[0:2])
+        p_unif = np.array([p[0], p[1], 1], dtype=float).reshape(3, 1)
+        p_unrec = self.K @ self.R.T @ np.linalg.inv(self.P[:, :3]) @ p_unif
+        return self.distort_point(p_unrec[0:2, 0] / p_unrec[2, 0])
 
 
 class StereoCamera:
@@ -314,13 +310,15 @@ class StereoCamera:
     def triangulate_point_undistorted(self, left_uv, right_uv):
         p1 = self.left.undistort_and_rectify_point(left_uv)
         p2 = self.right.undistort_and_rectify_point(right_uv)
+        if p1 is None or p2 is None:
+            return None
         return self.triangulate_point(p1, p2)
 
     def project_point(self, point3d):
         """Projects a 3D point into the rectified frame
         point3d a list of three elements [x, y, z]
         """
-        X = np.ones((4, 1), dtype=np.float)
+        X = np.ones((4, 1), dtype=float)
         X[:3, 0] = point3d
         left_uv = self.left.P @ X
         left_uv /= left_uv[2]
@@ -338,7 +336,7 @@ class StereoCamera:
         point3d a list of three elements [x, y, z]
         """
         p1, p2 = self.project_point(point3d)
-        if p1 is None:
+        if p1 is None or p2 is None:
             return None, None
         p1d = self.left.unrectify_and_distort_point(p1)
         p2d = self.right.unrectify_and_distort_point(p2)
-- 
2.43.0


From b5bac4bc59c7c3826c92ac050ada0b30f33292fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:51 +0000
Subject: [PATCH 081/109] fix: projections of a downsized camera model are not
 scaled, stereo models are not downsized

---
 src/oplab/camera_models.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/oplab/camera_models.py b/src/oplab/camera_models.py
index 17f7e16..a6526f7 100644
--- a/src/oplab/camera_models.py
+++ b/src/oplab/camera_models.py
@@ -37,12 +37,6 @@ class MonoCamera:
             fs = cv2.FileStorage(str(filename), cv2.FILE_STORAGE_READ)
             self.from_node(fs)
 
-            if self.downsize_ratio is not None:
-                # Scale camera matrix and projection matrix
-                self.K *= self.downsize_ratio
-                self.P *= self.downsize_ratio
-                self.image_width = math.floor(self.image_width*self.downsize_ratio)
-                self.image_height = math.floor(self.image_height*self.downsize_ratio)
     @property
     def aspect_ratio(self):
         return float(self.image_width) / float(self.image_height)
@@ -77,6 +71,12 @@ class MonoCamera:
         self.d = fs.getNode("distortion_coefficients").mat()
         self.R = fs.getNode("rectification_matrix").mat()
         self.P = fs.getNode("projection_matrix").mat()
+        if self.downsize_ratio is not None:
+            # Scale pixels in camera matrix and projection matrix
+            self.K[:2] *= self.downsize_ratio
+            self.P[:2] *= self.downsize_ratio
+            self.image_width = math.floor(self.image_width * self.downsize_ratio)
+            self.image_height = math.floor(self.image_height * self.downsize_ratio)
 
     def to_str(
         self,
-- 
2.43.0


From d801394269a1c6f834f296804c6e4902484258d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:05 +0000
Subject: [PATCH 082/109] fix: camera models written to a file cannot be read
 again

---
 src/oplab/camera_models.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/oplab/camera_models.py b/src/oplab/camera_models.py
index a6526f7..5afab7f 100644
--- a/src/oplab/camera_models.py
+++ b/src/oplab/camera_models.py
@@ -126,12 +126,14 @@ class MonoCamera:
             + t
             + "  rows: 1\n"
             + t
-            + "  cols: 5\n"
+            + "  cols: "
+            + str(self.d.size)
+            + "\n"
             + t
             + "  dt: d\n"
             + t
             + "  data: ["
-            + ", ".join(["%8f" % self.d[i, 0] for i in range(self.d.shape[0])])
+            + ", ".join(["%8f" % i for i in self.d.ravel()])
             + "]\n"
             + t
             + "rectification_matrix: !!opencv-matrix\n"
@@ -266,28 +268,32 @@ class StereoCamera:
         msg += "right:\n"
         msg += self.right.to_str(write_metadata=False, write_header=False, nest=True)
         msg += (
-            "extrinsics:"
-            + "  rotation_matrix:\n"
+            "extrinsics:\n"
+            + "  rotation_matrix: !!opencv-matrix\n"
             + "    rows: 3\n"
             + "    cols: 3\n"
+            + "    dt: d\n"
             + "    data: ["
             + ", ".join(["%8f" % i for i in self.R.reshape(1, 9)[0]])
             + "]\n"
-            + "  translation_vector:\n"
-            + "    rows: 1\n"
-            + "    cols: 3\n"
+            + "  translation_vector: !!opencv-matrix\n"
+            + "    rows: 3\n"
+            + "    cols: 1\n"
+            + "    dt: d\n"
             + "    data: ["
-            + ", ".join(["%8f" % self.t[i, 0] for i in range(self.t.shape[0])])
+            + ", ".join(["%8f" % i for i in self.t.ravel()])
             + "]\n"
-            + "  fundamental_matrix:\n"
+            + "  fundamental_matrix: !!opencv-matrix\n"
             + "    rows: 3\n"
             + "    cols: 3\n"
+            + "    dt: d\n"
             + "    data: ["
-            + ", ".join(["%8f" % i for i in self.F.reshape(1, 9)[0]])
+            + ", ".join(["%.12e" % i for i in self.F.reshape(1, 9)[0]])
             + "]\n"
-            + "  essential_matrix:\n"
+            + "  essential_matrix: !!opencv-matrix\n"
             + "    rows: 3\n"
             + "    cols: 3\n"
+            + "    dt: d\n"
             + "    data: ["
             + ", ".join(["%8f" % i for i in self.E.reshape(1, 9)[0]])
             + "]\n"
-- 
2.43.0


From 451a4588fb2c262d6c450bf0383fe189dc345aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:23 +0000
Subject: [PATCH 083/109] fix: fundamental matrix is written as zeros

---
 src/auv_cal/camera_calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_cal/camera_calibrator.py b/src/auv_cal/camera_calibrator.py
index ed209ed..5f5dfc1 100644
--- a/src/auv_cal/camera_calibrator.py
+++ b/src/auv_cal/camera_calibrator.py
@@ -1533,7 +1533,7 @@ class StereoCalibrator(Calibrator):
             "    cols: 3\n"
             "    dt: d\n"
             "    data: ["
-            + ", ".join(["%8f" % i for i in self.F.reshape(1, 9)[0]])
+            + ", ".join(["%.12e" % i for i in self.F.reshape(1, 9)[0]])
             + "]\n"  # troublemaker
             "  essential_matrix: !!opencv-matrix\n"
             "    rows: 3\n"
-- 
2.43.0


From 48206ba104dfca72f67907f67f9fc4ef62360336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:23 +0000
Subject: [PATCH 084/109] fix: stereo calibration judges image pairs by the
 errors of other pairs

---
 src/auv_cal/camera_calibrator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/auv_cal/camera_calibrator.py b/src/auv_cal/camera_calibrator.py
index 5f5dfc1..012f00d 100644
--- a/src/auv_cal/camera_calibrator.py
+++ b/src/auv_cal/camera_calibrator.py
@@ -1314,11 +1314,11 @@ class StereoCalibrator(Calibrator):
         if iteration < self.max_iterations - 1 and self.avg_reprojection_error > 0.6:
             epi_error_mean = np.mean(np.array(epipolar_error))
             epi_error_std = np.std(np.array(epipolar_error))
-            self.good_corners = [
-                c
-                for c, e in zip(self.good_corners, epipolar_error)
-                if e < epi_error_mean + 2 * epi_error_std
+            inliers = [
+                e < epi_error_mean + 2 * epi_error_std for e in epipolar_error
             ]
+            self.good_corners = [c for c, i in zip(self.good_corners, inliers) if i]
+            self.db = [s for s, i in zip(self.db, inliers) if i]
             Console.info(
                 "Using "
                 + str(len(self.good_corners))
-- 
2.43.0


From 67e08d5c5686e3bfc206ae99e7688103f704246a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:23 +0000
Subject: [PATCH 085/109] fix: rectification in the stereo calibration belongs
 to a calibration that was not chosen

---
 src/auv_cal/camera_calibrator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/auv_cal/camera_calibrator.py b/src/auv_cal/camera_calibrator.py
index 012f00d..7454a2d 100644
--- a/src/auv_cal/camera_calibrator.py
+++ b/src/auv_cal/camera_calibrator.py
@@ -1341,6 +1341,7 @@ class StereoCalibrator(Calibrator):
             self.T = self.calibrations[best_idx]["T"]
             self.E = self.calibrations[best_idx]["E"]
             self.F = self.calibrations[best_idx]["F"]
+            self.set_alpha(1.0)
             self.num_images = self.calibrations[best_idx]["num_images"]
             self.avg_reprojection_error = self.calibrations[best_idx][
                 "avg_reprojection_error"
-- 
2.43.0


From 83f70513cb10acd10096092fa23d402a3e39d7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:23 +0000
Subject: [PATCH 086/109] fix: processed images of the third camera are not
 found in stereo calibration

---
 src/auv_cal/calibration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/auv_cal/calibration.py b/src/auv_cal/calibration.py
index d1b04c2..33de1fd 100644
--- a/src/auv_cal/calibration.py
+++ b/src/auv_cal/calibration.py
@@ -481,7 +481,8 @@ class Calibrator:
             left_extension = str(c0["camera_calibration"]["glob_pattern"])
             right_name = c2["name"]
             right_filepaths = build_filepath(
-                self.filepath, c2["camera_calibration"]["path"]
+                get_processed_folder(self.filepath),
+                c2["camera_calibration"]["path"],
             )
             right_extension = str(c2["camera_calibration"]["glob_pattern"])
             left_calibration_file = self.output_path / str(
-- 
2.43.0


From 5d87846ac74a88d125c31799aae49e12a961c840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:23 +0000
Subject: [PATCH 087/109] fix: detections in resized images are not renewed
 when all calibrations are overwritten

---
 src/auv_cal/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_cal/calibration.py b/src/auv_cal/calibration.py
index 33de1fd..b6c3288 100644
--- a/src/auv_cal/calibration.py
+++ b/src/auv_cal/calibration.py
@@ -155,7 +155,7 @@ def calibrate_stereo(
             Console.info("  Camera:", left_name, "is", model.left.size)
             Console.info("  Camera:", right_name, "is", model.right.size)
             right_calib = right_calib.parent / ("resized_" + right_calib.name)
-            if not right_calib.with_suffix(".json").exists():
+            if foa or not right_calib.with_suffix(".json").exists():
                 calibrate_mono(
                     right_name,
                     right_filepaths,
-- 
2.43.0


From e0309c19498b99340d7f420114bf8e6f7abd8e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:47 +0000
Subject: [PATCH 088/109] fix: interpolate HyBIS images between the records
 around their time

---
 src/auv_nav/parsers/hybis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/parsers/hybis.py b/src/auv_nav/parsers/hybis.py
index 11d769f..9fb73d5 100644
--- a/src/auv_nav/parsers/hybis.py
+++ b/src/auv_nav/parsers/hybis.py
@@ -167,7 +167,7 @@ class HybisParser:
             i = 0
             while (
                 i < len(hybis_vec) - 2
-                and hybis_vec[i].epoch_timestamp < modification_time
+                and hybis_vec[i + 1].epoch_timestamp < modification_time
             ):
                 i += 1
 
-- 
2.43.0


From e9f88a71624333711937ad3040b80011ca95e30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:47 +0000
Subject: [PATCH 089/109] fix: interpolate the HyBIS heading the short way
 around

---
 src/auv_nav/parsers/hybis.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/auv_nav/parsers/hybis.py b/src/auv_nav/parsers/hybis.py
index 9fb73d5..c445697 100644
--- a/src/auv_nav/parsers/hybis.py
+++ b/src/auv_nav/parsers/hybis.py
@@ -211,8 +211,11 @@ class HybisParser:
                 hybis_vec[i].epoch_timestamp,
                 hybis_vec[i + 1].epoch_timestamp,
                 hybis_vec[i].heading,
-                hybis_vec[i + 1].heading,
+                hybis_vec[i].heading
+                + (hybis_vec[i + 1].heading - hybis_vec[i].heading + 180) % 360
+                - 180,
             )
+            heading = heading % 360
             altitude = interpolate(
                 modification_time,
                 hybis_vec[i].epoch_timestamp,
-- 
2.43.0


From 778e8aa608696f6125a6c320778d1d68b91e698c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:47 +0000
Subject: [PATCH 090/109] fix: interpolate the Koyo20 ROV heading the short way
 around

---
 src/auv_nav/parsers/koyo20rov.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/auv_nav/parsers/koyo20rov.py b/src/auv_nav/parsers/koyo20rov.py
index 9388042..51c4816 100644
--- a/src/auv_nav/parsers/koyo20rov.py
+++ b/src/auv_nav/parsers/koyo20rov.py
@@ -794,8 +794,12 @@ class RovParser:
                 self.vector_rot[i - 1].epoch_timestamp,
                 self.vector_rot[i].epoch_timestamp,
                 self.vector_rot[i - 1].heading,
-                self.vector_rot[i].heading,
+                self.vector_rot[i - 1].heading
+                + (self.vector_rot[i].heading - self.vector_rot[i - 1].heading + 180)
+                % 360
+                - 180,
             )
+            image_object.heading = image_object.heading % 360
             image_object.pitch = interpolate(
                 image_epoch,
                 self.vector_rot[i - 1].epoch_timestamp,
-- 
2.43.0


From 889643532ea0c4028ff619a350d4ac00e946e335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:47 +0000
Subject: [PATCH 091/109] fix: keep the first position record of a Koyo20 ROV
 ship log

---
 src/auv_nav/parsers/koyo20rov.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/auv_nav/parsers/koyo20rov.py b/src/auv_nav/parsers/koyo20rov.py
index 51c4816..1ad73d1 100644
--- a/src/auv_nav/parsers/koyo20rov.py
+++ b/src/auv_nav/parsers/koyo20rov.py
@@ -394,14 +394,7 @@ class RovParser:
             lat = list(dataframe_pos[31])
             lon = list(dataframe_pos[32])
             vector_pos = []
-            current_epoch = RovPos(
-                depth[0],
-                altitude[0],
-                lon[0],
-                lat[0],
-                date[0],
-                timestr[0],
-            ).epoch_timestamp
+            current_epoch = -np.inf
             for i, this_date in enumerate(date):
                 if not isinstance(this_date, str):
                     continue
-- 
2.43.0


From 767978774066445f1d9c7aae6a4b2391590f5ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:47 +0000
Subject: [PATCH 092/109] fix: only leave out the Koyo20 ROV ship logs that end
 in FIX

---
 src/auv_nav/parsers/koyo20rov.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/auv_nav/parsers/koyo20rov.py b/src/auv_nav/parsers/koyo20rov.py
index 1ad73d1..cb59320 100644
--- a/src/auv_nav/parsers/koyo20rov.py
+++ b/src/auv_nav/parsers/koyo20rov.py
@@ -318,7 +318,8 @@ class RovParser:
         # FIX. Save to a list of their PosixPath filepath objects.
         self.list_filepath_pos = [
             filepath
-            for filepath in (raw_dive_path / "nav/ship_log/").glob("*[!FIX].csv")
+            for filepath in (raw_dive_path / "nav/ship_log/").glob("*.csv")
+            if not filepath.stem.endswith("FIX")
         ]
         Console.info(
             "Found",
-- 
2.43.0


From 03361329376a0b79fcc6bd4df43b3f8044da5881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:09 +0000
Subject: [PATCH 093/109] fix: keep the uncertainty of a USBL longitude small
 next to the 180 degree meridian

---
 src/auv_nav/parsers/parse_gaps.py          | 5 ++++-
 src/auv_nav/parsers/parse_sonardyne_mrt.py | 3 ++-
 src/auv_nav/parsers/parse_usbl_dump.py     | 5 ++++-
 src/auv_nav/sensors.py                     | 5 ++++-
 4 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/auv_nav/parsers/parse_gaps.py b/src/auv_nav/parsers/parse_gaps.py
index 055beb0..35e5c06 100644
--- a/src/auv_nav/parsers/parse_gaps.py
+++ b/src/auv_nav/parsers/parse_gaps.py
@@ -345,7 +345,10 @@ def parse_gaps(mission, vehicle, category, ftype, outpath):
                     )
 
                     latitude_std = abs(abs(latitude) - latitude_offset)
-                    longitude_std = abs(abs(longitude) - longitude_offset)
+                    # the offset may lie across the 180 degree meridian
+                    longitude_std = abs(
+                        (abs(longitude) - longitude_offset + 180) % 360 - 180
+                    )
 
                     # calculate in metres from reference
                     lateral_distance_ship, bearing_ship = latlon_to_metres(
diff --git a/src/auv_nav/parsers/parse_sonardyne_mrt.py b/src/auv_nav/parsers/parse_sonardyne_mrt.py
index fc0d9e0..9637781 100644
--- a/src/auv_nav/parsers/parse_sonardyne_mrt.py
+++ b/src/auv_nav/parsers/parse_sonardyne_mrt.py
@@ -697,7 +697,8 @@ def parse_sonardyne_mrt(mission, vehicle, category, ftype, outpath):
         )
 
         latitude_std = abs(abs(latitude) - latitude_offset)
-        longitude_std = abs(abs(longitude) - longitude_offset)
+        # the offset may lie across the 180 degree meridian
+        longitude_std = abs((abs(longitude) - longitude_offset + 180) % 360 - 180)
 
         data = {
             "epoch_timestamp": auv_obs.epoch_timestamp + timeoffset_s,
diff --git a/src/auv_nav/parsers/parse_usbl_dump.py b/src/auv_nav/parsers/parse_usbl_dump.py
index d3de3f7..b4df8dd 100644
--- a/src/auv_nav/parsers/parse_usbl_dump.py
+++ b/src/auv_nav/parsers/parse_usbl_dump.py
@@ -119,7 +119,10 @@ def parse_usbl_dump(mission, vehicle, category, ftype, outpath):
                     )
 
                     latitude_std = abs(latitude - latitude_offset)
-                    longitude_std = abs(longitude - longitude_offset)
+                    # the offset may lie across the 180 degree meridian
+                    longitude_std = abs(
+                        (longitude - longitude_offset + 180) % 360 - 180
+                    )
 
                     # calculate in metres from reference
                     eastings_ship = 0
diff --git a/src/auv_nav/sensors.py b/src/auv_nav/sensors.py
index f34c4cb..03b5785 100644
--- a/src/auv_nav/sensors.py
+++ b/src/auv_nav/sensors.py
@@ -1411,7 +1411,10 @@ class Usbl(OutputFormat):
                 distance_std,
             )
             self.latitude_std = abs(abs(self.latitude) - latitude_offset)
-            self.longitude_std = abs(abs(self.longitude) - longitude_offset)
+            # the offset may lie across the 180 degree meridian
+            self.longitude_std = abs(
+                (abs(self.longitude) - longitude_offset + 180) % 360 - 180
+            )
         else:
             Console.error("The STD model you entered for USBL is not supported.")
             Console.quit("STD model not supported.")
-- 
2.43.0


From b21dfe1a070cea64ab2be390d754cb73402a12ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:10 +0000
Subject: [PATCH 094/109] fix: move the ship of a GAPS log the shorter way
 across the 180 degree meridian

---
 src/auv_nav/parsers/parse_gaps.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/auv_nav/parsers/parse_gaps.py b/src/auv_nav/parsers/parse_gaps.py
index 35e5c06..b7728d1 100644
--- a/src/auv_nav/parsers/parse_gaps.py
+++ b/src/auv_nav/parsers/parse_gaps.py
@@ -307,10 +307,13 @@ def parse_gaps(mission, vehicle, category, ftype, outpath):
                     inter_time = (epoch_timestamp - epoch_timestamp_ship_prior) / (
                         epoch_timestamp_ship_posterior - epoch_timestamp_ship_prior
                     )
+                    # move the shorter way, also across the 180 degree meridian
+                    longitude_ship_change = (
+                        longitude_posterior - longitude_prior + 180
+                    ) % 360 - 180
                     longitude_ship = (
-                        inter_time * (longitude_posterior - longitude_prior)
-                        + longitude_prior
-                    )
+                        inter_time * longitude_ship_change + longitude_prior + 180
+                    ) % 360 - 180
                     latitude_ship = (
                         inter_time * (latitude_posterior - latitude_prior)
                         + latitude_prior
-- 
2.43.0


From 794471967aed35b7b27cef45d9f38285f6037047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:46 +0000
Subject: [PATCH 095/109] fix: write auv_usbl.csv also for a single position
 fix

---
 src/auv_nav/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index fca4d52..a628456 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -1721,7 +1721,7 @@ def process(
     if csv_output_activate:
         Console.info("Writing csv outputs to {}".format(csvpath))
         if csv_usbl:
-            if len(usbl_list) > 1:
+            if len(usbl_list) > 0:
                 csvpath.mkdir(parents=True, exist_ok=True)
                 auv_usbl_file = csvpath / "auv_usbl.csv"
                 with auv_usbl_file.open("w") as fileout:
-- 
2.43.0


From e70f8d438b7e981f31225191927e391fb778784f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:46 +0000
Subject: [PATCH 096/109] fix: use the sensor uncertainties if auv_nav.yaml
 leaves out a sensor's std section

---
 src/auv_nav/process.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index a628456..73a9cea 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -219,11 +219,11 @@ def process(
             ]
         if "std" in load_localisation:
             sensors_std = load_localisation["std"]
-            if "position_xy" not in sensors_std:
+            if "position_xy" not in sensors_std and "usbl" in sensors_std:
                 sensors_std["position_xy"] = sensors_std["usbl"]
-            if "position_z" not in sensors_std:
+            if "position_z" not in sensors_std and "depth" in sensors_std:
                 sensors_std["position_z"] = sensors_std["depth"]
-            if "speed" not in sensors_std:
+            if "speed" not in sensors_std and "dvl" in sensors_std:
                 sensors_std["speed"] = sensors_std["dvl"]
         else:
             sensors_std = {}
-- 
2.43.0


From e016b405d5a92759d72e0f7c313beeef700f821e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:46 +0000
Subject: [PATCH 097/109] fix: EKF needs the linear speed model only for
 velocities without uncertainty

---
 src/auv_nav/localisation/ekf.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/auv_nav/localisation/ekf.py b/src/auv_nav/localisation/ekf.py
index 45cc519..0396a99 100644
--- a/src/auv_nav/localisation/ekf.py
+++ b/src/auv_nav/localisation/ekf.py
@@ -242,21 +242,6 @@ class Measurement(object):
         # Vinnay's dvl_noise model:
         # velocity_std = (-0.0125*((velocity)**2)+0.2*(velocity)+0.2125)/100)
         # assuming noise of x_velocity = y_velocity = z_velocity
-        if "factor_x" in self.sensors_std["speed"]:
-            velocity_std_factor_x = self.sensors_std["speed"]["factor_x"]
-            velocity_std_offset_x = self.sensors_std["speed"]["offset_x"]
-            velocity_std_factor_y = self.sensors_std["speed"]["factor_y"]
-            velocity_std_offset_y = self.sensors_std["speed"]["offset_y"]
-            velocity_std_factor_z = self.sensors_std["speed"]["factor_z"]
-            velocity_std_offset_z = self.sensors_std["speed"]["offset_z"]
-        else:
-            velocity_std_factor_x = self.sensors_std["speed"]["factor"]
-            velocity_std_offset_x = self.sensors_std["speed"]["offset"]
-            velocity_std_factor_y = self.sensors_std["speed"]["factor"]
-            velocity_std_offset_y = self.sensors_std["speed"]["offset"]
-            velocity_std_factor_z = self.sensors_std["speed"]["factor"]
-            velocity_std_offset_z = self.sensors_std["speed"]["offset"]
-
         self.time = value.epoch_timestamp
         self.measurement[Index.VX] = value.x_velocity
         self.measurement[Index.VY] = value.y_velocity
@@ -267,6 +252,20 @@ class Measurement(object):
             self.covariance[Index.VY, Index.VY] = value.y_velocity_std**2
             self.covariance[Index.VZ, Index.VZ] = value.z_velocity_std**2
         else:
+            if "factor_x" in self.sensors_std["speed"]:
+                velocity_std_factor_x = self.sensors_std["speed"]["factor_x"]
+                velocity_std_offset_x = self.sensors_std["speed"]["offset_x"]
+                velocity_std_factor_y = self.sensors_std["speed"]["factor_y"]
+                velocity_std_offset_y = self.sensors_std["speed"]["offset_y"]
+                velocity_std_factor_z = self.sensors_std["speed"]["factor_z"]
+                velocity_std_offset_z = self.sensors_std["speed"]["offset_z"]
+            else:
+                velocity_std_factor_x = self.sensors_std["speed"]["factor"]
+                velocity_std_offset_x = self.sensors_std["speed"]["offset"]
+                velocity_std_factor_y = self.sensors_std["speed"]["factor"]
+                velocity_std_offset_y = self.sensors_std["speed"]["offset"]
+                velocity_std_factor_z = self.sensors_std["speed"]["factor"]
+                velocity_std_offset_z = self.sensors_std["speed"]["offset"]
             self.covariance[Index.VX, Index.VX] = (
                 abs(value.x_velocity) * velocity_std_factor_x + velocity_std_offset_x
             ) ** 2
-- 
2.43.0


From 69450576f3eb7f4d90db0f46c35156b4bb878d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:46 +0000
Subject: [PATCH 098/109] fix: treat sections left out of auv_nav.yaml as
 switched off

---
 src/auv_nav/process.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index 73a9cea..be12a3c 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -189,7 +189,9 @@ def process(
             localisation_file.parent.mkdir(parents=True)
         default_localisation.copy(localisation_file)
 
-    # Default to no EKF and PF and SPP
+    # Default to no EKF, PF, SPP, USBL filter and plots
+    usbl_filter_activate = False
+    plot_output_activate = False
     particle_filter_activate = False
     ekf_activate = False
     activate_smoother = True  # Apply smoothing. Only has appliles of ekf is enabled
-- 
2.43.0


From ba79cd7dea7290a52d1b1abf7065868cf13703a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:46 +0000
Subject: [PATCH 099/109] fix: SLAM++ output with a single camera

---
 src/auv_nav/process.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index be12a3c..60a0f15 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -2074,17 +2074,18 @@ def process(
         )
         t.start()
         threads.append(t)
-        t = threading.Thread(
-            target=spp_csv,
-            args=[
-                camera2_ekf_list,
-                "auv_ekf_" + mission.image.cameras[1].name,
-                ekfcsvpath,
-                spp_ekf_camera_2,
-            ],
-        )
-        t.start()
-        threads.append(t)
+        if len(mission.image.cameras) > 1:
+            t = threading.Thread(
+                target=spp_csv,
+                args=[
+                    camera2_ekf_list,
+                    "auv_ekf_" + mission.image.cameras[1].name,
+                    ekfcsvpath,
+                    spp_ekf_camera_2,
+                ],
+            )
+            t.start()
+            threads.append(t)
         if len(camera3_ekf_list) > 1:
             if len(mission.image.cameras) > 2:
                 t = threading.Thread(
-- 
2.43.0


From e3a05b625b3f9f2108e905f78bde866f3fcbbf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:55 +0000
Subject: [PATCH 100/109] fix: plots need neither the USBL filter nor a
 particle filter section

---
 src/auv_nav/process.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index 60a0f15..bc341d8 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -193,6 +193,7 @@ def process(
     usbl_filter_activate = False
     plot_output_activate = False
     particle_filter_activate = False
+    particles_time_interval = None  # Only has effect if the PF is enabled
     ekf_activate = False
     activate_smoother = True  # Apply smoothing. Only has appliles of ekf is enabled
     mahalanobis_distance_threshold = 3.0
@@ -752,6 +753,7 @@ def process(
         )
 
     # perform usbl_filter
+    usbl_list_no_dist_filter = usbl_list
     if usbl_filter_activate:
         usbl_list_no_dist_filter, usbl_list = usbl_filter(
             usbl_list, depth_list, sigma_factor, max_auv_speed,
-- 
2.43.0


From 812b44eb4d732535aa9f154aacf76c6cecb51e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:27 +0000
Subject: [PATCH 101/109] fix: Autosub velocity uncertainty is the magnitude of
 the error velocity

---
 src/auv_nav/sensors.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/auv_nav/sensors.py b/src/auv_nav/sensors.py
index 03b5785..930e459 100644
--- a/src/auv_nav/sensors.py
+++ b/src/auv_nav/sensors.py
@@ -196,9 +196,9 @@ class BodyVelocity(OutputFormat):
         self.x_velocity = -data["Vnorth0"][i] * 0.001  # Relative to seabed
         self.y_velocity = -data["Veast0"][i] * 0.001
         self.z_velocity = -data["Vdown0"][i] * 0.001
-        self.x_velocity_std = data["Verr0"][i] * 0.001
-        self.y_velocity_std = data["Verr0"][i] * 0.001
-        self.z_velocity_std = data["Verr0"][i] * 0.001
+        self.x_velocity_std = abs(data["Verr0"][i]) * 0.001
+        self.y_velocity_std = abs(data["Verr0"][i]) * 0.001
+        self.z_velocity_std = abs(data["Verr0"][i]) * 0.001
 
     def from_koyo21rov(self, t, surge, heave):
         self.sensor_string = "koyo21rov"
-- 
2.43.0


From 83a121a9388cec908cedafb5cc6261374aeb3981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:48 +0000
Subject: [PATCH 102/109] fix: raw image paths in filelist.csv of manual
 balance are relative

---
 src/correct_images/corrector.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/correct_images/corrector.py b/src/correct_images/corrector.py
index a40ed5f..db8d85c 100644
--- a/src/correct_images/corrector.py
+++ b/src/correct_images/corrector.py
@@ -1289,7 +1289,8 @@ class Corrector:
         # Merge the two dataframes when image filenames are the same
         output_df = orig_dataframe.copy()
         for index, row in output_df.iterrows():
-            current_image_name = Path(row["relative_path"]).stem
+            original_path = Path(row["relative_path"])  # row may be a view
+            current_image_name = original_path.stem
             # find current_image_name in dataframe
             res = dataframe.loc[dataframe["image_names"] == current_image_name]
             if not res.empty:
@@ -1298,11 +1299,11 @@ class Corrector:
                     res["relative_path"].values[0]
                 ).name
                 # Check if path is absolute:
-                if Path(row["relative_path"]).is_absolute():
+                if original_path.is_absolute():
                     # update raw_relative_path to relative
-                    output_df.at[index, "raw_relative_path"] = Path(
-                        row["relative_path"]
-                    ).relative_to(self.path_raw)
+                    output_df.at[index, "raw_relative_path"] = (
+                        original_path.relative_to(self.path_raw)
+                    )
             else:
                 # remove row
                 output_df.drop(index, inplace=True)
-- 
2.43.0


From 0269b5fe7d4a5748d7b96cd79171ffd7e8a97a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:48 +0000
Subject: [PATCH 103/109] fix: use the images of all folders that match the
 path of a camera

---
 src/oplab/camera_system.py | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/src/oplab/camera_system.py b/src/oplab/camera_system.py
index 28f9941..bc02ca2 100644
--- a/src/oplab/camera_system.py
+++ b/src/oplab/camera_system.py
@@ -162,28 +162,21 @@ class CameraEntry:
         split_glob = str(self.path).split("*")
         img_dir = ""
         if len(split_glob) == 2:
-            pre_glob = split_glob[0] + "*"
-            glob_vec = raw_dir.glob(pre_glob)
-            img_dirs = [k for k in glob_vec]
-            img_dir = Path(str(img_dirs[0]) + "/" + str(split_glob[1]))
-            for i in img_dir.rglob("*." + self.extension):
-                self._image_list.append(str(i))
+            # several folders can match, e.g. if the camera was restarted
+            for folder in raw_dir.glob(split_glob[0] + "*"):
+                img_dir = Path(str(folder) + "/" + str(split_glob[1]))
+                for i in img_dir.rglob("*." + self.extension):
+                    self._image_list.append(str(i))
         elif len(split_glob) == 3:
-            pre_glob = split_glob[0] + "*"
-            glob_vec = raw_dir.glob(pre_glob)
-            img_dirs = [k for k in glob_vec]
-            img_dir = Path(str(img_dirs[0]))
-            for i in img_dir.glob("*" + split_glob[2] + "." + self.extension):
-                self._image_list.append(str(i))
+            for img_dir in raw_dir.glob(split_glob[0] + "*"):
+                for i in img_dir.glob("*" + split_glob[2] + "." + self.extension):
+                    self._image_list.append(str(i))
         elif len(split_glob) == 4:  # path/i*/*LC*
             # split = ['path/i', '/', 'LC]
-            pre_glob = split_glob[0] + "*"
-            glob_vec = raw_dir.glob(pre_glob)
-            img_dirs = [k for k in glob_vec]
-            img_dir = Path(str(img_dirs[0]))
             Console.info("Looking for images with the pattern *", split_glob[2], "*")
-            for i in img_dir.glob("*" + split_glob[2] + "*." + self.extension):
-                self._image_list.append(str(i))
+            for img_dir in raw_dir.glob(split_glob[0] + "*"):
+                for i in img_dir.glob("*" + split_glob[2] + "*." + self.extension):
+                    self._image_list.append(str(i))
         elif len(split_glob) == 1:
             img_dir = raw_dir / self.path
             for i in img_dir.glob("*." + self.extension):
-- 
2.43.0


From b4294d5a7305465af7b0d17be120d908430fa4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:54 +0000
Subject: [PATCH 104/109] fix: do not repeat the record before a JobData line
 of a Sonardyne log

---
 src/auv_nav/parsers/parse_sonardyne_mrt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/parsers/parse_sonardyne_mrt.py b/src/auv_nav/parsers/parse_sonardyne_mrt.py
index 9637781..ac0922d 100644
--- a/src/auv_nav/parsers/parse_sonardyne_mrt.py
+++ b/src/auv_nav/parsers/parse_sonardyne_mrt.py
@@ -546,7 +546,7 @@ def parse_mrt_csv(filename):
                 obs = AlarmStateChange(*values[1:])
             elif values[0] == "JobData":
                 # Ignore this
-                pass
+                continue
             else:
                 print(f"Unknown observation type: {values[0]}")
                 continue
-- 
2.43.0


From d47f349c21ae684ee2c4ab78b671c0b4a7e5565a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:39 +0000
Subject: [PATCH 105/109] fix: latitude and longitude of the particle filter's
 DVL trajectory

---
 src/auv_nav/process.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index bc341d8..884cfe0 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -1200,8 +1200,10 @@ def process(
         )
         pf_fusion_centre_list = copy.deepcopy(pf_fusion_dvl_list)
         for i in range(len(pf_fusion_centre_list)):
-            pf_fusion_dvl_list[i].latitude,
-            pf_fusion_dvl_list[i].longitude = metres_to_latlon(
+            (
+                pf_fusion_dvl_list[i].latitude,
+                pf_fusion_dvl_list[i].longitude,
+            ) = metres_to_latlon(
                 mission.origin.latitude,
                 mission.origin.longitude,
                 pf_fusion_dvl_list[i].eastings,
-- 
2.43.0


From f3534b4398a67e9d7eb089240d82a3c68f1741b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:39 +0000
Subject: [PATCH 106/109] fix: particle filter poses carried attitude and
 velocity of the next epoch

The state in the trajectory was altered in place by the next propagation.
---
 src/auv_nav/localisation/pf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/localisation/pf.py b/src/auv_nav/localisation/pf.py
index 1e84b2b..f6ef4da 100644
--- a/src/auv_nav/localisation/pf.py
+++ b/src/auv_nav/localisation/pf.py
@@ -218,7 +218,7 @@ class DeadReckoningMovementModel:
         # Propagate the p.state forward
         p.state = f @ p.state
         p.time += dt
-        p.trajectory.append(p.state)
+        p.trajectory.append(p.state.copy())
         p.trajectory_time.append(p.time)
 
 
-- 
2.43.0


From 24ccd410c9610859a5234643686502b2df9034b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:39 +0000
Subject: [PATCH 107/109] fix: particles kept their weight after resampling

Every fix before the resampling counted again.
---
 src/auv_nav/localisation/pf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/auv_nav/localisation/pf.py b/src/auv_nav/localisation/pf.py
index f6ef4da..9a859aa 100644
--- a/src/auv_nav/localisation/pf.py
+++ b/src/auv_nav/localisation/pf.py
@@ -317,6 +317,7 @@ class ParticleFilter:
                 cumulative_weight += self.particles[source_index].weight
             # copy particle (via assignment operator)
             new_particles[dest_index] = copy.deepcopy(self.particles[source_index])
+            new_particles[dest_index].weight = inverse_num
         # Update the particle list
         self.particles = new_particles
 
-- 
2.43.0


From abe9585f6679f84ecd37ff1812c258db30470b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:39 +0000
Subject: [PATCH 108/109] fix: particle filter used the attitude noise offset
 in degrees as radians

---
 src/auv_nav/localisation/pf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/auv_nav/localisation/pf.py b/src/auv_nav/localisation/pf.py
index 9a859aa..4d2478c 100644
--- a/src/auv_nav/localisation/pf.py
+++ b/src/auv_nav/localisation/pf.py
@@ -164,7 +164,9 @@ class DeadReckoningMovementModel:
             velocity_std_offset_y = self.sensors_std["speed"]["offset"]
             velocity_std_factor_z = self.sensors_std["speed"]["factor"]
             velocity_std_offset_z = self.sensors_std["speed"]["offset"]
-        imu_noise_std_offset = self.sensors_std["orientation"]["offset"]
+        imu_noise_std_offset = (
+            self.sensors_std["orientation"]["offset"] * math.pi / 180.0
+        )
         imu_noise_std_factor = self.sensors_std["orientation"]["factor"]
 
         k_dvl = self.dvl_noise_sigma_factor
-- 
2.43.0


From 3e14e202291ccedb3e3c704eadff862a901c3420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:39 +0000
Subject: [PATCH 109/109] fix: particle filter skipped fixes after the first
 dead reckoning epoch

With fixes before dead reckoning starts, the first one after it was lost.
---
 src/auv_nav/localisation/pf.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/auv_nav/localisation/pf.py b/src/auv_nav/localisation/pf.py
index 4d2478c..966fb53 100644
--- a/src/auv_nav/localisation/pf.py
+++ b/src/auv_nav/localisation/pf.py
@@ -386,18 +386,12 @@ def get_prior(dr_list, usbl_list):
     eastings_mean = np.mean(eastings_error)
     northings_mean = np.mean(northings_error)
 
-    dr_index = 0
+    # Skip the USBL fixes taken before DR starts
     usbl_index = 0
-    usbl_t = usbl_list[usbl_index].epoch_timestamp
-    dr_t = dr_list[usbl_index].epoch_timestamp
-
-    while dr_index < len(dr_list) and usbl_t > dr_t:
-        usbl_t = usbl_list[usbl_index].epoch_timestamp
-        dr_t = dr_list[usbl_index].epoch_timestamp
-        dr_index += 1
-    while usbl_index < len(usbl_list) and usbl_t < dr_t:
-        usbl_t = usbl_list[usbl_index].epoch_timestamp
-        dr_t = dr_list[usbl_index].epoch_timestamp
+    while (
+        usbl_index < len(usbl_list)
+        and usbl_list[usbl_index].epoch_timestamp < dr_list[0].epoch_timestamp
+    ):
         usbl_index += 1
 
     # Fix DR to index zero
-- 
2.43.0

