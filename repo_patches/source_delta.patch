From 5cf8eddec67067aabd64e6ec6c71f7f6673c48d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:07 +0000
Subject: [PATCH 001/125] fix: inertial_to_body is the inverse of
 body_to_inertial

---
 src/auv_nav/tools/inertial_to_body.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/tools/inertial_to_body.py b/src/auv_nav/tools/inertial_to_body.py
index a57bf22..5c9eb6b 100644
--- a/src/auv_nav/tools/inertial_to_body.py
+++ b/src/auv_nav/tools/inertial_to_body.py
@@ -45,7 +45,7 @@ def inertial_to_body(roll, pitch, yaw, old_x, old_y, old_z):
 
     # new_y = ((sy*cp)            * old_x   # d
     #       + ( cy*cr + sy*sp*sr) * old_y   # e
-    #       + (-cy*sr + sy*sp*sr) * old_z   # f
+    #       + (-cy*sr + sy*sp*cr) * old_z   # f
     # )
     # new_z = ((-sp  )           * old_x    # g
     #       + ( cp*sr)           * old_y    # h
@@ -67,7 +67,7 @@ def inertial_to_body(roll, pitch, yaw, old_x, old_y, old_z):
 
     new_z = (
         (sy * sr + cy * sp * cr) * old_x  # c
-        + (-cy * sr + sy * sp * sr) * old_y  # f
+        + (-cy * sr + sy * sp * cr) * old_y  # f
         + (cp * cr) * old_z  # i
     )
 
-- 
2.43.0


From c0b522d1b3caaf08b53d81f80b07969c153748c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:07 +0000
Subject: [PATCH 002/125] fix: interlace records by numeric timestamp, not by
 its text

---
 src/auv_nav/parsers/parse_interlacer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/parsers/parse_interlacer.py b/src/auv_nav/parsers/parse_interlacer.py
index b6e6b34..786245d 100644
--- a/src/auv_nav/parsers/parse_interlacer.py
+++ b/src/auv_nav/parsers/parse_interlacer.py
@@ -31,7 +31,7 @@ def parse_interlacer(outpath, filename):
         with filepath.open("r") as json_file:
             data = json.load(json_file)
             for i, data_packet in enumerate(data):
-                value.append(str(float(data_packet["epoch_timestamp"])))
+                value.append(float(data_packet["epoch_timestamp"]))
 
     except ValueError:
         Console.quit("Error: no data in JSON file")
-- 
2.43.0


From 75169d94e4040a83368ae4acf05ee9a514c8fc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:07 +0000
Subject: [PATCH 003/125] fix: interpolate sensors between the samples that
 bracket them

Sensors after the last dead reckoning sample that precedes the last sensor
were extrapolated, sensors past the end could be extrapolated without bound,
and all but one of the sensors in the last interval were deleted.
---
 src/auv_nav/tools/interpolate.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/auv_nav/tools/interpolate.py b/src/auv_nav/tools/interpolate.py
index e62e609..b9511f4 100644
--- a/src/auv_nav/tools/interpolate.py
+++ b/src/auv_nav/tools/interpolate.py
@@ -350,7 +350,7 @@ def interpolate_sensor_list(
                     del sensor_list[:i]
                 break
         for i in range(len(sensor_list)):
-            if j >= len(_centre_list) - 1:
+            if sensor_list[i].epoch_timestamp > end_time:
                 ii = len(sensor_list) - i
                 if ii > 0:
                     Console.warn(
@@ -370,12 +370,6 @@ def interpolate_sensor_list(
                 sensor_overlap_flag = 1
                 break
             while _centre_list[j].epoch_timestamp < sensor_list[i].epoch_timestamp:
-                if (
-                    j + 1 > len(_centre_list) - 1
-                    or _centre_list[j + 1].epoch_timestamp
-                    > sensor_list[-1].epoch_timestamp
-                ):
-                    break
                 j += 1
             # if j>=1: ?
 
-- 
2.43.0


From d1ae92a94860a2a7390e542dccd41b7cdc10b5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:07 +0000
Subject: [PATCH 004/125] fix: geographic position of an EKF camera is the
 camera's, not the vehicle's

---
 src/auv_nav/sensors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/sensors.py b/src/auv_nav/sensors.py
index ffdafb6..2b485bc 100644
--- a/src/auv_nav/sensors.py
+++ b/src/auv_nav/sensors.py
@@ -1898,8 +1898,8 @@ class Camera(SyncedOrientationBodyVelocity):
         [self.latitude, self.longitude] = metres_to_latlon(
             latitude_reference,
             longitude_reference,
-            other.eastings,
-            other.northings,
+            self.eastings,
+            self.northings,
         )
 
         self.updated = True
-- 
2.43.0


From df9fe75f34a3385ce6c76d35435eab42459d12f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:07 +0000
Subject: [PATCH 005/125] fix: particle filter DVL track has a latitude and a
 longitude

---
 src/auv_nav/process.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index 632374e..06d7067 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -1186,8 +1186,10 @@ def process(
         )
         pf_fusion_centre_list = copy.deepcopy(pf_fusion_dvl_list)
         for i in range(len(pf_fusion_centre_list)):
-            pf_fusion_dvl_list[i].latitude,
-            pf_fusion_dvl_list[i].longitude = metres_to_latlon(
+            (
+                pf_fusion_dvl_list[i].latitude,
+                pf_fusion_dvl_list[i].longitude,
+            ) = metres_to_latlon(
                 mission.origin.latitude,
                 mission.origin.longitude,
                 pf_fusion_dvl_list[i].eastings,
-- 
2.43.0


From 8727f19cf2561eb0967d929ade7c7afd2e5d22dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:07 +0000
Subject: [PATCH 006/125] fix: tide records read back under the names they are
 written with

---
 src/auv_nav/sensors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/sensors.py b/src/auv_nav/sensors.py
index 2b485bc..0be9d65 100644
--- a/src/auv_nav/sensors.py
+++ b/src/auv_nav/sensors.py
@@ -1546,10 +1546,10 @@ class Tide(OutputFormat):
     def from_json(self, json, sensor_std):
         self.epoch_timestamp = json["epoch_timestamp"]
         #        self.tide_timestamp = json['epoch_timestamp_tide']
-        self.height = json["data"][0]["tide"]
+        self.height = json["data"][0]["height"]
 
         if sensor_std["model"] == "sensor":
-            self.height_std = json["data"][0]["tide_std"]
+            self.height_std = json["data"][0]["height_std"]
         elif sensor_std["model"] == "linear":
             self.height_std = sensor_std["offset"] + sensor_std["factor"] * self.height
         else:
-- 
2.43.0


From 17b63ae09d656e794e3fad8483e63e68b62bd190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:57 +0000
Subject: [PATCH 007/125] fix: laser poses interpolated from the ACFR stereo
 poses use the bracketing pair

---
 src/auv_nav/tools/interpolate.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/auv_nav/tools/interpolate.py b/src/auv_nav/tools/interpolate.py
index b9511f4..6679f80 100644
--- a/src/auv_nav/tools/interpolate.py
+++ b/src/auv_nav/tools/interpolate.py
@@ -142,7 +142,7 @@ def interpolate_camera(query_timestamp, camera_list, filename):
             break
     c1 = camera_list[i]
     c2 = camera_list[i]
-    if i > 1:
+    if i > 0 and query_timestamp <= c2.epoch_timestamp:
         c1 = camera_list[i - 1]
 
     c = Camera()
@@ -197,8 +197,16 @@ def interpolate_camera(query_timestamp, camera_list, filename):
         c1.pitch,
         c2.pitch,
     )
-    c.yaw = interpolate(
-        query_timestamp, c1.epoch_timestamp, c2.epoch_timestamp, c1.yaw, c2.yaw
+    c2_yaw = c2.yaw
+    if c2_yaw - c1.yaw > 180:
+        c2_yaw -= 360
+    elif c2_yaw - c1.yaw < -180:
+        c2_yaw += 360
+    c.yaw = (
+        interpolate(
+            query_timestamp, c1.epoch_timestamp, c2.epoch_timestamp, c1.yaw, c2_yaw
+        )
+        % 360
     )
     c.x_velocity = interpolate(
         query_timestamp,
-- 
2.43.0


From 6a006afcc9b1763f7b42d3c884fed6a6a4944a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:29 +0000
Subject: [PATCH 008/125] fix: EKF altitude of the vehicle centre accounts for
 the DVL offset

---
 src/auv_nav/localisation/ekf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/auv_nav/localisation/ekf.py b/src/auv_nav/localisation/ekf.py
index 018464f..eb534b0 100644
--- a/src/auv_nav/localisation/ekf.py
+++ b/src/auv_nav/localisation/ekf.py
@@ -1117,6 +1117,8 @@ def save_ekf_to_list(
             dead_reckoning_dvl_list[dr_idx - 1].altitude,
             dead_reckoning_dvl_list[dr_idx].altitude,
         )
+        if shift_to_origin:
+            b.altitude -= z_offset
         ekf_list.append(b)
     return ekf_list
 
-- 
2.43.0


From 7993b5c3564278a2e2f0dfaaace5b9436517373f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:29 +0000
Subject: [PATCH 009/125] fix: EKF keeps every image taken at the same instant

---
 src/auv_nav/localisation/ekf.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/auv_nav/localisation/ekf.py b/src/auv_nav/localisation/ekf.py
index eb534b0..d9e6c66 100644
--- a/src/auv_nav/localisation/ekf.py
+++ b/src/auv_nav/localisation/ekf.py
@@ -1169,5 +1169,4 @@ def update_camera_list(
             c.filename = camera_list[c_idx].filename
             valid_camera_list.append(c)
             c_idx += 1
-            ekf_idx += 1
     return valid_camera_list
-- 
2.43.0


From f9005d4defe3b87829654a0d9654025ee8db2d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:29 +0000
Subject: [PATCH 010/125] fix: particle filter centre depth and altitude
 account for the sensor offsets

---
 src/auv_nav/process.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index 06d7067..db9f4c5 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -1205,6 +1205,16 @@ def process(
             )
             pf_fusion_centre_list[i].northings += x_offset
             pf_fusion_centre_list[i].eastings += y_offset
+            pf_fusion_centre_list[i].altitude -= z_offset
+            [_, _, depth_offset] = body_to_inertial(
+                pf_fusion_centre_list[i].roll,
+                pf_fusion_centre_list[i].pitch,
+                pf_fusion_centre_list[i].yaw,
+                vehicle.origin.surge - vehicle.depth.surge,
+                vehicle.origin.sway - vehicle.depth.sway,
+                vehicle.origin.heave - vehicle.depth.heave,
+            )
+            pf_fusion_centre_list[i].depth += depth_offset
             lat, lon = metres_to_latlon(
                 mission.origin.latitude,
                 mission.origin.longitude,
-- 
2.43.0


From 8935bfd0762fa5980ea73e5ce873aab06a2efd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:26 +0000
Subject: [PATCH 011/125] fix: particle filter altitude follows the measured
 altitude

---
 src/auv_nav/localisation/pf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/auv_nav/localisation/pf.py b/src/auv_nav/localisation/pf.py
index 1e84b2b..dd5b703 100644
--- a/src/auv_nav/localisation/pf.py
+++ b/src/auv_nav/localisation/pf.py
@@ -196,6 +196,7 @@ class DeadReckoningMovementModel:
         p.state[Index.VZ, 0] = linear_noise(
             Index.VZ, velocity_std_factor_z, velocity_std_offset_z, k_dvl
         )
+        p.state[Index.ALT, 0] = self.movement[Index.ALT, 0]
 
         cr = math.cos(p.state[Index.ROLL, 0])
         sr = math.sin(p.state[Index.ROLL, 0])
-- 
2.43.0


From 5d52245292caed031fe054d95a3630c7cd57d152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:26 +0000
Subject: [PATCH 012/125] fix: particle weights stay normalised after an
 unlikely observation

---
 src/auv_nav/localisation/pf.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/auv_nav/localisation/pf.py b/src/auv_nav/localisation/pf.py
index dd5b703..ad18c56 100644
--- a/src/auv_nav/localisation/pf.py
+++ b/src/auv_nav/localisation/pf.py
@@ -288,11 +288,12 @@ class ParticleFilter:
     def normalize(self):
         s = [p.weight for p in self.particles]
         norm = np.sum(s)
-        # Avoid division by zero
-        if norm < 1e-20:
-            norm += 1e-20
         for p in self.particles:
-            p.weight = p.weight / norm
+            if norm > 0:
+                p.weight = p.weight / norm
+            else:
+                # No particle explains the observation: all are equally likely
+                p.weight = 1.0 / len(self.particles)
 
     def resample(self):
         """Importance resample"""
-- 
2.43.0


From 246b253b6aaf1f384b0647ea19d12a6717e982a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:26 +0000
Subject: [PATCH 013/125] fix: particle filter starts from the first dead
 reckoning sample

---
 src/auv_nav/localisation/pf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/auv_nav/localisation/pf.py b/src/auv_nav/localisation/pf.py
index ad18c56..508887d 100644
--- a/src/auv_nav/localisation/pf.py
+++ b/src/auv_nav/localisation/pf.py
@@ -499,6 +499,7 @@ def run_particle_filter(
 
     pf = ParticleFilter(num_particles, mm, om, expected_iterations=len(dr_list))
     pf.set_prior(prior)
+    pf.set_movement(dr_list[dr_idx])
 
     last_t = dr_list[dr_idx].epoch_timestamp
 
-- 
2.43.0


From e3a332a72d202e54b79a27e61eb1b23fb46dbec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:57 +0000
Subject: [PATCH 014/125] fix: dead reckoning is offset also when few USBL
 fixes overlap it

---
 src/auv_nav/localisation/usbl_offset.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/auv_nav/localisation/usbl_offset.py b/src/auv_nav/localisation/usbl_offset.py
index 9e9ad1d..efd1ced 100644
--- a/src/auv_nav/localisation/usbl_offset.py
+++ b/src/auv_nav/localisation/usbl_offset.py
@@ -32,11 +32,23 @@ def usbl_offset(
     threshold = 20  # what to consider a big jump in time
     exit_flag = False
 
+    overlap = [
+        i
+        for i, t in enumerate(time_usbl)
+        if time_dead_reckoning[0] <= t <= time_dead_reckoning[-1]
+    ]
+    if len(overlap) == 0:
+        Console.warn("No USBL overlaps the dead reckoning. It will not be offset.")
+        return 0.0, 0.0
+
     # Find suitable start points
     if time_usbl[0] < time_dead_reckoning[0]:
         Console.info("USBL starts before dead_reckoning")
         while exit_flag is False:
-            if start_usbl + 1 >= len(time_usbl):
+            if (
+                start_usbl + 1 >= len(time_usbl)
+                or start_dead_reckoning + 1 >= len(time_dead_reckoning)
+            ):
                 break
             if (
                 time_dead_reckoning[start_dead_reckoning] - time_usbl[start_usbl + 1]
@@ -56,6 +68,11 @@ def usbl_offset(
     else:
         # print('usbl starts after dead_reckoning')
         while exit_flag is False:
+            if (
+                start_usbl + 1 >= len(time_usbl)
+                or start_dead_reckoning + 1 >= len(time_dead_reckoning)
+            ):
+                break
             if time_dead_reckoning[start_dead_reckoning] - time_usbl[start_usbl] < 0:
                 start_dead_reckoning = start_dead_reckoning + 1
 
@@ -70,6 +87,11 @@ def usbl_offset(
                 else:  # if the jump is too big, ignore and try another fix
                     start_usbl = start_usbl + 1
 
+    if exit_flag is False or start_usbl not in overlap:
+        # No suitable start point, use all the USBL that overlaps
+        start_dead_reckoning = 0
+        start_usbl = overlap[0]
+
     northings_dead_reckoning_interpolated = []
     eastings_dead_reckoning_interpolated = []
 
-- 
2.43.0


From ca5a7674e63bd9e5180464d679d848776bb69fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:32 +0000
Subject: [PATCH 015/125] fix: EKF smoother gain of the first state is a matrix
 product

---
 src/auv_nav/localisation/ekf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/localisation/ekf.py b/src/auv_nav/localisation/ekf.py
index d9e6c66..75524ea 100644
--- a/src/auv_nav/localisation/ekf.py
+++ b/src/auv_nav/localisation/ekf.py
@@ -648,7 +648,7 @@ class EkfImpl(object):
                 A = self.compute_transfer_function_jacobian(delta, x_prior, f)
 
                 p_prior_pred = A @ p_prior @ A.T + self.process_noise_covariance * delta
-                J = p_prior * A.T * np.linalg.inv(p_prior_pred)
+                J = p_prior @ A.T @ np.linalg.inv(p_prior_pred)
 
                 innovation = x_smoothed - f @ x_prior
                 # Wrap angles of the innovation_subset
-- 
2.43.0


From 7d99e8b84dbf8277c5403714dfb84174a263f7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:00 +0000
Subject: [PATCH 016/125] fix: particle filter attitude noise offset is in
 degrees

---
 src/auv_nav/localisation/pf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/auv_nav/localisation/pf.py b/src/auv_nav/localisation/pf.py
index 508887d..c267e37 100644
--- a/src/auv_nav/localisation/pf.py
+++ b/src/auv_nav/localisation/pf.py
@@ -164,7 +164,8 @@ class DeadReckoningMovementModel:
             velocity_std_offset_y = self.sensors_std["speed"]["offset"]
             velocity_std_factor_z = self.sensors_std["speed"]["factor"]
             velocity_std_offset_z = self.sensors_std["speed"]["offset"]
-        imu_noise_std_offset = self.sensors_std["orientation"]["offset"]
+        # The attitude of a particle is in radians, the offset is set in degrees
+        imu_noise_std_offset = self.sensors_std["orientation"]["offset"] * math.pi / 180
         imu_noise_std_factor = self.sensors_std["orientation"]["factor"]
 
         k_dvl = self.dvl_noise_sigma_factor
-- 
2.43.0


From 8caa6719564a9e33a3294e6295e1ff552bd67d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:02 +0000
Subject: [PATCH 017/125] fix: particle filter uses every USBL fix taken during
 dead reckoning

---
 src/auv_nav/localisation/pf.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/auv_nav/localisation/pf.py b/src/auv_nav/localisation/pf.py
index c267e37..cb53d93 100644
--- a/src/auv_nav/localisation/pf.py
+++ b/src/auv_nav/localisation/pf.py
@@ -386,18 +386,12 @@ def get_prior(dr_list, usbl_list):
     eastings_mean = np.mean(eastings_error)
     northings_mean = np.mean(northings_error)
 
-    dr_index = 0
+    # Skip the USBL fixes that precede dead reckoning
     usbl_index = 0
-    usbl_t = usbl_list[usbl_index].epoch_timestamp
-    dr_t = dr_list[usbl_index].epoch_timestamp
-
-    while dr_index < len(dr_list) and usbl_t > dr_t:
-        usbl_t = usbl_list[usbl_index].epoch_timestamp
-        dr_t = dr_list[usbl_index].epoch_timestamp
-        dr_index += 1
-    while usbl_index < len(usbl_list) and usbl_t < dr_t:
-        usbl_t = usbl_list[usbl_index].epoch_timestamp
-        dr_t = dr_list[usbl_index].epoch_timestamp
+    while (
+        usbl_index < len(usbl_list)
+        and usbl_list[usbl_index].epoch_timestamp < dr_list[0].epoch_timestamp
+    ):
         usbl_index += 1
 
     # Fix DR to index zero
-- 
2.43.0


From 029caaad2d5bf339ff9fee818dbf78fb74e9096c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:02 +0000
Subject: [PATCH 018/125] fix: particle trajectory keeps the attitude, depth
 and altitude of its own instant

---
 src/auv_nav/localisation/pf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/auv_nav/localisation/pf.py b/src/auv_nav/localisation/pf.py
index cb53d93..b9874fa 100644
--- a/src/auv_nav/localisation/pf.py
+++ b/src/auv_nav/localisation/pf.py
@@ -220,7 +220,8 @@ class DeadReckoningMovementModel:
         # Propagate the p.state forward
         p.state = f @ p.state
         p.time += dt
-        p.trajectory.append(p.state)
+        # Copy, as the next propagation changes this state in place
+        p.trajectory.append(p.state.copy())
         p.trajectory_time.append(p.time)
 
 
-- 
2.43.0


From 6ecfaa9a4c4725c265abf60585361952ce17ca89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:34 +0000
Subject: [PATCH 019/125] fix: camera time offset defaults to zero instead of
 None

---
 src/oplab/mission.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/oplab/mission.py b/src/oplab/mission.py
index 508dc6f..e3041d9 100644
--- a/src/oplab/mission.py
+++ b/src/oplab/mission.py
@@ -107,7 +107,7 @@ class CameraEntry:
         self.type = None
         self.path = None
         self.timeoffset = None
-        self.timeoffset_s = None
+        self.timeoffset_s = 0.0
         if node is not None:
             self.name = node["name"]
             if "type" in node:
@@ -131,8 +131,7 @@ class CameraEntry:
             if "timeoffset" in node:
                 self.timeoffset = node["timeoffset"]
             self.records_laser = node.get("records_laser", False)
-            if "timeoffset_s" in node:
-                self.timeoffset_s = node["timeoffset_s"]
+            self.timeoffset_s = node.get("timeoffset_s", self.timeoffset)
 
     def write(self, node):
         node["name"] = self.name
-- 
2.43.0


From 3576cd217847191881678a805985d0a8563bf810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:34 +0000
Subject: [PATCH 020/125] fix: dives with BioCam laser images can be merged

---
 src/auv_nav/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/parse.py b/src/auv_nav/parse.py
index e2549bc..e8bd648 100644
--- a/src/auv_nav/parse.py
+++ b/src/auv_nav/parse.py
@@ -90,7 +90,7 @@ def merge_json_files(json_file_list):
                 item["camera3"][0]["filename"] = (
                     dive_prefix + item["camera3"][0]["filename"]
                 )
-            if item["category"] == "laser":
+            if item["category"] == "laser" and "filename" in item:
                 item["filename"] = dive_prefix + item["filename"]
             data_list.append(item)
 
-- 
2.43.0


From 2683c8ff74f7746f90bef3d2d5001f12c851b37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:34 +0000
Subject: [PATCH 021/125] fix: merged dive takes its configuration files from
 the raw folder

---
 src/auv_nav/parse.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/auv_nav/parse.py b/src/auv_nav/parse.py
index e8bd648..f60b13f 100644
--- a/src/auv_nav/parse.py
+++ b/src/auv_nav/parse.py
@@ -155,15 +155,15 @@ def parse(filepath, force_overwrite, merge):
 
         # copy mission.yaml and vehicle.yaml to processed folder for
         # process step
-        mission_processed = get_processed_folder(filepath[0]) / "mission.yaml"
-        vehicle_processed = get_processed_folder(filepath[0]) / "vehicle.yaml"
-        camera_processed = get_processed_folder(filepath[0]) / "camera.yaml"
+        mission_raw = get_raw_folder(filepath[0]) / "mission.yaml"
+        vehicle_raw = get_raw_folder(filepath[0]) / "vehicle.yaml"
+        camera_raw = get_raw_folder(filepath[0]) / "camera.yaml"
         mission_merged = processed_path / foldername / "mission.yaml"
         vehicle_merged = processed_path / foldername / "vehicle.yaml"
         camera_merged = processed_path / foldername / "camera.yaml"
-        mission_processed.copy(mission_merged)
-        vehicle_processed.copy(vehicle_merged)
-        camera_processed.copy(camera_merged)
+        mission_raw.copy(mission_merged)
+        vehicle_raw.copy(vehicle_merged)
+        camera_raw.copy(camera_merged)
 
         # interlace the data based on timestamps
         Console.info("Interlacing merged data...")
-- 
2.43.0


From d2bf22d95ffa10e9876514ed28eae34a7eef9191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:34 +0000
Subject: [PATCH 022/125] fix: tide correction covers the last interval of the
 tide record

---
 src/auv_nav/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/parse.py b/src/auv_nav/parse.py
index f60b13f..dfc8c32 100644
--- a/src/auv_nav/parse.py
+++ b/src/auv_nav/parse.py
@@ -713,7 +713,7 @@ def parse_single(filepath, force_overwrite):
                 j = 0
                 for k in range(len(results)):
                     while (
-                        j < len(tide_list)-2
+                        j < len(tide_list) - 1
                         and tide_list[j]["epoch_timestamp"]
                         < results[k]["epoch_timestamp"]
                     ):
-- 
2.43.0


From bbcb22f211f57adaa5eaa10ce8600928ccbf2a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:34 +0000
Subject: [PATCH 023/125] fix: image times of one dive do not leak into the
 next one parsed

---
 src/auv_nav/parsers/parse_acfr_images.py   |  6 ++----
 src/auv_nav/parsers/parse_biocam_images.py | 10 ++++------
 src/auv_nav/parsers/parse_ntnu_stereo.py   |  6 ++----
 3 files changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/auv_nav/parsers/parse_acfr_images.py b/src/auv_nav/parsers/parse_acfr_images.py
index 560e515..8f2756b 100644
--- a/src/auv_nav/parsers/parse_acfr_images.py
+++ b/src/auv_nav/parsers/parse_acfr_images.py
@@ -16,10 +16,6 @@ import os
 from auv_nav.tools.time_conversions import date_time_to_epoch
 from oplab import Console, get_raw_folder
 
-epoch_timestamp_camera1 = []
-epoch_timestamp_camera2 = []
-values = []
-data_list = []
 tolerance = 0.05  # 0.01 # stereo pair must be within 10ms of each other
 
 
@@ -105,6 +101,8 @@ def parse_acfr_images(mission, vehicle, category, ftype, outpath):
         Console.warn("   --  Will assume that you want to process one camera only.")
         camera2_filename = camera1_filename
 
+    epoch_timestamp_camera1 = []
+    epoch_timestamp_camera2 = []
     data_list = []
     if ftype == "acfr":
         data_list = ""
diff --git a/src/auv_nav/parsers/parse_biocam_images.py b/src/auv_nav/parsers/parse_biocam_images.py
index 5ea0ad9..58257f0 100644
--- a/src/auv_nav/parsers/parse_biocam_images.py
+++ b/src/auv_nav/parsers/parse_biocam_images.py
@@ -20,12 +20,6 @@ from scipy.stats import linregress
 from auv_nav.tools.time_conversions import date_time_to_epoch
 from oplab import Console, get_raw_folder
 
-stamp_pc1 = []
-stamp_pc2 = []
-stamp_cam1 = []
-stamp_cam2 = []
-values = []
-data_list = []
 tolerance = 0.05  # 0.01 # stereo pair must be within 10ms of each other
 
 
@@ -168,6 +162,10 @@ def parse_biocam_images(mission, vehicle, category, ftype, outpath):
         + " BioCam images!"
     )
 
+    stamp_pc1 = []
+    stamp_pc2 = []
+    stamp_cam1 = []
+    stamp_cam2 = []
     data_list = []
     if ftype == "acfr":
         data_list = ""
diff --git a/src/auv_nav/parsers/parse_ntnu_stereo.py b/src/auv_nav/parsers/parse_ntnu_stereo.py
index ca1c72f..db9f8c3 100644
--- a/src/auv_nav/parsers/parse_ntnu_stereo.py
+++ b/src/auv_nav/parsers/parse_ntnu_stereo.py
@@ -14,10 +14,6 @@ See LICENSE.md file in the project root for full license information.
 from auv_nav.tools.time_conversions import date_time_to_epoch
 from oplab import Console, get_raw_folder
 
-epoch_timestamp_camera1 = []
-epoch_timestamp_camera2 = []
-values = []
-data_list = []
 tolerance = 0.05  # 0.01 # stereo pair must be within 10ms of each other
 
 
@@ -93,6 +89,8 @@ def parse_ntnu_stereo_images(mission, vehicle, category, ftype, outpath):
     camera2_relpath = [x.relative_to(mission_path) for x in p if x.is_file()]
     camera2_filename = [x.name for x in camera2_relpath]
 
+    epoch_timestamp_camera1 = []
+    epoch_timestamp_camera2 = []
     data_list = []
     if ftype == "acfr":
         data_list = ""
-- 
2.43.0


From e07923a8d1e60ba45c07beadb8897087f22dfe7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:34 +0000
Subject: [PATCH 024/125] fix: NTNU stereo image time has a fraction in tenths
 of milliseconds

---
 src/auv_nav/parsers/parse_ntnu_stereo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/auv_nav/parsers/parse_ntnu_stereo.py b/src/auv_nav/parsers/parse_ntnu_stereo.py
index db9f8c3..701f5cf 100644
--- a/src/auv_nav/parsers/parse_ntnu_stereo.py
+++ b/src/auv_nav/parsers/parse_ntnu_stereo.py
@@ -34,7 +34,8 @@ def timestamp_from_filename(filename, timezone_offset, timeoffset):
     hour = int(filename[7:9])
     mins = int(filename[9:11])
     secs = int(filename[11:13])
-    msec = int(filename[14:18])
+    # fraction of a second with four digits
+    msec = int(filename[14:18]) / 10
 
     epoch_time = date_time_to_epoch(yyyy, mm, dd, hour, mins, secs, timezone_offset)
     epoch_timestamp = float(epoch_time + msec / 1000 + timeoffset)
-- 
2.43.0


From 19b70542c70a3aa635c4f9d5ee8d4671d1045750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:34 +0000
Subject: [PATCH 025/125] fix: usbl_dump positions south of the equator and
 west of Greenwich

---
 src/auv_nav/parsers/parse_usbl_dump.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/auv_nav/parsers/parse_usbl_dump.py b/src/auv_nav/parsers/parse_usbl_dump.py
index ba3293b..d3de3f7 100644
--- a/src/auv_nav/parsers/parse_usbl_dump.py
+++ b/src/auv_nav/parsers/parse_usbl_dump.py
@@ -86,22 +86,18 @@ def parse_usbl_dump(mission, vehicle, category, ftype, outpath):
                     latitude_degrees = int(latitude_list[0])
                     latitude_minutes = float(latitude_list[1])
 
-                    if latitude_full[1] != "N":
-                        latitude_degrees = latitude_degrees * -1  # southern hemisphere
-
                     latitude = latitude_degrees + latitude_minutes / 60
+                    if latitude_full[1] != "N":
+                        latitude = -latitude  # southern hemisphere
 
                     longitude_full = line_split[7].split(" ")
                     longitude_list = longitude_full[0].split("-")
                     longitude_degrees = int(longitude_list[0])
                     longitude_minutes = float(longitude_list[1])
 
-                    if longitude_full[1] != "E":
-                        longitude_degrees = (
-                            longitude_degrees * -1
-                        )  # southern hemisphere
-
                     longitude = longitude_degrees + longitude_minutes / 60
+                    if longitude_full[1] != "E":
+                        longitude = -longitude  # western hemisphere
 
                     depth_full = line_split[8].split("=")
                     depth = float(depth_full[1])
@@ -122,8 +118,8 @@ def parse_usbl_dump(mission, vehicle, category, ftype, outpath):
                         latitude, longitude, distance_std, distance_std
                     )
 
-                    latitude_std = latitude - latitude_offset
-                    longitude_std = longitude - longitude_offset
+                    latitude_std = abs(latitude - latitude_offset)
+                    longitude_std = abs(longitude - longitude_offset)
 
                     # calculate in metres from reference
                     eastings_ship = 0
-- 
2.43.0


From bd711796094ed9a84ef1cc16c6634456ca9effd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:21 +0000
Subject: [PATCH 026/125] fix: GAPS position needs a ship position and a
 heading before and after it

---
 src/auv_nav/parsers/parse_gaps.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/auv_nav/parsers/parse_gaps.py b/src/auv_nav/parsers/parse_gaps.py
index 5f92c1a..0e44176 100644
--- a/src/auv_nav/parsers/parse_gaps.py
+++ b/src/auv_nav/parsers/parse_gaps.py
@@ -70,6 +70,8 @@ def parse_gaps(mission, vehicle, category, ftype, outpath):
         with path_gaps.open("r", errors="ignore") as gaps:
             # initialise flag
             flag_got_time = 0
+            got_ship = False
+            got_heading = False
             for line in gaps.readlines():
                 line_split = line.strip().split("*")
                 line_split_no_checksum = line_split[0].strip().split(",")
@@ -155,6 +157,8 @@ def parse_gaps(mission, vehicle, category, ftype, outpath):
                             flag_got_time = 3
                         else:
                             flag_got_time = 0
+                        got_ship = False
+                        got_heading = False
 
                     if line_split_no_checksum[6] == "0":
                         if flag_got_time < 3:
@@ -225,8 +229,8 @@ def parse_gaps(mission, vehicle, category, ftype, outpath):
                                 longitude_prior = -longitude_prior
 
                             # flag raised to proceed
-                            if flag_got_time < 2:
-                                flag_got_time = flag_got_time + 1
+                            got_ship = True
+                            flag_got_time = 1 + got_heading
 
                         elif flag_got_time >= 3:
                             if line_split_no_checksum[6] == "0":
@@ -289,18 +293,20 @@ def parse_gaps(mission, vehicle, category, ftype, outpath):
                                     longitude_posterior = -longitude_posterior
 
                                 # flag raised to proceed
-                                flag_got_time = flag_got_time + 1
+                                got_ship = True
+                                flag_got_time = 4 + got_heading
 
                 # line_split_no_checksum[0] == header_heading:
                 if header_heading in line_split_no_checksum[0]:
                     if flag_got_time < 3:
                         heading_ship_prior = float(line_split_no_checksum[1])
-                        if flag_got_time < 2:
-                            flag_got_time = flag_got_time + 1
+                        got_heading = True
+                        flag_got_time = 1 + got_ship
 
                     else:
                         heading_ship_posterior = float(line_split_no_checksum[1])
-                        flag_got_time = flag_got_time + 1
+                        got_heading = True
+                        flag_got_time = 4 + got_ship
 
                 if flag_got_time >= 5:
                     # interpolate for the ships location and heading
@@ -467,6 +473,8 @@ def parse_gaps(mission, vehicle, category, ftype, outpath):
 
                     # reset flag
                     flag_got_time = 0
+                    got_ship = False
+                    got_heading = False
 
     Console.info("  ...done parsing GAPS data.")
 
-- 
2.43.0


From e1d7e82abcc5685f8704af18678d9cc807c08e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:21 +0000
Subject: [PATCH 027/125] fix: GAPS position with an unreadable time is
 dropped, not given another one

---
 src/auv_nav/parsers/parse_gaps.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/auv_nav/parsers/parse_gaps.py b/src/auv_nav/parsers/parse_gaps.py
index 0e44176..48c6d70 100644
--- a/src/auv_nav/parsers/parse_gaps.py
+++ b/src/auv_nav/parsers/parse_gaps.py
@@ -102,22 +102,17 @@ def parse_gaps(mission, vehicle, category, ftype, outpath):
                                 msec = int(time_string[7:10])
                             except ValueError:
                                 broken_packet_flag = True
-                                pass
 
-                            if secs >= 60:
-                                mins += 1
-                                secs = 0
+                            if secs >= 60 or mins >= 60 or hour >= 24:
                                 broken_packet_flag = True
 
-                            if mins >= 60:
-                                hour += 1
-                                mins = 0
-                                broken_packet_flag = True
-
-                            if hour >= 24:
-                                dd += 1
-                                hour = 0
-                                broken_packet_flag = True
+                            if broken_packet_flag:
+                                Console.warn("Badly formatted packet (GAPS TIME)")
+                                Console.warn(line)
+                                flag_got_time = 0
+                                got_ship = False
+                                got_heading = False
+                                continue
 
                             epoch_time = date_time_to_epoch(
                                 yyyy, mm, dd, hour, mins, secs, timezone_offset
-- 
2.43.0


From faef8f4b8bc7f7f8bca19a02a80e3afb9e4bd5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:18 +0000
Subject: [PATCH 028/125] fix: heading of the ship is interpolated across north
 in GAPS data

---
 src/auv_nav/parsers/parse_gaps.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/auv_nav/parsers/parse_gaps.py b/src/auv_nav/parsers/parse_gaps.py
index 48c6d70..e6919d2 100644
--- a/src/auv_nav/parsers/parse_gaps.py
+++ b/src/auv_nav/parsers/parse_gaps.py
@@ -316,10 +316,10 @@ def parse_gaps(mission, vehicle, category, ftype, outpath):
                         inter_time * (latitude_posterior - latitude_prior)
                         + latitude_prior
                     )
-                    heading_ship = (
-                        inter_time * (heading_ship_posterior - heading_ship_prior)
-                        + heading_ship_prior
-                    )
+                    heading_change = (
+                        heading_ship_posterior - heading_ship_prior + 180
+                    ) % 360 - 180
+                    heading_ship = inter_time * heading_change + heading_ship_prior
 
                     while heading_ship > 360:
                         heading_ship = heading_ship - 360
-- 
2.43.0


From 36ffd32f4399c15ed1a9024bae8cd3248dae586a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:18 +0000
Subject: [PATCH 029/125] fix: PHINS vertical speed uncertainty is not negative

---
 src/auv_nav/sensors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/sensors.py b/src/auv_nav/sensors.py
index 0be9d65..5c9615e 100644
--- a/src/auv_nav/sensors.py
+++ b/src/auv_nav/sensors.py
@@ -531,7 +531,7 @@ class InertialVelocity(OutputFormat):
             # phins convention is up +ve
             self.east_velocity_std = float(line[2])
             self.north_velocity_std = float(line[3])
-            self.down_velocity_std = -1 * float(line[4])
+            self.down_velocity_std = float(line[4])
 
     def from_json(self, json):
         self.epoch_timestamp = json["epoch_timestamp"]
-- 
2.43.0


From 373e11f6be5f34c072149820cc852dc08075b695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:18 +0000
Subject: [PATCH 030/125] fix: PHINS attitude does not mix packets of different
 instants

---
 src/auv_nav/parsers/parse_phins.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/auv_nav/parsers/parse_phins.py b/src/auv_nav/parsers/parse_phins.py
index 2965641..52cd664 100644
--- a/src/auv_nav/parsers/parse_phins.py
+++ b/src/auv_nav/parsers/parse_phins.py
@@ -185,6 +185,9 @@ class PhinsParser:
         if header == PhinsHeaders.TIME:
             epoch_timestamp = self.timestamp.epoch_timestamp_from_phins(line)
             self.set_timestamp(epoch_timestamp)
+            if self.category == Category.ORIENTATION:
+                # heading and attitude of different instants do not belong together
+                self.orientation.clear()
 
         if self.category == Category.VELOCITY:
             if header == PhinsHeaders.DVL:
-- 
2.43.0


From d421b8bd2480eb8f4b60edf7fd83480331b21b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:06 +0000
Subject: [PATCH 031/125] fix: PHINS depth with an unreadable time does not
 take that of another packet

---
 src/auv_nav/sensors.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/auv_nav/sensors.py b/src/auv_nav/sensors.py
index 5c9615e..544d348 100644
--- a/src/auv_nav/sensors.py
+++ b/src/auv_nav/sensors.py
@@ -919,6 +919,7 @@ class Depth(OutputFormat):
         self.sensor_string = "phins"
         self.depth = float(line[2])
         self.depth_std = self.depth * self.depth_std_factor
+        self.depth_timestamp = None
         time_string = str(line[3])
         hour = int(time_string[0:2])
         mins = int(time_string[2:4])
-- 
2.43.0


From 201e9ca377961d034fd829aaa72f9a9edbe9722a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:17 +0000
Subject: [PATCH 032/125] fix: PHINS altitude of an instant without time is not
 given the next one

---
 src/auv_nav/parsers/parse_phins.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/auv_nav/parsers/parse_phins.py b/src/auv_nav/parsers/parse_phins.py
index 52cd664..6292593 100644
--- a/src/auv_nav/parsers/parse_phins.py
+++ b/src/auv_nav/parsers/parse_phins.py
@@ -188,6 +188,8 @@ class PhinsParser:
             if self.category == Category.ORIENTATION:
                 # heading and attitude of different instants do not belong together
                 self.orientation.clear()
+            elif self.category == Category.ALTITUDE:
+                self.altitude.clear()
 
         if self.category == Category.VELOCITY:
             if header == PhinsHeaders.DVL:
-- 
2.43.0


From e5bb75ed1f3a90fed0f177b0f7b2f034ae230fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:10 +0000
Subject: [PATCH 033/125] fix: PHINS speed of an instant without time is not
 given the next one

---
 src/auv_nav/sensors.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/auv_nav/sensors.py b/src/auv_nav/sensors.py
index 544d348..700b825 100644
--- a/src/auv_nav/sensors.py
+++ b/src/auv_nav/sensors.py
@@ -521,6 +521,9 @@ class InertialVelocity(OutputFormat):
     def from_phins(self, line):
         self.sensor_string = "phins"
         if line[1] == PhinsHeaders.VEL:
+            if self.epoch_timestamp is None:
+                # a speed without time must not be given that of the next one
+                return
             # phins convention is west +ve so a minus should be necessary
             # phins convention is up +ve
             self.east_velocity = float(line[2])
-- 
2.43.0


From 500d235f1d9aec03c121d5ef17e8c9632376f9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:38 +0000
Subject: [PATCH 034/125] fix: attitude uncertainty of a rotated sensor is not
 negative

---
 src/auv_nav/sensors.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/auv_nav/sensors.py b/src/auv_nav/sensors.py
index 700b825..8dc30db 100644
--- a/src/auv_nav/sensors.py
+++ b/src/auv_nav/sensors.py
@@ -641,15 +641,13 @@ class Orientation(OutputFormat):
                 self.yaw = self.yaw + 360
 
     def apply_std_offset(self):
-        # account for sensor rotational offset
-        [self.roll_std, self.pitch_std, self.heading_std] = body_to_inertial(
-            0,
-            0,
-            self.yaw_offset,
-            self.roll_std,
-            self.pitch_std,
-            self.yaw_std,
-        )
+        # account for sensor rotational offset, standard deviations add up as squares
+        c = cos(self.yaw_offset * pi / 180.0)
+        s = sin(self.yaw_offset * pi / 180.0)
+        roll_std = sqrt((c * self.roll_std) ** 2 + (s * self.pitch_std) ** 2)
+        pitch_std = sqrt((s * self.roll_std) ** 2 + (c * self.pitch_std) ** 2)
+        self.roll_std = roll_std
+        self.pitch_std = pitch_std
 
     def from_eiva_navipac(self, line):
         self.sensor_string = "eiva_navipac"
-- 
2.43.0


From 6019771733ad3937bce0daed2e4fcf45ce464443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:52 +0000
Subject: [PATCH 035/125] fix: tide correction does not depend on the order log
 files are read in

---
 src/auv_nav/parse.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/auv_nav/parse.py b/src/auv_nav/parse.py
index dfc8c32..22227f6 100644
--- a/src/auv_nav/parse.py
+++ b/src/auv_nav/parse.py
@@ -707,7 +707,9 @@ def parse_single(filepath, force_overwrite):
                 elif results[0]["category"] == Category.USBL:
                     sensor = "USBL"
                 Console.info(f"Tidal correction of {sensor} data...")
-                # Offset depth to acknowledge for tides
+                # Offset depth to acknowledge for tides. Log files are not
+                # necessarily read in chronological order.
+                results = sorted(results, key=lambda r: r["epoch_timestamp"])
                 missing_tide_data_before = False
                 missing_tide_data_after = False
                 j = 0
-- 
2.43.0


From 7289d1449d00cc2bbc14328f6ff0d5ebc859c36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:42 +0000
Subject: [PATCH 036/125] fix: SLAM++ output does not change the camera poses
 being written to csv

---
 src/auv_nav/process.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index db9f4c5..3a3ceb4 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -2050,6 +2050,8 @@ def process(
             for i in range(len(camera3_ekf_list)):
                 camera3_ekf_list[i].get_info()
         Console.info("Converting poses into sequential-relative poses...")
+        # the absolute poses may still be being written to csv
+        camera1_ekf_list = [copy.copy(camera) for camera in camera1_ekf_list]
         for i in range(len(camera1_ekf_list) - 1):
             camera1_ekf_list[i].northings -= camera1_ekf_list[i + 1].northings
             camera1_ekf_list[i].eastings -= camera1_ekf_list[i + 1].eastings
-- 
2.43.0


From 40c40ee235b45966a397d086460bff5a9c5ed514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:17 +0000
Subject: [PATCH 037/125] fix: plots can be made without the USBL filter

---
 src/auv_nav/process.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index 3a3ceb4..1ec8b59 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -749,6 +749,7 @@ def process(
         )
 
     # perform usbl_filter
+    usbl_list_no_dist_filter = usbl_list
     if usbl_filter_activate:
         usbl_list_no_dist_filter, usbl_list = usbl_filter(
             usbl_list, depth_list, sigma_factor, max_auv_speed,
-- 
2.43.0


From 4fbec1b64eff8894f3f5f766b09eba2d74e880f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:38 +0000
Subject: [PATCH 038/125] fix: linear uncertainty model grows with the size of
 a reading, not its sign

---
 src/auv_nav/sensors.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/auv_nav/sensors.py b/src/auv_nav/sensors.py
index 8dc30db..21ef0a6 100644
--- a/src/auv_nav/sensors.py
+++ b/src/auv_nav/sensors.py
@@ -377,23 +377,26 @@ class BodyVelocity(OutputFormat):
         elif sensor_std["model"] == "linear":
             if "offset_x" in sensor_std:
                 self.x_velocity_std = (
-                    sensor_std["offset_x"] + sensor_std["factor_x"] * self.x_velocity
+                    sensor_std["offset_x"]
+                    + sensor_std["factor_x"] * abs(self.x_velocity)
                 )
                 self.y_velocity_std = (
-                    sensor_std["offset_y"] + sensor_std["factor_y"] * self.y_velocity
+                    sensor_std["offset_y"]
+                    + sensor_std["factor_y"] * abs(self.y_velocity)
                 )
                 self.z_velocity_std = (
-                    sensor_std["offset_z"] + sensor_std["factor_z"] * self.z_velocity
+                    sensor_std["offset_z"]
+                    + sensor_std["factor_z"] * abs(self.z_velocity)
                 )
             else:
                 self.x_velocity_std = (
-                    sensor_std["offset"] + sensor_std["factor"] * self.x_velocity
+                    sensor_std["offset"] + sensor_std["factor"] * abs(self.x_velocity)
                 )
                 self.y_velocity_std = (
-                    sensor_std["offset"] + sensor_std["factor"] * self.y_velocity
+                    sensor_std["offset"] + sensor_std["factor"] * abs(self.y_velocity)
                 )
                 self.z_velocity_std = (
-                    sensor_std["offset"] + sensor_std["factor"] * self.z_velocity
+                    sensor_std["offset"] + sensor_std["factor"] * abs(self.z_velocity)
                 )
         else:
             Console.error("The STD model you entered for DVL is not supported.")
@@ -765,9 +768,10 @@ class Orientation(OutputFormat):
             self.pitch_std = json["data"][2]["pitch_std"]
             self.yaw_std = json["data"][0]["heading_std"]
         elif sensor_std["model"] == "linear":
-            self.roll_std = sensor_std["offset"] + sensor_std["factor"] * self.roll
-            self.pitch_std = sensor_std["offset"] + sensor_std["factor"] * self.pitch
-            self.yaw_std = sensor_std["offset"] + sensor_std["factor"] * self.yaw
+            offset, factor = sensor_std["offset"], sensor_std["factor"]
+            self.roll_std = offset + factor * abs(self.roll)
+            self.pitch_std = offset + factor * abs(self.pitch)
+            self.yaw_std = offset + factor * abs(self.yaw)
         else:
             Console.error("The STD model you entered for Orientation is not supported.")
             Console.quit("STD model not supported.")
@@ -946,7 +950,9 @@ class Depth(OutputFormat):
         if sensor_std["model"] == "sensor":
             self.depth_std = json["data"][0]["depth_std"]
         elif sensor_std["model"] == "linear":
-            self.depth_std = sensor_std["offset"] + sensor_std["factor"] * self.depth
+            self.depth_std = sensor_std["offset"] + sensor_std["factor"] * abs(
+                self.depth
+            )
         else:
             Console.error("The STD model you entered for Depth is not supported.")
             Console.quit("STD model not supported.")
@@ -1553,7 +1559,9 @@ class Tide(OutputFormat):
         if sensor_std["model"] == "sensor":
             self.height_std = json["data"][0]["height_std"]
         elif sensor_std["model"] == "linear":
-            self.height_std = sensor_std["offset"] + sensor_std["factor"] * self.height
+            self.height_std = sensor_std["offset"] + sensor_std["factor"] * abs(
+                self.height
+            )
         else:
             Console.error("The STD model you entered for TIDE is not supported.")
             Console.quit("STD model not supported.")
-- 
2.43.0


From 30b307e4297230f8e3d8ccec7a8ca5076c7d00e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:38 +0000
Subject: [PATCH 039/125] fix: uncertainty models missing from auv_nav.yaml
 default to the sensor's

---
 src/auv_nav/process.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index 1ec8b59..05329d9 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -219,11 +219,11 @@ def process(
             ]
         if "std" in load_localisation:
             sensors_std = load_localisation["std"]
-            if "position_xy" not in sensors_std:
+            if "position_xy" not in sensors_std and "usbl" in sensors_std:
                 sensors_std["position_xy"] = sensors_std["usbl"]
-            if "position_z" not in sensors_std:
+            if "position_z" not in sensors_std and "depth" in sensors_std:
                 sensors_std["position_z"] = sensors_std["depth"]
-            if "speed" not in sensors_std:
+            if "speed" not in sensors_std and "dvl" in sensors_std:
                 sensors_std["speed"] = sensors_std["dvl"]
         else:
             sensors_std = {}
-- 
2.43.0


From 362b169977a0717c4ccc71402358f04eb4e25468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:50 +0000
Subject: [PATCH 040/125] fix: particle filter runs with a speed uncertainty
 given per axis

---
 src/auv_nav/localisation/pf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/auv_nav/localisation/pf.py b/src/auv_nav/localisation/pf.py
index b9874fa..ee0b781 100644
--- a/src/auv_nav/localisation/pf.py
+++ b/src/auv_nav/localisation/pf.py
@@ -461,9 +461,11 @@ def run_particle_filter(
     """
     Console.info("Running Particle Filter with:")
     Console.info("\t* Number of particles: {}".format(num_particles))
+    speed_std = sensors_std["speed"]
     Console.info(
         "\t* DVL noise std: f(x)={}x+{} m/s".format(
-            sensors_std["speed"]["factor"], sensors_std["speed"]["offset"]
+            speed_std.get("factor", speed_std.get("factor_x")),
+            speed_std.get("offset", speed_std.get("offset_x")),
         )
     )
     Console.info(
-- 
2.43.0


From 0a2fc558c03a7904ecc8878b7fb387ccc927ee3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:20 +0000
Subject: [PATCH 041/125] fix: roll and pitch of an ACFR vehicle pose are not
 swapped

---
 src/auv_nav/parsers/acfr_vehicle_pose.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/parsers/acfr_vehicle_pose.py b/src/auv_nav/parsers/acfr_vehicle_pose.py
index 49938bd..86247f6 100644
--- a/src/auv_nav/parsers/acfr_vehicle_pose.py
+++ b/src/auv_nav/parsers/acfr_vehicle_pose.py
@@ -185,8 +185,8 @@ class AcfrVehiclePoseParser:
             dr.depth = entry.z_depth
             dr.latitude = entry.latitude
             dr.longitude = entry.longitude
-            dr.roll = entry.y_euler_angle
-            dr.pitch = -entry.x_euler_angle
+            dr.roll = entry.x_euler_angle
+            dr.pitch = entry.y_euler_angle
             dr.yaw = entry.z_euler_angle
             dr.altitude = entry.altitude
 
-- 
2.43.0


From 4446b96169c72984cb1c3cd937b4dc7fc2e84062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:20 +0000
Subject: [PATCH 042/125] fix: ACFR vehicle poses are written in radians

---
 src/auv_nav/parsers/acfr_vehicle_pose.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/auv_nav/parsers/acfr_vehicle_pose.py b/src/auv_nav/parsers/acfr_vehicle_pose.py
index 86247f6..203804b 100644
--- a/src/auv_nav/parsers/acfr_vehicle_pose.py
+++ b/src/auv_nav/parsers/acfr_vehicle_pose.py
@@ -228,11 +228,11 @@ class AcfrVehiclePoseWriter:
                     + " \t"
                     + str(dr.depth)
                     + " \t"
-                    + str(dr.roll)
+                    + str(math.radians(dr.roll))
                     + " \t"
-                    + str(dr.pitch)
+                    + str(math.radians(dr.pitch))
                     + " \t"
-                    + str(dr.yaw)
+                    + str(math.radians(dr.yaw))
                     + " \t"
                     + str(dr.altitude)
                     + "\n"
-- 
2.43.0


From 423ed291ce2ecd90207cd737a8f282518c1ab4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:20 +0000
Subject: [PATCH 043/125] fix: ACFR stereo poses are written as the Euler
 angles of the rig in radians

---
 src/auv_nav/parsers/acfr_stereo_pose.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/auv_nav/parsers/acfr_stereo_pose.py b/src/auv_nav/parsers/acfr_stereo_pose.py
index a2bb6f2..feec28b 100644
--- a/src/auv_nav/parsers/acfr_stereo_pose.py
+++ b/src/auv_nav/parsers/acfr_stereo_pose.py
@@ -274,6 +274,7 @@ class AcfrStereoPoseWriter:
             for i, (c1, c2) in enumerate(zip(cam1_list, cam2_list)):
                 c1.filename = Path(c1.filename).name
                 c2.filename = Path(c2.filename).name
+                # Euler angles of the stereo rig in radians, see get_cameras()
                 f.write(
                     str(i)
                     + " \t"
@@ -289,11 +290,11 @@ class AcfrStereoPoseWriter:
                     + " \t"
                     + str(c1.depth)
                     + " \t"
-                    + str(c1.roll)
+                    + str(math.radians(-c1.pitch))
                     + " \t"
-                    + str(c1.pitch)
+                    + str(math.radians(c1.roll))
                     + " \t"
-                    + str(c1.yaw)
+                    + str(math.radians(c1.yaw - 90))
                     + " \t"
                     + str(c1.filename)
                     + " \t"
-- 
2.43.0


From 06e4bfa309c30398dee31b733e3d6d8e4edfbf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:20 +0000
Subject: [PATCH 044/125] fix: poses converted from ACFR are not overwritten
 without -F

---
 src/auv_nav/convert.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/auv_nav/convert.py b/src/auv_nav/convert.py
index 86c507f..c2bd288 100644
--- a/src/auv_nav/convert.py
+++ b/src/auv_nav/convert.py
@@ -132,19 +132,22 @@ def acfr_to_oplab(args):
 
         print("Found", len(dr), "dr entries")
 
-        csv_filename = "auv_acfr_centre.csv"
+        csv_filename = "auv_acfr_centre"
 
-        if (csv_filepath / csv_filename).exists() and not force_overwite:
+        if (csv_filepath / (csv_filename + ".csv")).exists() and not force_overwite:
             Console.error("The DR file already exists. Use -F to force overwrite it")
             Console.quit("Default behaviour: not to overwrite results")
         else:
             write_csv(csv_filepath, dr, csv_filename, csv_flag=True)
-            Console.info("Output vehicle pose written to", csv_filepath / csv_filename)
+            Console.info("Output vehicle pose written to", csv_filepath)
     if args.stereo_pose:
         Console.info("Stereo pose provided! Converting it to camera CSVs...")
         spp = AcfrStereoPoseParser(args.stereo_pose)
         cam1, cam2 = spp.get_cameras()
-        if (csv_filepath / "auv_dr_LC.csv").exists() and not force_overwite:
+        if (
+            (csv_filepath / "auv_acfr_LC.csv").exists()
+            or (csv_filepath / "auv_acfr_RC.csv").exists()
+        ) and not force_overwite:
             Console.error(
                 "The camera files already exists. Use -F to force overwrite it"
             )
-- 
2.43.0


From eb40bd686c6ae358fa88c1654d1fb609d3a26250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:20 +0000
Subject: [PATCH 045/125] fix: HyBIS images take the pose between the records
 that bracket them

---
 src/auv_nav/parsers/hybis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/parsers/hybis.py b/src/auv_nav/parsers/hybis.py
index 11d769f..9fb73d5 100644
--- a/src/auv_nav/parsers/hybis.py
+++ b/src/auv_nav/parsers/hybis.py
@@ -167,7 +167,7 @@ class HybisParser:
             i = 0
             while (
                 i < len(hybis_vec) - 2
-                and hybis_vec[i].epoch_timestamp < modification_time
+                and hybis_vec[i + 1].epoch_timestamp < modification_time
             ):
                 i += 1
 
-- 
2.43.0


From 54f662aeb7a676404277162f6c635f937f4c3ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:20 +0000
Subject: [PATCH 046/125] fix: heading of HyBIS images is interpolated across
 north

---
 src/auv_nav/parsers/hybis.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/auv_nav/parsers/hybis.py b/src/auv_nav/parsers/hybis.py
index 9fb73d5..cdf8be7 100644
--- a/src/auv_nav/parsers/hybis.py
+++ b/src/auv_nav/parsers/hybis.py
@@ -206,12 +206,20 @@ class HybisParser:
                 hybis_vec[i].pitch,
                 hybis_vec[i + 1].pitch,
             )
-            heading = interpolate(
-                modification_time,
-                hybis_vec[i].epoch_timestamp,
-                hybis_vec[i + 1].epoch_timestamp,
-                hybis_vec[i].heading,
-                hybis_vec[i + 1].heading,
+            next_heading = hybis_vec[i + 1].heading
+            if next_heading - hybis_vec[i].heading > 180:
+                next_heading -= 360
+            elif next_heading - hybis_vec[i].heading < -180:
+                next_heading += 360
+            heading = (
+                interpolate(
+                    modification_time,
+                    hybis_vec[i].epoch_timestamp,
+                    hybis_vec[i + 1].epoch_timestamp,
+                    hybis_vec[i].heading,
+                    next_heading,
+                )
+                % 360
             )
             altitude = interpolate(
                 modification_time,
-- 
2.43.0


From 227bd7c614df104678193bdf20233bf6152eb996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:20 +0000
Subject: [PATCH 047/125] fix: HyBIS reference position can be given on the
 command line

---
 src/auv_nav/parsers/hybis.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/auv_nav/parsers/hybis.py b/src/auv_nav/parsers/hybis.py
index cdf8be7..6a5bb79 100644
--- a/src/auv_nav/parsers/hybis.py
+++ b/src/auv_nav/parsers/hybis.py
@@ -132,6 +132,9 @@ class HybisParser:
                     hybis_vec[i + 1].depth,
                 )
 
+        # the command line gives text
+        reference_lat = float(reference_lat)
+        reference_lon = float(reference_lon)
         if reference_lon == 0 or reference_lat == 0:
             i = 0
             while hybis_vec[i].latitude == 0:
-- 
2.43.0


From 06d0e51aa40e2cde3e1535506d5ceb0cf8d83159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:20 +0000
Subject: [PATCH 048/125] fix: auv_nav main uses the arguments it is called
 with

---
 src/auv_nav/auv_nav.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/auv_nav.py b/src/auv_nav/auv_nav.py
index ba3d24b..5a12181 100644
--- a/src/auv_nav/auv_nav.py
+++ b/src/auv_nav/auv_nav.py
@@ -288,7 +288,7 @@ def main(args=None):
         sys.exit(1)
 
     argcomplete.autocomplete(parser)
-    args = parser.parse_args()
+    args = parser.parse_args(args)
     args.func(args)
 
 
-- 
2.43.0


From 9bfe1f1fd536f892ad22d993f22b4086ea4c91c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:32 +0000
Subject: [PATCH 049/125] fix: first pose of an ACFR vehicle pose file is not
 skipped

---
 src/auv_nav/parsers/acfr_vehicle_pose.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/auv_nav/parsers/acfr_vehicle_pose.py b/src/auv_nav/parsers/acfr_vehicle_pose.py
index 203804b..546a2ed 100644
--- a/src/auv_nav/parsers/acfr_vehicle_pose.py
+++ b/src/auv_nav/parsers/acfr_vehicle_pose.py
@@ -159,15 +159,18 @@ class AcfrVehiclePoseParser:
         f = Path(filename)
         stream = f.open("r")
 
-        for i, line in enumerate(stream):
+        for line in stream:
+            # The header is made of comments, and its length can vary
+            if not line.strip() or line.startswith("%"):
+                continue
             # Read origins
-            # Line 56: ORIGIN_LATITUDE  59.8136000000000010
-            # Line 57: ORIGIN_LONGITUDE -7.3532999999999999
-            if i == 44:
+            # ORIGIN_LATITUDE  59.8136000000000010
+            # ORIGIN_LONGITUDE -7.3532999999999999
+            if line.startswith("ORIGIN_LATITUDE"):
                 self.origin_latitude = float(line.split()[1])
-            if i == 45:
+            elif line.startswith("ORIGIN_LONGITUDE"):
                 self.origin_longitude = float(line.split()[1])
-            if i > 45:
+            else:
                 self._entries.append(AcfrVehiclePose(line))
         print("Parsed", len(self._entries), "entries")
 
-- 
2.43.0


From c12f8d06fb5ad824884fac220f8b2ba9fff362fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:18 +0000
Subject: [PATCH 050/125] fix: auv_nav parse without -F parses a dive whose
 processed folder holds no parsed data

---
 src/auv_nav/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/parse.py b/src/auv_nav/parse.py
index 22227f6..f660db1 100644
--- a/src/auv_nav/parse.py
+++ b/src/auv_nav/parse.py
@@ -792,7 +792,7 @@ def check_output_files_exist(processed_dataset_folder):
     """Check if any of the files exist, which `auv_nav parse` writes to disk"""
     mission_file = processed_dataset_folder / "mission.yaml"
     vehicle_file = processed_dataset_folder / "vehicle.yaml"
-    camera_file = processed_dataset_folder / ""
+    camera_file = processed_dataset_folder / "camera.yaml"
     nav_file = processed_dataset_folder / "nav" / "nav_standard.json"
     data_plot_file = processed_dataset_folder / "nav" / "json_data_info.html"
     history_plot_file = processed_dataset_folder / "nav" / "timestamp_history.html"
-- 
2.43.0


From 28d6c0e0cc404697134bc6744c105b16ebd47f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:17 +0000
Subject: [PATCH 051/125] fix: ransac_mean smoothing keeps the largest set of
 inliers and never averages an empty one

---
 src/correct_images/tools/numerical.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/correct_images/tools/numerical.py b/src/correct_images/tools/numerical.py
index 5b6062a..bb08659 100644
--- a/src/correct_images/tools/numerical.py
+++ b/src/correct_images/tools/numerical.py
@@ -209,7 +209,8 @@ def ransac_mean_std_1d(data, max_iterations=1000, threshold=0.1, sample_size=2):
     """
     iterations: int = 0
     best_error: float = np.inf
-    best_inliers = np.empty(data.shape, dtype=np.float32)
+    best_inliers = data
+    best_count: int = 0
     while iterations < max_iterations:
         # Get two random points
         idxs = np.random.choice(len(data), sample_size, replace=False)
@@ -221,9 +222,12 @@ def ransac_mean_std_1d(data, max_iterations=1000, threshold=0.1, sample_size=2):
         for i, idx in enumerate(inliers_idx):
             inliers[i] = data[idx]
         # Compute the error
-        error = np.sum(inliers - mean)
-        # If the error is smaller than the best error, update the best fit
-        if error < best_error:
+        error = np.sum(np.abs(inliers - mean))
+        # If there are more inliers, or as many with a smaller error, update the
+        # best fit
+        count = len(inliers_idx)
+        if count > best_count or (count == best_count and error < best_error):
+            best_count = count
             best_error = error
             best_inliers = inliers
         iterations += 1
-- 
2.43.0


From 576129096042d438d0a1d9dd241b94590c1bf8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:17 +0000
Subject: [PATCH 052/125] fix: trimmed mean smoothing is the mean of the kept
 values instead of NaN, also for monochrome images

---
 src/correct_images/tools/numerical.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/correct_images/tools/numerical.py b/src/correct_images/tools/numerical.py
index bb08659..4984f25 100644
--- a/src/correct_images/tools/numerical.py
+++ b/src/correct_images/tools/numerical.py
@@ -306,7 +306,8 @@ def image_mean_std_trimmed(data, ratio_trimming=0.2, calculate_std=True):
     ret_mean = np.zeros((a, b, c), np.float32)
     ret_std = np.zeros((a, b, c), np.float32)
 
-    effective_index = [list(range(0, n))]
+    # Monochrome images have no channel axis
+    data = data.reshape((n, a, b, c))
 
     message = "calculating mean and std of images " + datetime.datetime.now().strftime(
         "%Y-%m-%d %H:%M:%S"
@@ -314,15 +315,13 @@ def image_mean_std_trimmed(data, ratio_trimming=0.2, calculate_std=True):
 
     for ch in range(c):
         if ratio_trimming <= 0:
-            ret_mean, ret_std = mean_std_array(data[:, :, :, ch])
-            return ret_mean, ret_std
-
+            ret_mean[:, :, ch], ret_std[:, :, ch] = mean_std_array(data[:, :, :, ch])
         else:
             for idx_a in trange(a, ascii=True, desc=message):
                 results = [None] * b
                 for idx_b in range(b):
                     results[idx_b] = calc_mean_and_std_trimmed(
-                        data[effective_index, idx_a, idx_b, ch],
+                        data[:, idx_a, idx_b, ch],
                         ratio_trimming,
                         calculate_std,
                     )
-- 
2.43.0


From 8dff0a2db97ed67feb8cbe5f621f873a16f3f4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:17 +0000
Subject: [PATCH 053/125] fix: correct_images parse of several dives uses the
 images of all of them

---
 src/correct_images/corrector.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/correct_images/corrector.py b/src/correct_images/corrector.py
index c9dcde2..114ec99 100644
--- a/src/correct_images/corrector.py
+++ b/src/correct_images/corrector.py
@@ -666,17 +666,17 @@ class Corrector:
             )
         else:
             # Copy the images list from the camera
-            self.camera_image_list = self.camera.image_list
+            self.camera_image_list = list(self.camera.image_list)
 
-            # Join the current image list with the original image list (copy)
-            self.camera_image_list.extend(_original_image_list)
-            # Show size of the extended image list
-            # Informative for message for multidive
-            Console.info(
-                "The camera image list has", len(self.camera_image_list), "entries"
-            )
-            # Join the current image list with the original image list (copy)
-            self.altitude_list.extend(_original_altitude_list)
+        # Join the current image list with the original image list (copy)
+        self.camera_image_list.extend(_original_image_list)
+        # Show size of the extended image list
+        # Informative for message for multidive
+        Console.info(
+            "The camera image list has", len(self.camera_image_list), "entries"
+        )
+        # Join the current image list with the original image list (copy)
+        self.altitude_list.extend(_original_altitude_list)
 
     def get_altitude_and_depth_maps(self):
         """Generate distance matrix numpy files and save them"""
-- 
2.43.0


From deaa50cd499ee813eeb87ba47494acd89730d0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:17 +0000
Subject: [PATCH 054/125] fix: images of rgb cameras keep their colours, only
 those of bgr cameras are swapped

---
 src/correct_images/corrector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/correct_images/corrector.py b/src/correct_images/corrector.py
index 114ec99..8c56d69 100644
--- a/src/correct_images/corrector.py
+++ b/src/correct_images/corrector.py
@@ -1369,7 +1369,7 @@ class Corrector:
             ):
                 # debayer images
                 image_rgb = corrections.debayer(image, self._type)
-            elif self._type != "bgr" and self._type != "grayscale":
+            elif self._type == "bgr":
                 image_rgb = image.copy()
                 image_rgb[:, :, [0, 1, 2]] = image_rgb[:, :, [2, 1, 0]]
             else:
@@ -1383,7 +1383,7 @@ class Corrector:
             ):
                 # debayer images
                 image_rgb = corrections.debayer(image, self._type)
-            elif self._type != "bgr":
+            elif self._type == "bgr":
                 image_rgb = image.copy()
                 image_rgb[:, :, [0, 1, 2]] = image_rgb[:, :, [2, 1, 0]]
             else:
-- 
2.43.0


From 2dc6e7f0934f25eb2fdbaf2f72afef7bdb0012ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:17 +0000
Subject: [PATCH 055/125] fix: distortion correction finds the calibration file
 under the name auv_cal gives it

---
 src/correct_images/corrector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/correct_images/corrector.py b/src/correct_images/corrector.py
index 8c56d69..9f9c5a3 100644
--- a/src/correct_images/corrector.py
+++ b/src/correct_images/corrector.py
@@ -1242,7 +1242,7 @@ class Corrector:
         # check for calibration file if distortion correction needed
         if self.undistort:
             camera_params_folder = Path(self.path_processed).parents[0] / "calibration"
-            camera_params_filename = "mono" + self.camera_name + ".yaml"
+            camera_params_filename = "mono_" + self.camera_name + ".yaml"
             camera_params_file_path = camera_params_folder / camera_params_filename
 
             if not camera_params_file_path.exists():
-- 
2.43.0


From 4da2aea044206379cb80d520ed27e34831d5d5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:17 +0000
Subject: [PATCH 056/125] fix: manual_balance process writes its file list

---
 src/correct_images/corrector.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/correct_images/corrector.py b/src/correct_images/corrector.py
index 9f9c5a3..8bc158e 100644
--- a/src/correct_images/corrector.py
+++ b/src/correct_images/corrector.py
@@ -1278,7 +1278,18 @@ class Corrector:
         d = {"image_names": image_names, "relative_path": self.processed_image_list}
         dataframe = pd.DataFrame(d)
 
-        orig_dataframe = pd.read_csv(self.altitude_csv_path)
+        if self.altitude_csv_path is not None:
+            orig_dataframe = pd.read_csv(self.altitude_csv_path)
+        else:
+            # No navigation is read for manual balance
+            orig_dataframe = pd.DataFrame(
+                {
+                    "relative_path": [
+                        os.path.relpath(p, self.path_raw)
+                        for p in self.camera_image_list
+                    ]
+                }
+            )
         orig_dataframe["raw_relative_path"] = orig_dataframe["relative_path"]
 
         # Merge the two dataframes when image filenames are the same
-- 
2.43.0


From 93dabbc803a22cc181fd3ff91bf5a418b82c7739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:17 +0000
Subject: [PATCH 057/125] fix: images resized for a memmap use the cubic
 interpolation asked for

---
 src/correct_images/tools/memmap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/correct_images/tools/memmap.py b/src/correct_images/tools/memmap.py
index 73ccf55..052072f 100644
--- a/src/correct_images/tools/memmap.py
+++ b/src/correct_images/tools/memmap.py
@@ -96,7 +96,9 @@ def memmap_loader(
     if new_height is not None and new_width is not None:
         same_dimensions = (new_width == dimensions[1]) and (new_height == dimensions[0])
         if not same_dimensions:
-            im2 = cv2.resize(np_im, (new_width, new_height), cv2.INTER_CUBIC)
+            im2 = cv2.resize(
+                np_im, (new_width, new_height), interpolation=cv2.INTER_CUBIC
+            )
             memmap_handle[idx, ...] = im2
         else:
             memmap_handle[idx, ...] = np_im
-- 
2.43.0


From ad62d7160d677e186e1b134578ecff87a7d74769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:17 +0000
Subject: [PATCH 058/125] fix: an image written only at a second attempt does
 not end the run

---
 src/correct_images/tools/file_handlers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/correct_images/tools/file_handlers.py b/src/correct_images/tools/file_handlers.py
index 8c443e6..10469ca 100644
--- a/src/correct_images/tools/file_handlers.py
+++ b/src/correct_images/tools/file_handlers.py
@@ -152,7 +152,7 @@ def write_output_image(image, filename, dest_path, dest_format):
             f"Failed to write image {file_path} after {max_tries} unsuccessful attempts"
         )
     elif i > 0:
-        Console.warning(
+        Console.warn(
             f"Image {file_path} was written successfully after {i} failed attempt(s)"
         )
 
-- 
2.43.0


From 846f55566ef86fe5c7e6e3026fd25ce663042212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:17 +0000
Subject: [PATCH 059/125] fix: attenuation curve fit keeps altitudes and
 intensities paired when some are missing

---
 src/correct_images/tools/curve_fitting.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/correct_images/tools/curve_fitting.py b/src/correct_images/tools/curve_fitting.py
index d557bbc..0ddd095 100644
--- a/src/correct_images/tools/curve_fitting.py
+++ b/src/correct_images/tools/curve_fitting.py
@@ -90,8 +90,10 @@ def curve_fitting(
     numpy.ndarray
         parameters
     """
-    altitudes = altitudes[np.isfinite(altitudes)]
-    intensities = intensities[np.isfinite(intensities)]
+    # Keep each altitude with its own intensity
+    valid = np.isfinite(altitudes) & np.isfinite(intensities)
+    altitudes = altitudes[valid]
+    intensities = intensities[valid]
 
     if altitudes.size == 0:
         Console.warn(
-- 
2.43.0


From 3b9b63960b0a978d2333f10248f08cd8774d4069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:17 +0000
Subject: [PATCH 060/125] fix: rescaled image uses the altitude of that image
 only

---
 src/correct_images/corrections/rescale.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/correct_images/corrections/rescale.py b/src/correct_images/corrections/rescale.py
index 2c7a47e..ef394b9 100644
--- a/src/correct_images/corrections/rescale.py
+++ b/src/correct_images/corrections/rescale.py
@@ -116,7 +116,9 @@ def rescale_images(
         output_image_path = Path(output_directory) / image_name
         image_path_list = dataframe["relative_path"]
         trimmed_path_list = [
-            path for path in image_path_list if Path(path).stem in image_name
+            path
+            for path in image_path_list
+            if Path(path).stem == Path(image_name).stem
         ]
         trimmed_dataframe = dataframe.loc[
             dataframe["relative_path"].isin(trimmed_path_list)
@@ -128,7 +130,7 @@ def rescale_images(
                 image,
                 interpolate_method,
                 target_pixel_size_m,
-                altitude,
+                float(altitude.iloc[0]),
                 f_x,
                 f_y,
                 maintain_pixels,
-- 
2.43.0


From 18ba579a9721003960f349ccf1c946f2c30eaa07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:17 +0000
Subject: [PATCH 061/125] fix: correct_images main uses the arguments it is
 called with

---
 src/correct_images/correct_images.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/correct_images/correct_images.py b/src/correct_images/correct_images.py
index 9de5230..3f989d1 100644
--- a/src/correct_images/correct_images.py
+++ b/src/correct_images/correct_images.py
@@ -140,13 +140,13 @@ def main(args=None):
     if len(sys.argv) == 1 and args is None:
         # Show help if no args provided
         parser.print_help(sys.stderr)
-    elif len(sys.argv) == 2 and not sys.argv[1] == "-h":
+    elif args is None and len(sys.argv) == 2 and not sys.argv[1] == "-h":
         args = parser.parse_args(["correct", sys.argv[1]])
         print(args)
         if hasattr(args, "func"):
             args.func(args)
     else:
-        args = parser.parse_args()
+        args = parser.parse_args(args)
 
         # Check suffix is only text, digits, dash and underscores
         allowed_chars = string.ascii_letters + "-" + "_" + string.digits
-- 
2.43.0


From 2ed114b96f59c64963a9b7dbf0992cd5d5a7ccaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:53 +0000
Subject: [PATCH 062/125] fix: correct_images correct runs parse and process

---
 src/correct_images/correct_images.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/correct_images/correct_images.py b/src/correct_images/correct_images.py
index 3f989d1..a81f9e1 100644
--- a/src/correct_images/correct_images.py
+++ b/src/correct_images/correct_images.py
@@ -316,7 +316,14 @@ def call_correct(args):
     args : parse_args object
         User provided arguments for path of source images
     """
-    call_parse(args)
+    parse_args = argparse.Namespace(
+        path=[args.path],
+        force=args.force,
+        suffix=args.suffix,
+        memmap_location=".",
+        memmap_size_gb=50,
+    )
+    call_parse(parse_args)
     call_process(args)
 
 
-- 
2.43.0


From 10be785f4ffd709a7dcb73e847d7e26d7e2b2ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:24 +0000
Subject: [PATCH 063/125] fix: table of inertial velocities holds every reading
 whenever its writer thread runs

---
 src/auv_nav/process.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index 05329d9..ccec5be 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -603,7 +603,12 @@ def process(
     threads.append(t)
     t = threading.Thread(
         target=write_csv,
-        args=[raw_sensor_path, velocity_inertial_list, "velocity_inertial"],
+        args=[
+            raw_sensor_path,
+            # the list is changed further down while the thread writes it
+            copy.deepcopy(velocity_inertial_list),
+            "velocity_inertial",
+        ],
         kwargs={"mutex": mutex},
     )
     t.start()
-- 
2.43.0


From 1d73599a47941d25f169796f4e24af2a301d2abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:20 +0000
Subject: [PATCH 064/125] fix: removing a directory does not delete what its
 symbolic links point to

---
 src/oplab/folder_structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oplab/folder_structure.py b/src/oplab/folder_structure.py
index 473d844..6246378 100644
--- a/src/oplab/folder_structure.py
+++ b/src/oplab/folder_structure.py
@@ -128,7 +128,7 @@ def remove_directory(folder: Path):
         folder to be removed
     """
     for p in folder.iterdir():
-        if p.is_dir():
+        if p.is_dir() and not p.is_symlink():
             remove_directory(p)
         else:
             p.unlink()
-- 
2.43.0


From af5f2a636a384605acbd37f152648878b8063eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:20 +0000
Subject: [PATCH 065/125] fix: image times read from a timestamp file are
 stored

---
 src/oplab/filename_to_date.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oplab/filename_to_date.py b/src/oplab/filename_to_date.py
index 9493234..9b8704d 100644
--- a/src/oplab/filename_to_date.py
+++ b/src/oplab/filename_to_date.py
@@ -187,7 +187,7 @@ class FilenameToDate:
         Console.info("Found", last_idx, "timestamp records in", filename)
 
         for index, row in df.iterrows():
-            row["epoch_timestamp"] = self.string_to_epoch(
+            df.at[index, "epoch_timestamp"] = self.string_to_epoch(
                 row["combined"], row["combined_format"]
             )
 
-- 
2.43.0


From bb1e1a5aa1829cd45dc37c1d341673576c5eeea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:20 +0000
Subject: [PATCH 066/125] fix: image times can be taken from the modification
 time of the files

---
 src/oplab/camera_system.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/oplab/camera_system.py b/src/oplab/camera_system.py
index 28f9941..a9d6114 100644
--- a/src/oplab/camera_system.py
+++ b/src/oplab/camera_system.py
@@ -214,8 +214,7 @@ class CameraEntry:
             return self._stamp_list
         self._stamp_list = []
         for p in self.image_list:
-            n = Path(p).name
-            self._stamp_list.append(self.convert_filename(n))
+            self._stamp_list.append(self.convert_filename(p))
         return self._stamp_list
 
     @property
-- 
2.43.0


From b487bddc0c02f8149ce3247812723683cc41df93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:56 +0000
Subject: [PATCH 067/125] fix: last column of a timestamp file whose rows are
 longer than its header is found

---
 src/oplab/filename_to_date.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oplab/filename_to_date.py b/src/oplab/filename_to_date.py
index 9b8704d..a243294 100644
--- a/src/oplab/filename_to_date.py
+++ b/src/oplab/filename_to_date.py
@@ -150,7 +150,7 @@ class FilenameToDate:
         header = lines[0]
         first_row = lines[1]
 
-        headers = header.split(",")
+        headers = header.rstrip("\r\n").split(",")
 
         hn = len(headers)
         ln = len(first_row.split(","))
-- 
2.43.0


From 617bfd9252281febb40d9d32637ad9cdc86b6637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:54 +0000
Subject: [PATCH 068/125] fix: ransac_mean smoothing works for monochrome and
 Bayer images

---
 src/correct_images/tools/numerical.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/correct_images/tools/numerical.py b/src/correct_images/tools/numerical.py
index 4984f25..2dde02d 100644
--- a/src/correct_images/tools/numerical.py
+++ b/src/correct_images/tools/numerical.py
@@ -255,7 +255,9 @@ def ransac_mean_std(data, max_iterations=1000, threshold=0.1, sample_size=2):
     a = data.shape[1]
     b = data.shape[2]
     c = 1
-    if len(data.shape) == 4:
+    # Compare ndim, which numba knows when it compiles, so that only the
+    # branches that suit the array are compiled
+    if data.ndim == 4:
         c = data.shape[3]
     ret_mean = np.zeros((a, b, c), np.float64)
     ret_std = np.zeros((a, b, c), np.float64)
@@ -263,7 +265,7 @@ def ransac_mean_std(data, max_iterations=1000, threshold=0.1, sample_size=2):
     for k in prange(c):
         for i in prange(a):
             for j in prange(b):
-                if len(data.shape) == 4:
+                if data.ndim == 4:
                     ret_mean[i, j, k], ret_std[i, j, k] = ransac_mean_std_1d(
                         data[:, i, j, k].flatten(),
                         max_iterations,
-- 
2.43.0


From 7c4870d2f606f7457e580b147ecd8ea3f302e058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:51 +0000
Subject: [PATCH 069/125] fix: the normalised plane keeps its offset

---
 src/auv_cal/plane_fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_cal/plane_fitting.py b/src/auv_cal/plane_fitting.py
index a8b012b..e647764 100644
--- a/src/auv_cal/plane_fitting.py
+++ b/src/auv_cal/plane_fitting.py
@@ -25,7 +25,7 @@ class Plane:
 
     def from_coeffs(self, coeffs):
         self.coeffs = np.array(coeffs, dtype=np.float64)
-        self.normal = self.coeffs[0:3]
+        self.normal = self.coeffs[0:3].copy()
         norm_normal = norm(self.normal)
         self.normal /= norm_normal
         self.coeffs /= norm_normal
-- 
2.43.0


From 60d073ea147685fc59f2c5bd8edb8828bf21045d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:51 +0000
Subject: [PATCH 070/125] fix: RANSAC keeps the best set of inliers and fits
 the plane to all of them

---
 src/auv_cal/ransac.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/auv_cal/ransac.py b/src/auv_cal/ransac.py
index 720e434..0dff203 100644
--- a/src/auv_cal/ransac.py
+++ b/src/auv_cal/ransac.py
@@ -20,7 +20,7 @@ def augment(xyzs):
 
 
 def fit_plane(xyzs):
-    axyz = augment(xyzs[:3])
+    axyz = augment(xyzs)
     m = np.linalg.svd(axyz)[-1][-1, :]
     if m[0] < 0:
         m = m * (-1)
@@ -28,7 +28,8 @@ def fit_plane(xyzs):
 
 
 def is_inlier(coeffs, xyz, threshold):
-    return np.abs(coeffs.dot(augment([xyz]).T)) < threshold
+    distance = np.abs(coeffs.dot(augment([xyz]).T)) / np.linalg.norm(coeffs[:3])
+    return distance < threshold
 
 
 def run_ransac(
@@ -43,6 +44,7 @@ def run_ransac(
 ):
     best_ic = 0
     best_model = None
+    best_inliers = []
     random.seed(random_seed)
     # random.sample cannot deal with "data" being a numpy array
     data = list(data)
@@ -63,11 +65,13 @@ def run_ransac(
         if ic > best_ic:
             best_ic = ic
             best_model = m
+            best_inliers = inliers
             if ic > goal_inliers and stop_at_goal:
                 break
     # estimate final model using all inliers
-    best_model = fit_plane(inliers)
-    return best_model, inliers, i
+    if best_ic >= sample_size:
+        best_model = fit_plane(best_inliers)
+    return best_model, best_inliers, i
 
 
 def bounding_box(iterable):
-- 
2.43.0


From 7cc0c16ec8eb3af80a831b37c9788601de942bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:51 +0000
Subject: [PATCH 071/125] fix: plane built from a point and two angles contains
 the point

---
 src/auv_cal/laser_calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_cal/laser_calibrator.py b/src/auv_cal/laser_calibrator.py
index 3a8f7ea..cdcd2b5 100644
--- a/src/auv_cal/laser_calibrator.py
+++ b/src/auv_cal/laser_calibrator.py
@@ -49,8 +49,8 @@ def build_plane(pitch, yaw, point):
     b = math.tan(math.radians(yaw))
     c = math.tan(math.radians(pitch))
     normal = np.array([a, b, c])
-    normal = normal / np.linalg.norm(normal)
     d = -np.dot(normal, point)
+    normal = normal / np.linalg.norm(normal)
     plane = np.array([a, b, c, d])
     offset = (-d - point[1] * b) / a
     return plane, normal, offset
-- 
2.43.0


From 76e01f7dfe46b107b0a02e61ae4170a07ba8e62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:52 +0000
Subject: [PATCH 072/125] fix: laser calibration only pairs synchronised images

---
 src/auv_cal/laser_calibrator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/auv_cal/laser_calibrator.py b/src/auv_cal/laser_calibrator.py
index cdcd2b5..6e7508c 100644
--- a/src/auv_cal/laser_calibrator.py
+++ b/src/auv_cal/laser_calibrator.py
@@ -1026,17 +1026,17 @@ class LaserCalibrator:
         limages_rs = []
         rimages_rs = []
         rs_size = 500
-        if len(limages) > rs_size:
+        if len(limages_sync) > rs_size:
             f = lambda m, n: [  # noqa
                 i * n // m + n // (2 * m) for i in range(m)
             ]  # See https://stackoverflow.com/a/9873804/707946
-            selection = f(rs_size, len(limages))
+            selection = f(rs_size, len(limages_sync))
             for s in selection:
                 limages_rs.append(limages_sync[s])
                 rimages_rs.append(rimages_sync[s])
         else:
-            limages_rs = limages
-            rimages_rs = rimages
+            limages_rs = limages_sync
+            rimages_rs = rimages_sync
 
         Console.info("Processing", str(len(limages_sync)), "synchronised images...")
         result = joblib.Parallel(n_jobs=-1)(
-- 
2.43.0


From dbc9dfbc996a4c66aff22791877cf9cefcdb5de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:52 +0000
Subject: [PATCH 073/125] fix: the second laser gets its own uncertainty planes

---
 src/auv_cal/laser_calibrator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/auv_cal/laser_calibrator.py b/src/auv_cal/laser_calibrator.py
index 6e7508c..f1ab208 100644
--- a/src/auv_cal/laser_calibrator.py
+++ b/src/auv_cal/laser_calibrator.py
@@ -840,6 +840,8 @@ class LaserCalibrator:
 
         Console.info("Generating", self.num_uncert_planes, "uncertainty planes...")
         generate_planes_start = time.time()
+        self.triples = []
+        self.uncertainty_planes = []
         tries = 0
         failed_distance = 0
         failed_angle = 0
-- 
2.43.0


From 16ee95b5a4d8a5d998e1f90dfb58f0674a6b734e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:52 +0000
Subject: [PATCH 074/125] fix: detections of images without laser can be read
 back

---
 src/auv_cal/laser_calibrator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/auv_cal/laser_calibrator.py b/src/auv_cal/laser_calibrator.py
index f1ab208..5a35ec0 100644
--- a/src/auv_cal/laser_calibrator.py
+++ b/src/auv_cal/laser_calibrator.py
@@ -485,9 +485,10 @@ def get_laser_pixels_in_image_pair(
             with filename.open("r") as f:
                 r = yaml.safe_load(f)
             if r is not None:
-                a1 = r["top"]
+                # An empty list of detections is stored as a single empty entry
+                a1 = [p for p in r["top"] if p is not None]
                 if "bottom" in r:
-                    a1b = r["bottom"]
+                    a1b = [p for p in r["bottom"] if p is not None]
                 else:
                     a1b = []
                 i = 0
-- 
2.43.0


From 2838ba8f3c2909be71a5a8ed4a569259b70f8a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:52 +0000
Subject: [PATCH 075/125] fix: padded calibration images always get the
 requested size

---
 src/auv_cal/camera_calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_cal/camera_calibrator.py b/src/auv_cal/camera_calibrator.py
index ed209ed..f345320 100644
--- a/src/auv_cal/camera_calibrator.py
+++ b/src/auv_cal/camera_calibrator.py
@@ -483,7 +483,7 @@ def resize_with_padding(img, size):
         img, top, bottom, left, right, cv2.BORDER_CONSTANT, value=0
     )
 
-    if img.shape[0] != height:
+    if img.shape[0] != height or img.shape[1] != width:
         # needs scaling
         img = cv2.resize(img, size)
 
-- 
2.43.0


From 9dd853ce7b1056e4c75b1928c3426259bb6c806d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:52 +0000
Subject: [PATCH 076/125] fix: honour max_points_per_bin of calibration.yaml

---
 src/auv_cal/laser_calibrator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/auv_cal/laser_calibrator.py b/src/auv_cal/laser_calibrator.py
index 5a35ec0..964c4be 100644
--- a/src/auv_cal/laser_calibrator.py
+++ b/src/auv_cal/laser_calibrator.py
@@ -630,7 +630,9 @@ class LaserCalibrator:
         self.min_z_m = stratify.get("min_z_m", 1)
         self.max_z_m = stratify.get("max_z_m", 20)
         self.number_of_bins = stratify.get("number_of_bins", 5)
-        self.max_points_per_bin = stratify.get("max_bin_elements", 300)
+        self.max_points_per_bin = stratify.get(
+            "max_points_per_bin", stratify.get("max_bin_elements", 300)
+        )
 
         self.max_point_cloud_size = ransac.get("max_cloud_size", 10000)
         self.mdt = ransac.get("min_distance_threshold", 0.002)
-- 
2.43.0


From b4386d01735020d2531f38bd788d70a0a28b2b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:15 +0000
Subject: [PATCH 077/125] fix: images without top laser keep their bottom
 detections in the stored file

---
 src/auv_cal/laser_calibrator.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/auv_cal/laser_calibrator.py b/src/auv_cal/laser_calibrator.py
index 964c4be..523c6fc 100644
--- a/src/auv_cal/laser_calibrator.py
+++ b/src/auv_cal/laser_calibrator.py
@@ -383,6 +383,17 @@ def get_laser_pixels_in_image_pair(
             if `two_lasers` is `False`)
         """
 
+        def list_detections(name, points):
+            if len(points) == 0:
+                return name + ": []\n"
+            return (
+                name
+                + ": \n- "
+                + "- ".join(
+                    ["[" + str(p[0]) + ", " + str(p[1]) + "]\n" for p in points]
+                )
+            )
+
         p1b = []
         img1 = cv2.imread(str(image_name), cv2.IMREAD_ANYDEPTH)
 
@@ -401,9 +412,7 @@ def get_laser_pixels_in_image_pair(
             start_row=start_row,
             end_row=end_row,
         )
-        write_str = "top: \n- " + "- ".join(
-            ["[" + str(p1[i][0]) + ", " + str(p1[i][1]) + "]\n" for i in range(len(p1))]
-        )
+        write_str = list_detections("top", p1)
         if two_lasers:
             p1b = findLaserInImage(
                 img1,
@@ -413,12 +422,7 @@ def get_laser_pixels_in_image_pair(
                 start_row=start_row_b,
                 end_row=end_row_b,
             )
-            write_str += "bottom: \n- " + "- ".join(
-                [
-                    "[" + str(p1b[i][0]) + ", " + str(p1b[i][1]) + "]\n"
-                    for i in range(len(p1b))
-                ]
-            )
+            write_str += list_detections("bottom", p1b)
         with filename.open("w") as f:
             f.write(write_str)
         p1 = np.array(p1, dtype=np.float32)
-- 
2.43.0


From 623d905619587164a9e90896e5fbae80230a684b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:58 +0000
Subject: [PATCH 078/125] fix: camera model point functions work with current
 numpy

---
 src/oplab/camera_models.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/oplab/camera_models.py b/src/oplab/camera_models.py
index 4bedf10..9dfe252 100644
--- a/src/oplab/camera_models.py
+++ b/src/oplab/camera_models.py
@@ -183,14 +183,14 @@ class MonoCamera:
         px = p[0]
         py = p[1]
         ztemp = np.array([0, 0, 0], dtype="float32")
-        p_unif = np.array([[[(px - cx) / fx, (py - cy) / fy, 1]]], dtype=np.float)
+        p_unif = np.array([[[(px - cx) / fx, (py - cy) / fy, 1]]], dtype=float)
         out_p = []
         out_p = cv2.projectPoints(p_unif, ztemp, ztemp, self.K, self.d)[0][0][0]
         return self.return_valid(out_p)
 
     def undistort_point(self, p):
         # Undistorts points
-        p = np.array([p], dtype=np.float).reshape(1, 2)
+        p = np.array([p], dtype=float).reshape(1, 2)
         # If matrix P is identity or omitted, dst will contain
         # normalized point coordinates
         dst = cv2.undistortPoints(p, self.K, self.d)[0][0]
@@ -215,13 +215,13 @@ class MonoCamera:
         p_und = self.undistort_point(p)
         if p_und is None:
             return None
-        p_unif = np.array([p_und[0], p_und[1], 1], dtype=np.float).reshape(3, 1)
+        p_unif = np.array([p_und[0], p_und[1], 1], dtype=float).reshape(3, 1)
         p_und_rec = self.R @ p_unif
         p_und_rec = p_und_rec[0:2, 0]
         return self.return_valid(p_und_rec)
 
     def unrectify_and_distort_point(self, p):
-        p_unif = np.array([p[0], p[1], 1], dtype=np.float).reshape(3, 1)
+        p_unif = np.array([p[0], p[1], 1], dtype=float).reshape(3, 1)
         p_unrec = self.R.T @ p_unif
         return self.distort_point(p_unrec[0:2])
 
@@ -320,7 +320,7 @@ class StereoCamera:
         """Projects a 3D point into the rectified frame
         point3d a list of three elements [x, y, z]
         """
-        X = np.ones((4, 1), dtype=np.float)
+        X = np.ones((4, 1), dtype=float)
         X[:3, 0] = point3d
         left_uv = self.left.P @ X
         left_uv /= left_uv[2]
-- 
2.43.0


From 750e9c15b678ee838da711bfc4ea37b5552b8cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:58 +0000
Subject: [PATCH 079/125] fix: downsizing a camera scales its projection
 matrix, also for stereo files

---
 src/oplab/camera_models.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/oplab/camera_models.py b/src/oplab/camera_models.py
index 9dfe252..0a8992c 100644
--- a/src/oplab/camera_models.py
+++ b/src/oplab/camera_models.py
@@ -37,12 +37,17 @@ class MonoCamera:
             fs = cv2.FileStorage(str(filename), cv2.FILE_STORAGE_READ)
             self.from_node(fs)
 
-            if self.downsize_ratio is not None:
-                # Scale camera matrix and projection matrix
-                self.K *= self.downsize_ratio
-                self.P *= self.downsize_ratio
-                self.image_width = math.floor(self.image_width*self.downsize_ratio)
-                self.image_height = math.floor(self.image_height*self.downsize_ratio)
+            self.downsize()
+
+    def downsize(self):
+        if self.downsize_ratio is not None:
+            # Scale camera matrix and projection matrix (not the last row: the
+            # pixel coordinates are homogeneous)
+            self.K[:2] *= self.downsize_ratio
+            self.P[:2] *= self.downsize_ratio
+            self.image_width = math.floor(self.image_width*self.downsize_ratio)
+            self.image_height = math.floor(self.image_height*self.downsize_ratio)
+
     @property
     def aspect_ratio(self):
         return float(self.image_width) / float(self.image_height)
@@ -244,6 +249,8 @@ class StereoCamera:
             fs = cv2.FileStorage(str(filename), cv2.FILE_STORAGE_READ)
             self.left.from_node(fs.getNode("left"))
             self.right.from_node(fs.getNode("right"))
+            self.left.downsize()
+            self.right.downsize()
             self.from_node(fs.getNode("extrinsics"))
 
         self.different_resolution = False
-- 
2.43.0


From 2cc20a1e18b2f55234704227cd191b438f371bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:58 +0000
Subject: [PATCH 080/125] fix: camera models can be read back from what they
 write

---
 src/oplab/camera_models.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/oplab/camera_models.py b/src/oplab/camera_models.py
index 0a8992c..ff62e5d 100644
--- a/src/oplab/camera_models.py
+++ b/src/oplab/camera_models.py
@@ -131,12 +131,14 @@ class MonoCamera:
             + t
             + "  rows: 1\n"
             + t
-            + "  cols: 5\n"
+            + "  cols: "
+            + str(self.d.size)
+            + "\n"
             + t
             + "  dt: d\n"
             + t
             + "  data: ["
-            + ", ".join(["%8f" % self.d[i, 0] for i in range(self.d.shape[0])])
+            + ", ".join(["%8f" % i for i in self.d.ravel()])
             + "]\n"
             + t
             + "rectification_matrix: !!opencv-matrix\n"
@@ -277,28 +279,32 @@ class StereoCamera:
         msg += "right:\n"
         msg += self.right.to_str(write_metadata=False, write_header=False, nest=True)
         msg += (
-            "extrinsics:"
-            + "  rotation_matrix:\n"
+            "extrinsics:\n"
+            + "  rotation_matrix: !!opencv-matrix\n"
             + "    rows: 3\n"
             + "    cols: 3\n"
+            + "    dt: d\n"
             + "    data: ["
             + ", ".join(["%8f" % i for i in self.R.reshape(1, 9)[0]])
             + "]\n"
-            + "  translation_vector:\n"
-            + "    rows: 1\n"
-            + "    cols: 3\n"
+            + "  translation_vector: !!opencv-matrix\n"
+            + "    rows: 3\n"
+            + "    cols: 1\n"
+            + "    dt: d\n"
             + "    data: ["
-            + ", ".join(["%8f" % self.t[i, 0] for i in range(self.t.shape[0])])
+            + ", ".join(["%8f" % i for i in self.t.ravel()])
             + "]\n"
-            + "  fundamental_matrix:\n"
+            + "  fundamental_matrix: !!opencv-matrix\n"
             + "    rows: 3\n"
             + "    cols: 3\n"
+            + "    dt: d\n"
             + "    data: ["
-            + ", ".join(["%8f" % i for i in self.F.reshape(1, 9)[0]])
+            + ", ".join(["%.9e" % i for i in self.F.reshape(1, 9)[0]])
             + "]\n"
-            + "  essential_matrix:\n"
+            + "  essential_matrix: !!opencv-matrix\n"
             + "    rows: 3\n"
             + "    cols: 3\n"
+            + "    dt: d\n"
             + "    data: ["
             + ", ".join(["%8f" % i for i in self.E.reshape(1, 9)[0]])
             + "]\n"
-- 
2.43.0


From 979c1e994829b3546f2607924d7c337bb391a648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:58 +0000
Subject: [PATCH 081/125] fix: rectification rotates viewing rays rather than
 pixel coordinates

---
 src/oplab/camera_models.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/oplab/camera_models.py b/src/oplab/camera_models.py
index ff62e5d..90261c4 100644
--- a/src/oplab/camera_models.py
+++ b/src/oplab/camera_models.py
@@ -219,18 +219,16 @@ class MonoCamera:
         return self.return_valid(p)
 
     def undistort_and_rectify_point(self, p):
-        p_und = self.undistort_point(p)
-        if p_und is None:
-            return None
-        p_unif = np.array([p_und[0], p_und[1], 1], dtype=float).reshape(3, 1)
-        p_und_rec = self.R @ p_unif
-        p_und_rec = p_und_rec[0:2, 0]
+        p = np.array([p], dtype=float).reshape(1, 2)
+        # The rectification rotates the viewing rays, not the pixel coordinates
+        p_und_rec = cv2.undistortPoints(p, self.K, self.d, R=self.R, P=self.P)[0][0]
         return self.return_valid(p_und_rec)
 
     def unrectify_and_distort_point(self, p):
         p_unif = np.array([p[0], p[1], 1], dtype=float).reshape(3, 1)
-        p_unrec = self.R.T @ p_unif
-        return self.distort_point(p_unrec[0:2])
+        ray = self.R.T @ np.linalg.inv(self.P[:, :3]) @ p_unif
+        p_unrec = self.K @ (ray / ray[2, 0])
+        return self.distort_point(p_unrec[0:2, 0])
 
 
 class StereoCamera:
@@ -327,6 +325,8 @@ class StereoCamera:
     def triangulate_point_undistorted(self, left_uv, right_uv):
         p1 = self.left.undistort_and_rectify_point(left_uv)
         p2 = self.right.undistort_and_rectify_point(right_uv)
+        if p1 is None or p2 is None:
+            return None
         return self.triangulate_point(p1, p2)
 
     def project_point(self, point3d):
@@ -351,7 +351,7 @@ class StereoCamera:
         point3d a list of three elements [x, y, z]
         """
         p1, p2 = self.project_point(point3d)
-        if p1 is None:
+        if p1 is None or p2 is None:
             return None, None
         p1d = self.left.unrectify_and_distort_point(p1)
         p2d = self.right.unrectify_and_distort_point(p2)
-- 
2.43.0


From 4bd3589b7ad8aacb043fe3c32cb7f13c4e371682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:58 +0000
Subject: [PATCH 082/125] fix: stereo calibration keeps the digits of the
 fundamental matrix

---
 src/auv_cal/camera_calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_cal/camera_calibrator.py b/src/auv_cal/camera_calibrator.py
index f345320..9fb9ba0 100644
--- a/src/auv_cal/camera_calibrator.py
+++ b/src/auv_cal/camera_calibrator.py
@@ -1533,7 +1533,7 @@ class StereoCalibrator(Calibrator):
             "    cols: 3\n"
             "    dt: d\n"
             "    data: ["
-            + ", ".join(["%8f" % i for i in self.F.reshape(1, 9)[0]])
+            + ", ".join(["%.9e" % i for i in self.F.reshape(1, 9)[0]])
             + "]\n"  # troublemaker
             "  essential_matrix: !!opencv-matrix\n"
             "    rows: 3\n"
-- 
2.43.0


From 1eda07aa720945b490dd0fad02825b02b10f8e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:18 +0000
Subject: [PATCH 083/125] fix: stereo outlier rejection keeps images and
 corners aligned

---
 src/auv_cal/camera_calibrator.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/auv_cal/camera_calibrator.py b/src/auv_cal/camera_calibrator.py
index 9fb9ba0..58ba371 100644
--- a/src/auv_cal/camera_calibrator.py
+++ b/src/auv_cal/camera_calibrator.py
@@ -1314,11 +1314,10 @@ class StereoCalibrator(Calibrator):
         if iteration < self.max_iterations - 1 and self.avg_reprojection_error > 0.6:
             epi_error_mean = np.mean(np.array(epipolar_error))
             epi_error_std = np.std(np.array(epipolar_error))
-            self.good_corners = [
-                c
-                for c, e in zip(self.good_corners, epipolar_error)
-                if e < epi_error_mean + 2 * epi_error_std
-            ]
+            keep = [e < epi_error_mean + 2 * epi_error_std for e in epipolar_error]
+            self.good_corners = [c for c, k in zip(self.good_corners, keep) if k]
+            # The images have to stay aligned with their corners
+            self.db = [d for d, k in zip(self.db, keep) if k]
             Console.info(
                 "Using "
                 + str(len(self.good_corners))
-- 
2.43.0


From febe91cb9c9f6e8dc536593597d6202479cc0d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:19 +0000
Subject: [PATCH 084/125] fix: stereo rectification belongs to the calibration
 that is kept

---
 src/auv_cal/camera_calibrator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/auv_cal/camera_calibrator.py b/src/auv_cal/camera_calibrator.py
index 58ba371..a8b4f32 100644
--- a/src/auv_cal/camera_calibrator.py
+++ b/src/auv_cal/camera_calibrator.py
@@ -1344,6 +1344,8 @@ class StereoCalibrator(Calibrator):
             self.avg_reprojection_error = self.calibrations[best_idx][
                 "avg_reprojection_error"
             ]
+            # Rectify with the extrinsics that have been chosen
+            self.set_alpha(1.0)
 
         if self.debug:
             errors = []
-- 
2.43.0


From 9a08769dac904d67c56c75a0919c8d1dce380042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:26 +0000
Subject: [PATCH 085/125] fix: symmetric circle grids have the same orientation
 in both cameras

---
 src/auv_cal/camera_calibrator.py | 48 ++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/src/auv_cal/camera_calibrator.py b/src/auv_cal/camera_calibrator.py
index a8b4f32..2f4011c 100644
--- a/src/auv_cal/camera_calibrator.py
+++ b/src/auv_cal/camera_calibrator.py
@@ -131,6 +131,31 @@ def _get_area(corners, board):
     return abs(p[0] * q[1] - p[1] * q[0]) / 2.0
 
 
+def _orient_corners(corners, board):
+    """
+    Return the corners in the order that starts at the top (left) of the image
+    """
+    # Ensure that all corner-arrays are going from top to bottom.
+    if board.n_rows != board.n_cols:
+        if corners[0, 0, 1] > corners[-1, 0, 1]:
+            corners = numpy.copy(numpy.flipud(corners))
+    else:
+        direction_corners = (corners[-1] - corners[0]) >= numpy.array([[0.0, 0.0]])
+
+        if not numpy.all(direction_corners):
+            if not numpy.any(direction_corners):
+                corners = numpy.copy(numpy.flipud(corners))
+            elif direction_corners[0][0]:
+                corners = numpy.rot90(
+                    corners.reshape(board.n_rows, board.n_cols, 2)
+                ).reshape(board.n_cols * board.n_rows, 1, 2)
+            else:
+                corners = numpy.rot90(
+                    corners.reshape(board.n_rows, board.n_cols, 2), 3
+                ).reshape(board.n_cols * board.n_rows, 1, 2)
+    return corners
+
+
 def _get_corners(img, board, refine=True, checkerboard_flags=0):
     """
     Get corners for a particular chessboard for an image
@@ -166,24 +191,7 @@ def _get_corners(img, board, refine=True, checkerboard_flags=0):
     ):
         ok = False
 
-    # Ensure that all corner-arrays are going from top to bottom.
-    if board.n_rows != board.n_cols:
-        if corners[0, 0, 1] > corners[-1, 0, 1]:
-            corners = numpy.copy(numpy.flipud(corners))
-    else:
-        direction_corners = (corners[-1] - corners[0]) >= numpy.array([[0.0, 0.0]])
-
-        if not numpy.all(direction_corners):
-            if not numpy.any(direction_corners):
-                corners = numpy.copy(numpy.flipud(corners))
-            elif direction_corners[0][0]:
-                corners = numpy.rot90(
-                    corners.reshape(board.n_rows, board.n_cols, 2)
-                ).reshape(board.n_cols * board.n_rows, 1, 2)
-            else:
-                corners = numpy.rot90(
-                    corners.reshape(board.n_rows, board.n_cols, 2), 3
-                ).reshape(board.n_cols * board.n_rows, 1, 2)
+    corners = _orient_corners(corners, board)
 
     if refine and ok:
         # Use a radius of half the minimum distance between corners.
@@ -289,6 +297,10 @@ def _get_circles(img, board, pattern, invert=False):
         (ok, corners) = cv2.findCirclesGrid(
             mono_arr, (board.n_cols, board.n_rows), flags=flag
         )
+    # A symmetric grid can be detected in any orientation, but it has to be the
+    # same one in both cameras of a stereo pair
+    if ok and pattern == Patterns.Circles:
+        corners = _orient_corners(corners, board)
     return (ok, corners)
 
 
-- 
2.43.0


From 793cfd3a0decc66d919617de28a311ce3b400133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:56 +0000
Subject: [PATCH 086/125] fix: sensors are mounted at the frame mission.yaml
 gives for them

---
 src/oplab/vehicle.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/oplab/vehicle.py b/src/oplab/vehicle.py
index 772d4d8..a0756c9 100644
--- a/src/oplab/vehicle.py
+++ b/src/oplab/vehicle.py
@@ -115,20 +115,25 @@ class Vehicle:
                     if "x_offset" in self.data["origin"]:
                         mission_stream = mission_file.open("r")
                         mission_data = yaml.safe_load(mission_stream)
-                if "ins" in self.data:
+                # Frames the sensors are mounted at, as given in mission.yaml
+                ins = getattr(mission.orientation, "origin", "ins")
+                dvl = getattr(mission.velocity, "origin", "dvl")
+                depth = getattr(mission.depth, "origin", "depth")
+                usbl = getattr(mission.usbl, "origin", "usbl")
+                if ins in self.data:
                     if mission_data is not None:
-                        self.ins.load(self.data["ins"], mission_data["orientation"])
+                        self.ins.load(self.data[ins], mission_data["orientation"])
                     else:
-                        self.ins.load(self.data["ins"])
-                if "dvl" in self.data:
+                        self.ins.load(self.data[ins])
+                if dvl in self.data:
                     if mission_data is not None:
-                        self.dvl.load(self.data["dvl"], mission_data["velocity"])
+                        self.dvl.load(self.data[dvl], mission_data["velocity"])
                     else:
-                        self.dvl.load(self.data["dvl"])
-                if "depth" in self.data:
-                    self.depth.load(self.data["depth"])
-                if "usbl" in self.data:
-                    self.usbl.load(self.data["usbl"])
+                        self.dvl.load(self.data[dvl])
+                if depth in self.data:
+                    self.depth.load(self.data[depth])
+                if usbl in self.data:
+                    self.usbl.load(self.data[usbl])
                 if len(mission.image.cameras) > 0:
                     camera_name = mission.image.cameras[0].name
                     if mission.image.cameras[0].origin is not None:
-- 
2.43.0


From b3901bc82afd07188a1825b15bca4fdeca587479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:56 +0000
Subject: [PATCH 087/125] fix: each camera is mounted at its own frame, if it
 has one

---
 src/oplab/mission.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/oplab/mission.py b/src/oplab/mission.py
index e3041d9..b85ee44 100644
--- a/src/oplab/mission.py
+++ b/src/oplab/mission.py
@@ -185,10 +185,10 @@ class ImageEntry(TimeZoneEntry):
         if mission_yaml_version >= 1:
             for camera in node["cameras"]:
                 self.cameras.append(CameraEntry(camera))
-            if "origin" not in node["cameras"][0]:
-                # Assuming that the camera names in mission.yaml corresponds
-                # to the frame names in vehicle.yaml
-                for i, camera in enumerate(self.cameras):
+            # Assuming that the camera names in mission.yaml corresponds
+            # to the frame names in vehicle.yaml, unless a frame is given
+            for camera in self.cameras:
+                if camera.origin is None:
                     camera.origin = camera.name
         else:
             self.cameras.append(CameraEntry())
-- 
2.43.0


From cb301db657581f33033f1b6a20a6b31b799ed5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:56 +0000
Subject: [PATCH 088/125] fix: a payload without frame in vehicle.yaml is
 reported as such

---
 src/oplab/mission.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/oplab/mission.py b/src/oplab/mission.py
index b85ee44..d9e1f3e 100644
--- a/src/oplab/mission.py
+++ b/src/oplab/mission.py
@@ -422,15 +422,14 @@ class Mission:
                         payload = PayloadEntry()
                         payload.load(data["payloads"][payload_entry])
                         self.payloads[payload_entry] = payload
-                        if payload_entry not in vehicle_data["payloads"]:
+                        vehicle_payloads = vehicle_data.get("payloads") or {}
+                        if payload_entry not in vehicle_payloads:
                             Console.error("Cannot find", payload_entry, "in payloads")
-                            Console.info(
-                                'vehicle_data["payloads"]:', vehicle_data["payloads"]
-                            )
+                            Console.info('vehicle_data["payloads"]:', vehicle_payloads)
                             Console.info("current payload:", payload_entry)
                             Console.error(
                                 "The payload mounted at "
-                                + payload.origin
+                                + str(payload_entry)
                                 + " does not correspond to any frame in vehicle.yaml."  # noqa
                             )
                             error_and_exit()
-- 
2.43.0


From 9cb06519fab3081e5b7c54814c3ac186c1588215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:56 +0000
Subject: [PATCH 089/125] fix: payloads of a mission are written

---
 src/oplab/mission.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/oplab/mission.py b/src/oplab/mission.py
index d9e1f3e..68e878c 100644
--- a/src/oplab/mission.py
+++ b/src/oplab/mission.py
@@ -493,12 +493,12 @@ class Mission:
                 if not self.image.empty():
                     mission_dict["image"] = OrderedDict()
                     self.image.write(mission_dict["image"])
-                if len(self.payloads) > 1:
-                    mission_dict["payloads"] = []
-                    for payload in self.payloads:
+                if len(self.payloads) > 0:
+                    mission_dict["payloads"] = OrderedDict()
+                    for name, payload in self.payloads.items():
                         payload_entry = OrderedDict()
                         payload.write(payload_entry)
-                        mission_dict["payloads"].append(payload_entry)
+                        mission_dict["payloads"][name] = payload_entry
                 yaml.dump(
                     mission_dict,
                     f,
-- 
2.43.0


From 19ad385ae9757136828a91626ba3d7d342fecca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:56 +0000
Subject: [PATCH 090/125] fix: a mission is written with all its settings

---
 src/oplab/mission.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/oplab/mission.py b/src/oplab/mission.py
index 68e878c..1f9a242 100644
--- a/src/oplab/mission.py
+++ b/src/oplab/mission.py
@@ -106,6 +106,7 @@ class CameraEntry:
         self.origin = None
         self.type = None
         self.path = None
+        self.topic = None
         self.timeoffset = None
         self.timeoffset_s = 0.0
         if node is not None:
@@ -139,8 +140,11 @@ class CameraEntry:
         node["type"] = self.type
         node["path"] = self.path
         node["records_laser"] = self.records_laser
+        if self.topic is not None:
+            node["topic"] = self.topic
         if hasattr(self, "timeoffset"):
             node["timeoffset"] = self.timeoffset
+        node["timeoffset_s"] = self.timeoffset_s
 
 
 
@@ -279,9 +283,9 @@ class DefaultEntry(TimeZoneEntry):
     def write(self, node):
         super().write(node)
         node["format"] = self.format
-        if "origin" in node:
+        if getattr(self, "origin", None) is not None:
             node["origin"] = self.origin
-        if "topic" in node:
+        if self.topic is not None:
             node["topic"] = self.topic
         node["filepath"] = self.filepath
         node["filename"] = self.filename
@@ -289,6 +293,9 @@ class DefaultEntry(TimeZoneEntry):
         node["id"] = self.label
         node["std_factor"] = self.std_factor
         node["std_offset"] = self.std_offset
+        node["field_id"] = self.field_id
+        node["apply_depth_filter"] = self.apply_depth_filter
+        node["apply_north_east_filter"] = self.apply_north_east_filter
 
 
 class Mission:
-- 
2.43.0


From 5621e8ab5447610adbfff9a7dafafbfbdc7a772d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:48 +0000
Subject: [PATCH 091/125] fix: missions whose origin has no date, as two of the
 examples, can be read

---
 src/oplab/mission.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oplab/mission.py b/src/oplab/mission.py
index 1f9a242..a652b1c 100644
--- a/src/oplab/mission.py
+++ b/src/oplab/mission.py
@@ -90,7 +90,7 @@ class OriginEntry:
         self.latitude = node["latitude"]
         self.longitude = node["longitude"]
         self.crs = node["coordinate_reference_system"]
-        self.date = node["date"]
+        self.date = node.get("date", "")
 
     def write(self, node):
         node["latitude"] = self.latitude
-- 
2.43.0


From 74b12182793339927c29dc4bbe1822dc933ec76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:45 +0000
Subject: [PATCH 092/125] fix: dead reckoning has latitude and longitude also
 without USBL

---
 src/auv_nav/process.py | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index ccec5be..ff6a0c5 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -1114,27 +1114,9 @@ def process(
         for i in range(len(dead_reckoning_centre_list)):
             dead_reckoning_centre_list[i].northings += northings_usbl_interpolated
             dead_reckoning_centre_list[i].eastings += eastings_usbl_interpolated
-            (
-                dead_reckoning_centre_list[i].latitude,
-                dead_reckoning_centre_list[i].longitude,
-            ) = metres_to_latlon(
-                mission.origin.latitude,
-                mission.origin.longitude,
-                dead_reckoning_centre_list[i].eastings,
-                dead_reckoning_centre_list[i].northings,
-            )
         for i in range(len(dead_reckoning_dvl_list)):
             dead_reckoning_dvl_list[i].northings += northings_usbl_interpolated
             dead_reckoning_dvl_list[i].eastings += eastings_usbl_interpolated
-            (
-                dead_reckoning_dvl_list[i].latitude,
-                dead_reckoning_dvl_list[i].longitude,
-            ) = metres_to_latlon(
-                mission.origin.latitude,
-                mission.origin.longitude,
-                dead_reckoning_dvl_list[i].eastings,
-                dead_reckoning_dvl_list[i].northings,
-            )
 
         # offset velocity inertial DR by average usbl estimate
         if len(velocity_inertial_list) > 0:
@@ -1161,6 +1143,17 @@ def process(
     else:
         Console.warn("There are no USBL measurements. Starting DR at origin...")
 
+    for dead_reckoning_item in dead_reckoning_centre_list + dead_reckoning_dvl_list:
+        (
+            dead_reckoning_item.latitude,
+            dead_reckoning_item.longitude,
+        ) = metres_to_latlon(
+            mission.origin.latitude,
+            mission.origin.longitude,
+            dead_reckoning_item.eastings,
+            dead_reckoning_item.northings,
+        )
+
     # particle filter data fusion of usbl_data and dvl_imu_data
     if particle_filter_activate and len(usbl_list) > 0:
         Console.info("Running PF...")
-- 
2.43.0


From 08626d81f6d61bc266feaeb2d04aceb98cb92638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:45 +0000
Subject: [PATCH 093/125] fix: tables with a single row are written, a single
 image gets its pose

---
 src/auv_nav/process.py         | 16 ++++++++--------
 src/auv_nav/tools/csv_tools.py |  2 +-
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index ff6a0c5..aa25e16 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -1230,7 +1230,7 @@ def process(
     ]
     latlon_reference = [mission.origin.latitude, mission.origin.longitude]
 
-    if len(camera1_dr_list) > 1:
+    if len(camera1_dr_list) > 0:
         interpolate_sensor_list(
             camera1_dr_list,
             mission.image.cameras[0].name,
@@ -1239,7 +1239,7 @@ def process(
             latlon_reference,
             dead_reckoning_centre_list,
         )
-    if len(camera2_dr_list) > 1:
+    if len(camera2_dr_list) > 0:
         interpolate_sensor_list(
             camera2_dr_list,
             mission.image.cameras[1].name,
@@ -1248,7 +1248,7 @@ def process(
             latlon_reference,
             dead_reckoning_centre_list,
         )
-    if len(camera3_dr_list) > 1 and camera3_dr_list[0].epoch_timestamp is not None:
+    if len(camera3_dr_list) > 0 and camera3_dr_list[0].epoch_timestamp is not None:
         if len(mission.image.cameras) > 2:
             interpolate_sensor_list(
                 camera3_dr_list,
@@ -1269,7 +1269,7 @@ def process(
             )
 
     if len(pf_fusion_centre_list) > 1:
-        if len(camera1_pf_list) > 1:
+        if len(camera1_pf_list) > 0:
             interpolate_sensor_list(
                 camera1_pf_list,
                 mission.image.cameras[0].name,
@@ -1278,7 +1278,7 @@ def process(
                 latlon_reference,
                 pf_fusion_centre_list,
             )
-        if len(camera2_pf_list) > 1:
+        if len(camera2_pf_list) > 0:
             interpolate_sensor_list(
                 camera2_pf_list,
                 mission.image.cameras[1].name,
@@ -1287,7 +1287,7 @@ def process(
                 latlon_reference,
                 pf_fusion_centre_list,
             )
-        if len(camera3_pf_list) > 1:
+        if len(camera3_pf_list) > 0:
             if len(mission.image.cameras) > 2:
                 interpolate_sensor_list(
                     camera3_pf_list,
@@ -1871,7 +1871,7 @@ def process(
                 )
                 t.start()
                 threads.append(t)
-        if len(camera2_dr_list) > 1:
+        if len(camera2_dr_list) > 0:
             t = threading.Thread(
                 target=write_csv,
                 args=[
@@ -1907,7 +1907,7 @@ def process(
                 )
                 t.start()
                 threads.append(t)
-        if len(camera3_dr_list) > 1:
+        if len(camera3_dr_list) > 0:
             if len(mission.image.cameras) > 2:
                 t = threading.Thread(
                     target=write_csv,
diff --git a/src/auv_nav/tools/csv_tools.py b/src/auv_nav/tools/csv_tools.py
index 35d0207..05b4765 100644
--- a/src/auv_nav/tools/csv_tools.py
+++ b/src/auv_nav/tools/csv_tools.py
@@ -45,7 +45,7 @@ def write_csv(
     csv_flag: Optional[bool] = True,
     mutex: Optional[Lock] = None,
 ):
-    if csv_flag is True and len(data_list) > 1:
+    if csv_flag is True and len(data_list) > 0:
         csv_file = Path(csv_filepath)
 
         if not csv_file.exists():
-- 
2.43.0


From 3bafc6f70db420aaf00993fcc0b5d6ee1885caa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:45 +0000
Subject: [PATCH 094/125] fix: images and payload samples that all lie outside
 the track are not listed without a pose

---
 src/auv_nav/tools/interpolate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/auv_nav/tools/interpolate.py b/src/auv_nav/tools/interpolate.py
index 6679f80..b0ed6a3 100644
--- a/src/auv_nav/tools/interpolate.py
+++ b/src/auv_nav/tools/interpolate.py
@@ -334,6 +334,7 @@ def interpolate_sensor_list(
             "{} timestamps does not overlap with dead reckoning data, "
             "check timestamp_history.pdf via -v option.".format(sensor_name)
         )
+        del sensor_list[:]
     else:
         sensor_overlap_flag = 0
         for i in range(len(sensor_list)):
-- 
2.43.0


From c28bcf49326758973566b6207226ae16b409e245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:45 +0000
Subject: [PATCH 095/125] fix: particle filter tables are not written when the
 filter did not run

---
 src/auv_nav/process.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index aa25e16..f64beaa 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -1306,6 +1306,11 @@ def process(
                     latlon_reference,
                     pf_fusion_centre_list,
                 )
+    else:
+        # the filter did not run, there are no poses to write
+        camera1_pf_list = []
+        camera2_pf_list = []
+        camera3_pf_list = []
 
     usbl_to_dvl = [
         vehicle.dvl.surge - vehicle.usbl.surge,
@@ -1587,7 +1592,9 @@ def process(
                 latlon_reference,
                 dead_reckoning_centre_list,
             )
-        if len(pf_fusion_centre_list) > 1 and "_pf" in key:
+        if len(pf_fusion_centre_list) <= 1 and "_pf" in key:
+            payload_dict[key] = []
+        elif "_pf" in key:
             interpolate_sensor_list(
                 payload_dict[key],
                 key,
-- 
2.43.0


From a6de74bf42880f95193250355f84c60a2fa3f985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:53 +0000
Subject: [PATCH 096/125] fix: EKF attitude uncertainty of the linear model
 grows with the size of an angle, not its sign

---
 src/auv_nav/localisation/ekf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/auv_nav/localisation/ekf.py b/src/auv_nav/localisation/ekf.py
index 75524ea..9b85b34 100644
--- a/src/auv_nav/localisation/ekf.py
+++ b/src/auv_nav/localisation/ekf.py
@@ -335,17 +335,17 @@ class Measurement(object):
             imu_noise_std_offset = self.sensors_std["orientation"]["offset"]
             imu_noise_std_factor = self.sensors_std["orientation"]["factor"]
             self.covariance[Index.ROLL, Index.ROLL] = (
-                (imu_noise_std_offset + value.roll * imu_noise_std_factor)
+                (imu_noise_std_offset + abs(value.roll) * imu_noise_std_factor)
                 * math.pi
                 / 180.0
             ) ** 2
             self.covariance[Index.PITCH, Index.PITCH] = (
-                (imu_noise_std_offset + value.pitch * imu_noise_std_factor)
+                (imu_noise_std_offset + abs(value.pitch) * imu_noise_std_factor)
                 * math.pi
                 / 180.0
             ) ** 2
             self.covariance[Index.YAW, Index.YAW] = (
-                (imu_noise_std_offset + value.yaw * imu_noise_std_factor)
+                (imu_noise_std_offset + abs(value.yaw) * imu_noise_std_factor)
                 * math.pi
                 / 180.0
             ) ** 2
-- 
2.43.0


From 1adbe55ae4e04096c799e0ebd4ec7611ebc71e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:03 +0000
Subject: [PATCH 097/125] fix: koyo21rov, ntnu_dvl and eiva_navipac times are
 read in the zone of the log, not of the machine

---
 src/auv_nav/parsers/parse_eiva_navipac.py | 23 +++++++++----
 src/auv_nav/parsers/parse_koyo21rov.py    | 21 ++++++++----
 src/auv_nav/parsers/parse_ntnu_dvl.py     | 14 ++++++--
 src/auv_nav/sensors.py                    | 39 +++++++++++++++--------
 src/auv_nav/tools/time_conversions.py     |  6 ++++
 5 files changed, 73 insertions(+), 30 deletions(-)

diff --git a/src/auv_nav/parsers/parse_eiva_navipac.py b/src/auv_nav/parsers/parse_eiva_navipac.py
index 7e2bd78..0d65dab 100644
--- a/src/auv_nav/parsers/parse_eiva_navipac.py
+++ b/src/auv_nav/parsers/parse_eiva_navipac.py
@@ -7,6 +7,7 @@ See LICENSE.md file in the project root for full license information.
 """
 
 from auv_nav.sensors import Category, Depth, Orientation, Usbl
+from auv_nav.tools.time_conversions import read_timezone
 from oplab import Console, get_raw_folder
 
 
@@ -17,15 +18,17 @@ def parse_eiva_navipac(mission, vehicle, category, output_format, outpath):
     category_str = None
     if category == Category.ORIENTATION:
         category_str = "orientation"
-        filepath = mission.orientation.filepath
+        entry = mission.orientation
     elif category == Category.DEPTH:
         category_str = "depth"
-        filepath = mission.depth.filepath
+        entry = mission.depth
     elif category == Category.USBL:
         category_str = "usbl"
-        filepath = mission.usbl.filepath
+        entry = mission.usbl
 
-    log_file_path = get_raw_folder(outpath / ".." / filepath)
+    timezone_offset = read_timezone(entry.timezone)
+    timeoffset_s = entry.timeoffset_s
+    log_file_path = get_raw_folder(outpath / ".." / entry.filepath)
 
     depth_std_factor = mission.depth.std_factor
     orientation_std_offset = mission.orientation.std_offset
@@ -58,7 +61,9 @@ def parse_eiva_navipac(mission, vehicle, category, output_format, outpath):
                 # For each line in the file
                 for line in filein.readlines():
                     if line.startswith("R132  4") and "$PRDID" in line:
-                        orientation.from_eiva_navipac(line)
+                        orientation.from_eiva_navipac(
+                            line, timezone_offset, timeoffset_s
+                        )
                         num_entries += 1
                         if orientation.roll is None:
                             continue
@@ -70,7 +75,9 @@ def parse_eiva_navipac(mission, vehicle, category, output_format, outpath):
                 Console.info("... parsing depth")
                 for line in filein.readlines():
                     if line[0:14] == "D     " + str(usbl_id) + "  19  1":
-                        depth.from_eiva_navipac(line)
+                        depth.from_eiva_navipac(
+                            line, timezone_offset, timeoffset_s
+                        )
                         num_entries += 1
                         if depth.valid():
                             num_valid_entries += 1
@@ -81,7 +88,9 @@ def parse_eiva_navipac(mission, vehicle, category, output_format, outpath):
                 for line in filein.readlines():
                     if line.startswith("P  D") and int(line[6:10]) == usbl_id:
                         num_entries += 1
-                        usbl.from_eiva_navipac(line)
+                        usbl.from_eiva_navipac(
+                            line, timezone_offset, timeoffset_s
+                        )
                         if usbl.valid():
                             num_valid_entries += 1
                             data = usbl.export(output_format)
diff --git a/src/auv_nav/parsers/parse_koyo21rov.py b/src/auv_nav/parsers/parse_koyo21rov.py
index 6acefac..089230e 100644
--- a/src/auv_nav/parsers/parse_koyo21rov.py
+++ b/src/auv_nav/parsers/parse_koyo21rov.py
@@ -5,12 +5,13 @@ All rights reserved.
 Licensed under the BSD 3-Clause License.
 See LICENSE.md file in the project root for full license information.
 """
-import time
+from datetime import datetime
 from math import isnan
 
 import pandas as pd
 
 from auv_nav.sensors import Altitude, BodyVelocity, Category, Depth, Orientation, Usbl
+from auv_nav.tools.time_conversions import naive_datetime_to_epoch, read_timezone
 from oplab import Console, get_raw_folder
 
 
@@ -32,6 +33,10 @@ def parse_koyo21rov(mission, vehicle, category, ftype, outpath):
         filename = mission.orientation.filename
         filepath = mission.orientation.filepath
 
+    entry = getattr(mission, category)
+    timezone_offset = read_timezone(entry.timezone)
+    timeoffset_s = entry.timeoffset_s
+
     # ALR std models
     depth_std_factor = mission.depth.std_factor
     # velocity_std_factor = mission.velocity.std_factor
@@ -83,18 +88,22 @@ def parse_koyo21rov(mission, vehicle, category, ftype, outpath):
     if "timestamp" in mission_data.columns:
         # filtered position. Convert on the fly using a lambda function
         mission_data["epoch_timestamp"] = mission_data.apply(
-            lambda row: time.mktime(
-                time.strptime(row["timestamp"], "%Y-%m-%d %H:%M:%S")
+            lambda row: naive_datetime_to_epoch(
+                datetime.strptime(row["timestamp"], "%Y-%m-%d %H:%M:%S"),
+                timezone_offset,
+                timeoffset_s,
             ),
             axis=1,
         )
     else:
         # raw data
         mission_data["epoch_timestamp"] = mission_data.apply(
-            lambda row: time.mktime(
-                time.strptime(
+            lambda row: naive_datetime_to_epoch(
+                datetime.strptime(
                     str(row["Date"]) + " " + str(row["Time"]), "%Y/%m/%d %H:%M:%S"
-                )
+                ),
+                timezone_offset,
+                timeoffset_s,
             ),
             axis=1,
         )
diff --git a/src/auv_nav/parsers/parse_ntnu_dvl.py b/src/auv_nav/parsers/parse_ntnu_dvl.py
index a3d5e98..fafd967 100644
--- a/src/auv_nav/parsers/parse_ntnu_dvl.py
+++ b/src/auv_nav/parsers/parse_ntnu_dvl.py
@@ -9,6 +9,7 @@ See LICENSE.md file in the project root for full license information.
 import pandas as pd
 
 from auv_nav.sensors import Altitude, BodyVelocity, Category
+from auv_nav.tools.time_conversions import read_timezone
 from oplab import Console, get_raw_folder
 
 header_list = [
@@ -88,12 +89,15 @@ def parse_ntnu_dvl(mission, vehicle, category, output_format, outpath):
     log_file_path = get_raw_folder(outpath / ".." / filepath)
 
     category_str = None
+    entry = mission.velocity
     if category == Category.VELOCITY:
         category_str = "velocity"
     elif category == Category.ALTITUDE:
         category_str = "altitude"
+        entry = mission.altitude
 
-    # TODO handle timezone and timeoffsets
+    timezone_offset = read_timezone(entry.timezone)
+    timeoffset_s = entry.timeoffset_s
 
     velocity_std_factor = mission.velocity.std_factor
     velocity_std_offset = mission.velocity.std_offset
@@ -119,7 +123,9 @@ def parse_ntnu_dvl(mission, vehicle, category, output_format, outpath):
             Console.info("... parsing velocity")
             # For each row in the file
             for index, row in df.iterrows():
-                body_velocity.from_ntnu_dvl(str(log_file.name), row)
+                body_velocity.from_ntnu_dvl(
+                    str(log_file.name), row, timezone_offset, timeoffset_s
+                )
                 num_entries += 1
                 if body_velocity.valid():
                     # DVL provides -32 when no bottom lock
@@ -131,7 +137,9 @@ def parse_ntnu_dvl(mission, vehicle, category, output_format, outpath):
             # For each row in the file
             for index, row in df.iterrows():
                 num_entries += 1
-                altitude.from_ntnu_dvl(str(log_file.name), row)
+                altitude.from_ntnu_dvl(
+                    str(log_file.name), row, timezone_offset, timeoffset_s
+                )
                 if altitude.valid():
                     num_valid_entries += 1
                     data = altitude.export(output_format)
diff --git a/src/auv_nav/sensors.py b/src/auv_nav/sensors.py
index 21ef0a6..8ccc802 100644
--- a/src/auv_nav/sensors.py
+++ b/src/auv_nav/sensors.py
@@ -17,6 +17,7 @@ import pynmea2
 
 from auv_nav.tools.body_to_inertial import body_to_inertial
 from auv_nav.tools.latlon_wgs84 import latlon_to_metres, metres_to_latlon
+from auv_nav.tools.time_conversions import naive_datetime_to_epoch
 from auv_nav.tools.transformations import euler_from_quaternion
 from oplab import Console
 
@@ -222,12 +223,14 @@ class BodyVelocity(OutputFormat):
         self.z_velocity_std = self.get_std(vz)
         self.epoch_timestamp_dvl = self.parse_dvl_time(line)
 
-    def from_ntnu_dvl(self, filename, line):
+    def from_ntnu_dvl(self, filename, line, timezone_offset=0, timeoffset_s=0):
         self.sensor_string = "ntnu_dvl"
         date_obj = datetime.datetime.strptime(filename[0:8], "%Y%m%d")
         time_obj = datetime.datetime.strptime(line["time"], "%H:%M:%S.%f")
         date_time_obj = datetime.datetime.combine(date_obj, time_obj.time())
-        self.epoch_timestamp = date_time_obj.timestamp()
+        self.epoch_timestamp = naive_datetime_to_epoch(
+            date_time_obj, timezone_offset, timeoffset_s
+        )
         self.epoch_timestamp_dvl = self.epoch_timestamp
         vx = float(line["u_dvl"])
         vy = float(line["v_dvl"])
@@ -652,15 +655,17 @@ class Orientation(OutputFormat):
         self.roll_std = roll_std
         self.pitch_std = pitch_std
 
-    def from_eiva_navipac(self, line):
+    def from_eiva_navipac(self, line, timezone_offset=0, timeoffset_s=0):
         self.sensor_string = "eiva_navipac"
         parts = line.split()
         date_time_obj = datetime.datetime.strptime(parts[2], "%Y:%m:%d:%H:%M:%S.%f")
-        self.epoch_timestamp = date_time_obj.timestamp()
-        if self.epoch_timestamp == 0:
+        if naive_datetime_to_epoch(date_time_obj) == 0:
             # Invalid timestamp
             self.epoch_timestamp = None
             return
+        self.epoch_timestamp = naive_datetime_to_epoch(
+            date_time_obj, timezone_offset, timeoffset_s
+        )
 
         nmea_string = parts[3].replace("\n", "")
         msg = pynmea2.parse(nmea_string)
@@ -889,16 +894,18 @@ class Depth(OutputFormat):
         if self.depth_std == 0:
             self.depth_std = self.depth * self.depth_std_factor
 
-    def from_eiva_navipac(self, line):
+    def from_eiva_navipac(self, line, timezone_offset=0, timeoffset_s=0):
         self.sensor_string = "eiva_navipac"
         parts = line.split()
         date_time_obj = datetime.datetime.strptime(parts[4], "%Y:%m:%d:%H:%M:%S.%f")
-        self.epoch_timestamp = date_time_obj.timestamp()
-        self.depth_timestamp = self.epoch_timestamp
-        if self.epoch_timestamp == 0:
+        if naive_datetime_to_epoch(date_time_obj) == 0:
             # Invalid timestamp
             self.epoch_timestamp = None
             return
+        self.epoch_timestamp = naive_datetime_to_epoch(
+            date_time_obj, timezone_offset, timeoffset_s
+        )
+        self.depth_timestamp = self.epoch_timestamp
         self.depth = float(parts[5])
         self.depth_std = self.depth * self.depth_std_factor
 
@@ -1043,12 +1050,14 @@ class Altitude(OutputFormat):
         self.altitude_timestamp = self.epoch_timestamp
         self.altitude_std = self.altitude * self.altitude_std_factor
 
-    def from_ntnu_dvl(self, filename, row):
+    def from_ntnu_dvl(self, filename, row, timezone_offset=0, timeoffset_s=0):
         self.sensor_string = "ntnu_dvl"
         date_obj = datetime.datetime.strptime(filename[0:8], "%Y%m%d")
         time_obj = datetime.datetime.strptime(row["time"], "%H:%M:%S.%f")
         date_time_obj = datetime.datetime.combine(date_obj, time_obj.time())
-        self.epoch_timestamp = date_time_obj.timestamp()
+        self.epoch_timestamp = naive_datetime_to_epoch(
+            date_time_obj, timezone_offset, timeoffset_s
+        )
         self.altitude_timestamp = self.epoch_timestamp
         # alt0 = float(row["dvl_alt0"])  # fore
         alt1 = float(row["dvl_alt1"])  # left
@@ -1277,15 +1286,17 @@ class Usbl(OutputFormat):
             Console.quit("USBL ROS parser for", msg_type, "not supported.")
         self.epoch_timestamp = ros_stamp_to_epoch(msg.header.stamp) - self.tz_offset_s
 
-    def from_eiva_navipac(self, line):
+    def from_eiva_navipac(self, line, timezone_offset=0, timeoffset_s=0):
         self.sensor_string = "eiva_navipac"
         parts = line.split()
         date_time_obj = datetime.datetime.strptime(parts[3], "%Y:%m:%d:%H:%M:%S.%f")
-        self.epoch_timestamp = date_time_obj.timestamp()
-        if self.epoch_timestamp == 0:
+        if naive_datetime_to_epoch(date_time_obj) == 0:
             # Invalid timestamp
             self.epoch_timestamp = None
             return
+        self.epoch_timestamp = naive_datetime_to_epoch(
+            date_time_obj, timezone_offset, timeoffset_s
+        )
         self.latitude = float(parts[7])
         self.longitude = float(parts[8])
         self.depth = -float(parts[6])
diff --git a/src/auv_nav/tools/time_conversions.py b/src/auv_nav/tools/time_conversions.py
index 9827b7e..14d8218 100644
--- a/src/auv_nav/tools/time_conversions.py
+++ b/src/auv_nav/tools/time_conversions.py
@@ -31,6 +31,12 @@ def date_time_to_epoch(
     return epochtime
 
 
+def naive_datetime_to_epoch(naive_datetime, timezone_offset_to_utc=0, timeoffset_s=0):
+    """Epoch of a time read from a log, whatever the time zone of this machine"""
+    epoch = naive_datetime.replace(tzinfo=timezone.utc).timestamp()
+    return epoch - timezone_offset_to_utc * 3600 + timeoffset_s
+
+
 def epoch_to_localtime(epochtime):
     localtime = time.localtime(epochtime)
     return localtime
-- 
2.43.0


From 06cc85bbf732cf354a629a8c87ad257384ff840c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:03 +0000
Subject: [PATCH 098/125] fix: sonardyne times are read in the zone of the log,
 not of the machine, and can be processed

---
 src/auv_nav/parsers/parse_sonardyne_mrt.py | 54 ++++++++++++----------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/src/auv_nav/parsers/parse_sonardyne_mrt.py b/src/auv_nav/parsers/parse_sonardyne_mrt.py
index ed7bfaf..1f852ef 100644
--- a/src/auv_nav/parsers/parse_sonardyne_mrt.py
+++ b/src/auv_nav/parsers/parse_sonardyne_mrt.py
@@ -8,7 +8,7 @@ import pandas as pd
 import re
 from auv_nav.sensors import Category
 from auv_nav.tools.latlon_wgs84 import latlon_to_metres, metres_to_latlon
-from auv_nav.tools.time_conversions import read_timezone
+from auv_nav.tools.time_conversions import naive_datetime_to_epoch, read_timezone
 from oplab import Console, get_raw_folder
 
 
@@ -33,9 +33,9 @@ class MRTBase:  # 9
 
     def __post_init__(self):
         try:
-            self.epoch_timestamp = datetime.datetime.strptime(
-                self.time_stamp, "%Y-%m-%d %H:%M:%S.%f"
-            ).timestamp()
+            self.epoch_timestamp = naive_datetime_to_epoch(
+                datetime.datetime.strptime(self.time_stamp, "%Y-%m-%d %H:%M:%S.%f")
+            )
         except ValueError:
             pass
 
@@ -560,6 +560,8 @@ def find_closest_observations(observations):
     heading_observations = []
 
     for obs in observations:
+        if getattr(obs, "epoch_timestamp", None) is None:
+            continue
         if type(obs) == LatLongObs:
             if obs.source_name == "AUV 1":
                 auv_observations.append(obs)
@@ -759,7 +761,7 @@ def parse_sonardyne_gga(mission, vehicle, category, ftype, outpath):
     timeoffset = mission.usbl.timeoffset_s
 
     timezone_offset_h = read_timezone(timezone)
-    timeoffset_s = -timezone_offset_h * 60 * 60 - timeoffset
+    timeoffset_s = -timezone_offset_h * 60 * 60 + timeoffset
 
     filepath = mission.usbl.filepath
     filename = mission.usbl.filename
@@ -798,7 +800,9 @@ def parse_sonardyne_gga(mission, vehicle, category, ftype, outpath):
     the closest_observation like mrc_csv"""
 
     # auv_observations = find_closest_observations(all_observations)
-    auv_observations = all_observations
+    auv_observations = [
+        obs for obs in all_observations if obs.epoch_timestamp is not None
+    ]
     data_list = []
 
     # Calculate the distance between the two
@@ -821,8 +825,7 @@ def parse_sonardyne_gga(mission, vehicle, category, ftype, outpath):
         )
 
         data = {
-            "epoch_timestamp": datetime.datetime.strptime(auv_obs.time_stamp, "%Y-%m-%d %H:%M:%S.%f"
-        ).timestamp() + timeoffset_s,
+            "epoch_timestamp": auv_obs.epoch_timestamp + timeoffset_s,
             "class": class_string,
             "sensor": sensor_string,
             "frame": frame_string,
@@ -859,7 +862,7 @@ def parse_sonardyne_gga(mission, vehicle, category, ftype, outpath):
                     "depth": float(depth),
                     "depth_std": 0.0,
                 },
-                {"distance_to_ship": ""},
+                {"distance_to_ship": -1.0},
             ],
         }
         data_list.append(data)
@@ -881,7 +884,7 @@ def parse_sonardyne_gga2(mission, vehicle, category, ftype, outpath):
     timeoffset = mission.usbl.timeoffset_s
 
     timezone_offset_h = read_timezone(timezone)
-    timeoffset_s = -timezone_offset_h * 60 * 60 - timeoffset
+    timeoffset_s = -timezone_offset_h * 60 * 60 + timeoffset
 
     filepath = mission.usbl.filepath
     filename = mission.usbl.filename
@@ -921,7 +924,9 @@ def parse_sonardyne_gga2(mission, vehicle, category, ftype, outpath):
     the closest_observation like mrc_csv"""
 
     # auv_observations = find_closest_observations(all_observations)
-    auv_observations = all_observations
+    auv_observations = [
+        obs for obs in all_observations if obs.epoch_timestamp is not None
+    ]
     data_list = []
 
     # Calculate the distance between the two
@@ -944,8 +949,7 @@ def parse_sonardyne_gga2(mission, vehicle, category, ftype, outpath):
         )
 
         data = {
-            "epoch_timestamp": datetime.datetime.strptime(auv_obs.time_stamp, "%Y-%m-%d %H:%M:%S.%f"
-        ).timestamp() + timeoffset_s,
+            "epoch_timestamp": auv_obs.epoch_timestamp + timeoffset_s,
             "class": class_string,
             "sensor": sensor_string,
             "frame": frame_string,
@@ -982,7 +986,7 @@ def parse_sonardyne_gga2(mission, vehicle, category, ftype, outpath):
                     "depth": float(depth),
                     "depth_std": 0.0,
                 },
-                {"distance_to_ship": ""},
+                {"distance_to_ship": -1.0},
             ],
         }
         data_list.append(data)
@@ -1004,7 +1008,7 @@ def parse_sonardyne_gga3(mission, vehicle, category, ftype, outpath):
     timeoffset = mission.usbl.timeoffset_s
 
     timezone_offset_h = read_timezone(timezone)
-    timeoffset_s = -timezone_offset_h * 60 * 60 - timeoffset
+    timeoffset_s = -timezone_offset_h * 60 * 60 + timeoffset
 
     filepath = mission.usbl.filepath
     filename = mission.usbl.filename
@@ -1044,7 +1048,9 @@ def parse_sonardyne_gga3(mission, vehicle, category, ftype, outpath):
     the closest_observation like mrc_csv"""
 
     # auv_observations = find_closest_observations(all_observations)
-    auv_observations = all_observations
+    auv_observations = [
+        obs for obs in all_observations if obs.epoch_timestamp is not None
+    ]
     data_list = []
 
     # Calculate the distance between the two
@@ -1067,8 +1073,7 @@ def parse_sonardyne_gga3(mission, vehicle, category, ftype, outpath):
         )
 
         data = {
-            "epoch_timestamp": datetime.datetime.strptime(auv_obs.time_stamp, "%Y-%m-%d %H:%M:%S.%f"
-        ).timestamp() + timeoffset_s,
+            "epoch_timestamp": auv_obs.epoch_timestamp + timeoffset_s,
             "class": class_string,
             "sensor": sensor_string,
             "frame": frame_string,
@@ -1105,7 +1110,7 @@ def parse_sonardyne_gga3(mission, vehicle, category, ftype, outpath):
                     "depth": float(depth),
                     "depth_std": 0.0,
                 },
-                {"distance_to_ship": ""},
+                {"distance_to_ship": -1.0},
             ],
         }
         data_list.append(data)
@@ -1127,7 +1132,7 @@ def parse_sonardyne_gga4(mission, vehicle, category, ftype, outpath):
     timeoffset = mission.usbl.timeoffset_s
 
     timezone_offset_h = read_timezone(timezone)
-    timeoffset_s = -timezone_offset_h * 60 * 60 - timeoffset
+    timeoffset_s = -timezone_offset_h * 60 * 60 + timeoffset
 
     filepath = mission.usbl.filepath
     filename = mission.usbl.filename
@@ -1167,7 +1172,9 @@ def parse_sonardyne_gga4(mission, vehicle, category, ftype, outpath):
     the closest_observation like mrc_csv"""
 
     # auv_observations = find_closest_observations(all_observations)
-    auv_observations = all_observations
+    auv_observations = [
+        obs for obs in all_observations if obs.epoch_timestamp is not None
+    ]
     data_list = []
 
     # Calculate the distance between the two
@@ -1190,8 +1197,7 @@ def parse_sonardyne_gga4(mission, vehicle, category, ftype, outpath):
         )
 
         data = {
-            "epoch_timestamp": datetime.datetime.strptime(auv_obs.time_stamp, "%Y-%m-%d %H:%M:%S.%f"
-        ).timestamp() + timeoffset_s,
+            "epoch_timestamp": auv_obs.epoch_timestamp + timeoffset_s,
             "class": class_string,
             "sensor": sensor_string,
             "frame": frame_string,
@@ -1228,7 +1234,7 @@ def parse_sonardyne_gga4(mission, vehicle, category, ftype, outpath):
                     "depth": float(depth),
                     "depth_std": 0.0,
                 },
-                {"distance_to_ship": ""},
+                {"distance_to_ship": -1.0},
             ],
         }
         data_list.append(data)
-- 
2.43.0


From 19be758a07ef6977e2d817ff5ff56d745ebde508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:03 +0000
Subject: [PATCH 099/125] fix: voyis images with a system time are read, laser
 images keep their own names

---
 src/auv_nav/parsers/parse_voyis.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/auv_nav/parsers/parse_voyis.py b/src/auv_nav/parsers/parse_voyis.py
index ea2ab6b..ed59228 100644
--- a/src/auv_nav/parsers/parse_voyis.py
+++ b/src/auv_nav/parsers/parse_voyis.py
@@ -55,7 +55,7 @@ def parse_voyis_images(mission, vehicle, category, ftype, outpath):
     timeoffset = mission.image.timeoffset_s
 
     timezone_offset_h = read_timezone(timezone)
-    timeoffset_s = -timezone_offset_h * 60 * 60 - timeoffset
+    timeoffset_s = -timezone_offset_h * 60 * 60 + timeoffset
 
     if stills_flag == True:
         stills_filename_to_date_PPS = FilenameToDate(stills_format_PPS)
@@ -68,7 +68,7 @@ def parse_voyis_images(mission, vehicle, category, ftype, outpath):
         for i, img in enumerate(stills_image_list):
             if str(Path(img).name)[15:18]=='PPS':
                 epoch = stills_filename_to_date_PPS(str(Path(img).name))
-            elif str(Path(img).name)[15:18]=='SYSTEM':
+            elif str(Path(img).name)[15:21]=='SYSTEM':
                 epoch = stills_filename_to_date_SYS(str(Path(img).name))
             data = {
                 "epoch_timestamp": float(epoch)+timeoffset_s,
@@ -96,7 +96,7 @@ def parse_voyis_images(mission, vehicle, category, ftype, outpath):
         for i, img in enumerate(laser_image_list):
             if str(Path(img).name[16:19])=='PPS':
                 epoch = laser_filename_to_date_PPS(str(Path(img).name))
-            elif str(Path(img).name[16:19])=='SYSTEM':
+            elif str(Path(img).name[16:22])=='SYSTEM':
                 epoch = laser_filename_to_date_SYS(str(Path(img).name))        
             data = {
                 "epoch_timestamp": float(epoch)+timeoffset_s,
@@ -107,7 +107,7 @@ def parse_voyis_images(mission, vehicle, category, ftype, outpath):
                 "camera1": [
                     {
                         "epoch_timestamp": float(epoch)+timeoffset_s,
-                        "filename": str(stills_image_list_rel[i]),
+                        "filename": str(laser_image_list_rel[i]),
                     }
                 ],
             }
-- 
2.43.0


From 7573bd2bce8340969f656060c0bfef07351253f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:03 +0000
Subject: [PATCH 100/125] fix: uncertainties of readings above the surface are
 not negative, those of nmea fixes follow the model

---
 src/auv_nav/sensors.py | 58 ++++++++++++++----------------------------
 1 file changed, 19 insertions(+), 39 deletions(-)

diff --git a/src/auv_nav/sensors.py b/src/auv_nav/sensors.py
index 8ccc802..dbf1774 100644
--- a/src/auv_nav/sensors.py
+++ b/src/auv_nav/sensors.py
@@ -892,7 +892,7 @@ class Depth(OutputFormat):
         self.epoch_timestamp = ros_stamp_to_epoch(msg.header.stamp) - self.tz_offset_s
         self.depth_timestamp = self.epoch_timestamp
         if self.depth_std == 0:
-            self.depth_std = self.depth * self.depth_std_factor
+            self.depth_std = abs(self.depth) * self.depth_std_factor
 
     def from_eiva_navipac(self, line, timezone_offset=0, timeoffset_s=0):
         self.sensor_string = "eiva_navipac"
@@ -907,30 +907,30 @@ class Depth(OutputFormat):
         )
         self.depth_timestamp = self.epoch_timestamp
         self.depth = float(parts[5])
-        self.depth_std = self.depth * self.depth_std_factor
+        self.depth_std = abs(self.depth) * self.depth_std_factor
 
     def from_alr(self, t, d):
         self.epoch_timestamp = t
         self.depth_timestamp = self.epoch_timestamp
         self.depth = d
-        self.depth_std = self.depth * self.depth_std_factor
+        self.depth_std = abs(self.depth) * self.depth_std_factor
 
     def from_koyo21rov(self, t, d):
         self.epoch_timestamp = t
         self.depth_timestamp = self.epoch_timestamp
         self.depth = d
-        self.depth_std = self.depth * self.depth_std_factor
+        self.depth_std = abs(self.depth) * self.depth_std_factor
 
     def from_autosub(self, data, i):
         self.epoch_timestamp = data["eTime"][i]
         self.depth_timestamp = self.epoch_timestamp
         self.depth = data["DepCtldepth"][i]
-        self.depth_std = self.depth * self.depth_std_factor
+        self.depth_std = abs(self.depth) * self.depth_std_factor
 
     def from_phins(self, line):
         self.sensor_string = "phins"
         self.depth = float(line[2])
-        self.depth_std = self.depth * self.depth_std_factor
+        self.depth_std = abs(self.depth) * self.depth_std_factor
         self.depth_timestamp = None
         time_string = str(line[3])
         hour = int(time_string[0:2])
@@ -1048,7 +1048,7 @@ class Altitude(OutputFormat):
             Console.quit("Altitude ROS parser for", msg_type, "not supported.")
         self.epoch_timestamp = ros_stamp_to_epoch(msg.header.stamp) - self.tz_offset_s
         self.altitude_timestamp = self.epoch_timestamp
-        self.altitude_std = self.altitude * self.altitude_std_factor
+        self.altitude_std = abs(self.altitude) * self.altitude_std_factor
 
     def from_ntnu_dvl(self, filename, row, timezone_offset=0, timeoffset_s=0):
         self.sensor_string = "ntnu_dvl"
@@ -1064,25 +1064,25 @@ class Altitude(OutputFormat):
         # alt2 = float(row["dvl_alt2"])  # right
         alt3 = float(row["dvl_alt3"])  # aft
         self.altitude = (alt1 + alt3) / 2.0
-        self.altitude_std = self.altitude * self.altitude_std_factor
+        self.altitude_std = abs(self.altitude) * self.altitude_std_factor
 
     def from_alr(self, t, a):
         self.epoch_timestamp = t
         self.altitude_timestamp = self.epoch_timestamp
         self.altitude = a
-        self.altitude_std = self.altitude * self.altitude_std_factor
+        self.altitude_std = abs(self.altitude) * self.altitude_std_factor
 
     def from_koyo21rov(self, t, a):
         self.epoch_timestamp = t
         self.altitude_timestamp = self.epoch_timestamp
         self.altitude = a
-        self.altitude_std = self.altitude * self.altitude_std_factor
+        self.altitude_std = abs(self.altitude) * self.altitude_std_factor
 
     def from_autosub(self, data, i):
         self.epoch_timestamp = data["eTime"][i]
         self.altitude_timestamp = self.epoch_timestamp
         self.altitude = data["ADCPAvAlt"][i]
-        self.altitude_std = self.altitude * self.altitude_std_factor
+        self.altitude_std = abs(self.altitude) * self.altitude_std_factor
 
     def from_phins(self, line, altitude_timestamp):
         self.sensor_string = "phins"
@@ -1090,7 +1090,7 @@ class Altitude(OutputFormat):
         self.sound_velocity = float(line[2])
         self.sound_velocity_correction = float(line[3])
         self.altitude = float(line[4])
-        self.altitude_std = self.altitude * self.altitude_std_factor
+        self.altitude_std = abs(self.altitude) * self.altitude_std_factor
 
     def from_json(self, json):
         self.epoch_timestamp = json["epoch_timestamp"]
@@ -1230,11 +1230,11 @@ class Usbl(OutputFormat):
             self.depth_std = np.sqrt(msg.pose.covariance[14])
 
             if self.eastings_std == 0:
-                self.eastings_std = self.std_factor * self.depth + self.std_offset
+                self.eastings_std = self.std_factor * abs(self.depth) + self.std_offset
             if self.northings_std == 0:
-                self.northings_std = self.std_factor * self.depth + self.std_offset
+                self.northings_std = self.std_factor * abs(self.depth) + self.std_offset
             if self.depth_std == 0:
-                self.depth_std = self.std_factor * self.depth + self.std_offset
+                self.depth_std = self.std_factor * abs(self.depth) + self.std_offset
 
             # Convert to lat lon from the reference
             self.latitude, self.longitude = metres_to_latlon(
@@ -1336,9 +1336,9 @@ class Usbl(OutputFormat):
         self.distance_to_ship = -1.0
         self.eastings = sin(bearing * pi / 180.0) * lateral_distance
         self.northings = cos(bearing * pi / 180.0) * lateral_distance
-        self.eastings_std = self.std_factor * self.depth + self.std_offset
-        self.northings_std = self.std_factor * self.depth + self.std_offset
-        self.depth_std = self.std_factor * self.depth + self.std_offset
+        self.eastings_std = self.std_factor * abs(self.depth) + self.std_offset
+        self.northings_std = self.std_factor * abs(self.depth) + self.std_offset
+        self.depth_std = self.std_factor * abs(self.depth) + self.std_offset
         # If your displacements aren't too great (less than a few kilometers)
         # and you're not right at the poles, use the quick and dirty estimate
         # that 111,111 meters (111.111 km) in the y direction is 1 degree (of
@@ -1354,27 +1354,7 @@ class Usbl(OutputFormat):
         self.latitude = msg.latitude
         self.longitude = msg.longitude
         self.depth = -msg.altitude
-
-        # calculate in meters from reference
-        lateral_distance, bearing = latlon_to_metres(
-            self.latitude,
-            self.longitude,
-            self.latitude_reference,
-            self.longitude_reference,
-        )
-        self.distance_to_ship = -1.0
-        self.eastings = sin(bearing * pi / 180.0) * lateral_distance
-        self.northings = cos(bearing * pi / 180.0) * lateral_distance
-        self.eastings_std = self.std_factor * self.depth + self.std_offset
-        self.northings_std = self.std_factor * self.depth + self.std_offset
-        self.depth_std = self.std_factor * self.depth + self.std_offset
-        # If your displacements aren't too great (less than a few kilometers)
-        # and you're not right at the poles, use the quick and dirty estimate
-        # that 111,111 meters (111.111 km) in the y direction is 1 degree (of
-        # latitude) and 111,111 * cos(latitude) meters in the x direction is
-        # 1 degree (of longitude).
-        self.latitude_std = self.depth / 111.111e3
-        self.longitude_std = self.latitude_std * cos(self.latitude * pi / 180.0)
+        self.fill_from_lat_lon_depth()
 
     def from_json(self, json, sensor_std):
         self.epoch_timestamp = json["epoch_timestamp"]
-- 
2.43.0


From bc4b233c4a1d2562ddf48383710ab001c1b47810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:03 +0000
Subject: [PATCH 101/125] fix: a damaged nmea packet is skipped instead of
 ending the parse

---
 src/auv_nav/parsers/parse_NOC_nmea.py | 44 +++++++++++++++------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/src/auv_nav/parsers/parse_NOC_nmea.py b/src/auv_nav/parsers/parse_NOC_nmea.py
index 4717b17..f1eb284 100644
--- a/src/auv_nav/parsers/parse_NOC_nmea.py
+++ b/src/auv_nav/parsers/parse_NOC_nmea.py
@@ -10,7 +10,7 @@ import pynmea2
 
 from auv_nav.sensors import Category, Usbl
 from auv_nav.tools.time_conversions import date_time_to_epoch, read_timezone
-from oplab import get_file_list, get_raw_folder
+from oplab import Console, get_file_list, get_raw_folder
 
 
 def parse_NOC_nmea(mission, vehicle, category, ftype, outpath):
@@ -47,27 +47,33 @@ def parse_NOC_nmea(mission, vehicle, category, ftype, outpath):
                     parts = line.split("\t")
                     if len(parts) < 2:
                         continue
-                    msg = pynmea2.parse(parts[1])
+                    try:
+                        msg = pynmea2.parse(parts[1])
+                        if not msg.lat or not msg.lon:
+                            raise ValueError("no position")
 
-                    if int(msg.ref_station_id) != beacon_id:
-                        continue
+                        if int(msg.ref_station_id) != beacon_id:
+                            continue
 
-                    date_str = line.split(" ")[0]
-                    hour_str = str(parts[1]).split(",")[1]
+                        date_str = line.split(" ")[0]
+                        hour_str = str(parts[1]).split(",")[1]
 
-                    yyyy = int(date_str[6:10])
-                    mm = int(date_str[3:5])
-                    dd = int(date_str[0:2])
-                    hour = int(hour_str[0:2])
-                    mins = int(hour_str[2:4])
-                    secs = int(hour_str[4:6])
-                    msec = int(hour_str[7:10])
-                    epoch_time = date_time_to_epoch(
-                        yyyy, mm, dd, hour, mins, secs, timezone_offset
-                    )
-                    epoch_timestamp = epoch_time + msec / 1000 + timeoffset
-                    msg.timestamp = epoch_timestamp
-                    usbl.from_nmea(msg)
+                        yyyy = int(date_str[6:10])
+                        mm = int(date_str[3:5])
+                        dd = int(date_str[0:2])
+                        hour = int(hour_str[0:2])
+                        mins = int(hour_str[2:4])
+                        secs = int(hour_str[4:6])
+                        msec = int(hour_str[7:10])
+                        epoch_time = date_time_to_epoch(
+                            yyyy, mm, dd, hour, mins, secs, timezone_offset
+                        )
+                        epoch_timestamp = epoch_time + msec / 1000 + timeoffset
+                        msg.timestamp = epoch_timestamp
+                        usbl.from_nmea(msg)
+                    except (AttributeError, TypeError, ValueError) as exc:
+                        Console.warn("Badly formatted packet (NMEA):", line, exc)
+                        continue
                     data = usbl.export(output_format)
                     data_list.append(data)
         return data_list
-- 
2.43.0


From 8a7570dace806966110e99bb79b67f469751389c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:03 +0000
Subject: [PATCH 102/125] fix: a damaged line of a usbl dump is skipped instead
 of ending the parse

---
 src/auv_nav/parsers/parse_usbl_dump.py | 283 +++++++++++++------------
 1 file changed, 143 insertions(+), 140 deletions(-)

diff --git a/src/auv_nav/parsers/parse_usbl_dump.py b/src/auv_nav/parsers/parse_usbl_dump.py
index d3de3f7..a19f787 100644
--- a/src/auv_nav/parsers/parse_usbl_dump.py
+++ b/src/auv_nav/parsers/parse_usbl_dump.py
@@ -53,162 +53,165 @@ def parse_usbl_dump(mission, vehicle, category, ftype, outpath):
     usbl_file = filepath / filename
     with usbl_file.open("r", encoding="utf-8", errors="ignore") as filein:
         for line in filein.readlines():
-            line_split = line.strip().split(",")
+            try:
+                line_split = line.strip().split(",")
 
-            if line_split[2] == label:
-                date = line_split[0].split("-")
+                if line_split[2] == label:
+                    date = line_split[0].split("-")
 
-                # read in date
-                yyyy = int(date[0])
-                mm = int(date[1])
-                dd = int(date[2])
+                    # read in date
+                    yyyy = int(date[0])
+                    mm = int(date[1])
+                    dd = int(date[2])
 
-                timestamp = line_split[1].split(":")
+                    timestamp = line_split[1].split(":")
 
-                # read in time
-                hour = int(timestamp[0])
-                mins = int(timestamp[1])
-                secs = int(timestamp[2])
-                msec = 0
+                    # read in time
+                    hour = int(timestamp[0])
+                    mins = int(timestamp[1])
+                    secs = int(timestamp[2])
+                    msec = 0
 
-                epoch_time = date_time_to_epoch(
-                    yyyy, mm, dd, hour, mins, secs, timezone_offset
-                )
-                # dt_obj = datetime(yyyy,mm,dd,hour,mins,secs)
-                # time_tuple = dt_obj.timetuple()
-                # epoch_time = time.mktime(time_tuple)
-                epoch_timestamp = epoch_time + msec / 1000 + timeoffset
-
-                if line_split[6] != "":
-                    # get position
-                    latitude_full = line_split[6].split(" ")
-                    latitude_list = latitude_full[0].split("-")
-                    latitude_degrees = int(latitude_list[0])
-                    latitude_minutes = float(latitude_list[1])
+                    epoch_time = date_time_to_epoch(
+                        yyyy, mm, dd, hour, mins, secs, timezone_offset
+                    )
+                    # dt_obj = datetime(yyyy,mm,dd,hour,mins,secs)
+                    # time_tuple = dt_obj.timetuple()
+                    # epoch_time = time.mktime(time_tuple)
+                    epoch_timestamp = epoch_time + msec / 1000 + timeoffset
 
-                    latitude = latitude_degrees + latitude_minutes / 60
-                    if latitude_full[1] != "N":
-                        latitude = -latitude  # southern hemisphere
+                    if line_split[6] != "":
+                        # get position
+                        latitude_full = line_split[6].split(" ")
+                        latitude_list = latitude_full[0].split("-")
+                        latitude_degrees = int(latitude_list[0])
+                        latitude_minutes = float(latitude_list[1])
 
-                    longitude_full = line_split[7].split(" ")
-                    longitude_list = longitude_full[0].split("-")
-                    longitude_degrees = int(longitude_list[0])
-                    longitude_minutes = float(longitude_list[1])
+                        latitude = latitude_degrees + latitude_minutes / 60
+                        if latitude_full[1] != "N":
+                            latitude = -latitude  # southern hemisphere
 
-                    longitude = longitude_degrees + longitude_minutes / 60
-                    if longitude_full[1] != "E":
-                        longitude = -longitude  # western hemisphere
+                        longitude_full = line_split[7].split(" ")
+                        longitude_list = longitude_full[0].split("-")
+                        longitude_degrees = int(longitude_list[0])
+                        longitude_minutes = float(longitude_list[1])
 
-                    depth_full = line_split[8].split("=")
-                    depth = float(depth_full[1])
+                        longitude = longitude_degrees + longitude_minutes / 60
+                        if longitude_full[1] != "E":
+                            longitude = -longitude  # western hemisphere
 
-                    distance_full = line_split[11].split("=")
-                    distance = float(distance_full[1])
+                        depth_full = line_split[8].split("=")
+                        depth = float(depth_full[1])
 
-                    distance_std = distance_std_factor * distance + distance_std_offset
+                        distance_full = line_split[11].split("=")
+                        distance = float(distance_full[1])
 
-                    lateral_distance_full = line_split[9].split("=")
-                    lateral_distance = float(lateral_distance_full[1])
+                        distance_std = distance_std_factor * distance + distance_std_offset
 
-                    bearing_full = line_split[10].split("=")
-                    bearing = float(bearing_full[1])
+                        lateral_distance_full = line_split[9].split("=")
+                        lateral_distance = float(lateral_distance_full[1])
 
-                    # determine uncertainty in terms of latitude and longitude
-                    latitude_offset, longitude_offset = metres_to_latlon(
-                        latitude, longitude, distance_std, distance_std
-                    )
+                        bearing_full = line_split[10].split("=")
+                        bearing = float(bearing_full[1])
 
-                    latitude_std = abs(latitude - latitude_offset)
-                    longitude_std = abs(longitude - longitude_offset)
-
-                    # calculate in metres from reference
-                    eastings_ship = 0
-                    northings_ship = 0
-                    latitude_ship = 0
-                    longitude_ship = 0
-                    heading_ship = 0
-
-                    lateral_distance_target, bearing_target = latlon_to_metres(
-                        latitude,
-                        longitude,
-                        latitude_reference,
-                        longitude_reference,
-                    )
-                    eastings_target = (
-                        math.sin(bearing_target * math.pi / 180.0)
-                        * lateral_distance_target
-                    )
-                    northings_target = (
-                        math.cos(bearing_target * math.pi / 180.0)
-                        * lateral_distance_target
-                    )
+                        # determine uncertainty in terms of latitude and longitude
+                        latitude_offset, longitude_offset = metres_to_latlon(
+                            latitude, longitude, distance_std, distance_std
+                        )
 
-                    if ftype == "oplab":
-                        data = {
-                            "epoch_timestamp": float(epoch_timestamp),
-                            "class": class_string,
-                            "sensor": sensor_string,
-                            "frame": frame_string,
-                            "category": category,
-                            "data_ship": [
-                                {
-                                    "latitude": float(latitude_ship),
-                                    "longitude": float(longitude_ship),
-                                },
-                                {
-                                    "northings": float(northings_ship),
-                                    "eastings": float(eastings_ship),
-                                },
-                                {"heading": float(heading_ship)},
-                            ],
-                            "data_target": [
-                                {
-                                    "latitude": float(latitude),
-                                    "latitude_std": float(latitude_std),
-                                },
-                                {
-                                    "longitude": float(longitude),
-                                    "longitude_std": float(longitude_std),
-                                },
-                                {
-                                    "northings": float(northings_target),
-                                    "northings_std": float(distance_std),
-                                },
-                                {
-                                    "eastings": float(eastings_target),
-                                    "eastings_std": float(distance_std),
-                                },
-                                {
-                                    "depth": float(depth),
-                                    "depth_std": float(distance_std),
-                                },
-                                {"distance_to_ship": float(distance)},
-                            ],
-                        }
-                        data_list.append(data)
-
-                    if ftype == "acfr":
-                        data = (
-                            "SSBL_FIX: "
-                            + str(float(epoch_timestamp))
-                            + " ship_x: "
-                            + str(float(northings_ship))
-                            + " ship_y: "
-                            + str(float(eastings_ship))
-                            + " target_x: "
-                            + str(float(northings_target))
-                            + " target_y: "
-                            + str(float(eastings_target))
-                            + " target_z: "
-                            + str(float(depth))
-                            + " target_hr: "
-                            + str(float(lateral_distance))
-                            + " target_sr: "
-                            + str(float(distance))
-                            + " target_bearing: "
-                            + str(float(bearing))
-                            + "\n"
+                        latitude_std = abs(latitude - latitude_offset)
+                        longitude_std = abs(longitude - longitude_offset)
+
+                        # calculate in metres from reference
+                        eastings_ship = 0
+                        northings_ship = 0
+                        latitude_ship = 0
+                        longitude_ship = 0
+                        heading_ship = 0
+
+                        lateral_distance_target, bearing_target = latlon_to_metres(
+                            latitude,
+                            longitude,
+                            latitude_reference,
+                            longitude_reference,
+                        )
+                        eastings_target = (
+                            math.sin(bearing_target * math.pi / 180.0)
+                            * lateral_distance_target
                         )
-                        data_list += data
+                        northings_target = (
+                            math.cos(bearing_target * math.pi / 180.0)
+                            * lateral_distance_target
+                        )
+
+                        if ftype == "oplab":
+                            data = {
+                                "epoch_timestamp": float(epoch_timestamp),
+                                "class": class_string,
+                                "sensor": sensor_string,
+                                "frame": frame_string,
+                                "category": category,
+                                "data_ship": [
+                                    {
+                                        "latitude": float(latitude_ship),
+                                        "longitude": float(longitude_ship),
+                                    },
+                                    {
+                                        "northings": float(northings_ship),
+                                        "eastings": float(eastings_ship),
+                                    },
+                                    {"heading": float(heading_ship)},
+                                ],
+                                "data_target": [
+                                    {
+                                        "latitude": float(latitude),
+                                        "latitude_std": float(latitude_std),
+                                    },
+                                    {
+                                        "longitude": float(longitude),
+                                        "longitude_std": float(longitude_std),
+                                    },
+                                    {
+                                        "northings": float(northings_target),
+                                        "northings_std": float(distance_std),
+                                    },
+                                    {
+                                        "eastings": float(eastings_target),
+                                        "eastings_std": float(distance_std),
+                                    },
+                                    {
+                                        "depth": float(depth),
+                                        "depth_std": float(distance_std),
+                                    },
+                                    {"distance_to_ship": float(distance)},
+                                ],
+                            }
+                            data_list.append(data)
+
+                        if ftype == "acfr":
+                            data = (
+                                "SSBL_FIX: "
+                                + str(float(epoch_timestamp))
+                                + " ship_x: "
+                                + str(float(northings_ship))
+                                + " ship_y: "
+                                + str(float(eastings_ship))
+                                + " target_x: "
+                                + str(float(northings_target))
+                                + " target_y: "
+                                + str(float(eastings_target))
+                                + " target_z: "
+                                + str(float(depth))
+                                + " target_hr: "
+                                + str(float(lateral_distance))
+                                + " target_sr: "
+                                + str(float(distance))
+                                + " target_bearing: "
+                                + str(float(bearing))
+                                + "\n"
+                            )
+                            data_list += data
+            except (IndexError, ValueError) as exc:
+                Console.warn("Badly formatted line (USBL dump):", line, exc)
 
     return data_list
-- 
2.43.0


From 3221578e86f18542b1e78f811f51044777b33e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:03 +0000
Subject: [PATCH 103/125] fix: damaged GAPS packets are rejected by their
 checksum

---
 src/auv_nav/parsers/parse_gaps.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/auv_nav/parsers/parse_gaps.py b/src/auv_nav/parsers/parse_gaps.py
index e6919d2..199fdf8 100644
--- a/src/auv_nav/parsers/parse_gaps.py
+++ b/src/auv_nav/parsers/parse_gaps.py
@@ -23,6 +23,20 @@ from auv_nav.tools.time_conversions import date_time_to_epoch, read_timezone
 from oplab import Console, get_raw_folder
 
 
+def checksum_is_valid(packet):
+    """Checks what is between $ and * against the checksum after the *"""
+    body, separator, checksum = packet[packet.find("$") + 1 :].partition("*")
+    if not separator:
+        return False
+    total = 0
+    for char in body:
+        total ^= ord(char)
+    try:
+        return total == int(checksum[0:2], 16)
+    except ValueError:
+        return False
+
+
 def parse_gaps(mission, vehicle, category, ftype, outpath):
     Console.info("  Parsing GAPS data...")
 
@@ -76,6 +90,12 @@ def parse_gaps(mission, vehicle, category, ftype, outpath):
                 line_split = line.strip().split("*")
                 line_split_no_checksum = line_split[0].strip().split(",")
                 broken_packet_flag = False
+                if (
+                    header_absolute in line_split_no_checksum[0]
+                    or header_heading in line_split_no_checksum[0]
+                ) and not checksum_is_valid(line.strip()):
+                    Console.warn("Broken packet (GAPS): " + line)
+                    continue
                 # print(line_split_no_checksum)
                 # keep on upating ship position to find the prior interpolation
                 #  value of ship coordinates
-- 
2.43.0


From b32fc33978de053d0ec5d4ec658719e767c34a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:03 +0000
Subject: [PATCH 104/125] fix: a reading at the very first instant of the tide
 table is corrected

---
 src/auv_nav/parse.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/auv_nav/parse.py b/src/auv_nav/parse.py
index f660db1..b1e8f9a 100644
--- a/src/auv_nav/parse.py
+++ b/src/auv_nav/parse.py
@@ -721,11 +721,15 @@ def parse_single(filepath, force_overwrite):
                     ):
                         j = j + 1
 
-                    if j == 0:
+                    if (
+                        results[k]["epoch_timestamp"] < tide_list[0]["epoch_timestamp"]
+                    ):
                         missing_tide_data_before = True
                     elif (
                         results[k]["epoch_timestamp"] <= tide_list[j]["epoch_timestamp"]
                     ):
+                        # a reading at the first tide time has none before it
+                        j = min(max(j, 1), len(tide_list) - 1)
                         _result = interpolate(
                             results[k]["epoch_timestamp"],
                             tide_list[j - 1]["epoch_timestamp"],
-- 
2.43.0


From e8dcaaea212bf4e2c14dae432e90db678b24e909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:03 +0000
Subject: [PATCH 105/125] fix: tide tables of several files are put in time
 order

---
 src/auv_nav/parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/auv_nav/parse.py b/src/auv_nav/parse.py
index b1e8f9a..5c5497f 100644
--- a/src/auv_nav/parse.py
+++ b/src/auv_nav/parse.py
@@ -651,6 +651,8 @@ def parse_single(filepath, force_overwrite):
             tide_list = parse_tide_CTI(mission, vehicle, "tide", ftype, outpath)
         else:
             Console.quit("Mission tide format", mission.tide.format, "not supported.")
+        # The files of a tide table are not necessarily listed in order
+        tide_list.sort(key=lambda t: t["epoch_timestamp"])
     else:
         tide_list = None
 
-- 
2.43.0


From 9afc4c312d6df349ec3b229afd0cd27ab4239fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:03 +0000
Subject: [PATCH 106/125] fix: tide uncertainties are not negative and empty
 lines of a tide table are skipped

---
 src/auv_nav/parsers/parse_NOC_polpred.py | 4 +++-
 src/auv_nav/parsers/parse_tide_CTI.py    | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/parsers/parse_NOC_polpred.py b/src/auv_nav/parsers/parse_NOC_polpred.py
index 943a1a1..7ba9491 100644
--- a/src/auv_nav/parsers/parse_NOC_polpred.py
+++ b/src/auv_nav/parsers/parse_NOC_polpred.py
@@ -47,6 +47,8 @@ def parse_NOC_polpred(mission, vehicle, category, ftype, outpath):
             with file.open("r", errors="ignore") as tide_file:
                 for line in tide_file.readlines()[6:]:
                     # we have to skip the first 5 rows of the file
+                    if not line.strip():
+                        continue
                     dd = int(line[0:2])
                     mm = int(line[3:5])
                     yyyy = int(line[6:10])
@@ -60,7 +62,7 @@ def parse_NOC_polpred(mission, vehicle, category, ftype, outpath):
                     epoch_timestamp = epoch_time + msec / 1000 + timeoffset
                     tide.epoch_timestamp = epoch_timestamp
                     tide.height = float(line[22:28])
-                    tide.height_std = tide.height * tide.height_std_factor
+                    tide.height_std = abs(tide.height) * tide.height_std_factor
 
                     data = tide.export(output_format)
                     data_list.append(data)
diff --git a/src/auv_nav/parsers/parse_tide_CTI.py b/src/auv_nav/parsers/parse_tide_CTI.py
index 38aa1c5..cb21420 100644
--- a/src/auv_nav/parsers/parse_tide_CTI.py
+++ b/src/auv_nav/parsers/parse_tide_CTI.py
@@ -53,6 +53,8 @@ def parse_tide_CTI(mission, vehicle, category, ftype, outpath):
                 for line in tide_file.readlines()[
                     6:
                 ]:  # Skip first 5 lines of header information
+                    if not line.strip():
+                        continue
                     # YYYY-MM-DD
                     yyyy = int(line[0:4])
                     mm = int(line[5:7])
@@ -74,7 +76,7 @@ def parse_tide_CTI(mission, vehicle, category, ftype, outpath):
                     _ini = line.find(",") + 1
                     _end = line.find(",", _ini)
                     tide.height = float(line[_ini:_end])
-                    tide.height_std = tide.height * tide.height_std_factor
+                    tide.height_std = abs(tide.height) * tide.height_std_factor
 
                     data = tide.export(output_format)
                     data_list.append(data)
-- 
2.43.0


From 41c91875e5b8c95d48698f910fa434a1df527176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:36 +0000
Subject: [PATCH 107/125] fix: sonardyne fixes take the ship observation
 closest in time, not the next one

---
 src/auv_nav/parsers/parse_sonardyne_mrt.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/auv_nav/parsers/parse_sonardyne_mrt.py b/src/auv_nav/parsers/parse_sonardyne_mrt.py
index 1f852ef..f061774 100644
--- a/src/auv_nav/parsers/parse_sonardyne_mrt.py
+++ b/src/auv_nav/parsers/parse_sonardyne_mrt.py
@@ -554,6 +554,16 @@ def parse_mrt_csv(filename):
         return observations
 
 
+def closest_of_pair(observations, idx, stamp):
+    """Of the observations at idx and before it, return the closest to stamp"""
+    if idx > 0:
+        before = stamp - observations[idx - 1].epoch_timestamp
+        after = abs(observations[idx].epoch_timestamp - stamp)
+        if before < after:
+            return observations[idx - 1]
+    return observations[idx]
+
+
 def find_closest_observations(observations):
     auv_observations = []
     ship_observations = []
@@ -600,10 +610,10 @@ def find_closest_observations(observations):
             hdg_idx += 1
             hdg_stamp = heading_observations[hdg_idx].epoch_timestamp
 
-        if ship_idx < len(ship_observations):
-            auv_obs.closest_ship_obs = ship_observations[ship_idx]
-        if hdg_idx < len(heading_observations):
-            auv_obs.closest_heading_obs = heading_observations[hdg_idx]
+        auv_obs.closest_ship_obs = closest_of_pair(ship_observations, ship_idx, stamp)
+        auv_obs.closest_heading_obs = closest_of_pair(
+            heading_observations, hdg_idx, stamp
+        )
     return auv_observations
 
 
-- 
2.43.0


From c6343358874edfebf962203999b563801b6a6c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:47 +0000
Subject: [PATCH 108/125] fix: nmea fixes keep their epoch when its digits look
 like a time of day

---
 src/auv_nav/parsers/parse_NOC_nmea.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/auv_nav/parsers/parse_NOC_nmea.py b/src/auv_nav/parsers/parse_NOC_nmea.py
index f1eb284..f44a692 100644
--- a/src/auv_nav/parsers/parse_NOC_nmea.py
+++ b/src/auv_nav/parsers/parse_NOC_nmea.py
@@ -69,8 +69,10 @@ def parse_NOC_nmea(mission, vehicle, category, ftype, outpath):
                             yyyy, mm, dd, hour, mins, secs, timezone_offset
                         )
                         epoch_timestamp = epoch_time + msec / 1000 + timeoffset
-                        msg.timestamp = epoch_timestamp
                         usbl.from_nmea(msg)
+                        # A message keeps text and would read the digits of
+                        # an epoch as a time of day where they look like one
+                        usbl.epoch_timestamp = epoch_timestamp
                     except (AttributeError, TypeError, ValueError) as exc:
                         Console.warn("Badly formatted packet (NMEA):", line, exc)
                         continue
-- 
2.43.0


From a2686beeb5e710cfe248b97ea33cc834006c2b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:02 +0000
Subject: [PATCH 109/125] fix: logs that state their day once go on after
 midnight

---
 src/auv_nav/parsers/parse_ntnu_dvl.py      |  9 ++++++++-
 src/auv_nav/parsers/parse_phins.py         | 22 +++++++++++++++++++---
 src/auv_nav/parsers/parse_sonardyne_mrt.py | 17 ++++++++++++++++-
 src/auv_nav/tools/time_conversions.py      |  8 ++++++++
 4 files changed, 51 insertions(+), 5 deletions(-)

diff --git a/src/auv_nav/parsers/parse_ntnu_dvl.py b/src/auv_nav/parsers/parse_ntnu_dvl.py
index fafd967..5678073 100644
--- a/src/auv_nav/parsers/parse_ntnu_dvl.py
+++ b/src/auv_nav/parsers/parse_ntnu_dvl.py
@@ -9,7 +9,7 @@ See LICENSE.md file in the project root for full license information.
 import pandas as pd
 
 from auv_nav.sensors import Altitude, BodyVelocity, Category
-from auv_nav.tools.time_conversions import read_timezone
+from auv_nav.tools.time_conversions import after_midnight, read_timezone
 from oplab import Console, get_raw_folder
 
 header_list = [
@@ -118,6 +118,7 @@ def parse_ntnu_dvl(mission, vehicle, category, output_format, outpath):
     for log_file in log_file_path.glob("*.log"):
         # Open the log file
         df = pd.read_csv(log_file, sep="\t", skiprows=(0, 1), names=header_list)
+        epoch = None
 
         if category == Category.VELOCITY:
             Console.info("... parsing velocity")
@@ -126,6 +127,9 @@ def parse_ntnu_dvl(mission, vehicle, category, output_format, outpath):
                 body_velocity.from_ntnu_dvl(
                     str(log_file.name), row, timezone_offset, timeoffset_s
                 )
+                epoch = after_midnight(body_velocity.epoch_timestamp, epoch)
+                body_velocity.epoch_timestamp = epoch
+                body_velocity.epoch_timestamp_dvl = epoch
                 num_entries += 1
                 if body_velocity.valid():
                     # DVL provides -32 when no bottom lock
@@ -140,6 +144,9 @@ def parse_ntnu_dvl(mission, vehicle, category, output_format, outpath):
                 altitude.from_ntnu_dvl(
                     str(log_file.name), row, timezone_offset, timeoffset_s
                 )
+                epoch = after_midnight(altitude.epoch_timestamp, epoch)
+                altitude.epoch_timestamp = epoch
+                altitude.altitude_timestamp = epoch
                 if altitude.valid():
                     num_valid_entries += 1
                     data = altitude.export(output_format)
diff --git a/src/auv_nav/parsers/parse_phins.py b/src/auv_nav/parsers/parse_phins.py
index 6292593..f630ae8 100644
--- a/src/auv_nav/parsers/parse_phins.py
+++ b/src/auv_nav/parsers/parse_phins.py
@@ -15,7 +15,11 @@ from auv_nav.sensors import (
     Orientation,
     PhinsHeaders,
 )
-from auv_nav.tools.time_conversions import date_time_to_epoch, read_timezone
+from auv_nav.tools.time_conversions import (
+    after_midnight,
+    date_time_to_epoch,
+    read_timezone,
+)
 from oplab import Console, get_raw_folder
 
 
@@ -27,13 +31,22 @@ class PhinsTimestamp:
         self.year, self.month, self.day = date
         self.tz_offset = read_timezone(timezone)
         self.offset = offset
+        # The log may go on after midnight, but only states its first day
+        self.latest = None
 
-    def get(self, hour, mins, secs, msec):
+    def first_day(self, hour, mins, secs, msec):
         epoch_time = date_time_to_epoch(
             self.year, self.month, self.day, hour, mins, secs, self.tz_offset
         )
         return epoch_time + msec / 1000 + self.offset
 
+    def get(self, hour, mins, secs, msec):
+        """Time of a sensor, which is close to the latest time of the log"""
+        epoch_time = self.first_day(hour, mins, secs, msec)
+        if self.latest is not None:
+            epoch_time += round((self.latest - epoch_time) / 86400) * 86400
+        return epoch_time
+
     def epoch_timestamp_from_phins(self, line):
         epoch_timestamp = None
         time_string = str(line[2])
@@ -45,7 +58,10 @@ class PhinsTimestamp:
                 # phins sometimes returns 60s...
                 if secs < 60:
                     msec = int(time_string[7:10])
-                    epoch_timestamp = self.get(hour, mins, secs, msec)
+                    epoch_timestamp = after_midnight(
+                        self.first_day(hour, mins, secs, msec), self.latest
+                    )
+                    self.latest = epoch_timestamp
             except Exception as exc:
                 Console.warn(
                     "Badly formatted packet (PHINS TIME): "
diff --git a/src/auv_nav/parsers/parse_sonardyne_mrt.py b/src/auv_nav/parsers/parse_sonardyne_mrt.py
index f061774..e771f59 100644
--- a/src/auv_nav/parsers/parse_sonardyne_mrt.py
+++ b/src/auv_nav/parsers/parse_sonardyne_mrt.py
@@ -8,7 +8,11 @@ import pandas as pd
 import re
 from auv_nav.sensors import Category
 from auv_nav.tools.latlon_wgs84 import latlon_to_metres, metres_to_latlon
-from auv_nav.tools.time_conversions import naive_datetime_to_epoch, read_timezone
+from auv_nav.tools.time_conversions import (
+    after_midnight,
+    naive_datetime_to_epoch,
+    read_timezone,
+)
 from oplab import Console, get_raw_folder
 
 
@@ -239,6 +243,15 @@ class EstimateTrackerMetrics(MRTBase):
     mde: str
     w_test: str
 
+def apply_midnights(observations):
+    """The name of the file states the day of its first entry only"""
+    epoch = None
+    for obs in observations:
+        if obs.epoch_timestamp is not None:
+            epoch = after_midnight(obs.epoch_timestamp, epoch)
+            obs.epoch_timestamp = epoch
+
+
 def parse_gga_txt(filename, field_id:int):
     """
     for gga txt, there are only lot, long and time_stamp that are useful.
@@ -291,6 +304,7 @@ def parse_gga_txt(filename, field_id:int):
             observations.append(obs)
         except:
             Console.warn(f"errors exist in {idx} row, already ignore it")
+    apply_midnights(observations)
     return observations
 
 def parse_gga2_txt(filename, field_id:int):
@@ -470,6 +484,7 @@ def parse_gga4_txt(filename, field_id:int):
             observations.append(obs)
         except:
             Console.warn(f"errors exist in {idx} row, already ignore it")
+    apply_midnights(observations)
     return observations
 
 
diff --git a/src/auv_nav/tools/time_conversions.py b/src/auv_nav/tools/time_conversions.py
index 14d8218..ad38710 100644
--- a/src/auv_nav/tools/time_conversions.py
+++ b/src/auv_nav/tools/time_conversions.py
@@ -37,6 +37,14 @@ def naive_datetime_to_epoch(naive_datetime, timezone_offset_to_utc=0, timeoffset
     return epoch - timezone_offset_to_utc * 3600 + timeoffset_s
 
 
+def after_midnight(epoch, previous_epoch):
+    """Epoch of an entry of a log that states the day of its first entry only"""
+    if previous_epoch is not None:
+        while epoch < previous_epoch - 12 * 3600:
+            epoch += 24 * 3600
+    return epoch
+
+
 def epoch_to_localtime(epochtime):
     localtime = time.localtime(epochtime)
     return localtime
-- 
2.43.0


From a579038c7cd7147e32f1a3d1df1bdd86f7a4645b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:34 +0000
Subject: [PATCH 110/125] fix: attenuation curves stay finite when distances
 coincide

---
 src/correct_images/tools/curve_fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/correct_images/tools/curve_fitting.py b/src/correct_images/tools/curve_fitting.py
index 0ddd095..0a90264 100644
--- a/src/correct_images/tools/curve_fitting.py
+++ b/src/correct_images/tools/curve_fitting.py
@@ -183,7 +183,7 @@ def curve_fitting(
     if intensities_filt[idx_1] != 0:
         b = (np.log((int_0 - c) / (int_1 - c))) / (alt_0 - alt_1)
     a = (int_1 - c) / np.exp(b * alt_1)
-    if a <= 0 or b > 0 or np.isnan(a) or np.isnan(b):
+    if a <= 0 or b > 0 or not np.isfinite(a) or not np.isfinite(b):
         a = 1.01
         b = -0.01
 
-- 
2.43.0


From 32fc1b2ecf53932ec5d0a5cd25c1cbbcd31ca004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:27 +0000
Subject: [PATCH 111/125] fix: stereo calibration finds the images of a third
 camera in the processed folder

---
 src/auv_cal/calibration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/auv_cal/calibration.py b/src/auv_cal/calibration.py
index d1b04c2..33de1fd 100644
--- a/src/auv_cal/calibration.py
+++ b/src/auv_cal/calibration.py
@@ -481,7 +481,8 @@ class Calibrator:
             left_extension = str(c0["camera_calibration"]["glob_pattern"])
             right_name = c2["name"]
             right_filepaths = build_filepath(
-                self.filepath, c2["camera_calibration"]["path"]
+                get_processed_folder(self.filepath),
+                c2["camera_calibration"]["path"],
             )
             right_extension = str(c2["camera_calibration"]["glob_pattern"])
             left_calibration_file = self.output_path / str(
-- 
2.43.0


From 900fcbee1798cc3d4486eb155de69f1ac9326b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:51 +0000
Subject: [PATCH 112/125] fix: adjust_alr_to_biocam_time only corrected the
 first of several files given after one -a

---
 src/scripts/adjust_alr_to_biocam_time.py | 507 ++++++++++++-----------
 1 file changed, 255 insertions(+), 252 deletions(-)

diff --git a/src/scripts/adjust_alr_to_biocam_time.py b/src/scripts/adjust_alr_to_biocam_time.py
index 504d7ba..1bc326c 100644
--- a/src/scripts/adjust_alr_to_biocam_time.py
+++ b/src/scripts/adjust_alr_to_biocam_time.py
@@ -1,252 +1,255 @@
-"""
-Copyright (c) 2023, University of Southampton
-All rights reserved.
-Licensed under the BSD 3-Clause License.
-See LICENSE.md file in the project root for full license information.
-"""
-
-import argparse
-import pandas as pd
-import numpy as np
-from pathlib import Path
-import matplotlib.pyplot as plt
-
-
-class TimeCorrector:
-    def __init__(
-            self,
-            biocam_serial_log,
-            alr_timesamped_file,
-            timestamp_col,
-            divisions_per_second,
-            plot,
-            force
-        ):
-        self.biocam_serial_log = biocam_serial_log
-        self.alr_timesamped_file = alr_timesamped_file
-        self.timestamp_col = timestamp_col
-        self.divisions_per_second = divisions_per_second
-        self.plot = plot
-        self.force = force
-        self.output_files = []
-
-
-    def populate_output_file_path(self):
-        if self.alr_timesamped_file is None:
-            return
-
-        for atf in self.alr_timesamped_file:
-            if atf[0][-4:] != ".csv":
-                print(f"{atf[0]} does not end in .csv. Only .csv files are supported.")
-                print("Aborting.")
-                quit()
-            self.output_files.append(atf[0].replace(".csv", "_corrected.csv"))
-        
-        output_file_exists = [Path(of).exists() for of in self.output_files]
-        if not self.force and any(output_file_exists):
-            existing_paths = np.array(self.output_files)[np.array(output_file_exists)]
-            print(f"The output file(s) {existing_paths.tolist()} already exist(s).")
-            print("Use -f to force overwrite.")
-            print("Aborting.")
-            quit()
-
-            
-    def analyse_time_differences(self):
-        timestamps_bc_0_ms = []
-        timestamps_alr_ms = []
-        timestamps_bc_1_ms = []
-
-        for bsl in self.biocam_serial_log:
-            print(f"Reading BioCam and ALR time differences from serial log at {bsl}")
-
-            if not Path(bsl).exists():
-                print(f"{bsl} does not exist. Aborting.")
-                quit()
-
-            # Open serial log text file
-            with open(bsl, "r") as f:
-                lines = f.readlines()
-
-            # Extract timestamps
-            for line in lines:
-                if "poll_time:" in line:
-                    timestamps_bc_0_ms.append(int(line.split(",")[1]))
-                    timestamps_alr_ms.append(int(line.split(",")[5]))
-                    timestamps_bc_1_ms.append(int(line.split(",")[7]))
-        
-        if len(timestamps_bc_0_ms) == 0:
-            print("No time poll lines found in the serial log. Aborting.")
-            quit()
-
-        if timestamps_bc_0_ms != sorted(timestamps_bc_0_ms):
-            print(
-                "Timestamps are not sorted. Please indicate BioCam serial losg in "
-                "temporal order. Aborting."
-            )
-            quit()
-
-        if timestamps_alr_ms != sorted(timestamps_alr_ms):
-            print(
-                "ALR timestamps are not sorted while BioCam timestamps are. This "
-                "shoudld normally not happen. Aborting."
-            )
-            quit()
-
-        timestamps_bc_mean_ms = [
-            (float(a)+float(b))/2 for a,b in zip(timestamps_bc_0_ms, timestamps_bc_1_ms)
-        ]
-        
-        b01 = []
-        b0a = []
-        ab1 = []
-        bma = []
-        for i in range(len(timestamps_bc_0_ms)):
-            b01.append(timestamps_bc_1_ms[i] - timestamps_bc_0_ms[i])
-            b0a.append(timestamps_alr_ms[i] - timestamps_bc_0_ms[i])
-            ab1.append(timestamps_bc_1_ms[i] - timestamps_alr_ms[i])
-            bma.append(timestamps_alr_ms[i] - timestamps_bc_mean_ms[i])
-
-        if self.plot:
-            fig, axs = plt.subplots(2, 1, sharex=True)
-            axs[0].plot(bma, label="Time difference ALR-BioCam")
-            axs[0].legend()
-            axs[0].set_ylabel("Time difference (ms)") 
-            axs[1].plot(b01, label="Poll time from ALR to reply received")
-            axs[1].legend()
-            axs[1].set_ylabel("Duration (ms)")
-            plt.xlabel("Sample number")
-            plt.show()
-        
-        # Parametrise conversion from ALR to BioCam time
-        # BioCam time = slope * ALR time + offset
-        self.offsets_s = [offset/1000. for offset in timestamps_bc_mean_ms]
-        self.timestamps_alr_s = [t_alr_ms/1000. for t_alr_ms in timestamps_alr_ms]
-        self.slopes = []
-        for i in range(len(timestamps_alr_ms)-1):
-            delta_t_bc_mean_ms = timestamps_bc_mean_ms[i+1] - timestamps_bc_mean_ms[i]
-            delta_t_alr_ms = timestamps_alr_ms[i+1] - timestamps_alr_ms[i]
-            self.slopes.append(delta_t_bc_mean_ms/delta_t_alr_ms)
-    
-
-    def check_if_inside_modelled_timespan(self, alr_timestamp_start, alr_timestamp_end):
-        alr_timestamp_start_s = alr_timestamp_start / self.divisions_per_second
-        alr_timestamp_end_s = alr_timestamp_end / self.divisions_per_second
-        if alr_timestamp_start_s < self.timestamps_alr_s[0]:
-            print(
-                "Warning: The first timestamp in the current file is "
-                f"{self.timestamps_alr_s[0] - alr_timestamp_start_s:.1f}s before the "
-                "range of timestamps used to model the time difference. Extraploating "
-                "the model based on the first two points."
-            )
-        if alr_timestamp_end_s > self.timestamps_alr_s[-1]:
-            print(
-                "Warning: The last timestamp in the current file is "
-                f"{alr_timestamp_end_s - self.timestamps_alr_s[-1]:.1f}s after the "
-                "range of timestamps used to model the time difference. Extraploating "
-                "the model based on the last two points."
-            )
-
-
-    def correct_timestamp(self, alr_timestamp):
-        alr_timestamp_s = alr_timestamp / self.divisions_per_second
-        # Find the two closest ALR timestamps
-        j = 0
-        for i in range(len(self.timestamps_alr_s)-1):
-            if alr_timestamp_s >= self.timestamps_alr_s[i]:
-                j = i
-
-        t = (alr_timestamp_s-self.timestamps_alr_s[j])*self.slopes[j]+self.offsets_s[j]
-        return t
-
-    def correct_timestamps(self):
-        if self.alr_timesamped_file is None:
-            print("No ALR timestamped file(s) provided.")
-            return
-
-        for atf_in, out in zip(self.alr_timesamped_file, self.output_files):
-            print(f"Reading ALR timestamped file from {atf_in[0]}")
-            df = pd.read_csv(atf_in[0])
-            if self.timestamp_col not in df.columns:
-                print(
-                    f"{atf_in[0]} has no column named {self.timestamp_col}. Aborting."
-                )
-                quit()
-            print(f"Correcting timestamps")
-            self.check_if_inside_modelled_timespan(
-                df[self.timestamp_col][0], df[self.timestamp_col].iat[-1]
-            )
-            df.insert(0, "corrected_timestamp", np.nan)
-            df["corrected_timestamp"] = df[self.timestamp_col].apply(
-                self.correct_timestamp
-            )
-            print(f"Saving corrected timestamps to {out}")
-            df.to_csv(out, index=False)
-
-
-def main():
-    parser = argparse.ArgumentParser(
-        description=(
-            "This script determines the time difference between BioCam and ALR, and "
-            "corrects ALR timestamped files, and/or plots the time difference. "
-            "The ALR timestamped file(s) (if provided) must be csv files containing a "
-            "column named 'timestamp' containing epoch timestamps. The corrected "
-            "timestamps are written to a new column named 'corrected_timestamp' and "
-            "the files are saved with the same names as the original files, with "
-            "'_corrected' appended before the filename extension."	
-        ),
-        formatter_class=argparse.ArgumentDefaultsHelpFormatter
-    )
-    parser.add_argument(
-        "biocam_serial_log",
-        nargs="+", action="append",
-        help=(
-            "BioCam serial log file(s). If there is more than one serial log file for "
-            "an ALR mission, indicate all of them to obtain the best time correction "
-            "across the entire dive. Must be indicated in temporal order."
-        )
-    )
-    parser.add_argument(
-        "-a", "--alr_timesamped_file",
-        nargs="+", action="append",
-        help="File(s) timestamped by ALR"
-    )
-    parser.add_argument(
-        "-t", "--timestamp_col", default="timestamp",
-        help=(
-            "Name of the column containing the timestamps. The same is assumed for all "
-            "ALR timestamped files provided."
-        )
-    )
-    parser.add_argument(
-        "-d", "--divisions_per_second", type=float, default=1,
-        help=(
-            "Number of divisions per second in the ALR timestamped file(s), "
-            "e.g. 1 for seconds, 1000 for milliseconds, 1000000 for microseconds. "
-            "The same is assumed for all ALR timestamped files provided."
-        )
-    )
-    parser.add_argument(
-        "-p", "--plot", action="store_true",
-        help="Plot the time difference between BioCam and ALR"
-    )
-    parser.add_argument(
-        "-f", "--force", action="store_true", help="Force overwrite of existing files"
-    )
-    args = parser.parse_args()
-
-    tc = TimeCorrector(
-        args.biocam_serial_log[0],
-        args.alr_timesamped_file,
-        args.timestamp_col,
-        args.divisions_per_second,
-        args.plot,
-        args.force
-    )
-    tc.populate_output_file_path()
-    tc.analyse_time_differences()
-    tc.correct_timestamps()
-    print("Done.")
-
-
-if __name__ == "__main__":
-    main()
+"""
+Copyright (c) 2023, University of Southampton
+All rights reserved.
+Licensed under the BSD 3-Clause License.
+See LICENSE.md file in the project root for full license information.
+"""
+
+import argparse
+import pandas as pd
+import numpy as np
+from pathlib import Path
+import matplotlib.pyplot as plt
+
+
+class TimeCorrector:
+    def __init__(
+            self,
+            biocam_serial_log,
+            alr_timesamped_file,
+            timestamp_col,
+            divisions_per_second,
+            plot,
+            force
+        ):
+        self.biocam_serial_log = biocam_serial_log
+        # Each occurrence of the option gives a list of one or more files
+        self.alr_timesamped_file = None
+        if alr_timesamped_file is not None:
+            self.alr_timesamped_file = [f for fs in alr_timesamped_file for f in fs]
+        self.timestamp_col = timestamp_col
+        self.divisions_per_second = divisions_per_second
+        self.plot = plot
+        self.force = force
+        self.output_files = []
+
+
+    def populate_output_file_path(self):
+        if self.alr_timesamped_file is None:
+            return
+
+        for atf in self.alr_timesamped_file:
+            if atf[-4:] != ".csv":
+                print(f"{atf} does not end in .csv. Only .csv files are supported.")
+                print("Aborting.")
+                quit()
+            self.output_files.append(atf.replace(".csv", "_corrected.csv"))
+        
+        output_file_exists = [Path(of).exists() for of in self.output_files]
+        if not self.force and any(output_file_exists):
+            existing_paths = np.array(self.output_files)[np.array(output_file_exists)]
+            print(f"The output file(s) {existing_paths.tolist()} already exist(s).")
+            print("Use -f to force overwrite.")
+            print("Aborting.")
+            quit()
+
+            
+    def analyse_time_differences(self):
+        timestamps_bc_0_ms = []
+        timestamps_alr_ms = []
+        timestamps_bc_1_ms = []
+
+        for bsl in self.biocam_serial_log:
+            print(f"Reading BioCam and ALR time differences from serial log at {bsl}")
+
+            if not Path(bsl).exists():
+                print(f"{bsl} does not exist. Aborting.")
+                quit()
+
+            # Open serial log text file
+            with open(bsl, "r") as f:
+                lines = f.readlines()
+
+            # Extract timestamps
+            for line in lines:
+                if "poll_time:" in line:
+                    timestamps_bc_0_ms.append(int(line.split(",")[1]))
+                    timestamps_alr_ms.append(int(line.split(",")[5]))
+                    timestamps_bc_1_ms.append(int(line.split(",")[7]))
+        
+        if len(timestamps_bc_0_ms) == 0:
+            print("No time poll lines found in the serial log. Aborting.")
+            quit()
+
+        if timestamps_bc_0_ms != sorted(timestamps_bc_0_ms):
+            print(
+                "Timestamps are not sorted. Please indicate BioCam serial losg in "
+                "temporal order. Aborting."
+            )
+            quit()
+
+        if timestamps_alr_ms != sorted(timestamps_alr_ms):
+            print(
+                "ALR timestamps are not sorted while BioCam timestamps are. This "
+                "shoudld normally not happen. Aborting."
+            )
+            quit()
+
+        timestamps_bc_mean_ms = [
+            (float(a)+float(b))/2 for a,b in zip(timestamps_bc_0_ms, timestamps_bc_1_ms)
+        ]
+        
+        b01 = []
+        b0a = []
+        ab1 = []
+        bma = []
+        for i in range(len(timestamps_bc_0_ms)):
+            b01.append(timestamps_bc_1_ms[i] - timestamps_bc_0_ms[i])
+            b0a.append(timestamps_alr_ms[i] - timestamps_bc_0_ms[i])
+            ab1.append(timestamps_bc_1_ms[i] - timestamps_alr_ms[i])
+            bma.append(timestamps_alr_ms[i] - timestamps_bc_mean_ms[i])
+
+        if self.plot:
+            fig, axs = plt.subplots(2, 1, sharex=True)
+            axs[0].plot(bma, label="Time difference ALR-BioCam")
+            axs[0].legend()
+            axs[0].set_ylabel("Time difference (ms)") 
+            axs[1].plot(b01, label="Poll time from ALR to reply received")
+            axs[1].legend()
+            axs[1].set_ylabel("Duration (ms)")
+            plt.xlabel("Sample number")
+            plt.show()
+        
+        # Parametrise conversion from ALR to BioCam time
+        # BioCam time = slope * ALR time + offset
+        self.offsets_s = [offset/1000. for offset in timestamps_bc_mean_ms]
+        self.timestamps_alr_s = [t_alr_ms/1000. for t_alr_ms in timestamps_alr_ms]
+        self.slopes = []
+        for i in range(len(timestamps_alr_ms)-1):
+            delta_t_bc_mean_ms = timestamps_bc_mean_ms[i+1] - timestamps_bc_mean_ms[i]
+            delta_t_alr_ms = timestamps_alr_ms[i+1] - timestamps_alr_ms[i]
+            self.slopes.append(delta_t_bc_mean_ms/delta_t_alr_ms)
+    
+
+    def check_if_inside_modelled_timespan(self, alr_timestamp_start, alr_timestamp_end):
+        alr_timestamp_start_s = alr_timestamp_start / self.divisions_per_second
+        alr_timestamp_end_s = alr_timestamp_end / self.divisions_per_second
+        if alr_timestamp_start_s < self.timestamps_alr_s[0]:
+            print(
+                "Warning: The first timestamp in the current file is "
+                f"{self.timestamps_alr_s[0] - alr_timestamp_start_s:.1f}s before the "
+                "range of timestamps used to model the time difference. Extraploating "
+                "the model based on the first two points."
+            )
+        if alr_timestamp_end_s > self.timestamps_alr_s[-1]:
+            print(
+                "Warning: The last timestamp in the current file is "
+                f"{alr_timestamp_end_s - self.timestamps_alr_s[-1]:.1f}s after the "
+                "range of timestamps used to model the time difference. Extraploating "
+                "the model based on the last two points."
+            )
+
+
+    def correct_timestamp(self, alr_timestamp):
+        alr_timestamp_s = alr_timestamp / self.divisions_per_second
+        # Find the two closest ALR timestamps
+        j = 0
+        for i in range(len(self.timestamps_alr_s)-1):
+            if alr_timestamp_s >= self.timestamps_alr_s[i]:
+                j = i
+
+        t = (alr_timestamp_s-self.timestamps_alr_s[j])*self.slopes[j]+self.offsets_s[j]
+        return t
+
+    def correct_timestamps(self):
+        if self.alr_timesamped_file is None:
+            print("No ALR timestamped file(s) provided.")
+            return
+
+        for atf_in, out in zip(self.alr_timesamped_file, self.output_files):
+            print(f"Reading ALR timestamped file from {atf_in}")
+            df = pd.read_csv(atf_in)
+            if self.timestamp_col not in df.columns:
+                print(
+                    f"{atf_in} has no column named {self.timestamp_col}. Aborting."
+                )
+                quit()
+            print(f"Correcting timestamps")
+            self.check_if_inside_modelled_timespan(
+                df[self.timestamp_col][0], df[self.timestamp_col].iat[-1]
+            )
+            df.insert(0, "corrected_timestamp", np.nan)
+            df["corrected_timestamp"] = df[self.timestamp_col].apply(
+                self.correct_timestamp
+            )
+            print(f"Saving corrected timestamps to {out}")
+            df.to_csv(out, index=False)
+
+
+def main():
+    parser = argparse.ArgumentParser(
+        description=(
+            "This script determines the time difference between BioCam and ALR, and "
+            "corrects ALR timestamped files, and/or plots the time difference. "
+            "The ALR timestamped file(s) (if provided) must be csv files containing a "
+            "column named 'timestamp' containing epoch timestamps. The corrected "
+            "timestamps are written to a new column named 'corrected_timestamp' and "
+            "the files are saved with the same names as the original files, with "
+            "'_corrected' appended before the filename extension."	
+        ),
+        formatter_class=argparse.ArgumentDefaultsHelpFormatter
+    )
+    parser.add_argument(
+        "biocam_serial_log",
+        nargs="+", action="append",
+        help=(
+            "BioCam serial log file(s). If there is more than one serial log file for "
+            "an ALR mission, indicate all of them to obtain the best time correction "
+            "across the entire dive. Must be indicated in temporal order."
+        )
+    )
+    parser.add_argument(
+        "-a", "--alr_timesamped_file",
+        nargs="+", action="append",
+        help="File(s) timestamped by ALR"
+    )
+    parser.add_argument(
+        "-t", "--timestamp_col", default="timestamp",
+        help=(
+            "Name of the column containing the timestamps. The same is assumed for all "
+            "ALR timestamped files provided."
+        )
+    )
+    parser.add_argument(
+        "-d", "--divisions_per_second", type=float, default=1,
+        help=(
+            "Number of divisions per second in the ALR timestamped file(s), "
+            "e.g. 1 for seconds, 1000 for milliseconds, 1000000 for microseconds. "
+            "The same is assumed for all ALR timestamped files provided."
+        )
+    )
+    parser.add_argument(
+        "-p", "--plot", action="store_true",
+        help="Plot the time difference between BioCam and ALR"
+    )
+    parser.add_argument(
+        "-f", "--force", action="store_true", help="Force overwrite of existing files"
+    )
+    args = parser.parse_args()
+
+    tc = TimeCorrector(
+        args.biocam_serial_log[0],
+        args.alr_timesamped_file,
+        args.timestamp_col,
+        args.divisions_per_second,
+        args.plot,
+        args.force
+    )
+    tc.populate_output_file_path()
+    tc.analyse_time_differences()
+    tc.correct_timestamps()
+    print("Done.")
+
+
+if __name__ == "__main__":
+    main()
-- 
2.43.0


From ad527adba6dd231c03e0f0822033fecda5857545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:51 +0000
Subject: [PATCH 113/125] fix: adjust_alr_to_biocam_time inserted _corrected at
 every .csv of the path

---
 src/scripts/adjust_alr_to_biocam_time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scripts/adjust_alr_to_biocam_time.py b/src/scripts/adjust_alr_to_biocam_time.py
index 1bc326c..d822903 100644
--- a/src/scripts/adjust_alr_to_biocam_time.py
+++ b/src/scripts/adjust_alr_to_biocam_time.py
@@ -43,7 +43,7 @@ class TimeCorrector:
                 print(f"{atf} does not end in .csv. Only .csv files are supported.")
                 print("Aborting.")
                 quit()
-            self.output_files.append(atf.replace(".csv", "_corrected.csv"))
+            self.output_files.append(atf[:-4] + "_corrected.csv")
         
         output_file_exists = [Path(of).exists() for of in self.output_files]
         if not self.force and any(output_file_exists):
-- 
2.43.0


From 921fe0f23999aa333860b32f267685a80f851c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:51 +0000
Subject: [PATCH 114/125] fix: compute_max_brightness crashed on greyscale
 images

---
 src/scripts/compute_max_brightness.py | 121 +++++++++++++-------------
 1 file changed, 61 insertions(+), 60 deletions(-)

diff --git a/src/scripts/compute_max_brightness.py b/src/scripts/compute_max_brightness.py
index 5fb7743..84c0c36 100644
--- a/src/scripts/compute_max_brightness.py
+++ b/src/scripts/compute_max_brightness.py
@@ -1,60 +1,61 @@
-"""Compute max brightness for each image in a folder
-
-Usage:
-compute_max_brightness.py [-h] image_folder [output]
-
-positional arguments:
-  image_folder  Folder with images to be analysed
-  output        Path of CSV file with max brightness for each image to be written
-                (default: image_brightness.csv)
-
-optional arguments:
-  -h, --help    show this help message and exit
-
-Copyright (c) 2024, University of Southampton
-All rights reserved.
-Licensed under the BSD 3-Clause License.
-See LICENSE.md file in the project root for full license information.
-"""
-
-import argparse
-from pathlib import Path
-
-import imageio
-import pandas as pd
-import tqdm
-
-parser = argparse.ArgumentParser(
-    formatter_class=argparse.ArgumentDefaultsHelpFormatter,
-    description=(
-        "Compute max brightness for each image in a folder. This can be used to find "
-        "images with very bright spots, e.g. fish that were close to the strobes and "
-        "cameras. These can then be excluded from the training of attenuation "
-        "parameters, to avoid introducing artefacts. Use this in combination with "
-        "find_images_with_artefacts.py. To avoid getting many false positives, apply "
-        "this on images that have been corrected with a low mean value (e.g. 5)."
-    ),
-)
-parser.add_argument("image_folder", type=str, help="Folder with images to be analysed")
-parser.add_argument(
-    "output",
-    type=str,
-    nargs="?",
-    default="image_brightness.csv",
-    help="Path of CSV file with max brightness for each image to be written",
-)
-args = parser.parse_args()
-
-image_files = [f for f in Path(args.image_folder).glob("*.jpg")]
-image_files.extend([f for f in Path(args.image_folder).glob("*.png")])
-
-max_brightnesses = []
-print(f"Computing max brightness for {len(image_files)} images")
-for image_file in tqdm.tqdm(image_files, desc="Compute max brightness for each image"):
-    img = imageio.v2.imread(image_file)
-    # Convert to grayscale
-    img = img.mean(axis=2)
-    max_brightnesses.append(img.max())
-
-df = pd.DataFrame({"path": image_files, "max_brightness": max_brightnesses})
-df.to_csv(args.output, index=False)
+"""Compute max brightness for each image in a folder
+
+Usage:
+compute_max_brightness.py [-h] image_folder [output]
+
+positional arguments:
+  image_folder  Folder with images to be analysed
+  output        Path of CSV file with max brightness for each image to be written
+                (default: image_brightness.csv)
+
+optional arguments:
+  -h, --help    show this help message and exit
+
+Copyright (c) 2024, University of Southampton
+All rights reserved.
+Licensed under the BSD 3-Clause License.
+See LICENSE.md file in the project root for full license information.
+"""
+
+import argparse
+from pathlib import Path
+
+import imageio
+import pandas as pd
+import tqdm
+
+parser = argparse.ArgumentParser(
+    formatter_class=argparse.ArgumentDefaultsHelpFormatter,
+    description=(
+        "Compute max brightness for each image in a folder. This can be used to find "
+        "images with very bright spots, e.g. fish that were close to the strobes and "
+        "cameras. These can then be excluded from the training of attenuation "
+        "parameters, to avoid introducing artefacts. Use this in combination with "
+        "find_images_with_artefacts.py. To avoid getting many false positives, apply "
+        "this on images that have been corrected with a low mean value (e.g. 5)."
+    ),
+)
+parser.add_argument("image_folder", type=str, help="Folder with images to be analysed")
+parser.add_argument(
+    "output",
+    type=str,
+    nargs="?",
+    default="image_brightness.csv",
+    help="Path of CSV file with max brightness for each image to be written",
+)
+args = parser.parse_args()
+
+image_files = [f for f in Path(args.image_folder).glob("*.jpg")]
+image_files.extend([f for f in Path(args.image_folder).glob("*.png")])
+
+max_brightnesses = []
+print(f"Computing max brightness for {len(image_files)} images")
+for image_file in tqdm.tqdm(image_files, desc="Compute max brightness for each image"):
+    img = imageio.v2.imread(image_file)
+    # Convert to grayscale
+    if img.ndim == 3:
+        img = img.mean(axis=2)
+    max_brightnesses.append(img.max())
+
+df = pd.DataFrame({"path": image_files, "max_brightness": max_brightnesses})
+df.to_csv(args.output, index=False)
-- 
2.43.0


From 35a1587f373e92adc6631130c4ff7c6f9df23a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:51 +0000
Subject: [PATCH 115/125] fix: debayer_folder wrote nothing for the MONO
 pattern

---
 src/scripts/debayer_folder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scripts/debayer_folder.py b/src/scripts/debayer_folder.py
index 90ecf60..4e12cce 100644
--- a/src/scripts/debayer_folder.py
+++ b/src/scripts/debayer_folder.py
@@ -61,7 +61,7 @@ def debayer(image_fn, pattern: str, output_folder: Path) -> np.ndarray:
     elif pattern == "gbrg" or pattern == "GBRG":
         corrected_rgb_img = cv2.cvtColor(image, cv2.COLOR_BAYER_GR2BGR_EA)
     elif pattern == "mono" or pattern == "MONO":
-        return image
+        corrected_rgb_img = image
     else:
         print("Bayer pattern not supported (", pattern, ")")
     fname = output_folder / (fname_stem + ".png")
-- 
2.43.0


From ca0f66f256e166328f3a887b76202fd4c6ec3558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:51 +0000
Subject: [PATCH 116/125] fix: generate_symlinks_to_raw_images made no links
 for relative paths

---
 src/scripts/generate_symlinks_to_raw_images.sh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/scripts/generate_symlinks_to_raw_images.sh b/src/scripts/generate_symlinks_to_raw_images.sh
index 2b088db..b439c05 100755
--- a/src/scripts/generate_symlinks_to_raw_images.sh
+++ b/src/scripts/generate_symlinks_to_raw_images.sh
@@ -71,6 +71,10 @@ if [[ -d "$destination" ]]
     fi
 fi
 
+# Links and paths below have to be valid from within the destination directory
+processed_images=$(realpath "$processed_images")
+raw_images=$(realpath "$raw_images")
+
 # Remember where we are, then `cd` into destination directory
 original_dir="$(pwd)"
 mkdir -p $destination
-- 
2.43.0


From a05c2aa64bcee77c68afddb6bd479ce5b8eca6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:52 +0000
Subject: [PATCH 117/125] fix: pixel_stats_folder transposed the mean and
 standard deviation images

---
 src/scripts/pixel_stats_folder.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/scripts/pixel_stats_folder.py b/src/scripts/pixel_stats_folder.py
index f6e7ab8..4dcddd9 100644
--- a/src/scripts/pixel_stats_folder.py
+++ b/src/scripts/pixel_stats_folder.py
@@ -249,14 +249,14 @@ for i in range(image_channels):
 
     image_raw_mean = cv2.resize(
         image_raw_mean_scaled_t,
-        (orig_image_height, orig_image_width),
+        (orig_image_width, orig_image_height),
         cv2.INTER_CUBIC,
-    ).transpose(2, 1, 0)
+    ).transpose(2, 0, 1)
     image_raw_std = cv2.resize(
         image_raw_std_scaled_t,
-        (orig_image_height, orig_image_width),
+        (orig_image_width, orig_image_height),
         cv2.INTER_CUBIC,
-    ).transpose(2, 1, 0)
+    ).transpose(2, 0, 1)
 
     """
     image_raw_mean_fig = image_raw_mean.transpose(1, 2, 0)
-- 
2.43.0


From 06ef7b9c09eddecc5efc3e6947bd9debed7df1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:52 +0000
Subject: [PATCH 118/125] fix: pixel_stats_folder let saturated pixels wrap
 round to black

---
 src/scripts/pixel_stats_folder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/scripts/pixel_stats_folder.py b/src/scripts/pixel_stats_folder.py
index 4dcddd9..ac4fb14 100644
--- a/src/scripts/pixel_stats_folder.py
+++ b/src/scripts/pixel_stats_folder.py
@@ -122,6 +122,7 @@ def correct_image(
     # apply scaling to 8 bit and format image to unit8
     filename = Path(output_folder) / image_name.name
     output_image *= 2 ** (src_bit)
+    output_image = np.clip(output_image, 0, 2**src_bit - 1)
     output_image = output_image.astype(np.uint8)
     imageio.imwrite(filename, output_image)
 
-- 
2.43.0


From 3b65ab8761f72b54cc776ab1e94377179906afb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:52 +0000
Subject: [PATCH 119/125] fix: koyo20rov conversion dropped the first record of
 each ship log

---
 src/auv_nav/parsers/koyo20rov.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/auv_nav/parsers/koyo20rov.py b/src/auv_nav/parsers/koyo20rov.py
index 00bd39f..0b6e23d 100644
--- a/src/auv_nav/parsers/koyo20rov.py
+++ b/src/auv_nav/parsers/koyo20rov.py
@@ -394,14 +394,7 @@ class RovParser:
             lat = list(dataframe_pos[31])
             lon = list(dataframe_pos[32])
             vector_pos = []
-            current_epoch = RovPos(
-                depth[0],
-                altitude[0],
-                lon[0],
-                lat[0],
-                date[0],
-                timestr[0],
-            ).epoch_timestamp
+            current_epoch = float("-inf")
             for i, this_date in enumerate(date):
                 if not isinstance(this_date, str):
                     continue
-- 
2.43.0


From 427375a14c13fdee20e27962ca602ff5268e0d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:52 +0000
Subject: [PATCH 120/125] fix: koyo20rov conversion named its output folder in
 the machine's local time

---
 src/auv_nav/parsers/koyo20rov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/parsers/koyo20rov.py b/src/auv_nav/parsers/koyo20rov.py
index 0b6e23d..d348189 100644
--- a/src/auv_nav/parsers/koyo20rov.py
+++ b/src/auv_nav/parsers/koyo20rov.py
@@ -249,7 +249,7 @@ def epoch_to_timestr(epoch: Union[int, float]) -> str:
     Returns:
         str: date as YYYYMMDD_hhmmss
     """
-    time = datetime.fromtimestamp(epoch)
+    time = datetime.utcfromtimestamp(epoch)
     timestr = (
         f"{time.year:04}{time.month:02}{time.day:02}"
         f"_{time.hour:02}{time.minute:02}{time.second:02}"
-- 
2.43.0


From 45754fd28f0273e5181acfc1f8d739a4516f6de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:52 +0000
Subject: [PATCH 121/125] fix: koyo20rov conversion interpolated the heading
 the long way across north

---
 src/auv_nav/parsers/koyo20rov.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/auv_nav/parsers/koyo20rov.py b/src/auv_nav/parsers/koyo20rov.py
index d348189..8cccdde 100644
--- a/src/auv_nav/parsers/koyo20rov.py
+++ b/src/auv_nav/parsers/koyo20rov.py
@@ -782,12 +782,18 @@ class RovParser:
             while image_epoch > self.vector_rot[i].epoch_timestamp:
                 i += 1
             # Interpolate.
-            image_object.heading = interpolate(
-                image_epoch,
-                self.vector_rot[i - 1].epoch_timestamp,
-                self.vector_rot[i].epoch_timestamp,
-                self.vector_rot[i - 1].heading,
-                self.vector_rot[i].heading,
+            # Go the short way round, also across north.
+            delta = self.vector_rot[i].heading - self.vector_rot[i - 1].heading
+            delta = (delta + 180) % 360 - 180
+            image_object.heading = (
+                interpolate(
+                    image_epoch,
+                    self.vector_rot[i - 1].epoch_timestamp,
+                    self.vector_rot[i].epoch_timestamp,
+                    self.vector_rot[i - 1].heading,
+                    self.vector_rot[i - 1].heading + delta,
+                )
+                % 360
             )
             image_object.pitch = interpolate(
                 image_epoch,
-- 
2.43.0


From 0fc7e58269f834420d167bed48df4dc74f5bd442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:57 +0000
Subject: [PATCH 122/125] fix: dead reckoning dropped its first row when
 exactly one attitude precedes the velocity

---
 src/auv_nav/process.py | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index f64beaa..8f5da99 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -788,9 +788,6 @@ def process(
     # do something? because time_orientation may be way before
     # time_velocity_body
 
-    if start_interpolate_index == 1:
-        interpolate_remove_flag = True
-
     # time_velocity_body)):
     for i in range(start_interpolate_index, len(orientation_list)):
         # interpolate to find the appropriate dvl time for the orientation
@@ -980,12 +977,6 @@ def process(
         dead_reckoning_centre_list[i].depth += z_offset
     # correct for altitude and depth offset too!
 
-    # remove first term if first time_orientation is < velocity_body time
-    if interpolate_remove_flag:
-        # del time_orientation[0]
-        del dead_reckoning_centre_list[0]
-        del dead_reckoning_dvl_list[0]
-        interpolate_remove_flag = False  # reset flag
     Console.info(
         "Completed interpolation and coordinate transfomations for",
         "velocity_body",
-- 
2.43.0


From 028531390250d911989378864e1ca486490dbae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:57 +0000
Subject: [PATCH 123/125] fix: process wrote no auv_usbl.csv when a single USBL
 fix is left

---
 src/auv_nav/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index 8f5da99..4a1ed28 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -1720,7 +1720,7 @@ def process(
     if csv_output_activate:
         Console.info("Writing csv outputs to {}".format(csvpath))
         if csv_usbl:
-            if len(usbl_list) > 1:
+            if len(usbl_list) > 0:
                 if not csvpath.exists():
                     csvpath.mkdir()
                 auv_usbl_file = csvpath / "auv_usbl.csv"
-- 
2.43.0


From 2285b5b661a530d2d8c1e19bc9dacd8828758468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:40 +0000
Subject: [PATCH 124/125] fix: process --relative_pose_uncertainty failed on
 missions with two cameras

---
 src/auv_nav/process.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index 4a1ed28..f47d3e1 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -1331,11 +1331,12 @@ def process(
         ekf_activate = True
 
         # Load previously computed states and covariances
+        laser_camera = mission.image.cameras[2 if len(mission.image.cameras) > 2 else 1]
         ekf_state_file_path = (
             renavpath
             / "csv"
             / "ekf"
-            / ("auv_ekf_" + mission.image.cameras[2].name + "_laser_at_dvl.csv")
+            / ("auv_ekf_" + laser_camera.name + "_laser_at_dvl.csv")
         )
         laser_camera_at_dvl_states = load_states(
             ekf_state_file_path, start_image_identifier, end_image_identifier
-- 
2.43.0


From 51fe39787ea88292ee55479ad6f7a5863dc98ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:40 +0000
Subject: [PATCH 125/125] fix: process --relative_pose_uncertainty wrote centre
 poses to the table of poses at the DVL

---
 src/auv_nav/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index f47d3e1..caa5704 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -1443,7 +1443,7 @@ def process(
     if compute_relative_pose_uncertainty:
         camera3_ekf_list_cropped = update_camera_list(
             camera3_ekf_list_cropped,
-            ekf_list,
+            ekf_list_dvl,
             [0, 0, 0],
             [0, 0, 0],
             latlon_reference,
-- 
2.43.0

