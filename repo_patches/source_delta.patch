From fe5f2885212a4d50f6c74f698117851978faeb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:00 +0000
Subject: [PATCH 01/38] fix: G92 must not move the machine

The offset between logical and machine coordinates was computed with the wrong
sign, so assigning any non-zero value with G92 shifted the machine position by
twice that value.
---
 pyGCodeDecode/state_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/state_generator.py b/pyGCodeDecode/state_generator.py
index fc370c8..d75bded 100644
--- a/pyGCodeDecode/state_generator.py
+++ b/pyGCodeDecode/state_generator.py
@@ -310,7 +310,7 @@ def dict_list_traveler(line_dict_list: List[dict], initial_machine_setup: dict)
             for key in line_dict["G92"]:
                 if key in known_commands["G92"]:
                     virtual_machine["_" + key] = (
-                        virtual_machine[key] + line_dict["G92"][key] + virtual_machine["_" + key]
+                        virtual_machine[key] - line_dict["G92"][key] + virtual_machine["_" + key]
                     )
                     virtual_machine[key] = line_dict["G92"][key]
 
-- 
2.43.0


From 8e97b5c5679009a0f1795ffad8dbbd0cbe3ba3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:16 +0000
Subject: [PATCH 02/38] fix: apply inch mode (G20) to coordinates, G92 values
 and feedrates

G20 was only recorded as a label; moves in inch mode were simulated as
millimeters.
---
 pyGCodeDecode/state_generator.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyGCodeDecode/state_generator.py b/pyGCodeDecode/state_generator.py
index d75bded..6212b3a 100644
--- a/pyGCodeDecode/state_generator.py
+++ b/pyGCodeDecode/state_generator.py
@@ -283,6 +283,13 @@ def dict_list_traveler(line_dict_list: List[dict], initial_machine_setup: dict)
         if "G21" in line_dict:
             virtual_machine["units"] = "SImm"
 
+        # lengths and feedrates are given in inches after G20, the machine works in millimeters
+        if virtual_machine["units"] == "inch":
+            line_dict = {
+                command: {key: 25.4 * arg for key, arg in args.items()} if command in ["G0", "G1", "G92"] else args
+                for command, args in line_dict.items()
+            }
+
         # position & velocity
         pos_keys = ["X", "Y", "Z"]
         movement_commands = ["G0", "G1"]
-- 
2.43.0


From f7c63953436a2bb5124206c832bd72cd143adef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:00 +0000
Subject: [PATCH 03/38] fix: allow a dwell before the first move

A G4 as the first block of a program crashed because there is no previous
block to take position and time from.
---
 pyGCodeDecode/planner_block.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyGCodeDecode/planner_block.py b/pyGCodeDecode/planner_block.py
index 9c43909..616cfbf 100644
--- a/pyGCodeDecode/planner_block.py
+++ b/pyGCodeDecode/planner_block.py
@@ -327,12 +327,17 @@ class planner_block:
         # dwell functionality
         if self.state_B.pause is not None:
             self.JD = [0, 0, 0, 0]
+            previous_segment = (
+                self.prev_block.get_segments()[-1]
+                if self.prev_block is not None
+                else segment.create_initial(initial_position=self.state_A.state_position)
+            )
             self.segments = [
                 segment(
-                    t_begin=self.prev_block.segments[-1].t_end,
-                    t_end=self.prev_block.segments[-1].t_end + self.state_B.pause,
-                    pos_begin=self.prev_block.segments[-1].pos_end,
-                    pos_end=self.prev_block.segments[-1].pos_end,
+                    t_begin=previous_segment.t_end,
+                    t_end=previous_segment.t_end + self.state_B.pause,
+                    pos_begin=previous_segment.pos_end,
+                    pos_end=previous_segment.pos_end,
                     vel_begin=velocity(0, 0, 0, 0),
                     vel_end=velocity(0, 0, 0, 0),
                 )
-- 
2.43.0


From d3b39eaeae4f37e3d947346fbd0589465bd0729c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:00 +0000
Subject: [PATCH 04/38] fix: never plan for an end velocity above the target
 velocity

Rounding in the junction handling can yield a junction velocity one ulp above
the feedrate, for which no profile could be modeled (RuntimeError).
---
 pyGCodeDecode/planner_block.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyGCodeDecode/planner_block.py b/pyGCodeDecode/planner_block.py
index 616cfbf..583facf 100644
--- a/pyGCodeDecode/planner_block.py
+++ b/pyGCodeDecode/planner_block.py
@@ -156,6 +156,7 @@ class planner_block:
         v_target = settings.speed
         v_begin = previous_segment.vel_end.get_norm()
         v_begin = v_begin if v_begin < v_target else v_target
+        v_end = v_end if v_end < v_target else v_target
 
         # calculate min travel for trapezoidal shape, if sum larger than distance, regular movement pattern is possible
         travel_ramp_up = (v_target - v_begin) * (v_begin + v_target) / (2 * acc)
-- 
2.43.0


From f04b465d22e207a343a882a191051ab5d08ec03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:00 +0000
Subject: [PATCH 05/38] fix: classic jerk of zero means full stop at corners

With a jerk setting of zero every corner was passed at full speed instead of
zero speed.
---
 pyGCodeDecode/junction_handling.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyGCodeDecode/junction_handling.py b/pyGCodeDecode/junction_handling.py
index ddc7371..9d801ed 100644
--- a/pyGCodeDecode/junction_handling.py
+++ b/pyGCodeDecode/junction_handling.py
@@ -182,7 +182,10 @@ class junction_handling_marlin_jerk(junction_handling):
 
         vel_diff = vel_0 - vel_1
         jerk_move = vel_diff.get_norm()
-        scale = jerk_move / self.jerk if self.jerk > 0 else 0
+        if self.jerk > 0:
+            scale = jerk_move / self.jerk
+        else:
+            scale = math.inf if jerk_move > 0 else 0  # without jerk, any change of velocity needs a full stop
 
         if scale >= 1:
             self.junction_vel = (vel_0 / scale).get_norm()
-- 
2.43.0


From 6b640c07fa65e5dc93ef2895b984659f5638b233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:00 +0000
Subject: [PATCH 06/38] fix: apply the MKA jerk factor once instead of once per
 axis

The junction velocity was multiplied by the accumulated factor in every axis
iteration, so it depended on the axis order and was far too small.
---
 pyGCodeDecode/junction_handling.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyGCodeDecode/junction_handling.py b/pyGCodeDecode/junction_handling.py
index 9d801ed..4cc745b 100644
--- a/pyGCodeDecode/junction_handling.py
+++ b/pyGCodeDecode/junction_handling.py
@@ -324,10 +324,10 @@ class junction_handling_MKA(junction_handling):
                 v_factor *= self.jerk / jerk
                 lim_flag = True
 
-            if lim_flag:
-                v_max_junc *= v_factor
+        if lim_flag:
+            v_max_junc *= v_factor
 
-            self.junction_vel = v_max_junc
+        self.junction_vel = v_max_junc
 
     def get_junction_vel(self):
         """Return the calculated junction velocity.
-- 
2.43.0


From 28e389d6d3abc258aed9334eedf204a4cf703bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:00 +0000
Subject: [PATCH 07/38] fix: scale the faster previous move in the MKA jerk
 comparison

The factor reducing the previous move to the common junction speed was applied
to the next move, so slowing down on a straight line nearly stopped.
---
 pyGCodeDecode/junction_handling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyGCodeDecode/junction_handling.py b/pyGCodeDecode/junction_handling.py
index 4cc745b..88fc35e 100644
--- a/pyGCodeDecode/junction_handling.py
+++ b/pyGCodeDecode/junction_handling.py
@@ -307,7 +307,8 @@ class junction_handling_MKA(junction_handling):
         v_factor = 1
         lim_flag = False
 
-        for v_entry, v_exit in zip(vel_0.get_vec(withExtrusion=True), vel_1.get_vec(withExtrusion=True)):
+        # v_exit: exit velocity of the previous move, v_entry: entry velocity of the next move
+        for v_exit, v_entry in zip(vel_0.get_vec(withExtrusion=True), vel_1.get_vec(withExtrusion=True)):
             v_exit *= small_speed_fac
 
             if lim_flag:
-- 
2.43.0


From cb11194bc839b983e67cf632709a3762bcff6c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:32 +0000
Subject: [PATCH 08/38] fix: allow querying values at the end time without a
 previous query

The search without a cursor excluded the end of each segment, so the end of the
simulation could only be queried after an earlier query.
---
 pyGCodeDecode/gcode_interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index 7f91066..5603659 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -138,7 +138,7 @@ def find_current_segment(path: List[segment], t: float, last_index: int = None,
         elif last_index is None or len(path) - 1 < last_index or path[last_index].t_begin > t:
             # custom_print(f"unoptimized Search, last index: {last_index}")
             for last_index, segm in enumerate(path):
-                if t >= segm.t_begin and t < segm.t_end:
+                if t >= segm.t_begin and t <= segm.t_end:
                     return segm, last_index
         else:
             for id, segm in enumerate(path[last_index:]):
-- 
2.43.0


From 70c42f2a01d0ed94444deaf5f524565c96e25801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:53 +0000
Subject: [PATCH 09/38] fix: do not lose the last block in the layer metrics

The travel distance of the last block was never counted, and a last layer
consisting of a single block was not listed at all.
---
 pyGCodeDecode/tools.py | 37 +++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/pyGCodeDecode/tools.py b/pyGCodeDecode/tools.py
index ac79908..1087421 100644
--- a/pyGCodeDecode/tools.py
+++ b/pyGCodeDecode/tools.py
@@ -46,37 +46,34 @@ def save_layer_metrics(
     last_layer_time = 0
     travel = 0
 
+    def finish_layer(layer_end):
+        duration = layer_end - last_layer_time
+        average_speed = travel / duration if duration != 0 else "NaN"
+
+        layers.append(current_layer)
+        durations.append(duration)
+        travel_distances.append(travel)
+        avg_speeds.append(average_speed)
+
     for block in simulation.blocklist:
-        last_block_of_layer = False
         next_layer = block.state_B.layer
 
-        # calculate the duration of the block
         if next_layer > current_layer:  # layer switch in this block
-            last_block_of_layer = True
             block_begin = block.segments[0].t_begin
-            duration = block_begin - last_layer_time
-        elif block.next_block is None:  # last block of the print
-            last_block_of_layer = True
-            block_end = block.segments[-1].t_end
-            duration = block_end - last_layer_time
-
-        if last_block_of_layer:
-            average_speed = travel / duration if duration != 0 else "NaN"
-
-            layers.append(current_layer)
-            durations.append(duration)
-            travel_distances.append(travel)
-            avg_speeds.append(average_speed)
+            finish_layer(layer_end=block_begin)
 
             # set variables for next layer
-            if next_layer > current_layer:
-                travel = 0
-                last_layer_time = block_begin
-                current_layer = next_layer
+            travel = 0
+            last_layer_time = block_begin
+            current_layer = next_layer
 
         # add travel distance of current block
         travel += block.get_block_travel()
 
+        if block.next_block is None:  # last block of the print
+            block_end = block.segments[-1].t_end
+            finish_layer(layer_end=block_end)
+
     # write the layer info to a csv if a filepath is given
     if filepath is not None:
         # create directory if necessary
-- 
2.43.0


From df5477fe8e97b8b8eebaac85e3b7c59e8ee1dca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:36 +0000
Subject: [PATCH 10/38] fix: use the signed acceleration for the time at a
 position

Positions inside decelerating segments were mapped to times as if the segment
was accelerating.
---
 pyGCodeDecode/utils.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pyGCodeDecode/utils.py b/pyGCodeDecode/utils.py
index 5405adb..d484622 100644
--- a/pyGCodeDecode/utils.py
+++ b/pyGCodeDecode/utils.py
@@ -466,13 +466,12 @@ class segment:
             return slope * t + scalar_begin
 
         def get_time(x):
-            a = (self.vel_end - self.vel_begin).get_norm() / (self.t_end - self.t_begin)
-            if a > 0:
+            a = (self.vel_end.get_norm() - self.vel_begin.get_norm()) / (self.t_end - self.t_begin)
+            if a != 0:
                 v_sq = 2 * a * x + self.vel_begin.get_norm() ** 2
-                t = (np.sqrt(v_sq) - self.vel_begin.get_norm()) / a if v_sq > 0 else 0
-                if v_sq <= 0:
-                    raise ValueError("Could not map time dependant scalar to space.")
-            elif a == 0:
+                v_sq = v_sq if v_sq > 0 else 0  # rounding at standstill
+                t = (np.sqrt(v_sq) - self.vel_begin.get_norm()) / a
+            else:
                 t = x / self.vel_begin.get_norm()
             return t
 
-- 
2.43.0


From fd1ce23fd9578939ba5fc349027a3afdcb17e556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:36 +0000
Subject: [PATCH 11/38] fix: write empty submodel times if the submodel is
 never crossed

An IndexError was raised if the path does not cross the control volume.
---
 pyGCodeDecode/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/tools.py b/pyGCodeDecode/tools.py
index 1087421..688fd58 100644
--- a/pyGCodeDecode/tools.py
+++ b/pyGCodeDecode/tools.py
@@ -249,7 +249,7 @@ def write_submodel_times(
                 if isec is not None and point_inside(p_eval=point_eval(isec, control_volume.get_plane_lim())):
                     timetable.append([float(block.inverse_time_at_pos(s_len)), sgn])
 
-    timetable = np.asarray(timetable)  # convert list to array for sorting
+    timetable = np.asarray(timetable).reshape(-1, 2)  # convert list to array for sorting
     timetable = timetable[timetable[:, 0].argsort()]  # sort array by first column
 
     time_in = timetable[:, 0][np.asarray(timetable[:, 1], dtype=bool)]  # filter the data for entering the CV
-- 
2.43.0


From df402c0a8e61a13d1ac34a4b30a42759b786a64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:36 +0000
Subject: [PATCH 12/38] fix: do not miss submodel crossings because of rounding

The computed intersection with a face was required to lie inside of the closed
control volume exactly, so rounding dropped many of the crossings.
---
 pyGCodeDecode/tools.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyGCodeDecode/tools.py b/pyGCodeDecode/tools.py
index 688fd58..9008eea 100644
--- a/pyGCodeDecode/tools.py
+++ b/pyGCodeDecode/tools.py
@@ -163,12 +163,12 @@ def write_submodel_times(
 
             return [X_pos, X_neg, Y_pos, Y_neg, Z_pos, Z_neg]
 
-    def point_eval(point, pl_lim):
+    def point_eval(point, pl_lim, tolerance=0.0):
         p_eval = []
         for lim_n, p_n in zip(pl_lim, point):
             inters_pl = [
-                p_n <= lim_n[0],
-                p_n >= lim_n[1],
+                p_n <= lim_n[0] + tolerance,
+                p_n >= lim_n[1] - tolerance,
             ]  # check if point is inside of [CV+, CV-]
             p_eval.append(inters_pl)
         return p_eval
@@ -246,7 +246,10 @@ def write_submodel_times(
                     p_no=plane_normal,
                 )
 
-                if isec is not None and point_inside(p_eval=point_eval(isec, control_volume.get_plane_lim())):
+                # the intersection may be rounded to a point slightly outside of the plane
+                if isec is not None and point_inside(
+                    p_eval=point_eval(isec, control_volume.get_plane_lim(), tolerance=1e-9)
+                ):
                     timetable.append([float(block.inverse_time_at_pos(s_len)), sgn])
 
     timetable = np.asarray(timetable).reshape(-1, 2)  # convert list to array for sorting
-- 
2.43.0


From 3bc6e3e8014053d5d31bfbca5520b5daaabc504f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:08 +0000
Subject: [PATCH 13/38] fix: find the time at the end of a block despite
 rounding

Moves ending exactly on a submodel face raised a ValueError or divided by zero
when the summed segment lengths are an ulp shorter than the move.
---
 pyGCodeDecode/planner_block.py | 4 ++++
 pyGCodeDecode/utils.py         | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/pyGCodeDecode/planner_block.py b/pyGCodeDecode/planner_block.py
index 583facf..c3d695f 100644
--- a/pyGCodeDecode/planner_block.py
+++ b/pyGCodeDecode/planner_block.py
@@ -411,4 +411,8 @@ class planner_block:
                 )  # interpolate time over space
                 return time_of_isect
 
+        # the end of the block may be missed because of rounding
+        if np.isclose(dist_local, cum_dist):
+            return self.segments[-1].t_end
+
         raise ValueError(f"This Planner Block with length {cum_dist} is not defined for dist: {dist_local}.")
diff --git a/pyGCodeDecode/utils.py b/pyGCodeDecode/utils.py
index d484622..ecda5ec 100644
--- a/pyGCodeDecode/utils.py
+++ b/pyGCodeDecode/utils.py
@@ -475,6 +475,9 @@ class segment:
                 t = x / self.vel_begin.get_norm()
             return t
 
+        if self.t_end == self.t_begin:
+            return scalar_begin
+
         t = get_time(x)
         scalar = lin_scalar(t)
 
-- 
2.43.0


From 1f4198e8aca29922600f9b2c4b3353291231e1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:29 +0000
Subject: [PATCH 14/38] fix: do not share the internal setup dictionary with
 simulations

Changing a property of a setup silently changed simulations created earlier.
---
 pyGCodeDecode/gcode_interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index 5603659..b2f5699 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -911,7 +911,7 @@ class setup:
         Returns:
             return_dict: (dict) setup dictionary
         """
-        return_dict = self.setup_dict[self.printer_select]  # create dict
+        return_dict = dict(self.setup_dict[self.printer_select])  # create dict, do not hand out the internal one
         return_dict.update(self.initial_position)  # add initial position
         if self.layer_cue is not None:
             return_dict.update({"layer_cue": self.layer_cue})  # add layer cue
-- 
2.43.0


From aecf3edab9b08cbf86d75fddc80732aa35004c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:29 +0000
Subject: [PATCH 15/38] fix: start extruder-only moves at rest

With classic jerk the nozzle speed of the preceding travel move was taken over
as the initial speed of the extruder.
---
 pyGCodeDecode/planner_block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/planner_block.py b/pyGCodeDecode/planner_block.py
index c3d695f..ff88265 100644
--- a/pyGCodeDecode/planner_block.py
+++ b/pyGCodeDecode/planner_block.py
@@ -154,7 +154,7 @@ class planner_block:
         # convert Velocities (vel: Object) to travel speeds (v: mm/s)
         acc = settings.p_acc
         v_target = settings.speed
-        v_begin = previous_segment.vel_end.get_norm()
+        v_begin = previous_segment.vel_end.get_norm() if not extrusion_only else 0
         v_begin = v_begin if v_begin < v_target else v_target
         v_end = v_end if v_end < v_target else v_target
 
-- 
2.43.0


From ce255181c1bfbd86911134c214711f6be4bbcb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:44 +0000
Subject: [PATCH 16/38] fix: round state positions to suppress floating point
 noise

Offsets (G92) and incremental positions accumulate errors of a few ulp, which
became moves of about 1e-16 mm in arbitrary directions with full stops.
---
 pyGCodeDecode/state_generator.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pyGCodeDecode/state_generator.py b/pyGCodeDecode/state_generator.py
index 6212b3a..cbac2bc 100644
--- a/pyGCodeDecode/state_generator.py
+++ b/pyGCodeDecode/state_generator.py
@@ -240,10 +240,10 @@ def dict_list_traveler(line_dict_list: List[dict], initial_machine_setup: dict)
 
     # initial state creation
     state_position = position(
-        virtual_machine["X"] + virtual_machine["_X"],
-        virtual_machine["Y"] + virtual_machine["_Y"],
-        virtual_machine["Z"] + virtual_machine["_Z"],
-        virtual_machine["E"] + virtual_machine["_E"],
+        round(virtual_machine["X"] + virtual_machine["_X"], 9),
+        round(virtual_machine["Y"] + virtual_machine["_Y"], 9),
+        round(virtual_machine["Z"] + virtual_machine["_Z"], 9),
+        round(virtual_machine["E"] + virtual_machine["_E"], 9),
     )
 
     p_settings = state.p_settings(
@@ -343,11 +343,12 @@ def dict_list_traveler(line_dict_list: List[dict], initial_machine_setup: dict)
             if "S" in line_dict["G4"]:
                 pause_duration = line_dict["G4"]["S"]
 
+        # rounding prevents spurious moves due to floating point noise of offsets and incremental positions
         state_position = position(
-            virtual_machine["X"] + virtual_machine["_X"],
-            virtual_machine["Y"] + virtual_machine["_Y"],
-            virtual_machine["Z"] + virtual_machine["_Z"],
-            virtual_machine["E"] + virtual_machine["_E"],
+            round(virtual_machine["X"] + virtual_machine["_X"], 9),
+            round(virtual_machine["Y"] + virtual_machine["_Y"], 9),
+            round(virtual_machine["Z"] + virtual_machine["_Z"], 9),
+            round(virtual_machine["E"] + virtual_machine["_E"], 9),
         )
 
         p_settings = state.p_settings(
-- 
2.43.0


From b097c3920e7eae989851b4349f9b88beac686334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:44 +0000
Subject: [PATCH 17/38] fix: show points in the colored 2D plot

scatter was called on the figure instead of the axes (AttributeError).
---
 pyGCodeDecode/gcode_interpreter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index b2f5699..22ee3af 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -328,13 +328,13 @@ class simulation:
                 update_progress((i + 1) / len(segments), name="2D Plot Lines")
                 x.append(segm.pos_end.get_vec()[0])
                 y.append(segm.pos_end.get_vec()[1])
-            fig = plt.subplot()
+            fig = ax1 = plt.subplot()
             fig.plot(x, y, color="black")
 
         if show_points:
             for i, block in enumerate(self.blocklist):
                 update_progress(i / len(self.blocklist), name="2D Plot Points")
-                fig.scatter(
+                ax1.scatter(
                     block.get_segments()[-1].pos_end.get_vec()[0],
                     block.get_segments()[-1].pos_end.get_vec()[1],
                     color="blue",
-- 
2.43.0


From 915e79039365696c2f65dce45da005e41d99efc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:34 +0000
Subject: [PATCH 18/38] fix: correct long chains of short blocks without
 recursion

Braking over more than about 1000 short blocks exceeded the recursion limit of
Python (RecursionError).
---
 pyGCodeDecode/planner_block.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/pyGCodeDecode/planner_block.py b/pyGCodeDecode/planner_block.py
index ff88265..d07e0da 100644
--- a/pyGCodeDecode/planner_block.py
+++ b/pyGCodeDecode/planner_block.py
@@ -204,6 +204,23 @@ class planner_block:
 
     def self_correction(self, tolerance=float("1e-12")):
         """Check for interfacing vel and self correct."""
+        # a block that can not reach the interfacing vel requires correcting the previous block as well
+        # (iterative, as these chains can be longer than the recursion limit)
+        block = self
+        flag_correct = block_corrected = block.correct_velocity(tolerance)
+        chain = [block]
+        while block_corrected and block.blocktype == "single":
+            block = block.prev_block
+            block_corrected = block.correct_velocity(tolerance)
+            chain.append(block)
+
+        for block in reversed(chain):
+            block.correct_next_block(tolerance)
+
+        return flag_correct
+
+    def correct_velocity(self, tolerance):
+        """Check for interfacing vel with the next block and recalculate segments if required."""
         flag_correct = False
         if self.next_block is not None:
             same_vel = (
@@ -220,9 +237,11 @@ class planner_block:
         if self.next_block is not None and flag_correct:
             vel_end = self.next_block.get_segments()[0].vel_begin.get_norm()
             self.move_maker2(v_end=vel_end)
-            if self.blocktype == "single":
-                self.prev_block.self_correction()  # forward correction?
 
+        return flag_correct
+
+    def correct_next_block(self, tolerance):
+        """Shift next block in time, check position continuity and settings."""
         # Timeshift the corrected blocks
         if self.next_block is not None:
             delta_t = self.get_segments()[-1].t_end - self.next_block.get_segments()[0].t_begin
@@ -244,8 +263,6 @@ class planner_block:
         except ValueError as ve:
             custom_print(f"Segment for {self.state_B} does not adhere to machine limits: {ve}")
 
-        return flag_correct
-
     def timeshift(self, delta_t: float):
         """Shift planner block in time.
 
-- 
2.43.0


From 938fa2f9439e74bce56c81bdcbab0212dd82ee51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:44 +0000
Subject: [PATCH 19/38] fix: do not confuse commands with others starting alike

Unknown commands like G12 or G17 were executed as G1, counted as G2/G3 or
raised a TypeError, and G04 was executed as G0.
---
 pyGCodeDecode/state_generator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyGCodeDecode/state_generator.py b/pyGCodeDecode/state_generator.py
index cbac2bc..f1c945f 100644
--- a/pyGCodeDecode/state_generator.py
+++ b/pyGCodeDecode/state_generator.py
@@ -120,7 +120,9 @@ def arg_extract(string: str, key_dict: dict) -> dict:
     matches: List[Match] = list()  # list to store matching keywords
 
     for key in key_dict.keys():  # look for each key in the dictionary
-        match = re.search(key, string)  # regex search for key in string
+        # command numbers have to match completely (G12 is not G1), but may have leading zeros (G01)
+        pattern = re.sub(r"(?<=[A-Z])(?=\d)", "0*", key) + r"(?![\d.])" if key[-1].isdigit() else key
+        match = re.search(pattern, string)  # regex search for key in string
         if match is not None:
             matches.append(match)  # append found matches
 
@@ -145,7 +147,7 @@ def arg_extract(string: str, key_dict: dict) -> dict:
 
     for match in matches:  # iterate through all matches, with next match available
         match_end = match.end()  # find arg beginning by using end of match
-        key = match.group()  # get key from match
+        key = re.sub(r"(?<=[A-Z])0+(?=\d)", "", match.group())  # get key from match
         arg = None
 
         match_next_start = next_larger(match_start_list, match_end)  # find arg end by using beginning of next arg
-- 
2.43.0


From 9244194594401c61c01224ca99e1754fe500d7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:00 +0000
Subject: [PATCH 20/38] fix: klipper's mid-move contact limit applies to both
 moves of a corner

Only the length of the move leaving the corner was considered, so a short move
entering a corner did not limit the junction velocity.
---
 pyGCodeDecode/junction_handling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyGCodeDecode/junction_handling.py b/pyGCodeDecode/junction_handling.py
index 88fc35e..606efc8 100644
--- a/pyGCodeDecode/junction_handling.py
+++ b/pyGCodeDecode/junction_handling.py
@@ -262,7 +262,9 @@ class junction_handling_klipper(junction_handling):
         # [from klipper]: Approximated circle must contact moves no further away than mid-move
         j_tan_theta_d2 = j_sin_theta_d2 / math.sqrt(0.5 * (1.0 + j_cos_theta))
 
-        move_centripetal_v2 = 0.5 * self.t_distance * j_tan_theta_d2 * self.state_B.state_p_settings.p_acc
+        # self.t_distance is the length of the next move
+        t_distance = min(self.t_distance, self.state_A.state_position.get_t_distance(self.state_B.state_position))
+        move_centripetal_v2 = 0.5 * t_distance * j_tan_theta_d2 * self.state_B.state_p_settings.p_acc
 
         self.junction_vel = math.sqrt(
             min(self.state_B.state_p_settings.p_acc * j_R, move_centripetal_v2, self.state_B.state_p_settings.speed**2)
-- 
2.43.0


From bccb0ea093a651eabb1c17caafc5247328487078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:19 +0000
Subject: [PATCH 21/38] fix: do not execute the text of messages (M117, M118)

---
 pyGCodeDecode/state_generator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyGCodeDecode/state_generator.py b/pyGCodeDecode/state_generator.py
index f1c945f..f7e241f 100644
--- a/pyGCodeDecode/state_generator.py
+++ b/pyGCodeDecode/state_generator.py
@@ -188,6 +188,8 @@ def read_gcode_to_dict_list(filepath: pathlib.Path) -> List[dict]:
 
     with open(file=filepath) as file_gcode:
         for i, line in enumerate(file_gcode):
+            # messages (M117, M118) are free text, which must not be searched for commands
+            line = re.sub(r"^([^;]*?)M0*11[78](?![\d.])[^;\n]*", r"\1", line)
             line_dict = arg_extract(string=line, key_dict=known_commands)
             line_dict["line_number"] = i + 1
             dict_list.append(line_dict)
-- 
2.43.0


From b2426705fb707dc5342fe1a00a4181d7c5d824f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:24 +0000
Subject: [PATCH 22/38] fix: report each crossing of the submodel surface
 exactly once

---
 pyGCodeDecode/tools.py | 164 +++++++++++++----------------------------
 1 file changed, 52 insertions(+), 112 deletions(-)

diff --git a/pyGCodeDecode/tools.py b/pyGCodeDecode/tools.py
index 9008eea..6a80141 100644
--- a/pyGCodeDecode/tools.py
+++ b/pyGCodeDecode/tools.py
@@ -137,92 +137,27 @@ def write_submodel_times(
                 ],
             ]
 
-        def get_plane_normals(self):
-            """Create Plane normals."""
-            X_pos = [1, 0, 0]
-            X_neg = [-1, 0, 0]
-
-            Y_pos = [0, 1, 0]
-            Y_neg = [0, -1, 0]
-
-            Z_pos = [0, 0, 1]
-            Z_neg = [0, 0, -1]
-
-            return [X_pos, X_neg, Y_pos, Y_neg, Z_pos, Z_neg]
-
-        def get_plane_orig(self):
-            """Create Plane origins."""
-            X_pos = [self.origin[0] + self.side_x_len / 2, 0, 0]
-            X_neg = [self.origin[0] - self.side_x_len / 2, 0, 0]
-
-            Y_pos = [0, self.origin[1] + self.side_y_len / 2, 0]
-            Y_neg = [0, self.origin[1] - self.side_y_len / 2, 0]
-
-            Z_pos = [0, 0, self.origin[2] + self.side_z_len / 2]
-            Z_neg = [0, 0, self.origin[2] - self.side_z_len / 2]
-
-            return [X_pos, X_neg, Y_pos, Y_neg, Z_pos, Z_neg]
-
-    def point_eval(point, pl_lim, tolerance=0.0):
-        p_eval = []
-        for lim_n, p_n in zip(pl_lim, point):
-            inters_pl = [
-                p_n <= lim_n[0] + tolerance,
-                p_n >= lim_n[1] - tolerance,
-            ]  # check if point is inside of [CV+, CV-]
-            p_eval.append(inters_pl)
-        return p_eval
-
-    def point_inside(p_eval):
-        return all([all(p_ev_ax) for p_ev_ax in p_eval])
-
-    def intersect_possible(p_eval0, p_eval1):
-        possible = False
-        for ax_eval0, ax_eval1 in zip(p_eval0, p_eval1):
-            if ax_eval0 != ax_eval1:
-                # crossing
-                possible = True  # if one axis crosses any plane, intersection is possible
-            elif ax_eval0 == [True, True]:
-                # contained
-                pass  # no decision can be made here
-            else:
-                # not inside and not crossing
-                return False  # if one axis is not crossing OR contained, CV is impossible
-
-        return possible
-
-    def isect_line_plane(p0, p1, p_co, p_no, epsilon=1e-6):
-        """Return a Vector or None (when the intersection can't be found).
-
-        p0, p1: Define the line.
-        p_co, p_no: define the plane:
-            p_co Is a point on the plane (plane coordinate).
-            p_no Is a normal vector defining the plane direction;
-                (does not need to be normalized).
-        """
-        p0 = np.asarray(p0)
-        p1 = np.asarray(p1)
-        p_co = np.asarray(p_co)
-        p_no = np.asarray(p_no)
-
-        u = p1 - p0
-        dot = p_no.dot(u)
-
-        if abs(dot) > epsilon:
-            # The factor of the point between p0 -> p1 (0 - 1)
-            # if 'fac' is between (0 - 1) the point intersects with the segment.
-            # Otherwise:
-            #  < 0.0: behind p0.
-            #  > 1.0: in front of p1.
-
-            w = p0 - p_co
-            fac = -np.dot(p_no, w) / dot
-            u = u * fac
-            if fac >= 0 and fac <= 1:
-                return p0 + u, np.linalg.norm(u), True if dot < 0 else False
-
-        # The segment is parallel to plane.
-        return None, None, None
+    tol = 1e-9  # rounding of the positions in mm
+
+    def strictly_inside(point, pl_lim):
+        return all(lim_n[1] + tol < p_n < lim_n[0] - tol for lim_n, p_n in zip(pl_lim, point))
+
+    def path_inside(p0, p1, pl_lim):
+        """Return the distances from p0 in between which the line from p0 to p1 is inside, or None if it is outside."""
+        u = np.asarray(p1) - np.asarray(p0)
+        fac_in, fac_out = 0.0, 1.0
+
+        for lim_n, p_n, u_n in zip(pl_lim, p0, u):
+            if abs(u_n) > tol:
+                fac = sorted([(lim_n[0] - p_n) / u_n, (lim_n[1] - p_n) / u_n])
+                fac_in, fac_out = max(fac_in, fac[0]), min(fac_out, fac[1])
+            elif not lim_n[1] - tol <= p_n <= lim_n[0] + tol:
+                return None  # parallel and outside
+
+        length = np.linalg.norm(u)
+        if (fac_out - fac_in) * length <= tol:
+            return None  # outside, or touching the surface in a point
+        return fac_in * length, fac_out * length
 
     # METHOD IMPLEMENTATION
     control_volume = cube(
@@ -231,39 +166,44 @@ def write_submodel_times(
         side_y_len=sub_side_y_len,
         side_z_len=sub_side_z_len,
     )  # define control volume
-    timetable = []
+    plane_lim = control_volume.get_plane_lim()
+    stays = []  # times of entering and leaving the control volume
+    inside = False  # the path up to the current block ends inside
 
     for block in simulation.blocklist:
-        p_eval_A = point_eval(block.state_A.state_position.get_vec(), control_volume.get_plane_lim())
-        p_eval_B = point_eval(block.state_B.state_position.get_vec(), control_volume.get_plane_lim())
-
-        if intersect_possible(p_eval0=p_eval_A, p_eval1=p_eval_B):
-            for plane_orig, plane_normal in zip(control_volume.get_plane_orig(), control_volume.get_plane_normals()):
-                isec, s_len, sgn = isect_line_plane(
-                    p0=block.state_A.state_position.get_vec(),
-                    p1=block.state_B.state_position.get_vec(),
-                    p_co=plane_orig,
-                    p_no=plane_normal,
-                )
-
-                # the intersection may be rounded to a point slightly outside of the plane
-                if isec is not None and point_inside(
-                    p_eval=point_eval(isec, control_volume.get_plane_lim(), tolerance=1e-9)
-                ):
-                    timetable.append([float(block.inverse_time_at_pos(s_len)), sgn])
-
-    timetable = np.asarray(timetable).reshape(-1, 2)  # convert list to array for sorting
-    timetable = timetable[timetable[:, 0].argsort()]  # sort array by first column
-
-    time_in = timetable[:, 0][np.asarray(timetable[:, 1], dtype=bool)]  # filter the data for entering the CV
-    time_out = timetable[:, 0][~np.asarray(timetable[:, 1], dtype=bool)]  # filter the data for exiting the CV
+        pos_A = block.state_A.state_position.get_vec()
+        pos_B = block.state_B.state_position.get_vec()
+        length = np.linalg.norm(np.asarray(pos_B) - np.asarray(pos_A))
+        if length <= tol:
+            continue  # nozzle is not moving
+
+        part = path_inside(pos_A, pos_B, plane_lim)
+        if part is None:
+            inside = False
+            continue
+
+        time_end = float(block.inverse_time_at_pos(part[1]))
+        if inside and part[0] <= tol:  # still inside
+            stays[-1][1] = time_end
+        else:
+            stays.append([float(block.inverse_time_at_pos(part[0])), time_end])
+        inside = part[1] >= length - tol
+
+    time_in = [stay[0] for stay in stays]  # entering the CV
+    time_out = [stay[1] for stay in stays]  # exiting the CV
+
+    # starting or ending inside of the CV is no crossing
+    if strictly_inside(simulation.blocklist[0].state_A.state_position.get_vec(), plane_lim):
+        time_in = time_in[1:]
+    if strictly_inside(simulation.blocklist[-1].state_B.state_position.get_vec(), plane_lim):
+        time_out = time_out[:-1]
 
     result = {
         **kwargs,  # add all kwargs to the result
         "time_process": float(simulation.blocklist[-1].get_segments()[-1].t_end),
         "n_filaments": len(time_in),
-        "time_in": time_in.tolist(),  # all time IN
-        "time_out": time_out.tolist(),  # all time OUT
+        "time_in": time_in,  # all time IN
+        "time_out": time_out,  # all time OUT
     }
 
     if filename is not None:
-- 
2.43.0


From 9a810aa0f6a0960d7aa5e07b622a650ac1f491d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:49 +0000
Subject: [PATCH 23/38] fix: segment velocity is exact at the end of a segment

The interpolated velocity of a segment that ends at rest was a rounding error
instead of zero, so the extrusion width at the end of a move was arbitrary.
---
 pyGCodeDecode/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyGCodeDecode/utils.py b/pyGCodeDecode/utils.py
index ecda5ec..4449a37 100644
--- a/pyGCodeDecode/utils.py
+++ b/pyGCodeDecode/utils.py
@@ -379,10 +379,10 @@ class segment:
             raise ValueError("Segment not defined for this point in time.")
         else:
             # linear interpolation of velocity in Segment
-            delt_vel = self.vel_end - self.vel_begin
             delt_t = self.t_end - self.t_begin
-            slope = delt_vel / delt_t if delt_t > 0 else velocity(0, 0, 0, 0)
-            current_vel = self.vel_begin + slope * (t - self.t_begin)
+            fraction = (t - self.t_begin) / delt_t if delt_t > 0 else 0.0
+            # weighting both ends gives exactly the begin and the end velocity at the ends of the segment
+            current_vel = self.vel_begin * (1.0 - fraction) + self.vel_end * fraction
             return current_vel
 
     def get_position(self, t: float) -> position:
-- 
2.43.0


From f600f63b1251ce8e5a905f6cdc09bd725a9a18f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:50 +0000
Subject: [PATCH 24/38] fix: draw a final segment of constant speed in the 2D
 position plot

Only the begin of a segment without speed change was drawn, its end was left to
the following segment, so the last one was missing.
---
 pyGCodeDecode/gcode_interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index 22ee3af..cc9315c 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -264,7 +264,7 @@ class simulation:
             segm_cvar_delt = np.greater(np.abs(np.ediff1d(cvar)), 0)
             segm_interpol = np.r_[
                 0,
-                np.where(segm_cvar_delt, np.ceil(segm_length / spatial_resolution) + 1, 1),
+                np.where(segm_cvar_delt, np.ceil(segm_length / spatial_resolution) + 1, 2),
             ]  # get nmbr of segments for required resolution, dont interpolate if there is no change
             points = np.array([x, y, cvar]).T
             points = np.c_[points, segm_interpol]
-- 
2.43.0


From d153a1744f712a9d0c8f768a4af496c4c491f3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:16 +0000
Subject: [PATCH 25/38] fix: a malformed initial position leaves the setup
 unchanged

A dictionary with an invalid value was applied up to that value.
---
 pyGCodeDecode/gcode_interpreter.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index cc9315c..cd503be 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -876,8 +876,7 @@ class setup:
         scaling = self.get_scaling_factor(input_unit_system=input_unit_system)
 
         if isinstance(initial_position, dict) and all(key in initial_position for key in ["X", "Y", "Z", "E"]):
-            for key in initial_position:
-                self.initial_position[key] = scaling * initial_position[key]
+            self.initial_position = {key: scaling * initial_position[key] for key in ["X", "Y", "Z", "E"]}
         elif isinstance(initial_position, tuple) and len(initial_position) == 4:
             self.initial_position = {
                 "X": scaling * initial_position[0],
-- 
2.43.0


From 0be657267754d75c2c1613fcdfa4c06621903afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:16 +0000
Subject: [PATCH 26/38] fix: overriding a property does not affect printers
 sharing their presets

Printers defined by a YAML alias share one dictionary, which was updated in place.
---
 pyGCodeDecode/gcode_interpreter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index cd503be..696fdac 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -900,7 +900,8 @@ class setup:
 
         """
         if self.printer_select is not None:
-            self.setup_dict[self.printer_select].update(property_dict)
+            # presets may be shared by several printers (YAML alias), so do not change them in place
+            self.setup_dict[self.printer_select] = {**self.setup_dict[self.printer_select], **property_dict}
         else:
             raise ValueError("No printer is selected. Select printer through select_printer() beforehand.")
 
-- 
2.43.0


From 6262cdce8345022b5235f19e64950a2a6e639b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:16 +0000
Subject: [PATCH 27/38] fix: a setup without selected printer is rejected with
 a ValueError

Simulating with it failed with a KeyError for None.
---
 pyGCodeDecode/gcode_interpreter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index 696fdac..c723c45 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -911,6 +911,8 @@ class setup:
         Returns:
             return_dict: (dict) setup dictionary
         """
+        if self.printer_select is None:
+            raise ValueError("No printer is selected. Select printer through select_printer() beforehand.")
         return_dict = dict(self.setup_dict[self.printer_select])  # create dict, do not hand out the internal one
         return_dict.update(self.initial_position)  # add initial position
         if self.layer_cue is not None:
-- 
2.43.0


From 1c7bb0389ca86827ab8930951d90d6f1040de89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:10 +0000
Subject: [PATCH 28/38] fix: vectors could not be divided by an int

---
 pyGCodeDecode/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/utils.py b/pyGCodeDecode/utils.py
index 4449a37..a06d93d 100644
--- a/pyGCodeDecode/utils.py
+++ b/pyGCodeDecode/utils.py
@@ -129,7 +129,7 @@ class vector_4D:
         Returns:
             div: (self) scalar division, scaling
         """
-        if type(other) is float or type(other) is np.float64:
+        if type(other) is float or type(other) is np.float64 or type(other) is int:
             x = self.x / other
             y = self.y / other
             z = self.z / other
-- 
2.43.0


From f16ea94b1b6d2075a2e0e0ba25d33c8e62025cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:10 +0000
Subject: [PATCH 29/38] fix: comparing different vectors gave None instead of
 False

---
 pyGCodeDecode/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyGCodeDecode/utils.py b/pyGCodeDecode/utils.py
index a06d93d..1f67c4f 100644
--- a/pyGCodeDecode/utils.py
+++ b/pyGCodeDecode/utils.py
@@ -165,6 +165,8 @@ class vector_4D:
             ):
                 return True
 
+        return False
+
     def get_vec(self, withExtrusion=False) -> List[float]:
         """Return the 4D vector, optionally with extrusion.
 
-- 
2.43.0


From d5fa45d02599d4308d16cb58d764676f0400b748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:10 +0000
Subject: [PATCH 30/38] fix: is_travel, is_extruding and get_t_distance failed
 for the documented lists, tuples and arrays

---
 pyGCodeDecode/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyGCodeDecode/utils.py b/pyGCodeDecode/utils.py
index 1f67c4f..b085fcb 100644
--- a/pyGCodeDecode/utils.py
+++ b/pyGCodeDecode/utils.py
@@ -267,6 +267,7 @@ class position(vector_4D):
         Returns:
             is_travel: (bool) true if between self and other is distance
         """
+        other = other if isinstance(other, vector_4D) else position(other)
         if abs(other.x - self.x) + abs(other.y - self.y) + abs(other.z - self.z) > 0:
             return True
         else:
@@ -282,6 +283,7 @@ class position(vector_4D):
         Returns:
             is_extruding: (bool) true if between self and other is extrusion
         """
+        other = other if isinstance(other, vector_4D) else position(other)
         extrusion = other.e - self.e if ignore_retract else abs(other.e - self.e)
 
         if extrusion > 0:
@@ -301,6 +303,8 @@ class position(vector_4D):
         """
         if other is None:
             other = position(0, 0, 0, 0)
+        elif not isinstance(other, vector_4D):
+            other = position(other)
         return np.linalg.norm(
             np.subtract(self.get_vec(withExtrusion=withExtrusion), other.get_vec(withExtrusion=withExtrusion))
         )
-- 
2.43.0


From c43700374d999bf5c7deb5bbf7774989ca1b694c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:10 +0000
Subject: [PATCH 31/38] fix: avoid_overspeed read attributes that do not exist
 and ignored negative velocities

---
 pyGCodeDecode/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyGCodeDecode/utils.py b/pyGCodeDecode/utils.py
index b085fcb..d11c052 100644
--- a/pyGCodeDecode/utils.py
+++ b/pyGCodeDecode/utils.py
@@ -227,10 +227,10 @@ class velocity(vector_4D):
             vel: (velocity) constrained by max velocity
         """
         scale = 1.0
-        scale = p_settings.Vx / self.Vx if self.Vx > 0 and p_settings.Vx / self.Vx < scale else scale
-        scale = p_settings.Vy / self.Vy if self.Vy > 0 and p_settings.Vy / self.Vy < scale else scale
-        scale = p_settings.Vz / self.Vz if self.Vz > 0 and p_settings.Vz / self.Vz < scale else scale
-        scale = p_settings.Ve / self.Ve if self.Vz > 0 and p_settings.Ve / self.Ve < scale else scale
+        scale = p_settings.vX / abs(self.x) if abs(self.x) * scale > p_settings.vX else scale
+        scale = p_settings.vY / abs(self.y) if abs(self.y) * scale > p_settings.vY else scale
+        scale = p_settings.vZ / abs(self.z) if abs(self.z) * scale > p_settings.vZ else scale
+        scale = p_settings.vE / abs(self.e) if abs(self.e) * scale > p_settings.vE else scale
 
         return self * scale
 
-- 
2.43.0


From 93fcd38a42c3b84b78ac081920426baf3a166bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:10 +0000
Subject: [PATCH 32/38] fix: create_initial without a position raised a
 TypeError

---
 pyGCodeDecode/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/utils.py b/pyGCodeDecode/utils.py
index d11c052..e7f8d7a 100644
--- a/pyGCodeDecode/utils.py
+++ b/pyGCodeDecode/utils.py
@@ -564,5 +564,5 @@ class segment:
             segment: (segment) initial beginning segment
         """
         velocity_0 = velocity(0, 0, 0, 0)
-        pos_0 = position(x=0, y=0, z=0, e=0) if initial_position is None else initial_position
+        pos_0 = position(0, 0, 0, 0) if initial_position is None else initial_position
         return cls(t_begin=0, t_end=0, pos_begin=pos_0, vel_begin=velocity_0, pos_end=pos_0, vel_end=velocity_0)
-- 
2.43.0


From 9a721115513aa8b0361fcce62508970d71ce1930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:10 +0000
Subject: [PATCH 33/38] fix: segment results could not be calculated because
 they were never initialized

---
 pyGCodeDecode/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyGCodeDecode/utils.py b/pyGCodeDecode/utils.py
index e7f8d7a..19975a5 100644
--- a/pyGCodeDecode/utils.py
+++ b/pyGCodeDecode/utils.py
@@ -353,6 +353,7 @@ class segment:
         self.pos_end = pos_end
         self.vel_begin = vel_begin
         self.vel_end = vel_end
+        self.result = {}
         self.self_check()
 
     def __str__(self) -> str:
-- 
2.43.0


From 8f622a447e8e85fe2bb9d23cb2fb80212f0158ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:07 +0000
Subject: [PATCH 34/38] fix: inverse_time_at_pos was not a number for blocks
 without travel

---
 pyGCodeDecode/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/utils.py b/pyGCodeDecode/utils.py
index 19975a5..2c205a6 100644
--- a/pyGCodeDecode/utils.py
+++ b/pyGCodeDecode/utils.py
@@ -479,7 +479,7 @@ class segment:
                 v_sq = v_sq if v_sq > 0 else 0  # rounding at standstill
                 t = (np.sqrt(v_sq) - self.vel_begin.get_norm()) / a
             else:
-                t = x / self.vel_begin.get_norm()
+                t = x / self.vel_begin.get_norm() if x != 0 else 0  # standstill
             return t
 
         if self.t_end == self.t_begin:
-- 
2.43.0


From cde7a2b127f532d63ade74ac82b80264c7550ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:19 +0000
Subject: [PATCH 35/38] fix: find_current_segment did not find gaps ahead of
 the hint

---
 pyGCodeDecode/gcode_interpreter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index c723c45..40f1cb8 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -118,17 +118,17 @@ def find_current_segment(path: List[segment], t: float, last_index: int = None,
             for id, segm in enumerate(path[last_index:]):
                 if t >= segm.t_begin and t <= segm.t_end:
                     return segm, last_index + id
-                elif t >= segm.t_end and t < path[last_index + 1].t_begin:
+                elif t >= segm.t_end and t < path[last_index + id + 1].t_begin:
                     # if no segment exists, create one that interpolates the previous segment as static
                     interpolated_segment = segment(
                         t_begin=segm.t_end,
-                        t_end=path[last_index + 1].t_begin,
+                        t_end=path[last_index + id + 1].t_begin,
                         pos_begin=segm.pos_end,
                         pos_end=segm.pos_end,
                         vel_begin=velocity(0, 0, 0, 0),
                         vel_end=velocity(0, 0, 0, 0),
                     )
-                    return interpolated_segment, last_index
+                    return interpolated_segment, last_index + id
     else:
         # original function untouched
         # some robustness checks
-- 
2.43.0


From 8cfaa2924f4311b76e7d7bf8cf5eb0c9784498f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:22 +0000
Subject: [PATCH 36/38] fix: find_current_segment with keep_position failed at
 the end of the path

---
 pyGCodeDecode/gcode_interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index 40f1cb8..8912d9a 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -100,7 +100,7 @@ def find_current_segment(path: List[segment], t: float, last_index: int = None,
         if last_index is None or len(path) - 1 < last_index or path[last_index].t_begin > t:
             # unoptimized search, still returns index
             for last_index, segm in enumerate(path):
-                if t >= segm.t_begin and t < segm.t_end:
+                if t >= segm.t_begin and t <= segm.t_end:
                     return segm, last_index
                 elif t >= segm.t_end and t < path[last_index + 1].t_begin:
                     # if no segment exists, create one that interpolates the previous segment as static
-- 
2.43.0


From 2c5ae5905e781d35e2ce9ef6d87a98910b4c87d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:38 +0000
Subject: [PATCH 37/38] fix: saving layer metrics restores the locale of the
 process

---
 pyGCodeDecode/tools.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pyGCodeDecode/tools.py b/pyGCodeDecode/tools.py
index 6a80141..e8bed6a 100644
--- a/pyGCodeDecode/tools.py
+++ b/pyGCodeDecode/tools.py
@@ -1,5 +1,6 @@
 """Tools for pyGCD."""
 
+import contextlib
 import locale as loc
 import pathlib
 from typing import Optional
@@ -11,6 +12,17 @@ from pyGCodeDecode.gcode_interpreter import simulation
 from pyGCodeDecode.helpers import custom_print
 
 
+@contextlib.contextmanager
+def _keep_locale():
+    """Restore the locale of the process afterwards."""
+    locale_before = loc.setlocale(loc.LC_ALL)
+    try:
+        yield
+    finally:
+        loc.setlocale(loc.LC_ALL, locale_before)
+
+
+@_keep_locale()
 def save_layer_metrics(
     simulation: simulation,
     filepath: Optional[pathlib.Path] = pathlib.Path("./layer_metrics.csv"),
-- 
2.43.0


From 5cad48ac1e208cd09be4183080679db38d2179fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:39 +0000
Subject: [PATCH 38/38] fix: G-code is read as UTF-8 whatever the locale of the
 process is

---
 pyGCodeDecode/state_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/state_generator.py b/pyGCodeDecode/state_generator.py
index f7e241f..225d5c3 100644
--- a/pyGCodeDecode/state_generator.py
+++ b/pyGCodeDecode/state_generator.py
@@ -186,7 +186,7 @@ def read_gcode_to_dict_list(filepath: pathlib.Path) -> List[dict]:
     custom_print("Parsing the gcode...")
     dict_list = []
 
-    with open(file=filepath) as file_gcode:
+    with open(file=filepath, encoding="utf-8", errors="replace") as file_gcode:
         for i, line in enumerate(file_gcode):
             # messages (M117, M118) are free text, which must not be searched for commands
             line = re.sub(r"^([^;]*?)M0*11[78](?![\d.])[^;\n]*", r"\1", line)
-- 
2.43.0

