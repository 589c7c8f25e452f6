From d6f047fc7e3ffe245e71460546ebecf0be252edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:24 +0000
Subject: [PATCH 01/22] fix: array_list::copy keeps the copied elements in
 order

The elements are copied to the start of the storage, so the front index must stay 0.
---
 GcodeProcessorLib/array_list.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/GcodeProcessorLib/array_list.h b/GcodeProcessorLib/array_list.h
index 1befaa6..89b3dfa 100644
--- a/GcodeProcessorLib/array_list.h
+++ b/GcodeProcessorLib/array_list.h
@@ -179,7 +179,6 @@ public:
 		{
 			items_[index] = source[index];
 		}
-		front_index_ = source.front_index_;
 		count_ = source.count_;
 	}
 
-- 
2.43.0


From 8f8dfeb6c83700ef0193a9baef4e31934a171751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:24 +0000
Subject: [PATCH 02/22] fix: circular_buffer::push_back and copy keep the
 sequence

push_back counted an element twice, and when full did not advance the front past the
overwritten oldest element; copy kept the source's front index after linearising.
---
 GcodeProcessorLib/circular_buffer.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/GcodeProcessorLib/circular_buffer.h b/GcodeProcessorLib/circular_buffer.h
index 645234e..e19c475 100644
--- a/GcodeProcessorLib/circular_buffer.h
+++ b/GcodeProcessorLib/circular_buffer.h
@@ -118,11 +118,14 @@ public:
 	{
 		int pos = get_index_position(count_);
 		items_[pos] = object;
-		count_++;
 		if (count_ != max_size_)
 		{
 			count_++;
 		}
+		else
+		{
+			front_index_ = get_index_position(1);
+		}
 	}
 
 	T& pop_front()
@@ -193,7 +196,6 @@ public:
 		{
 			items_[index] = source[index];
 		}
-		front_index_ = source.front_index_;
 		count_ = source.count_;
 	}
 
-- 
2.43.0


From aaed3e94d54039ee8518ea809f26d4f615009454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:26 +0000
Subject: [PATCH 03/22] fix: position(int) read num_extruders before it was set

---
 GcodeProcessorLib/position.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GcodeProcessorLib/position.cpp b/GcodeProcessorLib/position.cpp
index d9cd3a8..25575fd 100644
--- a/GcodeProcessorLib/position.cpp
+++ b/GcodeProcessorLib/position.cpp
@@ -214,6 +214,7 @@ position::position(int extruder_count)
 	is_in_bounds = true;
 	current_tool = 0;
 	p_extruders = NULL;
+	num_extruders = 0;
 	set_num_extruders(extruder_count);
 	
 }
-- 
2.43.0


From 3fc6fcdad639d12cb9e7b5ceed78fd9eed37ebcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:22 +0000
Subject: [PATCH 04/22] fix: process_gcode used positions freed by growing the
 position buffer

---
 ArcWelder/arc_welder.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index c68fdc0..b6247ae 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -622,6 +622,9 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
       if (current_arc_.get_num_segments() + 2 > p_source_position_->get_max_positions())
       {
         p_source_position_->grow_max_positions(p_source_position_->get_max_positions() * 2);
+        // The positions have been reallocated, get the current and previous position again
+        p_cur_pos = p_source_position_->get_current_position_ptr();
+        p_pre_pos = p_source_position_->get_previous_position_ptr();
       }
       if (!waiting_for_arc_)
       {
-- 
2.43.0


From 587d3cb4db777373cec7126e937dfb55a2c34764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:09 +0000
Subject: [PATCH 05/22] fix: an indented or non-ascii unknown command was taken
 for an empty line

---
 GcodeProcessorLib/gcode_parser.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/GcodeProcessorLib/gcode_parser.cpp b/GcodeProcessorLib/gcode_parser.cpp
index 1a4b928..ee38f04 100644
--- a/GcodeProcessorLib/gcode_parser.cpp
+++ b/GcodeProcessorLib/gcode_parser.cpp
@@ -134,10 +134,11 @@ bool gcode_parser::try_parse_gcode(const char * gcode, parsed_command & command,
 		while (true)
 		{
 			char c = *p_gcode;
-			if (c == '\0' || c == ';' || c == ' ' || c == '\t')
+			if (c == '\0' || c == ';')
 				break;
-			else if (c > 31)
+			else if (c > 32 || c < 0)
 			{
+				// Anything printable (including non-ascii text) is a command, even if it is indented
 				command.is_empty = false;
 				break;
 			}
-- 
2.43.0


From ceb71e7e7a3b598e3bdc4c0504cea4f29b762ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:09 +0000
Subject: [PATCH 06/22] fix: arcs could start at a position that is not known
 (before the first move, after G28)

---
 ArcWelder/arc_welder.cpp             |  2 ++
 GcodeProcessorLib/gcode_position.cpp | 15 +++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index b6247ae..9f24aab 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -578,6 +578,8 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
       utilities::is_equal(p_cur_pos->z_firmware_offset, p_pre_pos->z_firmware_offset) &&
       (previous_extrusion_rate_ == 0 || utilities::less_than_or_equal(extrusion_rate_change_percent, extrusion_rate_variance_percent_)) &&
       !p_cur_pos->is_relative &&
+      // An arc can't start at an unknown position
+      !p_pre_pos->x_null && !p_pre_pos->y_null && p_pre_pos->z_null == p_cur_pos->z_null &&
       (
         !waiting_for_arc_ ||
         extruder_current.is_extruding ||
diff --git a/GcodeProcessorLib/gcode_position.cpp b/GcodeProcessorLib/gcode_position.cpp
index 3c60868..e69a8b0 100644
--- a/GcodeProcessorLib/gcode_position.cpp
+++ b/GcodeProcessorLib/gcode_position.cpp
@@ -1104,18 +1104,33 @@ void gcode_position::process_g28(position* pos, parsed_command& cmd)
 		pos->x = home_x_;
 		pos->x_null = false;
 	}
+	else if (set_x_home)
+	{
+		// We don't know where home is, so the position is unknown until the next absolute move
+		pos->x_null = true;
+	}
 	// todo: set error flag on else
 	if (set_y_home && !home_y_none_)
 	{
 		pos->y = home_y_;
 		pos->y_null = false;
 	}
+	else if (set_y_home)
+	{
+		// We don't know where home is, so the position is unknown until the next absolute move
+		pos->y_null = true;
+	}
 	// todo: set error flag on else
 	if (set_z_home && !home_z_none_)
 	{
 		pos->z = home_z_;
 		pos->z_null = false;
 	}
+	else if (set_z_home)
+	{
+		// We don't know where home is, so the position is unknown until the next absolute move
+		pos->z_null = true;
+	}
 	// todo: set error flag on else
 }
 
-- 
2.43.0


From ac38e14dcca5a4fdb440d3df8cc99b06e23c8350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:48 +0000
Subject: [PATCH 07/22] fix: a blank line switched off the extrusion rate check
 for the next move

---
 ArcWelder/arc_welder.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 9f24aab..9b03b42 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -735,8 +735,11 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
       }
     }
 
-    // Reset the previous extrusion rate
-    previous_extrusion_rate_ = 0;
+    // Reset the previous extrusion rate, but not for blank lines, since they don't end the current arc
+    if (!(cmd.is_empty && cmd.comment.length() == 0))
+    {
+      previous_extrusion_rate_ = 0;
+    }
   }
 
   if (!arc_added && !(cmd.is_empty && cmd.comment.length() == 0))
-- 
2.43.0


From 554ff277132825eaf52fa11cc97ffa2d9f02588c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:26 +0000
Subject: [PATCH 08/22] fix: a first travel move could be merged into an
 extruding arc (and the other way round)

---
 ArcWelder/segmented_arc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ArcWelder/segmented_arc.cpp b/ArcWelder/segmented_arc.cpp
index bc17ef8..43b43c1 100644
--- a/ArcWelder/segmented_arc.cpp
+++ b/ArcWelder/segmented_arc.cpp
@@ -155,8 +155,8 @@ bool segmented_arc::try_add_point(printer_point p)
       return false;
     }
 
-    // If we have more than 2 points, we need to make sure the current and previous moves are all of the same type.
-    if (points_.count() > 2)
+    // If we already have a move (at least 2 points), we need to make sure the current and previous moves are all of the same type.
+    if (points_.count() > 1)
     {
       // TODO:  Do we need this?
       // We already have at least an initial point and a second point.  Make cure the current point and the previous are either both
-- 
2.43.0


From a9d77d374d8a5ab6d34b33d54bfcd0932cfde992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:26 +0000
Subject: [PATCH 09/22] fix: the arc's length limit was checked against the
 extrusion without its last move

---
 ArcWelder/segmented_arc.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/ArcWelder/segmented_arc.cpp b/ArcWelder/segmented_arc.cpp
index 43b43c1..ebc6895 100644
--- a/ArcWelder/segmented_arc.cpp
+++ b/ArcWelder/segmented_arc.cpp
@@ -185,6 +185,11 @@ bool segmented_arc::try_add_point(printer_point p)
     point_added = true;
     points_.push_back(p);
     original_shape_length_ += p.distance;
+    if (points_.count() > 1)
+    {
+      // Only add the relative distance to the second point on up.
+      e_relative_ += p.e_relative;
+    }
   }
   else
   {
@@ -193,12 +198,6 @@ bool segmented_arc::try_add_point(printer_point p)
   }
   if (point_added)
   {
-
-    if (points_.count() > 1)
-    {
-      // Only add the relative distance to the second point on up.
-      e_relative_ += p.e_relative;
-    }
     //std::cout << " success - " << points_.count() << " points.\n";
   }
   else if (points_.count() < get_min_segments() && points_.count() > 1)
@@ -228,6 +227,9 @@ bool segmented_arc::try_add_point_internal_(printer_point p)
   points_.push_back(p);
   double previous_shape_length = original_shape_length_;
   original_shape_length_ += p.distance;
+  // The gcode (and its length) depends on the total extrusion, so it must include the new point.
+  double previous_e_relative = e_relative_;
+  e_relative_ += p.e_relative;
   arc original_arc = current_arc_;
   if (arc::try_create_arc(points_, current_arc_, original_shape_length_, max_radius_mm_, resolution_mm_, path_tolerance_percent_, min_arc_segments_, mm_per_arc_segment_, get_xyz_tolerance(), allow_3d_arcs_))
   {
@@ -286,6 +288,7 @@ bool segmented_arc::try_add_point_internal_(printer_point p)
   // Can't create the arc.  Remove the point and remove the previous segment length.
   points_.pop_back();
   original_shape_length_ = previous_shape_length;
+  e_relative_ = previous_e_relative;
   return false;
 }
 
-- 
2.43.0


From 151e095c21af803018a3bf899335fd5998a727f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:20 +0000
Subject: [PATCH 10/22] fix: raising the dynamic precision no longer makes the
 open arc exceed the maximum gcode length

---
 ArcWelder/segmented_arc.cpp | 26 ++++++++++++++++++++++++++
 ArcWelder/segmented_arc.h   |  3 +++
 ArcWelder/segmented_shape.h |  4 ++--
 3 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/ArcWelder/segmented_arc.cpp b/ArcWelder/segmented_arc.cpp
index ebc6895..34d348f 100644
--- a/ArcWelder/segmented_arc.cpp
+++ b/ArcWelder/segmented_arc.cpp
@@ -127,6 +127,32 @@ double segmented_arc::get_mm_per_arc_segment() const
   return mm_per_arc_segment_;
 }
 
+// The precision applies to the gcode of the current shape too, so it is only raised if the gcode stays within the maximum length.
+void segmented_arc::update_xyz_precision(unsigned char precision)
+{
+  unsigned char previous_precision = get_xyz_precision();
+  segmented_shape::update_xyz_precision(precision);
+  if (is_shape_gcode_too_long_())
+  {
+    set_xyz_precision(previous_precision);
+  }
+}
+
+void segmented_arc::update_e_precision(unsigned char precision)
+{
+  unsigned char previous_precision = get_e_precision();
+  segmented_shape::update_e_precision(precision);
+  if (is_shape_gcode_too_long_())
+  {
+    e_precision_ = previous_precision;
+  }
+}
+
+bool segmented_arc::is_shape_gcode_too_long_()
+{
+  return is_shape_ && max_gcode_length_ > 0 && get_shape_gcode_length() > max_gcode_length_;
+}
+
 bool segmented_arc::is_shape() const
 {
   return is_shape_;
diff --git a/ArcWelder/segmented_arc.h b/ArcWelder/segmented_arc.h
index 7e73781..87b8138 100644
--- a/ArcWelder/segmented_arc.h
+++ b/ArcWelder/segmented_arc.h
@@ -58,8 +58,11 @@ public:
 	double get_mm_per_arc_segment() const;
 	int get_num_firmware_compensations() const;
 	int get_num_gcode_length_exceptions() const;
+	void update_xyz_precision(unsigned char precision);
+	void update_e_precision(unsigned char precision);
 private:
 	bool try_add_point_internal_(printer_point p);
+	bool is_shape_gcode_too_long_();
 	arc current_arc_;
 	double max_radius_mm_;
 	int min_arc_segments_;
diff --git a/ArcWelder/segmented_shape.h b/ArcWelder/segmented_shape.h
index d466a42..d615ca8 100644
--- a/ArcWelder/segmented_shape.h
+++ b/ArcWelder/segmented_shape.h
@@ -246,13 +246,13 @@ protected:
 	double resolution_mm_;
 	bool is_shape_;
 	double path_tolerance_percent_;
+	unsigned char e_precision_;
+	void set_xyz_precision(unsigned char precision);
 private:
 	int min_segments_;
 	int max_segments_;
 	unsigned char xyz_precision_;
 	double xyz_tolerance_;
-	unsigned char e_precision_;
 	void set_xyz_tolerance_from_precision();
-	void set_xyz_precision(unsigned char precision);
 	
 };
-- 
2.43.0


From 7861fc1799aed239b50fcfb3ef8b9a7dc1b1ca55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:08 +0000
Subject: [PATCH 11/22] fix: length of source arcs in the statistics used the
 number of decimals of I and J instead of their value, and a mirrored center

---
 ArcWelder/arc_welder.cpp        | 6 +++---
 GcodeProcessorLib/utilities.cpp | 7 ++++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 9b03b42..20e7fc1 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -471,14 +471,14 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
         switch ((*it).name[0])
         {
         case 'I':
-          i = (*it).double_precision;
+          i = (*it).double_value;
           break;
         case 'J':
-          j = (*it).double_precision;
+          j = (*it).double_value;
           break;
           // Note that the R form isn't fully implemented!
         case 'R':
-          r = (*it).double_precision;
+          r = (*it).double_value;
           break;
         }
       }
diff --git a/GcodeProcessorLib/utilities.cpp b/GcodeProcessorLib/utilities.cpp
index d16f8f4..5196773 100644
--- a/GcodeProcessorLib/utilities.cpp
+++ b/GcodeProcessorLib/utilities.cpp
@@ -212,13 +212,14 @@ double utilities::get_cartesian_distance(double x1, double y1, double z1, double
 
 double utilities::get_arc_distance(double x1, double y1, double z1, double x2, double y2, double z2, double i, double j, double r, bool is_clockwise)
 {
-	double center_x = x1 - i;
-	double center_y = y1 - j;
+	// I and J are the offset of the center from the start point
+	double center_x = x1 + i;
+	double center_y = y1 + j;
 	double radius = utilities::hypot(i, j);
 	double z_dist = z2 - z1;
 	double rt_x = x2 - center_x;
 	double rt_y = y2 - center_y;
-	double angular_travel_total = utilities::atan2(i * rt_y - j * rt_x, i * rt_x + j * rt_y);
+	double angular_travel_total = utilities::atan2(j * rt_x - i * rt_y, -i * rt_x - j * rt_y);
 	if (angular_travel_total < 0) { angular_travel_total += 2.0 * PI_DOUBLE; }
 	// Adjust the angular travel if the direction is clockwise
 	if (is_clockwise) { angular_travel_total -= 2.0 * PI_DOUBLE; }
-- 
2.43.0


From 93612b0d5549cc7e5634ffb1a490017e435892d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:20 +0000
Subject: [PATCH 12/22] fix: the center of an arc through nearby points with
 large coordinates was off by more than the resolution

---
 ArcWelder/segmented_shape.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/ArcWelder/segmented_shape.cpp b/ArcWelder/segmented_shape.cpp
index 3da264c..7eb9318 100644
--- a/ArcWelder/segmented_shape.cpp
+++ b/ArcWelder/segmented_shape.cpp
@@ -159,12 +159,13 @@ bool circle::try_create_circle(const point& p1, const point& p2, const point& p3
   {
     return false;
   }
-  double x1 = p1.x;
-  double y1 = p1.y;
-  double x2 = p2.x;
-  double y2 = p2.y;
-  double x3 = p3.x;
-  double y3 = p3.y;
+  // Calculate relative to p1, else the products of large coordinates cancel and the center can be off by more than the resolution.
+  double x1 = 0;
+  double y1 = 0;
+  double x2 = p2.x - p1.x;
+  double y2 = p2.y - p1.y;
+  double x3 = p3.x - p1.x;
+  double y3 = p3.y - p1.y;
 
   double a = x1 * (y2 - y3) - y1 * (x2 - x3) + x2 * y3 - x3 * y2;
   //  Take out to figure out how we handle very small values for a
@@ -187,8 +188,8 @@ bool circle::try_create_circle(const point& p1, const point& p2, const point& p3
   if (radius > max_radius)
     return false;
 
-  new_circle.center.x = x;
-  new_circle.center.y = y;
+  new_circle.center.x = p1.x + x;
+  new_circle.center.y = p1.y + y;
   new_circle.center.z = p1.z;
   new_circle.radius = radius;
 
-- 
2.43.0


From 3a03a570db119dba9e4b6ecea8fb281a83abe635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:29 +0000
Subject: [PATCH 13/22] fix: overwriting the source file replaced it with an
 incomplete one when processing was cancelled or failed

---
 ArcWelder/arc_welder.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 20e7fc1..f82de79 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -354,9 +354,17 @@ arc_welder_results arc_welder::process()
 
   p_logger_->log(logger_type_, log_levels::DEBUG, "Closing source and target files.");
   output_file_.close();
+  // If processing was cancelled, or the source could not be read or the target could not be written, the target file is incomplete.
+  bool is_target_complete = continue_processing && !gcodeFile.bad() && !output_file_.fail();
   gcodeFile.close();
 
-  if (overwrite_source_file)
+  if (overwrite_source_file && !is_target_complete)
+  {
+    // Keep the source file
+    p_logger_->log(logger_type_, log_levels::DEBUG, "The target file is incomplete, the source file will not be overwritten.  Deleting the temporary file.");
+    std::remove(target_path_.c_str());
+  }
+  else if (overwrite_source_file)
   {
     stream.clear();
     stream.str("");
@@ -370,7 +378,12 @@ arc_welder_results arc_welder::process()
     std::rename(target_path_.c_str(), source_path_.c_str());
   }
 
-  results.success = continue_processing;
+  results.success = is_target_complete;
+  if (continue_processing && !is_target_complete)
+  {
+    results.message = "Unable to read the source file or to write the target file.";
+    p_logger_->log_exception(logger_type_, results.message);
+  }
   results.cancelled = !continue_processing;
   results.progress = final_progress;
   p_logger_->log(logger_type_, log_levels::DEBUG, "Returning processing results.");
-- 
2.43.0


From 4f43f584fa14ec0aab8ef2908a2eedfd58e02fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:29 +0000
Subject: [PATCH 14/22] fix: the straightener replaced its source file when it
 could not be read or the output could not be written

---
 .../ArcWelderInverseProcessor.cpp                     | 11 ++++++++++-
 ArcWelderInverseProcessor/arc_interpolation.cpp       |  5 ++++-
 ArcWelderInverseProcessor/arc_interpolation.h         |  5 ++++-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
index 9a82f76..5ddbd09 100644
--- a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
+++ b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
@@ -578,7 +578,16 @@ int run_arc_straightener(int argc, char* argv[])
   p_logger->log(0, log_levels::INFO, log_messages.str());
 
   p_logger->log(0, log_levels::INFO, "Running interpolation...");
-  interpolator.process();
+  if (!interpolator.process())
+  {
+    // Keep the source file
+    p_logger->log(0, log_levels::ERROR, "The target file could not be created.");
+    if (overwrite_source_file)
+    {
+      std::remove(args.target_path.c_str());
+    }
+    return 1;
+  }
   p_logger->log(0, log_levels::INFO, "Interpolation Complete.");
 
   log_messages.clear();
diff --git a/ArcWelderInverseProcessor/arc_interpolation.cpp b/ArcWelderInverseProcessor/arc_interpolation.cpp
index feb045b..d26e9e8 100644
--- a/ArcWelderInverseProcessor/arc_interpolation.cpp
+++ b/ArcWelderInverseProcessor/arc_interpolation.cpp
@@ -114,7 +114,7 @@ arc_interpolation::~arc_interpolation()
  
 }
 
-void arc_interpolation::process()
+bool arc_interpolation::process()
 {
   // Create a stringstream we can use for messaging.
   std::stringstream stream;
@@ -148,6 +148,7 @@ void arc_interpolation::process()
   output_file_.sync_with_stdio(false);
   gcode_parser parser;
   int gcodes_processed = 0;
+  bool is_target_complete = false;
   if (gcode_file.is_open())
   {
     if (output_file_.is_open())
@@ -249,6 +250,7 @@ void arc_interpolation::process()
 
       }
       output_file_.close();
+      is_target_complete = !gcode_file.bad() && !output_file_.fail();
     }
     else
     {
@@ -273,6 +275,7 @@ void arc_interpolation::process()
   stream << "\tArc Segments Generated: " << p_current_firmware_->get_num_arc_segments_generated() << "\r\n";
   stream << "\tTotal Seconds         : " << total_seconds << "\r\n";
   std::cout << stream.str();
+  return is_target_complete;
 }
 
 std::string arc_interpolation::get_firmware_arguments_description(std::string separator, std::string argument_prefix, std::string replacement_string, std::string replacement_value) const
diff --git a/ArcWelderInverseProcessor/arc_interpolation.h b/ArcWelderInverseProcessor/arc_interpolation.h
index e1eed16..ab91c5b 100644
--- a/ArcWelderInverseProcessor/arc_interpolation.h
+++ b/ArcWelderInverseProcessor/arc_interpolation.h
@@ -69,7 +69,10 @@ class arc_interpolation
 		arc_interpolation();
 		arc_interpolation(arc_interpolation_args args);
 		virtual ~arc_interpolation();
-		void process();
+		/// <summary>
+		/// Returns false if the target file could not be completed.
+		/// </summary>
+		bool process();
 		/// <summary>
 		/// Outputs a string description of the firmware arguments.
 		/// </summary>
-- 
2.43.0


From 2065a84fe65fb032417679dedbbab115d5782fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:29 +0000
Subject: [PATCH 15/22] fix: a trailing blank line was duplicated and the last
 arc was not written

---
 ArcWelder/arc_welder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index f82de79..7758459 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -755,7 +755,8 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
     }
   }
 
-  if (!arc_added && !(cmd.is_empty && cmd.comment.length() == 0))
+  // Blank lines don't end the current arc, but the end of the file does
+  if (!arc_added && (is_end || !(cmd.is_empty && cmd.comment.length() == 0)))
   {
     if (current_arc_.get_num_segments() < current_arc_.get_min_segments()) {
       if (debug_logging_enabled_ && !cmd.is_empty)
-- 
2.43.0


From f1ec8e78f8d1751f7ab3e1a0766195f054b36eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:40 +0000
Subject: [PATCH 16/22] fix: printing numbers with decimals wrote past its
 buffer, lost digits of large numbers

emit_digits_decimal kept the length in 8 bits, left whole numbers with more
than 7 trailing zeros to the branch for fractions (printed as 0.000...), and
fpconv_dtos filled a 25 byte buffer with up to 567 characters.
---
 GcodeProcessorLib/fpconv.cpp  | 15 +++++++--------
 GcodeProcessorLib/fpconv.h    |  4 +++-
 GcodeProcessorLib/utilities.h |  3 ++-
 3 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/GcodeProcessorLib/fpconv.cpp b/GcodeProcessorLib/fpconv.cpp
index 9c2b8ee..5faefa4 100644
--- a/GcodeProcessorLib/fpconv.cpp
+++ b/GcodeProcessorLib/fpconv.cpp
@@ -334,10 +334,9 @@ static int emit_digits(char* digits, int ndigits, char* dest, int K, bool neg)
 
 static int emit_digits_decimal(char* digits, int ndigits, char* dest, int K, bool neg, unsigned char precision)
 {
-  int exp = absv(K + ndigits - 1);
-  unsigned char length = 0;
+  int length = 0;
   /* write plain integer */
-  if (K >= 0 && (exp < (ndigits + 7))) {
+  if (K >= 0) {
     memcpy(dest, digits, ndigits);
     memset(dest + ndigits, '0', K);
     // pad with 0s if we need to 
@@ -360,10 +359,12 @@ static int emit_digits_decimal(char* digits, int ndigits, char* dest, int K, boo
   int offset = ndigits - absv(K);
   
   // round the number in dest
-  unsigned char terminator_location;
+  int terminator_location;
   /* fp < 1.0 -> write leading zero */
   if (offset <= 0) {
-    offset = -offset;
+    // digits past the first one that is cut off are not needed
+    offset = minv(-offset, precision + 1);
+    ndigits = minv(ndigits, precision + 1 - offset);
     dest[0] = '0';
     dest[1] = '.';
     memset(dest + 2, '0', offset);
@@ -390,8 +391,6 @@ static int emit_digits_decimal(char* digits, int ndigits, char* dest, int K, boo
     }
   }
   
-  
-  if (terminator_location < 24)
   {
     // Get the character at the terminator location
     // we will use this to determine if we need to round
@@ -502,7 +501,7 @@ int fpconv_dtoa(double d, char dest[24])
   return str_len;
 }
 
-int fpconv_dtos(double d, char dest[24], unsigned char precision)
+int fpconv_dtos(double d, char* dest, unsigned char precision)
 {
   char digits[18];
 
diff --git a/GcodeProcessorLib/fpconv.h b/GcodeProcessorLib/fpconv.h
index 29af997..8deaf52 100644
--- a/GcodeProcessorLib/fpconv.h
+++ b/GcodeProcessorLib/fpconv.h
@@ -81,7 +81,9 @@ WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
  */
 
 int fpconv_dtoa(double fp, char dest[24]);
-int fpconv_dtos(double fp, char dest[24], unsigned char precision);
+/* Writes fp with the given number of decimals, rounded.  At most 313 + precision characters are written:
+ * the sign, up to 309 integer digits, the decimal point and the decimals (plus one digit that is dropped by the rounding). */
+int fpconv_dtos(double fp, char* dest, unsigned char precision);
 
 #endif
 
diff --git a/GcodeProcessorLib/utilities.h b/GcodeProcessorLib/utilities.h
index f1f4ede..4a6d6d2 100644
--- a/GcodeProcessorLib/utilities.h
+++ b/GcodeProcessorLib/utilities.h
@@ -33,7 +33,8 @@
 #include <cstring>
 #include "fpconv.h"
 
-#define FPCONV_BUFFER_LENGTH 25
+// sign, 309 integer digits, decimal point, 255 decimals, one extra digit for rounding and the terminating null
+#define FPCONV_BUFFER_LENGTH 568
 // Had to increase the zero tolerance because prusa slicer doesn't always 
 // retract enough while wiping.
 #define ZERO_TOLERANCE 0.000005
-- 
2.43.0


From cbd82a73d0a1bcc3c2c565072d07b1795f447991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:15 +0000
Subject: [PATCH 17/22] fix: the predicted length of an arc was too small for
 large E and for numbers rounded up to a power of ten

---
 GcodeProcessorLib/utilities.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/GcodeProcessorLib/utilities.cpp b/GcodeProcessorLib/utilities.cpp
index 5196773..4170f2f 100644
--- a/GcodeProcessorLib/utilities.cpp
+++ b/GcodeProcessorLib/utilities.cpp
@@ -402,10 +402,9 @@ int utilities::get_num_digits(int x)
 
 int utilities::get_num_digits(double x, int precision)
 {
-	return get_num_digits(
-		(int)utilities::ceil(x * utilities::pow(10, precision) - .4999999999999)
-		/ utilities::pow(10, precision)
-	);
+	// the printed number is rounded half away from zero (the factor covers the error of the product)
+	const double power = utilities::pow(10, precision);
+	return get_num_digits(utilities::floor(utilities::abs(x) * power * (1 + 1e-14) + .5) / power);
 }
 
 int utilities::get_num_digits(double x)
-- 
2.43.0


From 0c4ab0bcd8ba23fb4238ac75376763209fa7735b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 18/22] fix: firmware compensation ignored the length of the
 printer's arc segments

---
 ArcWelder/segmented_arc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ArcWelder/segmented_arc.cpp b/ArcWelder/segmented_arc.cpp
index 34d348f..e918915 100644
--- a/ArcWelder/segmented_arc.cpp
+++ b/ArcWelder/segmented_arc.cpp
@@ -271,11 +271,11 @@ bool segmented_arc::try_add_point_internal_(printer_point p)
       // See how many arcs will be interpolated
       double circumference = 2.0 * PI_DOUBLE * current_arc_.radius;
       // TODO: Should this be ceil?
-      int num_segments = (int)utilities::floor(circumference / min_arc_segments_);
+      double num_segments = utilities::floor(circumference / mm_per_arc_segment_);
       if (num_segments < min_arc_segments_) {
         //num_segments = (int)std::ceil(circumference/approximate_length) * (int)std::ceil(approximate_length / mm_per_arc_segment);
         // TODO: Should this be ceil?
-        num_segments = (int)utilities::floor(circumference / original_shape_length_);
+        num_segments = utilities::floor(circumference / original_shape_length_);
         if (num_segments < min_arc_segments_) {
           abort_arc = true;
           num_firmware_compensations_++; 
-- 
2.43.0


From 35a2942a6d5ff162a0c02937347ecb94ec0cd679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:21 +0000
Subject: [PATCH 19/22] fix: a parameter without a value swallowed the
 parameters after it (G28 X Y homed only X)

---
 GcodeProcessorLib/gcode_parser.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/GcodeProcessorLib/gcode_parser.cpp b/GcodeProcessorLib/gcode_parser.cpp
index ee38f04..de1cf8c 100644
--- a/GcodeProcessorLib/gcode_parser.cpp
+++ b/GcodeProcessorLib/gcode_parser.cpp
@@ -601,7 +601,17 @@ bool gcode_parser::try_extract_parameter(char ** p_p_gcode, parsed_command_param
 	}
 	else
 	{
-		if(try_extract_text_parameter(&p, &(parameter->string_value)))
+		// A name followed by another letter has no value, the letter starts the next parameter (for example G28 X Y)
+		char * p_next = p;
+		while (*p_next == ' ')
+		{
+			p_next++;
+		}
+		if ((*p_next >= 'a' && *p_next <= 'z') || (*p_next >= 'A' && *p_next <= 'Z'))
+		{
+			parameter->value_type = 'S';
+		}
+		else if(try_extract_text_parameter(&p, &(parameter->string_value)))
 		{
 			parameter->value_type = 'S';
 		}
-- 
2.43.0


From 01d0ec0b0c39ceb86ceac9eb8f815eef71d50019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:04 +0000
Subject: [PATCH 20/22] fix: the comment of an @OCTOLAPSE command without
 parameters was dropped

---
 GcodeProcessorLib/gcode_parser.cpp | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/GcodeProcessorLib/gcode_parser.cpp b/GcodeProcessorLib/gcode_parser.cpp
index de1cf8c..0a30539 100644
--- a/GcodeProcessorLib/gcode_parser.cpp
+++ b/GcodeProcessorLib/gcode_parser.cpp
@@ -187,22 +187,21 @@ bool gcode_parser::try_parse_gcode(const char * gcode, parsed_command & command,
 			
 			parsed_command_parameter octolapse_parameter;
 
-			if (!try_extract_octolapse_parameter(&p, &octolapse_parameter))
+			if (try_extract_octolapse_parameter(&p, &octolapse_parameter))
 			{
-				return true;
-			}
-			command.parameters.push_back(octolapse_parameter);
-			// Extract any additional parameters the old way
-			while (true)
-			{
-				//std::cout << "GcodeParser.try_parse_gcode - Trying to extract parameters.\r\n";
-				parsed_command_parameter param;
-				if (try_extract_parameter(&p, &param))
-					command.parameters.push_back(param);
-				else
+				command.parameters.push_back(octolapse_parameter);
+				// Extract any additional parameters the old way
+				while (true)
 				{
-					//std::cout << "GcodeParser.try_parse_gcode - No parameters found.\r\n";
-					break;
+					//std::cout << "GcodeParser.try_parse_gcode - Trying to extract parameters.\r\n";
+					parsed_command_parameter param;
+					if (try_extract_parameter(&p, &param))
+						command.parameters.push_back(param);
+					else
+					{
+						//std::cout << "GcodeParser.try_parse_gcode - No parameters found.\r\n";
+						break;
+					}
 				}
 			}
 
-- 
2.43.0


From f68a5a751a0a3a76ad43d9b08120c8913831c84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:40 +0000
Subject: [PATCH 21/22] fix: the Marlin 2 straightener dropped the Z travel of
 helical arcs

---
 ArcWelderInverseProcessor/marlin_2.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ArcWelderInverseProcessor/marlin_2.cpp b/ArcWelderInverseProcessor/marlin_2.cpp
index e70c043..0fb18b8 100644
--- a/ArcWelderInverseProcessor/marlin_2.cpp
+++ b/ArcWelderInverseProcessor/marlin_2.cpp
@@ -307,7 +307,7 @@ void marlin_2::plan_arc_2_0_9_1(
     // Update raw location
     raw[p_axis] = center_P + rvec[0];
     raw[q_axis] = center_Q + rvec[1];
-    raw[l_axis] = start_L, raw[l_axis] + linear_per_segment;
+    raw[l_axis] += linear_per_segment;
 
     raw[E_AXIS] += extruder_per_segment;
 
@@ -321,14 +321,12 @@ void marlin_2::plan_arc_2_0_9_1(
 
   // Ensure last segment arrives at target location.
   COPY(raw, cart);
-  raw[l_axis] = start_L;
 
   apply_motion_limits(raw);
 
 
   buffer_line(raw, scaled_fr_mm_s, 0);
 
-  raw[l_axis] = start_L;
   COPY(current_position, raw);
 }
 
@@ -527,7 +525,7 @@ void marlin_2::plan_arc_2_0_9_2(
     // Update raw location
     raw[p_axis] = center_P + rvec[0];
     raw[q_axis] = center_Q + rvec[1];
-    raw[l_axis] = start_L, raw[l_axis] + per_segment_L;
+    raw[l_axis] += per_segment_L;
     raw[E_AXIS] += extruder_per_segment;
 
     apply_motion_limits(raw);
@@ -540,14 +538,12 @@ void marlin_2::plan_arc_2_0_9_2(
 
   // Ensure last segment arrives at target location.
   COPY(raw, cart);
-  raw[l_axis] = start_L;
 
   apply_motion_limits(raw);
 
 
   buffer_line(raw, scaled_fr_mm_s, 0);
 
-  raw[l_axis] = start_L;
   COPY(current_position, raw);
 }
 // Marlin Function Defs
-- 
2.43.0


From db1f0105369b8acee4cbb2f8b028af371bb5cdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:41 +0000
Subject: [PATCH 22/22] fix: straightened arcs for Marlin 2 and Smoothieware
 were written relative to the start of the arc (relative mode, and coordinates
 equal to the start were left out)

---
 ArcWelderInverseProcessor/marlin_2.cpp     | 3 +++
 ArcWelderInverseProcessor/smoothieware.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/ArcWelderInverseProcessor/marlin_2.cpp b/ArcWelderInverseProcessor/marlin_2.cpp
index 0fb18b8..f5dac6b 100644
--- a/ArcWelderInverseProcessor/marlin_2.cpp
+++ b/ArcWelderInverseProcessor/marlin_2.cpp
@@ -600,5 +600,8 @@ bool marlin_2::buffer_line(const float(&cart)[MARLIN_2_XYZE], double fr_mm_s, in
   // Generate the gcode
   gcodes_ += g1_command(target);
 
+  // update the current position
+  set_current_position(target);
+
   return true;
 }
diff --git a/ArcWelderInverseProcessor/smoothieware.cpp b/ArcWelderInverseProcessor/smoothieware.cpp
index 43b8c3c..e1573da 100644
--- a/ArcWelderInverseProcessor/smoothieware.cpp
+++ b/ArcWelderInverseProcessor/smoothieware.cpp
@@ -302,6 +302,9 @@ bool smoothieware::append_milestone(const float target[], double rate_mm_s)
   // Generate the gcode
   gcodes_ += g1_command(gcode_target);
 
+  // update the current position
+  set_current_position(gcode_target);
+
   return true;
   return true;
 }
-- 
2.43.0

