From ee4b6f1794d83a6a0e5942e4c3005d0c2dae1b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:36 +0000
Subject: [PATCH 01/81] fix: leading zeros in a G or M address are not
 significant (G01 is G1)

The position of G00/G01/G02/G03 moves was not tracked, so the arc generated
from the moves that followed started from a stale position.
---
 GcodeProcessorLib/gcode_parser.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/GcodeProcessorLib/gcode_parser.cpp b/GcodeProcessorLib/gcode_parser.cpp
index 1a4b928..3b5be31 100644
--- a/GcodeProcessorLib/gcode_parser.cpp
+++ b/GcodeProcessorLib/gcode_parser.cpp
@@ -294,12 +294,19 @@ bool gcode_parser::try_extract_gcode_command(char ** p_p_gcode, std::string * p_
 		{
 			// the T command is special, it has no address
 
+			bool has_significant_digit = false;
 			// Now look for a command address
 			while ((*p >= '0' && *p <= '9') || *p == ' ') {
 				if (*p != ' ')
 				{
+					// The address is a number, so leading zeros are not significant (G01 is G1)
+					if (found_command && !has_significant_digit)
+						(*p_command)[(*p_command).length() - 1] = *p;
+					else
+						(*p_command).push_back(*p);
+					has_significant_digit = has_significant_digit || *p != '0';
 					found_command = true;
-					(*p_command).push_back(*p++);
+					p++;
 				}
 				else if (found_command)
 				{
-- 
2.43.0


From 7b8e37750a76cc786176c8485774f0b7f689742d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:36 +0000
Subject: [PATCH 02/81] fix: never start an arc from an unknown position

Before the first X/Y word, and after G28, the position is unknown, but the
moves that followed were welded as if the tool were at 0 (or at the position
before homing).
---
 ArcWelder/arc_welder.cpp             |  2 ++
 GcodeProcessorLib/gcode_position.cpp | 15 +++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index c68fdc0..45efed7 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -578,6 +578,8 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
       utilities::is_equal(p_cur_pos->z_firmware_offset, p_pre_pos->z_firmware_offset) &&
       (previous_extrusion_rate_ == 0 || utilities::less_than_or_equal(extrusion_rate_change_percent, extrusion_rate_variance_percent_)) &&
       !p_cur_pos->is_relative &&
+      // The arc is drawn from the previous position, so it must be known (it isn't before the first move or after homing)
+      !p_pre_pos->x_null && !p_pre_pos->y_null && p_pre_pos->z_null == p_cur_pos->z_null &&
       (
         !waiting_for_arc_ ||
         extruder_current.is_extruding ||
diff --git a/GcodeProcessorLib/gcode_position.cpp b/GcodeProcessorLib/gcode_position.cpp
index 3c60868..437b735 100644
--- a/GcodeProcessorLib/gcode_position.cpp
+++ b/GcodeProcessorLib/gcode_position.cpp
@@ -1104,18 +1104,33 @@ void gcode_position::process_g28(position* pos, parsed_command& cmd)
 		pos->x = home_x_;
 		pos->x_null = false;
 	}
+	else if (set_x_home)
+	{
+		// The axis moved to a home position that we don't know
+		pos->x_null = true;
+	}
 	// todo: set error flag on else
 	if (set_y_home && !home_y_none_)
 	{
 		pos->y = home_y_;
 		pos->y_null = false;
 	}
+	else if (set_y_home)
+	{
+		// The axis moved to a home position that we don't know
+		pos->y_null = true;
+	}
 	// todo: set error flag on else
 	if (set_z_home && !home_z_none_)
 	{
 		pos->z = home_z_;
 		pos->z_null = false;
 	}
+	else if (set_z_home)
+	{
+		// The axis moved to a home position that we don't know
+		pos->z_null = true;
+	}
 	// todo: set error flag on else
 }
 
-- 
2.43.0


From ed68b7e1d3380130a9e36321638f1896cc565365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:13 +0000
Subject: [PATCH 03/81] fix: do not weld a travel move and an extruding move
 into one arc

The first two moves of an arc were never checked to be of the same type, so
a travel, an extrusion and a retraction could become a single arc that
extrudes along its whole length.
---
 ArcWelder/segmented_arc.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ArcWelder/segmented_arc.cpp b/ArcWelder/segmented_arc.cpp
index bc17ef8..825f905 100644
--- a/ArcWelder/segmented_arc.cpp
+++ b/ArcWelder/segmented_arc.cpp
@@ -155,8 +155,8 @@ bool segmented_arc::try_add_point(printer_point p)
       return false;
     }
 
-    // If we have more than 2 points, we need to make sure the current and previous moves are all of the same type.
-    if (points_.count() > 2)
+    // If we have more than the initial point, we need to make sure the current and previous moves are all of the same type.
+    if (points_.count() > 1)
     {
       // TODO:  Do we need this?
       // We already have at least an initial point and a second point.  Make cure the current point and the previous are either both
@@ -168,7 +168,14 @@ bool segmented_arc::try_add_point(printer_point p)
         )
         )
       {
-        return false;
+        if (points_.count() > 2)
+        {
+          return false;
+        }
+        // There is only one move so far, and it is of another type.  Drop it and start from its end point.
+        points_.pop_front();
+        original_shape_length_ -= p1.distance;
+        e_relative_ -= p1.e_relative;
       }
     }
 
-- 
2.43.0


From 750d43ce7c0c568365d22796daa1609a83dd827f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:13 +0000
Subject: [PATCH 04/81] fix: keep the comments of all moves of an arc when
 there are blank lines between them

---
 ArcWelder/arc_welder.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 45efed7..1e8cb6e 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -874,7 +874,17 @@ std::string arc_welder::get_comment_for_arc()
 {
   // build a comment string from the commands making up the arc
         // We need to start with the first command entered.
-  int comment_index = unwritten_commands_.count() - (current_arc_.get_num_segments() - 1);
+  // Only moves are part of the arc, but there may be blank lines between them.
+  int comment_index = unwritten_commands_.count();
+  int moves_remaining = current_arc_.get_num_segments() - 1;
+  while (moves_remaining > 0 && comment_index > 0)
+  {
+    comment_index--;
+    if (unwritten_commands_[comment_index].is_g0_g1)
+    {
+      moves_remaining--;
+    }
+  }
   std::string comment;
   for (; comment_index < unwritten_commands_.count(); comment_index++)
   {
-- 
2.43.0


From e4702f84dbaaa71bfbc5d8d33766dbbe75331f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:08 +0000
Subject: [PATCH 05/81] fix: check the direction of travel of every point of an
 arc, not just the last two

The circle changes as points are added, so points that were inside the slice
may be outside of it later.  A path that doubled back on itself could be
welded into an arc around the other side of the circle if the lengths happened
to match.
---
 ArcWelder/segmented_shape.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ArcWelder/segmented_shape.cpp b/ArcWelder/segmented_shape.cpp
index 3da264c..03ad6f0 100644
--- a/ArcWelder/segmented_shape.cpp
+++ b/ArcWelder/segmented_shape.cpp
@@ -566,7 +566,7 @@ bool arc::are_points_within_slice(const arc& test_arc, const array_list<printer_
   }
 
   // Need to see if point 1 to point 2 cross zero
-  for (int index = point_count - 2; index < point_count; index++)
+  for (int index = 1; index < point_count; index++)
   {
     double polar_test;
     if (index < point_count - 1)
-- 
2.43.0


From b1d9ae97315637fad39946213df588e495c6786c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:05 +0000
Subject: [PATCH 06/81] fix: do not create arcs whose end points cannot be told
 apart at the output precision

Rounding such end points could move the end of the arc across its start: a
nearly closed circle was skipped completely, or a tiny arc became a complete
circle.
---
 ArcWelder/segmented_arc.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ArcWelder/segmented_arc.cpp b/ArcWelder/segmented_arc.cpp
index 825f905..8961f1c 100644
--- a/ArcWelder/segmented_arc.cpp
+++ b/ArcWelder/segmented_arc.cpp
@@ -273,6 +273,12 @@ bool segmented_arc::try_add_point_internal_(printer_point p)
         // the arc length is below our tolerance, abort!
         abort_arc = true;
       }
+      else if (point::cartesian_distance(current_arc_.start_point, current_arc_.end_point) < 3.0 * get_xyz_tolerance())
+      {
+        // The endpoints are so close that they could swap places when they are rounded, which
+        // turns a nearly complete circle into nothing, or a tiny arc into a complete circle.
+        abort_arc = true;
+      }
     }
     
     if (abort_arc)
-- 
2.43.0


From 6d74621c141f2d80fa5622a194ca9318f022e15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:13 +0000
Subject: [PATCH 07/81] fix: keep the position of a shared E axis when the tool
 changes

---
 GcodeProcessorLib/gcode_position.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/GcodeProcessorLib/gcode_position.cpp b/GcodeProcessorLib/gcode_position.cpp
index 437b735..9ce4daf 100644
--- a/GcodeProcessorLib/gcode_position.cpp
+++ b/GcodeProcessorLib/gcode_position.cpp
@@ -1400,6 +1400,7 @@ void gcode_position::process_t(position* pos, parsed_command& cmd)
 		parsed_command_parameter p_cur_param = cmd.parameters[index];
 		if (p_cur_param.name == "T" && p_cur_param.value_type == 'U')
 		{
+			const int previous_tool = pos->current_tool;
 			pos->current_tool = static_cast<int>(p_cur_param.unsigned_long_value);
 			if (!zero_based_extruder_)
 			{
@@ -1413,6 +1414,12 @@ void gcode_position::process_t(position* pos, parsed_command& cmd)
 			{
 				pos->current_tool = num_extruders_ - 1;
 			}
+			if (shared_extruder_ && pos->current_tool != previous_tool)
+			{
+				// There is only one E axis, and changing the tool doesn't change its position.
+				pos->get_current_extruder().e = pos->get_extruder(previous_tool).e;
+				pos->get_current_extruder().e_offset = pos->get_extruder(previous_tool).e_offset;
+			}
 			
 			break;
 		}
-- 
2.43.0


From 6f04c3cd14dc251212e4878cb8bf8d1b136c3468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:21 +0000
Subject: [PATCH 08/81] fix: do not take a rounding error of the E position for
 a retraction or an extrusion

---
 GcodeProcessorLib/gcode_position.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/GcodeProcessorLib/gcode_position.cpp b/GcodeProcessorLib/gcode_position.cpp
index 9ce4daf..8a5eafc 100644
--- a/GcodeProcessorLib/gcode_position.cpp
+++ b/GcodeProcessorLib/gcode_position.cpp
@@ -494,6 +494,11 @@ void gcode_position::update(parsed_command& command, const long file_line_number
 		(this->*func)(p_current_pos, command);
 		// calculate z and e relative distances
 		p_current_pos->get_current_extruder().e_relative = (p_current_pos->get_current_extruder().e - p_previous_pos->get_extruder(p_current_pos->current_tool).e);
+		if (utilities::is_zero(p_current_pos->get_current_extruder().e_relative, 1e-9))
+		{
+			// This is a rounding error (relative moves are summed), not an extrusion or a retraction.
+			p_current_pos->get_current_extruder().e_relative = 0;
+		}
 		p_current_pos->z_relative = (p_current_pos->z - p_previous_pos->z);
 		// Have the XYZ positions changed after processing a command ?
 
-- 
2.43.0


From f23df21d98bf782407d18d6f7d75013395540ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:11 +0000
Subject: [PATCH 09/81] fix: calculate the circle through three points relative
 to the first point

---
 ArcWelder/segmented_shape.cpp | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/ArcWelder/segmented_shape.cpp b/ArcWelder/segmented_shape.cpp
index 03ad6f0..29da32f 100644
--- a/ArcWelder/segmented_shape.cpp
+++ b/ArcWelder/segmented_shape.cpp
@@ -159,36 +159,32 @@ bool circle::try_create_circle(const point& p1, const point& p2, const point& p3
   {
     return false;
   }
-  double x1 = p1.x;
-  double y1 = p1.y;
-  double x2 = p2.x;
-  double y2 = p2.y;
-  double x3 = p3.x;
-  double y3 = p3.y;
-
-  double a = x1 * (y2 - y3) - y1 * (x2 - x3) + x2 * y3 - x3 * y2;
+  // Calculate relative to the first point, else we will lose a lot of precision if the
+  // points are close together, but far from the origin.
+  double x2 = p2.x - p1.x;
+  double y2 = p2.y - p1.y;
+  double x3 = p3.x - p1.x;
+  double y3 = p3.y - p1.y;
+
+  double a = x2 * y3 - x3 * y2;
   //  Take out to figure out how we handle very small values for a
   if (utilities::is_zero(a, 0.000000001))
   {
     return false;
   }
-  double b = (x1 * x1 + y1 * y1) * (y3 - y2)
-    + (x2 * x2 + y2 * y2) * (y1 - y3)
-    + (x3 * x3 + y3 * y3) * (y2 - y1);
+  double b = (x3 * x3 + y3 * y3) * y2 - (x2 * x2 + y2 * y2) * y3;
 
-  double c = (x1 * x1 + y1 * y1) * (x2 - x3)
-    + (x2 * x2 + y2 * y2) * (x3 - x1)
-    + (x3 * x3 + y3 * y3) * (x1 - x2);
+  double c = (x2 * x2 + y2 * y2) * x3 - (x3 * x3 + y3 * y3) * x2;
 
   double x = -b / (2.0 * a);
   double y = -c / (2.0 * a);
 
-  double radius = utilities::get_cartesian_distance(x, y, x1, y1);
+  double radius = utilities::hypot(x, y);
   if (radius > max_radius)
     return false;
 
-  new_circle.center.x = x;
-  new_circle.center.y = y;
+  new_circle.center.x = p1.x + x;
+  new_circle.center.y = p1.y + y;
   new_circle.center.z = p1.z;
   new_circle.radius = radius;
 
-- 
2.43.0


From c42f748659621c26c31280bdda7f25c8659cf263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:05 +0000
Subject: [PATCH 10/81] fix: convert numbers of any size to text without
 overflowing or sharing a buffer

---
 GcodeProcessorLib/fpconv.cpp    | 12 +++++-------
 GcodeProcessorLib/fpconv.h      |  4 +++-
 GcodeProcessorLib/utilities.cpp |  3 +--
 GcodeProcessorLib/utilities.h   |  3 ++-
 4 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/GcodeProcessorLib/fpconv.cpp b/GcodeProcessorLib/fpconv.cpp
index 9c2b8ee..4ef5c39 100644
--- a/GcodeProcessorLib/fpconv.cpp
+++ b/GcodeProcessorLib/fpconv.cpp
@@ -334,10 +334,9 @@ static int emit_digits(char* digits, int ndigits, char* dest, int K, bool neg)
 
 static int emit_digits_decimal(char* digits, int ndigits, char* dest, int K, bool neg, unsigned char precision)
 {
-  int exp = absv(K + ndigits - 1);
-  unsigned char length = 0;
+  int length = 0;
   /* write plain integer */
-  if (K >= 0 && (exp < (ndigits + 7))) {
+  if (K >= 0) {
     memcpy(dest, digits, ndigits);
     memset(dest + ndigits, '0', K);
     // pad with 0s if we need to 
@@ -360,7 +359,7 @@ static int emit_digits_decimal(char* digits, int ndigits, char* dest, int K, boo
   int offset = ndigits - absv(K);
   
   // round the number in dest
-  unsigned char terminator_location;
+  int terminator_location;
   /* fp < 1.0 -> write leading zero */
   if (offset <= 0) {
     offset = -offset;
@@ -381,7 +380,7 @@ static int emit_digits_decimal(char* digits, int ndigits, char* dest, int K, boo
     terminator_location = offset + precision + 1;
   }
 
-  if (ndigits < terminator_location)
+  if (length <= terminator_location)
   {
     // add 0s as necessary
     for (int zero_index = terminator_location; zero_index >= length; zero_index--)
@@ -391,7 +390,6 @@ static int emit_digits_decimal(char* digits, int ndigits, char* dest, int K, boo
   }
   
   
-  if (terminator_location < 24)
   {
     // Get the character at the terminator location
     // we will use this to determine if we need to round
@@ -502,7 +500,7 @@ int fpconv_dtoa(double d, char dest[24])
   return str_len;
 }
 
-int fpconv_dtos(double d, char dest[24], unsigned char precision)
+int fpconv_dtos(double d, char* dest, unsigned char precision)
 {
   char digits[18];
 
diff --git a/GcodeProcessorLib/fpconv.h b/GcodeProcessorLib/fpconv.h
index 29af997..bb50c0a 100644
--- a/GcodeProcessorLib/fpconv.h
+++ b/GcodeProcessorLib/fpconv.h
@@ -81,7 +81,9 @@ WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
  */
 
 int fpconv_dtoa(double fp, char dest[24]);
-int fpconv_dtos(double fp, char dest[24], unsigned char precision);
+/* Writes fp with a fixed number of decimals.  dest must hold up to 600 characters,
+ * since no exponent is used for very small or very large numbers. */
+int fpconv_dtos(double fp, char* dest, unsigned char precision);
 
 #endif
 
diff --git a/GcodeProcessorLib/utilities.cpp b/GcodeProcessorLib/utilities.cpp
index d16f8f4..c46c174 100644
--- a/GcodeProcessorLib/utilities.cpp
+++ b/GcodeProcessorLib/utilities.cpp
@@ -679,8 +679,7 @@ void* utilities::memcpy(void* dest, const void* src, size_t n)
 
 std::string utilities::dtos(double x, unsigned char precision)
 {
-	static char buffer[FPCONV_BUFFER_LENGTH];
-	char* p = buffer;
+	char buffer[FPCONV_BUFFER_LENGTH];
 	buffer[fpconv_dtos(x, buffer, precision)] = '\0';
 	/* This is code that can be used to compare the output of the
 		 modified fpconv_dtos function to the ofstream output
diff --git a/GcodeProcessorLib/utilities.h b/GcodeProcessorLib/utilities.h
index f1f4ede..cc72723 100644
--- a/GcodeProcessorLib/utilities.h
+++ b/GcodeProcessorLib/utilities.h
@@ -33,7 +33,8 @@
 #include <cstring>
 #include "fpconv.h"
 
-#define FPCONV_BUFFER_LENGTH 25
+// Sign, up to 309 digits or leading zeros, decimal point, up to 255 decimals, terminator.  See fpconv_dtos
+#define FPCONV_BUFFER_LENGTH 640
 // Had to increase the zero tolerance because prusa slicer doesn't always 
 // retract enough while wiping.
 #define ZERO_TOLERANCE 0.000005
-- 
2.43.0


From a1e5aa8a501b98fb238be6f5a198b7afe9540efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:05 +0000
Subject: [PATCH 11/81] fix: count the digits of numbers that don't fit into an
 int

---
 GcodeProcessorLib/utilities.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/GcodeProcessorLib/utilities.cpp b/GcodeProcessorLib/utilities.cpp
index c46c174..f92101d 100644
--- a/GcodeProcessorLib/utilities.cpp
+++ b/GcodeProcessorLib/utilities.cpp
@@ -401,15 +401,21 @@ int utilities::get_num_digits(int x)
 
 int utilities::get_num_digits(double x, int precision)
 {
+	// Note that x times the power of 10 may be too large for an int
 	return get_num_digits(
-		(int)utilities::ceil(x * utilities::pow(10, precision) - .4999999999999)
+		utilities::ceil(x * utilities::pow(10, precision) - .4999999999999)
 		/ utilities::pow(10, precision)
 	);
 }
 
 int utilities::get_num_digits(double x)
 {
-	return get_num_digits((int)x);
+	int num_digits = 1;
+	for (x = utilities::abs(x); x >= 10 && num_digits < 400; x /= 10)
+	{
+		num_digits++;
+	}
+	return num_digits;
 }
 
 // Nice utility function found here: https://stackoverflow.com/questions/8520560/get-a-file-name-from-a-path
-- 
2.43.0


From 439f20f3e947ecd873bacceab6c14f9b411e85df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:05 +0000
Subject: [PATCH 12/81] fix: the center of an arc is at start + IJ, so
 calculate the lengths of source arcs from there

---
 GcodeProcessorLib/utilities.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/GcodeProcessorLib/utilities.cpp b/GcodeProcessorLib/utilities.cpp
index f92101d..c48eb08 100644
--- a/GcodeProcessorLib/utilities.cpp
+++ b/GcodeProcessorLib/utilities.cpp
@@ -212,13 +212,14 @@ double utilities::get_cartesian_distance(double x1, double y1, double z1, double
 
 double utilities::get_arc_distance(double x1, double y1, double z1, double x2, double y2, double z2, double i, double j, double r, bool is_clockwise)
 {
-	double center_x = x1 - i;
-	double center_y = y1 - j;
+	double center_x = x1 + i;
+	double center_y = y1 + j;
 	double radius = utilities::hypot(i, j);
 	double z_dist = z2 - z1;
 	double rt_x = x2 - center_x;
 	double rt_y = y2 - center_y;
-	double angular_travel_total = utilities::atan2(i * rt_y - j * rt_x, i * rt_x + j * rt_y);
+	// The vector from the center to the start point is (-i, -j)
+	double angular_travel_total = utilities::atan2(j * rt_x - i * rt_y, -i * rt_x - j * rt_y);
 	if (angular_travel_total < 0) { angular_travel_total += 2.0 * PI_DOUBLE; }
 	// Adjust the angular travel if the direction is clockwise
 	if (is_clockwise) { angular_travel_total -= 2.0 * PI_DOUBLE; }
-- 
2.43.0


From 0f2cb0b3bc28d2dd75a728fa151cb77b12476260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:05 +0000
Subject: [PATCH 13/81] fix: firmware compensation must use mm_per_arc_segment
 to get the number of segments of a circle

---
 ArcWelder/segmented_arc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ArcWelder/segmented_arc.cpp b/ArcWelder/segmented_arc.cpp
index 8961f1c..2f9c6eb 100644
--- a/ArcWelder/segmented_arc.cpp
+++ b/ArcWelder/segmented_arc.cpp
@@ -63,7 +63,7 @@ segmented_arc::segmented_arc(
   mm_per_arc_segment_ = mm_per_arc_segment;
   if (mm_per_arc_segment_ < 0 || utilities::is_zero(mm_per_arc_segment_))
   {
-    mm_per_arc_segment = 0;
+    mm_per_arc_segment_ = 0;
   }
   min_arc_segments_ = min_arc_segments;
   if (min_arc_segments_ < 0)
@@ -250,7 +250,7 @@ bool segmented_arc::try_add_point_internal_(printer_point p)
       // See how many arcs will be interpolated
       double circumference = 2.0 * PI_DOUBLE * current_arc_.radius;
       // TODO: Should this be ceil?
-      int num_segments = (int)utilities::floor(circumference / min_arc_segments_);
+      int num_segments = (int)utilities::floor(circumference / mm_per_arc_segment_);
       if (num_segments < min_arc_segments_) {
         //num_segments = (int)std::ceil(circumference/approximate_length) * (int)std::ceil(approximate_length / mm_per_arc_segment);
         // TODO: Should this be ceil?
-- 
2.43.0


From 017d2144fce15cc3ae8a32c5cffe90defd7fef59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:05 +0000
Subject: [PATCH 14/81] fix: a blank line must not hide a change of the
 extrusion rate

---
 ArcWelder/arc_welder.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 1e8cb6e..a07f9fe 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -732,8 +732,11 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
       }
     }
 
-    // Reset the previous extrusion rate
-    previous_extrusion_rate_ = 0;
+    // Reset the previous extrusion rate, except for blank lines, which don't end an arc.
+    if (is_end || !(cmd.is_empty && cmd.comment.length() == 0))
+    {
+      previous_extrusion_rate_ = 0;
+    }
   }
 
   if (!arc_added && !(cmd.is_empty && cmd.comment.length() == 0))
-- 
2.43.0


From 01901604c4cdcf9d2bde02477e4d15b486375b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:05 +0000
Subject: [PATCH 15/81] fix: keep the UltiGCode flavor comment first in files
 with CRLF line ends

---
 ArcWelder/arc_welder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index a07f9fe..d6c2158 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -280,7 +280,7 @@ arc_welder_results arc_welder::process()
 // This comment MUST be preserved as the first line for ultimakers, else things won't work
     if (lines_processed_ == 1)
     {
-      bool isUltiGCode = line == ";FLAVOR:UltiGCode";
+      bool isUltiGCode = line == ";FLAVOR:UltiGCode" || line == ";FLAVOR:UltiGCode\r";
       bool isPrusaSlicer = line.rfind("; generated by PrusaSlicer", 0) == 0;
       if (isUltiGCode || isPrusaSlicer)
       {
-- 
2.43.0


From 1638f1e1b575650d01ce87df5e07a71c6f00154a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:59 +0000
Subject: [PATCH 16/81] fix: do not write an arc with the precision of the
 command that follows it

---
 ArcWelder/arc_welder.cpp      | 5 +++++
 ArcWelder/segmented_shape.cpp | 6 ++++++
 ArcWelder/segmented_shape.h   | 1 +
 3 files changed, 12 insertions(+)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index d6c2158..8ed4359 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -546,6 +546,8 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
   // We need to make sure the printer is using absolute xyz, is extruding, and the extruder axis mode is the same as that of the previous position
   // TODO: Handle relative XYZ axis.  This is possible, but maybe not so important.
   
+  const unsigned char previous_xyz_precision = current_arc_.get_xyz_precision();
+  const unsigned char previous_e_precision = current_arc_.get_e_precision();
   if (allow_dynamic_precision_ && is_g0_g1)
   {
     for (std::vector<parsed_command_parameter>::iterator it = cmd.parameters.begin(); it != cmd.parameters.end(); ++it)
@@ -761,6 +763,9 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
         // update our statistics
         points_compressed_ += current_arc_.get_num_segments() - 1;
         arcs_created_++; // increment the number of generated arcs
+        // The current command isn't part of the arc, so its precision doesn't apply to it.  The arc
+        // could become longer than the max gcode length.
+        current_arc_.set_precision(previous_xyz_precision, previous_e_precision);
         write_arc_gcodes(p_pre_pos->f);
         // Now clear the arc and flag the processor as not waiting for an arc
         waiting_for_arc_ = false;
diff --git a/ArcWelder/segmented_shape.cpp b/ArcWelder/segmented_shape.cpp
index 29da32f..e9f99b4 100644
--- a/ArcWelder/segmented_shape.cpp
+++ b/ArcWelder/segmented_shape.cpp
@@ -748,6 +748,12 @@ void segmented_shape::update_e_precision(unsigned char precision)
 
 }
 
+void segmented_shape::set_precision(unsigned char xyz_precision, unsigned char e_precision)
+{
+  set_xyz_precision(xyz_precision);
+  e_precision_ = e_precision;
+}
+
 bool segmented_shape::is_extruding()
 {
   return is_extruding_;
diff --git a/ArcWelder/segmented_shape.h b/ArcWelder/segmented_shape.h
index d466a42..4f8f3da 100644
--- a/ArcWelder/segmented_shape.h
+++ b/ArcWelder/segmented_shape.h
@@ -225,6 +225,7 @@ public:
 	void reset_precision();
 	void update_xyz_precision(unsigned char precision);
 	void update_e_precision(unsigned char precision);
+	void set_precision(unsigned char xyz_precision, unsigned char e_precision);
 	virtual bool is_shape() const;
 	// public virtual functions
 	virtual void clear();
-- 
2.43.0


From 705196fba73fcf2e3e63286e918eb899e5867ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:59 +0000
Subject: [PATCH 17/81] fix: the file position can't be read after the last
 line, report the file size as progress

---
 ArcWelder/arc_welder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 8ed4359..5d3b921 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -329,7 +329,7 @@ arc_welder_results arc_welder::process()
         {
           p_logger_->log(logger_type_, log_levels::VERBOSE, "Sending progress update.");
         }
-        continue_processing = on_progress_(get_progress_(static_cast<long>(gcodeFile.tellg()), static_cast<double>(start_clock)));
+        continue_processing = on_progress_(get_progress_(gcodeFile.eof() ? file_size_ : static_cast<long>(gcodeFile.tellg()), static_cast<double>(start_clock)));
         next_update_time = get_next_update_time();
       }
     }
-- 
2.43.0


From 8d7effb410ae042ac5d5528c6f24ccf035462f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:59 +0000
Subject: [PATCH 18/81] fix: do not weld while the units are inches (G20), the
 resolution is in millimeters

---
 ArcWelder/arc_welder.cpp             |  2 ++
 GcodeProcessorLib/gcode_position.cpp | 20 ++++++++++++++++++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 5d3b921..e76dd3f 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -580,6 +580,8 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
       utilities::is_equal(p_cur_pos->z_firmware_offset, p_pre_pos->z_firmware_offset) &&
       (previous_extrusion_rate_ == 0 || utilities::less_than_or_equal(extrusion_rate_change_percent, extrusion_rate_variance_percent_)) &&
       !p_cur_pos->is_relative &&
+      // All of our lengths (resolution, radius, precision) are in millimeters
+      p_cur_pos->is_metric &&
       // The arc is drawn from the previous position, so it must be known (it isn't before the first move or after homing)
       !p_pre_pos->x_null && !p_pre_pos->y_null && p_pre_pos->z_null == p_cur_pos->z_null &&
       (
diff --git a/GcodeProcessorLib/gcode_position.cpp b/GcodeProcessorLib/gcode_position.cpp
index 8a5eafc..d2080ee 100644
--- a/GcodeProcessorLib/gcode_position.cpp
+++ b/GcodeProcessorLib/gcode_position.cpp
@@ -1052,12 +1052,28 @@ void gcode_position::process_g11(position* pos, parsed_command& cmd)
 
 void gcode_position::process_g20(position* pos, parsed_command& cmd)
 {
-
+	if (pos->is_metric)
+	{
+		// We don't convert positions, so we don't know it in inches.
+		pos->x_null = true;
+		pos->y_null = true;
+		pos->z_null = true;
+	}
+	pos->is_metric = false;
+	pos->is_metric_null = false;
 }
 
 void gcode_position::process_g21(position* pos, parsed_command& cmd)
 {
-
+	if (!pos->is_metric)
+	{
+		// We don't convert positions, so we don't know it in millimeters.
+		pos->x_null = true;
+		pos->y_null = true;
+		pos->z_null = true;
+	}
+	pos->is_metric = true;
+	pos->is_metric_null = false;
 }
 
 void gcode_position::process_g28(position* pos, parsed_command& cmd)
-- 
2.43.0


From 401fd16e1fb95b032532dbf5ac667253d1f1f733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:30 +0000
Subject: [PATCH 19/81] fix: an unknown command isn't a blank line because it
 is indented or starts with a non-ASCII character

---
 GcodeProcessorLib/gcode_parser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/GcodeProcessorLib/gcode_parser.cpp b/GcodeProcessorLib/gcode_parser.cpp
index 3b5be31..b68a9fa 100644
--- a/GcodeProcessorLib/gcode_parser.cpp
+++ b/GcodeProcessorLib/gcode_parser.cpp
@@ -133,10 +133,10 @@ bool gcode_parser::try_parse_gcode(const char * gcode, parsed_command & command,
 	{
 		while (true)
 		{
-			char c = *p_gcode;
-			if (c == '\0' || c == ';' || c == ' ' || c == '\t')
+			const unsigned char c = static_cast<unsigned char>(*p_gcode);
+			if (c == '\0' || c == ';')
 				break;
-			else if (c > 31)
+			else if (c > 32)
 			{
 				command.is_empty = false;
 				break;
-- 
2.43.0


From a8135c981546449101b24aea6db0436058681261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:30 +0000
Subject: [PATCH 20/81] fix: use the values of I, J and R for the length of
 source arcs, not their precision

---
 ArcWelder/arc_welder.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index e76dd3f..1d9e065 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -471,14 +471,14 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
         switch ((*it).name[0])
         {
         case 'I':
-          i = (*it).double_precision;
+          i = (*it).double_value;
           break;
         case 'J':
-          j = (*it).double_precision;
+          j = (*it).double_value;
           break;
           // Note that the R form isn't fully implemented!
         case 'R':
-          r = (*it).double_precision;
+          r = (*it).double_value;
           break;
         }
       }
-- 
2.43.0


From 14dbebd9efe6cc6cb519ef8a64695b33d9c7ca0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:01 +0000
Subject: [PATCH 21/81] fix: include the extrusion of the last move when
 checking the length of an arc's gcode

---
 ArcWelder/segmented_arc.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ArcWelder/segmented_arc.cpp b/ArcWelder/segmented_arc.cpp
index 2f9c6eb..ba40d4a 100644
--- a/ArcWelder/segmented_arc.cpp
+++ b/ArcWelder/segmented_arc.cpp
@@ -239,10 +239,17 @@ bool segmented_arc::try_add_point_internal_(printer_point p)
   if (arc::try_create_arc(points_, current_arc_, original_shape_length_, max_radius_mm_, resolution_mm_, path_tolerance_percent_, min_arc_segments_, mm_per_arc_segment_, get_xyz_tolerance(), allow_3d_arcs_))
   {
     bool abort_arc = false;
-    if (max_gcode_length_ > 0 && get_shape_gcode_length() > max_gcode_length_)
+    if (max_gcode_length_ > 0)
     {
-      abort_arc = true;
-      num_gcode_length_exceptions_++;
+      // The extrusion of the new point is not part of e_relative_ yet, but it will be in the gcode.
+      double previous_e_relative = e_relative_;
+      e_relative_ += p.e_relative;
+      if (get_shape_gcode_length() > max_gcode_length_)
+      {
+        abort_arc = true;
+        num_gcode_length_exceptions_++;
+      }
+      e_relative_ = previous_e_relative;
     }
     if (min_arc_segments_ > 0 && mm_per_arc_segment_ > 0)
     {
-- 
2.43.0


From 62a9bf0967694fbf613acc893a30ab194355bcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:09 +0000
Subject: [PATCH 22/81] fix: parse the parameters that follow one without a
 value, so that G28 X Y homes both axes

---
 GcodeProcessorLib/gcode_parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/GcodeProcessorLib/gcode_parser.cpp b/GcodeProcessorLib/gcode_parser.cpp
index b68a9fa..48ff555 100644
--- a/GcodeProcessorLib/gcode_parser.cpp
+++ b/GcodeProcessorLib/gcode_parser.cpp
@@ -605,6 +605,11 @@ bool gcode_parser::try_extract_parameter(char ** p_p_gcode, parsed_command_param
 	{
 		parameter->value_type = 'F';
 	}
+	else if (*p == ' ' || (*p >= 'a' && *p <= 'z') || (*p >= 'A' && *p <= 'Z'))
+	{
+		// There is no value, and another parameter may follow (G28 X Y)
+		parameter->value_type = 'N';
+	}
 	else
 	{
 		if(try_extract_text_parameter(&p, &(parameter->string_value)))
-- 
2.43.0


From e379b02b80158b1216e1b5bb22688d9a5f3a382d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:22 +0000
Subject: [PATCH 23/81] fix: report when the source can't be read or the target
 can't be written

---
 ArcWelder/arc_welder.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 1d9e065..fbd2e03 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -353,9 +353,21 @@ arc_welder_results arc_welder::process()
   on_progress_(final_progress);
 
   p_logger_->log(logger_type_, log_levels::DEBUG, "Closing source and target files.");
+  // bad() is set if reading failed before the end of the source was reached, fail() if anything could not be written.
+  const bool is_source_read = !gcodeFile.bad();
   output_file_.close();
+  const bool is_target_written = !output_file_.fail();
   gcodeFile.close();
 
+  if (!is_source_read || !is_target_written)
+  {
+    results.success = false;
+    results.message = is_source_read ? "Unable to write the target file." : "Unable to read the source file.";
+    results.progress = final_progress;
+    p_logger_->log_exception(logger_type_, results.message);
+    return results;
+  }
+
   if (overwrite_source_file)
   {
     stream.clear();
-- 
2.43.0


From f321f39ddecca456e62dfb4dfcd675d711faa735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:22 +0000
Subject: [PATCH 24/81] fix: keep the source file when it can't be converted
 completely

---
 ArcWelder/arc_welder.cpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index fbd2e03..ab8c748 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -365,10 +365,19 @@ arc_welder_results arc_welder::process()
     results.message = is_source_read ? "Unable to write the target file." : "Unable to read the source file.";
     results.progress = final_progress;
     p_logger_->log_exception(logger_type_, results.message);
+    if (overwrite_source_file)
+    {
+      std::remove(target_path_.c_str());
+    }
     return results;
   }
 
-  if (overwrite_source_file)
+  if (overwrite_source_file && !continue_processing)
+  {
+    // The target is incomplete, keep the source.
+    std::remove(target_path_.c_str());
+  }
+  else if (overwrite_source_file)
   {
     stream.clear();
     stream.str("");
@@ -376,10 +385,21 @@ arc_welder_results arc_welder::process()
     p_logger_->log(logger_type_, log_levels::DEBUG, stream.str());
     stream.clear();
     stream.str("");
-    std::remove(source_path_.c_str());
     stream << "Renaming temporary file at '" << target_path_ << "' to '" << source_path_ << "'.";
     p_logger_->log(0, log_levels::DEBUG, stream.str());
-    std::rename(target_path_.c_str(), source_path_.c_str());
+    // Replace the source in one step where this is supported, else it must be removed first.
+    if (std::rename(target_path_.c_str(), source_path_.c_str()) != 0)
+    {
+      std::remove(source_path_.c_str());
+      if (std::rename(target_path_.c_str(), source_path_.c_str()) != 0)
+      {
+        results.success = false;
+        results.message = "Unable to replace the source file.  The converted file is at '" + target_path_ + "'.";
+        results.progress = final_progress;
+        p_logger_->log_exception(logger_type_, results.message);
+        return results;
+      }
+    }
   }
 
   results.success = continue_processing;
-- 
2.43.0


From a4db4e5ec8873404ef34090110ae84909d731f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:36 +0000
Subject: [PATCH 25/81] fix: temporary files of concurrent conversions must not
 have the same name

---
 GcodeProcessorLib/utilities.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/GcodeProcessorLib/utilities.cpp b/GcodeProcessorLib/utilities.cpp
index c48eb08..58ed6d3 100644
--- a/GcodeProcessorLib/utilities.cpp
+++ b/GcodeProcessorLib/utilities.cpp
@@ -21,6 +21,7 @@
 ////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
 
 #include "utilities.h"
+#include <random>
 
 namespace utilities {
 	// Box Drawing Consts
@@ -462,10 +463,12 @@ bool utilities::get_file_path(const std::string& file_path, std::string& path)
 
 std::string utilities::create_uuid() {
 	std::string res;
+	// rand() isn't seeded, so it would create the same ids in every process.
+	std::random_device random;
 	for (int i = 0; i < 16; i++) {
 		if (GUID_DASHES[i]) res += "-";
-		res += GUID_RANGE[(int)(rand() % 16)];
-		res += GUID_RANGE[(int)(rand() % 16)];
+		res += GUID_RANGE[(int)(random() % 16)];
+		res += GUID_RANGE[(int)(random() % 16)];
 	}
 	return res;
 }
-- 
2.43.0


From bf55ed78fd2909e8c3cb7c257f294c9786dc63e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:25 +0000
Subject: [PATCH 26/81] fix: don't truncate the source when the target is
 another name of the same file

---
 ArcWelder/arc_welder.cpp        | 16 +++++++++-------
 GcodeProcessorLib/utilities.cpp | 21 +++++++++++++++++++++
 GcodeProcessorLib/utilities.h   |  1 +
 3 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index ab8c748..c563fe4 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -220,10 +220,12 @@ arc_welder_results arc_welder::process()
   // Determine if we need to overwrite the source file
   bool overwrite_source_file = false;
   std::string temp_file_path;
-  if (source_path_ == target_path_)
+  // The path that will be replaced, it could be another name of the source file.
+  const std::string overwrite_path = target_path_;
+  if (utilities::is_same_file(source_path_, target_path_))
   {
     overwrite_source_file = true;
-    if (!utilities::get_temp_file_path_for_file(source_path_, temp_file_path))
+    if (!utilities::get_temp_file_path_for_file(target_path_, temp_file_path))
     {
       results.success = false;
       results.message = "The source and target path are the same, but a temporary file path could not be created.  Are the paths empty?";
@@ -381,17 +383,17 @@ arc_welder_results arc_welder::process()
   {
     stream.clear();
     stream.str("");
-    stream << "Deleting the original source file at '" << source_path_ << "'.";
+    stream << "Deleting the original source file at '" << overwrite_path << "'.";
     p_logger_->log(logger_type_, log_levels::DEBUG, stream.str());
     stream.clear();
     stream.str("");
-    stream << "Renaming temporary file at '" << target_path_ << "' to '" << source_path_ << "'.";
+    stream << "Renaming temporary file at '" << target_path_ << "' to '" << overwrite_path << "'.";
     p_logger_->log(0, log_levels::DEBUG, stream.str());
     // Replace the source in one step where this is supported, else it must be removed first.
-    if (std::rename(target_path_.c_str(), source_path_.c_str()) != 0)
+    if (std::rename(target_path_.c_str(), overwrite_path.c_str()) != 0)
     {
-      std::remove(source_path_.c_str());
-      if (std::rename(target_path_.c_str(), source_path_.c_str()) != 0)
+      std::remove(overwrite_path.c_str());
+      if (std::rename(target_path_.c_str(), overwrite_path.c_str()) != 0)
       {
         results.success = false;
         results.message = "Unable to replace the source file.  The converted file is at '" + target_path_ + "'.";
diff --git a/GcodeProcessorLib/utilities.cpp b/GcodeProcessorLib/utilities.cpp
index 58ed6d3..862325e 100644
--- a/GcodeProcessorLib/utilities.cpp
+++ b/GcodeProcessorLib/utilities.cpp
@@ -22,6 +22,9 @@
 
 #include "utilities.h"
 #include <random>
+#include <cstdlib>
+#include <sys/types.h>
+#include <sys/stat.h>
 
 namespace utilities {
 	// Box Drawing Consts
@@ -486,6 +489,24 @@ bool utilities::get_temp_file_path_for_file(const std::string& file_path, std::s
 	return true;
 }
 
+bool utilities::is_same_file(const std::string& path, const std::string& other_path)
+{
+	if (path == other_path)
+		return true;
+#ifdef _WIN32
+	char full_path[_MAX_PATH], other_full_path[_MAX_PATH];
+	return _fullpath(full_path, path.c_str(), _MAX_PATH) != NULL
+		&& _fullpath(other_full_path, other_path.c_str(), _MAX_PATH) != NULL
+		&& _stricmp(full_path, other_full_path) == 0;
+#else
+	struct stat file, other_file;
+	return stat(path.c_str(), &file) == 0
+		&& stat(other_path.c_str(), &other_file) == 0
+		&& file.st_dev == other_file.st_dev
+		&& file.st_ino == other_file.st_ino;
+#endif
+}
+
 bool utilities::does_file_exist(const std::string& file_path)
 {
 	FILE* file;
diff --git a/GcodeProcessorLib/utilities.h b/GcodeProcessorLib/utilities.h
index cc72723..2a2ad43 100644
--- a/GcodeProcessorLib/utilities.h
+++ b/GcodeProcessorLib/utilities.h
@@ -109,6 +109,7 @@ namespace utilities{
 	bool does_file_exist(const std::string& file_path);
 
 	bool get_temp_file_path_for_file(const std::string& file_path, std::string& temp_file_path);
+	bool is_same_file(const std::string& path, const std::string& other_path);
 
 	double hypot(double x, double y);
 	
-- 
2.43.0


From d6da24bd581e866928b274bf57601ce6ab8eeb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:43 +0000
Subject: [PATCH 27/81] fix: exit with status 1 instead of aborting when an
 argument of ArcWelder is not valid

---
 ArcWelderConsole/ArcWelderConsole.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ArcWelderConsole/ArcWelderConsole.cpp b/ArcWelderConsole/ArcWelderConsole.cpp
index 50e2b93..73f3218 100644
--- a/ArcWelderConsole/ArcWelderConsole.cpp
+++ b/ArcWelderConsole/ArcWelderConsole.cpp
@@ -345,7 +345,14 @@ int main(int argc, char* argv[])
   catch (TCLAP::ArgException& e)
   {
     // This will raise an exit exception
-    cmd.getOutput()->failure(cmd, e);
+    try
+    {
+      cmd.getOutput()->failure(cmd, e);
+    }
+    catch (TCLAP::ExitException& exit_exception)
+    {
+      return exit_exception.getExitStatus();
+    }
     return 1;
   }
   
-- 
2.43.0


From cda037b594df86bcd426ead599562f2c534d7e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:43 +0000
Subject: [PATCH 28/81] fix: ArcWelder must not exit with status 0 when the
 processing failed

---
 ArcWelderConsole/ArcWelderConsole.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ArcWelderConsole/ArcWelderConsole.cpp b/ArcWelderConsole/ArcWelderConsole.cpp
index 73f3218..6197222 100644
--- a/ArcWelderConsole/ArcWelderConsole.cpp
+++ b/ArcWelderConsole/ArcWelderConsole.cpp
@@ -437,7 +437,7 @@ int main(int argc, char* argv[])
   }
 
   delete p_arc_welder;
-  return 0;
+  return results.success ? 0 : 1;
 }
 
 bool on_progress_full(arc_welder_progress progress, logger* p_logger, int logger_type)
-- 
2.43.0


From 350963e112fd75ba41b3eaf90e7f52d80ed0cc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:43 +0000
Subject: [PATCH 29/81] fix: check the precision arguments before they are
 converted to a smaller type

---
 ArcWelderConsole/ArcWelderConsole.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ArcWelderConsole/ArcWelderConsole.cpp b/ArcWelderConsole/ArcWelderConsole.cpp
index 6197222..8541215 100644
--- a/ArcWelderConsole/ArcWelderConsole.cpp
+++ b/ArcWelderConsole/ArcWelderConsole.cpp
@@ -264,22 +264,22 @@ int main(int argc, char* argv[])
         throw TCLAP::ArgException("You must also specify a non zero value for the " + mm_per_arc_segment_arg.toString() + " argument.", min_arc_segments_arg.toString());
     }
 
-    if (args.default_xyz_precision < 3)
+    if (default_xyz_precision_arg.getValue() < 3)
     {
         throw TCLAP::ArgException("The provided value is less than 3.", default_xyz_precision_arg.toString());
     }
 
-    if (args.default_e_precision < 3)
+    if (default_e_precision_arg.getValue() < 3)
     {
         throw TCLAP::ArgException("The provided value is less than 3.", default_e_precision_arg.toString());
     }
 
-    if (args.default_xyz_precision > 6)
+    if (default_xyz_precision_arg.getValue() > 6)
     {
         throw TCLAP::ArgException("The provided value is greater than 6.", default_xyz_precision_arg.toString());
     }
 
-    if (args.default_e_precision > 6)
+    if (default_e_precision_arg.getValue() > 6)
     {
         throw TCLAP::ArgException("The provided value is greater than 6.", default_e_precision_arg.toString());
     }
-- 
2.43.0


From 0dd773f78b1e19c75ea9b4344b912c321c9ed1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:43 +0000
Subject: [PATCH 30/81] fix: an extrusion rate variance of 0 has nothing to do
 with a large maximum radius

---
 ArcWelderConsole/ArcWelderConsole.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/ArcWelderConsole/ArcWelderConsole.cpp b/ArcWelderConsole/ArcWelderConsole.cpp
index 8541215..38618f8 100644
--- a/ArcWelderConsole/ArcWelderConsole.cpp
+++ b/ArcWelderConsole/ArcWelderConsole.cpp
@@ -303,12 +303,6 @@ int main(int argc, char* argv[])
         throw TCLAP::ArgException("The provided value is less than or equal to 0.", max_radius_arg.toString());
     }
 
-    if (args.extrusion_rate_variance_percent == 0)
-    {
-        // warning
-        std::cout << "warning: The provided path max radius of " << args.max_radius_mm << "mm is greater than 1000000 (1km), which is not recommended.\n";
-    }
-
     if (args.max_radius_mm > 1000000)
     {
         // warning
-- 
2.43.0


From 9c374b3dd8642b794ebb85f754e33e620d00d82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:44 +0000
Subject: [PATCH 31/81] fix: exit with status 1 instead of aborting when an
 argument of ArcStraightener is not valid

---
 ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
index 9a82f76..a47e88a 100644
--- a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
+++ b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
@@ -56,7 +56,11 @@
 int main(int argc, char* argv[])
 {
   try {
-    run_arc_straightener(argc, argv);
+    return run_arc_straightener(argc, argv);
+  }
+  catch (TCLAP::ExitException& e) {
+    // The error has already been printed
+    return e.getExitStatus();
   }
   catch (TCLAP::ArgException *e) {
     std::cout << (*e).what() << " - " << (*e).typeDescription() << "\n";
-- 
2.43.0


From 5e46bfd6b31188d173196bc884a2380305267095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:10 +0000
Subject: [PATCH 32/81] fix: ArcStraightener must not report success or replace
 the source when the conversion failed

---
 .../ArcWelderInverseProcessor.cpp                     | 11 ++++++++++-
 ArcWelderInverseProcessor/arc_interpolation.cpp       | 10 +++++++++-
 ArcWelderInverseProcessor/arc_interpolation.h         |  3 ++-
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
index a47e88a..1c5c51a 100644
--- a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
+++ b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
@@ -582,7 +582,16 @@ int run_arc_straightener(int argc, char* argv[])
   p_logger->log(0, log_levels::INFO, log_messages.str());
 
   p_logger->log(0, log_levels::INFO, "Running interpolation...");
-  interpolator.process();
+  if (!interpolator.process())
+  {
+    p_logger->log(0, log_levels::ERROR, "File processing failed.");
+    if (overwrite_source_file)
+    {
+      // The target is incomplete, keep the source.
+      std::remove(args.target_path.c_str());
+    }
+    return 1;
+  }
   p_logger->log(0, log_levels::INFO, "Interpolation Complete.");
 
   log_messages.clear();
diff --git a/ArcWelderInverseProcessor/arc_interpolation.cpp b/ArcWelderInverseProcessor/arc_interpolation.cpp
index feb045b..c9d6567 100644
--- a/ArcWelderInverseProcessor/arc_interpolation.cpp
+++ b/ArcWelderInverseProcessor/arc_interpolation.cpp
@@ -114,8 +114,9 @@ arc_interpolation::~arc_interpolation()
  
 }
 
-void arc_interpolation::process()
+bool arc_interpolation::process()
 {
+  bool success = false;
   // Create a stringstream we can use for messaging.
   std::stringstream stream;
 
@@ -249,6 +250,12 @@ void arc_interpolation::process()
 
       }
       output_file_.close();
+      // bad() is set if reading failed before the end of the source was reached, fail() if anything could not be written.
+      success = !gcode_file.bad() && !output_file_.fail();
+      if (!success)
+      {
+        std::cout << "Unable to read the whole gcode file or to write the whole output file.\n";
+      }
     }
     else
     {
@@ -273,6 +280,7 @@ void arc_interpolation::process()
   stream << "\tArc Segments Generated: " << p_current_firmware_->get_num_arc_segments_generated() << "\r\n";
   stream << "\tTotal Seconds         : " << total_seconds << "\r\n";
   std::cout << stream.str();
+  return success;
 }
 
 std::string arc_interpolation::get_firmware_arguments_description(std::string separator, std::string argument_prefix, std::string replacement_string, std::string replacement_value) const
diff --git a/ArcWelderInverseProcessor/arc_interpolation.h b/ArcWelderInverseProcessor/arc_interpolation.h
index e1eed16..1549d9e 100644
--- a/ArcWelderInverseProcessor/arc_interpolation.h
+++ b/ArcWelderInverseProcessor/arc_interpolation.h
@@ -69,7 +69,8 @@ class arc_interpolation
 		arc_interpolation();
 		arc_interpolation(arc_interpolation_args args);
 		virtual ~arc_interpolation();
-		void process();
+		// Returns true if the whole source file was converted and written to the target file.
+		bool process();
 		/// <summary>
 		/// Outputs a string description of the firmware arguments.
 		/// </summary>
-- 
2.43.0


From c8da81b6cafd7a05636d4cfd2fcb769133afdb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:11 +0000
Subject: [PATCH 33/81] fix: ArcStraightener must not truncate the source when
 the target is another name of it

---
 .../ArcWelderInverseProcessor.cpp             | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
index 1c5c51a..d4afc43 100644
--- a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
+++ b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
@@ -538,10 +538,12 @@ int run_arc_straightener(int argc, char* argv[])
   std::stringstream log_messages;
   std::string temp_file_path = "";
   log_messages << std::fixed << std::setprecision(DEFAULT_ARG_DOUBLE_PRECISION);
-  if (args.source_path == args.target_path)
+  // The path that will be replaced, it could be another name of the source file.
+  const std::string overwrite_path = args.target_path;
+  if (utilities::is_same_file(args.source_path, args.target_path))
   {
     overwrite_source_file = true;
-    if (!utilities::get_temp_file_path_for_file(args.source_path, temp_file_path))
+    if (!utilities::get_temp_file_path_for_file(args.target_path, temp_file_path))
     {
       log_messages << "The source and target path are the same, but a temporary file path could not be created.  Is the path empty?";
       p_logger->log(0, log_levels::INFO, log_messages.str());
@@ -602,14 +604,22 @@ int run_arc_straightener(int argc, char* argv[])
   {
     log_messages.clear();
     log_messages.str("");
-    log_messages << "Deleting the original source file at '" << args.source_path << "'.";
+    log_messages << "Replacing the original source file at '" << overwrite_path << "'.";
     p_logger->log(0, log_levels::INFO, log_messages.str());
     log_messages.clear();
     log_messages.str("");
-    std::remove(args.source_path.c_str());
-    log_messages << "Renaming temporary file at '" << args.target_path << "' to '" << args.source_path << "'.";
+    log_messages << "Renaming temporary file at '" << args.target_path << "' to '" << overwrite_path << "'.";
     p_logger->log(0, log_levels::INFO, log_messages.str());
-    std::rename(args.target_path.c_str(), args.source_path.c_str());
+    // Replace the source in one step where this is supported, else it must be removed first.
+    if (std::rename(args.target_path.c_str(), overwrite_path.c_str()) != 0)
+    {
+      std::remove(overwrite_path.c_str());
+      if (std::rename(args.target_path.c_str(), overwrite_path.c_str()) != 0)
+      {
+        p_logger->log(0, log_levels::ERROR, "Unable to replace the source file.  The converted file is at '" + args.target_path + "'.");
+        return 1;
+      }
+    }
   }
 
   log_messages.clear();
-- 
2.43.0


From d6c9157a631cb247d5e7c090ba6fdc1da3cc2906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:03 +0000
Subject: [PATCH 34/81] fix: the segments of MARLIN_2 and SMOOTHIEWARE arcs
 must start where the previous segment ends

---
 ArcWelderInverseProcessor/marlin_2.cpp     | 2 ++
 ArcWelderInverseProcessor/smoothieware.cpp | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/ArcWelderInverseProcessor/marlin_2.cpp b/ArcWelderInverseProcessor/marlin_2.cpp
index e70c043..54af4e5 100644
--- a/ArcWelderInverseProcessor/marlin_2.cpp
+++ b/ArcWelderInverseProcessor/marlin_2.cpp
@@ -604,5 +604,7 @@ bool marlin_2::buffer_line(const float(&cart)[MARLIN_2_XYZE], double fr_mm_s, in
   // Generate the gcode
   gcodes_ += g1_command(target);
 
+  // update the current position
+  set_current_position(target);
   return true;
 }
diff --git a/ArcWelderInverseProcessor/smoothieware.cpp b/ArcWelderInverseProcessor/smoothieware.cpp
index 43b8c3c..177c0ec 100644
--- a/ArcWelderInverseProcessor/smoothieware.cpp
+++ b/ArcWelderInverseProcessor/smoothieware.cpp
@@ -302,6 +302,7 @@ bool smoothieware::append_milestone(const float target[], double rate_mm_s)
   // Generate the gcode
   gcodes_ += g1_command(gcode_target);
 
-  return true;
+  // update the current position
+  set_current_position(gcode_target);
   return true;
 }
-- 
2.43.0


From d989828ccc23748255e6bb448b5be6ec4cb1445b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:03 +0000
Subject: [PATCH 35/81] fix: MARLIN_2 arcs must move the Z axis to the target

---
 ArcWelderInverseProcessor/marlin_2.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ArcWelderInverseProcessor/marlin_2.cpp b/ArcWelderInverseProcessor/marlin_2.cpp
index 54af4e5..c5064d8 100644
--- a/ArcWelderInverseProcessor/marlin_2.cpp
+++ b/ArcWelderInverseProcessor/marlin_2.cpp
@@ -307,7 +307,7 @@ void marlin_2::plan_arc_2_0_9_1(
     // Update raw location
     raw[p_axis] = center_P + rvec[0];
     raw[q_axis] = center_Q + rvec[1];
-    raw[l_axis] = start_L, raw[l_axis] + linear_per_segment;
+    raw[l_axis] += linear_per_segment;
 
     raw[E_AXIS] += extruder_per_segment;
 
@@ -321,14 +321,12 @@ void marlin_2::plan_arc_2_0_9_1(
 
   // Ensure last segment arrives at target location.
   COPY(raw, cart);
-  raw[l_axis] = start_L;
 
   apply_motion_limits(raw);
 
 
   buffer_line(raw, scaled_fr_mm_s, 0);
 
-  raw[l_axis] = start_L;
   COPY(current_position, raw);
 }
 
@@ -527,7 +525,7 @@ void marlin_2::plan_arc_2_0_9_2(
     // Update raw location
     raw[p_axis] = center_P + rvec[0];
     raw[q_axis] = center_Q + rvec[1];
-    raw[l_axis] = start_L, raw[l_axis] + per_segment_L;
+    raw[l_axis] += per_segment_L;
     raw[E_AXIS] += extruder_per_segment;
 
     apply_motion_limits(raw);
@@ -540,14 +538,12 @@ void marlin_2::plan_arc_2_0_9_2(
 
   // Ensure last segment arrives at target location.
   COPY(raw, cart);
-  raw[l_axis] = start_L;
 
   apply_motion_limits(raw);
 
 
   buffer_line(raw, scaled_fr_mm_s, 0);
 
-  raw[l_axis] = start_L;
   COPY(current_position, raw);
 }
 // Marlin Function Defs
-- 
2.43.0


From 03b467c31c887efc1d23d2985ecd272c4779a4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:03 +0000
Subject: [PATCH 36/81] fix: delete the position arrays with delete[]

---
 ArcWelderInverseProcessor/marlin_1.cpp | 2 +-
 ArcWelderInverseProcessor/marlin_2.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ArcWelderInverseProcessor/marlin_1.cpp b/ArcWelderInverseProcessor/marlin_1.cpp
index 3bdf86f..a295f73 100644
--- a/ArcWelderInverseProcessor/marlin_1.cpp
+++ b/ArcWelderInverseProcessor/marlin_1.cpp
@@ -42,7 +42,7 @@ marlin_1::marlin_1(firmware_arguments args) : firmware(args) {
 
 marlin_1::~marlin_1()
 {
-	delete current_position;
+	delete[] current_position;
 }
 
 void marlin_1::apply_arguments()
diff --git a/ArcWelderInverseProcessor/marlin_2.cpp b/ArcWelderInverseProcessor/marlin_2.cpp
index c5064d8..7e8a129 100644
--- a/ArcWelderInverseProcessor/marlin_2.cpp
+++ b/ArcWelderInverseProcessor/marlin_2.cpp
@@ -41,7 +41,7 @@ marlin_2::marlin_2(firmware_arguments args) : firmware(args) {
 
 marlin_2::~marlin_2()
 {
-  delete current_position;
+  delete[] current_position;
 }
 
 void marlin_2::apply_arguments()
-- 
2.43.0


From a5592524acc4fc9e0e5b8165c3b8e5eb730b9f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:45 +0000
Subject: [PATCH 37/81] fix: keep the source when it can't be replaced by the
 converted file

---
 ArcWelder/arc_welder.cpp                        | 17 ++++++-----------
 .../ArcWelderInverseProcessor.cpp               | 11 +++--------
 GcodeProcessorLib/utilities.cpp                 |  9 +++++++++
 GcodeProcessorLib/utilities.h                   |  1 +
 4 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index c563fe4..124b2cb 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -389,18 +389,13 @@ arc_welder_results arc_welder::process()
     stream.str("");
     stream << "Renaming temporary file at '" << target_path_ << "' to '" << overwrite_path << "'.";
     p_logger_->log(0, log_levels::DEBUG, stream.str());
-    // Replace the source in one step where this is supported, else it must be removed first.
-    if (std::rename(target_path_.c_str(), overwrite_path.c_str()) != 0)
+    if (!utilities::replace_file(target_path_, overwrite_path))
     {
-      std::remove(overwrite_path.c_str());
-      if (std::rename(target_path_.c_str(), overwrite_path.c_str()) != 0)
-      {
-        results.success = false;
-        results.message = "Unable to replace the source file.  The converted file is at '" + target_path_ + "'.";
-        results.progress = final_progress;
-        p_logger_->log_exception(logger_type_, results.message);
-        return results;
-      }
+      results.success = false;
+      results.message = "Unable to replace the source file.  The converted file is at '" + target_path_ + "'.";
+      results.progress = final_progress;
+      p_logger_->log_exception(logger_type_, results.message);
+      return results;
     }
   }
 
diff --git a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
index d4afc43..11dff6a 100644
--- a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
+++ b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
@@ -610,15 +610,10 @@ int run_arc_straightener(int argc, char* argv[])
     log_messages.str("");
     log_messages << "Renaming temporary file at '" << args.target_path << "' to '" << overwrite_path << "'.";
     p_logger->log(0, log_levels::INFO, log_messages.str());
-    // Replace the source in one step where this is supported, else it must be removed first.
-    if (std::rename(args.target_path.c_str(), overwrite_path.c_str()) != 0)
+    if (!utilities::replace_file(args.target_path, overwrite_path))
     {
-      std::remove(overwrite_path.c_str());
-      if (std::rename(args.target_path.c_str(), overwrite_path.c_str()) != 0)
-      {
-        p_logger->log(0, log_levels::ERROR, "Unable to replace the source file.  The converted file is at '" + args.target_path + "'.");
-        return 1;
-      }
+      p_logger->log(0, log_levels::ERROR, "Unable to replace the source file.  The converted file is at '" + args.target_path + "'.");
+      return 1;
     }
   }
 
diff --git a/GcodeProcessorLib/utilities.cpp b/GcodeProcessorLib/utilities.cpp
index 862325e..2695cfc 100644
--- a/GcodeProcessorLib/utilities.cpp
+++ b/GcodeProcessorLib/utilities.cpp
@@ -507,6 +507,15 @@ bool utilities::is_same_file(const std::string& path, const std::string& other_p
 #endif
 }
 
+bool utilities::replace_file(const std::string& new_path, const std::string& path)
+{
+#ifdef _WIN32
+	// Windows can't rename to an existing file.
+	std::remove(path.c_str());
+#endif
+	return std::rename(new_path.c_str(), path.c_str()) == 0;
+}
+
 bool utilities::does_file_exist(const std::string& file_path)
 {
 	FILE* file;
diff --git a/GcodeProcessorLib/utilities.h b/GcodeProcessorLib/utilities.h
index 2a2ad43..f0dcd23 100644
--- a/GcodeProcessorLib/utilities.h
+++ b/GcodeProcessorLib/utilities.h
@@ -110,6 +110,7 @@ namespace utilities{
 
 	bool get_temp_file_path_for_file(const std::string& file_path, std::string& temp_file_path);
 	bool is_same_file(const std::string& path, const std::string& other_path);
+	bool replace_file(const std::string& new_path, const std::string& path);
 
 	double hypot(double x, double y);
 	
-- 
2.43.0


From 2a2e703842040c05679189cc63cf206deccdd96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:45 +0000
Subject: [PATCH 38/81] fix: an optional argument that is missing or corrected
 must not fail the conversion in Python

---
 PyArcWelder/py_arc_welder.cpp | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/PyArcWelder/py_arc_welder.cpp b/PyArcWelder/py_arc_welder.cpp
index 65dabc9..7a85a7d 100644
--- a/PyArcWelder/py_arc_welder.cpp
+++ b/PyArcWelder/py_arc_welder.cpp
@@ -254,13 +254,13 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
     if (args.default_xyz_precision < 3)
     {
       std::string message = "ParseArgs - The default XYZ precision received was less than 3, which could cause problems printing arcs.  Setting to 3.";
-      p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+      p_py_logger->log(GCODE_CONVERSION, WARNING, message);
       args.default_xyz_precision = 3;
     }
     else if (args.default_xyz_precision > 6)
     {
       std::string message = "ParseArgs - The default XYZ precision received was greater than 6, which could can cause checksum errors depending on your firmware.  Setting to 6.";
-      p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+      p_py_logger->log(GCODE_CONVERSION, WARNING, message);
       args.default_xyz_precision = 6;
     }
   }
@@ -271,20 +271,20 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_default_e_precision == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve the 'default_e_precision parameter' from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else {
     args.default_e_precision = (unsigned char)gcode_arc_converter::PyFloatOrInt_AsDouble(py_default_e_precision);
     if (args.default_e_precision < 3)
     {
       std::string message = "ParseArgs - The default E precision received was less than 3, which could cause extrusion problems.  Setting to 3.";
-      p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+      p_py_logger->log(GCODE_CONVERSION, WARNING, message);
       args.default_e_precision = 3;
     }
     else if (args.default_e_precision > 6)
     {
       std::string message = "ParseArgs - The default E precision received was greater than 6, which could can cause checksum errors depending on your firmware.  Setting to 6.";
-      p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+      p_py_logger->log(GCODE_CONVERSION, WARNING, message);
       args.default_e_precision = 6;
     }
   }
@@ -295,7 +295,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_extrusion_rate_variance_percent == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve the 'extrusion_rate_variance_percent' parameter from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -312,7 +312,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_path_tolerance_percent == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve the 'path_tolerance_percent' parameter from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -329,7 +329,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_max_radius_mm == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve the 'max_radius_mm' parameter from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -346,7 +346,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_mm_per_arc_segment == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve the 'mm_per_arc_segment' parameter from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -363,7 +363,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_min_arc_segments == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve the 'min_arc_segments' parameter from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -380,7 +380,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_max_gcode_length == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve the 'max_gcode_length' parameter from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -397,7 +397,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_allow_3d_arcs == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve 'allow_3d_arcs' from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -410,7 +410,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_allow_travel_arcs == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve 'allow_travel_arcs' from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -424,7 +424,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_g90_g91_influences_extruder == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve 'g90_g91_influences_extruder' from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -437,7 +437,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_log_level == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve 'log_level' from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
-- 
2.43.0


From 30118892b34d0568e70ae64b17e8d241bb0acbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:43 +0000
Subject: [PATCH 39/81] fix: initialize the number of extruders of a position
 before it is compared

---
 GcodeProcessorLib/position.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GcodeProcessorLib/position.cpp b/GcodeProcessorLib/position.cpp
index d9cd3a8..25575fd 100644
--- a/GcodeProcessorLib/position.cpp
+++ b/GcodeProcessorLib/position.cpp
@@ -214,6 +214,7 @@ position::position(int extruder_count)
 	is_in_bounds = true;
 	current_tool = 0;
 	p_extruders = NULL;
+	num_extruders = 0;
 	set_num_extruders(extruder_count);
 	
 }
-- 
2.43.0


From 519bed47618aea80d6aec6944f050757120b6479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:34 +0000
Subject: [PATCH 40/81] fix: initialize the members of arc_interpolation

---
 ArcWelderInverseProcessor/arc_interpolation.cpp | 1 +
 ArcWelderInverseProcessor/arc_interpolation.h   | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/ArcWelderInverseProcessor/arc_interpolation.cpp b/ArcWelderInverseProcessor/arc_interpolation.cpp
index c9d6567..3b06bf9 100644
--- a/ArcWelderInverseProcessor/arc_interpolation.cpp
+++ b/ArcWelderInverseProcessor/arc_interpolation.cpp
@@ -78,6 +78,7 @@ gcode_position_args arc_interpolation::get_args_(bool g90_g91_influences_extrude
 arc_interpolation::arc_interpolation()
 {
   p_current_firmware_ = NULL;
+  p_source_position_ = NULL;
 }
 
 arc_interpolation::arc_interpolation(arc_interpolation_args args) 
diff --git a/ArcWelderInverseProcessor/arc_interpolation.h b/ArcWelderInverseProcessor/arc_interpolation.h
index 1549d9e..be91713 100644
--- a/ArcWelderInverseProcessor/arc_interpolation.h
+++ b/ArcWelderInverseProcessor/arc_interpolation.h
@@ -85,7 +85,7 @@ class arc_interpolation
 			std::ofstream output_file_;
 			int lines_processed_ = 0;
 			firmware* p_current_firmware_;
-			int num_arc_commands_;
+			int num_arc_commands_ = 0;
   
 };
 
-- 
2.43.0


From 52c4293cb49446eae57729f06d8dad6ecea9e386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:34 +0000
Subject: [PATCH 41/81] fix: the segments of an arc must not contain an axis
 that the arc doesn't move

---
 ArcWelderInverseProcessor/firmware.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ArcWelderInverseProcessor/firmware.cpp b/ArcWelderInverseProcessor/firmware.cpp
index bab3968..d96d1dd 100644
--- a/ArcWelderInverseProcessor/firmware.cpp
+++ b/ArcWelderInverseProcessor/firmware.cpp
@@ -75,11 +75,12 @@ std::string firmware::g1_command(firmware_position& target)
   std::string gcode = "G1 ";
   gcode.reserve(96);
 
-  bool has_x = position_.x != target.x;
-  bool has_y = position_.y != target.y;
-  bool has_z = position_.z != target.z;
-  bool has_e = position_.e != target.e;
-  bool has_f = position_.f != target.f;
+  // The firmware works with floats, so the conversion of a coordinate that isn't changed must not be taken for a move.
+  bool has_x = static_cast<float>(position_.x) != static_cast<float>(target.x);
+  bool has_y = static_cast<float>(position_.y) != static_cast<float>(target.y);
+  bool has_z = static_cast<float>(position_.z) != static_cast<float>(target.z);
+  bool has_e = static_cast<float>(position_.e) != static_cast<float>(target.e);
+  bool has_f = static_cast<float>(position_.f) != static_cast<float>(target.f);
   bool is_first_parameter = true;
   if (has_x)
   {
-- 
2.43.0


From c08dabdb071b282c21f180e22648b4e2bc52c43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:34 +0000
Subject: [PATCH 42/81] fix: ArcStraightener must not interpolate an arc whose
 start is unknown

---
 ArcWelderInverseProcessor/arc_interpolation.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/ArcWelderInverseProcessor/arc_interpolation.cpp b/ArcWelderInverseProcessor/arc_interpolation.cpp
index 3b06bf9..82b28e0 100644
--- a/ArcWelderInverseProcessor/arc_interpolation.cpp
+++ b/ArcWelderInverseProcessor/arc_interpolation.cpp
@@ -177,7 +177,21 @@ bool arc_interpolation::process()
 
         p_source_position_->update(cmd, lines_processed_, gcodes_processed, -1);
 
-        if (cmd.command == "G2" || cmd.command == "G3")
+        // The start of an arc is needed to interpolate it.  It isn't known before the first absolute move or after homing.
+        position* p_start_pos = p_source_position_->get_previous_position_ptr();
+        bool is_start_known = !p_start_pos->x_null && !p_start_pos->y_null;
+        if (p_start_pos->z_null)
+        {
+          for (unsigned int index = 0; index < cmd.parameters.size(); index++)
+          {
+            if (cmd.parameters[index].name == "Z")
+            {
+              is_start_known = false;
+            }
+          }
+        }
+
+        if ((cmd.command == "G2" || cmd.command == "G3") && is_start_known)
         {
           // increment the number of arc commands encountered
           num_arc_commands_++;
-- 
2.43.0


From 61694d3e1981ab8308439e007bbdf039e1daff20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:34 +0000
Subject: [PATCH 43/81] fix: calculate the center of arcs in R form in
 ArcStraightener

---
 .../arc_interpolation.cpp                     | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/ArcWelderInverseProcessor/arc_interpolation.cpp b/ArcWelderInverseProcessor/arc_interpolation.cpp
index 82b28e0..314f031 100644
--- a/ArcWelderInverseProcessor/arc_interpolation.cpp
+++ b/ArcWelderInverseProcessor/arc_interpolation.cpp
@@ -239,13 +239,24 @@ bool arc_interpolation::process()
             }
           }
 
-          // If r is 0, calculate the radius
-          if(r==0)
+          is_clockwise = cmd.command == "G2" ? 1 : 0;
+          if (r != 0)
           {
-            r = utilities::hypot(i, j);
+            // R form: find the center.  A positive R is the center of an arc of up to 180 degrees, a negative R of a larger one.
+            const double chord_x = target.x - current.x, chord_y = target.y - current.y;
+            const double half_chord = utilities::hypot(chord_x, chord_y) / 2.0;
+            i = 0;
+            j = 0;
+            if (half_chord > 0)
+            {
+              const double height_squared = (r - half_chord) * (r + half_chord);
+              const double height = height_squared > 0 ? utilities::sqrt(height_squared) : 0;
+              const double direction = is_clockwise != (r < 0) ? -1.0 : 1.0;
+              i = chord_x / 2.0 - direction * height * chord_y / (2.0 * half_chord);
+              j = chord_y / 2.0 + direction * height * chord_x / (2.0 * half_chord);
+            }
           }
-          
-          is_clockwise = cmd.command == "G2" ? 1 : 0;
+          r = utilities::hypot(i, j);
           is_relative = p_cur_pos->is_extruder_relative;
           offset_absolute_e = p_pre_pos->get_current_extruder().get_offset_e();
 
-- 
2.43.0


From 2b27640a0b86a8f602c3e631dc798fc15dec8f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:27 +0000
Subject: [PATCH 44/81] fix: interpolate arcs in inches (G20)

---
 .../arc_interpolation.cpp                     | 29 ++++++++++---------
 ArcWelderInverseProcessor/firmware.cpp        | 13 +++++----
 ArcWelderInverseProcessor/firmware.h          |  5 ++++
 3 files changed, 29 insertions(+), 18 deletions(-)

diff --git a/ArcWelderInverseProcessor/arc_interpolation.cpp b/ArcWelderInverseProcessor/arc_interpolation.cpp
index 314f031..525576b 100644
--- a/ArcWelderInverseProcessor/arc_interpolation.cpp
+++ b/ArcWelderInverseProcessor/arc_interpolation.cpp
@@ -198,20 +198,23 @@ bool arc_interpolation::process()
           // Get the current and previous positions
           position* p_cur_pos = p_source_position_->get_current_position_ptr();
           position* p_pre_pos = p_source_position_->get_previous_position_ptr();
+          // The positions are in the units of the gcode file, but the firmware settings are in millimeters.
+          const double mm_per_unit = p_pre_pos->is_metric ? 1.0 : 25.4;
+          state.mm_per_unit = mm_per_unit;
           // create the current and target positions
-          current.x = p_pre_pos->get_gcode_x();
-          current.y = p_pre_pos->get_gcode_y();
-          current.z = p_pre_pos->get_gcode_z();
-          current.e = p_pre_pos->get_current_extruder().get_offset_e();
-          current.f = p_pre_pos->f;
+          current.x = p_pre_pos->get_gcode_x() * mm_per_unit;
+          current.y = p_pre_pos->get_gcode_y() * mm_per_unit;
+          current.z = p_pre_pos->get_gcode_z() * mm_per_unit;
+          current.e = p_pre_pos->get_current_extruder().get_offset_e() * mm_per_unit;
+          current.f = p_pre_pos->f * mm_per_unit;
           // set the current firmware position
           p_current_firmware_->set_current_position(current);
 
-          target.x = p_cur_pos->get_gcode_x();
-          target.y = p_cur_pos->get_gcode_y();
-          target.z = p_cur_pos->get_gcode_z();
-          target.e = p_cur_pos->get_current_extruder().get_offset_e();
-          target.f = p_cur_pos->f;
+          target.x = p_cur_pos->get_gcode_x() * mm_per_unit;
+          target.y = p_cur_pos->get_gcode_y() * mm_per_unit;
+          target.z = p_cur_pos->get_gcode_z() * mm_per_unit;
+          target.e = p_cur_pos->get_current_extruder().get_offset_e() * mm_per_unit;
+          target.f = p_cur_pos->f * mm_per_unit;
 
           state.is_extruder_relative = p_pre_pos->is_extruder_relative;
           state.is_relative = p_pre_pos->is_relative;
@@ -227,15 +230,15 @@ bool arc_interpolation::process()
             parsed_command_parameter p = cmd.parameters[index];
             if (p.name == "I")
             {
-              i = p.double_value;
+              i = p.double_value * mm_per_unit;
             }
             else if (p.name == "J")
             {
-              j = p.double_value;
+              j = p.double_value * mm_per_unit;
             }
             else if (p.name == "R")
             {
-              r = p.double_value;
+              r = p.double_value * mm_per_unit;
             }
           }
 
diff --git a/ArcWelderInverseProcessor/firmware.cpp b/ArcWelderInverseProcessor/firmware.cpp
index d96d1dd..73aef62 100644
--- a/ArcWelderInverseProcessor/firmware.cpp
+++ b/ArcWelderInverseProcessor/firmware.cpp
@@ -82,38 +82,41 @@ std::string firmware::g1_command(firmware_position& target)
   bool has_e = static_cast<float>(position_.e) != static_cast<float>(target.e);
   bool has_f = static_cast<float>(position_.f) != static_cast<float>(target.f);
   bool is_first_parameter = true;
+  // An inch needs two more digits
+  const double scale = 1.0 / state_.mm_per_unit;
+  const unsigned char extra_digits = state_.mm_per_unit > 1 ? 2 : 0;
   if (has_x)
   {
     gcode += is_first_parameter ? "X" : " X";
-    gcode += utilities::dtos(state_.is_relative ? target.x - position_.x : target.x, 3);
+    gcode += utilities::dtos((state_.is_relative ? target.x - position_.x : target.x) * scale, 3 + extra_digits);
     is_first_parameter = false;
   }
 
   if (has_y)
   {
     gcode += is_first_parameter ? "Y" : " Y";
-    gcode += utilities::dtos(state_.is_relative ? target.y - position_.y : target.y, 3);
+    gcode += utilities::dtos((state_.is_relative ? target.y - position_.y : target.y) * scale, 3 + extra_digits);
     is_first_parameter = false;
   }
 
   if (has_z)
   {
     gcode += is_first_parameter ? "Z" : " Z";
-    gcode += utilities::dtos(state_.is_relative ? target.z - position_.z : target.z, 3);
+    gcode += utilities::dtos((state_.is_relative ? target.z - position_.z : target.z) * scale, 3 + extra_digits);
     is_first_parameter = false;
   }
 
   if (has_e)
   {
     gcode += is_first_parameter ? "E" : " E";
-    gcode += utilities::dtos(state_.is_extruder_relative ? target.e - position_.e : target.e, 5);
+    gcode += utilities::dtos((state_.is_extruder_relative ? target.e - position_.e : target.e) * scale, 5 + extra_digits);
     is_first_parameter = false;
   }
 
   if (has_f)
   {
     gcode += is_first_parameter ? "F" : " F";
-    gcode += utilities::dtos(target.f, 0);
+    gcode += utilities::dtos(target.f * scale, 0 + extra_digits);
   }
   
   return gcode;
diff --git a/ArcWelderInverseProcessor/firmware.h b/ArcWelderInverseProcessor/firmware.h
index 3113539..87ad7d6 100644
--- a/ArcWelderInverseProcessor/firmware.h
+++ b/ArcWelderInverseProcessor/firmware.h
@@ -65,9 +65,14 @@ struct firmware_state {
   firmware_state() {
     is_relative = false;
     is_extruder_relative = false;
+    mm_per_unit = 1;
   }
   bool is_relative;
   bool is_extruder_relative;
+  /// <summary>
+  /// The size of one unit of the gcode file: 1 for millimeters (G21) or 25.4 for inches (G20).  Positions are always in millimeters.
+  /// </summary>
+  double mm_per_unit;
 };
 
 struct firmware_position {
-- 
2.43.0


From 181b678a833de910b66ccd5c3309174b26626ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:27 +0000
Subject: [PATCH 45/81] fix: REPETIER 1.0.5 arcs must move the Z axis

---
 ArcWelderInverseProcessor/repetier.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ArcWelderInverseProcessor/repetier.cpp b/ArcWelderInverseProcessor/repetier.cpp
index f3feb61..8ba61ee 100644
--- a/ArcWelderInverseProcessor/repetier.cpp
+++ b/ArcWelderInverseProcessor/repetier.cpp
@@ -261,7 +261,7 @@ void repetier::arc_1_0_5(float* position, float* target, float* offset, float ra
   int8_t count = 0;
 
   // Initialize the linear axis
-  //arc_target[axis_linear] = position[axis_linear];
+  arc_target[Z_AXIS] = position[Z_AXIS];
 
   // Initialize the extruder axis
   arc_target[E_AXIS] = position[E_AXIS]; // * Printer::invAxisStepsPerMM[E_AXIS]; -- Not sure what this does
@@ -291,10 +291,10 @@ void repetier::arc_1_0_5(float* position, float* target, float* offset, float ra
     arc_target[Y_AXIS] = center_axis1 + r_axis1;
     arc_target[Z_AXIS] += linear_per_segment;
     arc_target[E_AXIS] += extruder_per_segment;
-    moveToReal(arc_target[X_AXIS], arc_target[Y_AXIS], position[Z_AXIS], arc_target[E_AXIS]);
+    moveToReal(arc_target[X_AXIS], arc_target[Y_AXIS], arc_target[Z_AXIS], arc_target[E_AXIS]);
   }
   // Ensure last segment arrives at target location.
-  moveToReal(target[X_AXIS], target[Y_AXIS], position[Z_AXIS], target[E_AXIS]);
+  moveToReal(target[X_AXIS], target[Y_AXIS], target[Z_AXIS], target[E_AXIS]);
 }
 
 /// <summary>
-- 
2.43.0


From 8fecd11eb41d66e3306cb50a23bf52fc9b2de6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:23 +0000
Subject: [PATCH 46/81] fix: ArcStraightener must not exit with status 0 when
 there is no file to convert

---
 ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
index 11dff6a..962582e 100644
--- a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
+++ b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
@@ -374,7 +374,7 @@ int run_arc_straightener(int argc, char* argv[])
     if (!isSourceIncluded)
     {
         std::cout << "The <source> parameter is required.  Please specify a file to convert.";
-        return 0;
+        return 1;
     }
     // Get the value parsed by each arg. 
     args.source_path = source_arg.getValue();
-- 
2.43.0


From cb89696031994c8a5762ec2464937d73985eb405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:23 +0000
Subject: [PATCH 47/81] fix: g90-influences-extruder=DEFAULT must select the
 default of the firmware

---
 ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
index 962582e..9c2a754 100644
--- a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
+++ b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
@@ -434,7 +434,11 @@ int run_arc_straightener(int argc, char* argv[])
       {
         throw TCLAP::ArgException("The argument does not apply to the " + firmware_type_string + " " + firmware_version_arg.getValue() + " firmware.  Only the following parameters are supported: " + available_arguments_string, g90_arg.toString());
       }
-      args.firmware_args.g90_g91_influences_extruder = g90_arg.getValue() == "TRUE";
+      // DEFAULT keeps the default of the firmware
+      if (g90_arg.getValue() != "DEFAULT")
+      {
+        args.firmware_args.g90_g91_influences_extruder = g90_arg.getValue() == "TRUE";
+      }
     }
     if (n_arc_correction_arg.isSet())
     {
-- 
2.43.0


From 9f40cedd7acce2131e29750a383b99a4f1e9e273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:23 +0000
Subject: [PATCH 48/81] fix: reject maximum arc segment lengths that the
 firmware would divide by 0 with

---
 ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
index 9c2a754..b9c7f3b 100644
--- a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
+++ b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
@@ -399,6 +399,11 @@ int run_arc_straightener(int argc, char* argv[])
         throw TCLAP::ArgException("The argument does not apply to the " + firmware_type_string + " " + firmware_version_arg.getValue() + " firmware.  Only the following parameters are supported: " + available_arguments_string, mm_per_arc_segment_arg.toString());
       }
       args.firmware_args.mm_per_arc_segment = mm_per_arc_segment_arg.getValue();
+      // Only Smoothieware can do without it, all others divide by it.
+      if (args.firmware_args.mm_per_arc_segment <= 0 && args.firmware_args.firmware_type != firmware_types::SMOOTHIEWARE)
+      {
+        throw TCLAP::ArgException("The value must be greater than 0.", mm_per_arc_segment_arg.toString());
+      }
     }
     if (min_mm_per_arc_segment_arg.isSet())
     {
@@ -488,6 +493,10 @@ int run_arc_straightener(int argc, char* argv[])
         throw TCLAP::ArgException("The argument does not apply to the " + firmware_type_string + " " + firmware_version_arg.getValue() + " firmware.  Only the following parameters are supported: " + available_arguments_string, max_arc_segment_mm_arg.toString());
       }
       args.firmware_args.max_arc_segment_mm = max_arc_segment_mm_arg.getValue();
+      if (args.firmware_args.max_arc_segment_mm <= 0)
+      {
+        throw TCLAP::ArgException("The value must be greater than 0.", max_arc_segment_mm_arg.toString());
+      }
     }
     //arc_segments_per_r
     if (arc_segments_per_r_arg.isSet())
-- 
2.43.0


From e95a71a9ce5153aacfccbe49ca386fdf2aa90f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:15 +0000
Subject: [PATCH 49/81] fix: raise an exception instead of crashing when a
 string argument is not valid in Python

---
 PyArcWelder/py_arc_welder.cpp | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/PyArcWelder/py_arc_welder.cpp b/PyArcWelder/py_arc_welder.cpp
index 7a85a7d..38823da 100644
--- a/PyArcWelder/py_arc_welder.cpp
+++ b/PyArcWelder/py_arc_welder.cpp
@@ -173,7 +173,15 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
     p_py_logger->log_exception(GCODE_CONVERSION, message);
     return false;
   }
-  args.guid = gcode_arc_converter::PyUnicode_SafeAsString(py_guid);
+  const char* guid = gcode_arc_converter::PyUnicode_SafeAsString(py_guid);
+  if (guid == NULL)
+  {
+    // It isn't a string, or it can't be encoded.  The exception is already set.
+    std::string message = "ParseArgs - The required parameter 'guid' is not valid.";
+    p_py_logger->log_exception(GCODE_CONVERSION, message);
+    return false;
+  }
+  args.guid = guid;
 #pragma endregion guid
 #pragma region source_path
   // Extract the source file path
@@ -184,7 +192,15 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
     p_py_logger->log_exception(GCODE_CONVERSION, message);
     return false;
   }
-  args.source_path = gcode_arc_converter::PyUnicode_SafeAsString(py_source_path);
+  const char* source_path = gcode_arc_converter::PyUnicode_SafeAsString(py_source_path);
+  if (source_path == NULL)
+  {
+    // It isn't a string, or it can't be encoded.  The exception is already set.
+    std::string message = "ParseArgs - The required parameter 'source_path' is not valid.";
+    p_py_logger->log_exception(GCODE_CONVERSION, message);
+    return false;
+  }
+  args.source_path = source_path;
 #pragma endregion source_path
 #pragma region target_path
   // Extract the target file path
@@ -195,7 +211,15 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
     p_py_logger->log_exception(GCODE_CONVERSION, message);
     return false;
   }
-  args.target_path = gcode_arc_converter::PyUnicode_SafeAsString(py_target_path);
+  const char* target_path = gcode_arc_converter::PyUnicode_SafeAsString(py_target_path);
+  if (target_path == NULL)
+  {
+    // It isn't a string, or it can't be encoded.  The exception is already set.
+    std::string message = "ParseArgs - The required parameter 'target_path' is not valid.";
+    p_py_logger->log_exception(GCODE_CONVERSION, message);
+    return false;
+  }
+  args.target_path = target_path;
 #pragma endregion target_path
 #pragma region on_progress_received
   // on_progress_received
-- 
2.43.0


From 7df633b4f00d15ae2182b8026bf5dc74af77cb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:15 +0000
Subject: [PATCH 50/81] fix: don't leave an exception of the progress callback
 set

---
 PyArcWelder/py_arc_welder.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/PyArcWelder/py_arc_welder.cpp b/PyArcWelder/py_arc_welder.cpp
index 38823da..4f14357 100644
--- a/PyArcWelder/py_arc_welder.cpp
+++ b/PyArcWelder/py_arc_welder.cpp
@@ -139,6 +139,8 @@ bool py_arc_welder::on_progress_(const arc_welder_progress& progress)
   {
     // no return value was supply, assume true, but without decrefing pContinueProcessing
     continue_processing = true;
+    // The callback raised an exception.  Report it, since the Python API must not be used while it is set.
+    PyErr_WriteUnraisable(py_progress_callback_);
   }
   else
   {
@@ -149,6 +151,10 @@ bool py_arc_welder::on_progress_(const arc_welder_progress& progress)
     else
     {
       continue_processing = PyLong_AsLong(pContinueProcessing) > 0;
+      if (PyErr_Occurred())
+      {
+        PyErr_WriteUnraisable(py_progress_callback_);
+      }
     }
     Py_DECREF(pContinueProcessing);
   }
-- 
2.43.0


From b46fb5d388349ea024c7c2ac1e9d4d53752fb7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:15 +0000
Subject: [PATCH 51/81] fix: release the references to the progress of a
 conversion in Python

---
 PyArcWelder/py_arc_welder.cpp           | 4 ++++
 PyArcWelder/py_arc_welder_extension.cpp | 5 ++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/PyArcWelder/py_arc_welder.cpp b/PyArcWelder/py_arc_welder.cpp
index 4f14357..674ee28 100644
--- a/PyArcWelder/py_arc_welder.cpp
+++ b/PyArcWelder/py_arc_welder.cpp
@@ -112,6 +112,10 @@ PyObject* py_arc_welder::build_py_progress(const arc_welder_progress& progress,
   PyDict_SetItemString(py_progress, "segment_statistics_text", pyMessage);
   PyDict_SetItemString(py_progress, "segment_travel_statistics_text", pyTravelMessage);
   PyDict_SetItemString(py_progress, "guid", pyGuid);
+  // The dict has its own references
+  Py_DECREF(pyMessage);
+  Py_DECREF(pyTravelMessage);
+  Py_DECREF(pyGuid);
   return py_progress;
 }
 
diff --git a/PyArcWelder/py_arc_welder_extension.cpp b/PyArcWelder/py_arc_welder_extension.cpp
index 4ad2518..ce4ccbd 100644
--- a/PyArcWelder/py_arc_welder_extension.cpp
+++ b/PyArcWelder/py_arc_welder_extension.cpp
@@ -210,10 +210,13 @@ extern "C"
 		PyObject* p_progress = py_arc_welder::build_py_progress(results.progress, args.guid, true);
 		
 		if (p_progress == NULL)
+		{
+			Py_INCREF(Py_None);
 			p_progress = Py_None;
+		}
 
 		PyObject* p_results = Py_BuildValue(
-			"{s:i,s:i,s:s,s:O}",
+			"{s:i,s:i,s:s,s:N}",
 			"success",
 			(long int)(results.success ? 1 : 0),
 			"is_cancelled",
-- 
2.43.0


From 54b9eb534be4526850e29c431be234ba528d0935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:15 +0000
Subject: [PATCH 52/81] fix: don't return the results of a failed conversion
 with an exception set

---
 PyArcWelder/py_arc_welder_extension.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PyArcWelder/py_arc_welder_extension.cpp b/PyArcWelder/py_arc_welder_extension.cpp
index ce4ccbd..c2c4689 100644
--- a/PyArcWelder/py_arc_welder_extension.cpp
+++ b/PyArcWelder/py_arc_welder_extension.cpp
@@ -202,7 +202,9 @@ extern "C"
 		py_arc_welder arc_welder_obj(args);
 		arc_welder_results results;
 		results = arc_welder_obj.process();
-		
+		// Logging an error sets an exception, but a failure is returned in the results.
+		PyErr_Clear();
+
 		message = "py_gcode_arc_converter.ConvertFile - Arc Conversion Complete.";
 		p_py_logger->log(GCODE_CONVERSION, log_levels::INFO, message);
 		Py_XDECREF(py_progress_callback);
-- 
2.43.0


From a81d6fcad952f8453ba2a4124c28ff10e8e7b444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:15 +0000
Subject: [PATCH 53/81] fix: check the precision before it is converted to a
 smaller type in Python

---
 PyArcWelder/py_arc_welder.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/PyArcWelder/py_arc_welder.cpp b/PyArcWelder/py_arc_welder.cpp
index 674ee28..ca1e76d 100644
--- a/PyArcWelder/py_arc_welder.cpp
+++ b/PyArcWelder/py_arc_welder.cpp
@@ -284,7 +284,13 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
     p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else {
-    args.default_xyz_precision = (unsigned char)gcode_arc_converter::PyFloatOrInt_AsDouble(py_default_xyz_precision);
+    // Check the value before it is converted to a smaller type
+    const double default_xyz_precision = gcode_arc_converter::PyFloatOrInt_AsDouble(py_default_xyz_precision);
+    args.default_xyz_precision = default_xyz_precision >= 3 && default_xyz_precision <= 6 ? (unsigned char)default_xyz_precision : 0;
+    if (default_xyz_precision > 6)
+    {
+      args.default_xyz_precision = 7;
+    }
     if (args.default_xyz_precision < 3)
     {
       std::string message = "ParseArgs - The default XYZ precision received was less than 3, which could cause problems printing arcs.  Setting to 3.";
@@ -308,7 +314,13 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
     p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else {
-    args.default_e_precision = (unsigned char)gcode_arc_converter::PyFloatOrInt_AsDouble(py_default_e_precision);
+    // Check the value before it is converted to a smaller type
+    const double default_e_precision = gcode_arc_converter::PyFloatOrInt_AsDouble(py_default_e_precision);
+    args.default_e_precision = default_e_precision >= 3 && default_e_precision <= 6 ? (unsigned char)default_e_precision : 0;
+    if (default_e_precision > 6)
+    {
+      args.default_e_precision = 7;
+    }
     if (args.default_e_precision < 3)
     {
       std::string message = "ParseArgs - The default E precision received was less than 3, which could cause extrusion problems.  Setting to 3.";
-- 
2.43.0


From e0f70bc0268439adf00d209838d1e2538d7ce347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:10 +0000
Subject: [PATCH 54/81] fix: treat tabs between the words of a line like spaces

---
 GcodeProcessorLib/gcode_parser.cpp | 58 ++++++++++++++++--------------
 1 file changed, 32 insertions(+), 26 deletions(-)

diff --git a/GcodeProcessorLib/gcode_parser.cpp b/GcodeProcessorLib/gcode_parser.cpp
index 48ff555..7bf3740 100644
--- a/GcodeProcessorLib/gcode_parser.cpp
+++ b/GcodeProcessorLib/gcode_parser.cpp
@@ -24,6 +24,12 @@
 #include "utilities.h"
 #include <cmath>
 #include <iostream>
+// Words may be separated by spaces or tabs
+static inline bool is_white_space(const char c)
+{
+	return c == ' ' || c == '\t';
+}
+
 gcode_parser::gcode_parser()
 {
 	// doesn't work in the ancient version of c++ I am forced to use :(
@@ -266,7 +272,7 @@ bool gcode_parser::try_extract_gcode_command(char ** p_p_gcode, std::string * p_
 	bool found_command = false;
 
 	// Ignore Leading Spaces
-	while (*p == ' ')
+	while (is_white_space(*p))
 	{
 		p++;
 	}
@@ -296,8 +302,8 @@ bool gcode_parser::try_extract_gcode_command(char ** p_p_gcode, std::string * p_
 
 			bool has_significant_digit = false;
 			// Now look for a command address
-			while ((*p >= '0' && *p <= '9') || *p == ' ') {
-				if (*p != ' ')
+			while ((*p >= '0' && *p <= '9') || is_white_space(*p)) {
+				if (!is_white_space(*p))
 				{
 					// The address is a number, so leading zeros are not significant (G01 is G1)
 					if (found_command && !has_significant_digit)
@@ -314,7 +320,7 @@ bool gcode_parser::try_extract_gcode_command(char ** p_p_gcode, std::string * p_
 					// but for the command itself, it might be a good idea
 					// to assume the space is important.
 					// instead, keep moving forward until no spaces are found
-					while (*p == ' ')
+					while (is_white_space(*p))
 					{
 						p++;
 					}
@@ -331,8 +337,8 @@ bool gcode_parser::try_extract_gcode_command(char ** p_p_gcode, std::string * p_
 			if (*p == '.') {
 				(*p_command).push_back(*p++);
 				found_command = false;
-				while ((*p >= '0' && *p <= '9') || *p == ' ') {
-					if (*p != ' ')
+				while ((*p >= '0' && *p <= '9') || is_white_space(*p)) {
+					if (!is_white_space(*p))
 					{
 						found_command = true;
 						(*p_command).push_back(*p++);
@@ -349,7 +355,7 @@ bool gcode_parser::try_extract_gcode_command(char ** p_p_gcode, std::string * p_
 			char * p_t = p;
 			// skip any whitespace
 			// Ignore Leading Spaces
-			while (*p_t == ' ' || *p_t == '\t')
+			while (is_white_space(*p_t))
 			{
 				p_t++;
 			}
@@ -366,7 +372,7 @@ bool gcode_parser::try_extract_gcode_command(char ** p_p_gcode, std::string * p_
 			{
 				p_t++;
 				// The next letter looks good!  Now see if there are any other characters before the end of the line (excluding comments)
-				while (*p_t == ' ' || *p_t == '\t')
+				while (is_white_space(*p_t))
 				{
 					p_t++;
 				}
@@ -387,7 +393,7 @@ bool gcode_parser::try_extract_at_command(char ** p_p_gcode, std::string * p_com
 {
 	char *p = *p_p_gcode;
 	bool found_command = false;
-	while (*p != '\0' && *p != ';' && *p!= ' ')
+	while (*p != '\0' && *p != ';' && !is_white_space(*p))
 	{
 		if (!found_command)
 		{
@@ -409,11 +415,11 @@ bool gcode_parser::try_extract_unsigned_long(char ** p_p_gcode, unsigned long *
 	unsigned int r = 0;
 	bool found_numbers = false;
 	// skip any leading whitespace
-	while (*p == ' ')
+	while (is_white_space(*p))
 		++p;
 
-	while ((*p >= '0' && *p <= '9') || *p == ' ') {
-		if (*p != ' ')
+	while ((*p >= '0' && *p <= '9') || is_white_space(*p)) {
+		if (!is_white_space(*p))
 		{
 			found_numbers = true;
 			r = static_cast<unsigned int>((r * 10.0) + (*p - '0'));
@@ -447,26 +453,26 @@ bool gcode_parser::try_extract_double(char ** p_p_gcode, double * p_double, unsi
 	double r = 0;
 	bool found_numbers = false;
 	// skip any leading whitespace
-	while (*p == ' ')
+	while (is_white_space(*p))
 		++p;
 	// Check for negative sign
 	if (*p == '-') {
 		neg = true;
 		++p;
-		while (*p == ' ')
+		while (is_white_space(*p))
 			++p;
 	}
 	else if (*p == '+') {
 		// Positive sign doesn't affect anything since we assume positive
 		++p;
-		while (*p == ' ')
+		while (is_white_space(*p))
 			++p;
 	}
 	// skip any additional whitespace
 	
 
-	while ((*p >= '0' && *p <= '9') || *p == ' ') {
-		if (*p != ' ')
+	while ((*p >= '0' && *p <= '9') || is_white_space(*p)) {
+		if (!is_white_space(*p))
 		{
 			found_numbers = true;
 			r = (r*10.0) + (*p - '0');
@@ -477,8 +483,8 @@ bool gcode_parser::try_extract_double(char ** p_p_gcode, double * p_double, unsi
 		double f = 0.0;
 		unsigned short n = 0;
 		++p;
-		while ((*p >= '0' && *p <= '9') || *p == ' ') {
-			if (*p != ' ')
+		while ((*p >= '0' && *p <= '9') || is_white_space(*p)) {
+			if (!is_white_space(*p))
 			{
 				found_numbers = true;
 				f = (f*10.0) + (*p - '0');
@@ -508,7 +514,7 @@ bool gcode_parser::try_extract_text_parameter(char ** p_p_gcode, std::string * p
 	char * p = *p_p_gcode;
 	
 	// Ignore Leading Spaces
-	while (*p == ' ')
+	while (is_white_space(*p))
 	{
 		p++;
 	}
@@ -532,12 +538,12 @@ bool gcode_parser::try_extract_octolapse_parameter(char ** p_p_gcode, parsed_com
 	char * p = *p_p_gcode;
 	bool has_found_parameter = false;
 	// Ignore Leading Spaces
-	while (*p == ' ')
+	while (is_white_space(*p))
 	{
 		p++;
 	}
 	// extract name, make all caps.
-	while (*p != '\0' && *p != ';' && *p != ' ')
+	while (*p != '\0' && *p != ';' && !is_white_space(*p))
 	{
 		if (!has_found_parameter)
 		{
@@ -556,7 +562,7 @@ bool gcode_parser::try_extract_octolapse_parameter(char ** p_p_gcode, parsed_com
 	// Todo: Handle any otolapse commands require a string parameter
 	/*
 	// Ignore spaces after the command name
-	while (*p == ' ')
+	while (is_white_space(*p))
 	{
 		p++;
 	}
@@ -586,7 +592,7 @@ bool gcode_parser::try_extract_parameter(char ** p_p_gcode, parsed_command_param
 	char * p = *p_p_gcode;
 
 	// Ignore Leading Spaces
-	while (*p == ' ')
+	while (is_white_space(*p))
 	{
 		p++;
 	}
@@ -605,7 +611,7 @@ bool gcode_parser::try_extract_parameter(char ** p_p_gcode, parsed_command_param
 	{
 		parameter->value_type = 'F';
 	}
-	else if (*p == ' ' || (*p >= 'a' && *p <= 'z') || (*p >= 'A' && *p <= 'Z'))
+	else if (is_white_space(*p) || (*p >= 'a' && *p <= 'z') || (*p >= 'A' && *p <= 'Z'))
 	{
 		// There is no value, and another parameter may follow (G28 X Y)
 		parameter->value_type = 'N';
@@ -633,7 +639,7 @@ bool gcode_parser::try_extract_t_parameter(char ** p_p_gcode, parsed_command_par
 	char * p = *p_p_gcode;
 	parameter->name = 'T';
 	// Ignore Leading Spaces
-	while (*p == L' ')
+	while (is_white_space(*p))
 	{
 		p++;
 	}
-- 
2.43.0


From 458bb7639f5cfc463711a81d425c9949c1805f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:44 +0000
Subject: [PATCH 55/81] fix: don't share the buffer of localtime between
 threads that log

---
 GcodeProcessorLib/logger.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/GcodeProcessorLib/logger.cpp b/GcodeProcessorLib/logger.cpp
index 7198f05..64aea1f 100644
--- a/GcodeProcessorLib/logger.cpp
+++ b/GcodeProcessorLib/logger.cpp
@@ -158,12 +158,17 @@ void logger::log(const int logger_type, log_levels log_level, const std::string&
 void logger::get_timestamp(std::string &timestamp)
 {
 	std::time_t rawtime;
-	std::tm* timeinfo;
+	std::tm timeinfo;
 	char buffer[80];
 
 	std::time(&rawtime);
-	timeinfo = std::localtime(&rawtime);
-	std::strftime(buffer, 80, "%Y-%m-%d %H:%M:%S.", timeinfo);
+	// std::localtime returns a shared buffer, which isn't safe if several threads are logging
+#ifdef _WIN32
+	localtime_s(&timeinfo, &rawtime);
+#else
+	localtime_r(&rawtime, &timeinfo);
+#endif
+	std::strftime(buffer, 80, "%Y-%m-%d %H:%M:%S.", &timeinfo);
 	
 	timestamp = buffer;
 	clock_t t = std::clock();
-- 
2.43.0


From 31f188496f2a587be5e988d954cf70f63e554dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:08 +0000
Subject: [PATCH 56/81] fix: don't use a position after the position buffer was
 enlarged

---
 ArcWelder/arc_welder.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 124b2cb..ca26240 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -657,6 +657,9 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
       if (current_arc_.get_num_segments() + 2 > p_source_position_->get_max_positions())
       {
         p_source_position_->grow_max_positions(p_source_position_->get_max_positions() * 2);
+        // The positions have moved
+        p_cur_pos = p_source_position_->get_current_position_ptr();
+        p_pre_pos = p_source_position_->get_previous_position_ptr();
       }
       if (!waiting_for_arc_)
       {
-- 
2.43.0


From 9fc2cc989998da9a93bdd38c8cdb9af720400ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:38 +0000
Subject: [PATCH 57/81] fix: the number of segments of a circle does not always
 fit into an int

---
 ArcWelder/segmented_arc.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ArcWelder/segmented_arc.cpp b/ArcWelder/segmented_arc.cpp
index ba40d4a..3dc6e1c 100644
--- a/ArcWelder/segmented_arc.cpp
+++ b/ArcWelder/segmented_arc.cpp
@@ -257,11 +257,12 @@ bool segmented_arc::try_add_point_internal_(printer_point p)
       // See how many arcs will be interpolated
       double circumference = 2.0 * PI_DOUBLE * current_arc_.radius;
       // TODO: Should this be ceil?
-      int num_segments = (int)utilities::floor(circumference / mm_per_arc_segment_);
+      // This doesn't always fit into an int
+      double num_segments = utilities::floor(circumference / mm_per_arc_segment_);
       if (num_segments < min_arc_segments_) {
         //num_segments = (int)std::ceil(circumference/approximate_length) * (int)std::ceil(approximate_length / mm_per_arc_segment);
         // TODO: Should this be ceil?
-        num_segments = (int)utilities::floor(circumference / original_shape_length_);
+        num_segments = utilities::floor(circumference / original_shape_length_);
         if (num_segments < min_arc_segments_) {
           abort_arc = true;
           num_firmware_compensations_++; 
-- 
2.43.0


From 4017bc36041677151a06e5dca832a0a314acf84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:39 +0000
Subject: [PATCH 58/81] fix: tool numbers that don't fit into an int are out of
 range, not undefined

---
 GcodeProcessorLib/gcode_parser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/GcodeProcessorLib/gcode_parser.cpp b/GcodeProcessorLib/gcode_parser.cpp
index 7bf3740..0e00348 100644
--- a/GcodeProcessorLib/gcode_parser.cpp
+++ b/GcodeProcessorLib/gcode_parser.cpp
@@ -422,7 +422,9 @@ bool gcode_parser::try_extract_unsigned_long(char ** p_p_gcode, unsigned long *
 		if (!is_white_space(*p))
 		{
 			found_numbers = true;
-			r = static_cast<unsigned int>((r * 10.0) + (*p - '0'));
+			// Don't overflow, no command uses numbers of that size
+			if (r < 100000000)
+				r = r * 10 + (*p - '0');
 		}
 		++p;
 	}
-- 
2.43.0


From 3d0e4e8d76b6508dd99a529e32412222e1caa683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:39 +0000
Subject: [PATCH 59/81] fix: extruder numbers of G10 and M218 that don't fit
 into an int are out of range, not undefined

---
 GcodeProcessorLib/gcode_position.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/GcodeProcessorLib/gcode_position.cpp b/GcodeProcessorLib/gcode_position.cpp
index d2080ee..da30664 100644
--- a/GcodeProcessorLib/gcode_position.cpp
+++ b/GcodeProcessorLib/gcode_position.cpp
@@ -954,6 +954,15 @@ void gcode_position::process_g3(position* pos, parsed_command& cmd)
 	return process_g2(pos, cmd);
 }
 
+// Rounds an extruder number.  Numbers that don't fit into an int are never valid.
+static int to_extruder_number(double val)
+{
+	val = val + 0.5 - (val < 0);
+	if (!(val > -1000000))
+		return -1;
+	return val < 1000000 ? static_cast<int>(val) : 1000000;
+}
+
 void gcode_position::process_g10(position* pos, parsed_command& cmd)
 {
 	// Take 0 based extruder parameter in account
@@ -985,9 +994,7 @@ void gcode_position::process_g10(position* pos, parsed_command& cmd)
 			}
 			else if (p_cur_param.value_type == 'F')
 			{
-				double val = p_cur_param.double_value;
-				val = val + 0.5 - (val < 0);
-				p = static_cast<int>(val);
+				p = to_extruder_number(p_cur_param.double_value);
 			}
 			else
 				has_p = false;
@@ -1349,9 +1356,7 @@ void gcode_position::process_m218(position* pos, parsed_command& cmd)
 			}
 			else if (p_cur_param.value_type == 'F')
 			{
-				double val = p_cur_param.double_value;
-				val = val + 0.5 - (val < 0);
-				t = static_cast<int>(val);
+				t = to_extruder_number(p_cur_param.double_value);
 			}
 			else
 				has_t = false;
-- 
2.43.0


From 18af91199e0ccf40ad6faf86272cdae362f20c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:10 +0000
Subject: [PATCH 60/81] fix: copied containers start at the front, where the
 items were copied to

---
 GcodeProcessorLib/array_list.h      | 3 ++-
 GcodeProcessorLib/circular_buffer.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/GcodeProcessorLib/array_list.h b/GcodeProcessorLib/array_list.h
index 1befaa6..78913fd 100644
--- a/GcodeProcessorLib/array_list.h
+++ b/GcodeProcessorLib/array_list.h
@@ -179,7 +179,8 @@ public:
 		{
 			items_[index] = source[index];
 		}
-		front_index_ = source.front_index_;
+		// The items were copied to the start
+		front_index_ = 0;
 		count_ = source.count_;
 	}
 
diff --git a/GcodeProcessorLib/circular_buffer.h b/GcodeProcessorLib/circular_buffer.h
index 645234e..6f3cf68 100644
--- a/GcodeProcessorLib/circular_buffer.h
+++ b/GcodeProcessorLib/circular_buffer.h
@@ -193,7 +193,8 @@ public:
 		{
 			items_[index] = source[index];
 		}
-		front_index_ = source.front_index_;
+		// The items were copied to the start
+		front_index_ = 0;
 		count_ = source.count_;
 	}
 
-- 
2.43.0


From 006ea8a8e4a9160c9ca8d805941adf059a59da1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:10 +0000
Subject: [PATCH 61/81] fix: push_back counted every item of a circular buffer
 twice

---
 GcodeProcessorLib/circular_buffer.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/GcodeProcessorLib/circular_buffer.h b/GcodeProcessorLib/circular_buffer.h
index 6f3cf68..901a18e 100644
--- a/GcodeProcessorLib/circular_buffer.h
+++ b/GcodeProcessorLib/circular_buffer.h
@@ -118,11 +118,15 @@ public:
 	{
 		int pos = get_index_position(count_);
 		items_[pos] = object;
-		count_++;
 		if (count_ != max_size_)
 		{
 			count_++;
 		}
+		else
+		{
+			// The buffer is full, the item at the front was replaced
+			front_index_ = get_index_position(1);
+		}
 	}
 
 	T& pop_front()
-- 
2.43.0


From aecb0156becec359fd0485834bc2f926b444cfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:46 +0000
Subject: [PATCH 62/81] fix: an @OCTOLAPSE command without a parameter must not
 lose its comment

---
 GcodeProcessorLib/gcode_parser.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/GcodeProcessorLib/gcode_parser.cpp b/GcodeProcessorLib/gcode_parser.cpp
index 0e00348..7507549 100644
--- a/GcodeProcessorLib/gcode_parser.cpp
+++ b/GcodeProcessorLib/gcode_parser.cpp
@@ -192,11 +192,10 @@ bool gcode_parser::try_parse_gcode(const char * gcode, parsed_command & command,
 			
 			parsed_command_parameter octolapse_parameter;
 
-			if (!try_extract_octolapse_parameter(&p, &octolapse_parameter))
+			if (try_extract_octolapse_parameter(&p, &octolapse_parameter))
 			{
-				return true;
+				command.parameters.push_back(octolapse_parameter);
 			}
-			command.parameters.push_back(octolapse_parameter);
 			// Extract any additional parameters the old way
 			while (true)
 			{
-- 
2.43.0


From 11bbd3434da8f279cb888fdf9bbe1104066c5049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:46 +0000
Subject: [PATCH 63/81] fix: recognize T?, Tc and Tx in files with CRLF line
 ends

---
 GcodeProcessorLib/gcode_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GcodeProcessorLib/gcode_parser.cpp b/GcodeProcessorLib/gcode_parser.cpp
index 7507549..2ccc201 100644
--- a/GcodeProcessorLib/gcode_parser.cpp
+++ b/GcodeProcessorLib/gcode_parser.cpp
@@ -375,7 +375,7 @@ bool gcode_parser::try_extract_gcode_command(char ** p_p_gcode, std::string * p_
 				{
 					p_t++;
 				}
-				if (*p_t == ';' || *p_t == '\0')
+				if (*p_t == ';' || *p_t == '\0' || *p_t == '\r')
 					found_command = true;
 			}
 			else if (t_param >= '0' && t_param <= '9')
-- 
2.43.0


From 49820190935272687d1205b1e866e0e34eb25e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:16 +0000
Subject: [PATCH 64/81] fix: selecting another tool with a shared E axis is not
 an extrusion

---
 GcodeProcessorLib/gcode_position.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/GcodeProcessorLib/gcode_position.cpp b/GcodeProcessorLib/gcode_position.cpp
index da30664..f44cf4d 100644
--- a/GcodeProcessorLib/gcode_position.cpp
+++ b/GcodeProcessorLib/gcode_position.cpp
@@ -493,7 +493,10 @@ void gcode_position::update(parsed_command& command, const long file_line_number
 		const pos_function_type func = gcode_functions_iterator_->second;
 		(this->*func)(p_current_pos, command);
 		// calculate z and e relative distances
-		p_current_pos->get_current_extruder().e_relative = (p_current_pos->get_current_extruder().e - p_previous_pos->get_extruder(p_current_pos->current_tool).e);
+		// (if there is only one E axis it was where the previous tool left it)
+		p_current_pos->get_current_extruder().e_relative = (
+			p_current_pos->get_current_extruder().e - p_previous_pos->get_extruder(shared_extruder_ ? p_previous_pos->current_tool : p_current_pos->current_tool).e
+			);
 		if (utilities::is_zero(p_current_pos->get_current_extruder().e_relative, 1e-9))
 		{
 			// This is a rounding error (relative moves are summed), not an extrusion or a retraction.
-- 
2.43.0


From 7bf145a0067ab98d29720aa44ce55f35e23d4470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:53 +0000
Subject: [PATCH 65/81] fix: the carriage return of a CRLF line end is not part
 of the name of an @ command

---
 GcodeProcessorLib/gcode_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GcodeProcessorLib/gcode_parser.cpp b/GcodeProcessorLib/gcode_parser.cpp
index 2ccc201..05b76f5 100644
--- a/GcodeProcessorLib/gcode_parser.cpp
+++ b/GcodeProcessorLib/gcode_parser.cpp
@@ -392,7 +392,7 @@ bool gcode_parser::try_extract_at_command(char ** p_p_gcode, std::string * p_com
 {
 	char *p = *p_p_gcode;
 	bool found_command = false;
-	while (*p != '\0' && *p != ';' && !is_white_space(*p))
+	while (*p != '\0' && *p != ';' && *p != '\r' && !is_white_space(*p))
 	{
 		if (!found_command)
 		{
-- 
2.43.0


From b443b4ad90b5382ad0e3144be3bee47e45d21648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:01 +0000
Subject: [PATCH 66/81] fix: REPETIER 1.0.5 arcs are measured with the fraction
 of their angle

---
 ArcWelderInverseProcessor/repetier.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ArcWelderInverseProcessor/repetier.cpp b/ArcWelderInverseProcessor/repetier.cpp
index 8ba61ee..78dea06 100644
--- a/ArcWelderInverseProcessor/repetier.cpp
+++ b/ArcWelderInverseProcessor/repetier.cpp
@@ -192,7 +192,7 @@ void repetier::arc_1_0_5(float* position, float* target, float* offset, float ra
   }
 
   // Determine the number of mm of total travel
-  float millimeters_of_travel = abs(angular_travel) * radius;
+  float millimeters_of_travel = utilities::absf(angular_travel) * radius;
   if (linear_travel)
   {
     // If we have any Z motion, add this to the total mm of travel.
-- 
2.43.0


From b4eea29e1da586e2985eb6cf182f420ba2c37a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 67/81] fix: the progress of an empty file and the time
 remaining at the start are numbers

---
 ArcWelder/arc_welder.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index ca26240..3ac8878 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -433,10 +433,10 @@ arc_welder_progress arc_welder::get_progress_(long source_file_position, double
   progress.target_file_size = static_cast<long>(output_file_.tellp());
   progress.source_file_size = file_size_;
   long bytesRemaining = file_size_ - static_cast<long>(source_file_position);
-  progress.percent_complete = static_cast<double>(source_file_position) / static_cast<double>(file_size_) * 100.0;
+  // There is nothing to do for an empty file, and nothing can be estimated before something was read.
+  progress.percent_complete = file_size_ > 0 ? static_cast<double>(source_file_position) / static_cast<double>(file_size_) * 100.0 : 100.0;
   progress.seconds_elapsed = get_time_elapsed(start_clock, clock());
-  double bytesPerSecond = static_cast<double>(source_file_position) / progress.seconds_elapsed;
-  progress.seconds_remaining = bytesRemaining / bytesPerSecond;
+  progress.seconds_remaining = source_file_position > 0 ? bytesRemaining * progress.seconds_elapsed / static_cast<double>(source_file_position) : 0;
   
   if (source_file_position > 0) {
     progress.compression_ratio = (static_cast<float>(source_file_position) / static_cast<float>(progress.target_file_size));
-- 
2.43.0


From 2be108d1b3a12c2caddca5ea2b119ef0dbb9f5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:04 +0000
Subject: [PATCH 68/81] fix: a 3D arc is only made from moves whose Z follows
 the distance travelled

The step was divided by the radius instead of the length of the move and the
last move was never looked at, so a flat curve whose last move rises became a
helix over the whole curve.
---
 ArcWelder/segmented_shape.cpp | 65 ++++++++++++++++++-----------------
 1 file changed, 33 insertions(+), 32 deletions(-)

diff --git a/ArcWelder/segmented_shape.cpp b/ArcWelder/segmented_shape.cpp
index e9f99b4..03f2d61 100644
--- a/ArcWelder/segmented_shape.cpp
+++ b/ArcWelder/segmented_shape.cpp
@@ -261,10 +261,36 @@ double circle::get_polar_radians(const point& p1) const
   return polar_radians;
 }
 
+// The z axis moves evenly along an arc, so z must change in proportion to the distance travelled
+static bool is_z_step_even(const array_list<printer_point>& points, const double resolution_mm, const double xyz_tolerance)
+{
+  const int last_index = points.count() - 1;
+  double total_distance = 0;
+  for (int index = 1; index <= last_index; index++)
+  {
+    total_distance += points[index].distance;
+  }
+  const double z_step_per_distance = total_distance > 0 ? (points[last_index].z - points[0].z) / total_distance : 0;
+  const double max_difference = resolution_mm > xyz_tolerance ? resolution_mm : xyz_tolerance;
+  double distance = 0;
+  for (int index = 1; index < last_index; index++)
+  {
+    distance += points[index].distance;
+    if (utilities::abs(points[0].z + z_step_per_distance * distance - points[index].z) > max_difference)
+    {
+      return false;
+    }
+  }
+  return true;
+}
+
 bool circle::get_deviation_sum_squared(const array_list<printer_point>& points, const double resolution_mm, const double xyz_tolerance, const bool allow_3d_arcs, double &total_deviation)
 {
-  // We need to ensure that the Z steps are constand per linear travel unit
-  double z_step_per_distance = 0;
+  if (allow_3d_arcs && !is_z_step_even(points, resolution_mm, xyz_tolerance))
+  {
+    // The z step is uneven, can't create arc
+    return false;
+  }
   total_deviation = 0;
   // Skip the first and last points since they will fit perfectly.
   for (int index = 1; index < points.count() - 1; index++)
@@ -272,20 +298,6 @@ bool circle::get_deviation_sum_squared(const array_list<printer_point>& points,
     // Make sure the length from the center of our circle to the test point is 
     // at or below our max distance.
     double distance_from_center = utilities::get_cartesian_distance(points[index].x, points[index].y, center.x, center.y);
-    if (allow_3d_arcs) {
-      double z1 = points[index - 1].z;
-      double z2 = points[index].z;
-
-      double current_z_stepper_distance = (z2 - z1) / distance_from_center;
-      if (index == 1) {
-        z_step_per_distance = current_z_stepper_distance;
-      }
-      else if (!utilities::is_equal(z_step_per_distance, current_z_stepper_distance, xyz_tolerance))
-      {
-        // The z step is uneven, can't create arc				
-        return false;
-      }
-    }
     double deviation = utilities::abs(distance_from_center - radius);
     total_deviation += deviation * deviation;
     if (deviation > resolution_mm)
@@ -314,8 +326,11 @@ bool circle::get_deviation_sum_squared(const array_list<printer_point>& points,
 
 bool circle::is_over_deviation(const array_list<printer_point>& points, const double resolution_mm, const double xyz_tolerance, const bool allow_3d_arcs)
 {
-  // We need to ensure that the Z steps are constand per linear travel unit
-  double z_step_per_distance = 0;
+  if (allow_3d_arcs && !is_z_step_even(points, resolution_mm, xyz_tolerance))
+  {
+    // The z step is uneven, can't create arc
+    return true;
+  }
   // shared point to test
   point point_to_test;
   int max_index = points.count() - 1;
@@ -328,20 +343,6 @@ bool circle::is_over_deviation(const array_list<printer_point>& points, const do
       // Make sure the length from the center of our circle to the test point is 
       // at or below our max distance.
       double distance_from_center = utilities::get_cartesian_distance(current_point.x, current_point.y, center.x, center.y);
-      if (allow_3d_arcs) {
-        double z1 = points[index - 1].z;
-        double z2 = current_point.z;
-
-        double current_z_stepper_distance = (z2 - z1) / distance_from_center;
-        if (index == 1) {
-          z_step_per_distance = current_z_stepper_distance;
-        }
-        else if (!utilities::is_equal(z_step_per_distance, current_z_stepper_distance, xyz_tolerance))
-        {
-          // The z step is uneven, can't create arc				
-          return true;
-        }
-      }
       if (utilities::abs(distance_from_center - radius) > resolution_mm)
       {
         return true;
-- 
2.43.0


From df85f86b3cfa3bba8188bcdf894074cae6f29d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:05 +0000
Subject: [PATCH 69/81] fix: an arc that rises by less than the printed
 precision keeps its Z

Leaving it out added up over successive arcs until the height was off by more
than the precision.
---
 ArcWelder/segmented_arc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ArcWelder/segmented_arc.cpp b/ArcWelder/segmented_arc.cpp
index 3dc6e1c..d83df96 100644
--- a/ArcWelder/segmented_arc.cpp
+++ b/ArcWelder/segmented_arc.cpp
@@ -318,7 +318,7 @@ std::string segmented_arc::get_shape_gcode() const
   bool has_e = e_relative_ != 0;
   bool has_f = utilities::greater_than_or_equal(f, 1);
   bool has_z = allow_3d_arcs_ && !utilities::is_equal(
-    current_arc_.start_point.z, current_arc_.end_point.z, get_xyz_tolerance()
+    current_arc_.start_point.z, current_arc_.end_point.z
   );
   gcode.reserve(96);
 
@@ -383,7 +383,7 @@ int segmented_arc::get_shape_gcode_length()
   bool has_e = e_relative_ != 0;
   bool has_f = utilities::greater_than_or_equal(f, 1);
   bool has_z = allow_3d_arcs_ && !utilities::is_equal(
-    current_arc_.start_point.z, current_arc_.end_point.z, get_xyz_tolerance()
+    current_arc_.start_point.z, current_arc_.end_point.z
   );
   
   int xyz_precision = get_xyz_precision();
-- 
2.43.0


From c5bf9e6bf37f64dc3307c87e9e27f670cb2a9bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:45 +0000
Subject: [PATCH 70/81] fix: MARLIN_2 segments per second are counted with the
 feedrate in mm/s

The feedrate is in mm/min here, so segments were 60 times too long (that is, as
long as the other settings allow).
---
 ArcWelderInverseProcessor/marlin_2.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ArcWelderInverseProcessor/marlin_2.cpp b/ArcWelderInverseProcessor/marlin_2.cpp
index 7e8a129..e04ac42 100644
--- a/ArcWelderInverseProcessor/marlin_2.cpp
+++ b/ArcWelderInverseProcessor/marlin_2.cpp
@@ -225,7 +225,8 @@ void marlin_2::plan_arc_2_0_9_1(
   }
   else if (args_.arc_segments_per_sec > 0)
   {
-    seg_length = utilities::maxf(scaled_fr_mm_s * utilities::reciprocalf((float)args_.arc_segments_per_sec), (float)args_.mm_per_arc_segment);
+    // The feedrate is not in mm/s, but in mm/min here
+    seg_length = utilities::maxf(scaled_fr_mm_s / 60.0f * utilities::reciprocalf((float)args_.arc_segments_per_sec), (float)args_.mm_per_arc_segment);
   }
 
   // Divide total travel by nominal segment length
@@ -429,7 +430,8 @@ void marlin_2::plan_arc_2_0_9_2(
   // Get the nominal segment length based on settings
   float nominal_segment_mm;
   if (args_.arc_segments_per_sec > 0) {
-    nominal_segment_mm = utilities::constrainf(scaled_fr_mm_s * utilities::reciprocalf((float)args_.arc_segments_per_sec), (float)args_.min_arc_segment_mm, (float)args_.max_arc_segment_mm);
+    // The feedrate is not in mm/s, but in mm/min here
+    nominal_segment_mm = utilities::constrainf(scaled_fr_mm_s / 60.0f * utilities::reciprocalf((float)args_.arc_segments_per_sec), (float)args_.min_arc_segment_mm, (float)args_.max_arc_segment_mm);
   }
   else {
     nominal_segment_mm = (float)args_.max_arc_segment_mm;
-- 
2.43.0


From 8028f071225da18512650ff3a255fe46e4764d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:45 +0000
Subject: [PATCH 71/81] fix: a change of Z is never too small to count

Moves rising by less than 0.000005 mm each were merged as if they were flat, so
a slow spiral lost its height over time.
---
 ArcWelder/arc_welder.cpp    |  2 +-
 ArcWelder/segmented_arc.cpp | 10 +++-------
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 3ac8878..a40c3fe 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -596,7 +596,7 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
   }
 
   bool z_axis_ok = allow_3d_arcs_ ||
-    utilities::is_equal(p_cur_pos->z, p_pre_pos->z);
+    p_cur_pos->z == p_pre_pos->z;
   
   if (
     !is_end && cmd.is_known_command && !cmd.is_empty && (
diff --git a/ArcWelder/segmented_arc.cpp b/ArcWelder/segmented_arc.cpp
index d83df96..136e1fa 100644
--- a/ArcWelder/segmented_arc.cpp
+++ b/ArcWelder/segmented_arc.cpp
@@ -149,7 +149,7 @@ bool segmented_arc::try_add_point(printer_point p)
   if (points_.count() > 0)
   {
     printer_point p1 = points_[points_.count() - 1];
-    if (!allow_3d_arcs_ && !utilities::is_equal(p1.z, p.z))
+    if (!allow_3d_arcs_ && p1.z != p.z)
     {
       // Z axis changes aren't allowed
       return false;
@@ -317,9 +317,7 @@ std::string segmented_arc::get_shape_gcode() const
   double f = current_arc_.start_point.f == current_arc_.end_point.f ? 0 : current_arc_.end_point.f;
   bool has_e = e_relative_ != 0;
   bool has_f = utilities::greater_than_or_equal(f, 1);
-  bool has_z = allow_3d_arcs_ && !utilities::is_equal(
-    current_arc_.start_point.z, current_arc_.end_point.z
-  );
+  bool has_z = allow_3d_arcs_ && current_arc_.start_point.z != current_arc_.end_point.z;
   gcode.reserve(96);
 
   if (current_arc_.angle_radians < 0)
@@ -382,9 +380,7 @@ int segmented_arc::get_shape_gcode_length()
   double f = current_arc_.start_point.f == current_arc_.end_point.f ? 0 : current_arc_.end_point.f;
   bool has_e = e_relative_ != 0;
   bool has_f = utilities::greater_than_or_equal(f, 1);
-  bool has_z = allow_3d_arcs_ && !utilities::is_equal(
-    current_arc_.start_point.z, current_arc_.end_point.z
-  );
+  bool has_z = allow_3d_arcs_ && current_arc_.start_point.z != current_arc_.end_point.z;
   
   int xyz_precision = get_xyz_precision();
   int e_precision = get_e_precision();
-- 
2.43.0


From b15d786801a9a3d17d69236061ce402b5bcb0709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:27 +0000
Subject: [PATCH 72/81] fix: the nozzle is not lifted any more once it is back
 at the last extrusion height

is_zhop was only updated above the last extrusion height, so it stayed set after the nozzle came down again.
---
 GcodeProcessorLib/gcode_position.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/GcodeProcessorLib/gcode_position.cpp b/GcodeProcessorLib/gcode_position.cpp
index f44cf4d..c9ed0e1 100644
--- a/GcodeProcessorLib/gcode_position.cpp
+++ b/GcodeProcessorLib/gcode_position.cpp
@@ -683,17 +683,16 @@ void gcode_position::update(parsed_command& command, const long file_line_number
 						}
 					}
 				}
-
-				// calculate is_zhop
-				if (p_current_pos->get_current_extruder().is_extruding || p_current_pos->z_null || p_current_pos->last_extrusion_height_null)
-					p_current_pos->is_zhop = false;
-				else
-					p_current_pos->is_zhop = utilities::greater_than_or_equal(p_current_pos->z - p_current_pos->last_extrusion_height, z_lift_heights_[p_current_pos->current_tool]);
 			}
 
 		}
 
-		
+		// calculate is_zhop
+		if (p_current_pos->get_current_extruder().is_extruding || p_current_pos->z_null || p_current_pos->last_extrusion_height_null)
+			p_current_pos->is_zhop = false;
+		else
+			p_current_pos->is_zhop = utilities::greater_than(p_current_pos->z, p_current_pos->last_extrusion_height) &&
+				utilities::greater_than_or_equal(p_current_pos->z - p_current_pos->last_extrusion_height, z_lift_heights_[p_current_pos->current_tool]);
 
 	}
 }
-- 
2.43.0


From df57d4295273edafad2af590976f65861d2cf4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:27 +0000
Subject: [PATCH 73/81] fix: retractions and deretractions start and last as
 long as the filament moves

A travel move while retracted was reported as the start of a retraction, and the second of two equal steps giving filament back was not reported as a deretraction.
---
 GcodeProcessorLib/gcode_position.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/GcodeProcessorLib/gcode_position.cpp b/GcodeProcessorLib/gcode_position.cpp
index c9ed0e1..906693a 100644
--- a/GcodeProcessorLib/gcode_position.cpp
+++ b/GcodeProcessorLib/gcode_position.cpp
@@ -581,10 +581,10 @@ void gcode_position::update(parsed_command& command, const long file_line_number
 				// Note that it's ok to use the previous pos current extruder since we've  made sure the current tool is identical
 				p_current_pos->get_current_extruder().is_extruding_start = utilities::greater_than(p_current_pos->get_current_extruder().extrusion_length, 0) && !p_previous_pos->get_current_extruder().is_extruding;
 				p_current_pos->get_current_extruder().is_extruding = utilities::greater_than(p_current_pos->get_current_extruder().extrusion_length, 0);
-				p_current_pos->get_current_extruder().is_retracting_start = !p_previous_pos->get_current_extruder().is_retracting && utilities::greater_than(p_current_pos->get_current_extruder().retraction_length, 0);
 				p_current_pos->get_current_extruder().is_retracting = utilities::greater_than(p_current_pos->get_current_extruder().retraction_length, p_previous_pos->get_current_extruder().retraction_length);
-				p_current_pos->get_current_extruder().is_deretracting = utilities::greater_than(p_current_pos->get_current_extruder().deretraction_length, p_previous_pos->get_current_extruder().deretraction_length);
-				p_current_pos->get_current_extruder().is_deretracting_start = utilities::greater_than(p_current_pos->get_current_extruder().deretraction_length, 0) && !p_previous_pos->get_current_extruder().is_deretracting;
+				p_current_pos->get_current_extruder().is_retracting_start = p_current_pos->get_current_extruder().is_retracting && !p_previous_pos->get_current_extruder().is_retracting;
+				p_current_pos->get_current_extruder().is_deretracting = utilities::greater_than(p_current_pos->get_current_extruder().deretraction_length, 0);
+				p_current_pos->get_current_extruder().is_deretracting_start = p_current_pos->get_current_extruder().is_deretracting && !p_previous_pos->get_current_extruder().is_deretracting;
 			}
 			else
 			{
-- 
2.43.0


From cc5de55c6779de9bc00684de6971c8d3f559c811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 74/81] fix: the messages of a conversion reach the Python
 logger

---
 PyArcWelder/py_logger.cpp      | 31 +++++++++++++++----------------
 PyArcWelder/py_logger.h        |  4 ++--
 PyArcWelder/python_helpers.cpp |  2 +-
 3 files changed, 18 insertions(+), 19 deletions(-)

diff --git a/PyArcWelder/py_logger.cpp b/PyArcWelder/py_logger.cpp
index da7b935..bb00d55 100644
--- a/PyArcWelder/py_logger.cpp
+++ b/PyArcWelder/py_logger.cpp
@@ -122,12 +122,12 @@ void py_logger::log_exception(const int logger_type, const std::string& message)
 	log(logger_type, log_levels::ERROR, message, true);
 }
 
-void py_logger::log(const int logger_type, const int log_level, const std::string& message)
+void py_logger::log(const int logger_type, log_levels log_level, const std::string& message)
 {
 	log(logger_type, log_level, message, false);
 }
 
-void py_logger::log(const int logger_type, const int log_level, const std::string& message, bool is_exception)
+void py_logger::log(const int logger_type, log_levels log_level, const std::string& message, bool is_exception)
 {
 	if (!loggers_created_)
 		return;
@@ -167,12 +167,6 @@ void py_logger::log(const int logger_type, const int log_level, const std::strin
 	{
 		// if an error has occurred, use the exception function to log the entire error
 		pyFunctionName = py_error_function_name;
-		if (PyErr_Occurred())
-		{
-			error_occurred = true;
-			PyErr_Fetch(&error_type, &error_value, &error_traceback);
-			PyErr_NormalizeException(&error_type, &error_value, &error_traceback);
-		}
 	}
 	else
 	{
@@ -214,6 +208,13 @@ void py_logger::log(const int logger_type, const int log_level, const std::strin
 		return;
 	}
 	PyGILState_STATE state = PyGILState_Ensure();
+	// Python must not be called while an exception is set
+	if (PyErr_Occurred())
+	{
+		error_occurred = true;
+		PyErr_Fetch(&error_type, &error_value, &error_traceback);
+		PyErr_NormalizeException(&error_type, &error_value, &error_traceback);
+	}
 	PyObject* ret_val = PyObject_CallMethodObjArgs(py_logger, pyFunctionName, pyMessage, NULL);
 	// We need to decref our message so that the GC can remove it.  Maybe?
 	Py_DECREF(pyMessage);
@@ -237,16 +238,14 @@ void py_logger::log(const int logger_type, const int log_level, const std::strin
 			PyErr_Clear();
 		}
 	}
-	else
+	else if (is_exception && !error_occurred)
 	{
 		// Set the exception if we are doing exception logging.
-		if (is_exception)
-		{
-			if (error_occurred)
-				PyErr_Restore(error_type, error_value, error_traceback);
-			else
-				PyErr_SetString(PyExc_Exception, message.c_str());
-		}
+		PyErr_SetString(PyExc_Exception, message.c_str());
+	}
+	if (error_occurred)
+	{
+		PyErr_Restore(error_type, error_value, error_traceback);
 	}
 	Py_XDECREF(ret_val);
 }
diff --git a/PyArcWelder/py_logger.h b/PyArcWelder/py_logger.h
index cf74e7b..6168b37 100644
--- a/PyArcWelder/py_logger.h
+++ b/PyArcWelder/py_logger.h
@@ -45,8 +45,8 @@ public:
 	}
 	void initialize_loggers();
 	void set_internal_log_levels(bool check_real_time);
-	virtual void log(const int logger_type, const int log_level, const std::string& message);
-	virtual void log(const int logger_type, const int log_level, const std::string& message, bool is_exception);
+	virtual void log(const int logger_type, log_levels log_level, const std::string& message);
+	virtual void log(const int logger_type, log_levels log_level, const std::string& message, bool is_exception);
 	virtual void log_exception(const int logger_type, const std::string& message);
 private:
 	bool check_log_levels_real_time;
diff --git a/PyArcWelder/python_helpers.cpp b/PyArcWelder/python_helpers.cpp
index a77ff31..149a978 100644
--- a/PyArcWelder/python_helpers.cpp
+++ b/PyArcWelder/python_helpers.cpp
@@ -53,7 +53,7 @@ namespace gcode_arc_converter {
 	PyObject* PyUnicode_SafeFromString(std::string str)
 	{
 #if PY_MAJOR_VERSION >= 3
-		return PyUnicode_FromString(str.c_str());
+		return PyUnicode_DecodeUTF8(str.c_str(), str.length(), "replace");
 #else
 		// TODO:  try PyUnicode_DecodeUnicodeEscape maybe?
 		//return PyUnicode_DecodeUTF8(str.c_str(), NULL, "replace");
-- 
2.43.0


From c4d94526e27ebf278563d195394f66e056571c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:21 +0000
Subject: [PATCH 75/81] fix: say that progress updates are hidden when they are

---
 ArcWelder/arc_welder.h                | 5 ++++-
 ArcWelderConsole/ArcWelderConsole.cpp | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/ArcWelder/arc_welder.h b/ArcWelder/arc_welder.h
index 7535bf0..1b092c9 100644
--- a/ArcWelder/arc_welder.h
+++ b/ArcWelder/arc_welder.h
@@ -604,6 +604,8 @@ struct arc_welder_args
 		utilities::box_drawing::BoxEncodingEnum box_encoding;
 		
 		progress_callback callback;
+		// The callback doesn't show the progress
+		bool hide_progress;
 
 		std::string str() const {
 			std::string log_level_name = "NO_LOGGING";
@@ -659,7 +661,7 @@ struct arc_welder_args
 				stream << "\tMax Gcode Length             : " << std::setprecision(0) << max_gcode_length << " characters\n";
 			}
 			stream << "\tLog Level                    : " << log_level_name << "\n";
-			stream << "\tHide Progress Updates        : " << (callback == NULL ? "True" : "False") << "\n";
+			stream << "\tHide Progress Updates        : " << (hide_progress ? "True" : "False") << "\n";
 			stream << "\tProgress Notification Period : " << std::setprecision(2) << notification_period_seconds << " seconds";
 			return stream.str();
 		};
@@ -685,6 +687,7 @@ private:
 			max_gcode_length = DEFAULT_MAX_GCODE_LENGTH,
 			buffer_size = DEFAULT_GCODE_BUFFER_SIZE,
 			notification_period_seconds = DEFAULT_NOTIFICATION_PERIOD_SECONDS,
+			hide_progress = false,
 			callback = NULL;
 			box_encoding = utilities::box_drawing::BoxEncodingEnum::ASCII;
 	}
diff --git a/ArcWelderConsole/ArcWelderConsole.cpp b/ArcWelderConsole/ArcWelderConsole.cpp
index 38618f8..7517428 100644
--- a/ArcWelderConsole/ArcWelderConsole.cpp
+++ b/ArcWelderConsole/ArcWelderConsole.cpp
@@ -366,6 +366,7 @@ int main(int argc, char* argv[])
   {
     p_logger->log(0, log_levels::INFO, "Suppressing progress messages.");
     args.callback = on_progress_suppress;
+    args.hide_progress = true;
   }
   else if (progress_type == PROGRESS_TYPE_FULL)
   {
-- 
2.43.0


From 36696383b8413989415502c6861e221b16c4791a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:51 +0000
Subject: [PATCH 76/81] fix: report file positions and sizes above 2 GiB to
 Python

---
 PyArcWelder/py_arc_welder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyArcWelder/py_arc_welder.cpp b/PyArcWelder/py_arc_welder.cpp
index ca1e76d..9b36a6f 100644
--- a/PyArcWelder/py_arc_welder.cpp
+++ b/PyArcWelder/py_arc_welder.cpp
@@ -48,7 +48,7 @@ PyObject* py_arc_welder::build_py_progress(const arc_welder_progress& progress,
   if (pyTravelMessage == NULL)
     return NULL;
   double total_travel_count_reduction_percent = progress.travel_statistics.get_total_count_reduction_percent();
-  PyObject* py_progress = Py_BuildValue("{s:d,s:d,s:d,s:i,s:i,s:i,s:i,s:i,s:i,s:i,s:i,s:i,s:i,s:f,s:f,s:f,s:f,s:i,s:i,s:f,s:f,s:f,s:i,s:i,s:f}",
+  PyObject* py_progress = Py_BuildValue("{s:d,s:d,s:d,s:i,s:i,s:i,s:i,s:i,s:i,s:i,s:l,s:l,s:l,s:f,s:f,s:f,s:f,s:i,s:i,s:f,s:f,s:f,s:i,s:i,s:f}",
     "percent_complete",
     progress.percent_complete,												//1
     "seconds_elapsed",
-- 
2.43.0


From 1225530ebd209a7566860d0401dd5c99b8afb472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:55 +0000
Subject: [PATCH 77/81] fix: G92 sets the position of an axis that isn't homed
 also with a tool offset

The stored position has the tool offset subtracted, but G92 stored the
coordinate as it is.  Arcs were then drawn from a start point that is off
by the tool offset.
---
 GcodeProcessorLib/gcode_position.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/GcodeProcessorLib/gcode_position.cpp b/GcodeProcessorLib/gcode_position.cpp
index 906693a..3e354cb 100644
--- a/GcodeProcessorLib/gcode_position.cpp
+++ b/GcodeProcessorLib/gcode_position.cpp
@@ -1270,7 +1270,7 @@ void gcode_position::process_g92(position* pos, parsed_command& cmd)
 				pos->x_offset = pos->x - x + pos->x_firmware_offset;
 			else
 			{
-				pos->x = x;
+				pos->x = x - pos->x_firmware_offset;
 				pos->x_offset = 0;
 				pos->x_null = false;
 			}
@@ -1281,7 +1281,7 @@ void gcode_position::process_g92(position* pos, parsed_command& cmd)
 				pos->y_offset = pos->y - y + pos->y_firmware_offset;
 			else
 			{
-				pos->y = y;
+				pos->y = y - pos->y_firmware_offset;
 				pos->y_offset = 0;
 				pos->y_null = false;
 			}
@@ -1292,7 +1292,7 @@ void gcode_position::process_g92(position* pos, parsed_command& cmd)
 				pos->z_offset = pos->z - z + pos->z_firmware_offset;
 			else
 			{
-				pos->z = z;
+				pos->z = z - pos->z_firmware_offset;
 				pos->z_offset = 0;
 				pos->z_null = false;
 			}
-- 
2.43.0


From 7b0c4914627a2eed805e3ce4fbc5aacf3b7ad4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:55 +0000
Subject: [PATCH 78/81] fix: limit the number of segments of an arc to what its
 counter holds

---
 ArcWelderInverseProcessor/firmware.h       | 18 ++++++++++++++++++
 ArcWelderInverseProcessor/marlin_1.cpp     |  2 +-
 ArcWelderInverseProcessor/marlin_2.cpp     | 16 ++++++++--------
 ArcWelderInverseProcessor/prusa.cpp        |  4 ++--
 ArcWelderInverseProcessor/repetier.cpp     |  4 ++--
 ArcWelderInverseProcessor/smoothieware.cpp |  2 +-
 6 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/ArcWelderInverseProcessor/firmware.h b/ArcWelderInverseProcessor/firmware.h
index 87ad7d6..f58e790 100644
--- a/ArcWelderInverseProcessor/firmware.h
+++ b/ArcWelderInverseProcessor/firmware.h
@@ -37,6 +37,7 @@
 #include <sstream>
 #include <iomanip>
 #include <algorithm>
+#include <cstdint>
 #include <utilities.h>
 #include "version.h"
 
@@ -531,6 +532,23 @@ protected:
   firmware_position position_;
   firmware_state state_;
   firmware_arguments args_;
+
+  /// <summary>
+  /// The largest number of segments the 16 bit counters of the firmware can hold.
+  /// </summary>
+  static const uint16_t MAX_SEGMENT_COUNT = 65535;
+
+  /// <summary>
+  /// Converts a calculated number of segments without exceeding MAX_SEGMENT_COUNT.
+  /// </summary>
+  static uint16_t to_segment_count(double segments)
+  {
+    if (!(segments > 0))
+    {
+      return 0;
+    }
+    return segments < MAX_SEGMENT_COUNT ? (uint16_t)segments : (uint16_t)MAX_SEGMENT_COUNT;
+  }
   std::vector<std::string> version_names_;
   int version_index_;
   int num_arc_segments_generated_;
diff --git a/ArcWelderInverseProcessor/marlin_1.cpp b/ArcWelderInverseProcessor/marlin_1.cpp
index a295f73..e9f21fb 100644
--- a/ArcWelderInverseProcessor/marlin_1.cpp
+++ b/ArcWelderInverseProcessor/marlin_1.cpp
@@ -177,7 +177,7 @@ void marlin_1::plan_arc_1_1_9_1(const float(&cart)[MARLIN_XYZE], // Destination
 		mm_of_travel = linear_travel ? utilities::hypotf(flat_mm, linear_travel) : utilities::absf(flat_mm);
 	if (mm_of_travel < 0.001f) return;
 
-	uint16_t segments = (uint16_t)utilities::floorf(mm_of_travel / (float)(args_.mm_per_arc_segment));
+	uint16_t segments = to_segment_count(utilities::floorf(mm_of_travel / (float)(args_.mm_per_arc_segment)));
 	NOLESS(segments, 1);
 
 	/**
diff --git a/ArcWelderInverseProcessor/marlin_2.cpp b/ArcWelderInverseProcessor/marlin_2.cpp
index e04ac42..27d70c7 100644
--- a/ArcWelderInverseProcessor/marlin_2.cpp
+++ b/ArcWelderInverseProcessor/marlin_2.cpp
@@ -177,7 +177,7 @@ void marlin_2::plan_arc_2_0_9_1(
     rt_Y = cart[q_axis] - center_Q,
     start_L = current_position[l_axis];
 
-  uint16_t min_segments = args_.min_arc_segments > 0 ? args_.min_arc_segments : 1;
+  uint16_t min_segments = args_.min_arc_segments > 0 ? to_segment_count(args_.min_arc_segments) : 1;
 
   // Angle of rotation between position and target from the circle center.
   float angular_travel;
@@ -202,7 +202,7 @@ void marlin_2::plan_arc_2_0_9_1(
 
     if (args_.min_arc_segments > 1)
     {
-      min_segments = (uint16_t)utilities::ceilf(min_segments * utilities::absf(angular_travel) / utilities::radiansf(360.0f));
+      min_segments = to_segment_count(utilities::ceilf(min_segments * utilities::absf(angular_travel) / utilities::radiansf(360.0f)));
       NOLESS(min_segments, 1U);
     }
   }
@@ -230,7 +230,7 @@ void marlin_2::plan_arc_2_0_9_1(
   }
 
   // Divide total travel by nominal segment length
-  uint16_t segments = (uint16_t)utilities::floorf(mm_of_travel / seg_length);
+  uint16_t segments = to_segment_count(utilities::floorf(mm_of_travel / seg_length));
   //uint16_t segments = utilities::floorf(mm_of_travel / seg_length);
   NOLESS(segments, min_segments);         // At least some segments
   seg_length = mm_of_travel / segments;
@@ -383,7 +383,7 @@ void marlin_2::plan_arc_2_0_9_2(
     rt_Y = cart[q_axis] - center_Q,
     start_L = current_position[l_axis];
 
-  uint16_t min_segments = args_.min_arc_segments > 0 ? args_.min_arc_segments : 1;
+  uint16_t min_segments = args_.min_arc_segments > 0 ? to_segment_count(args_.min_arc_segments) : 1;
 
   // Angle of rotation between position and target from the circle center.
   float angular_travel, abs_angular_travel;
@@ -393,7 +393,7 @@ void marlin_2::plan_arc_2_0_9_2(
     // Preserve direction for circles
     angular_travel = clockwise ? -utilities::radiansf(360.0f) : utilities::radiansf(360.0f);
     abs_angular_travel = utilities::radiansf(360.0f);
-    min_segments = min_circle_segments;
+    min_segments = to_segment_count(min_circle_segments);
   }
   else {
     // Calculate the angle
@@ -412,7 +412,7 @@ void marlin_2::plan_arc_2_0_9_2(
 
     // Apply minimum segments to the arc
     const float portion_of_circle = abs_angular_travel / utilities::radiansf(360.0f);  // Portion of a complete circle (0 < N < 1)
-    min_segments = (uint16_t)utilities::ceilf((min_circle_segments)*portion_of_circle);     // Minimum segments for the arc
+    min_segments = to_segment_count(utilities::ceilf((min_circle_segments)*portion_of_circle));     // Minimum segments for the arc
   }
 
   float travel_L = cart[Z_AXIS] - start_L;
@@ -443,11 +443,11 @@ void marlin_2::plan_arc_2_0_9_2(
   const float segment_mm = utilities::constrainf(flat_mm / nominal_segments, (float)args_.min_arc_segment_mm, (float)args_.max_arc_segment_mm);
 
   // The number of whole segments in the arc, ignoring the remainder
-  uint16_t segments = (uint16_t)utilities::floorf(flat_mm / segment_mm);
+  uint16_t segments = to_segment_count(utilities::floorf(flat_mm / segment_mm));
 
   // Are the segments now too few to reach the destination?
   const float segmented_length = segment_mm * segments;
-  const bool tooshort = segmented_length < flat_mm - 0.0001f;
+  const bool tooshort = segments < MAX_SEGMENT_COUNT && segmented_length < flat_mm - 0.0001f;
   const float proportion = tooshort ? segmented_length / flat_mm : 1.0f;
   
 
diff --git a/ArcWelderInverseProcessor/prusa.cpp b/ArcWelderInverseProcessor/prusa.cpp
index 085977e..e0ed42b 100644
--- a/ArcWelderInverseProcessor/prusa.cpp
+++ b/ArcWelderInverseProcessor/prusa.cpp
@@ -190,7 +190,7 @@ void prusa::mc_arc_3_10_0(float* position, float* target, float* offset, float f
 
   float millimeters_of_travel = (float)utilities::hypot((double)angular_travel * radius, utilities::absf(linear_travel));
   if (millimeters_of_travel < 0.001) { return; }
-  uint16_t segments = (uint16_t)utilities::floorf(millimeters_of_travel / static_cast<float>(args_.mm_per_arc_segment));
+  uint16_t segments = to_segment_count(utilities::floorf(millimeters_of_travel / static_cast<float>(args_.mm_per_arc_segment)));
   if (segments == 0) segments = 1;
 
   /*
@@ -373,7 +373,7 @@ void prusa::mc_arc_3_11_0(float* position, float* target, float* offset, float f
   if (millimeters_of_travel_arc < 0.001) { return; }
 
   // Calculate the number of arc segments
-  uint16_t segments = static_cast<uint16_t>(utilities::ceilf(millimeters_of_travel_arc / mm_per_arc_segment));
+  uint16_t segments = to_segment_count(utilities::ceilf(millimeters_of_travel_arc / mm_per_arc_segment));
 
   /* Vector rotation by transformation matrix: r is the original vector, r_T is the rotated vector,
      and phi is the angle of rotation. Based on the solution approach by Jens Geisler.
diff --git a/ArcWelderInverseProcessor/repetier.cpp b/ArcWelderInverseProcessor/repetier.cpp
index 78dea06..6e278ee 100644
--- a/ArcWelderInverseProcessor/repetier.cpp
+++ b/ArcWelderInverseProcessor/repetier.cpp
@@ -211,7 +211,7 @@ void repetier::arc_1_0_5(float* position, float* target, float* offset, float ra
   // Example, assume millimeters_of_travel = 1.999.  In this case segments will be 1,
   // the interpolation loop will be skipped, and the segment drawn will be of length
   // 1.999, which is not great.
-  uint16_t segments = (uint16_t)utilities::ceil(millimeters_of_travel / (float)args_.mm_per_arc_segment);
+  uint16_t segments = to_segment_count(utilities::ceil(millimeters_of_travel / (float)args_.mm_per_arc_segment));
   
   if (segments == 0)
     segments = 1;
@@ -353,7 +353,7 @@ void repetier::arc_1_0_4(float* position, float* target, float* offset, float ra
   }
   //uint16_t segments = (radius>=BIG_ARC_RADIUS ? floor(millimeters_of_travel/MM_PER_ARC_SEGMENT_BIG) : floor(millimeters_of_travel/MM_PER_ARC_SEGMENT));
   // Increase segment size if printing faster then computation speed allows
-  uint16_t segments = (uint16_t)(feedrate > 60.0f ? utilities::floorf(millimeters_of_travel / utilities::minf(static_cast<float>(args_.mm_per_arc_segment), feedrate * 0.01666f * static_cast<float>(args_.mm_per_arc_segment))) : utilities::floorf(millimeters_of_travel / static_cast<float>(args_.mm_per_arc_segment)));
+  uint16_t segments = to_segment_count(feedrate > 60.0f ? utilities::floorf(millimeters_of_travel / utilities::minf(static_cast<float>(args_.mm_per_arc_segment), feedrate * 0.01666f * static_cast<float>(args_.mm_per_arc_segment))) : utilities::floorf(millimeters_of_travel / static_cast<float>(args_.mm_per_arc_segment)));
   if (segments == 0)
     segments = 1;
   /*
diff --git a/ArcWelderInverseProcessor/smoothieware.cpp b/ArcWelderInverseProcessor/smoothieware.cpp
index 177c0ec..6875d8c 100644
--- a/ArcWelderInverseProcessor/smoothieware.cpp
+++ b/ArcWelderInverseProcessor/smoothieware.cpp
@@ -191,7 +191,7 @@ bool smoothieware::append_arc_2021_06_19(SmoothiewareGcode* gcode, const float t
 
   // Figure out how many segments for this gcode
   // TODO for deltas we need to make sure we are at least as many segments as requested, also if mm_per_line_segment is set we need to use the
-  uint16_t segments = (uint16_t)utilities::floorf(millimeters_of_travel / arc_segment);
+  uint16_t segments = to_segment_count(utilities::floorf(millimeters_of_travel / arc_segment));
   bool moved = false;
 
   if (segments > 1) {
-- 
2.43.0


From 97be31a19ae6ee5e8f3c014b35da03f79d68411a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:10 +0000
Subject: [PATCH 79/81] fix: keep a semicolon that no comment follows

---
 ArcWelder/arc_welder.cpp             | 4 ++--
 ArcWelder/unwritten_command.h        | 6 ++++--
 GcodeProcessorLib/gcode_parser.cpp   | 1 +
 GcodeProcessorLib/parsed_command.cpp | 4 +++-
 GcodeProcessorLib/parsed_command.h   | 2 ++
 5 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index a40c3fe..397fc70 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -769,13 +769,13 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
     }
 
     // Reset the previous extrusion rate, except for blank lines, which don't end an arc.
-    if (is_end || !(cmd.is_empty && cmd.comment.length() == 0))
+    if (is_end || !(cmd.is_empty && !cmd.has_comment))
     {
       previous_extrusion_rate_ = 0;
     }
   }
 
-  if (!arc_added && !(cmd.is_empty && cmd.comment.length() == 0))
+  if (!arc_added && !(cmd.is_empty && !cmd.has_comment))
   {
     if (current_arc_.get_num_segments() < current_arc_.get_min_segments()) {
       if (debug_logging_enabled_ && !cmd.is_empty)
diff --git a/ArcWelder/unwritten_command.h b/ArcWelder/unwritten_command.h
index 650e544..1dd9391 100644
--- a/ArcWelder/unwritten_command.h
+++ b/ArcWelder/unwritten_command.h
@@ -35,11 +35,12 @@ struct unwritten_command
 		is_travel = false;
 		is_extrusion = false;
 		is_retraction = false;
+		has_comment = false;
 		gcode = "";
 		comment = "";
 	}
 	unwritten_command(parsed_command &cmd, bool is_relative, bool is_extrusion, bool is_retraction, bool is_travel, double command_length) 
-		: is_extruder_relative(is_relative), is_extrusion(is_extrusion), is_retraction(is_retraction), is_travel(is_travel), is_g0_g1(cmd.command == "G0" || cmd.command == "G1"), is_g2_g3(cmd.command == "G2" || cmd.command == "G3"), gcode(cmd.gcode), comment(cmd.comment), length(command_length)
+		: is_extruder_relative(is_relative), is_extrusion(is_extrusion), is_retraction(is_retraction), is_travel(is_travel), is_g0_g1(cmd.command == "G0" || cmd.command == "G1"), is_g2_g3(cmd.command == "G2" || cmd.command == "G3"), gcode(cmd.gcode), comment(cmd.comment), has_comment(cmd.has_comment), length(command_length)
 	{
 
 	}
@@ -52,10 +53,11 @@ struct unwritten_command
 	double length;
 	std::string gcode;
 	std::string comment;
+	bool has_comment;
 
 	std::string to_string()
 	{
-		if (comment.size() > 0)
+		if (has_comment || comment.size() > 0)
 		{
 			return gcode + ";" + comment;
 		}
diff --git a/GcodeProcessorLib/gcode_parser.cpp b/GcodeProcessorLib/gcode_parser.cpp
index 05b76f5..967882b 100644
--- a/GcodeProcessorLib/gcode_parser.cpp
+++ b/GcodeProcessorLib/gcode_parser.cpp
@@ -257,6 +257,7 @@ bool gcode_parser::try_parse_gcode(const char * gcode, parsed_command & command,
 		}
 	}
 		
+	command.has_comment = *p_gcode == ';';
 	try_extract_comment(&p_gcode, &(command.comment));
 		
 
diff --git a/GcodeProcessorLib/parsed_command.cpp b/GcodeProcessorLib/parsed_command.cpp
index 1c1b8c1..a5f5868 100644
--- a/GcodeProcessorLib/parsed_command.cpp
+++ b/GcodeProcessorLib/parsed_command.cpp
@@ -33,6 +33,7 @@ parsed_command::parsed_command()
 	parameters.reserve(6);
 	is_known_command = false;
 	is_empty = true;
+	has_comment = false;
 }
 
 void parsed_command::clear()
@@ -44,6 +45,7 @@ void parsed_command::clear()
 	parameters.clear();
 	is_known_command = false;
 	is_empty = true;
+	has_comment = false;
 }
 
 std::string parsed_command::rewrite_gcode_string()
@@ -82,7 +84,7 @@ std::string parsed_command::rewrite_gcode_string()
 
 std::string parsed_command::to_string()
 {
-	if (comment.size() > 0)
+	if (has_comment || comment.size() > 0)
 	{
 		return gcode + ";" + comment;
 	}
diff --git a/GcodeProcessorLib/parsed_command.h b/GcodeProcessorLib/parsed_command.h
index 9ce270c..523bff3 100644
--- a/GcodeProcessorLib/parsed_command.h
+++ b/GcodeProcessorLib/parsed_command.h
@@ -35,6 +35,8 @@ public:
 	std::string comment;
 	bool is_empty;
 	bool is_known_command;
+	// true even if the comment is empty
+	bool has_comment;
 	std::vector<parsed_command_parameter> parameters;
 	void clear();
 	std::string to_string();
-- 
2.43.0


From ff20d71072d7895461489b81ed22938e24526c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:03 +0000
Subject: [PATCH 80/81] fix: write the arc at the end of a file that ends with
 blank lines

---
 ArcWelder/arc_welder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 397fc70..802500c 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -775,7 +775,7 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
     }
   }
 
-  if (!arc_added && !(cmd.is_empty && !cmd.has_comment))
+  if (!arc_added && (is_end || !(cmd.is_empty && !cmd.has_comment)))
   {
     if (current_arc_.get_num_segments() < current_arc_.get_min_segments()) {
       if (debug_logging_enabled_ && !cmd.is_empty)
-- 
2.43.0


From b6457bc31e1cdde7192598a3a0e6f9af21f9703c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:01 +0000
Subject: [PATCH 81/81] fix: count the digits of a number as it is written

A number half way between two printed ones (9.9995 with three decimals) is
written as 10.000, but could be counted as having one digit before the decimal
point, so that an arc's gcode was one character longer than max_gcode_length.
---
 GcodeProcessorLib/utilities.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/GcodeProcessorLib/utilities.cpp b/GcodeProcessorLib/utilities.cpp
index 2695cfc..fc96a40 100644
--- a/GcodeProcessorLib/utilities.cpp
+++ b/GcodeProcessorLib/utilities.cpp
@@ -406,11 +406,9 @@ int utilities::get_num_digits(int x)
 
 int utilities::get_num_digits(double x, int precision)
 {
-	// Note that x times the power of 10 may be too large for an int
-	return get_num_digits(
-		utilities::ceil(x * utilities::pow(10, precision) - .4999999999999)
-		/ utilities::pow(10, precision)
-	);
+	// Count the digits as they are written, so that both agree on how the number is rounded
+	const std::string digits = utilities::dtos(utilities::abs(x), static_cast<unsigned char>(precision));
+	return static_cast<int>((std::min)(digits.find('.'), digits.length()));
 }
 
 int utilities::get_num_digits(double x)
-- 
2.43.0

