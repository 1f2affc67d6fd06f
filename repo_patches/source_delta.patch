From 7f7b3e04158118b71db603e3810bbcb1a910c471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:22 +0000
Subject: [PATCH 01/49] fix: pass the provider to error_response in thumbnail
 refusals

---
 dashlivesim/dashlib/dash_proxy.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index 4b354a0..e206441 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -352,11 +352,11 @@ def process_thumbnail(dashProv, now_float):
         seg_nr = int(seg_base)
     seg_start_nr = cfg.start_nr == -1 and 1 or cfg.start_nr
     if seg_nr < seg_start_nr:
-        return error_response("Request for segment %d before first %d" % (seg_nr, seg_start_nr))
+        return error_response(dashProv, "Request for segment %d before first %d" % (seg_nr, seg_start_nr))
     if len(cfg.last_segment_numbers) > 0:
         very_last_segment = cfg.last_segment_numbers[-1]
         if seg_nr > very_last_segment:
-            return error_response("Request for segment %d beyond last (%d)" % (seg_nr, very_last_segment))
+            return error_response(dashProv, "Request for segment %d beyond last (%d)" % (seg_nr, very_last_segment))
     # lmsg = seg_nr in cfg.last_segment_numbers
     # print cfg.last_segment_numbers
     seg_time = (seg_nr - seg_start_nr) * seg_dur + cfg.availability_start_time_in_s
@@ -364,10 +364,10 @@ def process_thumbnail(dashProv, now_float):
 
     if cfg.availability_time_offset_in_s != -1:  # -1 is infinity
         if now_float < seg_ast - cfg.availability_time_offset_in_s:
-            return error_response("Request for %s was %.1fs too early" % (seg_name, seg_ast - now_float))
+            return error_response(dashProv, "Request for %s was %.1fs too early" % (seg_name, seg_ast - now_float))
         if (now_float > seg_ast + seg_dur + cfg.timeshift_buffer_depth_in_s):
             diff = now_float - (seg_ast + seg_dur + cfg.timeshift_buffer_depth_in_s)
-            return error_response("Request for %s was %.1fs too late" % (seg_name, diff))
+            return error_response(dashProv, "Request for %s was %.1fs too late" % (seg_name, diff))
 
     time_since_ast = seg_time - cfg.availability_start_time_in_s
     loop_duration = cfg.seg_duration * cfg.vod_nr_segments_in_loop
-- 
2.43.0


From 9d95872cfe10f3cd1762e7fc90f3b537b35e66d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:30 +0000
Subject: [PATCH 02/49] fix: thumbnails follow stop time and time offset like
 media segments

---
 dashlivesim/dashlib/dash_proxy.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index e206441..57efb1d 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -350,28 +350,33 @@ def process_thumbnail(dashProv, now_float):
         seg_nr = int(round(float(seg_base[1:]) / seg_dur / timescale))
     else:
         seg_nr = int(seg_base)
-    seg_start_nr = cfg.start_nr == -1 and 1 or cfg.start_nr
+    seg_start_nr = cfg.start_nr == -1 and 1 or cfg.adjusted_start_number
     if seg_nr < seg_start_nr:
         return error_response(dashProv, "Request for segment %d before first %d" % (seg_nr, seg_start_nr))
+    stop_number = cfg.stop_number
+    if stop_number and seg_nr >= stop_number:
+        return error_response(dashProv, "Beyond last segment %d" % stop_number)
     if len(cfg.last_segment_numbers) > 0:
         very_last_segment = cfg.last_segment_numbers[-1]
         if seg_nr > very_last_segment:
             return error_response(dashProv, "Request for segment %d beyond last (%d)" % (seg_nr, very_last_segment))
     # lmsg = seg_nr in cfg.last_segment_numbers
     # print cfg.last_segment_numbers
-    seg_time = (seg_nr - seg_start_nr) * seg_dur + cfg.availability_start_time_in_s
-    seg_ast = seg_time + seg_dur
+    media_time_at_ast = cfg.adjusted_pto(0, 1)
+    seg_time = (seg_nr - seg_start_nr) * seg_dur + media_time_at_ast
+    seg_ast = (seg_time + seg_dur - media_time_at_ast) + cfg.availability_start_time_in_s
 
     if cfg.availability_time_offset_in_s != -1:  # -1 is infinity
         if now_float < seg_ast - cfg.availability_time_offset_in_s:
             return error_response(dashProv, "Request for %s was %.1fs too early" % (seg_name, seg_ast - now_float))
-        if (now_float > seg_ast + seg_dur + cfg.timeshift_buffer_depth_in_s):
+        # If stop_number is not None, the manifest will become static
+        if ((now_float > seg_ast + seg_dur +
+                cfg.timeshift_buffer_depth_in_s) and not stop_number):
             diff = now_float - (seg_ast + seg_dur + cfg.timeshift_buffer_depth_in_s)
             return error_response(dashProv, "Request for %s was %.1fs too late" % (seg_name, diff))
 
-    time_since_ast = seg_time - cfg.availability_start_time_in_s
     loop_duration = cfg.seg_duration * cfg.vod_nr_segments_in_loop
-    nr_loops_done, time_in_loop = divmod(time_since_ast, loop_duration)
+    nr_loops_done, time_in_loop = divmod(seg_time, loop_duration)
     seg_nr_in_loop = time_in_loop // seg_dur
     vod_nr = seg_nr_in_loop + cfg.vod_first_segment_in_loop
     assert 0 <= vod_nr - cfg.vod_first_segment_in_loop < cfg.vod_nr_segments_in_loop
-- 
2.43.0


From c543e4474a2bf8882d995722d7a5868f66b39735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:02 +0000
Subject: [PATCH 03/49] fix: snr_-1 means first segment number 1 in server,
 stop number and manifest

---
 dashlivesim/dashlib/configprocessor.py | 2 +-
 dashlivesim/dashlib/dash_proxy.py      | 4 ++--
 dashlivesim/dashlib/mpd_proxy.py       | 2 ++
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/configprocessor.py b/dashlivesim/dashlib/configprocessor.py
index 10353bc..733fea8 100644
--- a/dashlivesim/dashlib/configprocessor.py
+++ b/dashlivesim/dashlib/configprocessor.py
@@ -229,7 +229,7 @@ class Config(object):
 
     @property
     def adjusted_start_number(self):
-        start_nr = self.start_nr
+        start_nr = 1 if self.start_nr == -1 else self.start_nr  # -1 means default value (=1)
         if self.timeoffset is not None:
             start_nr += ((self.availability_start_time_in_s - self.timeoffset)
                          // self.seg_duration)
diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index 57efb1d..0f5a435 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -233,7 +233,7 @@ def process_media_segment(dashProv, now_float, chunk):
         seg_nr = int(round(float(seg_base[1:]) / seg_dur / timescale))
     else:
         seg_nr = int(seg_base)
-    seg_start_nr = cfg.start_nr == -1 and 1 or cfg.adjusted_start_number
+    seg_start_nr = cfg.adjusted_start_number
     if seg_nr < seg_start_nr:
         return error_response(dashProv, "Request for segment %d before first %d" % (seg_nr, seg_start_nr))
     stop_number = cfg.stop_number
@@ -350,7 +350,7 @@ def process_thumbnail(dashProv, now_float):
         seg_nr = int(round(float(seg_base[1:]) / seg_dur / timescale))
     else:
         seg_nr = int(seg_base)
-    seg_start_nr = cfg.start_nr == -1 and 1 or cfg.adjusted_start_number
+    seg_start_nr = cfg.adjusted_start_number
     if seg_nr < seg_start_nr:
         return error_response(dashProv, "Request for segment %d before first %d" % (seg_nr, seg_start_nr))
     stop_number = cfg.stop_number
diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index 4d9c43e..4dbff50 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -72,6 +72,8 @@ def generate_dynamic_mpd(dashProv, mpd_filename, in_data, now):
     mpd_data['timeShiftBufferDepth'] = seconds_to_iso_duration(cfg.timeshift_buffer_depth_in_s)
     mpd_data['timeShiftBufferDepthInS'] = cfg.timeshift_buffer_depth_in_s
     mpd_data['startNumber'] = cfg.adjusted_start_number
+    if cfg.start_nr == -1 and cfg.adjusted_start_number == 1:
+        mpd_data['startNumber'] = -1  # Default value, so leave out startNumber
     mpd_data['publishTime'] = '%s' % make_timestamp(in_data['publishTime'])
     mpd_data['availabilityStartTime'] = '%s' % make_timestamp(in_data['availability_start_time_in_s'])
     mpd_data['duration'] = '%d' % in_data['segDuration']
-- 
2.43.0


From e4d3f57a8abf68b6ae8dda4c5b24e4f8dbbd6fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:02 +0000
Subject: [PATCH 04/49] fix: a stop number of zero is a stop number

---
 dashlivesim/dashlib/dash_proxy.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index 0f5a435..0495350 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -237,7 +237,7 @@ def process_media_segment(dashProv, now_float, chunk):
     if seg_nr < seg_start_nr:
         return error_response(dashProv, "Request for segment %d before first %d" % (seg_nr, seg_start_nr))
     stop_number = cfg.stop_number
-    if stop_number and seg_nr >= stop_number:
+    if stop_number is not None and seg_nr >= stop_number:
         return error_response(dashProv, "Beyond last segment %d" % stop_number)
     if len(cfg.last_segment_numbers) > 0:
         very_last_segment = cfg.last_segment_numbers[-1]
@@ -255,7 +255,7 @@ def process_media_segment(dashProv, now_float, chunk):
             return error_response(dashProv, "Request for %s was %.1fs too early" % (seg_name, seg_ast - now_float))
         # If stop_number is not None, the manifest will become static
         if ((now_float > seg_ast + seg_dur +
-                cfg.timeshift_buffer_depth_in_s) and not stop_number):
+                cfg.timeshift_buffer_depth_in_s) and stop_number is None):
             diff = now_float - (seg_ast + seg_dur + cfg.timeshift_buffer_depth_in_s)
             return error_response(dashProv, "Request for %s was %.1fs too late" % (seg_name, diff))
 
@@ -354,7 +354,7 @@ def process_thumbnail(dashProv, now_float):
     if seg_nr < seg_start_nr:
         return error_response(dashProv, "Request for segment %d before first %d" % (seg_nr, seg_start_nr))
     stop_number = cfg.stop_number
-    if stop_number and seg_nr >= stop_number:
+    if stop_number is not None and seg_nr >= stop_number:
         return error_response(dashProv, "Beyond last segment %d" % stop_number)
     if len(cfg.last_segment_numbers) > 0:
         very_last_segment = cfg.last_segment_numbers[-1]
@@ -371,7 +371,7 @@ def process_thumbnail(dashProv, now_float):
             return error_response(dashProv, "Request for %s was %.1fs too early" % (seg_name, seg_ast - now_float))
         # If stop_number is not None, the manifest will become static
         if ((now_float > seg_ast + seg_dur +
-                cfg.timeshift_buffer_depth_in_s) and not stop_number):
+                cfg.timeshift_buffer_depth_in_s) and stop_number is None):
             diff = now_float - (seg_ast + seg_dur + cfg.timeshift_buffer_depth_in_s)
             return error_response(dashProv, "Request for %s was %.1fs too late" % (seg_name, diff))
 
-- 
2.43.0


From a576e4d8b3f15738049952a427beefb4a271ef3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:02 +0000
Subject: [PATCH 05/49] fix: pace chunks relative to the wall-clock start of
 the segment

---
 dashlivesim/dashlib/dash_proxy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index 0495350..008b59b 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -272,11 +272,11 @@ def process_media_segment(dashProv, now_float, chunk):
             trex_data = get_trex_data(dashProv, rel_path)
             seg_content = filter_media_segment(dashProv, cfg.reps[0], rel_path, vod_nr, seg_nr, seg_ext,
                                                offset_at_loop_start, lmsg, trex_data)
-            # Here we shall return seg_time (when the segment start to be produced)
-            # and then each chunk should be delivered at seg_time + (i+1) * chunk_dur
+            # Here we shall return the wall-clock time when the segment starts to be produced
+            # and then each chunk should be delivered at that time + (i+1) * chunk_dur
             dur = int(cfg.chunk_duration_in_s * cfg.reps[0]['timescale'])
             chunks = [chk for chk in chunker.chunk(seg_content, dur, trex_data)]
-            return ChunkedSegment(seg_time, chunks)
+            return ChunkedSegment(seg_ast - seg_dur, chunks)
         else:
             seg_content = filter_media_segment(dashProv, cfg.reps[0], rel_path, vod_nr, seg_nr, seg_ext,
                                                offset_at_loop_start, lmsg)
-- 
2.43.0


From 4cc356b979b3fb822f5858efd2ca6f1c188ea179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:17 +0000
Subject: [PATCH 06/49] fix: count the last segment from the start of the
 session

---
 dashlivesim/dashlib/configprocessor.py | 5 +++--
 dashlivesim/dashlib/dash_proxy.py      | 6 +++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/dashlivesim/dashlib/configprocessor.py b/dashlivesim/dashlib/configprocessor.py
index 733fea8..a1c21a1 100644
--- a/dashlivesim/dashlib/configprocessor.py
+++ b/dashlivesim/dashlib/configprocessor.py
@@ -73,7 +73,7 @@ class Config(object):
         self.minimum_update_period_in_s = None
         self.chunk_duration_in_s = None
         self.modulo_period = None
-        self.last_segment_numbers = []  # The last segment number in every period.
+        self.last_segment_numbers = []  # The last segment in every period, counted from AST.
         self.init_seg_avail_offset = 0  # The number of secs before AST that one can fetch the init segments
         self.tfdt32_flag = False  # Restart every 3 hours make tfdt fit into 32 bits.
         self.cont = False  # Continuous update of MPD AST and seg_nr.
@@ -170,7 +170,8 @@ class Config(object):
         self.availability_start_time_in_s = modulo_period.availability_start_time
         self.media_presentation_duration = modulo_period.media_presentation_duration
         self.availability_end_time = modulo_period.availability_end_time
-        self.last_segment_numbers.append(modulo_period.calc_last_segment_number(seg_dur))
+        # The numbers are counted from the availability start time
+        self.last_segment_numbers.append(int(modulo_period.media_presentation_duration // seg_dur) - 1)
 
     def update_with_aet(self, now_int, availability_end_times, media_presentation_durations):
         "Find the proper availabilityEndTime and mediaPresentation duration for now and set in cfg."
diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index 008b59b..8e2f5cf 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -240,10 +240,10 @@ def process_media_segment(dashProv, now_float, chunk):
     if stop_number is not None and seg_nr >= stop_number:
         return error_response(dashProv, "Beyond last segment %d" % stop_number)
     if len(cfg.last_segment_numbers) > 0:
-        very_last_segment = cfg.last_segment_numbers[-1]
+        very_last_segment = seg_start_nr + cfg.last_segment_numbers[-1]
         if seg_nr > very_last_segment:
             return error_response(dashProv, "Request for segment %d beyond last (%d)" % (seg_nr, very_last_segment))
-    lmsg = seg_nr in cfg.last_segment_numbers
+    lmsg = seg_nr - seg_start_nr in cfg.last_segment_numbers
     # print cfg.last_segment_numbers
     timescale = 1
     media_time_at_ast = cfg.adjusted_pto(0, timescale)
@@ -357,7 +357,7 @@ def process_thumbnail(dashProv, now_float):
     if stop_number is not None and seg_nr >= stop_number:
         return error_response(dashProv, "Beyond last segment %d" % stop_number)
     if len(cfg.last_segment_numbers) > 0:
-        very_last_segment = cfg.last_segment_numbers[-1]
+        very_last_segment = seg_start_nr + cfg.last_segment_numbers[-1]
         if seg_nr > very_last_segment:
             return error_response(dashProv, "Request for segment %d beyond last (%d)" % (seg_nr, very_last_segment))
     # lmsg = seg_nr in cfg.last_segment_numbers
-- 
2.43.0


From 37e9fe1ab8be49f828662a701bba9b6bd2f4f456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:34 +0000
Subject: [PATCH 07/49] fix: answer multiple, malformed and oversized byte
 ranges without failing

---
 dashlivesim/mod_wsgi/mod_dashlivesim.py | 30 ++++++++++++-------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/dashlivesim/mod_wsgi/mod_dashlivesim.py b/dashlivesim/mod_wsgi/mod_dashlivesim.py
index de91a39..12925b0 100644
--- a/dashlivesim/mod_wsgi/mod_dashlivesim.py
+++ b/dashlivesim/mod_wsgi/mod_dashlivesim.py
@@ -245,26 +245,24 @@ def handle_byte_range(payload, range_line):
     range_parts = range_line.split("=")[-1]
     ranges = range_parts.split(",")
     if len(ranges) > 1:
-        return (payload, None)
+        return (payload, "")
     length = len(payload)
     range_interval = ranges[0]
-    range_start, range_end = range_interval.split("-")
-    bad_range = False
-    if range_start == "" and range_end != "":
-        # This is the rangeStart lasts bytes
-        range_start = length - int(range_end)
-        range_end = length - 1
-    elif range_start != "":
-        range_start = int(range_start)
-        if range_end != "":
-            range_end = min(int(range_end), length-1)
+    try:
+        range_start, range_end = range_interval.split("-")
+        if range_start == "" and range_end != "":
+            # This is the rangeStart lasts bytes
+            range_start = max(length - int(range_end), 0)
+            range_end = length - 1
         else:
-            range_end = length-1
-    else:
-        bad_range = True
+            range_start = int(range_start)
+            if range_end != "":
+                range_end = min(int(range_end), length-1)
+            else:
+                range_end = length-1
+    except ValueError:
+        return (payload, "")
     if range_end < range_start:
-        bad_range = True
-    if bad_range:
         return (payload, "")
     ranged_payload = payload[range_start: range_end+1]
     range_response = "bytes %d-%d/%d" % (range_start, range_end, len(payload))
-- 
2.43.0


From 00194085eadca9af12b98375b5c428059c751c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:34 +0000
Subject: [PATCH 08/49] fix: do not share reply headers between requests

---
 dashlivesim/mod_wsgi/mod_dashlivesim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dashlivesim/mod_wsgi/mod_dashlivesim.py b/dashlivesim/mod_wsgi/mod_dashlivesim.py
index 12925b0..e26a062 100644
--- a/dashlivesim/mod_wsgi/mod_dashlivesim.py
+++ b/dashlivesim/mod_wsgi/mod_dashlivesim.py
@@ -57,6 +57,7 @@ status_string = {
 
 def start_reply(status_code, response, length=-1, headers={}):
     "Start reply by writing headers reply."
+    headers = dict(headers)
     status = "%d %s" % (status_code, status_string[status_code])
 
     # Add default headers to all requests
-- 
2.43.0


From 8e93d25cddd8f27610b654d5a3fd5552cd42f7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:34 +0000
Subject: [PATCH 09/49] fix: send thumbnails as image/jpeg

---
 dashlivesim/mod_wsgi/mod_dashlivesim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dashlivesim/mod_wsgi/mod_dashlivesim.py b/dashlivesim/mod_wsgi/mod_dashlivesim.py
index e26a062..bbe7ce2 100644
--- a/dashlivesim/mod_wsgi/mod_dashlivesim.py
+++ b/dashlivesim/mod_wsgi/mod_dashlivesim.py
@@ -236,6 +236,8 @@ def get_mime_type(ext):
         return "video/iso.segment"
     elif ext == ".mp4":
         return "video/mp4"
+    elif ext == ".jpg":
+        return "image/jpeg"
 
     return "text/plain"
 
-- 
2.43.0


From f97485f4e184366fef61448d867c59575f182a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:47 +0000
Subject: [PATCH 10/49] fix: read the track timescale of version 1 mdhd boxes
 at the right offset

---
 dashlivesim/dashlib/initsegmentfilter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/initsegmentfilter.py b/dashlivesim/dashlib/initsegmentfilter.py
index cad01e3..568431d 100644
--- a/dashlivesim/dashlib/initsegmentfilter.py
+++ b/dashlivesim/dashlib/initsegmentfilter.py
@@ -61,7 +61,10 @@ class InitFilter(MP4Filter):
 
     def process_mdhd(self, data):
         "Process mdhd to get track_timscale."
-        self._track_timescale = str_to_uint32(data[20:24])
+        if data[8] == 1:  # version
+            self._track_timescale = str_to_uint32(data[28:32])
+        else:
+            self._track_timescale = str_to_uint32(data[20:24])
         return data
 
     def process_trex(self, data):
-- 
2.43.0


From 5b0e7a664850f4dfdffe6dbc36db620a1b00a2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:51 +0000
Subject: [PATCH 11/49] fix: keep mediaPresentationDuration when the last
 duration is about to end

---
 dashlivesim/dashlib/configprocessor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dashlivesim/dashlib/configprocessor.py b/dashlivesim/dashlib/configprocessor.py
index a1c21a1..94bf9e0 100644
--- a/dashlivesim/dashlib/configprocessor.py
+++ b/dashlivesim/dashlib/configprocessor.py
@@ -179,6 +179,7 @@ class Config(object):
         media_presentation_duration = None
         if len(availability_end_times) > 0:
             end_time = availability_end_times[-1]
+            media_presentation_duration = media_presentation_durations[-1]
             for aet, media_pre_dur in zip(availability_end_times[::-1], media_presentation_durations[::-1]):
                 if now_int > aet - 2*self.minimum_update_period_in_s:
                     break
-- 
2.43.0


From 7e5508e38d1bf901d22e2f4bbe56c2d3afaf31f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 12/49] fix: add Location when only one of startrel and stoprel
 is given

---
 dashlivesim/dashlib/mpdprocessor.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index a6bfa36..7bfbc5c 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -183,10 +183,13 @@ class MpdProcessor(object):
                 self.insert_baseurl(mpd, pos, data['BaseURL'], ato, atc)
                 pos += 1
         if self.cfg and self.cfg.add_location and self.full_url is not None:
-            loc_url = re.sub(r"/startrel_[-\d]+", "/start_%d" %
-                             self.cfg.start_time, self.full_url)
-            loc_url = re.sub(r"/stoprel_[-\d]+", "/stop_%d" %
-                             self.cfg.stop_time, loc_url)
+            loc_url = self.full_url
+            if self.cfg.start_time is not None:
+                loc_url = re.sub(r"/startrel_[-\d]+", "/start_%d" %
+                                 self.cfg.start_time, loc_url)
+            if self.cfg.stop_time is not None:
+                loc_url = re.sub(r"/stoprel_[-\d]+", "/stop_%d" %
+                                 self.cfg.stop_time, loc_url)
             self.insert_location(mpd, pos, loc_url)
             pos += 1
 
-- 
2.43.0


From 3ce27bf45ef2fe5cd8b3271a74c44632d71cccdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 13/49] fix: remove a stored presentationTimeOffset when the
 offset is zero

---
 dashlivesim/dashlib/mpdprocessor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 7bfbc5c..14ca2b2 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -279,8 +279,8 @@ class MpdProcessor(object):
             for key in keys:
                 if key in data:
                     if key == "presentationTimeOffset" and str(data[key]) == "0":  # Remove default value
-                        if key in elem:
-                            del elem[key]
+                        if key in elem.attrib:
+                            del elem.attrib[key]
                         continue
                     elem.set(key, str(data[key]))
 
-- 
2.43.0


From aa6462dba7799872cd196107d50b6791e8eb8f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 14/49] fix: give an empty SegmentTimeline before the first
 segment has ended

---
 dashlivesim/dashlib/mpdprocessor.py | 2 +-
 dashlivesim/dashlib/segtimeline.py  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 14ca2b2..7bd93c7 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -399,7 +399,7 @@ class MpdProcessor(object):
                         if self.segtimeline:
                             media_template = media_template.replace('$Number$', 't$Time$')
                             remove_attribs(seg_template, ['startNumber'])
-                        elif self.segtimeline_nr:
+                        elif segtime_gen.start_number is not None:
                             # Set number to the first number listed
                             set_attribs(seg_template,
                                         ('startNumber',),
diff --git a/dashlivesim/dashlib/segtimeline.py b/dashlivesim/dashlib/segtimeline.py
index cf7640b..d4f1fa1 100644
--- a/dashlivesim/dashlib/segtimeline.py
+++ b/dashlivesim/dashlib/segtimeline.py
@@ -72,6 +72,7 @@ class SegmentTimeLineGenerator(object):
         seg_timeline = ElementTree.Element(add_ns('SegmentTimeline'))
         seg_timeline.text = "\n"
         seg_timeline.tail = "\n"
+        self.start_number = None  # Set if there is at least one segment
 
         start = start_time * self.timescale
         end = end_time * self.timescale
@@ -96,7 +97,7 @@ class SegmentTimeLineGenerator(object):
                 end_index = len(self.segtimedata) - 1
                 end_repeats = self.segtimedata[end_index].repeats
                 if (end_wraps < 0):
-                    return (None, None, None)
+                    return seg_timeline  # No segment has ended yet
             end_tics = self.get_seg_endtime(end_wraps, end_index, end_repeats)
 
         # print "end_time2 %d %d %d" % (end, end_tics, (end-end_tics)/(self.timescale*1.0))
-- 
2.43.0


From 426c7efeb9156f1f38e1b33fbd62deff6d4f1701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 15/49] fix: correct operands in find_closest_end

---
 dashlivesim/dashlib/segtimeline.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/segtimeline.py b/dashlivesim/dashlib/segtimeline.py
index d4f1fa1..c35e134 100644
--- a/dashlivesim/dashlib/segtimeline.py
+++ b/dashlivesim/dashlib/segtimeline.py
@@ -208,17 +208,17 @@ class SegmentTimeLineGenerator(object):
         seg_data = self.segtimedata[index]
         repeats = 0
         start = seg_data.start_time
-        if abs(act_time, start) < (seg_data.duration // 2):
+        if abs(rel_time - start) < (seg_data.duration // 2):
             return index, repeats, nr_wraps
 
         while repeats < seg_data.repeats:
             repeats += 1
             start += seg_data.duration
-            if abs(act_time, start) < (seg_data.duration // 2):
+            if abs(rel_time - start) < (seg_data.duration // 2):
                 return index, repeats, nr_wraps
 
         index += 1
-        if index >= self.interval_starts:
+        if index >= len(self.interval_starts):
             index = 0
             nr_wraps += 1
         return index, self.segtimedata[index].repeats, nr_wraps
-- 
2.43.0


From f9359a279bd2ea2523511f51ad3a0d2d819376d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 16/49] fix: SegmentTimeline manifests for assets with only
 audio or video or with other media

---
 dashlivesim/dashlib/mpdprocessor.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 7bd93c7..7c805b8 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -314,8 +314,9 @@ class MpdProcessor(object):
         if self.segtimeline or self.segtimeline_nr:
             segtimeline_generators = {}
             for content_type in ('video', 'audio'):
-                segtimeline_generators[content_type] = SegmentTimeLineGenerator(self.cfg.media_data[content_type],
-                                                                                self.cfg)
+                if content_type in self.cfg.media_data:
+                    segtimeline_generators[content_type] = SegmentTimeLineGenerator(self.cfg.media_data[content_type],
+                                                                                    self.cfg)
         periods = mpd.findall(add_ns('Period'))
         BaseURL = mpd.findall(add_ns('BaseURL'))
         if len(BaseURL) > 0:
@@ -369,7 +370,7 @@ class MpdProcessor(object):
                     if pdata.get('startNumber') == '-1':  # Default to 1
                         remove_attribs(seg_template, ['startNumber'])
 
-                    if self.segtimeline or self.segtimeline_nr:
+                    if (self.segtimeline or self.segtimeline_nr) and content_type in segtimeline_generators:
                         # add SegmentTimeline block in SegmentTemplate with timescale and window.
                         segtime_gen = segtimeline_generators[content_type]
                         now = self.mpd_proc_cfg['now']
-- 
2.43.0


From fb3a8da31e169b9882a916d1a1e556cc0cb48932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:11 +0000
Subject: [PATCH 17/49] fix: put baseurl options before the content name in
 BaseURL

---
 dashlivesim/dashlib/mpdprocessor.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 7c805b8..73061a9 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -172,12 +172,12 @@ class MpdProcessor(object):
                     cfg_parts = part.split("_", 1)
                     key, _ = cfg_parts
                     if key == "baseurl":
-                        url_parts[i] = ""  # Remove all the baseurl elements
+                        url_parts[i] = None  # Remove all the baseurl elements
                 url_parts = [p for p in url_parts if p is not None]
                 for url in data['urls']:
-                    url_parts.insert(-1, "baseurl_" + url)
-                    self.insert_baseurl(mpd, pos, url_header + "//" + "/".join(url_parts) + "/", ato, atc)
-                    del url_parts[-2]
+                    url_parts.insert(-2, "baseurl_" + url)  # Last option before the content name
+                    self.insert_baseurl(mpd, pos, url_header + "//" + "/".join(url_parts), ato, atc)
+                    del url_parts[-3]
                     pos += 1
             else:
                 self.insert_baseurl(mpd, pos, data['BaseURL'], ato, atc)
-- 
2.43.0


From 690850fa8307073a68c741e64cdf31b517d2b4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:37 +0000
Subject: [PATCH 18/49] fix: replace a stored BaseURL by the session's BaseURLs
 with availabilityTimeOffset

---
 dashlivesim/dashlib/mpdprocessor.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 73061a9..2f9e498 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -155,12 +155,8 @@ class MpdProcessor(object):
         if self.cfg and self.cfg.add_location:
             set_baseurl = False  # Cannot have both BASEURL and Location
         if next_child.tag == add_ns('BaseURL'):
-            if 'BaseURL' not in data or not set_baseurl:
-                self.root.remove(next_child)
-            else:
-                self.modify_baseurl(next_child, data['BaseURL'])
-                pos += 1
-        elif ('BaseURL' in data) and set_baseurl:
+            self.root.remove(next_child)  # Replaced by the BaseURL(s) of this session
+        if ('BaseURL' in data) and set_baseurl:
             if 'urls' in data and data['urls']:  # check if we have to set multiple URLs
                 url_header, url_body = data['BaseURL'].split('//')
                 url_parts = url_body.split('/')
@@ -224,10 +220,6 @@ class MpdProcessor(object):
             baseurl_elem.set('availabilityTimeComplete', new_atc)
         mpd.insert(pos, baseurl_elem)
 
-    def modify_baseurl(self, baseurl_elem, new_baseurl):
-        "Modify the text of an existing BaseURL"
-        baseurl_elem.text = new_baseurl
-
     def insert_ato(self, baseurl_elem, new_ato):
         "Add availabilityTimeOffset to BaseURL element"
         baseurl_elem.set('availabilityTimeOffset', new_ato)
-- 
2.43.0


From 16d6a670a17d7dc78c193d639bfb531f503d0980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 19/49] fix: signal an infinite availabilityTimeOffset as INF
 in low-latency manifests

---
 dashlivesim/dashlib/mpd_proxy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index 4dbff50..85eab84 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -102,7 +102,8 @@ def generate_dynamic_mpd(dashProv, mpd_filename, in_data, now):
         if not cfg.availability_time_complete:
             mpd_data['availabilityTimeComplete'] = 'false'
     else:  # Set these values in the ll_data
-        ll_data['availabilityTimeOffset'] = '%f' % in_data['availability_time_offset_in_s']
+        ato = in_data['availability_time_offset_in_s']
+        ll_data['availabilityTimeOffset'] = 'INF' if ato == -1 else '%f' % ato
         ll_data['availabilityTimeComplete'] = 'false'
 
     if cfg.chunk_duration_in_s is not None and cfg.chunk_duration_in_s > 0:
-- 
2.43.0


From 033041b7bf86278d98e09c26f84b26fd250dc641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:31 +0000
Subject: [PATCH 20/49] fix: scte35_3 inserts at 10, 30 and 50 s past the
 minute as documented

---
 dashlivesim/dashlib/mediasegmentfilter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dashlivesim/dashlib/mediasegmentfilter.py b/dashlivesim/dashlib/mediasegmentfilter.py
index cb13265..2be7f11 100644
--- a/dashlivesim/dashlib/mediasegmentfilter.py
+++ b/dashlivesim/dashlib/mediasegmentfilter.py
@@ -358,8 +358,8 @@ class MediaSegmentFilter(MP4Filter):
         if self.scte35_per_minute == 2:
             splice_insert_times.append(minute_start+40)
         elif self.scte35_per_minute == 3:
-            splice_insert_times.append(minute_start+36)
-            splice_insert_times.append(minute_start+46)
+            splice_insert_times.append(minute_start+30)
+            splice_insert_times.append(minute_start+50)
         elif self.scte35_per_minute == 8:
             splice_insert_times.append(minute_start+30)
             ad_duration = 20
-- 
2.43.0


From 66655f9c9009a92fa183843f095f60feb78afd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:33 +0000
Subject: [PATCH 21/49] fix: announce the splice of the next minute in segments
 that cross a full minute

---
 dashlivesim/dashlib/mediasegmentfilter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dashlivesim/dashlib/mediasegmentfilter.py b/dashlivesim/dashlib/mediasegmentfilter.py
index 2be7f11..54321cb 100644
--- a/dashlivesim/dashlib/mediasegmentfilter.py
+++ b/dashlivesim/dashlib/mediasegmentfilter.py
@@ -363,6 +363,8 @@ class MediaSegmentFilter(MP4Filter):
         elif self.scte35_per_minute == 8:
             splice_insert_times.append(minute_start+30)
             ad_duration = 20
+        # A long segment may also cover the warning of the first splice in the next minute
+        splice_insert_times.append(minute_start + 70)
         found_splice_time = -1
         splice_time = None
         seg_endtime = seg_starttime + self.seg_duration
-- 
2.43.0


From 124dc4c77a00acd327adf9cc62e2dc41dea3cd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:51 +0000
Subject: [PATCH 22/49] fix: size of emsg boxes with non-ASCII strings

---
 dashlivesim/dashlib/emsg.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dashlivesim/dashlib/emsg.py b/dashlivesim/dashlib/emsg.py
index e653826..653b631 100644
--- a/dashlivesim/dashlib/emsg.py
+++ b/dashlivesim/dashlib/emsg.py
@@ -65,18 +65,21 @@ class Emsg(object):
 
     def get_box(self):
         "Return emsg box as string."
-        size = 12 + 4*4 + len(self.scheme_id_uri) + 1 + len(self.value) + 1 + len(self.messagedata)
+        scheme_id_uri = self.scheme_id_uri.encode("utf-8")
+        value = self.value.encode("utf-8")
+        messagedata = self.messagedata.encode("utf-8")
+        size = 12 + 4*4 + len(scheme_id_uri) + 1 + len(value) + 1 + len(messagedata)
         parts = []
         parts.append(uint32_to_str(size))
         parts.append(b"emsg")
         parts.append(b"\x00\x00\x00\x00")
-        parts.append(self.scheme_id_uri.encode("utf-8") + b"\x00")
-        parts.append(self.value.encode('utf-8') + b"\x00")
+        parts.append(scheme_id_uri + b"\x00")
+        parts.append(value + b"\x00")
         parts.append(uint32_to_str(self.timescale))
         parts.append(uint32_to_str(self.presentation_time_delta))
         parts.append(uint32_to_str(self.event_duration))
         parts.append(uint32_to_str(self.emsg_id))
-        parts.append(self.messagedata.encode("utf-8"))
+        parts.append(messagedata)
         return b"".join(parts)
 
     def get_messagedata(self):
-- 
2.43.0


From ac24978dd8517ed4e9a5f9a38822f63500d629bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:53 +0000
Subject: [PATCH 23/49] fix: text form of emsg boxes

---
 dashlivesim/dashlib/emsg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/emsg.py b/dashlivesim/dashlib/emsg.py
index 653b631..912d5b3 100644
--- a/dashlivesim/dashlib/emsg.py
+++ b/dashlivesim/dashlib/emsg.py
@@ -87,7 +87,7 @@ class Emsg(object):
         return self.messagedata
 
     def __str__(self):
-        return ("EMSG: %(scheme_id_uri)s %(value)s %(timescale)d %(presentation_time_delta)d %(event_duration)d" +
+        return ("EMSG: %(scheme_id_uri)s %(value)s %(timescale)d %(presentation_time_delta)d %(event_duration)d"
                 " %(emsg_id)d" % self.__dict__)
 
 
-- 
2.43.0


From 88477002dd7fe2539d8253fe9aac6961ab4e0551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:14 +0000
Subject: [PATCH 24/49] fix: no dangling T in ISO durations of whole days

---
 dashlivesim/dashlib/timeformatconversions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/timeformatconversions.py b/dashlivesim/dashlib/timeformatconversions.py
index e63815c..21a0824 100644
--- a/dashlivesim/dashlib/timeformatconversions.py
+++ b/dashlivesim/dashlib/timeformatconversions.py
@@ -62,7 +62,8 @@ def seconds_to_iso_duration(nr_secs):
     period = "P"
     if days > 0:
         period += "%dD" % days
-    period += "T"
+    if rest > 0 or hours > 0 or days == 0:
+        period += "T"
     if hours > 0:
         period += "%dH" % hours
     if minutes > 0:
-- 
2.43.0


From d09696151a568973d955aede48a8b4eda6fef70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:07 +0000
Subject: [PATCH 25/49] fix: whole seconds of ISO durations with a fraction

---
 dashlivesim/dashlib/timeformatconversions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/timeformatconversions.py b/dashlivesim/dashlib/timeformatconversions.py
index 21a0824..e2e7bb0 100644
--- a/dashlivesim/dashlib/timeformatconversions.py
+++ b/dashlivesim/dashlib/timeformatconversions.py
@@ -32,7 +32,7 @@
 import time
 import re
 
-RE_DURATION = re.compile(r"PT((?P<hours>\d+)H)?((?P<minutes>\d+)M)?((?P<seconds>\d+)S)?")
+RE_DURATION = re.compile(r"PT((?P<hours>\d+)H)?((?P<minutes>\d+)M)?((?P<seconds>\d+)(\.\d+)?S)?")
 
 
 class TimeFormatConversionError(Exception):
-- 
2.43.0


From 30987df254c0c6a4ade092dcfaf8949cc006eaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:17 +0000
Subject: [PATCH 26/49] fix: HVCCBox used the bitwriter module without
 importing it

---
 dashlivesim/dashlib/boxes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dashlivesim/dashlib/boxes.py b/dashlivesim/dashlib/boxes.py
index 9b30936..734db7c 100644
--- a/dashlivesim/dashlib/boxes.py
+++ b/dashlivesim/dashlib/boxes.py
@@ -9,6 +9,8 @@ from itertools import chain
 import logging
 import struct
 
+from dashlivesim.dashlib import bitwriter
+
 MOVIE_TIMESCALE = 90000
 
 
-- 
2.43.0


From 44106654e0cd895d7721f6a7274a083a23a0aced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:18 +0000
Subject: [PATCH 27/49] fix: size of senc boxes when only some samples have
 subsamples

---
 dashlivesim/dashlib/boxes.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/dashlivesim/dashlib/boxes.py b/dashlivesim/dashlib/boxes.py
index 734db7c..9ac2a6d 100644
--- a/dashlivesim/dashlib/boxes.py
+++ b/dashlivesim/dashlib/boxes.py
@@ -1151,18 +1151,11 @@ class SENCBox(Box):
         self.flags = 0
         self.samples = []
 
-        # self.sz is the size of the box
-        # Base size of the 'senc' box is 16 bytes
-        self.sz = 16
-
     def add_sample(self, iv, subsamples):
-        self.samples.append(SENCSample(iv, subsamples))
-        self.sz += self.iv_size
+        self.samples.append(SENCSample(iv, subsamples or []))
 
         if subsamples:
             self.flags = 0x000002
-            self.sz += (self._subsample_count_size +
-                        len(subsamples) * self._subsample_size)
 
     def __iter__(self):
         yield serialize_u32(self.size())
@@ -1180,7 +1173,14 @@ class SENCBox(Box):
                     yield serialize_u32(subsample.enc_bytes)
 
     def size(self):
-        return self.sz
+        # Base size of the 'senc' box is 16 bytes
+        sz = 16 + len(self.samples) * self.iv_size
+        if self.flags == 0x000002:
+            # All samples have a subsample count, also without subsamples
+            for sample in self.samples:
+                sz += (self._subsample_count_size +
+                       len(sample.subsamples) * self._subsample_size)
+        return sz
 
 
 class SIDXBox(Box):
-- 
2.43.0


From 633f3075193bad11006f0a7a83adc030a40cbe63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:33 +0000
Subject: [PATCH 28/49] fix: chunked samples were all marked as sync samples
 and first sample flags were ignored

---
 dashlivesim/dashlib/chunker.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/chunker.py b/dashlivesim/dashlib/chunker.py
index 3aa6293..b7d572f 100644
--- a/dashlivesim/dashlib/chunker.py
+++ b/dashlivesim/dashlib/chunker.py
@@ -55,15 +55,20 @@ def decode_fragment(data, trex):
                            trex.default_sample_size)
     default_sample_flags = (tfhd.default_sample_flags if tfhd.has_default_sample_flags else
                             trex.default_sample_flags)
-    for entry in map(trun.sample_entry, range(trun.sample_count)):
+    for nr in range(trun.sample_count):
+        entry = trun.sample_entry(nr)
         duration = entry['duration'] if trun.has_sample_duration else default_sample_duration
         size = entry['size'] if trun.has_sample_size else default_sample_size
-        flags = entry['flags'] if trun.has_sample_flags else default_sample_flags
+        if nr == 0 and trun.has_first_sample_flags:
+            flags = trun.first_sample_flags
+        else:
+            flags = int(entry['flags'], 16) if trun.has_sample_flags else default_sample_flags
+        sync = not flags & 0x00010000  # sample_is_non_sync_sample
         time_offset = entry['time_offset'] if trun.has_sample_composition_time_offset else 0
         begin, end = end, end + size
         data = root.fmap[base_data_offset+data_offset:][begin:end]
         t0, t1 = t1, t1 + duration
-        yield Sample(data, t0, duration, flags, time_offset)
+        yield Sample(data, t0, duration, sync, time_offset)
 
 
 def partition(samples, duration):
-- 
2.43.0


From ccdf95136b4abbc4db67a06e9bc5ad0a97e90e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:35 +0000
Subject: [PATCH 29/49] fix: negative composition offsets were written to
 version 0 trun boxes

---
 dashlivesim/dashlib/boxes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/boxes.py b/dashlivesim/dashlib/boxes.py
index 9ac2a6d..07a2f13 100644
--- a/dashlivesim/dashlib/boxes.py
+++ b/dashlivesim/dashlib/boxes.py
@@ -950,11 +950,14 @@ class TRUNBox(Box):
         self.samples = []
         self.data_offset = data_offset
         self.use_comp_off = False  # Needs to be true for dash.js
+        self.version = 0  # 1 for signed composition offsets
 
     def add_sample(self, duration, size, sync, offset):
         self.samples.append(TRUNSample(duration, size, sync, offset))
         if offset != 0:
             self.use_comp_off = True
+        if offset < 0:
+            self.version = 1
 
     def set_data_offset(self, data_offset):
         self.data_offset = data_offset
@@ -973,7 +976,7 @@ class TRUNBox(Box):
 
         yield serialize_u32(self.size())
         yield serialize_name(b'trun')
-        yield serialize_u32(flags)  # version and flags
+        yield serialize_u32(self.version << 24 | flags)  # version and flags
         yield serialize_u32(len(self.samples))  # sample_count
         yield serialize_u32(self.data_offset)  # data_offset
 
-- 
2.43.0


From e568d26f3262dfb055a2aaac4a906815873aed8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:26 +0000
Subject: [PATCH 30/49] fix: path parts '', '.' and '..' could lead outside the
 content root

---
 dashlivesim/dashlib/configprocessor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dashlivesim/dashlib/configprocessor.py b/dashlivesim/dashlib/configprocessor.py
index 94bf9e0..9948511 100644
--- a/dashlivesim/dashlib/configprocessor.py
+++ b/dashlivesim/dashlib/configprocessor.py
@@ -121,6 +121,9 @@ class Config(object):
 
     def update_with_filedata(self, url_parts, url_pos):
         "Find the content_name, file_name, and representations (if muxed as signalled by MUX_DIVIDER)."
+        for part in url_parts[url_pos:]:
+            if part in ("", ".", ".."):
+                raise ConfigProcessorError("Bad path part in URL: '%s'" % part)
         self.content_name = url_parts[url_pos]
         self.base_url += "/".join(url_parts[:url_pos+1]) + "/"
         rel_path_parts = url_parts[url_pos+1:-1]
-- 
2.43.0


From 3938da95effeab77ce5b1c46eee1131d77218850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:58 +0000
Subject: [PATCH 31/49] fix: AC-3 and E-AC-3 sample entries failed as the
 bitreader module was called

---
 dashlivesim/dashlib/mp4.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dashlivesim/dashlib/mp4.py b/dashlivesim/dashlib/mp4.py
index 8670996..3bb430d 100755
--- a/dashlivesim/dashlib/mp4.py
+++ b/dashlivesim/dashlib/mp4.py
@@ -749,7 +749,7 @@ class dac3_box(SampleEntry):
         self.dec_info = self.fmap[self.offset + 8:self.offset + self.size]
         self.dec_info_hex = self.dec_info.hex()
 
-        reader = bitreader(self.dec_info)
+        reader = bitreader.bitreader(self.dec_info)
 
         self.fscod = reader.get_bits(2)
         self.bsid = reader.get_bits(5)
@@ -776,7 +776,7 @@ class dec3_box(SampleEntry):
         self.dec_info = self.fmap[self.offset + 8:self.offset + self.size]
         self.dec_info_hex = self.dec_info.hex()
 
-        reader = bitreader(self.dec_info)
+        reader = bitreader.bitreader(self.dec_info)
 
         self.data_rate = reader.get_bits(13)
 
-- 
2.43.0


From d2727c1557eedc208ca2c8c76bddf03047ce6982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:00 +0000
Subject: [PATCH 32/49] fix: hex form of parsed emsg messages

---
 dashlivesim/dashlib/mp4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/mp4.py b/dashlivesim/dashlib/mp4.py
index 3bb430d..39c7895 100755
--- a/dashlivesim/dashlib/mp4.py
+++ b/dashlivesim/dashlib/mp4.py
@@ -2253,7 +2253,7 @@ class emsg_box(full_box):
 
     @property
     def message(self):
-        return self.message_data.hex()
+        return bytes(self.message_data).hex()
 
 
 REGISTERED_BOXES = {key: box for key, box in globals().items()
-- 
2.43.0


From 0612fa2535f218153c4a2c8c2be4b543083c7163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:01 +0000
Subject: [PATCH 33/49] fix: track info of files without audio or timed text

---
 dashlivesim/dashlib/mp4.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dashlivesim/dashlib/mp4.py b/dashlivesim/dashlib/mp4.py
index 39c7895..60bbedc 100755
--- a/dashlivesim/dashlib/mp4.py
+++ b/dashlivesim/dashlib/mp4.py
@@ -339,7 +339,7 @@ class mp4(box):
 
     def get_audio_info(self):
         box_ = self.find(b'moov.trak.mdia.minf.smhd')
-        if not box:
+        if not box_:
             return None, 0
         timescale = box_.parent.parent.find(b'mdhd').timescale
         track = box_.parent.parent.parent.find(b'tkhd').track_id
@@ -347,7 +347,7 @@ class mp4(box):
 
     def get_timed_text_info(self):
         box_ = self.find(b'moov.trak.mdia.minf.nmhd')
-        if not box:
+        if not box_:
             return None, 0
         timescale = box_.parent.parent.find(b'mdhd').timescale
         track = box_.parent.parent.parent.find(b'tkhd').track_id
-- 
2.43.0


From 6ba1d43870b33820bb41b5e0e7290d1b0505cf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:02 +0000
Subject: [PATCH 34/49] fix: saiz and saio flags were not masked

---
 dashlivesim/dashlib/mp4.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dashlivesim/dashlib/mp4.py b/dashlivesim/dashlib/mp4.py
index 60bbedc..4915802 100755
--- a/dashlivesim/dashlib/mp4.py
+++ b/dashlivesim/dashlib/mp4.py
@@ -408,7 +408,7 @@ class saiz_box(full_box):
     @property
     def default_sample_info_size(self):
         offset = 12
-        if self.flags and 1:
+        if self.flags & 1:
             offset += 8
 
         return struct.unpack('>B', self.fmap[self.offset + offset:
@@ -417,7 +417,7 @@ class saiz_box(full_box):
     @property
     def sample_count(self):
         offset = 13
-        if self.flags and 1:
+        if self.flags & 1:
             offset += 8
 
         return struct.unpack('>I', self.fmap[self.offset + offset:
@@ -428,7 +428,7 @@ class saiz_box(full_box):
             return self.default_sample_info_size
 
         info_offset_base = 17
-        if self.flags and 1:
+        if self.flags & 1:
             info_offset_base += 8
 
         sample_offset = self.offset + info_offset_base + index
@@ -444,7 +444,7 @@ class saio_box(full_box):
     @property
     def entry_count(self):
         offset = 12
-        if self.flags and 1:
+        if self.flags & 1:
             offset += 8
 
         return struct.unpack('>I', self.fmap[self.offset + offset:
@@ -452,7 +452,7 @@ class saio_box(full_box):
 
     def entry_offset(self, index):
         offset = 16
-        if self.flags and 1:
+        if self.flags & 1:
             offset += 8
             offset += index * 8
             return struct.unpack('>Q', self.fmap[self.offset + offset:
-- 
2.43.0


From 7f3279192be26777a56280c3678f6290a55a431d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:03 +0000
Subject: [PATCH 35/49] fix: chunker as a script passed the init segment by a
 parameter that does not exist

---
 dashlivesim/dashlib/chunker.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/chunker.py b/dashlivesim/dashlib/chunker.py
index b7d572f..2015085 100644
--- a/dashlivesim/dashlib/chunker.py
+++ b/dashlivesim/dashlib/chunker.py
@@ -140,8 +140,9 @@ if __name__ == '__main__':
     duration = args.duration[0]
     init = open(args.init, 'rb').read()
     media = open(args.media, 'rb').read()
+    trex = mp4(init).find(b'moov.mvex.trex')
 
     with open(args.outfile, 'wb') as ofh:
-        for chunk_data in chunk(media, duration, init_data=init):
+        for chunk_data in chunk(media, duration, trex):
             ofh.write(chunk_data)
             ofh.flush()
-- 
2.43.0


From 6ee77d68759333369813a962bf71aedef3faa6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:04 +0000
Subject: [PATCH 36/49] fix: message about missing segments in cc_inserter

---
 dashlivesim/cc_inserter/cc_inserter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/cc_inserter/cc_inserter.py b/dashlivesim/cc_inserter/cc_inserter.py
index a64f107..50c3e81 100644
--- a/dashlivesim/cc_inserter/cc_inserter.py
+++ b/dashlivesim/cc_inserter/cc_inserter.py
@@ -307,7 +307,7 @@ def get_segment_range(rep_data):
     numbers.sort()
     for i in range(1, len(numbers)):
         if numbers[i] != numbers[i-1] + 1:
-            raise CCInserterError("%s segment missing between %d and %d" % rep_id, numbers[i], numbers[i-1])
+            raise CCInserterError("%s segment missing between %d and %d" % (rep_id, numbers[i-1], numbers[i]))
     print("Found %s segments %d - %d" % (rep_id, numbers[0], numbers[-1]))
     rep_data['firstNumber'] = numbers[0]
     rep_data['lastNumber'] = numbers[-1]
-- 
2.43.0


From 617b3b3de89ca5c303bfe64006e6db1dfad330b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:05 +0000
Subject: [PATCH 37/49] fix: names of adaptation set attributes in the MPD
 processors of the tools

---
 dashlivesim/cc_inserter/mpdprocessor.py | 20 ++++++++++----------
 dashlivesim/vodanalyzer/mpdprocessor.py | 16 ++++++++--------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/dashlivesim/cc_inserter/mpdprocessor.py b/dashlivesim/cc_inserter/mpdprocessor.py
index 8957e8c..ec76862 100644
--- a/dashlivesim/cc_inserter/mpdprocessor.py
+++ b/dashlivesim/cc_inserter/mpdprocessor.py
@@ -99,7 +99,7 @@ class Mpd(MpdElement):
         "Parse the node and its children."
         self.check_and_add_attributes(self.node, ('profiles', 'maxSegmentDuration', 'minBufferTime',
                                                   'type', 'mediaPresentationDuration'))
-        for child in self.node.getchildren():
+        for child in self.node:
             if self.compare_tag(child.tag, 'Period'):
                 period = Period(child)
                 period.parse()
@@ -124,7 +124,7 @@ class Period(MpdElement):
     def parse(self):
         "Parse the node and its children."
         self.check_and_add_attributes(self.node, ('id', 'start'))
-        for child in self.node.getchildren():
+        for child in self.node:
             if self.compare_tag(child.tag, 'AdaptationSet'):
                 adaptation_set = AdaptationSet(child)
                 adaptation_set.parse()
@@ -273,16 +273,16 @@ class MpdProcessor(MpdElement):
     def getMuxedInitPath(self):
         initPath = None
         for AS in self.adaptation_sets:
-            if AS.contentType == "video":
-                print(AS.initialization)
-                initPath = AS.initialization.replace("$RepresentationID$", self.muxed_rep)
+            if AS.content_type == "video":
+                print(AS.initialization_pattern)
+                initPath = AS.initialization_pattern.replace("$RepresentationID$", self.muxed_rep)
         return initPath
 
     def getMuxedMediaPath(self):
         mediaPath = None
         for AS in self.adaptation_sets:
-            if AS.contentType == "video":
-                mediaPath = AS.media.replace("$RepresentationID$", self.muxed_rep).replace("$Number$", "%d")
+            if AS.content_type == "video":
+                mediaPath = AS.media_pattern.replace("$RepresentationID$", self.muxed_rep).replace("$Number$", "%d")
         return mediaPath
 
     def process(self, mpdData={}):
@@ -296,7 +296,7 @@ class MpdProcessor(MpdElement):
         MPD = self.root
         MPD.set('type', "dynamic")
         for key in data.keys():
-            self.setValue(MPD, key, data)
+            self.set_value(MPD, key, data)
         if 'mediaPresentationDuration' in MPD.attrib:
             del MPD.attrib['mediaPresentationDuration']
         for child in MPD:
@@ -318,9 +318,9 @@ class MpdProcessor(MpdElement):
                     if self.compare_tag(grandChild.tag, 'AdaptationSet'):
                         AS = AdaptationSet(grandChild)
                         AS.parse()
-                        if AS.contentType == "audio":
+                        if AS.content_type == "audio":
                             audioAS = grandChild
-                        elif AS.contentType == "video":
+                        elif AS.content_type == "video":
                             videoAS = grandChild
 
         for contentType, mData in mediaData.items():
diff --git a/dashlivesim/vodanalyzer/mpdprocessor.py b/dashlivesim/vodanalyzer/mpdprocessor.py
index 30dc313..605651b 100644
--- a/dashlivesim/vodanalyzer/mpdprocessor.py
+++ b/dashlivesim/vodanalyzer/mpdprocessor.py
@@ -273,16 +273,16 @@ class MpdProcessor(MpdElement):
     def getMuxedInitPath(self):
         initPath = None
         for AS in self.adaptation_sets:
-            if AS.contentType == "video":
-                print(AS.initialization)
-                initPath = AS.initialization.replace("$RepresentationID$", self.muxed_rep)
+            if AS.content_type == "video":
+                print(AS.initialization_pattern)
+                initPath = AS.initialization_pattern.replace("$RepresentationID$", self.muxed_rep)
         return initPath
 
     def getMuxedMediaPath(self):
         mediaPath = None
         for AS in self.adaptation_sets:
-            if AS.contentType == "video":
-                mediaPath = AS.media.replace("$RepresentationID$", self.muxed_rep).replace("$Number$", "%d")
+            if AS.content_type == "video":
+                mediaPath = AS.media_pattern.replace("$RepresentationID$", self.muxed_rep).replace("$Number$", "%d")
         return mediaPath
 
     def process(self, mpdData={}):
@@ -296,7 +296,7 @@ class MpdProcessor(MpdElement):
         MPD = self.root
         MPD.set('type', "dynamic")
         for key in data.keys():
-            self.setValue(MPD, key, data)
+            self.set_value(MPD, key, data)
         if 'mediaPresentationDuration' in MPD.attrib:
             del MPD.attrib['mediaPresentationDuration']
         for child in MPD:
@@ -318,9 +318,9 @@ class MpdProcessor(MpdElement):
                     if self.compare_tag(grandChild.tag, 'AdaptationSet'):
                         AS = AdaptationSet(grandChild)
                         AS.parse()
-                        if AS.contentType == "audio":
+                        if AS.content_type == "audio":
                             audioAS = grandChild
-                        elif AS.contentType == "video":
+                        elif AS.content_type == "video":
                             videoAS = grandChild
 
         for contentType, mData in mediaData.items():
-- 
2.43.0


From eeb9c5539922a6f835b92967a24ef2f866681add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:45 +0000
Subject: [PATCH 38/49] fix: stpp segments are bytes

---
 dashlivesim/dashlib/stpp_generator/stpp_creator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/stpp_generator/stpp_creator.py b/dashlivesim/dashlib/stpp_generator/stpp_creator.py
index 26858c9..4a35ad2 100644
--- a/dashlivesim/dashlib/stpp_generator/stpp_creator.py
+++ b/dashlivesim/dashlib/stpp_generator/stpp_creator.py
@@ -35,7 +35,7 @@ from dashlivesim.dashlib.mp4filter import MP4Filter
 from dashlivesim.dashlib.structops import uint32_to_str, str_to_uint32, uint64_to_str
 
 
-TTML_MEDIA_TMPL = '\x00\x00\x00\x18stypmsdh\x00\x00\x00\x00msdhdash\x00\x00\x00`moof\x00\x00\x00\x10mfhd\x00\x00\
+TTML_MEDIA_TMPL = b'\x00\x00\x00\x18stypmsdh\x00\x00\x00\x00msdhdash\x00\x00\x00`moof\x00\x00\x00\x10mfhd\x00\x00\
 \x00\x00\x00\x00\x00\x01\x00\x00\x00Htraf\x00\x00\x00\x18tfhd\x00\x02\x00\x18\x00\x00\x00\x03\x00\x00\x03\xe8\x00\
 \x00\x00\t\x00\x00\x00\x14tfdt\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x14trun\x00\x00\x00\
 \x01\x00\x00\x00\x01\x00\x00\x00h\x00\x00\x00\x08mdat'
@@ -43,7 +43,7 @@ TTML_MEDIA_TMPL = '\x00\x00\x00\x18stypmsdh\x00\x00\x00\x00msdhdash\x00\x00\x00`
 TIMESCALE = 1000  # This is the units for tfdt time and durations.
 TRACK_ID = 3
 # The init has sample_time_scale and trackID according to the values above
-TTML_INIT = '\x00\x00\x00\x18ftypiso6\x00\x00\x00\x01isomdash\x00\x00\x02\x9dmoov\x00\x00\x00lmvhd\x00\x00\x00\x00\
+TTML_INIT = b'\x00\x00\x00\x18ftypiso6\x00\x00\x00\x01isomdash\x00\x00\x02\x9dmoov\x00\x00\x00lmvhd\x00\x00\x00\x00\
 \x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xc8\x00\x00\x00\x00\x00\x01\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\
 \x00\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\
 \x00\x00\x00\x00\x00\x00@\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\
@@ -146,7 +146,7 @@ class StppMediaFilter(MP4Filter):
 
     def process_tfdt(self, data):
         "Process a tfdt box and set the baseMediaDecodeTime."
-        version = ord(data[8])
+        version = data[8]
         assert version == 1, "Can only handle tfdt version 1 (64-bit tfdt)."
         output = data[:12]
         output += uint64_to_str(self.tfdt_time)
-- 
2.43.0


From 335e784e506201cefca6450d95782e019f383db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:47 +0000
Subject: [PATCH 39/49] fix: size and encoding of handler names in stpp init
 segments

---
 dashlivesim/dashlib/stpp_generator/stpp_creator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/stpp_generator/stpp_creator.py b/dashlivesim/dashlib/stpp_generator/stpp_creator.py
index 4a35ad2..203d1e8 100644
--- a/dashlivesim/dashlib/stpp_generator/stpp_creator.py
+++ b/dashlivesim/dashlib/stpp_generator/stpp_creator.py
@@ -228,7 +228,8 @@ class StppInitFilter(MP4Filter):
         hdlr_name = data[32:-1]  # Actually UTF-8 encoded
         print("Found hdlr %s: %s" % (hdlr, hdlr_name))
         if self.handler_name:
-            output = uint32_to_str(len(self.handler_name) + 33) + data[4:32] + self.handler_name + '\x00'
+            handler_name = self.handler_name.encode('utf-8')
+            output = uint32_to_str(len(handler_name) + 33) + data[4:32] + handler_name + b'\x00'
             print("Wrote hdlr %s" % self.handler_name)
         else:
             output = data
-- 
2.43.0


From 3b49319e4c82f02e4e2e1cef13eb9e6a0dac6749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:48 +0000
Subject: [PATCH 40/49] fix: timescale of generated stpp init segments followed
 the subtitle resolution

---
 dashlivesim/dashlib/stpp_generator/make_stpp_segments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/stpp_generator/make_stpp_segments.py b/dashlivesim/dashlib/stpp_generator/make_stpp_segments.py
index 1a148b8..a4afde0 100644
--- a/dashlivesim/dashlib/stpp_generator/make_stpp_segments.py
+++ b/dashlivesim/dashlib/stpp_generator/make_stpp_segments.py
@@ -80,7 +80,7 @@ class SegmentCreator(object):
         # Create init segment
         init_segment_path = os.path.join(self.output_path, "init.mp4")
         with open(init_segment_path, 'wb') as iof:
-            initfilter = StppInitFilter(self.language, self.trackid, self.resolution)
+            initfilter = StppInitFilter(self.language, self.trackid)
             initseg = initfilter.filter()
             iof.write(initseg)
 
-- 
2.43.0


From 0f802c3d1db68c5736e747e6bb7fbd1928ac1110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:59 +0000
Subject: [PATCH 41/49] fix: track id of the trex box in stpp init segments

---
 dashlivesim/dashlib/stpp_generator/stpp_creator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/stpp_generator/stpp_creator.py b/dashlivesim/dashlib/stpp_generator/stpp_creator.py
index 203d1e8..f4d76fb 100644
--- a/dashlivesim/dashlib/stpp_generator/stpp_creator.py
+++ b/dashlivesim/dashlib/stpp_generator/stpp_creator.py
@@ -171,7 +171,7 @@ class StppInitFilter(MP4Filter):
         self.creation_modfication_time = creation_modfication_time  # Measured from 1904-01-01 in seconds
         self.handler_name = hdlr_name
         self.top_level_boxes_to_parse = [b'moov']
-        self.composite_boxes_to_parse = [b'moov', b'trak', b'mdia', b'minf', b'dinf']
+        self.composite_boxes_to_parse = [b'moov', b'mvex', b'trak', b'mdia', b'minf', b'dinf']
 
     def process_mvhd(self, data):
         "Set nextTrackId and time and movie timescale."
@@ -181,6 +181,10 @@ class StppInitFilter(MP4Filter):
         output += uint32_to_str(self.track_id + 1)  # next_track_ID
         return output
 
+    def process_trex(self, data):
+        "Set trackID."
+        return data[:12] + uint32_to_str(self.track_id) + data[16:]
+
     def process_tkhd(self, data):
         "Set trackID and time."
         version = data[8]
-- 
2.43.0


From db00d4848c4bc39dc4159a15d0ab619bd2606674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:09 +0000
Subject: [PATCH 42/49] fix: first sample flags dropped from the trun box when
 captions are inserted

---
 dashlivesim/cc_inserter/cc_inserter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dashlivesim/cc_inserter/cc_inserter.py b/dashlivesim/cc_inserter/cc_inserter.py
index 50c3e81..02bd482 100644
--- a/dashlivesim/cc_inserter/cc_inserter.py
+++ b/dashlivesim/cc_inserter/cc_inserter.py
@@ -121,8 +121,9 @@ class CCInsertFilter(MP4Filter):
             self.trun_offset = str_to_uint32(data[16:20])
             output += uint32_to_str(self.trun_offset)
             pos += 4
-        if flags & 0x4:
-            pos += 4  # First sample flags present
+        if flags & 0x4:  # First sample flags present
+            output += data[pos:pos+4]
+            pos += 4
 
         sample_duration_present = flags & 0x100
         sample_size_present = flags & 0x200
-- 
2.43.0


From 2c0bafa5c48fdb06a5603575c127d775fc0c060c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:11 +0000
Subject: [PATCH 43/49] fix: minutes and seconds of caption times of one hour
 and more

---
 dashlivesim/cc_inserter/cc_inserter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/cc_inserter/cc_inserter.py b/dashlivesim/cc_inserter/cc_inserter.py
index 02bd482..0f3d2f2 100644
--- a/dashlivesim/cc_inserter/cc_inserter.py
+++ b/dashlivesim/cc_inserter/cc_inserter.py
@@ -257,7 +257,7 @@ def transform_time(tim):
         seconds = tim//90000
         milis = int((tim % 90000)/90.0)
         hours = seconds//3600
-        minutes = seconds//60
+        minutes = seconds//60 - hours*60
         seconds -= hours*3600 + minutes*60
         newtime = "%02d:%02d:%02d.%03d" % (hours, minutes, seconds, milis)
     return newtime
-- 
2.43.0


From 17a751f89742421f59cd48e00a22213e282a8f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:20 +0000
Subject: [PATCH 44/49] fix: empty run with composition offsets at the end of a
 segment

---
 dashlivesim/dashlib/mp4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/mp4.py b/dashlivesim/dashlib/mp4.py
index 4915802..f9b409d 100755
--- a/dashlivesim/dashlib/mp4.py
+++ b/dashlivesim/dashlib/mp4.py
@@ -1283,7 +1283,7 @@ class trun_box(full_box):
             sample_duration = self.parent.find(b'tfhd').default_sample_duration
             self.total_duration = sample_duration * self.sample_count
 
-        if self.has_sample_composition_time_offset:
+        if self.has_sample_composition_time_offset and self.sample_count:
             offset = (self.offset + self.sample_array_offset +
                       (self.has_sample_duration and 4) +
                       (self.has_sample_size and 4) +
-- 
2.43.0


From 33023e16fc0aa9aa3436febc527b2143e5cfd80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:40 +0000
Subject: [PATCH 45/49] fix: analyzer loop beyond the last segment common to
 all representations

---
 dashlivesim/vodanalyzer/dashanalyzer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/vodanalyzer/dashanalyzer.py b/dashlivesim/vodanalyzer/dashanalyzer.py
index 299821b..963108e 100644
--- a/dashlivesim/vodanalyzer/dashanalyzer.py
+++ b/dashlivesim/vodanalyzer/dashanalyzer.py
@@ -149,6 +149,9 @@ class DashAnalyzer(object):
         """Check all segments for good values and return startTimes and total duration."""
         lastGoodSegments = []
 
+        # The loop ends with the last segment that all representations have
+        lastCommonNr = min(rep_data['lastNumber'] for as_data in self.as_data.values() for rep_data in as_data['reps'])
+
         print("Checking all the media segment durations for deviations.")
 
         def writeSegTiming(ofh, firstSegmentInRepeat, firstStartTimeInRepeat, duration, repeatCount):
@@ -191,7 +194,7 @@ class DashAnalyzer(object):
                     lastDuration = 0
                     while (True):
                         segmentPath = rep_data['absMediaPath'] % segNr
-                        if not os.path.exists(segmentPath):
+                        if segNr > lastCommonNr or not os.path.exists(segmentPath):
                             if self.verbose:
                                 print("\nLast good %s segment is %d, endTime=%.3fs, totalTime=%.3fs" % (
                                       rep_id, rep_data['endNr'], rep_data['endTime'],
-- 
2.43.0


From 3151b4e25823e27d786ab408dd08f0cad8829aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:00 +0000
Subject: [PATCH 46/49] fix: SegmentTimeline entries of windows that span a
 wrap of the loop

---
 dashlivesim/dashlib/segtimeline.py | 47 ++++++++++++------------------
 1 file changed, 19 insertions(+), 28 deletions(-)

diff --git a/dashlivesim/dashlib/segtimeline.py b/dashlivesim/dashlib/segtimeline.py
index c35e134..608311b 100644
--- a/dashlivesim/dashlib/segtimeline.py
+++ b/dashlivesim/dashlib/segtimeline.py
@@ -114,35 +114,26 @@ class SegmentTimeLineGenerator(object):
         if (start_tics_end < start_tics):
             return seg_timeline  # Empty timeline in this case
         # print("start time %d %d %d" % (start_tics, start, start - start_tics))
-        repeat_index = end_index
-        nr_wraps = end_wraps
-        # Create the S elements in backwards order
-        while repeat_index != start_index or nr_wraps != start_wraps:
-            seg_data = self.segtimedata[repeat_index]
-            # print(repeat_index, start_index, nr_wraps, start_wraps)
-            if repeat_index == end_index:
-                s_elem = self.generate_s_elem(None, seg_data.duration, end_repeats)
+        self.start_number = self.get_seg_number(start_wraps, start_index, start_repeats)
+        index, repeats, nr_wraps = start_index, start_repeats, start_wraps
+        next_tics = None
+        while (nr_wraps, index) <= (end_wraps, end_index):
+            seg_data = self.segtimedata[index]
+            if (nr_wraps, index) == (end_wraps, end_index):
+                last_repeats = end_repeats
             else:
-                s_elem = self.generate_s_elem(None, seg_data.duration, seg_data.repeats)
-            seg_timeline.insert(0, s_elem)
-            repeat_index -= 1
-            if repeat_index < 0:
-                nr_wraps -= 1
-                repeat_index = len(self.segtimedata) - 1
-        # Now at first entry corresponding to start_index and start_wraps
-        seg_data = self.segtimedata[start_index]
-        seg_start_time = self.get_seg_starttime(nr_wraps, start_index, start_repeats)
-        if start_index != end_index:
-            nr_repeats = seg_data.repeats - start_repeats
-        elif len(self.segtimedata) == 1 and end_repeats < start_repeats:
-            nr_repeats = (self.segtimedata[0].repeats + end_repeats -
-                          start_repeats)
-        else:  # There was only one entry which was repeated
-            nr_repeats = end_repeats - start_repeats
-        s_elem = self.generate_s_elem(seg_start_time, seg_data.duration, nr_repeats)
-        seg_timeline.insert(0, s_elem)
-        self.start_number = self.get_seg_number(nr_wraps, start_index,
-                                                start_repeats)
+                last_repeats = seg_data.repeats
+            seg_start_time = self.get_seg_starttime(nr_wraps, index, repeats)
+            # The time is only needed for the first entry and where the segments are not contiguous
+            s_elem = self.generate_s_elem(seg_start_time if seg_start_time != next_tics else None,
+                                          seg_data.duration, last_repeats - repeats)
+            seg_timeline.append(s_elem)
+            next_tics = self.get_seg_endtime(nr_wraps, index, last_repeats)
+            repeats = 0
+            index += 1
+            if index == len(self.segtimedata):
+                index = 0
+                nr_wraps += 1
         return seg_timeline
 
     def get_seg_starttime(self, nr_wraps, index, repeats):
-- 
2.43.0


From e5cc24360dc6a117ba474b84e29cfdd5eb780b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:02 +0000
Subject: [PATCH 47/49] fix: closest start of a SegmentTimeline was the last
 repeat of the next entry

---
 dashlivesim/dashlib/segtimeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/segtimeline.py b/dashlivesim/dashlib/segtimeline.py
index 608311b..5fdd885 100644
--- a/dashlivesim/dashlib/segtimeline.py
+++ b/dashlivesim/dashlib/segtimeline.py
@@ -188,7 +188,7 @@ class SegmentTimeLineGenerator(object):
         if index >= len(self.interval_starts):
             index = 0
             nr_wraps += 1
-        return index, self.segtimedata[index].repeats, nr_wraps
+        return index, 0, nr_wraps
 
     def find_closest_end(self, act_time):
         "Find "
-- 
2.43.0


From b58ccda019c74c6349679068066ecc2d36c56761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:20 +0000
Subject: [PATCH 48/49] fix: SegmentTimeline started with a segment beyond the
 last repeat of an entry or one that ended at the start of the window

---
 dashlivesim/dashlib/segtimeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/segtimeline.py b/dashlivesim/dashlib/segtimeline.py
index 5fdd885..9074a69 100644
--- a/dashlivesim/dashlib/segtimeline.py
+++ b/dashlivesim/dashlib/segtimeline.py
@@ -161,7 +161,7 @@ class SegmentTimeLineGenerator(object):
         seg_data = self.segtimedata[index]
         repeats = 0
         accumulated_end_time = seg_data.start_time + seg_data.duration
-        while accumulated_end_time < rel_time:
+        while repeats < seg_data.repeats and accumulated_end_time <= rel_time:
             accumulated_end_time += seg_data.duration
             repeats += 1
         return index, repeats, nr_wraps
-- 
2.43.0


From cafee10fdb2cde8af138ccf660923b4e3d61a98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:01 +0000
Subject: [PATCH 49/49] fix: SegmentTimeline of content that does not start at
 time zero listed segments of the wrong loop

---
 dashlivesim/dashlib/segtimeline.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/dashlivesim/dashlib/segtimeline.py b/dashlivesim/dashlib/segtimeline.py
index 9074a69..892466d 100644
--- a/dashlivesim/dashlib/segtimeline.py
+++ b/dashlivesim/dashlib/segtimeline.py
@@ -82,6 +82,8 @@ class SegmentTimeLineGenerator(object):
 
         (end_index, end_repeats, end_wraps) = self.find_latest_starting_before(end)
         if end_index is None:
+            if end >= 0:
+                return seg_timeline  # No segment has started yet
             raise SegmentTimeLineGeneratorError("No end_index for %d %d. Before AST" % (start_time, end_time))
         end_tics = self.get_seg_endtime(end_wraps, end_index, end_repeats)
         # print("end_time %d %d" % (end, end_tics))
@@ -107,6 +109,8 @@ class SegmentTimeLineGenerator(object):
             result = self.find_closest_start(start)
         else:
             result = self.find_latest_starting_before(start)
+        if result[0] is None:
+            result = (0, 0, 0)  # The first segment starts after start
         (start_index, start_repeats, start_wraps) = result
         # print("start %d %d %d" % (start_index, start_repeats, start_wraps))
         start_tics = self.get_seg_starttime(start_wraps, start_index, start_repeats)
@@ -152,11 +156,17 @@ class SegmentTimeLineGenerator(object):
         seg_data = self.segtimedata[index]
         return nr_wraps*self.wrap_duration + seg_data.start_time + (repeats+1)*seg_data.duration
 
+    def wraps_and_time(self, act_time):
+        "Get the number of complete loops before act_time and its time in the loop, which starts with the first segment."
+        loop_start = self.interval_starts[0]
+        nr_wraps, loop_time = divmod(act_time - loop_start, self.wrap_duration)
+        return nr_wraps, loop_start + loop_time
+
     def find_latest_starting_before(self, act_time):
         "Find the latest segment starting before act_time."
-        nr_wraps, rel_time = divmod(act_time, self.wrap_duration)
+        nr_wraps, rel_time = self.wraps_and_time(act_time)
         if nr_wraps < 0:
-            return (None, None, None)  # This is before AST
+            return (None, None, None)  # This is before the first segment
         index = bisect.bisect(self.interval_starts, rel_time) - 1
         seg_data = self.segtimedata[index]
         repeats = 0
@@ -167,9 +177,9 @@ class SegmentTimeLineGenerator(object):
         return index, repeats, nr_wraps
 
     def find_closest_start(self, act_time):
-        nr_wraps, rel_time = divmod(act_time, self.wrap_duration)
+        nr_wraps, rel_time = self.wraps_and_time(act_time)
         if nr_wraps < 0:
-            return (None, None, None)  # This is before AST
+            return (None, None, None)  # This is before the first segment
         index = bisect.bisect(self.interval_starts, rel_time) - 1
         seg_data = self.segtimedata[index]
         repeats = 0
@@ -192,9 +202,9 @@ class SegmentTimeLineGenerator(object):
 
     def find_closest_end(self, act_time):
         "Find "
-        nr_wraps, rel_time = divmod(act_time, self.wrap_duration)
+        nr_wraps, rel_time = self.wraps_and_time(act_time)
         if nr_wraps < 0:
-            return (None, None, None)  # This is before AST
+            return (None, None, None)  # This is before the first segment
         index = bisect.bisect(self.interval_starts, rel_time) - 1
         seg_data = self.segtimedata[index]
         repeats = 0
-- 
2.43.0

