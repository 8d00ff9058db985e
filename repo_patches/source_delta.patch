From f6f608c6552647ba714c2eda84ec04feaded2a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:20 +0000
Subject: [PATCH 01/15] fix: decode the second level of a cruise climb in full
 for every speed/level form

---
 F15_Parser/F15Parse.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index 1e7c25d..44899f5 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -548,21 +548,21 @@ class ParseF15:
                     TokenSubType.F15_SB_SPEED_ALTITUDE_NMF | TokenSubType.F15_SB_SPEED_ALTITUDE_NMS | \
                     TokenSubType.F15_SB_SPEED_ALTITUDE_NMA | TokenSubType.F15_SB_SPEED_ALTITUDE_NMM:
                 self.assign_altitude(ers, token, ex_route_rec, token_string[5:10], False)
-                self.assign_altitude(ers, token, ex_route_rec, token_string[11:], True)
+                self.assign_altitude(ers, token, ex_route_rec, token_string[10:], True)
                 self.assign_speed(ex_route_rec, token_string[0:5])
             case TokenSubType.F15_SB_SPEED_ALTITUDE_MFF | TokenSubType.F15_SB_SPEED_ALTITUDE_MFS | \
                     TokenSubType.F15_SB_SPEED_ALTITUDE_MFA | TokenSubType.F15_SB_SPEED_ALTITUDE_MFM | \
                     TokenSubType.F15_SB_SPEED_ALTITUDE_MAF | TokenSubType.F15_SB_SPEED_ALTITUDE_MAS | \
                     TokenSubType.F15_SB_SPEED_ALTITUDE_MAA | TokenSubType.F15_SB_SPEED_ALTITUDE_MAM:
                 self.assign_altitude(ers, token, ex_route_rec, token_string[4:8], False)
-                self.assign_altitude(ers, token, ex_route_rec, token_string[9:], True)
+                self.assign_altitude(ers, token, ex_route_rec, token_string[8:], True)
                 self.assign_speed(ex_route_rec, token_string[0:4])
             case TokenSubType.F15_SB_SPEED_ALTITUDE_MSF | TokenSubType.F15_SB_SPEED_ALTITUDE_MSS | \
                     TokenSubType.F15_SB_SPEED_ALTITUDE_MSA | TokenSubType.F15_SB_SPEED_ALTITUDE_MSM | \
                     TokenSubType.F15_SB_SPEED_ALTITUDE_MMF | TokenSubType.F15_SB_SPEED_ALTITUDE_MMS | \
                     TokenSubType.F15_SB_SPEED_ALTITUDE_MMA | TokenSubType.F15_SB_SPEED_ALTITUDE_MMM:
                 self.assign_altitude(ers, token, ex_route_rec, token_string[4:9], False)
-                self.assign_altitude(ers, token, ex_route_rec, token_string[10:], True)
+                self.assign_altitude(ers, token, ex_route_rec, token_string[9:], True)
                 self.assign_speed(ex_route_rec, token_string[0:4])
             case _:
                 self.assign_altitude(ers, token, ex_route_rec, "X000", False)
-- 
2.43.0


From 079498e0367d8e0402890b81939b33e0aedc136f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 02/15] fix: recognise cruise climb elements from an 'A' level
 in knots, and subtype K/F/A correctly

---
 F15_Parser/F15TokenSyntaxDescriptions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/F15_Parser/F15TokenSyntaxDescriptions.py b/F15_Parser/F15TokenSyntaxDescriptions.py
index ebb3cfb..c3e634d 100644
--- a/F15_Parser/F15TokenSyntaxDescriptions.py
+++ b/F15_Parser/F15TokenSyntaxDescriptions.py
@@ -319,11 +319,11 @@ class F15TokenSyntaxDefinition:
          TokenSubType.F15_SB_SPEED_ALTITUDE_NSM],
         ["N[0-9]{4}A[0-9]{3}F[0-9]{3}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
          TokenSubType.F15_SB_SPEED_ALTITUDE_NAF],
-        ["N[0-9]{4}A[0-9]{4}S[0-9]{4}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
+        ["N[0-9]{4}A[0-9]{3}S[0-9]{4}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
          TokenSubType.F15_SB_SPEED_ALTITUDE_NAS],
         ["N[0-9]{4}A[0-9]{3}A[0-9]{3}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
          TokenSubType.F15_SB_SPEED_ALTITUDE_NAA],
-        ["N[0-9]{4}A[0-9]{4}M[0-9]{4}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
+        ["N[0-9]{4}A[0-9]{3}M[0-9]{4}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
          TokenSubType.F15_SB_SPEED_ALTITUDE_NAM],
         ["N[0-9]{4}M[0-9]{4}F[0-9]{3}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
          TokenSubType.F15_SB_SPEED_ALTITUDE_NMF],
@@ -338,7 +338,7 @@ class F15TokenSyntaxDefinition:
         ["K[0-9]{4}F[0-9]{3}S[0-9]{4}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
          TokenSubType.F15_SB_SPEED_ALTITUDE_KFS],
         ["K[0-9]{4}F[0-9]{3}A[0-9]{3}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
-         TokenSubType.F15_SB_SPEED_ALTITUDE_KFS],
+         TokenSubType.F15_SB_SPEED_ALTITUDE_KFA],
         ["K[0-9]{4}F[0-9]{3}M[0-9]{4}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
          TokenSubType.F15_SB_SPEED_ALTITUDE_KFM],
         ["K[0-9]{4}S[0-9]{4}F[0-9]{3}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
-- 
2.43.0


From 31d083bfc1aec8536cdb82b0b030cda77913b4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:39 +0000
Subject: [PATCH 03/15] fix: escape field 15 text written to the XML output

---
 F15_Parser/ExtractedRouteRecord.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/F15_Parser/ExtractedRouteRecord.py b/F15_Parser/ExtractedRouteRecord.py
index 1fb9f8a..30c6ef2 100644
--- a/F15_Parser/ExtractedRouteRecord.py
+++ b/F15_Parser/ExtractedRouteRecord.py
@@ -1,3 +1,6 @@
+import re
+from xml.sax.saxutils import escape
+
 from F15_Parser.F15TokenSyntaxDescriptions import TokenBaseType, TokenSubType
 
 
@@ -531,6 +534,17 @@ class ExtractedRouteRecord:
                " {0:<91}".format(error_or_break)
         return str_
 
+    @staticmethod
+    def xml_text(text):
+        # type: (str) -> str
+        """This method escapes text taken from field 15 for use as XML character data or as an XML
+        attribute value; characters that XML does not permit are output as U+FFFD.
+
+        :param text: The text to escape;
+        :return: The text in a form that can be written to an XML document."""
+        text = re.sub("[^\t\n\r\\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]", "\ufffd", text)
+        return escape(text, {"\"": "&quot;", "\t": "&#9;", "\n": "&#10;", "\r": "&#13;"})
+
     def as_xml(self, error):
         # type: (bool) -> str
         """This method converts an ERS record into an XML string; the method is called from the
@@ -566,5 +580,5 @@ class ExtractedRouteRecord:
                " altitude_cruise_to_si=\"" + "{0:.2f}".format(self.get_altitude_cruise_to_si()) + "\"" + \
                " latitude=\"" + "{0:>.2f}".format(self.get_latitude()) + "\"" + \
                " longitude=\"" + "{0:>.2f}".format(self.get_longitude()) + "\"" + \
-               " " + attr_name + "=\"" + error_or_break + "\"" + \
-               ">" + self.get_name() + "</" + rec_type + ">"
+               " " + attr_name + "=\"" + self.xml_text(error_or_break) + "\"" + \
+               ">" + self.xml_text(self.get_name()) + "</" + rec_type + ">"
-- 
2.43.0


From 4a1deafa38215d49d54ee16af3fe24adec7fb64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:41 +0000
Subject: [PATCH 04/15] fix: get_element_at() returns None for the index one
 past the last record

---
 F15_Parser/ExtractedRouteSequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/F15_Parser/ExtractedRouteSequence.py b/F15_Parser/ExtractedRouteSequence.py
index e6a8ad2..a81e737 100644
--- a/F15_Parser/ExtractedRouteSequence.py
+++ b/F15_Parser/ExtractedRouteSequence.py
@@ -147,7 +147,7 @@ class ExtractedRouteSequence:
 
         :param index: The index of the extracted route record to be retrieved;
         :return: An instance of ExtractedRouteRecord located at index provided or None if index is out of range;"""
-        if index < 0 or index > self.get_number_of_elements():
+        if index < 0 or index >= self.get_number_of_elements():
             return None
         return self.extracted_route_records[index]
 
-- 
2.43.0


From 1b1722d71cf17d170ede61cbe6d6b36aa5cfd5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:43 +0000
Subject: [PATCH 05/15] fix: keep a lat/long reported after an ATS route at its
 place in the route

---
 F15_Parser/F15Parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index 44899f5..3f9babf 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -1380,7 +1380,7 @@ class ParseF15:
                 if sub_type == TokenSubType.F15_SB_PRP_BD or sub_type == TokenSubType.F15_SB_LL_DEG or \
                     sub_type == TokenSubType.F15_SB_LL_MIN or sub_type == TokenSubType.F15_SB_LLBD_DEG or \
                         sub_type == TokenSubType.F15_SB_LLBD_MIN:
-                    self.add_error_and_re_sync(ers, tokens, next_token, 48)
+                    self.add_error_no_re_sync(ers, next_token, 48)
                 self.point(ers, tokens, next_token)
             case TokenBaseType.F15_ROUTE:
                 self.add_error_and_re_sync(ers, tokens, next_token, 53)
-- 
2.43.0


From 1add595c2dbcc769be1c3406224258788eb1fd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:46 +0000
Subject: [PATCH 06/15] fix: do not measure a leg across an intermediate point
 without coordinates

---
 F15_Parser/F15Parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index 3f9babf..c9f8f0d 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -249,7 +249,7 @@ class ParseF15:
                 # Set azimuth and distance between the two points at the previous
                 # point.
                 self.set_azimuth_and_distance(last_but_one_ers, last_ers)
-            else:
+            elif last_but_one_ers.get_base_type() not in (TokenBaseType.F15_POINT, TokenBaseType.F15_C):
                 # Go back one more ERS element and check if this is a point
                 last_minus_two_ers = ers.get_element_at(ers.get_number_of_elements()-3)
                 if last_minus_two_ers is None:
-- 
2.43.0


From cc3ba416804754c59913c59c9b0e6de02e38af67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:48 +0000
Subject: [PATCH 07/15] fix: decode and check the coordinates of a single point
 IFR section

---
 F15_Parser/F15Parse.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index c9f8f0d..f935366 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -1675,6 +1675,11 @@ class ParseF15:
         token = tokens.get_next_token()
         ex_route_rec = self.add_record(ers, token)
 
+        # Check lat/long and bearing distance semantics
+        if token.get_token_sub_type() != TokenSubType.F15_SB_PRP and \
+                token.get_token_sub_type() != TokenSubType.F15_SB_PRP_AERO:
+            self.assign_lat_long_bearing_distance(ers, token)
+
         # As this rule change is VFR to IFR and this is a speed altitude element,
         # the rules must be IFR
         ex_route_rec.set_flight_rules(self.RULES["I"])
-- 
2.43.0


From 51ceb2fec5452fb0e76c8675171b58eb8b56fba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:25 +0000
Subject: [PATCH 08/15] fix: an over-long token inside a break section no
 longer ends that section

---
 F15_Parser/F15Parse.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index f935366..516a62b 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -812,11 +812,7 @@ class ParseF15:
         next_token = tokens.get_next_token()
         if next_token is None:
             return
-        base_type = next_token.get_token_base_type()
-        if base_type is TokenBaseType.F15_TOO_LONG:
-            self.add_error_and_re_sync(ers, tokens, next_token, 4)
-        else:
-            self.break_text_save(ers, tokens, next_token)
+        self.break_text_save(ers, tokens, next_token)
 
     def break_text_save(self, ers, tokens, token):
         # type: (ExtractedRouteSequence, Tokens, Token) -> None
@@ -836,7 +832,7 @@ class ParseF15:
         """
         base_type = token.get_token_base_type()
         if base_type is TokenBaseType.F15_TOO_LONG:
-            self.add_error_and_re_sync(ers, tokens, token, 4)
+            self.add_error_no_re_sync(ers, token, 4)
 
         # Save the token as break text
         last_ers = ers.get_last_element()
-- 
2.43.0


From bc68910e4023fa6dc12a81a7bb75646b132f15ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:27 +0000
Subject: [PATCH 09/15] fix: report a cruise climb whose 'C/' is not followed
 by a point and '/', once

---
 F15_Parser/F15Parse.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index 516a62b..fd006b7 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -970,6 +970,11 @@ class ParseF15:
         :param token: The point in a cruise/climb element;
         :return: None
         """
+        # Only a point can start a cruise / climb, ('C' on its own is a single character point)
+        if token.get_token_base_type() not in (TokenBaseType.F15_POINT, TokenBaseType.F15_C):
+            self.add_error_and_re_sync(ers, tokens, token, 18)
+            return
+
         # Save the cruise / climb point
         self.add_record(ers, token)
 
@@ -984,6 +989,7 @@ class ParseF15:
         base_type = next_token.get_token_base_type()
         if base_type is not TokenBaseType.F15_SLASH:
             self.add_error_and_re_sync(ers, tokens, next_token, 26)
+            return
 
         # Skip the forward slash and get the SPEED/ALTITUDE/ALTITUDE or
         # SPEED / ALTITUDE / PLUS token
-- 
2.43.0


From 9dd141e9ed52ca53ee4160bf557de2aee0062922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:29 +0000
Subject: [PATCH 10/15] fix: an ATS route after a STAY at a lat/long point is
 reported like after any lat/long point

---
 F15_Parser/F15Parse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index fd006b7..5eb482b 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -1588,7 +1588,8 @@ class ParseF15:
             case TokenBaseType.F15_POINT:
                 self.point(ers, tokens, next_token)
             case TokenBaseType.F15_ROUTE:
-                self.route(ers, tokens, next_token)
+                # Post point processing checks the type of point an ATS route may follow
+                self.post_point(ers, tokens, next_token)
             case TokenBaseType.F15_SID_STAR:
                 self.sid_star(ers, tokens, next_token)
             case TokenBaseType.F15_TOO_LONG:
-- 
2.43.0


From 5783ec0074d9986fb143d0593e921d4865f2ace4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 11/15] fix: report a lat/long cruise climb point that follows
 an ATS route

---
 F15_Parser/F15Parse.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index 5eb482b..cecba4d 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -975,6 +975,12 @@ class ParseF15:
             self.add_error_and_re_sync(ers, tokens, token, 18)
             return
 
+        # A Lat/Long point cannot follow an ATS route
+        if ers.get_last_element().get_base_type() is TokenBaseType.F15_ROUTE and token.get_token_sub_type() in (
+                TokenSubType.F15_SB_PRP_BD, TokenSubType.F15_SB_LL_DEG, TokenSubType.F15_SB_LL_MIN,
+                TokenSubType.F15_SB_LLBD_DEG, TokenSubType.F15_SB_LLBD_MIN):
+            self.add_error_no_re_sync(ers, token, 48)
+
         # Save the cruise / climb point
         self.add_record(ers, token)
 
-- 
2.43.0


From 175c35ccf5bdaf6a7f96053748539d4f63bdf673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:02 +0000
Subject: [PATCH 12/15] fix: carry on parsing after an IFR, GAT or IFPSTART met
 while re-synchronising

---
 F15_Parser/F15Parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index cecba4d..adc3a22 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -1312,6 +1312,8 @@ class ParseF15:
                 self.assign_speed_vfr(ers, tokens, token)
             case TokenBaseType.F15_BREAK_END:
                 self.break_end(ers, tokens, token)
+                # The remainder is still to be parsed if this was not a rule change
+                self.re_sync_parser_after_error(ers, tokens)
             case TokenBaseType.F15_DCT:
                 self.dct(ers, tokens, token)
             case TokenBaseType.F15_STAY:
-- 
2.43.0


From 7a2bfb8e58d4f186a01a06c1ca9cdb90cc4a1cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:02 +0000
Subject: [PATCH 13/15] fix: the example program imports the parser from its
 package

---
 main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/main.py b/main.py
index 8c65f08..5a130e3 100644
--- a/main.py
+++ b/main.py
@@ -1,5 +1,5 @@
-from Parser.ExtractedRouteSequence import ExtractedRouteSequence
-from Parser.F15Parse import ParseF15
+from F15_Parser.ExtractedRouteSequence import ExtractedRouteSequence
+from F15_Parser.F15Parse import ParseF15
 from Tokenizer.Tokenize import Tokenize
 
 # Example usage of the ICAO field 15 parser.
-- 
2.43.0


From 0e86a9adcbc507d27e26c9fa77cb4f82c9a76f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:48 +0000
Subject: [PATCH 14/15] fix: reset the target level in metres when a cruise
 climb target is PLUS

---
 F15_Parser/F15Parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index adc3a22..f4798b6 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -598,6 +598,8 @@ class ParseF15:
             return
         token_string = token.get_token_string()
         sub_type = token.get_token_sub_type()
+        # There is no level to climb to, remove any from an earlier cruise / climb at this point
+        ex_route_rec.set_altitude_cruise_to_si(0.0)
         match sub_type:
             case TokenSubType.F15_SB_SPEED_ALTITUDE_KF_P | TokenSubType.F15_SB_SPEED_ALTITUDE_KA_P | \
                  TokenSubType.F15_SB_SPEED_ALTITUDE_NF_P | TokenSubType.F15_SB_SPEED_ALTITUDE_NA_P:
-- 
2.43.0


From 0b17a812d79aeea72c4414cd134782d470a98dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:32 +0000
Subject: [PATCH 15/15] fix: clear the derived flight rules when a route
 sequence is re-initialised

---
 F15_Parser/ExtractedRouteSequence.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/F15_Parser/ExtractedRouteSequence.py b/F15_Parser/ExtractedRouteSequence.py
index a81e737..750e50f 100644
--- a/F15_Parser/ExtractedRouteSequence.py
+++ b/F15_Parser/ExtractedRouteSequence.py
@@ -24,6 +24,7 @@ class ExtractedRouteSequence:
             :return: None"""
         self.extracted_route_records = []
         self.error_records = []
+        self.derived_flight_rules = ""
         # Create a dummy record that will be used for the ADEP
         self.add_dummy_adep_ades("ADEP")
 
-- 
2.43.0

