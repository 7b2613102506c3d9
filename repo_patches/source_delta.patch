From 3c14aac2bceed6b7cf19cfd03284316a0b59bf20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:32 +0000
Subject: [PATCH 01/58] fix: http_get keeps the requested name for complete
 downloads only

A forced refresh truncated the existing file before the transfer started, a
process dying during the transfer left a fragment that a later call took for
the downloaded file, and a failing flush at fclose() was reported as success.
Download to a temporary file next to the target, check fclose() and rename.
Also check the result of curl_easy_init().
---
 src/web/http_get.cpp | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/web/http_get.cpp b/src/web/http_get.cpp
index eff0431..a9ff27e 100644
--- a/src/web/http_get.cpp
+++ b/src/web/http_get.cpp
@@ -3,7 +3,9 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <unistd.h>
+#include <atomic>
 #include <filesystem>
+#include <string>
 #include <system_error>
 
 namespace fs = std::filesystem;
@@ -21,6 +23,13 @@ bool file_exists(const char *local) noexcept {
   return fs::is_regular_file(pth, ec);
 }
 
+/// Name for a temporary file next to local, unique among running downloads
+static std::string temporary_name(const char *local) {
+  static std::atomic<unsigned> counter{0};
+  return std::string(local) + ".part" + std::to_string(getpid()) + "-" +
+         std::to_string(counter++);
+}
+
 int dso::http_get(const char *url, const char *local, bool force) noexcept {
   
   // if we are not overwritting and file exists, ... the end!
@@ -34,6 +43,10 @@ int dso::http_get(const char *url, const char *local, bool force) noexcept {
 
   //  init the curl session
   curl_handle = curl_easy_init();
+  if (!curl_handle) {
+    curl_global_cleanup();
+    return CURLE_FAILED_INIT;
+  }
 
   //  set URL to get here
   curl_easy_setopt(curl_handle, CURLOPT_URL, url);
@@ -50,8 +63,10 @@ int dso::http_get(const char *url, const char *local, bool force) noexcept {
   //  send all data to this function
   curl_easy_setopt(curl_handle, CURLOPT_WRITEFUNCTION, write_data);
 
-  //  open the file
-  pagefile = fopen(local, "wb");
+  //  open a temporary file; the download gets its requested name only when it
+  //  is complete, hence an existing file is kept if anything goes wrong
+  const std::string part = temporary_name(local);
+  pagefile = fopen(part.c_str(), "wb");
   if (pagefile) {
 
     //  write the page body to this file handle
@@ -60,12 +75,15 @@ int dso::http_get(const char *url, const char *local, bool force) noexcept {
     //  get it!
     status = curl_easy_perform(curl_handle);
 
-    //  close the header file
-    fclose(pagefile);
-  }
+    //  close the file; data may still fail to reach the disk
+    if (fclose(pagefile) && status == CURLE_OK) status = CURLE_WRITE_ERROR;
+
+    if (status == CURLE_OK && rename(part.c_str(), local))
+      status = CURLE_WRITE_ERROR;
 
-  // remove the opened but empty file in case of error
-  if (status != CURLE_OK) remove(local);
+    // remove the temporary file in case of error
+    if (status != CURLE_OK) remove(part.c_str());
+  }
 
   //  cleanup curl stuff
   curl_easy_cleanup(curl_handle);
-- 
2.43.0


From a39ccd0d7c3f64496bce8250982e01ab1dab49a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:29 +0000
Subject: [PATCH 02/58] fix: do not accept damaged or incomplete gravity model
 files

Header values with trailing whitespace (or CR) broke the normalisation test,
a keyword without value was read from the remains of previous lines, prefixes
of longer words matched, and missing mandatory parameters went unnoticed.
Coefficients were counted per line, so that a repeated record masked a missing
one and a read error could pass for the 'C(1,0) and C(1,1) not written' case
(S(1,1) was left unset then); degree 0 wrote past the end of the storage.
---
 src/gravity/icgemio_rddata.cpp   | 47 ++++++++++++++++++++---------
 src/gravity/icgemio_rdhead.cpp   | 52 +++++++++++++++++++++++---------
 var/icgem/src/icgemio_rddata.cpp | 47 ++++++++++++++++++++---------
 var/icgem/src/icgemio_rdhead.cpp | 52 +++++++++++++++++++++++---------
 4 files changed, 142 insertions(+), 56 deletions(-)

diff --git a/src/gravity/icgemio_rddata.cpp b/src/gravity/icgemio_rddata.cpp
index a240e93..d6445dc 100644
--- a/src/gravity/icgemio_rddata.cpp
+++ b/src/gravity/icgemio_rddata.cpp
@@ -3,6 +3,7 @@
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
+#include <vector>
 
 ///< approximate max data line length, see
 ///< http://icgem.gfz-potsdam.de/ICGEM-Format-2011.pdf
@@ -14,6 +15,11 @@ bool starts_with(const char *pattern, const char *line) noexcept {
   return false;
 }
 
+/// Numeric values should be followed by whitespace or the end of the line
+static bool at_end(const char *c) noexcept {
+  return !*c || *c == ' ' || *c == '\t' || *c == '\r';
+}
+
 std::size_t coeffs_nr(int l, int m) noexcept {
   if (l == m) {
     std::size_t n = l + 1;
@@ -31,7 +37,7 @@ std::size_t coeffs_nr(int l, int m) noexcept {
 int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
 
   int error = 0;
-  if (l > max_degree || m > l) {
+  if (l > max_degree || m > l || m < 0) {
     fprintf(
         stderr,
         "[ERROR] Invalid degree/order given to data parse (traceback: %s)\n",
@@ -66,15 +72,14 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
   // Note (1)
   // -------------------------------------------------------------------------
   // for some gfc files (e.g. the EGM2008) it may happen that the values for
-  // C_10 and C_11 are missing; that is because the are nominally zero; here
-  // we will set them to some random value, so that if at the end of parsing
-  // we are missing exactly two values and the C_10 and C_11 have the values
-  // set here, these are the ones not parsed!
-  coeffs->C(1, 0) = -999e0;
-  coeffs->C(1, 1) = -999e0;
+  // C_10 and C_11 are missing; that is because the are nominally zero. Keep
+  // track of the coefficients read, so that we can tell if these are the only
+  // ones missing at the end of parsing.
+  std::vector<bool> read_lm(coeffs_nr(l, l), false);
+  const auto index = [](int n, int k) { return n * (n + 1) / 2 + k; };
 
   char line[max_data_line], *end, *start;
-  int ll, mm;
+  int ll, mm, highest_degree = 0;
   double Clm, Slm;
   std::size_t coeffs_read = 0, coeffs_to_read = coeffs_nr(l, m);
 
@@ -105,13 +110,25 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
         return 1;
       }
 
+      if (mm < 0 || mm > ll) {
+        fprintf(stderr,
+                "[ERROR] Invalid degree/order in line: [%s]; icgem file %s "
+                "(traceback: %s)\n",
+                line, filename.c_str(), __func__);
+        return 1;
+      }
+
+      if (ll > highest_degree) highest_degree = ll;
+      const bool is_repeated = ll <= l && read_lm[index(ll, mm)];
+      if (ll <= l) read_lm[index(ll, mm)] = true;
+
       // only interested in the coefficients, if degree and order are less than
       // max
       if (ll <= l && mm <= m) {
 
         start = end;
         Clm = std::strtod(start, &end);
-        if (end == start) {
+        if (end == start || !at_end(end)) {
           fprintf(stderr,
                   "[ERROR] Failed parsing Clm parameter in line: [%s]; icgem "
                   "file %s (traceback: %s)\n",
@@ -121,7 +138,7 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
 
         start = end;
         Slm = std::strtod(start, &end);
-        if (end == start) {
+        if (end == start || !at_end(end)) {
           fprintf(stderr,
                   "[ERROR] Failed parsing Slm parameter in line: [%s]; icgem "
                   "file %s (traceback: %s)\n",
@@ -131,7 +148,7 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
 
         // assign to harmonic coefficients matrix
         coeffs->C(ll, mm) = Clm;
-        ++coeffs_read;
+        if (!is_repeated) ++coeffs_read;
         if (mm == 0) {
           assert(Slm == 0e0);
         } else {
@@ -145,15 +162,17 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
 
   if (coeffs_read < coeffs_to_read) {
     // before reporting an error, see if we are in the case described in
-    // note (1)
-    if (coeffs_to_read - coeffs_read == 2 &&
-        (coeffs->C(1, 0) == coeffs->C(1, 1) && coeffs->C(1, 1) == -999e0)) {
+    // note (1), with the file read up to its end
+    if (fin.eof() && highest_degree == max_degree && l > 0 &&
+        coeffs_to_read - coeffs_read == (m > 0 ? 2 : 1) &&
+        !read_lm[index(1, 0)] && !read_lm[index(1, 1)]) {
       printf("[NOTE] The coefficients C(1,0) and C(1,1) are not explicitly "
              "written in the icgem file: %s\n",
              filename.c_str());
       printf("[NOTE] Setting C(1, 0) = C(1, 1) = 0e0\n");
       coeffs->C(1, 0) = 0e0;
       coeffs->C(1, 1) = 0e0;
+      coeffs->S(1, 1) = 0e0;
     } else {
       fprintf(stderr,
               "[ERROR] EOF reached before reading all Snm/Cnm coefficients! "
diff --git a/src/gravity/icgemio_rdhead.cpp b/src/gravity/icgemio_rdhead.cpp
index cce597d..c752aa0 100644
--- a/src/gravity/icgemio_rdhead.cpp
+++ b/src/gravity/icgemio_rdhead.cpp
@@ -22,6 +22,18 @@ void dso::Icgem::print_details() {
 }
 #endif
 
+/// Whitespace within a line (including the carriage return of DOS files)
+static bool is_ws(char c) noexcept { return c == ' ' || c == '\t' || c == '\r'; }
+
+/// The character following a value should be whitespace or the end of line
+static bool at_end(const char *c) noexcept { return !*c || is_ws(*c); }
+
+/// Copy a (non null-terminated) value of given size
+static void assign(char *dest, const char *value, int size) noexcept {
+  std::memcpy(dest, value, size);
+  dest[size] = '\0';
+}
+
 /// Given a C-String, go to the first non-whitespace character. If the line is
 /// empty or only contains whitespace characters, the returned (pointer to
 /// char) is NULL
@@ -31,14 +43,14 @@ void dso::Icgem::print_details() {
 ///          return '\0'
 const char *next_non_ws_char(const char *line) noexcept {
   const char *s = line;
-  while (*s && *s == ' ')
+  while (*s && is_ws(*s))
     ++s;
   return s;
 }
 
 const char *next_ws_char(const char *line) noexcept {
   const char *s = line;
-  while (*s && *s != ' ')
+  while (*s && !is_ws(*s))
     ++s;
   return s;
 }
@@ -53,16 +65,16 @@ const char *resolve_header_keyword(const char *parameter_name, const char *line,
   keyword_size = 0;
 
   // does the line start with the parameter_name string ?
-  if (!std::strncmp(line, parameter_name, psz)) {
+  if (!std::strncmp(line, parameter_name, psz) && at_end(line + psz)) {
     // start of new word after the keyword in line
-    const char *start = next_non_ws_char(line + psz + 1);
+    const char *start = next_non_ws_char(line + psz);
     // start of second word after the keyword in line
     const char *stop = next_ws_char(start);
-    if (!start || !stop) {
+    if (start == stop) {
       keyword_size = -1;
       return nullptr;
     }
-    keyword_size = stop - start + 1;
+    keyword_size = stop - start;
     return start;
   } else {
     // parameter_name not matched in begining of line; return NULL
@@ -87,6 +99,10 @@ int dso::Icgem::parse_header() noexcept {
   int counter = 0;
   int error = 0;
 
+  // mandatory parameters, not set yet
+  earth_gravity_constant = radius = 0e0;
+  max_degree = 0;
+
   // keep reading new lines untill we meet a line starting with 'end_of_head'
   fin.getline(buf, bsz);
   while (std::strncmp(buf, "end_of_head", 11)) {
@@ -104,7 +120,7 @@ int dso::Icgem::parse_header() noexcept {
       error = 1;
     } else if (keyword) {
       assert(keyword_size < (int)sizeof(product_type));
-      std::strncpy(product_type, keyword, keyword_size);
+      assign(product_type, keyword, keyword_size);
     }
 
     // check if this the 'modelname' field (mandatory keyword)
@@ -117,7 +133,7 @@ int dso::Icgem::parse_header() noexcept {
       error = 1;
     } else if (keyword) {
       assert(keyword_size < (int)sizeof(modelname));
-      std::strncpy(modelname, keyword, keyword_size);
+      assign(modelname, keyword, keyword_size);
     }
 
     // check if this the 'earth_gravity_constant' field (mandatory keyword)
@@ -132,7 +148,7 @@ int dso::Icgem::parse_header() noexcept {
     } else if (keyword) {
       char *end;
       earth_gravity_constant = std::strtod(keyword, &end);
-      if (end == keyword || earth_gravity_constant == 0e0) {
+      if (end == keyword || !at_end(end) || earth_gravity_constant == 0e0) {
         fprintf(stderr,
                 "[ERROR] Failed parsing value for parameter %s in icgem "
                 "%s(traceback: %s)\n",
@@ -152,7 +168,7 @@ int dso::Icgem::parse_header() noexcept {
     } else if (keyword) {
       char *end;
       radius = std::strtod(keyword, &end);
-      if (end == keyword || radius == 0e0) {
+      if (end == keyword || !at_end(end) || radius == 0e0) {
         fprintf(stderr,
                 "[ERROR] Failed parsing value for parameter %s in icgem "
                 "%s(traceback: %s)\n",
@@ -172,7 +188,7 @@ int dso::Icgem::parse_header() noexcept {
     } else if (keyword) {
       char *end;
       max_degree = std::strtol(keyword, &end, 10);
-      if (end == keyword || max_degree == 0e0) {
+      if (end == keyword || !at_end(end) || max_degree == 0e0) {
         fprintf(stderr,
                 "[ERROR] Failed parsing value for parameter %s in icgem "
                 "%s(traceback: %s)\n",
@@ -191,7 +207,7 @@ int dso::Icgem::parse_header() noexcept {
       error = 1;
     } else if (keyword) {
       assert(keyword_size < (int)sizeof(errors));
-      std::strncpy(errors, keyword, keyword_size);
+      assign(errors, keyword, keyword_size);
     }
 
     // check if this the 'tide_system' field (optional keyword)
@@ -204,7 +220,7 @@ int dso::Icgem::parse_header() noexcept {
       error = 1;
     } else if (keyword) {
       assert(keyword_size < (int)sizeof(tide_system));
-      std::strncpy(tide_system, keyword, keyword_size);
+      assign(tide_system, keyword, keyword_size);
     }
 
     // check if this the 'norm' field (optional keyword)
@@ -217,7 +233,7 @@ int dso::Icgem::parse_header() noexcept {
       error = 1;
     } else if (keyword) {
       assert(keyword_size < (int)sizeof(norm));
-      std::strncpy(norm, keyword, keyword_size);
+      assign(norm, keyword, keyword_size);
     }
 
     fin.getline(buf, bsz);
@@ -233,6 +249,14 @@ int dso::Icgem::parse_header() noexcept {
 
   } // keep on parsing (header) lines ...
 
+  if (earth_gravity_constant == 0e0 || radius == 0e0 || max_degree == 0) {
+    fprintf(stderr,
+            "[ERROR] Missing mandatory parameter(s) in the header of icgem %s "
+            "(traceback: %s)\n",
+            filename.c_str(), __func__);
+    return 1;
+  }
+
   data_section_pos = fin.tellg();
   return 0;
 }
diff --git a/var/icgem/src/icgemio_rddata.cpp b/var/icgem/src/icgemio_rddata.cpp
index 8f3c87d..dbf756a 100644
--- a/var/icgem/src/icgemio_rddata.cpp
+++ b/var/icgem/src/icgemio_rddata.cpp
@@ -3,6 +3,7 @@
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
+#include <vector>
 
 ///< approximate max data line length, see
 ///< http://icgem.gfz-potsdam.de/ICGEM-Format-2011.pdf
@@ -14,6 +15,11 @@ bool starts_with(const char *pattern, const char *line) noexcept {
   return false;
 }
 
+/// Numeric values should be followed by whitespace or the end of the line
+static bool at_end(const char *c) noexcept {
+  return !*c || *c == ' ' || *c == '\t' || *c == '\r';
+}
+
 std::size_t coeffs_nr(int l, int m) noexcept {
   if (l == m) {
     std::size_t n = l + 1;
@@ -30,7 +36,7 @@ std::size_t coeffs_nr(int l, int m) noexcept {
 ///          enough memmory to hold the (to-be-) parsed coefficients.
 int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
 
-  if (l > max_degree || m > l) {
+  if (l > max_degree || m > l || m < 0) {
     fprintf(
         stderr,
         "[ERROR] Invalid degree/order given to data parse (traceback: %s)\n",
@@ -58,15 +64,14 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
   // Note (1)
   // -------------------------------------------------------------------------
   // for some gfc files (e.g. the EGM2008) it may happen that the values for
-  // C_10 and C_11 are missing; that is because the are nominally zero; here
-  // we will set them to some random value, so that if at the end of parsing
-  // we are missing exactly two values and the C_10 and C_11 have the values
-  // set here, these are the ones not parsed!
-  coeffs->C(1, 0) = -999e0;
-  coeffs->C(1, 1) = -999e0;
+  // C_10 and C_11 are missing; that is because the are nominally zero. Keep
+  // track of the coefficients read, so that we can tell if these are the only
+  // ones missing at the end of parsing.
+  std::vector<bool> read_lm(coeffs_nr(l, l), false);
+  const auto index = [](int n, int k) { return n * (n + 1) / 2 + k; };
 
   char line[max_data_line], *end, *start;
-  int ll, mm;
+  int ll, mm, highest_degree = 0;
   double Clm, Slm;
   std::size_t coeffs_read = 0, coeffs_to_read = coeffs_nr(l, m);
 
@@ -97,13 +102,25 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
         return 1;
       }
 
+      if (mm < 0 || mm > ll) {
+        fprintf(stderr,
+                "[ERROR] Invalid degree/order in line: [%s]; icgem file %s "
+                "(traceback: %s)\n",
+                line, filename.c_str(), __func__);
+        return 1;
+      }
+
+      if (ll > highest_degree) highest_degree = ll;
+      const bool is_repeated = ll <= l && read_lm[index(ll, mm)];
+      if (ll <= l) read_lm[index(ll, mm)] = true;
+
       // only interested in the coefficients, if degree and order are less than
       // max
       if (ll <= l && mm <= m) {
 
         start = end;
         Clm = std::strtod(start, &end);
-        if (end == start) {
+        if (end == start || !at_end(end)) {
           fprintf(stderr,
                   "[ERROR] Failed parsing Clm parameter in line: [%s]; icgem "
                   "file %s (traceback: %s)\n",
@@ -113,7 +130,7 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
 
         start = end;
         Slm = std::strtod(start, &end);
-        if (end == start) {
+        if (end == start || !at_end(end)) {
           fprintf(stderr,
                   "[ERROR] Failed parsing Slm parameter in line: [%s]; icgem "
                   "file %s (traceback: %s)\n",
@@ -123,7 +140,7 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
 
         // assign to harmonic coefficients matrix
         coeffs->C(ll, mm) = Clm;
-        ++coeffs_read;
+        if (!is_repeated) ++coeffs_read;
         if (mm == 0) {
           assert(Slm == 0e0);
         } else {
@@ -137,15 +154,17 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
 
   if (coeffs_read < coeffs_to_read) {
     // before reporting an error, see if we are in the case described in
-    // note (1)
-    if (coeffs_to_read - coeffs_read == 2 &&
-        (coeffs->C(1, 0) == coeffs->C(1, 1) && coeffs->C(1, 1) == -999e0)) {
+    // note (1), with the file read up to its end
+    if (fin.eof() && highest_degree == max_degree && l > 0 &&
+        coeffs_to_read - coeffs_read == (m > 0 ? 2 : 1) &&
+        !read_lm[index(1, 0)] && !read_lm[index(1, 1)]) {
       printf("[NOTE] The coefficients C(1,0) and C(1,1) are not explicitly "
              "written in the icgem file: %s\n",
              filename.c_str());
       printf("[NOTE] Setting C(1, 0) = C(1, 1) = 0e0\n");
       coeffs->C(1, 0) = 0e0;
       coeffs->C(1, 1) = 0e0;
+      coeffs->S(1, 1) = 0e0;
     } else {
       fprintf(stderr,
               "[ERROR] EOF reached before reading all Snm/Cnm coefficients! "
diff --git a/var/icgem/src/icgemio_rdhead.cpp b/var/icgem/src/icgemio_rdhead.cpp
index eee0992..b71fd42 100644
--- a/var/icgem/src/icgemio_rdhead.cpp
+++ b/var/icgem/src/icgemio_rdhead.cpp
@@ -22,16 +22,28 @@ void dso::Icgem::print_details() {
 }
 #endif
 
+/// Whitespace within a line (including the carriage return of DOS files)
+static bool is_ws(char c) noexcept { return c == ' ' || c == '\t' || c == '\r'; }
+
+/// The character following a value should be whitespace or the end of line
+static bool at_end(const char *c) noexcept { return !*c || is_ws(*c); }
+
+/// Copy a (non null-terminated) value of given size
+static void assign(char *dest, const char *value, int size) noexcept {
+  std::memcpy(dest, value, size);
+  dest[size] = '\0';
+}
+
 const char *next_non_ws_char(const char *line) noexcept {
   const char *s = line;
-  while (*s && *s == ' ')
+  while (*s && is_ws(*s))
     ++s;
   return s;
 }
 
 const char *next_ws_char(const char *line) noexcept {
   const char *s = line;
-  while (*s && *s != ' ')
+  while (*s && !is_ws(*s))
     ++s;
   return s;
 }
@@ -40,14 +52,14 @@ const char *resolve_header_keyword(const char *parameter_name, const char *line,
                                    int &keyword_size) noexcept {
   auto psz = std::strlen(parameter_name);
   keyword_size = 0;
-  if (!std::strncmp(line, parameter_name, psz)) {
-    const char *start = next_non_ws_char(line + psz + 1);
+  if (!std::strncmp(line, parameter_name, psz) && at_end(line + psz)) {
+    const char *start = next_non_ws_char(line + psz);
     const char *stop = next_ws_char(start);
-    if (!start || !stop) {
+    if (start == stop) {
       keyword_size = -1;
       return nullptr;
     }
-    keyword_size = stop - start + 1;
+    keyword_size = stop - start;
     return start;
   } else {
     return nullptr;
@@ -70,6 +82,10 @@ int dso::Icgem::parse_header() noexcept {
   int keyword_size;
   int counter = 0;
 
+  // mandatory parameters, not set yet
+  earth_gravity_constant = radius = 0e0;
+  max_degree = 0;
+
   fin.getline(buf, bsz);
   while (std::strncmp(buf, "end_of_head", 11)) {
     // the line read can start with leading whitespace characters; skip them
@@ -85,7 +101,7 @@ int dso::Icgem::parse_header() noexcept {
       return 1;
     } else if (keyword) {
       assert(keyword_size < (int)sizeof(product_type));
-      std::strncpy(product_type, keyword, keyword_size);
+      assign(product_type, keyword, keyword_size);
     }
 
     keyword = resolve_header_keyword("modelname", line, keyword_size);
@@ -97,7 +113,7 @@ int dso::Icgem::parse_header() noexcept {
       return 1;
     } else if (keyword) {
       assert(keyword_size < (int)sizeof(modelname));
-      std::strncpy(modelname, keyword, keyword_size);
+      assign(modelname, keyword, keyword_size);
     }
 
     keyword =
@@ -111,7 +127,7 @@ int dso::Icgem::parse_header() noexcept {
     } else if (keyword) {
       char *end;
       earth_gravity_constant = std::strtod(keyword, &end);
-      if (end == keyword || earth_gravity_constant == 0e0) {
+      if (end == keyword || !at_end(end) || earth_gravity_constant == 0e0) {
         fprintf(stderr,
                 "[ERROR] Failed parsing value for parameter %s in icgem "
                 "%s(traceback: %s)\n",
@@ -130,7 +146,7 @@ int dso::Icgem::parse_header() noexcept {
     } else if (keyword) {
       char *end;
       radius = std::strtod(keyword, &end);
-      if (end == keyword || radius == 0e0) {
+      if (end == keyword || !at_end(end) || radius == 0e0) {
         fprintf(stderr,
                 "[ERROR] Failed parsing value for parameter %s in icgem "
                 "%s(traceback: %s)\n",
@@ -149,7 +165,7 @@ int dso::Icgem::parse_header() noexcept {
     } else if (keyword) {
       char *end;
       max_degree = std::strtol(keyword, &end, 10);
-      if (end == keyword || max_degree == 0e0) {
+      if (end == keyword || !at_end(end) || max_degree == 0e0) {
         fprintf(stderr,
                 "[ERROR] Failed parsing value for parameter %s in icgem "
                 "%s(traceback: %s)\n",
@@ -167,7 +183,7 @@ int dso::Icgem::parse_header() noexcept {
       return 1;
     } else if (keyword) {
       assert(keyword_size < (int)sizeof(errors));
-      std::strncpy(errors, keyword, keyword_size);
+      assign(errors, keyword, keyword_size);
     }
 
     keyword = resolve_header_keyword("tide_system", line, keyword_size);
@@ -179,7 +195,7 @@ int dso::Icgem::parse_header() noexcept {
       return 1;
     } else if (keyword) {
       assert(keyword_size < (int)sizeof(tide_system));
-      std::strncpy(tide_system, keyword, keyword_size);
+      assign(tide_system, keyword, keyword_size);
     }
 
     keyword = resolve_header_keyword("norm", line, keyword_size);
@@ -191,7 +207,7 @@ int dso::Icgem::parse_header() noexcept {
       return 1;
     } else if (keyword) {
       assert(keyword_size < (int)sizeof(norm));
-      std::strncpy(norm, keyword, keyword_size);
+      assign(norm, keyword, keyword_size);
     }
 
     fin.getline(buf, bsz);
@@ -204,6 +220,14 @@ int dso::Icgem::parse_header() noexcept {
     }
   }
 
+  if (earth_gravity_constant == 0e0 || radius == 0e0 || max_degree == 0) {
+    fprintf(stderr,
+            "[ERROR] Missing mandatory parameter(s) in the header of icgem %s "
+            "(traceback: %s)\n",
+            filename.c_str(), __func__);
+    return 1;
+  }
+
   data_section_pos = fin.tellg();
   return 0;
 }
-- 
2.43.0


From 9c0881f43dce26c1917cbc2fee85184ddd5052fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:41 +0000
Subject: [PATCH 03/58] fix: copying and moving of the 2-d matrices

Copies used memset instead of memcpy (and did not compile when used), move
assignment leaked the old data and returned nothing.
---
 src/cmat2d.hpp                 | 18 +++++++++++-------
 var/icgem/src/compact2dmat.hpp | 22 +++++++++++++---------
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/cmat2d.hpp b/src/cmat2d.hpp
index 3b5d232..e4f185d 100644
--- a/src/cmat2d.hpp
+++ b/src/cmat2d.hpp
@@ -234,7 +234,7 @@ public:
 
   Mat2D(const Mat2D &mat) noexcept
       : m_storage(mat.m_storage), m_data(new double[mat.num_elements()]) {
-    std::memset(m_data, mat.m_data, sizeof(double) * mat.num_elements());
+    std::memcpy(m_data, mat.m_data, sizeof(double) * mat.num_elements());
   }
 
   Mat2D(Mat2D &&mat) noexcept : m_storage(mat.m_storage), m_data(mat.m_data) {
@@ -243,11 +243,11 @@ public:
 
   Mat2D &operator=(const Mat2D &mat) noexcept {
     if (this != &mat) {
-      if (m_data && (m_storage.num_elements() != mat.num_elements())) {
+      if (!m_data || ((long)m_storage.num_elements() != mat.num_elements())) {
         delete[] m_data;
         m_data = new double[mat.num_elements()];
       }
-      std::memset(m_data, mat.m_data, sizeof(double) * mat.num_elements());
+      std::memcpy(m_data, mat.m_data, sizeof(double) * mat.num_elements());
       m_storage.rows = mat.rows();
       m_storage.cols = mat.cols();
     }
@@ -255,10 +255,14 @@ public:
   }
 
   Mat2D &operator=(Mat2D &&mat) noexcept {
-    m_storage.rows = mat.rows();
-    m_storage.cols = mat.cols();
-    m_data = mat.m_data;
-    mat.m_data = nullptr;
+    if (this != &mat) {
+      delete[] m_data;
+      m_storage.rows = mat.rows();
+      m_storage.cols = mat.cols();
+      m_data = mat.m_data;
+      mat.m_data = nullptr;
+    }
+    return *this;
   }
 
 #ifdef DEBUG
diff --git a/var/icgem/src/compact2dmat.hpp b/var/icgem/src/compact2dmat.hpp
index 408ea00..c8c5a8f 100644
--- a/var/icgem/src/compact2dmat.hpp
+++ b/var/icgem/src/compact2dmat.hpp
@@ -197,14 +197,14 @@ public:
   /// offset of the ith row; if data is stored in a column-wise manner, it will
   /// return the index of the first elelement of the ith column
   const double *slice(int i) const noexcept {
-    return m_data[m_storage(slice(i))];
+    return m_data + m_storage.slice(i);
   }
 
   /// @brief Row/Column indexing (rows and columns start from 0 --not 1--)
   /// If the data is tored in a Row-Wise manner, this function will return the
   /// offset of the ith row; if data is stored in a column-wise manner, it will
   /// return the index of the first elelement of the ith column
-  double *slice(int i) noexcept { return m_data[m_storage(slice(i))]; }
+  double *slice(int i) noexcept { return m_data + m_storage.slice(i); }
 
   void fill_with(double val) noexcept {
     std::fill(m_data, m_data + m_storage.num_elements(), val);
@@ -226,7 +226,7 @@ public:
 
   Mat2D(const Mat2D &mat) noexcept
       : m_storage(mat.m_storage), m_data(new double[mat.num_elements()]) {
-    std::memset(m_data, mat.m_data, sizeof(double) * mat.num_elements());
+    std::memcpy(m_data, mat.m_data, sizeof(double) * mat.num_elements());
   }
 
   Mat2D(Mat2D &&mat) noexcept : m_storage(mat.m_storage), m_data(mat.m_data) {
@@ -235,11 +235,11 @@ public:
 
   Mat2D &operator=(const Mat2D &mat) noexcept {
     if (this != &mat) {
-      if (m_data && (m_storage.num_elements() != mat.num_elements())) {
+      if (!m_data || ((long)m_storage.num_elements() != mat.num_elements())) {
         delete[] m_data;
         m_data = new double[mat.num_elements()];
       }
-      std::memset(m_data, mat.m_data, sizeof(double) * mat.num_elements());
+      std::memcpy(m_data, mat.m_data, sizeof(double) * mat.num_elements());
       m_storage.rows = mat.rows();
       m_storage.cols = mat.cols();
     }
@@ -247,10 +247,14 @@ public:
   }
 
   Mat2D &operator=(Mat2D &&mat) noexcept {
-    m_storage.rows = mat.rows();
-    m_storage.cols = mat.cols();
-    m_data = mat.m_data;
-    mat.m_data = nullptr;
+    if (this != &mat) {
+      delete[] m_data;
+      m_storage.rows = mat.rows();
+      m_storage.cols = mat.cols();
+      m_data = mat.m_data;
+      mat.m_data = nullptr;
+    }
+    return *this;
   }
 
 #ifdef DEBUG
-- 
2.43.0


From c5b15f508b246c86baed464ef70b47271896f5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:41 +0000
Subject: [PATCH 04/58] fix: HarmonicCoeffs gives back all of its memory

Resizing to a smaller degree lost track of the allocated rows (and left a
default-constructed instance without storage), move assignment leaked the old
rows and self-assignment lost the data.
---
 src/gravity/harmonic_coeffs.cpp   | 9 +++++++--
 src/harmonic_coeffs.hpp           | 1 +
 var/icgem/src/harmonic_coeffs.cpp | 2 ++
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/gravity/harmonic_coeffs.cpp b/src/gravity/harmonic_coeffs.cpp
index 9def5a1..e84c0e6 100644
--- a/src/gravity/harmonic_coeffs.cpp
+++ b/src/gravity/harmonic_coeffs.cpp
@@ -8,12 +8,13 @@ double *dso::HarmonicCoeffs::allocate() noexcept {
   m_data = new double *[m_degree + 1];
   for (int i = 0; i <= m_degree; i++)
     m_data[i] = new double[m_degree + 1];
+  m_capacity = m_degree;
   return m_data[0];
 }
 
 int dso::HarmonicCoeffs::deallocate() noexcept {
   if (m_data) {
-    for (int i = 0; i <= m_degree; i++)
+    for (int i = 0; i <= m_capacity; i++)
       delete[] m_data[i];
     delete[] m_data;
   }
@@ -21,7 +22,7 @@ int dso::HarmonicCoeffs::deallocate() noexcept {
 }
 
 void dso::HarmonicCoeffs::resize(int degree) noexcept {
-    if (degree <= m_degree) {
+    if (m_data && degree <= m_capacity) {
       m_degree = degree;
     } else {
       deallocate();
@@ -35,6 +36,7 @@ void dso::HarmonicCoeffs::resize(int degree) noexcept {
 dso::HarmonicCoeffs::HarmonicCoeffs(dso::HarmonicCoeffs &&h) noexcept {
   this->deallocate();
   this->m_degree = h.m_degree;
+  this->m_capacity = h.m_capacity;
   this->m_data = h.m_data;
   this->_GM = h._GM;
   this->_Re = h._Re;
@@ -45,7 +47,10 @@ dso::HarmonicCoeffs::HarmonicCoeffs(dso::HarmonicCoeffs &&h) noexcept {
 
 dso::HarmonicCoeffs &
 dso::HarmonicCoeffs::operator=(dso::HarmonicCoeffs &&h) noexcept {
+  if (this == &h) return *this;
+  this->deallocate();
   this->m_degree = h.m_degree;
+  this->m_capacity = h.m_capacity;
   this->m_data = h.m_data;
   this->_GM = h._GM;
   this->_Re = h._Re;
diff --git a/src/harmonic_coeffs.hpp b/src/harmonic_coeffs.hpp
index 3f82235..962ba9d 100644
--- a/src/harmonic_coeffs.hpp
+++ b/src/harmonic_coeffs.hpp
@@ -56,6 +56,7 @@ public:
   double _Re{0e0}; ///< reference radius of the spherical harmonic development
   bool _cnormalized{true};  ///< coefficients are normaliized (?)
   int m_degree{0};          ///< maximum degree
+  int m_capacity{0};        ///< degree that the allocated data can hold
   double **m_data{nullptr}; ///< the actual data/coefficients
 
   /// @brief allocate memory to hold the data.
diff --git a/var/icgem/src/harmonic_coeffs.cpp b/var/icgem/src/harmonic_coeffs.cpp
index 65903d2..245893e 100644
--- a/var/icgem/src/harmonic_coeffs.cpp
+++ b/var/icgem/src/harmonic_coeffs.cpp
@@ -30,6 +30,8 @@ dso::HarmonicCoeffs::HarmonicCoeffs(dso::HarmonicCoeffs &&h) noexcept {
 
 dso::HarmonicCoeffs &
 dso::HarmonicCoeffs::operator=(dso::HarmonicCoeffs &&h) noexcept {
+  if (this == &h) return *this;
+  this->deallocate();
   this->m_degree = h.m_degree;
   this->m_data = h.m_data;
   h.m_degree = 0;
-- 
2.43.0


From 73d86546a7869fc2a74c60cdc79cff43d1f89107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:02 +0000
Subject: [PATCH 05/58] fix: restart the multistep integrator after a call that
 may not pass its end, refuse zero tolerances

---
 src/integrators/sgode_de.cpp | 6 +++---
 var/ode_solvers/sgode_de.cpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/integrators/sgode_de.cpp b/src/integrators/sgode_de.cpp
index fd6b188..4c28b59 100644
--- a/src/integrators/sgode_de.cpp
+++ b/src/integrators/sgode_de.cpp
@@ -29,7 +29,7 @@ int dso::SGOde::de(double& t, double tout, const Eigen::VectorXd &y0,
 
   // test for improper parameters
   double eps = std::max(relerr, abserr);
-  if (neqn < 1 || t == tout || (relerr < 0e0 || abserr < 0e0) || eps < 0e0 ||
+  if (neqn < 1 || t == tout || (relerr < 0e0 || abserr < 0e0) || eps <= 0e0 ||
       !iflag || (t != told && std::abs(iflag) != 1)) {
     iflag = 6;
 #ifdef DEBUG
@@ -40,7 +40,7 @@ int dso::SGOde::de(double& t, double tout, const Eigen::VectorXd &y0,
       error_flag = 2;
     else if (relerr < 0e0 || abserr < 0e0)
       error_flag = 3;
-    else if (eps < 0e0)
+    else if (eps <= 0e0)
       error_flag = 4;
     else if (!iflag)
       error_flag = 5;
@@ -73,7 +73,7 @@ int dso::SGOde::de(double& t, double tout, const Eigen::VectorXd &y0,
   const double releps = relerr / eps;
   const double abseps = abserr / eps;
 
-  if (delsgn * del <= 0e0 || iflag == 1) {
+  if (iflag == 1 || isnold < 0 || delsgn * del <= 0e0) {
     // on start and restart also set work variables x and yy(*), store the
     // direction of integration and initialize the step size
     x = t;
diff --git a/var/ode_solvers/sgode_de.cpp b/var/ode_solvers/sgode_de.cpp
index 4d18b88..5052b42 100644
--- a/var/ode_solvers/sgode_de.cpp
+++ b/var/ode_solvers/sgode_de.cpp
@@ -29,7 +29,7 @@ int dso::SGOde::de(double& t, double tout, const Eigen::VectorXd &y0,
 
   // test for improper parameters
   double eps = std::max(relerr, abserr);
-  if (neqn < 1 || t == tout || (relerr < 0e0 || abserr < 0e0) || eps < 0e0 ||
+  if (neqn < 1 || t == tout || (relerr < 0e0 || abserr < 0e0) || eps <= 0e0 ||
       !iflag || (t != told && std::abs(iflag) != 1)) {
     iflag = 6;
 #ifdef DEBUG
@@ -40,7 +40,7 @@ int dso::SGOde::de(double& t, double tout, const Eigen::VectorXd &y0,
       error_flag = 2;
     else if (relerr < 0e0 || abserr < 0e0)
       error_flag = 3;
-    else if (eps < 0e0)
+    else if (eps <= 0e0)
       error_flag = 4;
     else if (!iflag)
       error_flag = 5;
@@ -73,7 +73,7 @@ int dso::SGOde::de(double& t, double tout, const Eigen::VectorXd &y0,
   const double releps = relerr / eps;
   const double abseps = abserr / eps;
 
-  if (delsgn * del <= 0e0 || iflag == 1) {
+  if (iflag == 1 || isnold < 0 || delsgn * del <= 0e0) {
     // on start and restart also set work variables x and yy(*), store the
     // direction of integration and initialize the step size
     x = t;
-- 
2.43.0


From 5818e70194c3500dc1647dd19fe7f7d00552553a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:02 +0000
Subject: [PATCH 06/58] fix: roundoff control and failed step count of the
 multistep integrator

---
 src/integrators/sgode_step.cpp | 14 ++++----------
 var/ode_solvers/sgode_step.cpp |  9 ++++-----
 2 files changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/integrators/sgode_step.cpp b/src/integrators/sgode_step.cpp
index f237283..9056092 100644
--- a/src/integrators/sgode_step.cpp
+++ b/src/integrators/sgode_step.cpp
@@ -45,7 +45,7 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
   sig(0) = 1e0;
 
   double absh;
-  int ifail;
+  int ifail = 0;
   if (start) {
     // initialize.  compute appropriate step size for first step
     f(x, yy(), yp(), *params);
@@ -66,7 +66,6 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
       nornd = false;
       Phi.col(14).setZero();
     }
-    ifail = 0;
   }
 
   // ***     end block 0     ***
@@ -215,7 +214,7 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
 
     // -- break point 230: --
     if (!nornd) { // else goto 240:
-      const auto tau = h * p() - Phi.col(14);
+      const Eigen::VectorXd tau = h * p() - Phi.col(14);
       p() = yy() + tau;
       Phi.col(15) = (p() - yy()) - tau;
       // goto 250:
@@ -302,7 +301,7 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
       double t2 = 5e-1;
       if (ifail == 3) {
         knew = 1;
-      } else if (ifail < 3) {
+      } else if (ifail > 3) {
         if (p5eps < 0.25 * erk)
           t2 = std::sqrt(p5eps / erk);
         knew = 1;
@@ -339,12 +338,7 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
   // correct and evaluate
   const double t1 = h * g(kp1 - 1);
   if (!nornd) {
-    // TODO 
-    // the following line produces an error when compiling with GCC in 
-    // non-debug mode.
-    // Don't have a fucking clue why!!!
-    // const auto rho = t1 * (yp() - Phi.col(0)) - Phi.col(15);
-    const auto rho = t1 * (ArraysNeqn.col(3) - Phi.col(0)) - Phi.col(15);
+    const Eigen::VectorXd rho = t1 * (yp() - Phi.col(0)) - Phi.col(15);
     yy() = p() + rho;
     Phi.col(14) = (yy() - p()) - rho;
   } else {
diff --git a/var/ode_solvers/sgode_step.cpp b/var/ode_solvers/sgode_step.cpp
index 1d47793..256b898 100644
--- a/var/ode_solvers/sgode_step.cpp
+++ b/var/ode_solvers/sgode_step.cpp
@@ -45,7 +45,7 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
   sig(0) = 1e0;
 
   double absh;
-  int ifail;
+  int ifail = 0;
   if (start) {
     // initialize.  compute appropriate step size for first step
     f(x, yy(), yp(), params);
@@ -66,7 +66,6 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
       nornd = false;
       Phi.col(14).setZero();
     }
-    ifail = 0;
   }
 
   // ***     end block 0     ***
@@ -215,7 +214,7 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
 
     // -- break point 230: --
     if (!nornd) { // else goto 240:
-      const auto tau = h * p() - Phi.col(14);
+      const Eigen::VectorXd tau = h * p() - Phi.col(14);
       p() = yy() + tau;
       Phi.col(15) = (p() - yy()) - tau;
       // goto 250:
@@ -296,7 +295,7 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
       double t2 = 5e-1;
       if (ifail == 3) {
         knew = 1;
-      } else if (ifail < 3) {
+      } else if (ifail > 3) {
         if (p5eps < 0.25 * erk)
           t2 = std::sqrt(p5eps / erk);
         knew = 1;
@@ -331,7 +330,7 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
   // correct and evaluate
   const double t1 = h * g(kp1 - 1);
   if (!nornd) {
-    const auto rho = t1 * (yp() - Phi.col(0)) - Phi.col(15);
+    const Eigen::VectorXd rho = t1 * (yp() - Phi.col(0)) - Phi.col(15);
     yy() = p() + rho;
     Phi.col(14) = (yy() - p()) - rho;
   } else {
-- 
2.43.0


From 4e732d30dac136bc910562b268c137aef950e363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:02 +0000
Subject: [PATCH 07/58] fix: error test and step size control of RKF45

---
 var/ode_solvers/rkf45_rkfs.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/var/ode_solvers/rkf45_rkfs.cpp b/var/ode_solvers/rkf45_rkfs.cpp
index f55dcb7..3ec6e87 100644
--- a/var/ode_solvers/rkf45_rkfs.cpp
+++ b/var/ode_solvers/rkf45_rkfs.cpp
@@ -131,7 +131,7 @@ int dso::RKF45::rkfs(double &t, double tout, Eigen::VectorXd &y) noexcept {
       toln = tol;
       const double ypk = std::abs(yp(i));
       if (ypk * std::pow(h, 5e0) > tol) {
-        h = (tol / ypk) * (tol / ypk);
+        h = std::pow(tol / ypk, 0.2e0);
       }
     }
   }
@@ -243,7 +243,7 @@ int dso::RKF45::rkfs(double &t, double tout, Eigen::VectorXd &y) noexcept {
       // solution at the beginning and end of the step.
       double eeoet = 0e0;
       for (int i = 0; i < neqn; i++) {
-        const double et = std::abs(y(i)) + std::abs(F(0, i)) + ae;
+        const double et = std::abs(y(i)) + std::abs(F(i, 0)) + ae;
         if (et <= 0e0) {
           iflag = 5;
           return 0;
@@ -268,7 +268,7 @@ int dso::RKF45::rkfs(double &t, double tout, Eigen::VectorXd &y) noexcept {
       output = false;
       s = 1e-1;
       if (esttol < 59049e0)
-        s = 9e-1 / (esttol * esttol);
+        s = 9e-1 / std::pow(esttol, 0.2e0);
       h *= s;
 
       // if (std::abs(h) > hmin)
@@ -299,7 +299,7 @@ int dso::RKF45::rkfs(double &t, double tout, Eigen::VectorXd &y) noexcept {
     // stepsize is not allowed to increase
     s = 5e0;
     if (esttol > 1.889568e-4)
-      s = 9e-1 / (esttol * esttol);
+      s = 9e-1 / std::pow(esttol, 0.2e0);
     if (hfaild)
       s = std::min(s, 1e0);
     h = std::copysign(std::max(s * std::abs(h), hmin), h);
-- 
2.43.0


From 25361bc39c2a5d69ec71f0e46ec5900dc713edfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:11 +0000
Subject: [PATCH 08/58] fix: RINEX header: check every line read, short lines,
 optional and repeated scale factors, stale errno

---
 src/doris/doris_system_info.cpp |  2 ++
 src/doris_rinex.hpp             |  2 +-
 src/rinex/read_rnx_header.cpp   | 44 ++++++++++++++++++++++-----------
 3 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/src/doris/doris_system_info.cpp b/src/doris/doris_system_info.cpp
index f1e9633..5768511 100644
--- a/src/doris/doris_system_info.cpp
+++ b/src/doris/doris_system_info.cpp
@@ -1,5 +1,6 @@
 #include "doris_system_info.hpp"
 #include <cassert>
+#include <cerrno>
 #include <cstring>
 #include <stdexcept>
 
@@ -103,6 +104,7 @@ int dso::BeaconStation::set_from_rinex_line(const char *line) noexcept {
   std::memcpy(m_station_name, line + 10, sizeof m_station_name);
   std::memcpy(m_station_domes, line + 40, sizeof m_station_domes);
   char *end;
+  errno = 0;
   m_type = std::strtol(line + 50, &end, 10);
   if (errno || end == line + 50) {
     errno = 0;
diff --git a/src/doris_rinex.hpp b/src/doris_rinex.hpp
index 63416cb..e521832 100644
--- a/src/doris_rinex.hpp
+++ b/src/doris_rinex.hpp
@@ -144,7 +144,7 @@ dso::datetime<dso::nanoseconds> m_time_ref_stat;
 /// date of the 2GHz phase measurement in microseconds. Positive if the 
 /// measurement of phase 400 MHz is performed after the measurement of phase 
 /// 2 GHz
-double m_l12_date_offset;
+double m_l12_date_offset{0e0};
 /// Epoch, code, and phase are corrected by applying the realtime-derived 
 /// receiver clock offset: 1=yes, 0=no; default: 0=no
 bool rcv_clock_offs_appl{false};
diff --git a/src/rinex/read_rnx_header.cpp b/src/rinex/read_rnx_header.cpp
index 04455f4..866e994 100644
--- a/src/rinex/read_rnx_header.cpp
+++ b/src/rinex/read_rnx_header.cpp
@@ -22,6 +22,16 @@ int count_length_reverse(const char *str, int from) noexcept {
   return ++from;
 }
 
+/// Read the next header line, filling up missing trailing whitespaces
+static bool get_header_line(std::ifstream &fin, char *line, int size) noexcept {
+  if (!fin.getline(line, size))
+    return false;
+  const int len = std::strlen(line);
+  std::memset(line + len, ' ', size - 1 - len);
+  line[size - 1] = '\0';
+  return true;
+}
+
 /// The instance's stream must be open and in good state. If it is not placed
 /// at the top of the file, it will be rewinded to the top.
 ///
@@ -44,20 +54,20 @@ int dso::DorisObsRinex::read_header() noexcept {
   int tmp_sz;
 
   // first line; RINEX VERSION / TYPE (get version, type and system)
-  m_stream.getline(line, MAX_HEADER_CHARS);
-  if (std::strncmp(line + 60, "RINEX VERSION / TYPE", 20))
+  if (!get_header_line(m_stream, line, MAX_HEADER_CHARS) ||
+      std::strncmp(line + 60, "RINEX VERSION / TYPE", 20))
     return 10;
   m_version = std::strtof(line, &str_end);
   if (str_end == line || (line[20] != 'O' || line[40] != 'D'))
     return 11;
 
   // second line; PGM / RUN BY / DATE
-  m_stream.getline(line, MAX_HEADER_CHARS);
-  if (std::strncmp(line + 60, "PGM / RUN BY / DATE", 19))
+  if (!get_header_line(m_stream, line, MAX_HEADER_CHARS) ||
+      std::strncmp(line + 60, "PGM / RUN BY / DATE", 19))
     return 20;
 
   // read on untill EOH
-  while (m_stream && m_stream.getline(line, MAX_HEADER_CHARS)) {
+  while (m_stream && get_header_line(m_stream, line, MAX_HEADER_CHARS)) {
     if (!std::strncmp(line + 60, "SATELLITE NAME", 14)) {
       // SATELLITE NAME; get m_satellite_name (err. code 30)
       tmp_sz = count_length_reverse(line, 59);
@@ -155,7 +165,8 @@ int dso::DorisObsRinex::read_header() noexcept {
         errno = 0;
         return 112;
       }
-      assert(obs_types_num < 13);
+      if (obs_types_num < 0 || obs_types_num > 12)
+        return 112;
       if (!m_obs_codes.empty())
         m_obs_codes.clear();
       for (int code = 0; code < obs_types_num; code++) {
@@ -177,6 +188,8 @@ int dso::DorisObsRinex::read_header() noexcept {
           return 114;
         }
       }
+      // no scale factors yet; the two vectors have a one-to-one correspondance
+      m_obs_scale_factors = std::vector<int>(m_obs_codes.size(), 1);
 
     } else if (!std::strncmp(line + 60, "TIME OF FIRST OBS", 17)) {
       // TIME OF FIRST OBS; get m_time_of_first_obs and validate time system
@@ -198,19 +211,19 @@ int dso::DorisObsRinex::read_header() noexcept {
       // SYS / SCALE FACTOR; get/fill m_obs_scale_factors
       if (*line != 'D')
         return 141;
-      if (!m_obs_scale_factors.empty())
-        m_obs_scale_factors.clear();
-      // create a vector of 1's with a size equal to m_obs_codes. the two
-      // vectors will have a one-to-one correspondance
-      m_obs_scale_factors = std::vector<int>(m_obs_codes.size(), 1);
+      // must come after the list of observables; more than one such line may be
+      // given
+      if (m_obs_codes.empty())
+        return 141;
       int factor = std::strtol(line + 2, &end, 10);
       if (!factor || (errno || end == line + 2)) {
         errno = 0;
         return 142;
       }
-      int num_obs;
+      int num_obs = 0;
       if (line[8] == line[9] && line[8] == ' ') { // blank means all ....
-        num_obs = m_obs_scale_factors.size();
+        std::fill(m_obs_scale_factors.begin(), m_obs_scale_factors.end(),
+                  factor);
       } else {
         // scale factors can be defined for any number of ObservationCodes, in
         // the range [0, m_obs_codes.size()]
@@ -327,7 +340,7 @@ int dso::DorisObsRinex::read_header() noexcept {
 
     } else if (!std::strncmp(line + 60, "RCV CLOCK OFFS APPL",
                              19)) { // Code: 210
-
+      errno = 0;
       int rcv_clock_offs_appl_int = -99;
       rcv_clock_offs_appl_int = std::strtol(line, &end, 10);
       if ((errno || end == line) ||
@@ -353,7 +366,8 @@ int dso::DorisObsRinex::read_header() noexcept {
     return -2;
 
   // final checks on collected info
-  if (m_obs_codes.size() != m_obs_scale_factors.size() ||
+  if (m_obs_codes.empty() ||
+      m_obs_codes.size() != m_obs_scale_factors.size() ||
       obs_types_num != static_cast<int>(m_obs_codes.size()))
     return -3;
   if (num_stations != static_cast<int>(m_stations.size()) ||
-- 
2.43.0


From 36f1dd409c13e3d97d8f0cd29bf68cc49d79ebdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:11 +0000
Subject: [PATCH 09/58] fix: RINEX records: no shared line buffer, detect read
 errors, truncated blocks and malformed fields, keep missing values unscaled

---
 src/rinex/doris_rinex.cpp            | 77 +++++++++++++++++++++++-----
 src/rinex/rnx_datablock_iterator.cpp |  7 +++
 2 files changed, 72 insertions(+), 12 deletions(-)

diff --git a/src/rinex/doris_rinex.cpp b/src/rinex/doris_rinex.cpp
index ffcd2e2..0023926 100644
--- a/src/rinex/doris_rinex.cpp
+++ b/src/rinex/doris_rinex.cpp
@@ -2,11 +2,28 @@
 #include "datetime/datetime_read.hpp"
 #include <algorithm>
 #include <cctype>
+#include <cstring>
 #include <stdexcept>
 #ifdef DEBUG
 #include "datetime/datetime_write.hpp"
 #endif
 
+namespace {
+/// Fill the part of a line buffer after its current content with whitespaces
+void pad_line(char *line, int size) noexcept {
+  const int len = std::strlen(line);
+  std::memset(line + len, ' ', size - 1 - len);
+  line[size - 1] = '\0';
+}
+
+/// Check that a (null-terminated) field has nothing but whitespaces
+bool is_blank(const char *str) noexcept {
+  while (*str == ' ')
+    ++str;
+  return *str == '\0';
+}
+} // namespace
+
 /// The constructor will try to:
 /// 1. open the input file
 /// 2. parse the header
@@ -70,7 +87,14 @@ void dso::DorisObsRinex::skip_data_block(
     const dso::RinexDataRecordHeader &hdr) noexcept {
   char line[MAX_RECORD_CHARS];
   for (int i = 0; i < hdr.m_num_stations * m_lines_per_beacon; i++) {
-    m_stream.getline(line, MAX_RECORD_CHARS);
+    const int obs_in_line = std::min(
+        5, (int)m_obs_codes.size() - 5 * (i % m_lines_per_beacon));
+    if (!m_stream.getline(line, MAX_RECORD_CHARS) ||
+        (m_stream.eof() && (int)std::strlen(line) < 3 + obs_in_line * 16)) {
+      // an incomplete block should not be mistaken for the end of the file
+      m_stream.clear(std::ios_base::badbit);
+      return;
+    }
   }
   return;
 }
@@ -132,7 +156,7 @@ void dso::DorisObsRinex::read() {
 int dso::DorisObsRinex::read_data_block(
     dso::RinexDataRecordHeader &hdr,
     std::vector<BeaconObservations> &obsvec) noexcept {
-  static char line[MAX_RECORD_CHARS];
+  char line[MAX_RECORD_CHARS];
   if (!obsvec.empty())
     obsvec.clear();
 
@@ -153,12 +177,23 @@ int dso::DorisObsRinex::read_data_block(
     while (curobs < (int)m_obs_codes.size()) {
       // should we change/get the next line ?
       if (!(curobs % 5)) {
-        m_stream.getline(line, MAX_RECORD_CHARS);
+        if (!m_stream.getline(line, MAX_RECORD_CHARS))
+          return 3;
+        // a line without a newline is complete only if all of its fields are
+        // there
+        const int obs_in_line =
+            std::min(5, (int)m_obs_codes.size() - curobs);
+        if (m_stream.eof() && (int)std::strlen(line) < 3 + obs_in_line * 16)
+          return 3;
+        // trailing whitespaces may be missing
+        pad_line(line, MAX_RECORD_CHARS);
         // if this is the first data line for the beacon, get its code
         if (!curline) {
           if ((*line) != 'D')
             return 1;
           std::memcpy(obsvec_it->m_beacon_id, line, 3);
+        } else if (std::strncmp(line, "   ", 3)) {
+          return 1;
         }
         ++curline;
       }
@@ -182,6 +217,9 @@ int dso::DorisObsRinex::read_data_block(
         if (end == buf)
           return 2;
       }
+      // nothing else but the value allowed in the field
+      if (!buf_is_empty && !is_blank(end))
+        return 2;
       // push value to the current BeaconObservations instance (in-place)
       // WAIT! check if we have a scale factor for the observable (note that
       // the m_obs_scale_factors are in one-to-one correspondance with the
@@ -189,7 +227,8 @@ int dso::DorisObsRinex::read_data_block(
       // index of the observable. If no scale factor for the observable exists,
       // then the m_obs_scale_factors should have an '1' in the corresponding
       // index
-      val /= m_obs_scale_factors[curobs];
+      if (val != OBSERVATION_VALUE_MISSING)
+        val /= m_obs_scale_factors[curobs];
       obsvec_it->m_values.emplace_back(val, flagm1, flagm2);
       ++curobs;
     }
@@ -237,15 +276,25 @@ int dso::DorisObsRinex::read_data_block(
 ///   +-------------------------+-----------+------------------------------
 ///
 int dso::DorisObsRinex::resolve_data_epoch(
-    const char *line, dso::RinexDataRecordHeader &hdr) const noexcept {
-  if (*line != '>')
+    const char *record, dso::RinexDataRecordHeader &hdr) const noexcept {
+  if (*record != '>')
     return 1; // must start with '>' character
 
+  // work on a copy, trailing whitespaces may be missing
+  char line[MAX_RECORD_CHARS] = {'\0'};
+  std::strncpy(line, record, MAX_RECORD_CHARS - 1);
+  pad_line(line, MAX_RECORD_CHARS);
+
   char *end;
   int status = 0;
 
   try {
     hdr.m_epoch = dso::strptime_ymd_hms<dso::nanoseconds>(line + 2, &end);
+    // nothing else in the epoch field
+    while (end < line + 31 && *end == ' ')
+      ++end;
+    if (end != line + 31)
+      status = 2;
   } catch (std::exception &e) {
     status = status ? status : 2;
   }
@@ -263,7 +312,7 @@ int dso::DorisObsRinex::resolve_data_epoch(
   std::memcpy(tbuf, line + 31, 3);
   // hdr.m_flag = static_cast<int_fast8_t>(std::strtol(line + 31, &end, 10));
   hdr.m_flag = static_cast<int_fast8_t>(std::strtol(tbuf, &end, 10));
-  if (end == tbuf || errno) {
+  if (end != tbuf + 3 || errno) {
     errno = 0;
     status = status ? status : 3;
   }
@@ -272,7 +321,7 @@ int dso::DorisObsRinex::resolve_data_epoch(
   // hdr.m_num_stations =
   //     static_cast<int_fast16_t>(std::strtol(line + 34, &end, 10));
   hdr.m_num_stations = static_cast<int_fast16_t>(std::strtol(tbuf, &end, 10));
-  if (end == tbuf || errno) {
+  if (end != tbuf + 3 || errno || hdr.m_num_stations < 0) {
     errno = 0;
     status = status ? status : 4;
   }
@@ -285,8 +334,10 @@ int dso::DorisObsRinex::resolve_data_epoch(
     }
   }
   if (has_clock_offset) {
-    hdr.m_clock_offset = std::strtod(line + 43, &end);
-    if (errno || end == line + 43) {
+    char dbuf[14] = {'\0'};
+    std::memcpy(dbuf, line + 43, 13);
+    hdr.m_clock_offset = std::strtod(dbuf, &end);
+    if (errno || end == dbuf || !is_blank(end)) {
       errno = 0;
       status = status ? status : 5;
     }
@@ -294,8 +345,10 @@ int dso::DorisObsRinex::resolve_data_epoch(
     hdr.m_clock_offset = RECEIVER_CLOCK_OFFSET_MISSING;
   }
 
-  hdr.m_clock_flag = static_cast<int_fast8_t>(std::strtol(line + 56, &end, 10));
-  if (errno || end == line + 56) {
+  // the flag is left blank if there is no clock offset
+  std::memcpy(tbuf, line + 56, 3);
+  hdr.m_clock_flag = static_cast<int_fast8_t>(std::strtol(tbuf, &end, 10));
+  if (errno || (end == tbuf && has_clock_offset) || !is_blank(end)) {
     errno = 0;
     status = status ? status : 6;
   }
diff --git a/src/rinex/rnx_datablock_iterator.cpp b/src/rinex/rnx_datablock_iterator.cpp
index 7ad1511..9de8417 100644
--- a/src/rinex/rnx_datablock_iterator.cpp
+++ b/src/rinex/rnx_datablock_iterator.cpp
@@ -13,6 +13,13 @@ int dso::RinexDataBlockIterator::next() noexcept {
     return 1;
   }
 
+  // a line without a newline is a truncated one
+  if (rnx->stream().eof()) {
+    fprintf(stderr, "[ERROR] Truncated RINEX file (traceback: %s)\n",
+            __func__);
+    return 1;
+  }
+
   // ... this should be a data record line; resolve it
   if (int error = rnx->resolve_data_epoch(line, cheader); error) {
     fprintf(stderr,
-- 
2.43.0


From 46569656ef6c8add810620bb8032dbe663a1c529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:46 +0000
Subject: [PATCH 10/58] fix: beacon table: detect read errors and incomplete or
 malformed lines, stale errno, long file names

---
 src/beacon_tbl.hpp            |  5 +++--
 src/beacon_tbl/beacon_tbl.cpp | 39 ++++++++++++++++++++++++++++++-----
 2 files changed, 37 insertions(+), 7 deletions(-)

diff --git a/src/beacon_tbl.hpp b/src/beacon_tbl.hpp
index f4bd343..747f761 100644
--- a/src/beacon_tbl.hpp
+++ b/src/beacon_tbl.hpp
@@ -4,6 +4,7 @@
 #include "datetime/datetime_read.hpp"
 #include <cstring>
 #include <fstream>
+#include <string>
 #include <vector>
 
 namespace dso {
@@ -26,10 +27,10 @@ struct BeaconInformationTableEntry {
 };
 
 class BeaconInformationTable {
-  char fn_[256];
+  std::string fn_;
 
 public:
-  BeaconInformationTable(const char *fn) noexcept { std::strcpy(fn_, fn); }
+  BeaconInformationTable(const char *fn) : fn_(fn) {}
   BeaconInformationTable(const BeaconInformationTable &) = delete;
   BeaconInformationTable(BeaconInformationTable &&) = delete;
   BeaconInformationTable &operator=(const BeaconInformationTable &) = delete;
diff --git a/src/beacon_tbl/beacon_tbl.cpp b/src/beacon_tbl/beacon_tbl.cpp
index 100727b..4a0266b 100644
--- a/src/beacon_tbl/beacon_tbl.cpp
+++ b/src/beacon_tbl/beacon_tbl.cpp
@@ -1,12 +1,16 @@
 #include "beacon_tbl.hpp"
+#include <cerrno>
+#include <cstdio>
+#include <cstdlib>
 #include <stdexcept>
 
 std::vector<dso::BeaconInformationTableEntry>
 dso::BeaconInformationTable::load_to_memmory(
     const dso::datetime<dso::nanoseconds> &t) {
-  std::ifstream fin(fn_);
+  const char *fn = fn_.c_str();
+  std::ifstream fin(fn);
   if (!fin.is_open()) {
-    fprintf(stderr, "ERROR. Failed to open file %s (traceback: %s)\n", fn_,
+    fprintf(stderr, "ERROR. Failed to open file %s (traceback: %s)\n", fn,
             __func__);
     throw std::runtime_error("Open file error");
   }
@@ -15,17 +19,35 @@ dso::BeaconInformationTable::load_to_memmory(
   vec.reserve(60);
 
   char line[256], name[4];
-  fin.getline(line, 256); // header
+  if (!fin.getline(line, 256) || fin.eof()) { // header
+    fprintf(stderr, "ERROR. Failed to read file %s (traceback: %s)\n", fn,
+            __func__);
+    throw std::runtime_error("Read file error");
+  }
 
   char *end;
   while (fin.getline(line, 256)) {
+    // a line shorter than expected, or the last line with no newline if any of
+    // its characters are missing
+    const int len = std::strlen(line);
+    if (len < 46 || (fin.eof() && len < 54)) {
+      fprintf(stderr, "ERROR. Incomplete line \'%s\' (traceback: %s)\n", line,
+              __func__);
+      throw std::runtime_error("Parse file error");
+    }
     std::memcpy(name, line, 4 * sizeof(char));
     const auto from = dso::strptime_ymd_hms<dso::nanoseconds>(line + 5, &end);
+    const bool from_ok = (end == line + 24);
     const auto to = dso::strptime_ymd_hms<dso::nanoseconds>(line + 24, &end);
+    const bool to_ok = (end == line + 44);
+    errno = 0;
     double height = std::strtod(line + 45, &end);
-    if (errno || end == line + 45) {
+    const bool height_ok = !(errno || end == line + 45);
+    while (*end == ' ')
+      ++end;
+    if (!from_ok || !to_ok || !height_ok || *end) {
       fprintf(stderr,
-              "ERROR. Failed resolving beacon height from line \'%s\' "
+              "ERROR. Failed resolving beacon information from line \'%s\' "
               "(traceback: %s)\n",
               line, __func__);
       throw std::runtime_error("Parse file error");
@@ -35,5 +57,12 @@ dso::BeaconInformationTable::load_to_memmory(
     }
   }
 
+  // did we stop because there is nothing more to read ?
+  if (!fin.eof()) {
+    fprintf(stderr, "ERROR. Failed to read file %s (traceback: %s)\n", fn,
+            __func__);
+    throw std::runtime_error("Read file error");
+  }
+
   return vec;
 }
\ No newline at end of file
-- 
2.43.0


From 433d3ac9f790d8f629373593aa4e0f021795dd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:46 +0000
Subject: [PATCH 11/58] fix: satellite mass history: resolve dates and values
 correctly, stop at the first later event, report read errors

---
 src/satellites/satellite_corrections.cpp | 45 ++++++++++++++++++------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/src/satellites/satellite_corrections.cpp b/src/satellites/satellite_corrections.cpp
index e602c04..cd66735 100644
--- a/src/satellites/satellite_corrections.cpp
+++ b/src/satellites/satellite_corrections.cpp
@@ -1,6 +1,7 @@
 #include "satellites.hpp"
 #include <charconv>
 #include <cstdio>
+#include <cstring>
 #include <fstream>
 
 int dso::get_satellite_corrections(const char *j3mass,
@@ -27,38 +28,52 @@ int dso::get_satellite_corrections(const char *j3mass,
     // check for comment lines ...
     if (line[0] != 'C' && line[0] != '/') {
       const char *c = line;
-      char *last = line + 255;
+      const char *last = line + std::strlen(line);
+
+      // a line with no newline may be missing some of its characters
+      if (fin.eof()) {
+        ++error;
+        break;
+      }
 
       // remove whitespace chars
-      while (*c++ == ' '); 
+      while (*c == ' ')
+        ++c;
 
       // first resolve datetime from Julian date
       double cjd, csec;
       auto pec = std::from_chars(c, last, cjd);
       c = pec.ptr;
-      if (*c++ != ' ' || pec.ec != std::errc{}) {
+      if (*c != ' ' || pec.ec != std::errc{}) {
         ++error;
+        break;
       }
-      while (*c++ == ' ');
+      while (*c == ' ')
+        ++c;
       pec = std::from_chars(c, last, csec);
       c = pec.ptr;
-      if (*c++ != ' ' || pec.ec != std::errc{}) {
+      if (*c != ' ' || pec.ec != std::errc{}) {
         ++error;
+        break;
       }
 
       // reached a date later than the requested, end here
-      if (error || (cjd >= jd && csec >= sec))
+      if ((cjd - jd) * 86400e0 + (csec - sec) >= 0e0)
         break;
 
       // prior date, update corrections
+      double corrections[4];
       for (int i = 0; i < 4; i++) {
-        while (*c++ == ' ');
-        pec = std::from_chars(c, last, dmdxyz[i]);
-        c = pec.ptr + 1;
-        if (/**c++ != ' ' || */pec.ec != std::errc{}) {
+        while (*c == ' ')
+          ++c;
+        pec = std::from_chars(c, last, corrections[i]);
+        c = pec.ptr;
+        if ((*c != ' ' && *c != '\0') || pec.ec != std::errc{}) {
           ++error;
         }
       }
+      for (int i = 0; i < 4 && !error; i++)
+        dmdxyz[i] = corrections[i];
     }
   }
 
@@ -71,5 +86,15 @@ int dso::get_satellite_corrections(const char *j3mass,
     return error;
   }
 
+  // stopped because of a read error, before the requested date or the end of
+  // file
+  if (fin.bad() || (fin.fail() && !fin.eof())) {
+    fprintf(stderr,
+            "[ERROR] Failed reading satellite information file: %s (traceback: "
+            "%s)\n",
+            j3mass, __func__);
+    return 2;
+  }
+
   return 0;
 }
-- 
2.43.0


From 5f5ed2f59c34dcaa81f211eae3d79d4382c8c5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:46 +0000
Subject: [PATCH 12/58] fix: Jason-3 quaternions: fill the buffer, report
 epochs before it, never use damaged or partial records

---
 src/satellites/jason3_quaternions.cpp | 76 ++++++++++++++++++---------
 1 file changed, 52 insertions(+), 24 deletions(-)

diff --git a/src/satellites/jason3_quaternions.cpp b/src/satellites/jason3_quaternions.cpp
index a4565c9..9706326 100644
--- a/src/satellites/jason3_quaternions.cpp
+++ b/src/satellites/jason3_quaternions.cpp
@@ -2,6 +2,7 @@
 #include "jason3_quaternions.hpp"
 #include <charconv>
 #include <cstdio>
+#include <cstring>
 #include <datetime/dtfund.hpp>
 #include <exception>
 #include <fstream>
@@ -25,11 +26,18 @@ int resolve_jason3_body_quaternion_line(
     return 1;
   }
 
-  const char *last = line + 255;
+  const char *last = line + std::strlen(line);
   int error = 0;
   double qdata[4]; // temporary quaternion buffer
 
   // skip field UI1 and tab character
+  if (last - line < 23 + 1 + 10 + 1) {
+    fprintf(stderr,
+            "[ERROR] Incomplete (body) Jason-3 quaternion line: \'%s\' "
+            "(traceback: %s)\n",
+            line, __func__);
+    return 1;
+  }
   const char *c = line+23+1;
 
   // UI1 -- 10 chars, unused value
@@ -48,6 +56,10 @@ int resolve_jason3_body_quaternion_line(
     c += 4 + 1;
     // UI3 -- 10 chars, unused value
     c += 10 + 1;
+    if (c >= last) {
+      ++error;
+      break;
+    }
     pec = std::from_chars(c, last, qdata[i + 1]);
     c = pec.ptr;
     if (*c++ != '\t' || pec.ec != std::errc{}) {
@@ -80,11 +92,17 @@ int resolve_jason3_body_quaternion_line(
 
 dso::JasonQuaternionHunter::JasonQuaternionHunter(const char *body_fn)
     : bodyin(body_fn) {
-  // read-in the first two quaternions
-  if (bodyin.get_next(bodyq, 2)) {
+  // read-in the first two quaternions; they are the last two in the buffer
+  constexpr const int i0 = NumQuaternionsInBuffer - 2;
+  if (bodyin.get_next(bodyq + i0, 2) ||
+      !(bodyq[i0 + 1].tai_mjd > bodyq[i0].tai_mjd)) {
     throw std::runtime_error(
         "ERROR JasonQuaternionHunter failed to caonstruct\n");
   }
+  // there is nothing before the first, i.e. only (empty) intervals of the same
+  // record
+  for (int i = 0; i < i0; i++)
+    bodyq[i] = bodyq[i0];
 }
 
 int dso::JasonBodyQuaternionFile::get_next(
@@ -96,27 +114,23 @@ int dso::JasonBodyQuaternionFile::get_next(
   }
   
   // skip commanet lines, if any
-  while (line[0] == '#' && fin.good())
-    fin.getline(line, LINE_SZ);
-  
-  return resolve_jason3_body_quaternion_line(line, record);
+  while (line[0] == '#') {
+    if (!fin.getline(line, LINE_SZ))
+      return 2;
+  }
+
+  const int error = resolve_jason3_body_quaternion_line(line, record);
+  // do not skip damaged records, there is no next to the previous one
+  if (error)
+    fin.setstate(std::ios_base::badbit);
+  return error;
 }
 
 int dso::JasonBodyQuaternionFile::get_next(dso::JasonBodyQuaternion *records,
                                            int num_records) noexcept {
-  char line[LINE_SZ];
   for (int i = 0; i < num_records; i++) {
-    if (!fin.getline(line, LINE_SZ)) {
-      fprintf(stderr, "[ERROR] Failed to read line from quaternion file! (traceback: %s)\n", __func__);
-      return 2;
-    }
-
-    // skip comment lines, if any
-    while (line[0] == '#' && fin.good())
-      fin.getline(line, LINE_SZ);
-    
-    if (resolve_jason3_body_quaternion_line(line, records[i]))
-      return i*10;
+    if (int error = get_next(records[i]); error)
+      return error + i * 10;
   }
 
   return 0;
@@ -126,7 +140,13 @@ int dso::JasonQuaternionHunter::set_at(double tai_mjd, int &index) noexcept {
   // first, check if we are ok, i.e. the time requested is within the buffered
   // interval
   index = this->find_interval(tai_mjd);
-  assert(index >= 0);
+  if (index < 0) {
+    fprintf(stderr,
+            "[ERROR] Requested quaternion for an epoch prior to the ones "
+            "available, t=%.15f (traceback: %s)\n",
+            tai_mjd, __func__);
+    return 1;
+  }
   if (index < NumQuaternionsInBuffer) {
     return 0;
   }
@@ -141,10 +161,11 @@ int dso::JasonQuaternionHunter::set_at(double tai_mjd, int &index) noexcept {
     return 1;
   }
 
-  // new quternion temporarilly stored in tmp
-#ifdef DEBUG
-  assert(tmp.tai_mjd > bodyq[NumQuaternionsInBuffer - 1].tai_mjd);
-#endif
+  // new quternion temporarilly stored in tmp; records must be in order
+  if (!(tmp.tai_mjd > bodyq[NumQuaternionsInBuffer - 1].tai_mjd)) {
+    bodyin.fin.setstate(std::ios_base::badbit);
+    return 1;
+  }
 
   // check if we are ok with this pair ...
   if (tai_mjd >= bodyq[NumQuaternionsInBuffer - 1].tai_mjd &&
@@ -172,6 +193,13 @@ int dso::JasonQuaternionHunter::set_at(double tai_mjd, int &index) noexcept {
 
     do {
       error = bodyin.get_next(tmp);
+      // keep what we have if there is no next record, or it is not in order
+      if (!error && !(tmp.tai_mjd > bodyq[NumQuaternionsInBuffer - 1].tai_mjd)) {
+        bodyin.fin.setstate(std::ios_base::badbit);
+        error = 1;
+      }
+      if (error)
+        break;
       left_shift();
       bodyq[NumQuaternionsInBuffer - 1] = tmp;
       // bodyq[0] = tmp;
-- 
2.43.0


From 5c1affbc49775434f2420f31a0e0316aba7747c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:43 +0000
Subject: [PATCH 13/58] fix: C04 parser: refuse gaps, repeated dates, damaged
 or truncated fields, read errors; rotation rate offset was never set

---
 src/iers/parse_c04.cpp | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/iers/parse_c04.cpp b/src/iers/parse_c04.cpp
index 9af4ea6..3fd3fa8 100644
--- a/src/iers/parse_c04.cpp
+++ b/src/iers/parse_c04.cpp
@@ -45,6 +45,13 @@ int dso::parse_iers_C04(const char *c04fn, dso::modified_julian_day start_mjd,
 
   // if needed, resize the EOP table, interval is [start.end)
   int days = end_mjd.as_underlying_type() - start_mjd.as_underlying_type();
+  if (days < 0) {
+    fprintf(stderr,
+            "[ERROR] Invalid interval requested from EOP file %s (traceback: "
+            "%s)\n",
+            c04fn, __func__);
+    return 1;
+  }
   eoptable.resize(days);
 
   char line[MAX_LINE_CHARS];
@@ -59,10 +66,11 @@ int dso::parse_iers_C04(const char *c04fn, dso::modified_julian_day start_mjd,
     if (*line && (*line != ' ' && *line != '#')) {
       // skip the data (YYYY MM DD) which is 12 chars length
       // get the mjd
-      start = next_num(line + 12);
       end = line + std::strlen(line);
+      start = (end - line > 12) ? next_num(line + 12) : end;
       auto fcr = std::from_chars(start, end, imjd);
-      if (fcr.ec != std::errc() || fcr.ptr == start) {
+      if (fcr.ec != std::errc() || fcr.ptr == start ||
+          (*fcr.ptr && *fcr.ptr != ' ')) {
         fprintf(stderr,
                 "[ERROR] Failed resolving EOP line [%s]. EOP file is %s "
                 "(traceback: %s/err=A)\n",
@@ -76,6 +84,15 @@ int dso::parse_iers_C04(const char *c04fn, dso::modified_julian_day start_mjd,
       // if the date is ok, collect data
       if (cmjd >= start_mjd && cmjd < end_mjd) {
         error = 0;
+        // dates should be consecutive, starting from start_mjd
+        if (cmjd.as_underlying_type() !=
+            start_mjd.as_underlying_type() + sz) {
+          fprintf(stderr,
+                  "[ERROR] Missing, repeated or unsorted date at EOP line [%s]. "
+                  "EOP file is %s (traceback: %s)\n",
+                  line, c04fn, __func__);
+          return 3;
+        }
         // do we need to transform the given UTC date to TAI?
         if (utc2tt) {
           dso::modified_julian_day tai_mjd;
@@ -90,7 +107,10 @@ int dso::parse_iers_C04(const char *c04fn, dso::modified_julian_day start_mjd,
         for (int i = 0; i < 6; i++) {
           start = next_num(fcr.ptr);
           fcr = std::from_chars(start, end, data[i]);
-          if (fcr.ec != std::errc() || fcr.ptr == start) {
+          // note that a number ending at the end of a file (with no newline)
+          // may be missing digits
+          if (fcr.ec != std::errc() || fcr.ptr == start ||
+              (*fcr.ptr && *fcr.ptr != ' ') || (!*fcr.ptr && fin.eof())) {
             // fprintf(stderr, "[ERROR] i=%d, line=\"%s\"\n", i, start);
             ++error;
           }
@@ -111,6 +131,7 @@ int dso::parse_iers_C04(const char *c04fn, dso::modified_julian_day start_mjd,
         *(eoptable.lod(sz)) = data[3];
         *(eoptable.dx(sz)) = data[4];
         *(eoptable.dy(sz)) = data[5];
+        *(eoptable.omega(sz)) = 0e0; // not in file
 
         ++sz;
       } else if (cmjd >= end_mjd) {
@@ -120,6 +141,14 @@ int dso::parse_iers_C04(const char *c04fn, dso::modified_julian_day start_mjd,
     } // if (line[0] != ' ') ...
   } // end reading lines
 
+  // stopped because of a read error or an overlong line
+  if (fin.bad() || (fin.fail() && !fin.eof())) {
+    fprintf(stderr,
+            "[ERROR] Failed reading EOP (C04) file %s (traceback: %s)\n",
+            c04fn, __func__);
+    return 1;
+  }
+
   // we were supposed to collect:
   return !(days == sz);
 }
-- 
2.43.0


From 7751bc06531be7bb40b290f4c553e2d1564078a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:43 +0000
Subject: [PATCH 14/58] fix: EOP tables keep their values when copied, moved or
 resized; lookups outside the table fail, results do not depend on the record
 passed in

---
 src/eop.hpp                  | 83 +++++++++++++++++-------------------
 src/iers/eop_interpolate.cpp |  6 ++-
 2 files changed, 43 insertions(+), 46 deletions(-)

diff --git a/src/eop.hpp b/src/eop.hpp
index c22744d..d721ce5 100644
--- a/src/eop.hpp
+++ b/src/eop.hpp
@@ -35,6 +35,25 @@ private:
       *loda{nullptr},    ///< [sec/day], start index = 6
       *omegaa{nullptr};  ///< [?], start index = 7
 
+  /// @brief Set the arrays to point to their place within the memory pool
+  void set_pointers() noexcept {
+    mjda = mem_arena;
+    xpa = mem_arena + capacity;
+    ypa = mem_arena + 2 * capacity;
+    ut1a = mem_arena + 3 * capacity;
+    dxa = mem_arena + 4 * capacity;
+    dya = mem_arena + 5 * capacity;
+    loda = mem_arena + 6 * capacity;
+    omegaa = mem_arena + 7 * capacity;
+  }
+
+  /// @brief Copy the elements of another instance, of the same size
+  void copy_elements(const EopLookUpTable &eopt) noexcept {
+    for (int i = 0; i < 8 && sz > 0; i++)
+      std::memcpy(mem_arena + i * capacity, eopt.mem_arena + i * eopt.capacity,
+                  sz * sizeof(double));
+  }
+
 public:
   int size() const noexcept { return sz; }
 
@@ -144,26 +163,25 @@ public:
         dya(mem_arena + 5 * _capacity), loda(mem_arena + 6 * _capacity),
         omegaa(mem_arena + 7 * _capacity) {}
 
-  /// @brief Resize; alocation/dealocation depends on capacity
+  /// @brief Resize; alocation/dealocation depends on capacity. Elements already
+  ///        stored (up to the new size) are kept
   void resize(int sz_) noexcept {
     // no need to dealocate/alocate; just change the effective size
-    if (sz_ < capacity) {
+    if (sz_ <= capacity) {
       sz = sz_;
       return;
     } else {
       // requested size (sz_) > current capacity. need to allocate memory!
-      delete[] mem_arena;
+      double *old_arena = mem_arena;
+      const int old_capacity = capacity;
+      mem_arena = new double[sz_ * 8];
+      for (int i = 0; i < 8 && sz > 0; i++)
+        std::memcpy(mem_arena + i * sz_, old_arena + i * old_capacity,
+                    sz * sizeof(double));
+      delete[] old_arena;
       sz = sz_;
       capacity = sz_;
-      mem_arena = new double[capacity * 8];
-      mjda = mem_arena;
-      xpa = mem_arena + capacity;
-      ypa = mem_arena + 2 * capacity;
-      ut1a = mem_arena + 3 * capacity;
-      dxa = mem_arena + 4 * capacity;
-      dya = mem_arena + 5 * capacity;
-      loda = mem_arena + 6 * capacity;
-      omegaa = mem_arena + 7 * capacity;
+      set_pointers();
     }
   }
 
@@ -176,7 +194,7 @@ public:
 
   /// @brief Move constructor
   EopLookUpTable(EopLookUpTable &&eopt) noexcept
-      : sz{eopt.sz}, capacity{eopt.sz}, mem_arena{eopt.mem_arena},
+      : sz{eopt.sz}, capacity{eopt.capacity}, mem_arena{eopt.mem_arena},
         mjda{eopt.mjda}, xpa{eopt.xpa}, ypa{eopt.ypa}, ut1a{eopt.ut1a},
         dxa{eopt.dxa}, dya{eopt.dya}, loda{eopt.loda}, omegaa{eopt.omegaa} {
     eopt.sz = eopt.capacity = 0;
@@ -189,21 +207,7 @@ public:
       if (sz != eopt.sz) {
         this->resize(eopt.sz);
       }
-      mjda = (double *)std::memcpy(mem_arena, eopt.mem_arena, sz);
-      xpa = (double *)std::memcpy(mem_arena + 1 * capacity,
-                                  eopt.mem_arena + 1 * eopt.capacity, sz);
-      ypa = (double *)std::memcpy(mem_arena + 2 * capacity,
-                                  eopt.mem_arena + 2 * eopt.capacity, sz);
-      ut1a = (double *)std::memcpy(mem_arena + 3 * capacity,
-                                   eopt.mem_arena + 3 * eopt.capacity, sz);
-      dxa = (double *)std::memcpy(mem_arena + 4 * capacity,
-                                  eopt.mem_arena + 4 * eopt.capacity, sz);
-      dya = (double *)std::memcpy(mem_arena + 5 * capacity,
-                                  eopt.mem_arena + 5 * eopt.capacity, sz);
-      loda = (double *)std::memcpy(mem_arena + 6 * capacity,
-                                   eopt.mem_arena + 6 * eopt.capacity, sz);
-      omegaa = (double *)std::memcpy(mem_arena + 7 * capacity,
-                                     eopt.mem_arena + 7 * eopt.capacity, sz);
+      copy_elements(eopt);
     }
     return *this;
   }
@@ -211,9 +215,10 @@ public:
   /// @brief Move assignment operator
   EopLookUpTable &operator=(EopLookUpTable &&eopt) noexcept {
     if (this != &eopt) {
+      delete[] mem_arena;
       // just move elements ...
       sz = eopt.sz;
-      capacity = eopt.sz;
+      capacity = eopt.capacity;
       mem_arena = eopt.mem_arena;
       mjda = eopt.mjda;
       xpa = eopt.xpa;
@@ -234,22 +239,10 @@ public:
   /// @brief Copy constructor. The created copy will have a capacity and size
   ///        (both) equal to eopt's size.
   EopLookUpTable(const EopLookUpTable &eopt) noexcept
-      : sz{eopt.sz}, capacity{eopt.sz}, mem_arena(new double[capacity * 8]),
-        mjda((double *)std::memcpy(mem_arena, eopt.mem_arena, sz)),
-        xpa((double *)std::memcpy(mem_arena + 1 * capacity,
-                                  eopt.mem_arena + 1 * eopt.capacity, sz)),
-        ypa((double *)std::memcpy(mem_arena + 2 * capacity,
-                                  eopt.mem_arena + 2 * eopt.capacity, sz)),
-        ut1a((double *)std::memcpy(mem_arena + 3 * capacity,
-                                   eopt.mem_arena + 3 * eopt.capacity, sz)),
-        dxa((double *)std::memcpy(mem_arena + 4 * capacity,
-                                  eopt.mem_arena + 4 * eopt.capacity, sz)),
-        dya((double *)std::memcpy(mem_arena + 5 * capacity,
-                                  eopt.mem_arena + 5 * eopt.capacity, sz)),
-        loda((double *)std::memcpy(mem_arena + 6 * capacity,
-                                   eopt.mem_arena + 6 * eopt.capacity, sz)),
-        omegaa((double *)std::memcpy(mem_arena + 7 * capacity,
-                                     eopt.mem_arena + 7 * eopt.capacity, sz)) {}
+      : sz{eopt.sz}, capacity{eopt.sz}, mem_arena(new double[capacity * 8]) {
+    set_pointers();
+    copy_elements(eopt);
+  }
 
   /// @brief Compute the effect of zonal Earth tides on the rotation of the
   ///        Earth (using iers2010::rg_zont2 on UT1-UTC, LOD and
diff --git a/src/iers/eop_interpolate.cpp b/src/iers/eop_interpolate.cpp
index 772c9e4..c8415ab 100644
--- a/src/iers/eop_interpolate.cpp
+++ b/src/iers/eop_interpolate.cpp
@@ -33,6 +33,9 @@ int dso::EopLookUpTable::interpolate_lagrange(
     return 1;
   }
 
+  // rotation rate (offset) is not interpolated
+  eopr.omega = 0e0;
+
   // remember to assign date to the filled-in instance
   eopr.mjd = tt_fmjd;
 
@@ -43,7 +46,8 @@ int dso::EopLookUpTable::interpolate(double tt_fmjd,
                                      dso::EopRecord &eopr, int order) const noexcept {
 
   // perform simple interpolation (lagrangian)
-  dso::EopLookUpTable::interpolate_lagrange(tt_fmjd, eopr, order);
+  if (int error = interpolate_lagrange(tt_fmjd, eopr, order); error)
+    return error;
 
   // TT as Julian centuries since J2000 (try to keep accuracy)
   double imjd;
-- 
2.43.0


From fbe56e4422b79c1c605623cf57c6f26f7ff9e8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:19 +0000
Subject: [PATCH 15/58] fix: space weather file: find every day that is there,
 refuse missing or damaged ones, keep the position usable

---
 src/var/celestrak_swdata.cpp | 146 ++++++++++++++++++-----------------
 1 file changed, 77 insertions(+), 69 deletions(-)

diff --git a/src/var/celestrak_swdata.cpp b/src/var/celestrak_swdata.cpp
index 5e66737..ad70cb7 100644
--- a/src/var/celestrak_swdata.cpp
+++ b/src/var/celestrak_swdata.cpp
@@ -23,6 +23,17 @@ constexpr const char header[] =
 // F10.7_OBS_LAST81 -> 29
 // F10.7_ADJ_CENTER81 -> 30
 
+/// @brief Move c to the start of the column that is n columns further on
+/// @return Anything other than 0 denotes that the line has no such column
+static int skip_columns(const char *&c, int n) noexcept {
+  while (n--) {
+    if (!(c = std::strchr(c, ',')))
+      return 1;
+    ++c;
+  }
+  return 0;
+}
+
 int dso::utils::celestrak::details::resolve_csv_line_records(
     const char *line,
     dso::utils::celestrak::details::CelestTrakSWFlux &flux_data) noexcept {
@@ -36,26 +47,20 @@ int dso::utils::celestrak::details::resolve_csv_line_records(
   const auto sz = std::strlen(line);
   const char *c = line;
 
-  // find and skip 12 ',' chars
-  int commas = 0;
-  while (*c++ && commas < 12) {
-    if (*c == ',') {
-      ++commas;
-    }
-  }
-  if (!*c) {
+  // skip 12 columns
+  if (skip_columns(c, 12)) {
     return 2;
   }
 
-  // last character in the string, the limit for conversions
-  const char *last = line + sz - 1;
+  // one past the last character in the string, the limit for conversions
+  const char *last = line + sz;
 
   // resolve the 8 hourly AP's (these are ints)
   int i = 0;
   while (i < 8) {
     auto pec = std::from_chars(c, last, flux_data.ApIndexes[i]);
     c = pec.ptr;
-    if (*c++ != ',' || pec.ec != std::errc{}) {
+    if (pec.ec != std::errc{} || *c++ != ',') {
       return 3 + i;
     }
     ++i;
@@ -71,14 +76,7 @@ int dso::utils::celestrak::details::resolve_csv_line_records(
 
   // we are now at column CP; skip and, and do so also for columns:
   // C9, ISN
-  // Go three ',' forward
-  commas = 0;
-  while (*c++ && commas < 3) {
-    if (*c == ',') {
-      ++commas;
-    }
-  }
-  if (!*c) {
+  if (skip_columns(c, 3)) {
     return 12;
   }
 
@@ -97,6 +95,8 @@ int dso::utils::celestrak::details::resolve_csv_line_records(
   }
 
   // we are now at the F10.7_DATA_TYPE; just copy three chars
+  if (last - c < 4)
+    return 15;
   std::memcpy(flux_data.flag, c, 3 * sizeof(char));
   c += 3;
   if (*c++ != ',')
@@ -131,19 +131,30 @@ int dso::utils::celestrak::details::resolve_csv_line_records(
 
 int dso::utils::celestrak::details::resolve_csv_line_date(
     const char *line, dso::modified_julian_day &mjd) noexcept {
-  // date format: 2017-01-10
+  // date format: 2017-01-10 (followed by a comma)
+  if (std::strlen(line) < 11 || line[4] != '-' || line[7] != '-' ||
+      line[10] != ',')
+    return 1;
   int year, month, day;
   // year ...
   auto pec = std::from_chars(line, line + 4, year);
-  if (pec.ec != std::errc{})
+  if (pec.ec != std::errc{} || pec.ptr != line + 4)
     return 1;
   // month ...
   pec = std::from_chars(line + 5, line + 7, month);
-  if (pec.ec != std::errc{})
+  if (pec.ec != std::errc{} || pec.ptr != line + 7)
     return 1;
   // day ...
   pec = std::from_chars(line + 8, line + 10, day);
-  if (pec.ec != std::errc{})
+  if (pec.ec != std::errc{} || pec.ptr != line + 10)
+    return 1;
+  // is this a valid date ?
+  constexpr const int mdays[] = {31, 28, 31, 30, 31, 30,
+                                 31, 31, 30, 31, 30, 31};
+  if (year < 0 || month < 1 || month > 12)
+    return 1;
+  const bool leap = (year % 4 == 0 && year % 100) || year % 400 == 0;
+  if (day < 1 || day > mdays[month - 1] + (month == 2 && leap))
     return 1;
 
   // to datetime ... (note that this is UTC)
@@ -194,7 +205,8 @@ int dso::utils::celestrak::details::parse_csv_for_date(
     std::ifstream::pos_type &fpos, int days_before, int days_after) noexcept {
 
   // set the fpos at the start of the file and save the variable in fpos2
-  const auto fpos2 = fpos;
+  const std::ifstream::pos_type fpos2 =
+      (fpos == std::ifstream::pos_type(-1)) ? std::ifstream::pos_type(0) : fpos;
   // !only set this to anything other than 0, if the dates are resolved
   // successefully!
   fpos = 0;
@@ -212,6 +224,15 @@ int dso::utils::celestrak::details::parse_csv_for_date(
   dso::modified_julian_day start_mjd(mjd.as_underlying_type() - days_before);
   dso::modified_julian_day end_mjd(mjd.as_underlying_type() + days_after);
 
+  // if we are not reading from the top and the days are not found, then maybe
+  // the position was erronuous (e.g. the days are placed before it, or the file
+  // has been replaced since). Try once more, with an fpos=0
+  auto failure = [&](int status) {
+    return fpos2 ? parse_csv_for_date(mjd, fncsv, flux_data, fpos, days_before,
+                                      days_after)
+                 : status;
+  };
+
   // ok, re-set fpos to where it was, ang go there
   fin.seekg(fpos2);
   if (!fpos2) {
@@ -233,64 +254,51 @@ int dso::utils::celestrak::details::parse_csv_for_date(
 
   // read first data line; if record_date > start_mjd data, the target date is
   // not included in the file ...
-  fin.getline(line, MAX_SW_CHARS);
+  if (!fin.getline(line, MAX_SW_CHARS))
+    return failure(fin.eof() ? eof_reached : fn_error);
   if (resolve_csv_line_date(line, cmjd)) {
-    fprintf(stderr, "ERROR@%s: Failed parsing SW csv line %s\n", __func__,
-            line);
-    return parse_error;
-  }
-  if (cmjd > start_mjd) {
-    // wait! don't give up! if fpos was somethin other than 0, maybe it was
-    // erronuous, and the date exists in the file but is before fpos. try the
-    // function once more, with an fpos=0
-    if (fpos2)
-      return parse_csv_for_date(mjd, fncsv, flux_data, fpos, days_before,
-                                days_after);
-    return target_prior;
+    if (!fpos2)
+      fprintf(stderr, "ERROR@%s: Failed parsing SW csv line %s\n", __func__,
+              line);
+    return failure(parse_error);
   }
+  if (cmjd > start_mjd)
+    return failure(target_prior);
 
   // keep on parsing/reading lines, untill we reach start_mjd or EOF
-  int error = 0;
-  while (cmjd != start_mjd && !error) {
-    if (fin.getline(line, MAX_SW_CHARS))
-      error = resolve_csv_line_date(line, cmjd);
-    else
-      error = 999;
-  }
-
-  // check for error/EOF
-  if (error) {
-    if (fin.eof())
-      return eof_reached;
-    return error;
+  while (cmjd < start_mjd) {
+    if (!fin.getline(line, MAX_SW_CHARS))
+      return failure(fin.eof() ? eof_reached : fn_error);
+    if (resolve_csv_line_date(line, cmjd))
+      return failure(parse_error);
   }
 
+  int error = 0;
   int days_to_resolve = days_before + 1 + days_after;
-  int cdi = 0;
-  while (cdi < days_to_resolve) {
+  for (int cdi = 0; cdi < days_to_resolve; cdi++) {
+    // read in next line (should be next day)
+    if (cdi && !fin.getline(line, MAX_SW_CHARS))
+      return failure(fin.eof() ? eof_reached : fn_error);
     // resolve current date data, store in flux_data[cdi]
     if ((error = resolve_csv_line_records(line, flux_data[cdi]))) {
-      fprintf(stderr,
-              "ERROR@%s: Failed resolving flux data from line %s (error=%d)\n",
-              __func__, line, error);
-      return parse_error;
-    }
-    // read in next line (should be next day)
-    if (fin.getline(line, MAX_SW_CHARS)) {
-      error = resolve_csv_line_date(line, cmjd);
-    } else {
-      return error;
+      if (!fpos2)
+        fprintf(stderr,
+                "ERROR@%s: Failed resolving flux data from line %s (error=%d)\n",
+                __func__, line, error);
+      return failure(parse_error);
     }
-    if (cmjd != start_mjd + dso::modified_julian_day{cdi + 1}) {
-      fprintf(stderr, "ERROR@%s Error parsing SW CVS file %s\n", __func__,
-              fncsv);
-      return parse_error;
+    if (flux_data[cdi].mjd_ != start_mjd + dso::modified_julian_day{cdi}) {
+      if (!fpos2)
+        fprintf(stderr, "ERROR@%s Error parsing SW CVS file %s\n", __func__,
+                fncsv);
+      return failure(parse_error);
     }
-    ++cdi;
   }
 
-  // set fpos
-  fpos = fin.tellg();
+  // set fpos, at the line after the last one resolved (if this is the last one
+  // in the file, next time start from the top)
+  if (!fin.eof())
+    fpos = fin.tellg();
 
   return 0;
 }
-- 
2.43.0


From f9b81df670cd8f8a3ac59d86f077bc13631a2a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 16/58] fix: nrlmsise00 data feed: a failed update keeps the
 data it has, every update fills in the parameters, seconds beyond one day,
 long file names

---
 src/atmosphere/nrlmsise00_get_flux_data.cpp | 77 ++++++++++++---------
 1 file changed, 43 insertions(+), 34 deletions(-)

diff --git a/src/atmosphere/nrlmsise00_get_flux_data.cpp b/src/atmosphere/nrlmsise00_get_flux_data.cpp
index 1240a0c..52894c5 100644
--- a/src/atmosphere/nrlmsise00_get_flux_data.cpp
+++ b/src/atmosphere/nrlmsise00_get_flux_data.cpp
@@ -1,4 +1,5 @@
 #include "nrlmsise00.hpp"
+#include <cmath>
 #include <datetime/dtfund.hpp>
 #include <stdexcept>
 #include <cstring>
@@ -6,29 +7,45 @@
 #include <cstdio>
 #endif
 
+// number of whole days in the given seconds
+static int idays(double sec) noexcept {
+  return static_cast<int>(std::floor(sec / 86400e0));
+}
+
+// hours in day, discarding whole days
+static int ihours(double sec) noexcept {
+  constexpr const int sec_in_hour = 60 * 60;
+  return static_cast<int>(sec - idays(sec) * 86400e0) / sec_in_hour;
+}
+
+// the day of the given parameters (seconds may exceed one day)
+static dso::modified_julian_day
+mjd_of(const dso::nrlmsise00::detail::InParamsCore &in) noexcept {
+  dso::modified_julian_day mjd(dso::ydoy2mjd(in.year, in.doy));
+  mjd += dso::modified_julian_day(idays(in.sec));
+  return mjd;
+}
+
 dso::nrlmsise00::detail::Nrlmsise00DataFeed::Nrlmsise00DataFeed(
-    const char *fncsv, dso::nrlmsise00::detail::InParamsCore &in)
+    const char *fncsv, dso::nrlmsise00::detail::InParamsCore &in) : fpos(0)
     {
+  if (std::strlen(fncsv) >= sizeof(fncsv_))
+    throw std::runtime_error("Failed to initialize Nrlmsise00DataFeed; "
+                             "filename too long\n");
       std::strcpy(fncsv_,fncsv);
 
-  const dso::datetime<dso::milliseconds> t(dso::datetime<dso::milliseconds>(
-      dso::year(in.year), dso::day_of_year(in.doy), dso::milliseconds(0)));
+  const dso::modified_julian_day mjd = mjd_of(in);
   if (dso::utils::celestrak::details::parse_csv_for_date(
-          t.mjd(), fncsv, flux_data_, fpos, 3, 0)) {
+          mjd, fncsv, flux_data_, fpos, 3, 0)) {
     throw std::runtime_error("Failed to initialize Nrlmsise00DataFeed\n");
   }
 
-  mjd_ = t.mjd();
+  mjd_ = mjd;
 
   if (init(in))
     throw std::runtime_error("Failed to initialize Nrlmsise00DataFeed\n");
 }
 
-int ihours(double secday) noexcept {
-  constexpr const int sec_in_hour = 60 * 60;
-  return static_cast<int>(secday) / sec_in_hour;
-}
-
 int dso::nrlmsise00::detail::Nrlmsise00DataFeed::init(
     dso::nrlmsise00::detail::InParamsCore &in) noexcept {
 //#ifdef DEBUG
@@ -166,38 +183,30 @@ int dso::nrlmsise00::detail::Nrlmsise00DataFeed::init(
 int dso::nrlmsise00::detail::Nrlmsise00DataFeed::update(
     dso::nrlmsise00::detail::InParamsCore &in) noexcept {
 
-  int error = 0;
-  dso::modified_julian_day new_mjd(dso::ydoy2mjd(in.year, in.doy));
-  new_mjd += dso::modified_julian_day((int)(in.sec / 86400e0));
+  const dso::modified_julian_day new_mjd = mjd_of(in);
 
-  if (new_mjd == mjd_) {
-    // date not changed. let's see if the 3-hour interval changed
-    if (ihours(in.sec) / 3 == chi) {
-      // perfect! nothing to do!
-      return 0;
-    } else {
-      // shit, hour index changed
-#ifdef DEBUG
-      assert(chi != 7);
-#endif
-      error = this->init(in);
-    }
-  } else {
-    error = 0;
+  if (new_mjd != mjd_) {
+    int error = 0;
+    // collect the new data aside; if anything fails, the ones we have for the
+    // current date must stay as they are
+    dso::utils::celestrak::details::CelestTrakSWFlux flux_data[4];
     // if the new date is just one day ahead, quickly update data arrays ...
     if (mjd_ + dso::modified_julian_day(1) == new_mjd) {
+      std::memcpy(flux_data, flux_data_, sizeof(flux_data_));
       error = dso::utils::celestrak::details::get_next(new_mjd, fncsv_,
-                                                       flux_data_, 4, fpos);
+                                                       flux_data, 4, fpos);
     } else {
       // else just parse the file from the top and fill in data arrays ...
       error = dso::utils::celestrak::details::parse_csv_for_date(
-          new_mjd, fncsv_, flux_data_, fpos, 3, 0);
-    }
-    if (!error) {
-      mjd_ = new_mjd;
-      error = init(in);
+          new_mjd, fncsv_, flux_data, fpos, 3, 0);
     }
+    if (error)
+      return error;
+    std::memcpy(flux_data_, flux_data, sizeof(flux_data_));
+    mjd_ = new_mjd;
   }
 
-  return error;
+  // fill in the parameters (these may well be other ones than the last time,
+  // even if the date and 3-hour interval are the same)
+  return this->init(in);
 }
-- 
2.43.0


From 3cb3320b3a50d1754af66028467afef814835130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:31 +0000
Subject: [PATCH 17/58] fix: nrlmsise00: no state shared by model instances, no
 values left over from earlier evaluations

---
 src/atmosphere/nrlmsise00.hpp        |  2 +
 src/atmosphere/nrlmsise00_glob7s.cpp | 31 ++-------------
 src/atmosphere/nrlmsise00_globe7.cpp | 38 ++++--------------
 src/atmosphere/nrlmsise00_gtd7.cpp   | 59 +++++++++++-----------------
 src/atmosphere/nrlmsise00_gts7.cpp   | 13 ++----
 5 files changed, 41 insertions(+), 102 deletions(-)

diff --git a/src/atmosphere/nrlmsise00.hpp b/src/atmosphere/nrlmsise00.hpp
index 178f6c9..685d221 100644
--- a/src/atmosphere/nrlmsise00.hpp
+++ b/src/atmosphere/nrlmsise00.hpp
@@ -386,6 +386,8 @@ class Nrlmsise00 {
   double c2tloc, s2tloc;
   double s3tloc, c3tloc;
   double apdf;
+  double xl{1000e0};  // last latitude for which plg was computed
+  double tll{1000e0}; // last local time for which the trig numbers were computed
 
   /// @brief Replaces the original FORTRAN implementation SAM array
   constexpr double sam(int i) const noexcept {
diff --git a/src/atmosphere/nrlmsise00_glob7s.cpp b/src/atmosphere/nrlmsise00_glob7s.cpp
index 9ca1ce9..b19d713 100644
--- a/src/atmosphere/nrlmsise00_glob7s.cpp
+++ b/src/atmosphere/nrlmsise00_glob7s.cpp
@@ -14,37 +14,14 @@ double dso::Nrlmsise00::glob7s(const InParamsCore *in, double *pp) noexcept {
 
   // VERSION OF GLOBE FOR LOWER ATMOSPHERE 10/26/99
   constexpr const double pset = 2e0;
-  static int last_doy = -1e0; // last doy used
-  static double p32 = -1e3;
-  static double p18 = -1e3;
-  static double p14 = -1e3;
-  static double p39 = -1e3;
-  static double cd14;
-  static double cd18;
-  static double cd32;
-  static double cd39;
 
   if (std::abs(p[99]) < nearzero)
     p[99] = pset;
 
-  // did day of year change?
-  const bool doy_changed = (int)in->doy - last_doy != 0;
-  if (doy_changed || std::abs(p32 - p[31]) > nearzero)
-    cd32 = std::cos(dr * (doy - p[31]));
-  if (doy_changed || std::abs(p18 - p[17]) > nearzero)
-    cd18 = std::cos(2e0 * dr * (doy - p[17]));
-  if (doy_changed || std::abs(p14 - p[13]) > nearzero)
-    cd14 = std::cos(dr * (doy - p[13]));
-  if (doy_changed || std::abs(p39 - p[38]) > nearzero)
-    cd39 = std::cos(2e0 * dr * (doy - p[38]));
-
-  // update last used doy
-  last_doy = doy;
-
-  p32 = p[31];
-  p18 = p[17];
-  p14 = p[13];
-  p39 = p[39];
+  const double cd32 = std::cos(dr * (doy - p[31]));
+  const double cd18 = std::cos(2e0 * dr * (doy - p[17]));
+  const double cd14 = std::cos(dr * (doy - p[13]));
+  const double cd39 = std::cos(2e0 * dr * (doy - p[38]));
 
   t[0] = p[21] * dfa;
   
diff --git a/src/atmosphere/nrlmsise00_globe7.cpp b/src/atmosphere/nrlmsise00_globe7.cpp
index bf495eb..c5e4658 100644
--- a/src/atmosphere/nrlmsise00_globe7.cpp
+++ b/src/atmosphere/nrlmsise00_globe7.cpp
@@ -18,22 +18,10 @@ double dso::Nrlmsise00::globe7(const InParamsCore *in, double *pp) noexcept {
   constexpr const double hr = 0.2618e0;
   constexpr const double sr = 7.2722e-5;
 
-  // last latitude (so we don't re-compute legendre polynomials)
-  static double xl = 1000e0;
-  // last used tloc/lst (so we don't recompute trig numbers)
-  static double tll = 1000e0;
-  static double sw9 = 1e0;
-  // last doy used 
-  static int last_doy = -1;
-  static double p14 = -1e3;
-  static double p18 = -1e3;
-  static double p32 = -1e3;
-  static double p39 = -1e3;
-  static double cd14, cd18, cd32, cd39;
-
   double t[14] = {0e0};
-  sw9 = 1e0 * (sw[8] < 0e0) * -1e0;
+  const double sw9 = 1e0 * (sw[8] < 0e0) * -1e0;
 
+  // last latitude (so we don't re-compute legendre polynomials)
   if (std::abs(xl - in->glat) > nearzero) {
     // calculate legendre polynomials
     const double c = std::sin(dso::deg2rad(in->glat));
@@ -72,6 +60,7 @@ double dso::Nrlmsise00::globe7(const InParamsCore *in, double *pp) noexcept {
   }
 
   const double tloc = in->lst;
+  // last used tloc/lst (so we don't recompute trig numbers)
   if (std::abs(tll - tloc) > nearzero) {
     if (std::abs(sw[6]) > 0e0 || std::abs(sw[7]) > 0e0 || std::abs(sw[13])) {
       stloc = std::sin(hr * tloc);
@@ -86,23 +75,10 @@ double dso::Nrlmsise00::globe7(const InParamsCore *in, double *pp) noexcept {
     }
   }
 
-  const bool doy_changed = last_doy - (int)in->doy != 0;
-  if (doy_changed || std::abs(p[13] - p14) > nearzero)
-    cd14 = std::cos(dr * (in->doy - p[13]));
-  if (doy_changed || std::abs(p[17] - p18) > nearzero)
-    cd18 = std::cos(2e0 * dr * (in->doy - p[17]));
-  if (doy_changed || std::abs(p[31] - p32) > nearzero)
-    cd32 = std::cos(dr * (in->doy - p[31]));
-  if (doy_changed || std::abs(p[38] - p39) > nearzero)
-    cd39 = std::cos(2e0 * dr * (in->doy - p[38]));
-
-  // update last doy used ...
-  last_doy = in->doy;
-
-  p14 = p[13];
-  p18 = p[17];
-  p32 = p[31];
-  p39 = p[38];
+  const double cd14 = std::cos(dr * (in->doy - p[13]));
+  const double cd18 = std::cos(2e0 * dr * (in->doy - p[17]));
+  const double cd32 = std::cos(dr * (in->doy - p[31]));
+  const double cd39 = std::cos(2e0 * dr * (in->doy - p[38]));
 
   // F10.7 effect
   const double df = in->f107 - in->f107A;
diff --git a/src/atmosphere/nrlmsise00_gtd7.cpp b/src/atmosphere/nrlmsise00_gtd7.cpp
index 4d855d8..712e955 100644
--- a/src/atmosphere/nrlmsise00_gtd7.cpp
+++ b/src/atmosphere/nrlmsise00_gtd7.cpp
@@ -6,7 +6,6 @@ using namespace dso::nrlmsise00::detail;
 
 int dso::Nrlmsise00::gtd7(const InParamsCore *in,
                           dso::nrlmsise00::OutParams *out, int mass) noexcept {
-  static double altlast = 99999e0;
   constexpr const double zmix = 62.5e0;
 
   dso::nrlmsise00::OutParams outc;
@@ -14,10 +13,6 @@ int dso::Nrlmsise00::gtd7(const InParamsCore *in,
   double *__restrict__ t = out->t;
   double *__restrict__ ds = outc.d;
 
-  // test for changed input; fuck that, assert input changed, why give the same
-  // input ?
-  constexpr const bool input_changed = true;
-
   // latitude variation of gravity (none for SW(2)=0)
   double xlat = in->glat;
   if (std::abs(in->sw.sw[1]) < 0)
@@ -49,39 +44,35 @@ int dso::Nrlmsise00::gtd7(const InParamsCore *in,
     }
   }
 
+  // densities not computed below, are zero
+  std::memset(d, 0, sizeof(double) * 9);
+
   // LOWER MESOSPHERE/UPPER STRATOSPHERE [between ZN3(1) and ZN2(1)]
   // Temperature at nodes and gradients at end nodes
   // Inverse temperature a linear function of spherical harmonics
-  // Only calculate nodes if input changed
   const double sw19 = in->sw.sw[19];
   const double sw21 = in->sw.sw[21];
-  if (input_changed || altlast >= zn2[0]) {
-    tgn2[0] = tgn1[1];
-    tn2[0] = tn1[4];
-    tn2[1] = pma[0][0] * pavgm[0] / (1e0 - sw19 * glob7s(in, pma[0]));
-    tn2[2] =
-        pma[1][0] * pavgm[1] / (1e0 - sw19 * glob7s(in, pma[1]));
-    tn2[3] = pma[2][0] * pavgm[2] /
-             (1e0 - sw19 * sw21 * glob7s(in, pma[2]));
-    tgn2[1] = pavgm[8] * pma[9][0] *
-              (1e0 + sw19 * sw21 * glob7s(in, pma[9])) * tn2[3] *
-              tn2[3] / std::pow(pma[2][0] * pavgm[2], 2e0);
-  }
+  tgn2[0] = tgn1[1];
+  tn2[0] = tn1[4];
+  tn2[1] = pma[0][0] * pavgm[0] / (1e0 - sw19 * glob7s(in, pma[0]));
+  tn2[2] = pma[1][0] * pavgm[1] / (1e0 - sw19 * glob7s(in, pma[1]));
+  tn2[3] = pma[2][0] * pavgm[2] / (1e0 - sw19 * sw21 * glob7s(in, pma[2]));
+  tgn2[1] = pavgm[8] * pma[9][0] *
+            (1e0 + sw19 * sw21 * glob7s(in, pma[9])) * tn2[3] * tn2[3] /
+            std::pow(pma[2][0] * pavgm[2], 2e0);
+  tn3[0] = tn2[3];
 
-  // LOWER STRATOSPHERE AND TROPOSPHERE [below ZN3(1)]
+  // LOWER STRATOSPHERE AND TROPOSPHERE [at ZN3(1) and below]
   // Temperature at nodes and gradients at end nodes
   // Inverse temperature a linear function of spherical harmonics
-  // Only calculate nodes if input changed
-  if (in->alt < zn3[0]) {
-    if (input_changed || altlast >= zn3[0]) {
-      tgn3[0] = tgn2[1];
-      tn3[1] = pma[3][0] * pavgm[3] / (1e0 - sw21 * glob7s(in, pma[3]));
-      tn3[2] = pma[4][0] * pavgm[4] / (1e0 - sw21 * glob7s(in, pma[4]));
-      tn3[3] = pma[5][0] * pavgm[5] / (1e0 - sw21 * glob7s(in, pma[5]));
-      tn3[4] = pma[6][0] * pavgm[6] / (1e0 - sw21 * glob7s(in, pma[6]));
-      tgn3[1] = pma[7][0] * pavgm[7] * (1e0 +sw21 * glob7s(in, pma[7])) *
-                tn3[4] * tn3[4] / std::pow(pma[6][0] * pavgm[6], 2e0);
-    }
+  if (in->alt <= zn3[0]) {
+    tgn3[0] = tgn2[1];
+    tn3[1] = pma[3][0] * pavgm[3] / (1e0 - sw21 * glob7s(in, pma[3]));
+    tn3[2] = pma[4][0] * pavgm[4] / (1e0 - sw21 * glob7s(in, pma[4]));
+    tn3[3] = pma[5][0] * pavgm[5] / (1e0 - sw21 * glob7s(in, pma[5]));
+    tn3[4] = pma[6][0] * pavgm[6] / (1e0 - sw21 * glob7s(in, pma[6]));
+    tgn3[1] = pma[7][0] * pavgm[7] * (1e0 + sw21 * glob7s(in, pma[7])) *
+              tn3[4] * tn3[4] / std::pow(pma[6][0] * pavgm[6], 2e0);
   }
 
   double dmr, tz;
@@ -95,11 +86,12 @@ int dso::Nrlmsise00::gtd7(const InParamsCore *in,
       dmc = 1e0 - (zn2[0] - in->alt) / (zn2[0] - zmix);
     double dz28 = ds[2];
     // N2 DENSITY
-    dmr = ds[2] / dm28m - 1e0;
+    // (no mixed density if departures from diffusive equilibrium are off)
+    dmr = (dm28m > 0e0) ? ds[2] / dm28m - 1e0 : 0e0;
     d[2] = densm(in->alt, dm28m, xmm, tz);
     d[2] *= (1e0 + dmr * dmc);
     // HE DENSITY
-    d[1] = 0e0;
+    d[0] = 0e0;
     if (mass == 4 || mass == 48) {
       dmr = ds[0] / (dz28 * pdm[0][1]) - 1e0;
       d[0] = d[2] * pdm[0][1] * (1e0 + dmr * dmc);
@@ -134,8 +126,5 @@ int dso::Nrlmsise00::gtd7(const InParamsCore *in,
     t[1] = tz;
   }
 
-  // last used altitude
-  altlast = in->alt;
-
   return 0;
 }
diff --git a/src/atmosphere/nrlmsise00_gts7.cpp b/src/atmosphere/nrlmsise00_gts7.cpp
index b1d723a..135f3af 100644
--- a/src/atmosphere/nrlmsise00_gts7.cpp
+++ b/src/atmosphere/nrlmsise00_gts7.cpp
@@ -13,20 +13,18 @@ double zn1[5] = {120e0, 110e0, 100e0, 90e0, 72.5e0};
 int dso::Nrlmsise00::gts7(const InParamsCore *in,
                           dso::nrlmsise00::OutParams *out, int mass) noexcept {
 
-  // last call with this altitude
-  static double altlast = -999e0;
-
   // input always changed from previous call ....
   constexpr const bool input_changed = true;
 
   const double za = pdl[1][15];
   zn1[0] = za;
   std::memset(out->d, 0, sizeof(double) * 9);
+  dm28 = 0e0;
 
   // TINF variations not important below za or zn1(1)
   double tinf = 0e0;
   if (in->alt > zn1[0]) {
-    if (input_changed || altlast <= zn1[0]) {
+    if (input_changed) {
       tinf = ptm[0] * pt[0] * (1e0 + in->sw.sw[15] * globe7(in, pt));
     }
   } else {
@@ -36,7 +34,7 @@ int dso::Nrlmsise00::gts7(const InParamsCore *in,
 
   // gradient variations not important below zn1(5)
   if (in->alt > zn1[4]) {
-    if (input_changed || altlast <= zn1[4]) {
+    if (input_changed) {
       xg0 = ptm[3] * ps[0] * (1e0 + in->sw.sw[18] * globe7(in, ps));
     }
   } else {
@@ -58,7 +56,7 @@ int dso::Nrlmsise00::gts7(const InParamsCore *in,
     tn1[4] = ptm[4] * ptl[3][0];
     tgn1[1] = ptm[8] * pma[8][0] * tn1[4] * tn1[4] /
               std::pow(ptm[4] * ptl[3][0], 2e0);
-  } else if (input_changed || altlast >= 300e0) {
+  } else if (input_changed) {
     tn1[1] =
         ptm[6] * ptl[0][0] / (1e0 - in->sw.sw[17] * glob7s(in, ptl[0]));
     tn1[2] =
@@ -412,8 +410,5 @@ int dso::Nrlmsise00::gts7(const InParamsCore *in,
     out->d[5] /= 1e3;
   }
 
-  // update last used altitude
-  altlast = in->alt;
-
   return 0;
 }
-- 
2.43.0


From 37e93c2a00ab79d2a77a291929c910062965ce0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:42 +0000
Subject: [PATCH 18/58] fix: gravity partials: order one terms, symmetric
 elements, order zero; y-acceleration of var/icgem; no work inside assertions

---
 src/egravity.hpp                       |  8 ++++++--
 src/gravity/gravity_acceleration.cpp   | 22 +++++++++++++---------
 var/icgem/src/egravity.hpp             |  4 ++--
 var/icgem/src/gravity_acceleration.cpp |  2 +-
 4 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/egravity.hpp b/src/egravity.hpp
index e524b56..5bd4f39 100644
--- a/src/egravity.hpp
+++ b/src/egravity.hpp
@@ -168,7 +168,9 @@ grav_potential_accel(const Eigen::Matrix<double, 3, 1> &pos, int degree,
   assert(V.rows() >= degree + 2 && V.cols() >= order + 2);
   assert(W.rows() >= degree + 2 && W.cols() >= order + 2);
   // compute Langrange polynomials
-  assert(!dso::lagrange_polynomials(pos, hc.Re(), degree + 1, order + 1, V, W));
+  [[maybe_unused]] const int error =
+      dso::lagrange_polynomials(pos, hc.Re(), degree + 1, order + 1, V, W);
+  assert(!error);
   // return acceleration
   return grav_potential_accel(degree, order, hc.Re(), hc.GM(), V, W, hc);
 }
@@ -188,7 +190,9 @@ grav_potential_accel(const Eigen::Matrix<double, 3, 1> &pos, int degree,
   assert(V.rows() == degree + 3 && V.cols() == order + 3);
   assert(W.rows() == degree + 3 && W.cols() == order + 3);
   // compute Langrange polynomials
-  assert(!dso::lagrange_polynomials(pos, hc.Re(), degree + 2, order + 2, V, W));
+  [[maybe_unused]] const int error =
+      dso::lagrange_polynomials(pos, hc.Re(), degree + 2, order + 2, V, W);
+  assert(!error);
   // return acceleration
   return grav_potential_accel(degree, order, hc.Re(), hc.GM(), V, W, hc,
                               partials);
diff --git a/src/gravity/gravity_acceleration.cpp b/src/gravity/gravity_acceleration.cpp
index dc6a4b3..74d8ed5 100644
--- a/src/gravity/gravity_acceleration.cpp
+++ b/src/gravity/gravity_acceleration.cpp
@@ -103,16 +103,21 @@ Eigen::Matrix<double,3,1> dso::grav_potential_accel(
   // printf("\tGravitational potential (m=0)\n");
   // printf("\t%+15.6f %+15.6f %15.6f\n", xacc, yacc, zacc);
 
-  double daxdx_m1(0e0), daxdy_m1(0e0), dazdz_m1(0e0);
+  double daxdx_m1(0e0), daxdy_m1(0e0), daxdz_m1(0e0), daydz_m1(0e0),
+      dazdz_m1(0e0);
   // m = 1 part (only considered for partials)
   fac = 2e0; /* recursion of (n+1)! / (n-1)! */
-  for (int i = 1; i <= degree; i++) {
+  for (int i = 1; i <= degree && order >= 1; i++) {
     const double Cn1 = hc.C(i, 1);
     const double Sn1 = hc.S(i, 1);
     daxdx_m1 += 0.25e0 * (Cn1 * V(i + 2, 3) + Sn1 * W(i + 2, 3) +
                           fac * (-3e0 * Cn1 * V(i + 2, 1) - Sn1 * W(i + 2, 1)));
     daxdy_m1 += 0.25e0 * (Cn1 * W(i + 2, 3) - Sn1 * V(i + 2, 3) +
                           fac * (-Cn1 * W(i + 2, 1) - Sn1 * V(i + 2, 1)));
+    daxdz_m1 += (i / 2e0) * (Cn1 * V(i + 2, 2) + Sn1 * W(i + 2, 2)) -
+                fac * (i + 2) / 2e0 * (Cn1 * V(i + 2, 0) + Sn1 * W(i + 2, 0));
+    daydz_m1 += (i / 2e0) * (Cn1 * W(i + 2, 2) - Sn1 * V(i + 2, 2)) +
+                fac * (i + 2) / 2e0 * (Cn1 * W(i + 2, 0) - Sn1 * V(i + 2, 0));
     dazdz_m1 += (double)(i * (i + 1)) * (Cn1 * V(i + 2, 1) + Sn1 * W(i + 2, 1));
 
     fac *= ((double)(i + 2) / (double)i);
@@ -200,17 +205,16 @@ Eigen::Matrix<double,3,1> dso::grav_potential_accel(
   Eigen::Matrix<double,3,1> acc;
   acc << xacc, yacc, zacc;
 
-  // Sum-up partial derivatives, column-wise
+  // Sum-up partial derivatives, column-wise (the matrix is symmetric)
   partials(0, 0) = daxdx_m0 + daxdx_m1 + daxdx_m2; // dax/dx
   partials(1, 0) = daxdy_m0 + daxdy_m1 + daxdy_m2; // dax/dy
-  partials(2, 0) = daxdz_m0 + daxdz_m2;            // dax/dz
+  partials(2, 0) = daxdz_m0 + daxdz_m1 + daxdz_m2; // dax/dz
 
-  partials(0, 1) = partials(0, 1);      // day/dx
-  partials(1, 1) = 1e0;                 // day/dy
-  partials(2, 1) = daydz_m0 + daydz_m2; // day/dz
+  partials(0, 1) = partials(1, 0);                 // day/dx
+  partials(2, 1) = daydz_m0 + daydz_m1 + daydz_m2; // day/dz
 
-  partials(0, 2) = partials(0, 2);                 // daz/dx
-  partials(1, 2) = partials(1, 2);                 // daz/dy
+  partials(0, 2) = partials(2, 0);                 // daz/dx
+  partials(1, 2) = partials(2, 1);                 // daz/dy
   partials(2, 2) = dazdz_m0 + dazdz_m1 + dazdz_m2; // daz/dz
 
   // computation of day / dy from the fact that:
diff --git a/var/icgem/src/egravity.hpp b/var/icgem/src/egravity.hpp
index 1b57e51..fff5b42 100644
--- a/var/icgem/src/egravity.hpp
+++ b/var/icgem/src/egravity.hpp
@@ -14,8 +14,8 @@ namespace dso {
 /// @param[in] robj Point mass position vector (e.g. moon)
 /// @return A vector containing the acceleration components
 /// @see e.g. Curtis, Chapter 10.10
-Vector3 point_mass_accel(const Vector3 &rsat, const Vector3 &robj,
-                         double GM) noexcept {
+inline Vector3 point_mass_accel(const Vector3 &rsat, const Vector3 &robj,
+                                double GM) noexcept {
   //  Relative position vector of satellite w.r.t. point mass
   auto d = rsat - robj;
   // Acceleration
diff --git a/var/icgem/src/gravity_acceleration.cpp b/var/icgem/src/gravity_acceleration.cpp
index cd53e5b..b9fdd48 100644
--- a/var/icgem/src/gravity_acceleration.cpp
+++ b/var/icgem/src/gravity_acceleration.cpp
@@ -41,7 +41,7 @@ int dso::grav_potential_accel(
       xacc2 += 0.5e0 * (-Cnm * Vnp1mp1 - Snm * Wnp1mp1) +
                fac * (Cnm * Vnp1mm1 + Snm * Wnp1mm1);
       yacc2 += 0.5e0 * (-Cnm * Wnp1mp1 + Snm * Vnp1mp1) +
-               fac * (-Cnm * Vnp1mm1 + Snm * Wnp1mm1);
+               fac * (-Cnm * Wnp1mm1 + Snm * Vnp1mm1);
       zacc += (i - j + 1) * (-Cnm * Vnp1mp0 - Snm * Wnp1mp0);
     }
   }
-- 
2.43.0


From 8da395877773f2ace896e00e3c9a0bca0c08ff29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 19/58] fix: receiver frequency offset fit: leftover groups,
 missing values, single value groups, unreadable files, data beyond the
 guessed size, dangling solution

---
 src/rinex/fit_rfo.cpp | 120 +++++++++++++++++++++++++-----------------
 1 file changed, 71 insertions(+), 49 deletions(-)

diff --git a/src/rinex/fit_rfo.cpp b/src/rinex/fit_rfo.cpp
index 7879a49..3108edc 100644
--- a/src/rinex/fit_rfo.cpp
+++ b/src/rinex/fit_rfo.cpp
@@ -8,6 +8,7 @@ typedef dso::datetime<dso::nanoseconds> Datetime;
 // Reminder: in the RINEX files, the F value (aka relative frequency offset for
 // the receiver's oscillator) is given in units: 1e-11
 
+/// @warning May throw if the RINEX file cannot be opened/parsed
 int parse_rinex_rfos(const char *fnrnx, 
     bool use_tai,
     int every,
@@ -17,7 +18,7 @@ int parse_rinex_rfos(const char *fnrnx,
     Eigen::MatrixXd &A,
     unsigned &idx,
     const Datetime &start,
-    const Datetime &end) noexcept {
+    const Datetime &end) {
 
   // polynomial order
   const int poly_order = fit.order();
@@ -32,6 +33,12 @@ int parse_rinex_rfos(const char *fnrnx,
   // index of the F measurement (relative frequency offset)
   const int f_idx = rnx.get_observation_code_index(
       dso::ObservationCode{dso::ObservationType::frequency_offset});
+  if (f_idx < 0) {
+    fprintf(stderr,
+            "[ERROR] No \'F\' values in RINEX %s (traceback: %s)\n", fnrnx,
+            __func__);
+    return 1;
+  }
 
   // get an iterator to the RINEXs data blocks
   dso::RinexDataBlockIterator it(&rnx);
@@ -41,6 +48,34 @@ int parse_rinex_rfos(const char *fnrnx,
 
   int error, cval=0;
   dso::datetime<dso::nanoseconds> t0, tend;
+
+  // add a data point to the matrices, off from the first n values in buffer
+  auto add_point = [&](int n) {
+    // more data than initially guessed
+    if (idx >= b.rows()) {
+      b.conservativeResize(2 * idx + 10);
+      A.conservativeResize(2 * idx + 10, Eigen::NoChange);
+    }
+
+    b(idx) = std::reduce(fs.begin(), fs.begin() + n, 0e0) / n;
+
+    // midpoint in time, between t0 and tend
+    const auto dsec = tend.delta_sec(t0);
+    const dso::nanoseconds half =
+        dso::nanoseconds(std::lround(dsec.as_underlying_type() / 2));
+    dso::datetime<dso::nanoseconds> t = t0;
+    t.add_seconds(half);
+
+    // difference in time (aka from tref)
+    A(idx, 0) = 1e0;
+    const double dt = fit.deltax(t,tref);
+    A(idx, 1) = dt;
+    for (int i = 1; i < poly_order; i++)
+      A(idx, i+1) = A(idx, i) * dt;
+    // increase matrix index
+    ++idx;
+  };
+
   // for every new data block in the RINEX file (aka every epoch) ...
   while (!(error = it.next())) {
     // the current reference time for the L1 observation (corrected for
@@ -56,35 +91,23 @@ int parse_rinex_rfos(const char *fnrnx,
       // should have the same F value
       auto beaconobs = it.cblock.begin();
 
+      // no F value at this epoch
+      if (beaconobs == it.cblock.end() ||
+          beaconobs->m_values[f_idx].m_value == dso::OBSERVATION_VALUE_MISSING)
+        continue;
+
       // temporarily store value at buffer
       fs[cval % every] = beaconobs->m_values[f_idx].m_value;
 
       // store current date
       tend = (use_tai) ? tl1 : tproper;
-      
-      // check if we reached every values
-      if (!((cval + 1) % every)) {
-        // we did, compute data points and add to matrices
-        b(idx) = std::reduce(fs.begin(), fs.end(), 0e0) / every;
-
-        // midpoint in time, between t0 and tend
-        const auto dsec = tend.delta_sec(t0);
-        const dso::nanoseconds half =
-            dso::nanoseconds(std::lround(dsec.as_underlying_type() / 2));
-        dso::datetime<dso::nanoseconds> t = t0;
-        t.add_seconds(half);
-
-        // difference in time (aka from tref)
-        A(idx, 0) = 1e0;
-        const double dt = fit.deltax(t,tref);// t.delta_date(tref).as_mjd();
-        A(idx, 1) = dt;
-        for (int i = 1; i < poly_order; i++)
-          A(idx, i+1) = A(idx, i) * dt;
-        // increase matrix index
-        ++idx;
-      } else if (!(cval % every)) {
+      if (!(cval % every))
         t0 = tend;
-      }
+      
+      // check if we reached every values; if so, compute data points and add
+      // to matrices
+      if (!((cval + 1) % every))
+        add_point(every);
 
       ++cval;
     } // current block within date range
@@ -102,28 +125,9 @@ int parse_rinex_rfos(const char *fnrnx,
     return 1;
   }
 
-  --cval;
   // add any reamaining data in the buffer
-  if ((cval % every) != every - 1) {
-    const int j = cval % every;
-    b(idx) = std::reduce(fs.begin(), fs.end()+j, 0e0) / j;
-    
-    const auto dsec = tend.delta_sec(t0);
-    const dso::nanoseconds half =
-        dso::nanoseconds(std::lround(dsec.as_underlying_type() / 2));
-    dso::datetime<dso::nanoseconds> t = t0;
-    t.add_seconds(half);
-    
-    // difference in time (aka from tref)
-    A(idx,0) = 1e0;
-    const double dt = t.delta_date(tref).as_mjd();
-    A(idx,1) = dt;
-    for (int i = 1; i < poly_order; i++)
-      A(idx, i + 1) = A(idx, i) * dt;
-
-    // increase matrix index
-    ++idx;
-  }
+  if (cval % every)
+    add_point(cval % every);
 
   return 0;
 }
@@ -152,7 +156,7 @@ int dso::fit_relative_frequency_offset(
   float num_days = fns.size();
   if (start != dso::datetime<dso::nanoseconds>::min() &&
       end != dso::datetime<dso::nanoseconds>::max()) {
-    num_days = end.as_mjd() - start.as_mjd();
+    num_days = std::max(0e0, end.as_mjd() - start.as_mjd());
   }
 
   // So, this is our educated guess about the number of points we will be 
@@ -171,8 +175,18 @@ int dso::fit_relative_frequency_offset(
   unsigned index = 0;
   dso::datetime<dso::nanoseconds> tref = dso::datetime<dso::nanoseconds>::min();
   for (const auto sptr : fns) {
-    if (parse_rinex_rfos(sptr, use_tai, every, tref, fit, b, A, index,
-                         start, end)) {
+    int error = 0;
+    try {
+      error = parse_rinex_rfos(sptr, use_tai, every, tref, fit, b, A, index,
+                               start, end);
+    } catch (std::exception &e) {
+      fprintf(stderr,
+              "[ERROR] Exception caught while reading RINEX; what string: %s "
+              "(traceback: %s)\n",
+              e.what(), __func__);
+      error = 1;
+    }
+    if (error) {
       fprintf(stderr,
               "[ERROR] Failed fitting Receiver Frequency Offset values! failed "
               "at RINEX file %s (traceback: %s)\n",
@@ -181,6 +195,14 @@ int dso::fit_relative_frequency_offset(
     }
   }
 
+  if (index < (unsigned)M) {
+    fprintf(stderr,
+            "[ERROR] Too few data to fit Receiver Frequency Offset values! "
+            "(traceback: %s)\n",
+            __func__);
+    return 1;
+  }
+
   // OK! all RINEX files parsed. We now need to resize the matrices, given
   // their true sizes
   b.conservativeResize(index, Eigen::NoChange);
@@ -189,7 +211,7 @@ int dso::fit_relative_frequency_offset(
   printf("Solving LS with b=%ldx%ld and A=%ldx%ld\n", b.rows(), b.cols(), A.rows(), A.cols());
 
   // Solve the LS problem
-  const auto y = (A.transpose() * A).ldlt().solve(A.transpose() * b);
+  const Eigen::VectorXd y = (A.transpose() * A).ldlt().solve(A.transpose() * b);
 
   // assign to the (returned) model
   fit.xref = tref;
-- 
2.43.0


From b3e8210e5653491967e36e94425e4b2075963f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 20/58] fix: filter a-priori values of all beacons with linear
 clocks, polynomial models as values

---
 src/filters/ekf.hpp     |  2 +-
 src/filters/filters.hpp |  4 ++--
 src/filters/models.hpp  | 22 +++++++++++++++-------
 3 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/filters/ekf.hpp b/src/filters/ekf.hpp
index 9ae6df0..bfbde0f 100644
--- a/src/filters/ekf.hpp
+++ b/src/filters/ekf.hpp
@@ -31,7 +31,7 @@ template <typename S> struct ExtendedKalmanFilter {
     t = t0;
     x = x0;
     P = P0;
-    K = Eigen::VectorXd(x0.cols());
+    K = Eigen::VectorXd::Zero(x0.rows());
   }
   
   const Eigen::VectorXd &state() const noexcept {return x;}
diff --git a/src/filters/filters.hpp b/src/filters/filters.hpp
index f595bff..925c200 100644
--- a/src/filters/filters.hpp
+++ b/src/filters/filters.hpp
@@ -148,7 +148,7 @@ struct EkfFilter<Np, BeaconClockModel::Linear> {
         _ekf._ekf.x(tropo_index(beacon_nr)) = val;
       } else {
         const int start_idx = tropo_index(0);
-        constexpr int step = 2;
+        constexpr int step = 3;
         int idx = start_idx;
         for (int i = 0; i < _ekf.num_stations(); i++) {
           _ekf._ekf.x(idx) = val;
@@ -165,7 +165,7 @@ struct EkfFilter<Np, BeaconClockModel::Linear> {
         _ekf._ekf.P(tropo_index(beacon_nr), tropo_index(beacon_nr)) = val;
       } else {
         const int start_idx = tropo_index(0);
-        constexpr int step = 2;
+        constexpr int step = 3;
         int idx = start_idx;
         for (int i = 0; i < _ekf.num_stations(); i++) {
           _ekf._ekf.P(idx,idx) = val;
diff --git a/src/filters/models.hpp b/src/filters/models.hpp
index d271e8b..3701ba1 100644
--- a/src/filters/models.hpp
+++ b/src/filters/models.hpp
@@ -41,7 +41,7 @@ namespace dso {
     PolynomialModel(int porder) noexcept
         : _order(porder), cf(new double[porder + 1]){};
     
-    ~PolynomialModel() noexcept { if (_order) delete[] cf;}
+    ~PolynomialModel() noexcept { delete[] cf;}
     
     PolynomialModel(const PolynomialModel &p) noexcept
         : _order(p._order), xref(p.xref), cf(new double[p._order + 1]) {
@@ -49,21 +49,29 @@ namespace dso {
     }
     
     PolynomialModel &operator=(const PolynomialModel &p) noexcept {
-      if (*this != p) {
+      if (this != &p) {
         this->resize(p._order);
         std::memcpy(cf, p.cf, sizeof(double)*(_order+1));
-        xref = p.xref();
+        xref = p.xref;
       }
       return *this;
     }
 
     PolynomialModel(PolynomialModel &&p) noexcept
-        : _order(p._order), xref(p.xref), cf(p.cf) {};
+        : _order(p._order), xref(p.xref), cf(p.cf) {
+      p.cf = nullptr;
+      p._order = -1;
+    }
     
     PolynomialModel &operator=(PolynomialModel &&p) noexcept {
-      _order = p._order;
-      xref = p.xref;
-      cf = p.cf;
+      if (this != &p) {
+        delete[] cf;
+        _order = p._order;
+        xref = p.xref;
+        cf = p.cf;
+        p.cf = nullptr;
+        p._order = -1;
+      }
       return *this;
     }
 
-- 
2.43.0


From 2c3833d06233e41ead61c91b1e7bd6f34d61dff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:28 +0000
Subject: [PATCH 21/58] fix: load planetary kernels by exact name, text
 constants only once, report failing kernels, constants and positions

---
 src/planetpos.hpp            | 16 ++++++++++++--
 src/planets/cspice_utils.cpp | 42 +++++++++++++++++-------------------
 2 files changed, 34 insertions(+), 24 deletions(-)

diff --git a/src/planetpos.hpp b/src/planetpos.hpp
index 8684317..5221ffd 100644
--- a/src/planetpos.hpp
+++ b/src/planetpos.hpp
@@ -11,15 +11,26 @@
 namespace dso {
 
 namespace cspice {
+  /// @brief Check the error status of cspice and, if an error is signaled,
+  /// clear it (else any following call to cspice returns immediately)
+  /// @return Anything other than zero denotes that an error was signaled
+  inline
+  int clear_error() noexcept {
+    if (!failed_c()) return 0;
+    reset_c();
+    return 1;
+  }
+
   /// @brief Load a cspice kernel (of any type)
   /// @param[in] kernel The name of the cspice kernel, see
   /// https://naif.jpl.nasa.gov/pub/naif/toolkit_docs/C/req/kernel.html#Kernel%20Types
   /// @note This is a wrapper function around furnsh_c; see
   /// https://naif.jpl.nasa.gov/pub/naif/toolkit_docs/C/cspice/furnsh_c.html
+  /// @return Anything other than zero denotes an error.
   inline
   int load_kernel(const char *kernel) noexcept {
     furnsh_c(kernel);
-    return 0;
+    return clear_error();
   }
 
   /// @brief Load a given ascii/LSK cspice kernel if not already loaded.
@@ -60,13 +71,14 @@ namespace cspice {
   ///            interbal scpice IDs
   /// @param[out] pos A vector of size >= 3, where the X/Y/Z components of the
   ///            vector are stored; units [km]
+  /// @return Anything other than zero denotes an error.
   inline
   int j2planet_pos_from(double et, int target_id, int observer_id,
                         double *pos) noexcept {
     double dummy;
     // get the position of the planet
     spkezp_c(target_id, et, "J2000", "NONE", observer_id, pos, &dummy);
-    return 0;
+    return clear_error();
   }
 }// spice
 
diff --git a/src/planets/cspice_utils.cpp b/src/planets/cspice_utils.cpp
index 6db24e9..904c666 100644
--- a/src/planets/cspice_utils.cpp
+++ b/src/planets/cspice_utils.cpp
@@ -1,16 +1,16 @@
 #include "planetpos.hpp"
 #include <cstring>
 
-#define  FILLEN   128                                                           
+#define  FILLEN   256
 #define  TYPLEN   32                                                            
-#define  SRCLEN   128
+#define  SRCLEN   256
 
 int dso::cspice::load_if_unloaded_lsk(const char *lsk_kernel) noexcept {
-  SpiceInt count, which, handle;
+  SpiceInt count = 0, which, handle;
   SpiceChar file[FILLEN];
   SpiceChar filtyp[TYPLEN];
   SpiceChar source[SRCLEN];
-  SpiceBoolean found;
+  SpiceBoolean found = SPICEFALSE;
 
   // get number of all ascii kernels loaded ... (to find if we already have
   // the LSK kernel loaded)
@@ -20,20 +20,19 @@ int dso::cspice::load_if_unloaded_lsk(const char *lsk_kernel) noexcept {
     for (which = 0; which < count; which++) {
       kdata_c(which, "text", FILLEN, TYPLEN, SRCLEN, file, filtyp, source,
               &handle, &found);
-      if (!std::strncmp(file, lsk_kernel, std::strlen(lsk_kernel))) return 0;
+      if (found && !std::strcmp(file, lsk_kernel)) return 0;
     }
   }
 
-  furnsh_c(lsk_kernel);
-  return 0;
+  return load_kernel(lsk_kernel);
 }
 
 int dso::cspice::load_if_unloaded_spk(const char *spk_kernel) noexcept {
-  SpiceInt count, which, handle;
+  SpiceInt count = 0, which, handle;
   SpiceChar file[FILLEN];
   SpiceChar filtyp[TYPLEN];
   SpiceChar source[SRCLEN];
-  SpiceBoolean found;
+  SpiceBoolean found = SPICEFALSE;
 
   // get number of spk kernels loaded ... 
   ktotal_c("spk", &count);
@@ -42,44 +41,43 @@ int dso::cspice::load_if_unloaded_spk(const char *spk_kernel) noexcept {
     for (which = 0; which < count; which++) {
       kdata_c(which, "spk", FILLEN, TYPLEN, SRCLEN, file, filtyp, source,
               &handle, &found);
-      if (!std::strncmp(file, spk_kernel, std::strlen(spk_kernel))) return 0;
+      if (found && !std::strcmp(file, spk_kernel)) return 0;
     }
   }
 
-  furnsh_c(spk_kernel);
-  return 0;
+  return load_kernel(spk_kernel);
 }
 
 int dso::cspice::load_if_unloaded_pck(const char *pck_kernel) noexcept {
-  SpiceInt count, which, handle;
+  SpiceInt count = 0, which, handle;
   SpiceChar file[FILLEN];
   SpiceChar filtyp[TYPLEN];
   SpiceChar source[SRCLEN];
-  SpiceBoolean found;
+  SpiceBoolean found = SPICEFALSE;
 
-  // get number of spk kernels loaded ... 
-  ktotal_c("pck", &count);
+  // get number of all kernels loaded; note that only binary PCK kernels are
+  // of type "pck", the ones holding constants are of type "text"
+  ktotal_c("all", &count);
 
   if (count) {
     for (which = 0; which < count; which++) {
-      kdata_c(which, "pck", FILLEN, TYPLEN, SRCLEN, file, filtyp, source,
+      kdata_c(which, "all", FILLEN, TYPLEN, SRCLEN, file, filtyp, source,
               &handle, &found);
-      if (!std::strncmp(file, pck_kernel, std::strlen(pck_kernel))) return 0;
+      if (found && !std::strcmp(file, pck_kernel)) return 0;
     }
   }
 
-  furnsh_c(pck_kernel);
-  return 0;
+  return load_kernel(pck_kernel);
 }
 
 int dso::get_sun_moon_GM(const char *pck_kernel, double &GMSun,
                       double &GMMoon) noexcept {
   if (pck_kernel)
-    dso::cspice::load_if_unloaded_pck(pck_kernel);
+    if (dso::cspice::load_if_unloaded_pck(pck_kernel)) return 1;
 
   int n;
   bodvrd_c("SUN", "GM", 1, &n, &GMSun);  // [km^3/ sec^2]
   bodvrd_c("MOON", "GM", 1, &n, &GMMoon); // [km^3/ sec^2]
 
-  return 0;
+  return dso::cspice::clear_error();
 }
-- 
2.43.0


From 30a44993764f4e3269876406ddc1f3517155d1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:28 +0000
Subject: [PATCH 22/58] fix: units of the Sun's attraction, partials of a point
 mass, report a missing ephemeris, no work inside an assertion

---
 src/gravity/point_mass_acceleration.cpp |  4 ++--
 src/orbit_integration.hpp               |  7 +++++--
 src/sunmoon.cpp                         | 12 +++++++-----
 3 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/gravity/point_mass_acceleration.cpp b/src/gravity/point_mass_acceleration.cpp
index 1ea8059..e931d0a 100644
--- a/src/gravity/point_mass_acceleration.cpp
+++ b/src/gravity/point_mass_acceleration.cpp
@@ -36,9 +36,9 @@ dso::point_mass_accel(double GM, const Eigen::Matrix<double, 3, 1> &rsat,
   // const Eigen::Matrix<double, 3, 1> a = (-GM) * (d / (dn*dn2) + robj / (sn*sn2));
 
   // partials w.r.t. position
-  const double sn5 = sn2 * sn2 * sn;
+  const double dn5 = dn2 * dn2 * dn;
   partials = (-GM) * ( Eigen::Matrix<double, 3, 3>::Identity() / (dn*dn2) 
-  +3e0 * (d*d.transpose()) / sn5);
+  -3e0 * (d*d.transpose()) / dn5);
 
   return (-GM) * (d / (dn*dn2) + robj / (sn*sn2));
 }
diff --git a/src/orbit_integration.hpp b/src/orbit_integration.hpp
index 8464980..6968c7d 100644
--- a/src/orbit_integration.hpp
+++ b/src/orbit_integration.hpp
@@ -52,7 +52,9 @@ struct IntegrationParameters {
         degree(degree_), order(order_) {
     assert(degree_ == harmonics_.degree());
     // gravitational parameters
-    assert(!dso::get_sun_moon_GM(pck_kernel, GMSun, GMMon));
+    [[maybe_unused]] const int error =
+        dso::get_sun_moon_GM(pck_kernel, GMSun, GMMon);
+    assert(!error);
   };
 
   ~IntegrationParameters() noexcept {
@@ -142,7 +144,8 @@ yter2cel(const Eigen::Matrix<double, 6, 1> y,
 /// @param[out] sun_pos Sun position in J2000 [m]
 /// @param[out] mon_partials Partials of the Moon-induced acceleration w.r.t
 ///       satellite position vecot (=r), aka d(acc)/dr
-void SunMoon(double mjd_tai, const Eigen::Matrix<double, 3, 1> &rsat,
+/// @return Anything other than zero denotes an error (e.g. kernels not loaded).
+int SunMoon(double mjd_tai, const Eigen::Matrix<double, 3, 1> &rsat,
              double GMSun, double GMMon, Eigen::Matrix<double, 3, 1> &sun_acc,
              Eigen::Matrix<double, 3, 1> &mon_acc,
              Eigen::Matrix<double, 3, 1> &sun_pos,
diff --git a/src/sunmoon.cpp b/src/sunmoon.cpp
index aa12e71..7f84214 100644
--- a/src/sunmoon.cpp
+++ b/src/sunmoon.cpp
@@ -2,7 +2,7 @@
 #include <cmath>
 #include "planetpos.hpp"
 
-void dso::SunMoon(double mjd_tai, const Eigen::Matrix<double, 3, 1> &rsat,
+int dso::SunMoon(double mjd_tai, const Eigen::Matrix<double, 3, 1> &rsat,
             double GMSun, double GMMoon, 
              Eigen::Matrix<double, 3, 1> &sun_acc,
              Eigen::Matrix<double, 3, 1> &moon_acc,
@@ -21,15 +21,17 @@ void dso::SunMoon(double mjd_tai, const Eigen::Matrix<double, 3, 1> &rsat,
   double rsun[3], rmon[3];
 
   // position vector of sun/moon, in J2000, [km]
-  dso::cspice::j2planet_pos_from(dso::cspice::jd2et(jd), 10, 399, rsun);
-  dso::cspice::j2planet_pos_from(dso::cspice::jd2et(jd), 301, 399, rmon);
+  if (dso::cspice::j2planet_pos_from(dso::cspice::jd2et(jd), 10, 399, rsun))
+    return 1;
+  if (dso::cspice::j2planet_pos_from(dso::cspice::jd2et(jd), 301, 399, rmon))
+    return 1;
 
   Eigen::Matrix<double, 3, 1> rSun(rsun); // [km]
   Eigen::Matrix<double, 3, 1> rMon(rmon); // [km]
 
   // Sun-induced acceleration [km/sec^2]
   sun_acc = dso::point_mass_accel(GMSun, rsat * 1e-3, rSun);
-  sun_acc = sun_acc * 1e-3; // [m/sec^2]
+  sun_acc = sun_acc * 1e3; // [m/sec^2]
 
   // Moon-induced acceleration [m/sec^2]
   moon_acc =
@@ -38,5 +40,5 @@ void dso::SunMoon(double mjd_tai, const Eigen::Matrix<double, 3, 1> &rsat,
   // Sun position in [m]
   sun_pos = rSun * 1e3;
 
-  return;
+  return 0;
 }
-- 
2.43.0


From a8ffdc9a15b6139af12abfec7f302cf0a0886b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:01 +0000
Subject: [PATCH 23/58] fix: C04 bulletins: boundary days, all bulletins of
 long intervals, give up when not covered, damaged or missing bulletins,
 complete output or none

---
 script/fetch_iers_c04.py | 75 +++++++++++++++++++++++++---------------
 1 file changed, 48 insertions(+), 27 deletions(-)

diff --git a/script/fetch_iers_c04.py b/script/fetch_iers_c04.py
index cec061d..45935c1 100755
--- a/script/fetch_iers_c04.py
+++ b/script/fetch_iers_c04.py
@@ -68,6 +68,7 @@ parser.add_argument(
 
 bc04_url = "https://hpiers.obspm.fr/iers/bul/bulb_new/bulletinb."
 bc04_nr0 = 252
+mjd0 = datetime.datetime(1858, 11, 17)
 bc04_first_date = datetime.datetime.strptime("20081212", "%Y%m%d")
 header = """#1 - DAILY FINAL VALUES OF x, y, UT1-UTC, dX, dY
 # Angular unit is milliarcsecond (mas), time unit is millisecond (ms). 
@@ -128,6 +129,9 @@ def c04_get_final_data_03(c04fn):
                 final_data.append(d)
                 ## next line
                 line = fin.readline()
+            ## the block should end with an empty line, not with the file
+            if not line:
+                raise RuntimeError('Truncated data block in Bulletin B/C04 file {:}'.format(c04fn))
  
     if not error:
         return final_data
@@ -185,6 +189,9 @@ def c04_get_final_data_01(c04fn):
                 final_data.append(d)
                 ## next line
                 line = fin.readline()
+            ## the block should end with an empty line, not with the file
+            if not line:
+                raise RuntimeError('Truncated data block in Bulletin B/C04 file {:}'.format(c04fn))
  
     if not error:
         return final_data
@@ -206,6 +213,8 @@ def c04_get_final_data(c04fn):
   ## merge based on datetime (mjd)
   for d1 in block1_eop:
     d3 = get_dlist_record_for(d1['mjd'], block3_eop)
+    if d3 is None:
+      raise RuntimeError('No LOD/OMEGA values for MJD {:} in Bulletin B/C04 file {:}'.format(d1['mjd'], c04fn))
     ## drop duplicate records from d3 (e.g. year, month, etc ...)
     for k in d1.keys(): d3.pop(k, None)
     ## append key/value pair and add to result list
@@ -217,9 +226,14 @@ def c04_get_final_data(c04fn):
 ## (start/stop datetimes) of the final data block.
 def c04_date_span(c04fn):
   ## get the datetimes of the final data in the given file
-  dates = [ datetime.datetime.strptime('{:}-{:02d}-{:02d}'.format(d['year'],d['month'],d['day']), '%Y-%m-%d') for d in c04_get_final_data(c04fn) ]
-  ## assert they are sorted
-  assert(sorted(dates) == dates)
+  final_data = c04_get_final_data(c04fn)
+  dates = [ datetime.datetime.strptime('{:}-{:02d}-{:02d}'.format(d['year'],d['month'],d['day']), '%Y-%m-%d') for d in final_data ]
+  ## there should be one record per day, dated by matching date and MJD
+  if not dates:
+    raise RuntimeError('No final data in Bulletin B/C04 file {:}'.format(c04fn))
+  for i,(date,d) in enumerate(zip(dates, final_data)):
+    if (date - mjd0).days != d['mjd'] or (date - dates[0]).days != i:
+      raise RuntimeError('Erroneous date {:} (MJD {:}) in Bulletin B/C04 file {:}'.format(date, d['mjd'], c04fn))
   ## return first and last
   return dates[0], dates[-1]
 
@@ -242,12 +256,18 @@ def c04_dict_to_sorted_list(c04_dict):
 
 ## write out a list (of dicts) of IERS Bulletin B/C04 final data
 def c04_cat(outfn, *c04fns):
-  #with open(outfn, 'w') as fout:
-  fout = open(outfn, 'w') if outfn else sys.stdout
+  ## collect the data first, so that nothing is written if this fails
+  c04data = [ c04_get_final_data(cfn) for cfn in c04fns ]
+  mjds = [ d['mjd'] for fdata in c04data for d in fdata ]
+  if mjds != list(range(mjds[0], mjds[0]+len(mjds))):
+    raise RuntimeError('Bulletin B/C04 files {:} are not consecutive'.format(c04fns))
+
+  ## write to a temporary file, which replaces the output file when complete
+  tmpfn = outfn + '.part' if outfn else None
+  fout = open(tmpfn, 'w') if outfn else sys.stdout
 
   print(header, end='', file=fout)
-  for i,cfn in enumerate(c04fns):
-    fdata = c04_get_final_data(cfn)
+  for i,fdata in enumerate(c04data):
     for j,line in enumerate(fdata):
       wlst = [ '{:4d}{:>4d}{:>4d}{:>8d}'.format(line['year'], line['month'], line['day'], line['mjd']) ]
       print(*(wlst), end='', file=fout)
@@ -261,7 +281,7 @@ def c04_cat(outfn, *c04fns):
       for k in keys:
         print('{:+15.12f} '.format(line[k]), end='', file=fout)
       
-      if i==len(c04fns)-1 and j==len(fdata)-1:
+      if i==len(c04data)-1 and j==len(fdata)-1:
         pass
       else:
         print('', file=fout) ## aka newline 
@@ -269,6 +289,9 @@ def c04_cat(outfn, *c04fns):
 
   if fout is not sys.stdout:
     fout.close()
+    os.replace(tmpfn, outfn)
+  else:
+    fout.flush()
 
 def merge_c04_files(outfn, c04_dict):
   c04_list = c04_dict_to_sorted_list(c04_dict)
@@ -297,47 +320,45 @@ if __name__ == '__main__':
     # guess the number of the file
     dummy_it = 0
     guess = bc04_nr0 + (t_start - bc04_first_date).days // 31
-    while not prior_covered or not post_covered and dummy_it < 1000:
+    while (not prior_covered or not post_covered) and dummy_it < 1000:
 
         ## download remote file
         remote = bc04_url + '{:}'.format(guess)
         local  = os.path.basename(remote)
-        data = requests.get(remote, allow_redirects=True)
-        open(local, 'wb').write(data.content)
+        data = requests.get(remote, allow_redirects=True, timeout=60)
+        data.raise_for_status()
+        with open(local, 'wb') as fout: fout.write(data.content)
         vprint('Downloaded file: {:}'.format(remote))
 
         ## get its time span
         d0,dn = c04_date_span(local)
         vprint('\tTime span: {:} to {:}'.format(d0, dn))
 
-        ## will we be needing it?
-        file_is_of_use = False
-
-        ## check if it overlaps the requested interval
-        if not prior_covered and d0 < t_start and t_start < dn:
-            prior_covered = True
-            file_is_of_use = True
-
-        if not post_covered and d0 < t_end and t_end < dn:
-            post_covered = True
-            file_is_of_use = True
+        ## check if it contains any end of the requested interval
+        if d0 <= t_start and t_start <= dn: prior_covered = True
+        if d0 <= t_end and t_end <= dn: post_covered = True
 
+        ## will we be needing it? (any day within the requested interval)
         ## if not to be used, remove local
-        if file_is_of_use:
+        if d0 <= t_end and t_start <= dn:
             files_to_merge[local] = {'t0': d0, 'tn': dn}
         else:
             os.remove(local)
 
-        ## next guess
-        if d0 > t_start: guess -= 1
-        elif dn < t_end: guess += 1
+        ## next guess; first go back to the start of the interval, then all
+        ## the way to its end
+        if not prior_covered and t_start < d0: guess -= 1
+        elif not post_covered and dn < t_end: guess += 1
         elif prior_covered and post_covered:
           pass
         else:
-           raise RuntimeError('WTF??')
+           raise RuntimeError('Failed to cover the interval {:} to {:}'.format(t_start, t_end))
 
         dummy_it += 1
 
+    if not prior_covered or not post_covered:
+        raise RuntimeError('Failed to cover the interval {:} to {:}'.format(t_start, t_end))
+
     ## what file are we writing in?
     outfile = None if not args.save_as else args.save_as
 
-- 
2.43.0


From cb94399c9c7d444400376737d77c531a99ac7eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:01 +0000
Subject: [PATCH 24/58] fix: space weather download: time limit, HTTP errors,
 replace the target only when complete

---
 script/fetch_celestrak_space_weather_data_csv.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/script/fetch_celestrak_space_weather_data_csv.py b/script/fetch_celestrak_space_weather_data_csv.py
index c2753b3..b711117 100755
--- a/script/fetch_celestrak_space_weather_data_csv.py
+++ b/script/fetch_celestrak_space_weather_data_csv.py
@@ -64,7 +64,11 @@ if __name__ == '__main__':
     local_fn = os.path.basename(remote) if not args.save_as else args.save_as
     local = os.path.join(args.save_dir, local_fn)
 
-    data = requests.get(remote, allow_redirects=True)
-    open(local, 'wb').write(data.content)
+    data = requests.get(remote, allow_redirects=True, timeout=60)
+    data.raise_for_status()
+
+    ## the target is only replaced when the new file is complete
+    with open(local + '.part', 'wb') as fout: fout.write(data.content)
+    os.replace(local + '.part', local)
 
     sys.exit(0)
-- 
2.43.0


From 3d71ebd7b60ad7e0c8ba36dbd69331d6650cde11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:01 +0000
Subject: [PATCH 25/58] fix: station logs: integer heights, truncated logs,
 failure to write the table

---
 script/ids_logs2station_info.py              |  8 +++++++-
 script/pydoris/pydoris/log/ids_log_parser.py | 15 +++++++++------
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/script/ids_logs2station_info.py b/script/ids_logs2station_info.py
index a9ace3b..0186dd5 100755
--- a/script/ids_logs2station_info.py
+++ b/script/ids_logs2station_info.py
@@ -58,4 +58,10 @@ if __name__ == '__main__':
 
     for fn in os.listdir(args.log_dir):
         if os.path.splitext(fn)[1] in [".log", ".LOG"]:
-            idslog.dump_log_antenna_info(os.path.join(args.log_dir,fn),fout)
\ No newline at end of file
+            idslog.dump_log_antenna_info(os.path.join(args.log_dir,fn),fout)
+
+    ## report failure to write
+    if fout is sys.stdout:
+        fout.flush()
+    else:
+        fout.close()
diff --git a/script/pydoris/pydoris/log/ids_log_parser.py b/script/pydoris/pydoris/log/ids_log_parser.py
index 4ea5af1..4b98ba0 100755
--- a/script/pydoris/pydoris/log/ids_log_parser.py
+++ b/script/pydoris/pydoris/log/ids_log_parser.py
@@ -97,18 +97,21 @@ class IdsLogFile:
 
                 elif line_is_block_header(line):
                     ret.append(cdic)
-                    break
+                    return ret
 
                 if not next_line_read:
                     line = self.istream_.readline()
             else:
                 line = self.istream_.readline()
 
-        return ret
+        ## the block should end with the header of the next one
+        errmsg = "ERROR. Unexpected end of file in block nr {:} of file: {:}".format(
+            block_nr, self.filename_)
+        raise RuntimeError(errmsg)
 
     def parse_block_nr(self, block_nr):
         if not self.go_to_block(block_nr):
-            errmsg = "ERROR. Failed to find block nr {:} in file: ".format(
+            errmsg = "ERROR. Failed to find block nr {:} in file: {:}".format(
                 block_nr, self.filename_)
             raise RuntimeError(errmsg)
         return self.parse_this_block(block_nr)
@@ -121,11 +124,11 @@ def dump_log_antenna_info(logfn,fout=sys.stdout):
     for subblock in lofd:
         name = subblock["Four character ID"]
         height_str = subblock["Height above ground mark"]
-        m = re.match(r"([0-9]+.[0-9]+)?\s*m", height_str)
+        m = re.match(r"([0-9]+(?:\.[0-9]+)?)?\s*m", height_str)
         ## Guard against the case where no explicit "m" (aka meters) character
         ## is present. Produce a warning though
         if not m:
-            m = re.match(r"([0-9]+.[0-9]+)?\s*", height_str)
+            m = re.match(r"([0-9]+(?:\.[0-9]+)?)?\s*$", height_str)
             if not m:
                 errmsg = "ERROR. Failed to parse height from string \'{}\' (file {:})".format(height_str,logfn)
                 raise RuntimeError(errmsg)
@@ -133,7 +136,7 @@ def dump_log_antenna_info(logfn,fout=sys.stdout):
                 errmsg = "WARNING. No meters (\'m\' character) explicitely recorded in height string: \'{:}\' (file {:}). Assuming meters!".format(height_str,logfn)
                 print(errmsg,file=sys.stderr)
         if len(m.groups()) != 1:
-            errmmsg = "ERROR. Failed to parse site height from field: [{:}]".format(
+            errmsg = "ERROR. Failed to parse site height from field: [{:}]".format(
                 height_str)
             raise RuntimeError(errmsg)
         height = float(m.group(1)) if m.group(1) else 0e0
-- 
2.43.0


From 25cf503a91b4f8f8b5e98077a2a6141d91ab71b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:35 +0000
Subject: [PATCH 26/58] fix: gfc conversion: numbers without decimals, endless
 loop without an end of header

---
 script/gfc_fortran2c.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/script/gfc_fortran2c.py b/script/gfc_fortran2c.py
index 6d51aec..e8c1b31 100755
--- a/script/gfc_fortran2c.py
+++ b/script/gfc_fortran2c.py
@@ -21,12 +21,15 @@ with open(sys.argv[1], encoding="utf8", errors='ignore') as fin:
   ## skip the header segment ...
   while True: 
     line = fin.readline()
+    if not line:
+      print('ERROR. Failed to find the end of header in {:}'.format(sys.argv[1]), file=sys.stderr)
+      sys.exit(1)
     print('{:}'.format(line.strip()))
     if line.lstrip().startswith('end_of_head'): break
   
   ## data segment ...
   line = fin.readline()
   while line:
-    line = re.sub(r"([+-]?[0-9]?\.[0-9]+)([Dd])([+-]?[0-9]+)", r"\1e\3", line)
+    line = re.sub(r"([+-]?(?:[0-9]+\.?[0-9]*|\.[0-9]+))([Dd])([+-]?[0-9]+)", r"\1e\3", line)
     print('{:}'.format(line.strip()))
     line = fin.readline()
-- 
2.43.0


From 3cb28c3dadd7c0f77dccf0fd9ff6b7dfd342ad32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:30 +0000
Subject: [PATCH 27/58] fix: Doppler counts: compare beacon ids as three
 characters, L1 and L2 by their index, skip missing values, truncated files,
 repeated calls

---
 src/doris/extract_doppler_count.cpp | 110 +++++++++-------------------
 1 file changed, 36 insertions(+), 74 deletions(-)

diff --git a/src/doris/extract_doppler_count.cpp b/src/doris/extract_doppler_count.cpp
index 598f730..aa40324 100644
--- a/src/doris/extract_doppler_count.cpp
+++ b/src/doris/extract_doppler_count.cpp
@@ -13,24 +13,32 @@ struct BeaconObservationData {
 };
 
 int compute_ndop(const std::vector<dso::BeaconObservations> &obsvec,
-    const dso::datetime<dso::nanoseconds> &t,
-    std::vector<BeaconObservationData> &data) noexcept {
+    const dso::datetime<dso::nanoseconds> &t, int l1_idx, int l2_idx,
+    const std::vector<BeaconObservationData> &data) noexcept {
   const char *newid = nullptr;
   for (const auto &newobs : obsvec) {
     newid = newobs.m_beacon_id;
 
     auto it = std::find_if(data.begin(), data.end(),
                            [&](const BeaconObservationData &bod) noexcept {
-                             return !std::strcmp(bod.obs.m_beacon_id, newid);
+                             return !std::strncmp(bod.obs.m_beacon_id, newid, 3);
                            });
     if (it != data.end()) {
-      double dl1 = newobs.m_values[0].m_value - it->obs.m_values[0].m_value;
-      double dl2 = newobs.m_values[1].m_value - it->obs.m_values[1].m_value;
+      const double values[] = {newobs.m_values[l1_idx].m_value,
+                               it->obs.m_values[l1_idx].m_value,
+                               newobs.m_values[l2_idx].m_value,
+                               it->obs.m_values[l2_idx].m_value};
+      // no Doppler count from missing values
+      if (std::find(values, values + 4, dso::OBSERVATION_VALUE_MISSING) !=
+          values + 4)
+        continue;
+      double dl1 = values[0] - values[1];
+      double dl2 = values[2] - values[3];
       auto tdsec = t.delta_sec(it->t);
       double dsec = static_cast<double>(tdsec.as_underlying_type()) /
                     dso::nanoseconds::sec_factor<double>();
 
-      printf("%s %.5f %.5f %.5f %.7f\n", newid, t.as_mjd(), dl1, dl2, dsec);
+      printf("%.3s %.5f %.5f %.5f %.7f\n", newid, t.as_mjd(), dl1, dl2, dsec);
     }
   }
 
@@ -47,7 +55,7 @@ int update(const std::vector<dso::BeaconObservations> &obsvec,
     newid = newobs.m_beacon_id;
     auto it = std::find_if(data.begin(), data.end(),
                            [&](const BeaconObservationData &bod) noexcept {
-                             return !std::strcmp(bod.obs.m_beacon_id, newid);
+                             return !std::strncmp(bod.obs.m_beacon_id, newid, 3);
                            });
     // if not, append
     if (it == data.end()) {
@@ -66,95 +74,49 @@ int dso::DorisObsRinex::get_doppler_counts() noexcept {
 
   long parsed_blocks = 0;
 
-  /* find indexes of L1 and L2 in this RINEX's observation codes vector
-  auto l1_ptr = std::find_if(m_obs_codes.cbegin(), m_obs_codes.cend(),
-  ObservationType{ObservationType::phase, 1}); if (l1_ptr == m_obs_codes.cend())
-  { fprintf(stderr, "[ERROR] Failed to find ObservationType L1 in RINEX\'s
-  observation types vector! (traceback: %s)\n", __func__); return 1;
-  }
-  auto l2_ptr = std::find_if(m_obs_codes.cbegin(), m_obs_codes.cend(),
-  ObservationType{ObservationType::phase, 2}); if (l2_ptr == m_obs_codes.cend())
-  { fprintf(stderr, "[ERROR] Failed to find ObservationType L2 in RINEX\'s
-  observation types vector! (traceback: %s)\n", __func__); return 1;
+  // find indexes of L1 and L2 in this RINEX's observation codes vector
+  const int l1_idx = get_observation_code_index(
+      ObservationCode{ObservationType::phase, 1});
+  const int l2_idx = get_observation_code_index(
+      ObservationCode{ObservationType::phase, 2});
+  if (l1_idx < 0 || l2_idx < 0) {
+    fprintf(stderr,
+            "[ERROR] Failed to find L1 and L2 in RINEX\'s observation types "
+            "vector! (traceback: %s)\n",
+            __func__);
+    return 1;
   }
 
-  // index of L1 and L2 in the m_obs_codes vector
-  int l1_idx = std::distance(m_obs_codes.cbegin(), l1_ptr);
-  int l2_idx = std::distance(m_obs_codes.cbegin(), l2_ptr);
-  */
-
   // vector of beacon observations; last observation extracted for each beacon
   std::vector<BeaconObservationData> latest_data;
   latest_data.reserve(m_stations.size());
 
+  // go to the start of the data
+  m_stream.clear();
   m_stream.seekg(m_end_of_head);
-  char line[MAX_RECORD_CHARS];
-  RinexDataRecordHeader hdr;
-  std::vector<BeaconObservations> obsvec;
-
-  // read first line ....
-  if (!m_stream.getline(line, MAX_RECORD_CHARS)) {
-    fprintf(stderr, "Failed to read lines from RINEX file (traceback: %s)\n",
-            __func__);
-    return 1;
-  }
-
-  // this should be a data record line
-  if (int error = resolve_data_epoch(line, hdr); error) {
-    fprintf(stderr, "Failed parsing data header line (#1)! (traceback: %s)\n",
-            __func__);
-    fprintf(stderr, "Line is: \"%s\"\n", line);
-    return 2;
-  }
-
-  // now this should be the data
-  if (int error = read_data_block(hdr, obsvec); error) {
-    fprintf(stderr, "Failed parsing data block! (#2) (traceback: %s)\n",
-            __func__);
-    return 3;
-  }
-
-  // update latest data for beacons
-  update(obsvec, hdr.m_epoch, latest_data);
-
-  while (m_stream.getline(line, MAX_RECORD_CHARS)) {
-
-    // resolve data block header ...
-    if (int error = resolve_data_epoch(line, hdr); error) {
-      fprintf(stderr, "Failed parsing data header line (#1)! (traceback: %s)\n",
-              __func__);
-      fprintf(stderr, "Line is: \"%s\"\n", line);
-      return 2;
-    }
-    // read the corresponding data block ...
-    if (int error = read_data_block(hdr, obsvec); error) {
-      fprintf(stderr, "Failed parsing data block! (#2) (traceback: %s)\n",
-              __func__);
-      return 3;
-    }
 
+  RinexDataBlockIterator block(this);
+  int error;
+  while (!(error = block.next())) {
     // compute Doppler counts for each beacon (if a previous observation is
     // preseent)
-    if (compute_ndop(obsvec, hdr.m_epoch, latest_data)) {
+    if (compute_ndop(block.cblock, block.cheader.m_epoch, l1_idx, l2_idx,
+                     latest_data)) {
       fprintf(stderr, "[ERROR] Failed computing ndop (traceback: %s)\n",
               __func__);
       return 5;
     }
 
     // update latest data
-    update(obsvec, hdr.m_epoch, latest_data);
+    update(block.cblock, block.cheader.m_epoch, latest_data);
     ++parsed_blocks;
   }
 
   // should have reached EOF ...
-  if (m_stream.eof()) {
+  if (error < 0) {
     printf("Number of data blocks parsed: %ld; EOF reached\n", parsed_blocks);
     return 0;
   }
 
-  fprintf(stderr,
-          "[ERROR] Failed getting new line while not EOF encountered "
-          "(traceback: %s)\n",
-          __func__);
-  return 1;
+  return error;
 }
-- 
2.43.0


From 6978676d35314af5dffdd6cf31983927e5634587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:21 +0000
Subject: [PATCH 28/58] fix: beacon coordinates: stations without a solution in
 lenient mode, incomplete solutions in strict mode, unterminated name,
 unreadable file

---
 src/ids/get_pdop_crd.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/ids/get_pdop_crd.cpp b/src/ids/get_pdop_crd.cpp
index 06f9ad8..12751e1 100644
--- a/src/ids/get_pdop_crd.cpp
+++ b/src/ids/get_pdop_crd.cpp
@@ -10,7 +10,7 @@ int extrapolate_coordinates(
   const char *components[] = {"STAX", "STAY", "STAZ"};
   for (int i = 0; i < 3; i++) {
     const char *sta = components[i];
-    char vel[4] = "VEL";
+    char vel[5] = "VEL";
     vel[3] = sta[3];
     auto pos_sx =
         std::find_if(estimates.begin(), estimates.end(),
@@ -99,7 +99,7 @@ int dso::extrapolate_sinex_coordinates(
     const char *snx_fn, char **station_ids, int num_stations,
     const dso::datetime<dso::microseconds> &t,
     dso::BeaconCoordinates *result_array, int &result_size,
-    bool missing_site_is_error) noexcept {
+    bool missing_site_is_error) noexcept try {
 
   // clear result size
   result_size = 0;
@@ -143,7 +143,8 @@ int dso::extrapolate_sinex_coordinates(
 
   // get the solution estimates for the sites
   error = snx.parse_block_solution_estimate(est_vec, site_vec);
-  if (error || (int)est_vec.size() < num_stations * 6) {
+  const int num_found = num_stations - (int)missing_indexes.size();
+  if (error || (missing_site_is_error && (int)est_vec.size() < num_found * 6)) {
     fprintf(stderr,
             "[ERROR] Failed to collect estimates for given sites; SINEX file "
             "is %s "
@@ -169,6 +170,8 @@ int dso::extrapolate_sinex_coordinates(
                 "[ERROR] Failed to extrapolate coordinates for site %s from "
                 "SINEX %s (traceback: %s)\n",
                 sid, snx.filename().c_str(), __func__);
+        if (missing_site_is_error)
+          return 2;
       } else {
         std::memcpy(result_array[result_size].id, sid, 4 * sizeof(char));
         result_array[result_size].x = pos[0];
@@ -180,4 +183,9 @@ int dso::extrapolate_sinex_coordinates(
   }
 
   return 0;
+} catch (std::exception &e) {
+  fprintf(stderr,
+          "[ERROR] Failed reading SINEX file %s: %s (traceback: %s)\n", snx_fn,
+          e.what(), __func__);
+  return 1;
 }
-- 
2.43.0


From c5a83dc2f29952419e3b6a9240b2712e79f9b4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:15 +0000
Subject: [PATCH 29/58] fix: do not read before a blank header field of an
 observation file

---
 src/rinex/read_rnx_header.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rinex/read_rnx_header.cpp b/src/rinex/read_rnx_header.cpp
index 866e994..2a14663 100644
--- a/src/rinex/read_rnx_header.cpp
+++ b/src/rinex/read_rnx_header.cpp
@@ -17,7 +17,7 @@
 /// str="                       ", from=22, return value=0
 /// str=" a                     ", from=22, return value=2
 int count_length_reverse(const char *str, int from) noexcept {
-  while (*(str + from) == ' ' && from >= 0)
+  while (from >= 0 && *(str + from) == ' ')
     --from;
   return ++from;
 }
-- 
2.43.0


From f6b4a37d94372b1de1ec757ad7100f6247c5d2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:51 +0000
Subject: [PATCH 30/58] fix: variational equations: do not compute within
 assertions, report failures as an undefined derivative

---
 src/variational_equations.cpp | 45 +++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/src/variational_equations.cpp b/src/variational_equations.cpp
index d7fe823..31749eb 100644
--- a/src/variational_equations.cpp
+++ b/src/variational_equations.cpp
@@ -3,6 +3,9 @@
 #include "astrodynamics.hpp"
 #include "geodesy/geodesy.hpp"
 #include "geodesy/units.hpp"
+#include <cmath>
+#include <cstdio>
+#include <limits>
 
 constexpr const int Np = 1;
 
@@ -25,7 +28,11 @@ void dso::VariationalEquations(
 #else
   Eigen::Matrix<double, 3, 3> rc2i, rpom;
   double era,xlod;
-  assert(!gcrs2itrs(cmjd, params.eopLUT, rc2i, era, rpom, xlod));
+  if (gcrs2itrs(cmjd, params.eopLUT, rc2i, era, rpom, xlod)) {
+    fprintf(stderr, "ERROR Failed to get Earth rotation for TAI %.9f\n", cmjd);
+    yPhiP.setConstant(std::numeric_limits<double>::quiet_NaN());
+    return;
+  }
   // const auto t2c = (rpom * rc2ti).transpose() ;
 #endif
   //{
@@ -91,8 +98,12 @@ void dso::VariationalEquations(
   Eigen::Matrix<double, 3, 1> sun_acc;
   Eigen::Matrix<double, 3, 1> mon_acc;
   Eigen::Matrix<double, 3, 3> tb_partials;
-  dso::SunMoon(cmjd, r, params.GMSun, params.GMMon, sun_acc, mon_acc, rsun,
-               tb_partials);
+  if (dso::SunMoon(cmjd, r, params.GMSun, params.GMMon, sun_acc, mon_acc, rsun,
+                   tb_partials)) {
+    fprintf(stderr, "ERROR Failed to get Sun/Moon for TAI %.9f\n", cmjd);
+    yPhiP.setConstant(std::numeric_limits<double>::quiet_NaN());
+    return;
+  }
 
   // Drag
   // Warning only valid for Jason-3
@@ -104,7 +115,8 @@ void dso::VariationalEquations(
   Eigen::Quaternion<double> q;
   if (params.qhunt->get_at(cmjd, q)) {
     fprintf(stderr, "ERROR Failed to find quaternion for datetime\n");
-    assert(false);
+    yPhiP.setConstant(std::numeric_limits<double>::quiet_NaN());
+    return;
   } else {
     // compute cross-section area
     constexpr const double omegav[] = {0e0, 0e0, iers2010::OmegaEarth};
@@ -136,10 +148,14 @@ void dso::VariationalEquations(
       utc_fday += 1e0;
       --imjd;
     }
-    assert(!params.AtmDataFeed->update_params(imjd, utc_fday*86400e0));
+    if (params.AtmDataFeed->update_params(imjd, utc_fday*86400e0)) {
+      fprintf(stderr, "ERROR Failed to get flux data for TAI %.9f\n", cmjd);
+      yPhiP.setConstant(std::numeric_limits<double>::quiet_NaN());
+      return;
+    }
     params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0));
     dso::nrlmsise00::OutParams aout;
-    assert(!params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout));
+    int aerror = params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout);
     const double atmdens = aout.d[5];
     Eigen::Matrix<double,3,1> drhodr;
     { // approximate arithmetic derivative w.r.t satellite ECEF position
@@ -148,34 +164,39 @@ void dso::VariationalEquations(
       // w.r.t X component
       unitv << 1e0, 0e0, 0e0;
       params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
-      assert(!params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout));
+      aerror += params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout);
       p1 = aout.d[5];
       unitv << -1e0, 0e0, 0e0;
       params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
-      assert(!params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout));
+      aerror += params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout);
       m1 = aout.d[5];
       drhodr(0) = ((p1-atmdens) + (atmdens-m1)) / 2e0;
       // w.r.t Y component
       unitv << 0e0, 1e0, 0e0;
       params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
-      assert(!params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout));
+      aerror += params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout);
       p1 = aout.d[5];
       unitv << 0e0, -1e0, 0e0;
       params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
-      assert(!params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout));
+      aerror += params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout);
       m1 = aout.d[5];
       drhodr(1) = ((p1-atmdens) + (atmdens-m1)) / 2e0;
       // w.r.t Z component
       unitv << 0e0, 0e0, 1e0;
       params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
-      assert(!params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout));
+      aerror += params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout);
       p1 = aout.d[5];
       unitv << 0e0, 0e0, 1e0;
       params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
-      assert(!params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout));
+      aerror += params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout);
       m1 = aout.d[5];
       drhodr(2) = ((p1-atmdens) + (atmdens-m1)) / 2e0;
     }
+    if (aerror) {
+      fprintf(stderr, "ERROR Failed to get density for TAI %.9f\n", cmjd);
+      yPhiP.setConstant(std::numeric_limits<double>::quiet_NaN());
+      return;
+    }
   //  //printf("Note: Using drag coefficient=%.3f\n", params.get_drag_coefficient());
     //drag = dso::drag_accel(r, v, ProjArea, /*params.get_drag_coefficient()*/2e0,
     //                       *(params.SatMass), atmdens/*, drhodr, ddragdr, ddragdv,
-- 
2.43.0


From ed5db73aac2e0c1129a3c9a09f404ac754d4c1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:51 +0000
Subject: [PATCH 31/58] fix: variational equations: rotate the partials of
 gravity to the inertial frame

---
 src/variational_equations.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/variational_equations.cpp b/src/variational_equations.cpp
index 31749eb..5614ad2 100644
--- a/src/variational_equations.cpp
+++ b/src/variational_equations.cpp
@@ -78,8 +78,10 @@ void dso::VariationalEquations(
   //}
 #else
   gacc = rter2cel(gacc, rc2i, era, rpom);
-  const auto rc2ti = Eigen::AngleAxisd(era, -Eigen::Vector3d::UnitZ()) * rc2i;
-  gpartials = (rpom * rc2ti) * gpartials * (rpom * rc2ti).transpose();
+  // celestial to terrestrial, hence dacc_cel/dr_cel = U^T * dacc_ter/dr_ter * U
+  const Eigen::Matrix<double, 3, 3> c2t =
+      rpom * (Eigen::AngleAxisd(era, -Eigen::Vector3d::UnitZ()) * rc2i);
+  gpartials = (c2t.transpose() * gpartials * c2t).eval();
   //for (int i=0; i<3; i++) {
   //  for (int j=0; j<3; j++) {
   //    printf(" %+.6f ",(rpom * rc2ti)(i,j));
-- 
2.43.0


From b84c1c6e1ab25db8c52413e4d084dfc393b4e075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:51 +0000
Subject: [PATCH 32/58] fix: variational equations: atmospheric density at the
 Earth-fixed position, gradient in the inertial frame

---
 src/variational_equations.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/variational_equations.cpp b/src/variational_equations.cpp
index 5614ad2..45c0073 100644
--- a/src/variational_equations.cpp
+++ b/src/variational_equations.cpp
@@ -155,7 +155,7 @@ void dso::VariationalEquations(
       yPhiP.setConstant(std::numeric_limits<double>::quiet_NaN());
       return;
     }
-    params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0));
+    params.AtmDataFeed->set_spatial_from_cartesian(r_geo);
     dso::nrlmsise00::OutParams aout;
     int aerror = params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout);
     const double atmdens = aout.d[5];
@@ -165,34 +165,36 @@ void dso::VariationalEquations(
       double p1,m1;
       // w.r.t X component
       unitv << 1e0, 0e0, 0e0;
-      params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
+      params.AtmDataFeed->set_spatial_from_cartesian(r_geo + unitv);
       aerror += params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout);
       p1 = aout.d[5];
       unitv << -1e0, 0e0, 0e0;
-      params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
+      params.AtmDataFeed->set_spatial_from_cartesian(r_geo + unitv);
       aerror += params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout);
       m1 = aout.d[5];
       drhodr(0) = ((p1-atmdens) + (atmdens-m1)) / 2e0;
       // w.r.t Y component
       unitv << 0e0, 1e0, 0e0;
-      params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
+      params.AtmDataFeed->set_spatial_from_cartesian(r_geo + unitv);
       aerror += params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout);
       p1 = aout.d[5];
       unitv << 0e0, -1e0, 0e0;
-      params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
+      params.AtmDataFeed->set_spatial_from_cartesian(r_geo + unitv);
       aerror += params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout);
       m1 = aout.d[5];
       drhodr(1) = ((p1-atmdens) + (atmdens-m1)) / 2e0;
       // w.r.t Z component
       unitv << 0e0, 0e0, 1e0;
-      params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
+      params.AtmDataFeed->set_spatial_from_cartesian(r_geo + unitv);
       aerror += params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout);
       p1 = aout.d[5];
-      unitv << 0e0, 0e0, 1e0;
-      params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
+      unitv << 0e0, 0e0, -1e0;
+      params.AtmDataFeed->set_spatial_from_cartesian(r_geo + unitv);
       aerror += params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout);
       m1 = aout.d[5];
       drhodr(2) = ((p1-atmdens) + (atmdens-m1)) / 2e0;
+      // gradient w.r.t inertial position
+      drhodr = rter2cel(drhodr, rc2i, era, rpom);
     }
     if (aerror) {
       fprintf(stderr, "ERROR Failed to get density for TAI %.9f\n", cmjd);
-- 
2.43.0


From 37f64a24f59c842c66bed8e80343b78379fd94df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:51 +0000
Subject: [PATCH 33/58] fix: variational equations: UTC date for the density is
 not a day early

---
 src/variational_equations.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/variational_equations.cpp b/src/variational_equations.cpp
index 45c0073..23612f4 100644
--- a/src/variational_equations.cpp
+++ b/src/variational_equations.cpp
@@ -143,10 +143,10 @@ void dso::VariationalEquations(
     double utc_fday = std::modf(cmjd, &imjd);
     const int leap_sec = dso::dat(cmjd, eid);
     utc_fday -= leap_sec / (86400e0 + (double)eid);
-    if (utc_fday > 1e0) {
+    if (utc_fday >= 1e0) {
       utc_fday -= 1e0;
       ++imjd;
-    } else if (utc_fday < 1e0) {
+    } else if (utc_fday < 0e0) {
       utc_fday += 1e0;
       --imjd;
     }
-- 
2.43.0


From a26fbd5ecdcbfb3e8998c316dc0a761aeaf3d60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:51 +0000
Subject: [PATCH 34/58] fix: nrlmsise00 input: set the local solar time along
 with the position

---
 src/atmosphere/nrlmsise00.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/atmosphere/nrlmsise00.hpp b/src/atmosphere/nrlmsise00.hpp
index 685d221..f81efba 100644
--- a/src/atmosphere/nrlmsise00.hpp
+++ b/src/atmosphere/nrlmsise00.hpp
@@ -339,6 +339,7 @@ template <> struct InParams<detail::FluxDataFeedType::ST_CSV_SW> {
     params_.glon = dso::rad2deg(lfh(0)); // longitude in degrees
     params_.glat = dso::rad2deg(lfh(1)); // latitude in degrees
     params_.alt  = lfh(2) * 1e-3; // altitude in km
+    params_.lst  = params_.sec / 3600e0 + params_.glon / 15e0; // consistent LST
   }
 };
 
-- 
2.43.0


From 8eae32ec50e6a16b76f2c5a3b91bc5ac5205a9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:51 +0000
Subject: [PATCH 35/58] fix: integration parameters: do not go on with
 undefined gravitational constants

---
 src/orbit_integration.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/orbit_integration.hpp b/src/orbit_integration.hpp
index 6968c7d..a97425f 100644
--- a/src/orbit_integration.hpp
+++ b/src/orbit_integration.hpp
@@ -9,6 +9,8 @@
 #include "atmosphere.hpp"
 #include "eigen3/Eigen/Eigen"
 #include <cassert>
+#include <cstdio>
+#include <limits>
 
 namespace dso {
 
@@ -52,9 +54,10 @@ struct IntegrationParameters {
         degree(degree_), order(order_) {
     assert(degree_ == harmonics_.degree());
     // gravitational parameters
-    [[maybe_unused]] const int error =
-        dso::get_sun_moon_GM(pck_kernel, GMSun, GMMon);
-    assert(!error);
+    if (dso::get_sun_moon_GM(pck_kernel, GMSun, GMMon)) {
+      fprintf(stderr, "ERROR Failed to get Sun/Moon GM constants\n");
+      GMSun = GMMon = std::numeric_limits<double>::quiet_NaN();
+    }
   };
 
   ~IntegrationParameters() noexcept {
-- 
2.43.0


From 5ae74614719444808617cc8c75ce577ebc8a4a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:51 +0000
Subject: [PATCH 36/58] fix: frame transformations: do not keep expressions of
 temporary matrices

---
 src/itrs2gcrs.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/itrs2gcrs.cpp b/src/itrs2gcrs.cpp
index 36718b6..634fb6c 100644
--- a/src/itrs2gcrs.cpp
+++ b/src/itrs2gcrs.cpp
@@ -86,7 +86,8 @@ dso::rcel2ter(const Eigen::Matrix<double, 3, 1> r,
                  const Eigen::Matrix<double, 3, 3> &rc2i,
             const double era,
                  const Eigen::Matrix<double, 3, 3> &rpom) noexcept {
-  const auto rc2ti = Eigen::AngleAxisd(era, -Eigen::Vector3d::UnitZ()) * rc2i;
+  const Eigen::Matrix<double, 3, 3> rc2ti =
+      Eigen::AngleAxisd(era, -Eigen::Vector3d::UnitZ()) * rc2i;
   return (rpom * rc2ti) * r;
 }
 
@@ -105,11 +106,13 @@ dso::ycel2ter(const Eigen::Matrix<double, 6, 1> y,
   const double data[] = {0e0, -1e0, 0e0, 1e0, 0e0, 0e0, 0e0, 0e0, 0e0};
 
 #ifdef NEW_EOP
-  const auto rc2ti = (OmegaEarth(xlod) * Eigen::Matrix<double, 3, 3>(data) *
+  const Eigen::Matrix<double, 3, 3> rc2ti =
+                     (OmegaEarth(xlod) * Eigen::Matrix<double, 3, 3>(data) *
                       Eigen::AngleAxisd(era, -Eigen::Vector3d::UnitZ())) *
                      rc2i;
 #else
-  const auto rc2ti = (iers2010::OmegaEarth * Eigen::Matrix<double, 3, 3>(data) *
+  const Eigen::Matrix<double, 3, 3> rc2ti =
+                     (iers2010::OmegaEarth * Eigen::Matrix<double, 3, 3>(data) *
                       Eigen::AngleAxisd(era, -Eigen::Vector3d::UnitZ())) *
                      rc2i;
 #endif
@@ -122,7 +125,8 @@ dso::rter2cel(const Eigen::Matrix<double, 3, 1> r,
                  const Eigen::Matrix<double, 3, 3> &rc2i,
                  const double era,
                  const Eigen::Matrix<double, 3, 3> &rpom) noexcept {
-  const auto rc2ti = Eigen::AngleAxisd(era, -Eigen::Vector3d::UnitZ()) * rc2i;
+  const Eigen::Matrix<double, 3, 3> rc2ti =
+      Eigen::AngleAxisd(era, -Eigen::Vector3d::UnitZ()) * rc2i;
   return (rpom * rc2ti).transpose() * r;
 }
 
@@ -141,11 +145,13 @@ dso::yter2cel(const Eigen::Matrix<double, 6, 1> y,
   const double data[] = {0e0, -1e0, 0e0, 1e0, 0e0, 0e0, 0e0, 0e0, 0e0};
 
 #ifdef NEW_EOP
-  const auto rc2ti = (OmegaEarth(xlod) * Eigen::Matrix<double, 3, 3>(data) *
+  const Eigen::Matrix<double, 3, 3> rc2ti =
+                     (OmegaEarth(xlod) * Eigen::Matrix<double, 3, 3>(data) *
                       Eigen::AngleAxisd(era, -Eigen::Vector3d::UnitZ())) *
                      rc2i;
 #else
-  const auto rc2ti = (iers2010::OmegaEarth * Eigen::Matrix<double, 3, 3>(data) *
+  const Eigen::Matrix<double, 3, 3> rc2ti =
+                     (iers2010::OmegaEarth * Eigen::Matrix<double, 3, 3>(data) *
                       Eigen::AngleAxisd(era, -Eigen::Vector3d::UnitZ())) *
                      rc2i;
 #endif
-- 
2.43.0


From f54ef8c34864b9a7b0973f109061b661023d7494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:26 +0000
Subject: [PATCH 37/58] fix: nrlmsise00: recompute for any change in latitude
 and local time

---
 src/atmosphere/nrlmsise00_globe7.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/atmosphere/nrlmsise00_globe7.cpp b/src/atmosphere/nrlmsise00_globe7.cpp
index c5e4658..4fb0925 100644
--- a/src/atmosphere/nrlmsise00_globe7.cpp
+++ b/src/atmosphere/nrlmsise00_globe7.cpp
@@ -22,7 +22,7 @@ double dso::Nrlmsise00::globe7(const InParamsCore *in, double *pp) noexcept {
   const double sw9 = 1e0 * (sw[8] < 0e0) * -1e0;
 
   // last latitude (so we don't re-compute legendre polynomials)
-  if (std::abs(xl - in->glat) > nearzero) {
+  if (xl != in->glat) {
     // calculate legendre polynomials
     const double c = std::sin(dso::deg2rad(in->glat));
     const double s = std::cos(dso::deg2rad(in->glat));
@@ -61,7 +61,7 @@ double dso::Nrlmsise00::globe7(const InParamsCore *in, double *pp) noexcept {
 
   const double tloc = in->lst;
   // last used tloc/lst (so we don't recompute trig numbers)
-  if (std::abs(tll - tloc) > nearzero) {
+  if (tll != tloc) {
     if (std::abs(sw[6]) > 0e0 || std::abs(sw[7]) > 0e0 || std::abs(sw[13])) {
       stloc = std::sin(hr * tloc);
       ctloc = std::cos(hr * tloc);
-- 
2.43.0


From 9f8f1708b9aa4c8f8a3e657f57123e5b03bf0e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:41 +0000
Subject: [PATCH 38/58] fix: fetch_celestrak: do not share the temporary file
 with other instances

---
 script/fetch_celestrak_space_weather_data_csv.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/script/fetch_celestrak_space_weather_data_csv.py b/script/fetch_celestrak_space_weather_data_csv.py
index b711117..bd2ef81 100755
--- a/script/fetch_celestrak_space_weather_data_csv.py
+++ b/script/fetch_celestrak_space_weather_data_csv.py
@@ -67,8 +67,10 @@ if __name__ == '__main__':
     data = requests.get(remote, allow_redirects=True, timeout=60)
     data.raise_for_status()
 
-    ## the target is only replaced when the new file is complete
-    with open(local + '.part', 'wb') as fout: fout.write(data.content)
-    os.replace(local + '.part', local)
+    ## the target is only replaced when the new file is complete; other
+    ## instances of the script may be running, do not share the temporary file
+    tmp = '{:}.{:}.part'.format(local, os.getpid())
+    with open(tmp, 'wb') as fout: fout.write(data.content)
+    os.replace(tmp, local)
 
     sys.exit(0)
-- 
2.43.0


From 2b5760646d5956bda2228e31df89a379d1f2a23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:41 +0000
Subject: [PATCH 39/58] fix: fetch_iers_c04: do not share the temporary file
 with other instances

---
 script/fetch_iers_c04.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/script/fetch_iers_c04.py b/script/fetch_iers_c04.py
index 45935c1..2558262 100755
--- a/script/fetch_iers_c04.py
+++ b/script/fetch_iers_c04.py
@@ -262,8 +262,9 @@ def c04_cat(outfn, *c04fns):
   if mjds != list(range(mjds[0], mjds[0]+len(mjds))):
     raise RuntimeError('Bulletin B/C04 files {:} are not consecutive'.format(c04fns))
 
-  ## write to a temporary file, which replaces the output file when complete
-  tmpfn = outfn + '.part' if outfn else None
+  ## write to a temporary file, which replaces the output file when complete;
+  ## other instances of the script may be running, do not share it
+  tmpfn = '{:}.{:}.part'.format(outfn, os.getpid()) if outfn else None
   fout = open(tmpfn, 'w') if outfn else sys.stdout
 
   print(header, end='', file=fout)
-- 
2.43.0


From d32978d1b5e2e1ad01fe71eaa11805ee59d9a817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:41 +0000
Subject: [PATCH 40/58] fix: var gfc_fortran2c: convert all numbers and stop at
 a file with no end of header

---
 var/icgem/script/gfc_fortran2c.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/var/icgem/script/gfc_fortran2c.py b/var/icgem/script/gfc_fortran2c.py
index 6d51aec..e8c1b31 100755
--- a/var/icgem/script/gfc_fortran2c.py
+++ b/var/icgem/script/gfc_fortran2c.py
@@ -21,12 +21,15 @@ with open(sys.argv[1], encoding="utf8", errors='ignore') as fin:
   ## skip the header segment ...
   while True: 
     line = fin.readline()
+    if not line:
+      print('ERROR. Failed to find the end of header in {:}'.format(sys.argv[1]), file=sys.stderr)
+      sys.exit(1)
     print('{:}'.format(line.strip()))
     if line.lstrip().startswith('end_of_head'): break
   
   ## data segment ...
   line = fin.readline()
   while line:
-    line = re.sub(r"([+-]?[0-9]?\.[0-9]+)([Dd])([+-]?[0-9]+)", r"\1e\3", line)
+    line = re.sub(r"([+-]?(?:[0-9]+\.?[0-9]*|\.[0-9]+))([Dd])([+-]?[0-9]+)", r"\1e\3", line)
     print('{:}'.format(line.strip()))
     line = fin.readline()
-- 
2.43.0


From 3963f7e1af5401c557cccc7f9057c7c50a8c5317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:44 +0000
Subject: [PATCH 41/58] fix: perifocal2equatorial_matrix: third row depends on
 the argument of perigee

---
 src/astrodynamics/perifocal.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/astrodynamics/perifocal.cpp b/src/astrodynamics/perifocal.cpp
index 76a89f5..2710d1f 100644
--- a/src/astrodynamics/perifocal.cpp
+++ b/src/astrodynamics/perifocal.cpp
@@ -19,8 +19,8 @@ dso::Mat3x3 dso::perifocal2equatorial_matrix(double Omega, double omega,
   const double m10 = sO * co + cO * so * ci;
   const double m11 = -sO * so + cO * co * ci;
   const double m12 = -cO * si;
-  const double m20 = sO * si;
-  const double m21 = cO * si;
+  const double m20 = so * si;
+  const double m21 = co * si;
   const double m22 = ci;
 
   return dso::Mat3x3({m00, m01, m02, m10, m11, m12, m20, m21, m22});
-- 
2.43.0


From 3ff02eb7b2dad6b13830bf580f3ea1bad6cfeedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:44 +0000
Subject: [PATCH 42/58] fix: elements2state: do not swap the node and the
 argument of perigee

---
 src/astrodynamics/state2kepler.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/astrodynamics/state2kepler.cpp b/src/astrodynamics/state2kepler.cpp
index e74fcd0..f1eb065 100644
--- a/src/astrodynamics/state2kepler.cpp
+++ b/src/astrodynamics/state2kepler.cpp
@@ -79,17 +79,18 @@ Eigen::Matrix<double, 6, 1> dso::elements2state(double GM, double dt,
   const double Omega = ele.Omega();
   const double omega = ele.omega();
   const double i = ele.inclination();
-  Eigen::Matrix3d R(Eigen::AngleAxisd(-Omega, Eigen::Vector3d::UnitZ()) *
-                    Eigen::AngleAxisd(-i, Eigen::Vector3d::UnitX()) *
-                    Eigen::AngleAxisd(-omega, Eigen::Vector3d::UnitZ()));
+  // (AngleAxis rotates vectors, hence the positive angles)
+  const Eigen::Matrix3d R(Eigen::AngleAxisd(Omega, Eigen::Vector3d::UnitZ()) *
+                          Eigen::AngleAxisd(i, Eigen::Vector3d::UnitX()) *
+                          Eigen::AngleAxisd(omega, Eigen::Vector3d::UnitZ()));
   //printf("PQW = [%+20.10f %+20.10f %20.10f]\n", R(0,0),R(0,1),R(0,2));
   //printf("      [%+20.10f %+20.10f %20.10f]\n", R(1,0),R(1,1),R(1,2));
   //printf("      [%+20.10f %+20.10f %20.10f]\n", R(2,0),R(2,1),R(2,2));
   //printf("xAngle %+10.5f yAngle %+10.5f zAngle %+10.5f\n", dso::rad2deg(Omega), dso::rad2deg(i), dso::rad2deg(omega));
 
   // rotate to get equatorial, aka geocentric/(quasi-)inertial
-  Y.block<3,1>(0,0) = R.transpose() * Y.block<3,1>(0,0);
-  Y.block<3,1>(3,0) = R.transpose() * Y.block<3,1>(3,0);
+  Y.block<3,1>(0,0) = R * Y.block<3,1>(0,0);
+  Y.block<3,1>(3,0) = R * Y.block<3,1>(3,0);
   //printf("inertial coordinates: r=[%+20.10f %+20.10f %20.10f]\n", Y(0),Y(1),Y(2));
   //printf("                      v=[%+20.10f %+20.10f %20.10f]\n", Y(3),Y(4),Y(5));
   return Y;
-- 
2.43.0


From 6704132504602860ea5fa2710f4a47b571ae14eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:44 +0000
Subject: [PATCH 43/58] fix: state2kepler_montenbruck: eccentric anomaly and
 range of the angles

---
 src/astrodynamics/state2kepler.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/astrodynamics/state2kepler.cpp b/src/astrodynamics/state2kepler.cpp
index f1eb065..cb3b31a 100644
--- a/src/astrodynamics/state2kepler.cpp
+++ b/src/astrodynamics/state2kepler.cpp
@@ -187,7 +187,8 @@ int dso::alternatives::state2kepler_montenbruck(const double *state,
   const Vector3 W{{h.x() / hmag, h.y() / hmag, h.z() / hmag}};
 
   keplerian[1] = std::atan2(std::sqrt(W.x() * W.x() + W.y() * W.y()), W.z());
-  keplerian[2] = std::atan2(W.x(), -W.y());
+  keplerian[2] = dso::norm_angle<double, dso::AngleUnit::Radians>(
+      std::atan2(W.x(), -W.y()));
 
   const double p = h.norm_squared() / m;
   const double a = 1e0 / ((2e0 / rmag) - (v.norm_squared() / m));
@@ -195,14 +196,15 @@ int dso::alternatives::state2kepler_montenbruck(const double *state,
   const double e = std::sqrt(1e0 - (p / a));
   keplerian[3] = e;
 
-  const double E = atan2(r.dot_product(v) / a * a / n, 1e0 - rmag / a);
+  const double E = atan2(r.dot_product(v) / (a * a * n), 1e0 - rmag / a);
   const double sE = std::sin(E);
   // const double M = E - e * sE;
 
   const double u = std::atan2(r.z(), -r.x() * W.y() + r.y() * W.x());
   const double t = std::atan2(std::sqrt(1e0 - e * e) * sE, std::cos(E) - e);
-  keplerian[4] = u - t;
-  keplerian[5] = t;
+  keplerian[4] =
+      dso::norm_angle<double, dso::AngleUnit::Radians>(u - t);
+  keplerian[5] = dso::norm_angle<double, dso::AngleUnit::Radians>(t);
 
   return 0;
 }
-- 
2.43.0


From 7ebbb74460f177b87d6b11a48dbf9b490db6a6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:44 +0000
Subject: [PATCH 44/58] fix: state2kepler: no NaN when a cosine is rounded out
 of [-1,1]

---
 src/astrodynamics/state2kepler.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/astrodynamics/state2kepler.cpp b/src/astrodynamics/state2kepler.cpp
index cb3b31a..32d9950 100644
--- a/src/astrodynamics/state2kepler.cpp
+++ b/src/astrodynamics/state2kepler.cpp
@@ -13,6 +13,13 @@
 
 using dso::Vector3;
 
+namespace {
+/// arc cosine of a value that may be out of [-1,1] due to rounding
+inline double safe_acos(double c) noexcept {
+  return std::acos(c > 1e0 ? 1e0 : (c < -1e0 ? -1e0 : c));
+}
+} // namespace
+
 int dso::elements2state(const dso::OrbitalElements &ele, double dt,
                         dso::Vector3 &r, dso::Vector3 &v, double GM) noexcept {
   // mean anomaly M at time t
@@ -244,19 +251,19 @@ int dso::alternatives::state2kepler_vallado(const double *state,
   //  enorm * enorm);
   //#endif
 
-  keplerian[1] = std::acos(h.z() / hnorm);
+  keplerian[1] = safe_acos(h.z() / hnorm);
 
-  double Omega = std::acos(n.x() / nnorm);
+  double Omega = safe_acos(n.x() / nnorm);
   if (n.y() < 0e0)
     Omega = iers2010::D2PI - Omega;
   keplerian[2] = Omega;
 
-  double omega = std::acos(n.dot_product(e) / (nnorm * enorm));
+  double omega = safe_acos(n.dot_product(e) / (nnorm * enorm));
   if (e.z() < 0e0)
     omega = iers2010::D2PI - omega;
   keplerian[4] = omega;
 
-  double ni = std::acos(e.dot_product(r) / (enorm * rnorm));
+  double ni = safe_acos(e.dot_product(r) / (enorm * rnorm));
   if (r.dot_product(v) < 0e0)
     ni = iers2010::D2PI - ni;
   keplerian[5] = ni;
@@ -292,7 +299,7 @@ int dso::state2kepler(const double *state, double *keplerian,
   // momentum h points in a southerly direction. In that case, the orbit is
   // retrograde, which means that the motion of the satellite around the earth
   // is opposite to earth’s rotation.
-  keplerian[1] = std::acos(hv.z() / keplerian[0]);
+  keplerian[1] = safe_acos(hv.z() / keplerian[0]);
 
   // calculate N = k x h ; this vector defines the node line.
   const Vector3 Nv{{-hv.y(), hv.x(), 0e0}};
@@ -307,7 +314,7 @@ int dso::state2kepler(const double *state, double *keplerian,
   // the negative side of the XZ plane (180° < Ω < 360°) if NY < 0. Therefore,
   // NY > 0 implies that 0  Ω < 180°, whereas NY < 0 implies that
   // 180° < Ω < 360°
-  const double Nf = std::acos(Nv.x() / N);
+  const double Nf = safe_acos(Nv.x() / N);
 #ifdef BRANCHLESS
   const double retN[] = {Nf, iers2010::D2PI - Nf};
   keplerian[2] = retN[Nv.y() < 0e0];
@@ -330,7 +337,7 @@ int dso::state2kepler(const double *state, double *keplerian,
   // positive Z direction) and that perigee lies below the plane
   // (180°  ω < 360°) if e points down. Therefore, eZ >=  0 implies that
   // 0° < ω < 180°, whereas eZ < 0 implies that 180° < ω < 360°.
-  const double Of = std::acos(Nv.dot_product(ev) / N / e);
+  const double Of = safe_acos(Nv.dot_product(ev) / N / e);
 #ifdef BRANCHLESS
   const double retO[] = {Of, iers2010::D2PI - Of};
   keplerian[4] = retO[ev.z() < 0e0];
@@ -345,7 +352,7 @@ int dso::state2kepler(const double *state, double *keplerian,
   // satellite is flying away from perigee (r*v >= 0), then 0 <  θ < 180°,
   // whereas if the satellite is flying toward perigee (r*v < 0), then
   // 180° < θ < 360°.
-  const double Tf = std::acos(ev.dot_product(pos) / e / r);
+  const double Tf = safe_acos(ev.dot_product(pos) / e / r);
 #ifdef BRANCHLESS
   const double retT[] = {Tf, iers2010::D2PI - Tf};
   keplerian[5] = retT[vr < 0e0];
-- 
2.43.0


From 6a58648332851e31c397e0a2be8962d1cfcd0eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:44 +0000
Subject: [PATCH 45/58] fix: pos2ad: right ascension of positions in the plane
 y=0

---
 src/astrodynamics/pos2ra.cpp | 32 +++++++-------------------------
 1 file changed, 7 insertions(+), 25 deletions(-)

diff --git a/src/astrodynamics/pos2ra.cpp b/src/astrodynamics/pos2ra.cpp
index 2a9bf8f..5d849f0 100644
--- a/src/astrodynamics/pos2ra.cpp
+++ b/src/astrodynamics/pos2ra.cpp
@@ -1,32 +1,14 @@
 #include "astrodynamics.hpp"
 #include <cmath>
-#ifdef ASSERT_ERROR
-#include <cassert>
-#endif
 
 int dso::pos2ad(const Vector3 &pos, double &a, double &d) noexcept {
-  // calculate the magnitude of r
-  const double r = pos.norm();
-  
-  // Calculate the direction cosines of r
-  const double l = pos.x() / r;
-  const double m = pos.y() / r;
-  const double n = pos.z() / r;
-  
-  // Calculate the declination
-#ifdef ASSERT_ERROR
-  assert(n>=-1e0 && n<=1e0);
-#endif
-  d = std::asin(n); // range [-pi/2 to pi/2]
-  
-  // Calculate the right ascension
-  const double af = std::acos(l / std::cos(d));
-#ifdef BRANCHLESS
-  const double ret[] = {iers2010::D2PI - af, af};
-  a = ret[m>0];
-#else
-  a = (m<=0) ? (iers2010::D2PI - af) : af;
-#endif
+  // Calculate the declination, range [-pi/2 to pi/2]
+  d = std::atan2(pos.z(), std::sqrt(pos.x() * pos.x() + pos.y() * pos.y()));
+
+  // Calculate the right ascension, range [0 to 2pi]
+  a = std::atan2(pos.y(), pos.x());
+  if (a < 0e0)
+    a += iers2010::D2PI;
 
   return 0;
 }
-- 
2.43.0


From 51d2339068e7f29979f22bb7b68aff894ed2df29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:44 +0000
Subject: [PATCH 46/58] fix: exponential density: scale height from 180 to 200
 km

---
 src/atmosphere/exponential_atmospheric_model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atmosphere/exponential_atmospheric_model.cpp b/src/atmosphere/exponential_atmospheric_model.cpp
index e28c923..86434bb 100644
--- a/src/atmosphere/exponential_atmospheric_model.cpp
+++ b/src/atmosphere/exponential_atmospheric_model.cpp
@@ -29,7 +29,7 @@ const AtmLayer AtmTable[] = {
     {130, 140, 130, 8.484e-9, 12.636e0},
     {140, 150, 140, 3.845e-9, 16.149e0},
     {150, 180, 150, 2.070e-9, 22.523e0},
-    {180, 200, 180, 5.464e-10, 29740e0},
+    {180, 200, 180, 5.464e-10, 29.740e0},
     {200, 250, 200, 2.789e-10, 37.105e0},
     {250, 300, 250, 7.248e-11, 45.546e0},
     {300, 350, 300, 2.418e-11, 53.628e0},
-- 
2.43.0


From 65f77c4888a3db596aa6e4e4f6c906238c662ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:44 +0000
Subject: [PATCH 47/58] fix: drag_accel: do not keep expressions of temporary
 vectors

---
 src/astrodynamics/drag.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/astrodynamics/drag.cpp b/src/astrodynamics/drag.cpp
index 5145ea1..34c30ca 100644
--- a/src/astrodynamics/drag.cpp
+++ b/src/astrodynamics/drag.cpp
@@ -26,12 +26,12 @@ dso::drag_accel(const Eigen::Matrix<double, 3, 1> &rsat,
   const Eigen::Matrix<double, 3, 1> omega{omegav};
 
   // position and velocity of satellite to true-of-date system
-  const auto rtod = rbpn * rsat;
-  const auto vtod = rbpn * vsat;
+  const Eigen::Matrix<double, 3, 1> rtod = rbpn * rsat;
+  const Eigen::Matrix<double, 3, 1> vtod = rbpn * vsat;
 
   // Velocity relative to the Earth's atmosphere
-  const auto vrel = vtod - omega.cross(rtod);
-  const auto vabs = vrel.norm();
+  const Eigen::Matrix<double, 3, 1> vrel = vtod - omega.cross(rtod);
+  const double vabs = vrel.norm();
 
   // Acceleration
   Eigen::Matrix<double, 3, 1> acc =
-- 
2.43.0


From 5e6de4af5bde791dc0fa56586b0a0faddf05e316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:44 +0000
Subject: [PATCH 48/58] fix: iono_free_phase_center: do not keep expressions of
 temporary vectors

---
 src/doris_system_info.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/doris_system_info.hpp b/src/doris_system_info.hpp
index 7f0dbec..102dd0d 100644
--- a/src/doris_system_info.hpp
+++ b/src/doris_system_info.hpp
@@ -161,14 +161,14 @@ struct BeaconStation {
   ///        position estimation using DORIS RINEX data", section 2.5.7
   Eigen::Matrix<double, 3, 1> iono_free_phase_center() const noexcept {
     // the 2GHz Phase center in [mm]
-    const auto r_2Ghz = AntennaOffset<GroundAntennaType::Alcatel, 1>::pco() *
+    const Eigen::Matrix<double, 3, 1> r_2Ghz = AntennaOffset<GroundAntennaType::Alcatel, 1>::pco() *
                             (type() == GroundAntennaType::Alcatel) +
                         AntennaOffset<GroundAntennaType::Starec_B, 1>::pco() *
                             (type() == GroundAntennaType::Starec_B ||
                              type() == GroundAntennaType::Starec_C);
 
     // the 400MHz Phase center in [mm]
-    const auto r_400MHz = AntennaOffset<GroundAntennaType::Alcatel, 2>::pco() *
+    const Eigen::Matrix<double, 3, 1> r_400MHz = AntennaOffset<GroundAntennaType::Alcatel, 2>::pco() *
                               (type() == GroundAntennaType::Alcatel) +
                           AntennaOffset<GroundAntennaType::Starec_B, 2>::pco() *
                               (type() == GroundAntennaType::Starec_B ||
-- 
2.43.0


From 05edc8effc59a85c62e56512e17f1d24631e3ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:44 +0000
Subject: [PATCH 49/58] fix: sun_vector_vallado, sun_vector_curtis: mean
 anomaly and obliquity rates

---
 src/planets/sunpos.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/planets/sunpos.cpp b/src/planets/sunpos.cpp
index 71f57d9..7253812 100644
--- a/src/planets/sunpos.cpp
+++ b/src/planets/sunpos.cpp
@@ -49,7 +49,7 @@ int dso::sun_vector_vallado(double t, double *rsun) noexcept {
   const double lambda =
       std::fmod(280.460e0 + 36000.771e0 * t, 360e0); // [degrees]
   const double M =
-      std::fmod(357.5291092e0 + 35999.50534e0 * t, 360e0); // [degrees]
+      std::fmod(357.5291092e0 + 35999.05034e0 * t, 360e0); // [degrees]
   const double Mrad = dso::deg2rad(M);
   const double l_ecliptic = std::fmod(lambda + 1.914666471e0 * sin(Mrad) +
                                           0.019994643e0 * sin(2e0 * Mrad),
@@ -80,7 +80,7 @@ int dso::sun_vector_approx21(double t, double *rsun) noexcept {
   const double lambda = std::modf(cf1 + cf2 * t, &dummy) * pi2; // [rad]
 
   constexpr double cf3 = normalize_deg(357.5291092e0);
-  constexpr double cf4 = normalize_deg(35999.50534e0);
+  constexpr double cf4 = normalize_deg(35999.05034e0);
   const double M = std::modf(cf3 + cf4 * t, &dummy) * pi2; // [rad]
 
   const double lon_arg = 1.914666471e0 * sin(M) + 0.019994643e0 * sin(2e0 * M);
@@ -114,7 +114,7 @@ int dso::sun_vector_curtis(double n, double *rsun) noexcept {
                                    0.0200e0 * sin(2e0 * dso::deg2rad(M)),
                                360e0);
   // Calculate the obliquity ε [deg]
-  const double e = 23.439e0 - 3.65e-7 * n;
+  const double e = 23.439e0 - 3.56e-7 * n;
   // Calculate the unit vector u_n from the earth to the sun
   const double ux = cos(dso::deg2rad(lon));
   const double uy = cos(dso::deg2rad(e)) * sin(dso::deg2rad(lon));
-- 
2.43.0


From 10b821d8ffe37416500bd56cd47ea1cd9c6b1e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:44 +0000
Subject: [PATCH 50/58] fix: antenna phase corrections: report angles out of
 bounds, stay in the table at 90 degrees

---
 src/antenna_pcv.hpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/antenna_pcv.hpp b/src/antenna_pcv.hpp
index d3e2c0a..28ad2bb 100644
--- a/src/antenna_pcv.hpp
+++ b/src/antenna_pcv.hpp
@@ -48,11 +48,14 @@ template <> struct AntennaOffsetTraits<GroundAntennaType::Alcatel, 1> {
   static constexpr double pcv(double zenith, int &out_of_bounds) noexcept {
     const double angle = dso::rad2deg<double>(zenith);
     out_of_bounds = 0;
-    if (zenith < 0e0 || zenith > dso::DPI / 2e0) {
-      return 0e0;
+    if (!(zenith >= 0e0 && zenith <= dso::DPI / 2e0)) {
       out_of_bounds = 1;
+      return 0e0;
     }
+    constexpr int last = sizeof(plarray) / sizeof(plarray[0]) - 2;
     int index = std::floor(angle / 5e0);
+    if (index > last)
+      index = last; /* zenith angle of 90 deg */
 #ifdef DEBUG
     assert(index >= 0 && index < static_cast<int>(sizeof(plarray) - 1));
 #endif
@@ -71,7 +74,7 @@ template <> struct AntennaOffsetTraits<GroundAntennaType::Alcatel, 2> {
   
   /// @brief Antenna/Frequency pair has no PCV information; always return 0
   static constexpr double pcv(double zenith, int &out_of_bounds) noexcept {
-    out_of_bounds = (zenith < 0e0) + (zenith > dso::DPI / 2e0);
+    out_of_bounds = !(zenith >= 0e0 && zenith <= dso::DPI / 2e0);
     return 0e0;
   }
 
@@ -101,11 +104,14 @@ template <> struct AntennaOffsetTraits<GroundAntennaType::Starec_B, 1> {
   static constexpr double pcv(double zenith, int &out_of_bounds) noexcept {
     const double angle(dso::rad2deg<double>(zenith));
     out_of_bounds = 0;
-    if (zenith < 0e0 || zenith > dso::DPI / 2e0) {
+    if (!(zenith >= 0e0 && zenith <= dso::DPI / 2e0)) {
       out_of_bounds = 1;
       return 0e0;
     }
+    constexpr int last = sizeof(plarray) / sizeof(plarray[0]) - 2;
     int index = std::floor(angle / 5e0);
+    if (index > last)
+      index = last; /* zenith angle of 90 deg */
 #ifdef DEBUG
     assert(index >= 0 && index < static_cast<int>(sizeof(plarray) - 1));
 #endif
@@ -124,7 +130,7 @@ template <> struct AntennaOffsetTraits<GroundAntennaType::Starec_B, 2> {
   
   /// @brief Antenna/Frequency pair has no PCV information; always return 0
   static constexpr double pcv(double zenith, int &out_of_bounds) noexcept {
-    out_of_bounds = (zenith < 0e0) + (zenith > dso::DPI / 2e0);
+    out_of_bounds = !(zenith >= 0e0 && zenith <= dso::DPI / 2e0);
     return 0e0;
   }
 };
@@ -153,11 +159,14 @@ template <> struct AntennaOffsetTraits<GroundAntennaType::Starec_C, 1> {
   static constexpr double pcv(double zenith, int &out_of_bounds) noexcept {
     const double angle(dso::rad2deg<double>(zenith));
     out_of_bounds = 0;
-    if (zenith < 0e0 || zenith > dso::DPI / 2e0) {
+    if (!(zenith >= 0e0 && zenith <= dso::DPI / 2e0)) {
       out_of_bounds = 1;
       return 0e0;
     }
+    constexpr int last = sizeof(plarray) / sizeof(plarray[0]) - 2;
     int index = std::floor(angle / 5e0);
+    if (index > last)
+      index = last; /* zenith angle of 90 deg */
 #ifdef DEBUG
     assert(index >= 0 && index < static_cast<int>(sizeof(plarray) - 1));
 #endif
@@ -176,7 +185,7 @@ template <> struct AntennaOffsetTraits<GroundAntennaType::Starec_C, 2> {
   
   /// @brief Antenna/Frequency pair has no PCV information; always return 0
   static constexpr double pcv(double zenith, int &out_of_bounds) noexcept {
-    out_of_bounds = (zenith < 0e0) + (zenith > dso::DPI / 2e0);
+    out_of_bounds = !(zenith >= 0e0 && zenith <= dso::DPI / 2e0);
     return 0e0;
   }
 };
-- 
2.43.0


From 398ec21d8ee4f2c84ad66365c5c7750a631256d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:24 +0000
Subject: [PATCH 51/58] fix: vallado_shadow: width of the cones behind the
 Earth, no NaN on the axis

---
 src/astrodynamics/occultation.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/astrodynamics/occultation.cpp b/src/astrodynamics/occultation.cpp
index b072257..4cf7f9f 100644
--- a/src/astrodynamics/occultation.cpp
+++ b/src/astrodynamics/occultation.cpp
@@ -19,13 +19,10 @@ double utest::vallado_shadow(const dso::Vector3 &r_sat,
   const double product = r_sat.dot_product(r_sun);
   if (product>=0) return 1e0;
 
-  const double r = r_sat.norm();
   const double s = r_sun.norm();
-  const double cosz = product / (r * s);
-  const double zeta = std::acos(cosz);
-  const double sinz = std::sin(zeta);
-  const double sath = r * cosz;
-  const double satv = r * sinz;
+  // distances of the satellite along and off the axis of the shadow
+  const double sath = -product / s;
+  const double satv = r_sat.cross_product(r_sun).norm() / s;
   constexpr const double sinApen = (iers2010::Rs + iers2010::Re) / iers2010::AU;
   constexpr const double Apen = /*std::asin(sinApen);*/ gcem::asin(sinApen);
   constexpr const double tanApen = /*std::tan(Apen);*/ gcem::tan(Apen);
-- 
2.43.0


From ed3371fdfc379a91583abb673d7740cf77a24d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:24 +0000
Subject: [PATCH 52/58] fix: conical_shadow, bernese_shadow1: no NaN in
 alignment and at contact

---
 src/astrodynamics/occultation.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/astrodynamics/occultation.cpp b/src/astrodynamics/occultation.cpp
index 4cf7f9f..eb2a4fc 100644
--- a/src/astrodynamics/occultation.cpp
+++ b/src/astrodynamics/occultation.cpp
@@ -1,4 +1,5 @@
 #include "astrodynamics.hpp"
+#include <algorithm>
 #include <cmath>
 #include "gcem.hpp" // for constexpr math (trigonometric funcs)
 #include "geodesy/ellipsoid.hpp"
@@ -64,7 +65,7 @@ double utest::bernese_shadow1(const dso::Vector3 &r_sat,
     const double rsun = zsun.norm();
     const double rsat2 = zsat.norm_squared();
     const double rcos = zsat.dot_product(zsun) / rsun;
-    const double rsin = std::sqrt(rsat2-rcos*rcos);
+    const double rsin = std::sqrt(std::max(0e0, rsat2-rcos*rcos));
     if (rcos<0e0 && (rsin-iers2010::Re<0e0)) return 0e0;
     return 1;
 }
@@ -74,8 +75,8 @@ double utest::conical_shadow(const dso::Vector3 &r_sat,
   const double te = std::asin(iers2010::Re / r_sat.norm());
   const double nsunsat = (r_sun - r_sat).norm();
   const double ts = std::asin(iers2010::Rs / nsunsat);
-  const double tes =
-      std::acos(-r_sat.dot_product(r_sun - r_sat) / (nsunsat * r_sat.norm()));
+  const double tes = std::atan2(r_sat.cross_product(r_sun - r_sat).norm(),
+                                -r_sat.dot_product(r_sun - r_sat));
 
   if (tes >= te + ts)
     return 1e0;
@@ -85,8 +86,10 @@ double utest::conical_shadow(const dso::Vector3 &r_sat,
   const double ts2 = ts * ts;
   const double te2 = te * te;
   const double tes2 = tes * tes;
-  const double caf = std::acos((ts2 + tes2 - te2) / (2e0 * ts * tes));
-  const double cbd = std::acos((te2 + tes2 - ts2) / (2e0 * te * tes));
+  const double caf = std::acos(
+      std::min(1e0, std::max(-1e0, (ts2 + tes2 - te2) / (2e0 * ts * tes))));
+  const double cbd = std::acos(
+      std::min(1e0, std::max(-1e0, (te2 + tes2 - ts2) / (2e0 * te * tes))));
   const double Safc = 0.5 * caf * ts2;
   const double Saec = 0.5 * (ts * std::sin(caf)) * (ts * std::cos(caf));
   const double Sbdc = 0.5 * cbd * te2;
-- 
2.43.0


From 6ff9e8d681c8de446fe82920e40c4817fc2ea985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:59 +0000
Subject: [PATCH 53/58] fix: denormalize: coefficients of high order no longer
 vanish

The ratio (n+m)!/(n-m)! overflows a double from degree and order 86 on; the
coefficients were divided by infinity, hence became zero.
---
 src/gravity/harmonic_coeffs.cpp   | 6 ++++--
 var/icgem/src/harmonic_coeffs.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/gravity/harmonic_coeffs.cpp b/src/gravity/harmonic_coeffs.cpp
index e84c0e6..a15efe3 100644
--- a/src/gravity/harmonic_coeffs.cpp
+++ b/src/gravity/harmonic_coeffs.cpp
@@ -60,6 +60,8 @@ dso::HarmonicCoeffs::operator=(dso::HarmonicCoeffs &&h) noexcept {
   return *this;
 }
 
+/// Square root of (n+m)!/(n-m)!; multiply the roots, the ratio itself may be
+/// too large for a double (e.g. n=m=86)
 double _sum(int n, int m) noexcept {
   if (m == 0)
     return 1e0;
@@ -67,13 +69,13 @@ double _sum(int n, int m) noexcept {
   int stop = n + m;
   double fac = 1e0;
   for (int i = start; i <= stop; i++)
-    fac *= (double)i;
+    fac *= std::sqrt((double)i);
   return fac;
 }
 
 int compute_fac(int n, int m, double *fac) noexcept {
   for (int i = 0; i <= m; i++)
-    fac[i] = std::sqrt(_sum(n, i) / (2 * n + 1) / (2 - (i == 0)));
+    fac[i] = _sum(n, i) / std::sqrt((2 * n + 1) * (2e0 - (i == 0)));
   return 0;
 }
 
diff --git a/var/icgem/src/harmonic_coeffs.cpp b/var/icgem/src/harmonic_coeffs.cpp
index 245893e..be5dfcb 100644
--- a/var/icgem/src/harmonic_coeffs.cpp
+++ b/var/icgem/src/harmonic_coeffs.cpp
@@ -39,6 +39,8 @@ dso::HarmonicCoeffs::operator=(dso::HarmonicCoeffs &&h) noexcept {
   return *this;
 }
 
+/// Square root of (n+m)!/(n-m)!; multiply the roots, the ratio itself may be
+/// too large for a double (e.g. n=m=86)
 double _sum(int n, int m) noexcept {
   if (m == 0)
     return 1e0;
@@ -46,13 +48,13 @@ double _sum(int n, int m) noexcept {
   int stop = n + m;
   double fac = 1e0;
   for (int i = start; i <= stop; i++)
-    fac *= (double)i;
+    fac *= std::sqrt((double)i);
   return fac;
 }
 
 int compute_fac(int n, int m, double *fac) noexcept {
   for (int i = 0; i <= m; i++)
-    fac[i] = std::sqrt(_sum(n, i) / (2 * n + 1) / (2 - (i == 0)));
+    fac[i] = _sum(n, i) / std::sqrt((2 * n + 1) * (2e0 - (i == 0)));
   return 0;
 }
 
-- 
2.43.0


From 1e31f2577079b89633116d6a58f71faee7cd3eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:48 +0000
Subject: [PATCH 54/58] fix: clock and L2/L1 date offsets are rounded to the
 nanosecond, not truncated

---
 src/doris_rinex.hpp                  | 9 ++++++---
 src/rinex/rnx_datablock_iterator.cpp | 2 +-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/doris_rinex.hpp b/src/doris_rinex.hpp
index e521832..aa655b9 100644
--- a/src/doris_rinex.hpp
+++ b/src/doris_rinex.hpp
@@ -8,6 +8,7 @@
 #include <fstream>
 #include <vector>
 #include <algorithm>
+#include <cmath>
 
 namespace dso {
 
@@ -47,7 +48,7 @@ struct RinexDataRecordHeader {
   /// @brief Apply the recorded (in RINEX) clock offset to time m_epoch
   void apply_clock_offset() noexcept {
     dso::nanoseconds off_nsec {static_cast<dso::nanoseconds::underlying_type>( 
-      m_clock_offset * dso::nanoseconds::sec_factor<double>())};
+      std::llround(m_clock_offset * dso::nanoseconds::sec_factor<double>()))};
     m_epoch.add_seconds(off_nsec);
   }
 }; // RinexDataRecordHeader
@@ -308,7 +309,8 @@ public:
     // transform it to nanoseconds (integer)
     const double offset_nanoseconds = m_l12_date_offset * 1e3;
     return dso::nanoseconds(
-        static_cast<dso::nanoseconds::underlying_type>(offset_nanoseconds));
+        static_cast<dso::nanoseconds::underlying_type>(
+            std::llround(offset_nanoseconds)));
   }
 
 #ifdef DEBUG
@@ -397,7 +399,8 @@ struct RinexDataBlockIterator {
                               RECEIVER_CLOCK_OFFSET_MISSING) *
           cheader.m_clock_offset;
       dso::nanoseconds noff(
-          static_cast<dso::nanoseconds::underlying_type>(clock_offset * 1e9));
+          static_cast<dso::nanoseconds::underlying_type>(
+              std::llround(clock_offset * 1e9)));
       t.add_seconds(noff);
     }
     return t;
diff --git a/src/rinex/rnx_datablock_iterator.cpp b/src/rinex/rnx_datablock_iterator.cpp
index 9de8417..9f769e6 100644
--- a/src/rinex/rnx_datablock_iterator.cpp
+++ b/src/rinex/rnx_datablock_iterator.cpp
@@ -45,7 +45,7 @@ dso::datetime<dso::nanoseconds> dso::RinexDataBlockIterator::corrected_l1_epoch(
   if (!rnx->receiver_clock_offsets_applied()) [[likely]] {
     // clock offset in nanoseconds (from seconds)
     dso::nanoseconds noff(static_cast<dso::nanoseconds::underlying_type>(
-        cheader.m_clock_offset * 1e9));
+        std::llround(cheader.m_clock_offset * 1e9)));
     t.add_seconds(noff);
   }
 
-- 
2.43.0


From f572a622c3f456a84b5fb3787d33d666139c7dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:24 +0000
Subject: [PATCH 55/58] fix: nrlmsise00: atomic nitrogen is computed when it is
 the selected gas

---
 src/atmosphere/nrlmsise00_gts7.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/atmosphere/nrlmsise00_gts7.cpp b/src/atmosphere/nrlmsise00_gts7.cpp
index 135f3af..1ebee8a 100644
--- a/src/atmosphere/nrlmsise00_gts7.cpp
+++ b/src/atmosphere/nrlmsise00_gts7.cpp
@@ -105,7 +105,7 @@ int dso::Nrlmsise00::gts7(const InParamsCore *in,
     double tz = 0, zhm28 = 0, b28 = 0;
     double db01, db04, db14, db16, db28, db32, db40;
     if (goto_100) {
-      if (z < altl[5] || mass == 28 || mass == 48) {
+      if (z <= altl[5] || mass == 28 || mass == 48) {
         //
         //  **** N2 DENSITY ****
         //
@@ -328,7 +328,8 @@ int dso::Nrlmsise00::gts7(const InParamsCore *in,
       }
     }
 
-    if (j == 1 || j == 3 || j == 4 || j == 6 || j == 9 || j == 7 || j == 8) {
+    if (j == 1 || j == 3 || j == 4 || j == 6 || j == 9 || j == 7 || j == 8 ||
+        j == 10) {
 
       //
       // **** ATOMIC NITROGEN DENSITY ****
-- 
2.43.0


From 9e6fb79148fd6171b702f7582ef8ecfcd883f424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:24 +0000
Subject: [PATCH 56/58] fix: nrlmsise00: no latitude variation of gravity when
 switch 2 is off

---
 src/atmosphere/nrlmsise00_gtd7.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atmosphere/nrlmsise00_gtd7.cpp b/src/atmosphere/nrlmsise00_gtd7.cpp
index 712e955..0aa0396 100644
--- a/src/atmosphere/nrlmsise00_gtd7.cpp
+++ b/src/atmosphere/nrlmsise00_gtd7.cpp
@@ -15,7 +15,7 @@ int dso::Nrlmsise00::gtd7(const InParamsCore *in,
 
   // latitude variation of gravity (none for SW(2)=0)
   double xlat = in->glat;
-  if (std::abs(in->sw.sw[1]) < 0)
+  if (std::abs(in->sw.sw[1]) <= 0e0)
     xlat = 45e0;
   re = glatf(xlat, gsurf);
 
-- 
2.43.0


From 9afb333c48a170952db8fc6c3e017978b9dcc8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:58 +0000
Subject: [PATCH 57/58] fix: print a station name that fills its field without
 running past it

---
 src/doris/doris_system_info.cpp | 3 ++-
 src/doris_system_info.hpp       | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/doris/doris_system_info.cpp b/src/doris/doris_system_info.cpp
index 5768511..4497497 100644
--- a/src/doris/doris_system_info.cpp
+++ b/src/doris/doris_system_info.cpp
@@ -128,7 +128,8 @@ int dso::BeaconStation::set_from_rinex_line(const char *line) noexcept {
 }
 
 char *dso::BeaconStation::to_str(char *buffer) const noexcept {
-  std::sprintf(buffer, "[%.3s/%.4s_%.9s](%s)", m_internal_code, m_station_id,
+  // none of the members is null-terminated if its field is full
+  std::sprintf(buffer, "[%.3s/%.4s_%.9s](%.30s)", m_internal_code, m_station_id,
                m_station_domes, m_station_name);
   return buffer;
 }
diff --git a/src/doris_system_info.hpp b/src/doris_system_info.hpp
index 102dd0d..c7870df 100644
--- a/src/doris_system_info.hpp
+++ b/src/doris_system_info.hpp
@@ -179,7 +179,7 @@ struct BeaconStation {
   }
 
   /// @brief Concatenate Beacon information to a string
-  /// @param[in] buffer A char array of length > 51 chars
+  /// @param[in] buffer A char array of length > 52 chars
   /// @return a pointer to the (formatted) buffer string
   char *to_str(char *buffer) const noexcept;
 
-- 
2.43.0


From 5d9d87888a1299a180cf38239e7acadbf714cdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:51 +0000
Subject: [PATCH 58/58] fix: frequency offset filter skips epochs without an
 offset, reports a missing file

---
 src/doris/fit_rfo.cpp | 124 ++++++++++++++++++------------------------
 1 file changed, 53 insertions(+), 71 deletions(-)

diff --git a/src/doris/fit_rfo.cpp b/src/doris/fit_rfo.cpp
index 58be2b4..8561090 100644
--- a/src/doris/fit_rfo.cpp
+++ b/src/doris/fit_rfo.cpp
@@ -84,14 +84,34 @@ struct LinearKalman {
   dso::datetime<dso::nanoseconds> tref;
 };
 
+/// Get the F value of a data block; for a single block, all F
+/// measurements/values should be the same!
+/// @return 0: ok, < 0: there is no F value in the block, > 0: error
+int block_rfo(const std::vector<dso::BeaconObservations> &obsvec, int findex,
+              double &rfo) noexcept {
+  if (obsvec.empty())
+    return -1;
+  const double f = obsvec[0].m_values[findex].m_value;
+  for (const auto &bobs : obsvec) {
+    if (bobs.m_values[findex].m_value != f) {
+      fprintf(stderr,
+              "[ERROR] F value differs within the same data block! "
+              "(traceback: %s)\n",
+              __func__);
+      return 1;
+    }
+  }
+  if (f == dso::OBSERVATION_VALUE_MISSING)
+    return -1;
+  rfo = f;
+  return 0;
+}
+
 int get_starting_rfo(const char *rnx_fn, double &rfo,
-                     dso::datetime<dso::nanoseconds> &reft) noexcept {
+                     dso::datetime<dso::nanoseconds> &reft) {
   using namespace dso;
 
   DorisObsRinex rnx(rnx_fn); // may throw ....
-  char line[DorisObsRinex::MAX_RECORD_CHARS];
-  RinexDataRecordHeader hdr;
-  std::vector<BeaconObservations> obsvec;
 
   // index of observable F in the list of observation codes for this RINEX
   auto obs_list = rnx.observation_codes();
@@ -108,32 +128,23 @@ int get_starting_rfo(const char *rnx_fn, double &rfo,
   }
   int findex = std::distance(obs_list.begin(), fit);
 
-  rnx.stream().getline(line, DorisObsRinex::MAX_RECORD_CHARS);
-  // resolve the data-block header
-  if (int status = rnx.resolve_data_epoch(line, hdr); status) {
-    fprintf(stderr,
-            "[ERROR] Failed to resolve data block header! error=%d "
-            "(traceback: %s)\n",
-            status, __func__);
-    return 1;
-  }
-
-  // get the measurements
-  if (int status = rnx.read_data_block(hdr, obsvec); status) {
-    fprintf(stderr,
-            "[ERROR] Failed to resolve data block! error=%d (traceback: %s)\n",
-            status, __func__);
-    return 1;
+  // get the first (available) F value
+  RinexDataBlockIterator it(&rnx);
+  while (!it.next()) {
+    const int status = block_rfo(it.cblock, findex, rfo);
+    if (status > 0)
+      return 1;
+    if (!status) {
+      // get & assign the header time
+      reft = it.cheader.m_epoch;
+      return 0;
+    }
   }
 
-  // for a single block, all F measurements/values should be the same!
-  rfo = obsvec[0].m_values[findex].m_value;
-
-  // get & assign the header time
-  reft = hdr.m_epoch;
-
-  // return, all ok
-  return 0;
+  fprintf(stderr,
+          "[ERROR] Failed to find an F value in RINEX %s (traceback: %s)\n",
+          rnx_fn, __func__);
+  return 1;
 }
 
 int get_rinex_rfo(const char *rnx_fn, long &rfo_collected,
@@ -142,9 +153,6 @@ int get_rinex_rfo(const char *rnx_fn, long &rfo_collected,
 
   rfo_collected = 0;
   DorisObsRinex rnx(rnx_fn); // may throw ....
-  char line[DorisObsRinex::MAX_RECORD_CHARS];
-  RinexDataRecordHeader hdr;
-  std::vector<BeaconObservations> obsvec;
 
   // index of observable F in the list of observation codes for this RINEX
   auto obs_list = rnx.observation_codes();
@@ -163,55 +171,29 @@ int get_rinex_rfo(const char *rnx_fn, long &rfo_collected,
 
   double rfo = 0e0;
   int idx = 0;
-  while (rnx.stream() &&
-         rnx.stream().getline(line, DorisObsRinex::MAX_RECORD_CHARS)) {
-
-    // resolve the data-block header
-    if (int status = rnx.resolve_data_epoch(line, hdr); status) {
-      fprintf(stderr,
-              "[ERROR] Failed to resolve data block header! error=%d "
-              "(traceback: %s)\n",
-              status, __func__);
-      return 1;
-    }
-
-    // get the measurements
-    if (int error = rnx.read_data_block(hdr, obsvec); error) {
-      fprintf(
-          stderr,
-          "[ERROR] Failed to resolve data block! error=%d (traceback: %s)\n",
-          error, __func__);
+  int error;
+  RinexDataBlockIterator it(&rnx);
+  while (!(error = it.next())) {
+    // no F value at this epoch
+    const int status = block_rfo(it.cblock, findex, rfo);
+    if (status > 0)
       return 1;
-    }
-
-    // for a single block, all F measurements/values should be the same!
-    rfo = obsvec[0].m_values[findex].m_value;
-    for (const auto &bobs : obsvec) {
-      if (bobs.m_values[findex].m_value != rfo) {
-        fprintf(stderr,
-                "[ERROR] F value differs within the same data block! "
-                "(traceback: %s)\n",
-                __func__);
-        return 1;
-      }
-    }
+    if (status < 0)
+      continue;
 
     // update via kalman using this new F value
-    filter->update(rfo, hdr.m_epoch);
-    printf("%.8f %.8f %.8f +/- %.10f %.8f +/- %.10f\n", hdr.m_epoch.as_mjd(),
-           rfo, filter->x[0], std::sqrt(filter->P[0]), filter->x[1],
+    const auto t = it.cheader.m_epoch;
+    filter->update(rfo, t);
+    printf("%.8f %.8f %.8f +/- %.10f %.8f +/- %.10f\n", t.as_mjd(), rfo,
+           filter->x[0], std::sqrt(filter->P[0]), filter->x[1],
            std::sqrt(filter->P[2]));
     ++idx;
   }
 
   rfo_collected = idx;
 
-  if (rnx.stream().eof()) {
-    rnx.stream().clear();
-    return 0;
-  }
-
-  return 1;
+  // make sure no error occured while reading the RINEX
+  return error > 0;
 }
 
 int dso::fit_relative_frequency_offset(char **rinex_fns, int num_rinex,
-- 
2.43.0

