From 38e1906750b497e9ef66143868c9ac2e1af13a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:48 +0000
Subject: [PATCH 001/109] fix: do not leak the diagnosis of rejected Python and
 Ruby traces

location->message is not owned by the location, so every allocated
message was lost. Use string literals, as the other parsers do.
---
 lib/python_frame.c    | 16 ++++++++--------
 lib/ruby_stacktrace.c | 33 ++++++++++++++++++---------------
 2 files changed, 26 insertions(+), 23 deletions(-)

diff --git a/lib/python_frame.c b/lib/python_frame.c
index a454127..e4bb311 100644
--- a/lib/python_frame.c
+++ b/lib/python_frame.c
@@ -242,7 +242,7 @@ sr_python_frame_parse(const char **input,
 
     if (0 == sr_skip_string(&local_input, "  File \""))
     {
-        location->message = g_strdup_printf("Frame header not found.");
+        location->message = "Frame header not found.";
         return NULL;
     }
 
@@ -252,8 +252,8 @@ sr_python_frame_parse(const char **input,
     /* Parse file name */
     if (!sr_parse_char_cspan(&local_input, "\"", &frame->file_name))
     {
-        location->message = g_strdup_printf("Unable to find the '\"' character "
-                "identifying the beginning of file name.");
+        location->message = "Unable to find the '\"' character "
+                            "identifying the beginning of file name.";
 
         goto fail;
     }
@@ -275,7 +275,7 @@ sr_python_frame_parse(const char **input,
 
     if (0 == sr_skip_string(&local_input, "\", line "))
     {
-        location->message = g_strdup_printf("Line separator not found.");
+        location->message = "Line separator not found.";
         goto fail;
     }
 
@@ -285,7 +285,7 @@ sr_python_frame_parse(const char **input,
     int length = sr_parse_uint32(&local_input, &frame->file_line);
     if (0 == length)
     {
-        location->message = g_strdup_printf("Line number not found.");
+        location->message = "Line number not found.";
         goto fail;
     }
 
@@ -295,7 +295,7 @@ sr_python_frame_parse(const char **input,
     {
         if (local_input[0] != '\n')
         {
-            location->message = g_strdup_printf("Function name separator not found.");
+            location->message = "Function name separator not found.";
             goto fail;
         }
 
@@ -313,8 +313,8 @@ sr_python_frame_parse(const char **input,
         /* Parse function name */
         if (!sr_parse_char_cspan(&local_input, "\n", &frame->function_name))
         {
-            location->message = g_strdup_printf("Unable to find the newline character "
-                    "identifying the end of function name.");
+            location->message = "Unable to find the newline character "
+                            "identifying the end of function name.";
 
             goto fail;
         }
diff --git a/lib/ruby_stacktrace.c b/lib/ruby_stacktrace.c
index 109ad7d..c74cd94 100644
--- a/lib/ruby_stacktrace.c
+++ b/lib/ruby_stacktrace.c
@@ -139,8 +139,9 @@ sr_ruby_stacktrace_parse(const char **input,
     stacktrace->frames = sr_ruby_frame_parse(&local_input, location);
     if (!stacktrace->frames)
     {
-        location->message = g_strdup_printf("Topmost stacktrace frame not found: %s",
-                            location->message ? location->message : "(unknown reason)");
+        /* The message from sr_ruby_frame_parse() is allocated. */
+        g_free((char *)location->message);
+        location->message = "Topmost stacktrace frame not found.";
         goto fail;
     }
 
@@ -149,7 +150,7 @@ sr_ruby_stacktrace_parse(const char **input,
      */
     if (!sr_skip_string(&local_input, ": "))
     {
-        location->message = g_strdup("Unable to find the colon after first function name.");
+        location->message = "Unable to find the colon after first function name.";
         goto fail;
     }
     location->column += strlen(": ");
@@ -159,7 +160,7 @@ sr_ruby_stacktrace_parse(const char **input,
      */
     if (!sr_parse_char_cspan(&local_input, "\t", &message_and_class))
     {
-        location->message = g_strdup("Unable to find the exception type and message.");
+        location->message = "Unable to find the exception type and message.";
         goto fail;
     }
 
@@ -173,8 +174,8 @@ sr_ruby_stacktrace_parse(const char **input,
     if (p < message_and_class || *p != '\n')
     {
         location->column--;
-        location->message = g_strdup("Unable to find the new line character after "
-                                      "the end of exception class");
+        location->message = "Unable to find the new line character after "
+                            "the end of exception class";
         goto fail;
     }
 
@@ -185,8 +186,8 @@ sr_ruby_stacktrace_parse(const char **input,
     if (p < message_and_class || *p != ')')
     {
         location->column -= 2;
-        location->message = g_strdup("Unable to find the ')' character identifying "
-                                      "the end of exception class");
+        location->message = "Unable to find the ')' character identifying "
+                            "the end of exception class";
         goto fail;
     }
 
@@ -201,8 +202,8 @@ sr_ruby_stacktrace_parse(const char **input,
 
     if (strlen(p) <= 0)
     {
-        location->message = g_strdup("Unable to find the '(' character identifying "
-                                      "the beginning of the exception class");
+        location->message = "Unable to find the '(' character identifying "
+                            "the beginning of the exception class";
         goto fail;
     }
     stacktrace->exception_name = g_strdup(p);
@@ -213,8 +214,8 @@ sr_ruby_stacktrace_parse(const char **input,
     p--;
     if (p < message_and_class || *p != '(')
     {
-        location->message = g_strdup("Unable to find the '(' character identifying "
-                                      "the beginning of the exception class");
+        location->message = "Unable to find the '(' character identifying "
+                            "the beginning of the exception class";
         goto fail;
     }
 
@@ -237,7 +238,7 @@ sr_ruby_stacktrace_parse(const char **input,
         int skipped = sr_skip_string(&local_input, "\tfrom ");
         if (!skipped)
         {
-            location->message = g_strdup("Frame header not found.");
+            location->message = "Frame header not found.";
             goto fail;
         }
         location->column += skipped;
@@ -245,14 +246,16 @@ sr_ruby_stacktrace_parse(const char **input,
         last_frame->next = sr_ruby_frame_parse(&local_input, location);
         if (!last_frame->next)
         {
-            /* location->message is already set */
+            /* The message from sr_ruby_frame_parse() is allocated. */
+            g_free((char *)location->message);
+            location->message = "Unable to parse stacktrace frame.";
             goto fail;
         }
 
         /* Eat newline (except at the end of file). */
         if (!sr_skip_char(&local_input, '\n') && *local_input != '\0')
         {
-            location->message = g_strdup("Expected newline after stacktrace frame.");
+            location->message = "Expected newline after stacktrace frame.";
             goto fail;
         }
         location->column = 0;
-- 
2.43.0


From 49d796cd343da7c7ec091e1885621b98393e12f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:48 +0000
Subject: [PATCH 002/109] fix: do not read past the end of a Python trace
 ending in a location line

When the text ended after the frames (or in a line of carets), the
position was moved past the terminating NUL.
---
 lib/python_frame.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python_frame.c b/lib/python_frame.c
index e4bb311..7031b20 100644
--- a/lib/python_frame.c
+++ b/lib/python_frame.c
@@ -236,7 +236,7 @@ sr_python_frame_parse(const char **input,
     {
         /* Skip the error location line */
         sr_skip_char_cspan(&local_input, "\n");
-        ++local_input;
+        sr_skip_char(&local_input, '\n');
         *input = local_input;
     }
 
-- 
2.43.0


From 5f6a1babd495eb3d56f79c4c8a41ac79a07a00df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:21 +0000
Subject: [PATCH 003/109] fix: do not swap engine and runtime when reading a
 JavaScript platform

sr_js_platform_init() takes the runtime first; a platform with only the
engine known (the default of the parser) was read back as one with only
the runtime known.
---
 lib/js_platform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/js_platform.c b/lib/js_platform.c
index 738b59f..4d85182 100644
--- a/lib/js_platform.c
+++ b/lib/js_platform.c
@@ -231,7 +231,7 @@ sr_js_platform_from_json(json_object *root, char **error_message)
     }
 
     platform = sr_js_platform_new();
-    sr_js_platform_init(platform, engine, runtime);
+    sr_js_platform_init(platform, runtime, engine);
 
 fail:
     g_free(engine_str);
-- 
2.43.0


From 4e74269f3f2ca5a0d46249c37fe478bd38862d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:21 +0000
Subject: [PATCH 004/109] fix: keep the causes of a Java exception with
 suppressed exceptions

A 'Suppressed:' line right behind the frames was skipped before the
check for it, so the chain of causes after the suppressed exceptions was
lost.
---
 lib/java_frame.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/java_frame.c b/lib/java_frame.c
index 19a0c26..dcf3152 100644
--- a/lib/java_frame.c
+++ b/lib/java_frame.c
@@ -339,7 +339,7 @@ sr_java_frame_parse_exception(const char **input,
 
         /* Suppressed exceptions follow after the end of current exception */
         if (strncmp("Suppressed: ", cursor, strlen("Suppressed: ")) == 0)
-            goto current_exception_done;
+            goto skip_suppressed_exceptions;
 
         /* The top most exception does not have '...' at its end */
         if (strncmp("Caused by: ", cursor, strlen("Caused by: ")) == 0)
@@ -382,6 +382,7 @@ current_exception_done:
          * this by skipping all lines that begin with a whitespace - the
          * main exception chain always begins without preceding whitespace.
          */
+skip_suppressed_exceptions:
         sr_skip_to_next_line_location(&cursor, &location->line, &location->column);
 
         while (cursor && isspace(*cursor))
-- 
2.43.0


From 55147210bb96e2c32627a6a4d72981e24d9fde8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:21 +0000
Subject: [PATCH 005/109] fix: do not take the first Java frame for an empty
 exception message

---
 lib/java_frame.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/java_frame.c b/lib/java_frame.c
index dcf3152..647200a 100644
--- a/lib/java_frame.c
+++ b/lib/java_frame.c
@@ -300,8 +300,8 @@ sr_java_frame_parse_exception(const char **input,
         mark = cursor;
 
         /* foo */
-        cursor = sr_skip_whitespace(mark);
-        sr_location_add(location, 0, cursor - mark);
+        /* the message may be empty, do not continue to the next line */
+        sr_location_add(location, 0, sr_skip_char_span(&cursor, " \t"));
         mark = cursor;
 
         sr_location_add(location, 0, sr_skip_char_cspan(&cursor, "\n"));
-- 
2.43.0


From fea4acc325a87cf18cba839dfd7d76ffb59b3249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:22 +0000
Subject: [PATCH 006/109] fix: release the frames of a rejected Java exception

---
 lib/java_frame.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/java_frame.c b/lib/java_frame.c
index 647200a..2f4919e 100644
--- a/lib/java_frame.c
+++ b/lib/java_frame.c
@@ -349,7 +349,7 @@ sr_java_frame_parse_exception(const char **input,
 
         if (parsed == NULL)
         {
-            sr_java_frame_free(exception);
+            sr_java_frame_free_full(exception);
             return NULL;
         }
 
@@ -398,7 +398,7 @@ parse_inner_exception:
         struct sr_java_frame *inner = sr_java_frame_parse_exception(&cursor, location);
         if (inner == NULL)
         {
-            sr_java_frame_free(exception);
+            sr_java_frame_free_full(exception);
             return NULL;
         }
 
-- 
2.43.0


From 15569e248b86a23313743ff5bfef088a8d23a05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:31 +0000
Subject: [PATCH 007/109] fix: accept the largest 64-bit number when parsing

Overflow is reported by errno; UINT64_MAX itself is a valid value.
---
 lib/utils.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/utils.c b/lib/utils.c
index 50b22dc..822552c 100644
--- a/lib/utils.c
+++ b/lib/utils.c
@@ -436,8 +436,7 @@ sr_parse_uint64(const char **input, uint64_t *result)
     char *endptr;
     errno = 0;
     unsigned long long result_tmp = strtoull(numstr, &endptr, 10);
-    bool failure = (errno || numstr == endptr || *endptr != '\0'
-                    || result_tmp == UINT64_MAX);
+    bool failure = (errno || numstr == endptr || *endptr != '\0');
     g_free(numstr);
     if (failure) /* number too big or some other error */
         return 0;
-- 
2.43.0


From b146c966b9d132530fb9add9849db72afc3e752e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:31 +0000
Subject: [PATCH 008/109] fix: do not skip the end of the input in
 sr_skip_char_limited()

strchr() finds the terminating NUL in every set of characters.
---
 lib/utils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/utils.c b/lib/utils.c
index 822552c..ba6f213 100644
--- a/lib/utils.c
+++ b/lib/utils.c
@@ -260,6 +260,8 @@ sr_skip_char(const char **input, char c)
 bool
 sr_skip_char_limited(const char **input, const char *allowed)
 {
+    if (**input == '\0')
+        return false;
     if (strchr(allowed, **input) == NULL)
         return false;
     ++*input;
-- 
2.43.0


From 140fd81e8b4d4d99477762d8eb68f739947edb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:31 +0000
Subject: [PATCH 009/109] fix: find non-ASCII characters in
 sr_strchr_location()

The character is converted to char, as strchr() does.
---
 lib/utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/utils.c b/lib/utils.c
index ba6f213..45dd7a1 100644
--- a/lib/utils.c
+++ b/lib/utils.c
@@ -99,7 +99,7 @@ sr_strchr_location(const char *s, int c, int *line, int *column)
         sr_location_eat_char_ext(line, column, *s);
         ++s;
     }
-    return ((*s == c) ? (char*)s : NULL);
+    return ((*s == (char)c) ? (char*)s : NULL);
 }
 
 char *
-- 
2.43.0


From 295c920e25107b14f008ab9f44a47225b9d2f046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:32 +0000
Subject: [PATCH 010/109] fix: compare package epochs and install times without
 overflow

The differences of the unsigned values were truncated to int, so that
the order was not transitive and different packages compared equal.
---
 lib/rpm.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/rpm.c b/lib/rpm.c
index 5488d73..35bb4ed 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -77,9 +77,8 @@ sr_rpm_package_cmp(struct sr_rpm_package *package1,
         return nevra;
 
     /* Install time. */
-    int64_t install_time = package1->install_time - package2->install_time;
-    if (install_time != 0)
-        return install_time;
+    if (package1->install_time != package2->install_time)
+        return package1->install_time > package2->install_time ? 1 : -1;
 
     /* Consistency. */
     int consistency = sr_rpm_consistency_cmp_recursive(package1->consistency,
@@ -100,9 +99,8 @@ sr_rpm_package_cmp_nevra(struct sr_rpm_package *package1,
         return nvr;
 
     /* Epoch. */
-    int32_t epoch = package1->epoch - package2->epoch;
-    if (epoch != 0)
-        return epoch;
+    if (package1->epoch != package2->epoch)
+        return package1->epoch > package2->epoch ? 1 : -1;
 
     /* Architecture. */
     int architecture = g_strcmp0(package1->architecture,
-- 
2.43.0


From ca31c1b33f497df830a83d01284442c3f09f2579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:32 +0000
Subject: [PATCH 011/109] fix: sort an empty package list

---
 lib/rpm.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/rpm.c b/lib/rpm.c
index 35bb4ed..1341b8d 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -172,6 +172,9 @@ sr_rpm_package_count(struct sr_rpm_package *packages)
 struct sr_rpm_package *
 sr_rpm_package_sort(struct sr_rpm_package *packages)
 {
+    if (!packages)
+        return NULL;
+
     size_t count = sr_rpm_package_count(packages);
     struct sr_rpm_package **array = g_malloc_n(count, sizeof(struct sr_rpm_package*));
 
-- 
2.43.0


From a0305c8542810282bb12978accdb2ce36356798a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:32 +0000
Subject: [PATCH 012/109] fix: report failure to read a single package from
 JSON

---
 lib/rpm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/rpm.c b/lib/rpm.c
index 1341b8d..fdb15e1 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -626,7 +626,7 @@ sr_rpm_package_from_json(struct sr_rpm_package **rpm_package, json_object *json,
     if (!recursive)
     {
         *rpm_package = single_rpm_package_from_json(json, error_message);
-        return 0;
+        return *rpm_package ? 0 : -1;
     }
     else
     {
-- 
2.43.0


From 01dcf0eb92f45b6e839d7756943e7e691492cebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:32 +0000
Subject: [PATCH 013/109] fix: refuse package names with an empty release or
 architecture

The check looked at the separator as well, so it never failed.
---
 lib/rpm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/rpm.c b/lib/rpm.c
index fdb15e1..067e103 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -670,7 +670,7 @@ sr_rpm_package_parse_nvr(const char *text,
     if (!last_dash)
         return false;
 
-    if (0 == strlen(last_dash))
+    if (0 == strlen(last_dash + 1))
         return false;
 
     char *last_but_one_dash = last_dash;
@@ -709,7 +709,7 @@ sr_rpm_package_parse_nevra(const char *text,
                            char **architecture)
 {
     char *last_dot = strrchr(text, '.');
-    if (!last_dot || 0 == strlen(last_dot))
+    if (!last_dot || 0 == strlen(last_dot + 1))
         return false;
 
     char *last_dash = strrchr(text, '-');
-- 
2.43.0


From 47bd8d1ec0134371b105d9cab8ba2b3723cefb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:32 +0000
Subject: [PATCH 014/109] fix: do not leave freed strings behind when the
 package epoch is invalid

The release and architecture were freed, but still referenced by the
caller, who frees them again; the version was leaked.
---
 lib/rpm.c | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/lib/rpm.c b/lib/rpm.c
index 067e103..6bb8de5 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -740,19 +740,9 @@ sr_rpm_package_parse_nevra(const char *text,
         return false;
     }
 
-    // Architecture is after the last dot.
-    *architecture = g_strdup(last_dot + 1);
-
-    // Release is after the last dash.
-    *release = g_strndup(last_dash + 1, last_dot - last_dash - 1);
-
     // Epoch is optional.
     if (colon)
     {
-        // Version is before the last dash.
-        *version = g_strndup(colon + 1,
-                              last_dash - colon - 1);
-
         char *epoch_str = g_strndup(last_but_one_dash + 1,
                                      colon - last_but_one_dash - 1);
 
@@ -762,16 +752,15 @@ sr_rpm_package_parse_nevra(const char *text,
         bool failure = (errno || epoch_str == endptr || *endptr != '\0'
                         || r > UINT32_MAX);
 
+        g_free(epoch_str);
         if (failure)
-        {
-            g_free(epoch_str);
-            g_free(*release);
-            g_free(*architecture);
             return false;
-        }
 
         *epoch = r;
-        g_free(epoch_str);
+
+        // Version is before the last dash.
+        *version = g_strndup(colon + 1,
+                              last_dash - colon - 1);
     }
     else
     {
@@ -782,6 +771,12 @@ sr_rpm_package_parse_nevra(const char *text,
         *epoch = 0;
     }
 
+    // Architecture is after the last dot.
+    *architecture = g_strdup(last_dot + 1);
+
+    // Release is after the last dash.
+    *release = g_strndup(last_dash + 1, last_dot - last_dash - 1);
+
     // Name is before version.
     *name = g_strndup(text, last_but_one_dash - text);
 
-- 
2.43.0


From 819689a5066f7e619e9c969a47779944cacb8abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:32 +0000
Subject: [PATCH 015/109] fix: refuse signs and white space in package epochs

---
 lib/rpm.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/rpm.c b/lib/rpm.c
index 6bb8de5..ad74832 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -32,6 +32,7 @@
 #endif
 #include <fcntl.h>
 #include <assert.h>
+#include <ctype.h>
 #include <string.h>
 
 struct sr_rpm_package *
@@ -749,8 +750,8 @@ sr_rpm_package_parse_nevra(const char *text,
         char *endptr;
         errno = 0;
         unsigned long r = strtoul(epoch_str, &endptr, 10);
-        bool failure = (errno || epoch_str == endptr || *endptr != '\0'
-                        || r > UINT32_MAX);
+        bool failure = (errno || !isdigit((unsigned char)*epoch_str)
+                        || *endptr != '\0' || r > UINT32_MAX);
 
         g_free(epoch_str);
         if (failure)
-- 
2.43.0


From 195458f4e21be621abc5bcac0074caf178bd173f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:33 +0000
Subject: [PATCH 016/109] fix: escape all control characters in JSON strings

---
 lib/json_utils.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/json_utils.c b/lib/json_utils.c
index 4492a22..29bb071 100644
--- a/lib/json_utils.c
+++ b/lib/json_utils.c
@@ -97,7 +97,10 @@ sr_json_escape(const char *text)
             g_string_append(strbuf, "\\t");
             break;
         default:
-            g_string_append_c(strbuf, *c);
+            if ((unsigned char)*c < 0x20)
+                g_string_append_printf(strbuf, "\\u%04x", (unsigned char)*c);
+            else
+                g_string_append_c(strbuf, *c);
         }
 
         ++c;
-- 
2.43.0


From 890c27e4d754acf30dd47c2a8b220a987348accf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:03 +0000
Subject: [PATCH 017/109] fix: do not clamp large numbers when reading JSON

---
 lib/json_utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/json_utils.c b/lib/json_utils.c
index 29bb071..0d4d8f9 100644
--- a/lib/json_utils.c
+++ b/lib/json_utils.c
@@ -38,8 +38,8 @@
 
 #define NOOP
 
-DEFINE_JSON_READ(json_read_uint64, uint64_t, json_type_int, int64, NOOP)
-DEFINE_JSON_READ(json_read_uint32, uint32_t, json_type_int, int, NOOP)
+DEFINE_JSON_READ(json_read_uint64, uint64_t, json_type_int, uint64, NOOP)
+DEFINE_JSON_READ(json_read_uint32, uint32_t, json_type_int, int64, NOOP)
 DEFINE_JSON_READ(json_read_uint16, uint16_t, json_type_int, int, NOOP)
 DEFINE_JSON_READ(json_read_string, char *, json_type_string, string, g_strdup)
 DEFINE_JSON_READ(json_read_bool, bool, json_type_boolean, boolean, NOOP)
-- 
2.43.0


From a3470f66c7f098022723e88c7ba3e717aa0552d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:03 +0000
Subject: [PATCH 018/109] fix: point the crash thread of a core stacktrace copy
 into the copy

---
 lib/core_stacktrace.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/core_stacktrace.c b/lib/core_stacktrace.c
index a22b469..a404671 100644
--- a/lib/core_stacktrace.c
+++ b/lib/core_stacktrace.c
@@ -114,6 +114,17 @@ sr_core_stacktrace_dup(struct sr_core_stacktrace *stacktrace)
 
     if (stacktrace->threads)
         result->threads = sr_core_thread_dup(stacktrace->threads, true);
+
+    /* The crash thread has to be the one in the copy. */
+    struct sr_core_thread *orig = stacktrace->threads;
+    struct sr_core_thread *copy = result->threads;
+    while (orig && orig != stacktrace->crash_thread)
+    {
+        orig = orig->next;
+        copy = copy->next;
+    }
+    result->crash_thread = copy;
+
     if (stacktrace->executable)
         result->executable = g_strdup(stacktrace->executable);
 
-- 
2.43.0


From 3fd1cf8eb1f67b170ac84c5f7fe6f0db9f3c1e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:03 +0000
Subject: [PATCH 019/109] fix: do not skip the first frame in
 sr_core_stacktrace_create()

---
 lib/core_stacktrace.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/core_stacktrace.c b/lib/core_stacktrace.c
index a404671..872b510 100644
--- a/lib/core_stacktrace.c
+++ b/lib/core_stacktrace.c
@@ -352,8 +352,6 @@ sr_core_stacktrace_create(const char *gdb_stacktrace_text,
         struct sr_gdb_frame *gdb_frame = gdb_thread->frames;
         while (gdb_frame)
         {
-            gdb_frame = gdb_frame->next;
-
             struct sr_core_frame *core_frame = sr_core_frame_new();
             core_frame->address = gdb_frame->address;
 
@@ -375,6 +373,8 @@ sr_core_stacktrace_create(const char *gdb_stacktrace_text,
             }
 
             core_thread->frames = sr_core_frame_append(core_thread->frames, core_frame);
+
+            gdb_frame = gdb_frame->next;
         }
 
         core_stacktrace->threads =
-- 
2.43.0


From b720c225db295ab372cda3ee04402e26e235548a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:03 +0000
Subject: [PATCH 020/109] fix: write valid JSON for a core stacktrace without
 threads

---
 lib/core_stacktrace.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/core_stacktrace.c b/lib/core_stacktrace.c
index 872b510..84cd2a2 100644
--- a/lib/core_stacktrace.c
+++ b/lib/core_stacktrace.c
@@ -281,6 +281,9 @@ sr_core_stacktrace_to_json(struct sr_core_stacktrace *stacktrace)
 
     g_string_append(strbuf, ",   \"stacktrace\":\n");
 
+    if (!stacktrace->threads)
+        g_string_append(strbuf, "      [");
+
     struct sr_core_thread *thread = stacktrace->threads;
     while (thread)
     {
-- 
2.43.0


From 62cde071c4e63c8906909b97d8aed2fdba4220fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:03 +0000
Subject: [PATCH 021/109] fix: keep the crash thread mark of a core thread
 without frames in JSON

---
 lib/core_thread.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/core_thread.c b/lib/core_thread.c
index 3522846..2b6cebb 100644
--- a/lib/core_thread.c
+++ b/lib/core_thread.c
@@ -257,6 +257,8 @@ sr_core_thread_to_json(struct sr_core_thread *thread, bool is_crash_thread)
         g_string_append(strbuf, " ]\n");
         g_string_append(strbuf, "}");
     }
+    else if (is_crash_thread)
+        g_string_append(strbuf, "{   \"crash_thread\": true\n}");
     else
         g_string_append(strbuf, "{}");
 
-- 
2.43.0


From f64844a76615c63d2b54e5f490cfdd9f23cf8cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:03 +0000
Subject: [PATCH 022/109] fix: write valid JSON for frames with no known facts

---
 lib/js_frame.c     | 6 +++++-
 lib/python_frame.c | 6 +++++-
 lib/ruby_frame.c   | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/lib/js_frame.c b/lib/js_frame.c
index c0be8ba..292af99 100644
--- a/lib/js_frame.c
+++ b/lib/js_frame.c
@@ -456,7 +456,11 @@ sr_js_frame_to_json(struct sr_js_frame *frame)
         g_string_append(strbuf, "\n");
     }
 
-    strbuf->str[0] = '{';
+    if (strbuf->len > 0)
+        strbuf->str[0] = '{';
+    else
+        g_string_append_c(strbuf, '{');
+
     g_string_append_c(strbuf, '}');
     return g_string_free(strbuf, FALSE);
 }
diff --git a/lib/python_frame.c b/lib/python_frame.c
index 7031b20..59f5ea0 100644
--- a/lib/python_frame.c
+++ b/lib/python_frame.c
@@ -397,7 +397,11 @@ sr_python_frame_to_json(struct sr_python_frame *frame)
         g_string_append(strbuf, "\n");
     }
 
-    strbuf->str[0] = '{';
+    if (strbuf->len > 0)
+        strbuf->str[0] = '{';
+    else
+        g_string_append_c(strbuf, '{');
+
     g_string_append_c(strbuf, '}');
     return g_string_free(strbuf, FALSE);
 }
diff --git a/lib/ruby_frame.c b/lib/ruby_frame.c
index b4233db..20e68e5 100644
--- a/lib/ruby_frame.c
+++ b/lib/ruby_frame.c
@@ -390,7 +390,11 @@ sr_ruby_frame_to_json(struct sr_ruby_frame *frame)
     }
 
 
-    strbuf->str[0] = '{';
+    if (strbuf->len > 0)
+        strbuf->str[0] = '{';
+    else
+        g_string_append_c(strbuf, '{');
+
     g_string_append_c(strbuf, '}');
     return g_string_free(strbuf, FALSE);
 }
-- 
2.43.0


From 44c50b8dfb77c175173fb570e8621b3e2f9e96c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:03 +0000
Subject: [PATCH 023/109] fix: allocate and terminate the module list read from
 JSON properly

---
 lib/koops_stacktrace.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/koops_stacktrace.c b/lib/koops_stacktrace.c
index 593cdee..37013b4 100644
--- a/lib/koops_stacktrace.c
+++ b/lib/koops_stacktrace.c
@@ -697,6 +697,7 @@ sr_koops_stacktrace_from_json(json_object *root, char **error_message)
 
         size_t allocated = 128;
         result->modules = g_malloc_n(allocated, sizeof(char*));
+        result->modules[0] = NULL;
 
         for (i = 0; i < array_length; i++)
         {
@@ -714,9 +715,10 @@ sr_koops_stacktrace_from_json(json_object *root, char **error_message)
             if (i + 1 == allocated)
             {
                 allocated *= 2;
-                result->modules = g_realloc(result->modules, allocated);
+                result->modules = g_realloc_n(result->modules, allocated, sizeof(char*));
             }
             result->modules[i] = g_strdup(module);
+            result->modules[i + 1] = NULL;
         }
 
         result->modules[i] = NULL;
-- 
2.43.0


From 0d0a816d44565b6bf62b9d7632547ccf5e06886d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:25 +0000
Subject: [PATCH 024/109] fix: read the user flags of a report from where they
 are written

---
 lib/report.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/report.c b/lib/report.c
index 2e3a9de..a19653e 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -378,7 +378,7 @@ sr_report_from_json(json_object *root, char **error_message)
         /* User. */
         json_object *user;
 
-        if (json_object_object_get_ex(root, "user", &user))
+        if (json_object_object_get_ex(problem, "user", &user))
         {
             success =
                 json_check_type(user, json_type_object, "user", error_message) &&
-- 
2.43.0


From f174f7291140e18d971dae901869ae1b567873bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:25 +0000
Subject: [PATCH 025/109] fix: read the stacktrace of JavaScript reports from
 JSON

---
 lib/report.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/report.c b/lib/report.c
index a19653e..9e88d75 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -401,6 +401,7 @@ sr_report_from_json(json_object *root, char **error_message)
         case SR_REPORT_KERNELOOPS:
         case SR_REPORT_JAVA:
         case SR_REPORT_RUBY:
+        case SR_REPORT_JAVASCRIPT:
             report->stacktrace = sr_stacktrace_from_json(report->report_type, problem, error_message);
             break;
         default:
-- 
2.43.0


From d5fd1047e1e235536056ec01f5f899a1c9856f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:25 +0000
Subject: [PATCH 026/109] fix: refuse reports with a malformed stacktrace in
 JSON

---
 lib/report.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/report.c b/lib/report.c
index 9e88d75..c2caead 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -403,6 +403,8 @@ sr_report_from_json(json_object *root, char **error_message)
         case SR_REPORT_RUBY:
         case SR_REPORT_JAVASCRIPT:
             report->stacktrace = sr_stacktrace_from_json(report->report_type, problem, error_message);
+            if (!report->stacktrace)
+                goto fail;
             break;
         default:
             /* Invalid report type -> no stacktrace. */
-- 
2.43.0


From 5c545c99624ad3f18e1027c68aa106d8a2767980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:25 +0000
Subject: [PATCH 027/109] fix: do not crash when writing a report without a
 stacktrace

---
 lib/report.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/report.c b/lib/report.c
index c2caead..cdfc6d7 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -196,7 +196,9 @@ sr_report_to_json(struct sr_report *report)
     case SR_REPORT_RUBY:
     case SR_REPORT_JAVASCRIPT:
         report_type = sr_report_type_to_string(report->report_type);
-        reason = sr_stacktrace_get_reason(report->stacktrace);
+        reason = report->stacktrace
+                 ? sr_stacktrace_get_reason(report->stacktrace)
+                 : g_strdup("invalid");
         break;
     }
 
-- 
2.43.0


From ecbdf00a5ea58b516416463d378925dffc21e670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:25 +0000
Subject: [PATCH 028/109] fix: escape the reporter name and version in JSON

---
 lib/report.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lib/report.c b/lib/report.c
index cdfc6d7..25cfb07 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -211,11 +211,13 @@ sr_report_to_json(struct sr_report *report)
     assert(report->reporter_name);
     assert(report->reporter_version);
 
-    char *reporter = g_strdup_printf("{   \"name\": \"%s\"\n,   \"version\": \"%s\"\n}",
-                                 report->reporter_name,
-                                 report->reporter_version);
-    char *reporter_indented = sr_indent_except_first_line(reporter, strlen(",   \"reporter\": "));
-    g_free(reporter);
+    GString *reporter = g_string_new("{   \"name\": ");
+    sr_json_append_escaped(reporter, report->reporter_name);
+    g_string_append(reporter, "\n,   \"version\": ");
+    sr_json_append_escaped(reporter, report->reporter_version);
+    g_string_append(reporter, "\n}");
+    char *reporter_indented = sr_indent_except_first_line(reporter->str, strlen(",   \"reporter\": "));
+    g_string_free(reporter, TRUE);
     g_string_append_printf(strbuf,
                           ",   \"reporter\": %s\n",
                           reporter_indented);
-- 
2.43.0


From 50a9107240a11e8e10147a5699fe8e1b21de4bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:25 +0000
Subject: [PATCH 029/109] fix: refuse reports with malformed authentication
 entries in JSON

---
 lib/report.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/report.c b/lib/report.c
index 25cfb07..3a8627c 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -439,7 +439,7 @@ sr_report_from_json(json_object *root, char **error_message)
             child_value = lh_entry_v(entry);
 
             if (!json_check_type(child_value, json_type_string, child_name, error_message))
-                continue;
+                goto fail;
 
             string = json_object_get_string(child_value);
 
-- 
2.43.0


From e95ad4478fcdd7579aa5ea40cffb8ff494b71ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:25 +0000
Subject: [PATCH 030/109] fix: read the CPE of an operating system from JSON

---
 lib/operating_system.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/operating_system.c b/lib/operating_system.c
index ae9a08f..429c4cb 100644
--- a/lib/operating_system.c
+++ b/lib/operating_system.c
@@ -137,6 +137,7 @@ sr_operating_system_from_json(json_object *root, char **error_message)
         JSON_READ_STRING(root, "name", &result->name) &&
         JSON_READ_STRING(root, "version", &result->version) &&
         JSON_READ_STRING(root, "architecture", &result->architecture) &&
+        JSON_READ_STRING(root, "cpe", &result->cpe) &&
         JSON_READ_UINT64(root, "uptime", &result->uptime);
 
     /* desktop is optional - failure is not fatal */
-- 
2.43.0


From dfd4258ac3dab6b44aaaa12062e3fcd53f0de8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:25 +0000
Subject: [PATCH 031/109] fix: do not leave an error message behind when an
 operating system was read

---
 lib/operating_system.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/operating_system.c b/lib/operating_system.c
index 429c4cb..4983cde 100644
--- a/lib/operating_system.c
+++ b/lib/operating_system.c
@@ -141,9 +141,9 @@ sr_operating_system_from_json(json_object *root, char **error_message)
         JSON_READ_UINT64(root, "uptime", &result->uptime);
 
     /* desktop is optional - failure is not fatal */
-    JSON_READ_STRING(root, "desktop", &result->desktop);
+    json_read_string(root, "desktop", &result->desktop, NULL);
     /* variant is optional - failure is not fatal */
-    JSON_READ_STRING(root, "variant", &result->variant);
+    json_read_string(root, "variant", &result->variant, NULL);
 
     if (!success)
     {
-- 
2.43.0


From 505a16b11b04950c2ad3c96bff55b71588ccf475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:44 +0000
Subject: [PATCH 032/109] fix: do not leak the reporter name of a report
 refused in JSON

---
 lib/report.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/report.c b/lib/report.c
index 3a8627c..219983b 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -322,6 +322,8 @@ sr_report_from_json(json_object *root, char **error_message)
         return NULL;
 
     bool success;
+    g_autofree char *reporter_name = NULL;
+    g_autofree char *reporter_version = NULL;
     struct sr_report *report = sr_report_new();
 
     /* Report version. */
@@ -335,8 +337,8 @@ sr_report_from_json(json_object *root, char **error_message)
     {
         success =
             json_check_type(reporter, json_type_object, "reporter", error_message) &&
-            JSON_READ_STRING(reporter, "name", &report->reporter_name) &&
-            JSON_READ_STRING(reporter, "version", &report->reporter_version);
+            JSON_READ_STRING(reporter, "name", &reporter_name) &&
+            JSON_READ_STRING(reporter, "version", &reporter_version);
 
         if (!success)
             goto fail;
@@ -447,6 +449,12 @@ sr_report_from_json(json_object *root, char **error_message)
         }
     }
 
+    /* sr_report_free() does not release these */
+    if (reporter_name)
+        report->reporter_name = g_steal_pointer(&reporter_name);
+    if (reporter_version)
+        report->reporter_version = g_steal_pointer(&reporter_version);
+
     return report;
 
 fail:
-- 
2.43.0


From 72b8c07e12356067aa6d681d486fdbc4d5bbed90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:40 +0000
Subject: [PATCH 033/109] fix: do not let comparisons of large numbers wrap
 around

---
 lib/core_frame.c   |  6 ++++--
 lib/gdb_frame.c    |  6 ++++--
 lib/gdb_thread.c   |  3 ++-
 lib/java_frame.c   |  3 ++-
 lib/js_frame.c     |  9 ++++++---
 lib/koops_frame.c  | 18 ++++++++++++------
 lib/python_frame.c |  3 ++-
 lib/ruby_frame.c   |  9 ++++++---
 8 files changed, 38 insertions(+), 19 deletions(-)

diff --git a/lib/core_frame.c b/lib/core_frame.c
index 84661c0..24c4d3e 100644
--- a/lib/core_frame.c
+++ b/lib/core_frame.c
@@ -166,7 +166,8 @@ sr_core_frame_cmp(struct sr_core_frame *frame1,
         return build_id;
 
     /* Build ID offset */
-    int build_id_offset = frame1->build_id_offset - frame2->build_id_offset;
+    int build_id_offset = (frame1->build_id_offset > frame2->build_id_offset) -
+                  (frame1->build_id_offset < frame2->build_id_offset);
     if (build_id_offset != 0)
         return build_id_offset;
 
@@ -203,7 +204,8 @@ sr_core_frame_cmp_distance(struct sr_core_frame *frame1,
     int build_id = g_strcmp0(frame1->build_id,
                               frame2->build_id);
 
-    int build_id_offset = frame1->build_id_offset - frame2->build_id_offset;
+    int build_id_offset = (frame1->build_id_offset > frame2->build_id_offset) -
+                  (frame1->build_id_offset < frame2->build_id_offset);
 
     if (build_id == 0 && build_id_offset == 0)
         return 0;
diff --git a/lib/gdb_frame.c b/lib/gdb_frame.c
index 1a87d41..2c9fb8c 100644
--- a/lib/gdb_frame.c
+++ b/lib/gdb_frame.c
@@ -203,7 +203,8 @@ sr_gdb_frame_cmp(struct sr_gdb_frame *frame1,
         return source_file;
 
     /* Sourceline. */
-    int source_line = frame1->source_line - frame2->source_line;
+    int source_line = (frame1->source_line > frame2->source_line) -
+                  (frame1->source_line < frame2->source_line);
     if (source_line != 0)
         return source_line;
 
@@ -216,7 +217,8 @@ sr_gdb_frame_cmp(struct sr_gdb_frame *frame1,
     /* Frame number. */
     if (compare_number)
     {
-        int number = frame1->number - frame2->number;
+        int number = (frame1->number > frame2->number) -
+                      (frame1->number < frame2->number);
         if (number != 0)
             return number;
     }
diff --git a/lib/gdb_thread.c b/lib/gdb_thread.c
index 26c8f7d..0e235ce 100644
--- a/lib/gdb_thread.c
+++ b/lib/gdb_thread.c
@@ -121,7 +121,8 @@ int
 sr_gdb_thread_cmp(struct sr_gdb_thread *thread1,
                   struct sr_gdb_thread *thread2)
 {
-    int number = thread1->number - thread2->number;
+    int number = (thread1->number > thread2->number) -
+                 (thread1->number < thread2->number);
     if (number != 0)
         return number;
 
diff --git a/lib/java_frame.c b/lib/java_frame.c
index 2f4919e..9a598bc 100644
--- a/lib/java_frame.c
+++ b/lib/java_frame.c
@@ -180,7 +180,8 @@ sr_java_frame_cmp(struct sr_java_frame *frame1,
     if (frame1->is_native != frame2->is_native)
         return frame1->is_native ? 1 : -1;
 
-    return frame1->file_line - frame2->file_line;
+    return (frame1->file_line > frame2->file_line) -
+           (frame1->file_line < frame2->file_line);
 }
 
 int
diff --git a/lib/js_frame.c b/lib/js_frame.c
index 292af99..752f88f 100644
--- a/lib/js_frame.c
+++ b/lib/js_frame.c
@@ -132,12 +132,14 @@ sr_js_frame_cmp(struct sr_js_frame *frame1,
         return file_name;
 
     /* file_line */
-    int file_line = frame1->file_line - frame2->file_line;
+    int file_line = (frame1->file_line > frame2->file_line) -
+                  (frame1->file_line < frame2->file_line);
     if (file_line != 0)
         return file_line;
 
     /* line_column */
-    int line_column = frame1->line_column - frame2->line_column;
+    int line_column = (frame1->line_column > frame2->line_column) -
+                  (frame1->line_column < frame2->line_column);
     if (line_column != 0)
         return line_column;
 
@@ -149,7 +151,8 @@ sr_js_frame_cmp_distance(struct sr_js_frame *frame1,
                          struct sr_js_frame *frame2)
 {
     /* file_line */
-    int file_line = frame1->file_line - frame2->file_line;
+    int file_line = (frame1->file_line > frame2->file_line) -
+                  (frame1->file_line < frame2->file_line);
     if (file_line != 0)
         return file_line;
 
diff --git a/lib/koops_frame.c b/lib/koops_frame.c
index 56b3cae..9a9c4ea 100644
--- a/lib/koops_frame.c
+++ b/lib/koops_frame.c
@@ -127,7 +127,8 @@ sr_koops_frame_cmp(struct sr_koops_frame *frame1,
                    struct sr_koops_frame *frame2)
 {
     /* Address. */
-    int address = frame2->address - frame1->address;
+    int address = (frame2->address > frame1->address) -
+                  (frame2->address < frame1->address);
     if (address != 0)
         return address;
 
@@ -144,12 +145,14 @@ sr_koops_frame_cmp(struct sr_koops_frame *frame1,
         return function_name;
 
     /* Function offset. */
-    int64_t function_offset = frame2->function_offset - frame1->function_offset;
+    int function_offset = (frame2->function_offset > frame1->function_offset) -
+                  (frame2->function_offset < frame1->function_offset);
     if (function_offset != 0)
         return function_offset;
 
     /* Function length. */
-    int64_t function_length = frame2->function_length - frame1->function_length;
+    int function_length = (frame2->function_length > frame1->function_length) -
+                  (frame2->function_length < frame1->function_length);
     if (function_length != 0)
         return function_length;
 
@@ -161,7 +164,8 @@ sr_koops_frame_cmp(struct sr_koops_frame *frame1,
         return module_name;
 
     /* From address. */
-    int from_address = frame2->from_address - frame1->from_address;
+    int from_address = (frame2->from_address > frame1->from_address) -
+                  (frame2->from_address < frame1->from_address);
     if (from_address != 0)
         return from_address;
 
@@ -173,12 +177,14 @@ sr_koops_frame_cmp(struct sr_koops_frame *frame1,
         return from_function_name;
 
     /* From function offset. */
-    int64_t from_function_offset = frame2->from_function_offset - frame1->from_function_offset;
+    int from_function_offset = (frame2->from_function_offset > frame1->from_function_offset) -
+                  (frame2->from_function_offset < frame1->from_function_offset);
     if (from_function_offset != 0)
         return from_function_offset;
 
     /* From function length. */
-    int64_t from_function_length = frame2->from_function_length - frame1->from_function_length;
+    int from_function_length = (frame2->from_function_length > frame1->from_function_length) -
+                  (frame2->from_function_length < frame1->from_function_length);
     if (from_function_length != 0)
         return from_function_length;
 
diff --git a/lib/python_frame.c b/lib/python_frame.c
index 59f5ea0..351becd 100644
--- a/lib/python_frame.c
+++ b/lib/python_frame.c
@@ -130,7 +130,8 @@ sr_python_frame_cmp(struct sr_python_frame *frame1,
         return file_name;
 
     /* file_line */
-    int file_line = frame1->file_line - frame2->file_line;
+    int file_line = (frame1->file_line > frame2->file_line) -
+                  (frame1->file_line < frame2->file_line);
     if (file_line != 0)
         return file_line;
 
diff --git a/lib/ruby_frame.c b/lib/ruby_frame.c
index 20e68e5..8dfcb02 100644
--- a/lib/ruby_frame.c
+++ b/lib/ruby_frame.c
@@ -127,7 +127,8 @@ sr_ruby_frame_cmp(struct sr_ruby_frame *frame1,
         return file_name;
 
     /* file_line */
-    int file_line = frame1->file_line - frame2->file_line;
+    int file_line = (frame1->file_line > frame2->file_line) -
+                  (frame1->file_line < frame2->file_line);
     if (file_line != 0)
         return file_line;
 
@@ -137,12 +138,14 @@ sr_ruby_frame_cmp(struct sr_ruby_frame *frame1,
         return special_function;
 
     /* block_level */
-    int block_level = frame1->block_level - frame2->block_level;
+    int block_level = (frame1->block_level > frame2->block_level) -
+                  (frame1->block_level < frame2->block_level);
     if (block_level != 0)
             return block_level;
 
     /* rescue_level */
-    int rescue_level = frame1->rescue_level - frame2->rescue_level;
+    int rescue_level = (frame1->rescue_level > frame2->rescue_level) -
+                  (frame1->rescue_level < frame2->rescue_level);
     if (rescue_level != 0)
             return rescue_level;
 
-- 
2.43.0


From e92f96f66688ec6acb071d8a49af7ff55f9512bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:40 +0000
Subject: [PATCH 034/109] fix: compare all frames of Java threads

---
 lib/java_thread.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/lib/java_thread.c b/lib/java_thread.c
index fa054db..c473227 100644
--- a/lib/java_thread.c
+++ b/lib/java_thread.c
@@ -127,12 +127,19 @@ sr_java_thread_cmp(struct sr_java_thread *thread1,
     struct sr_java_frame *frame1 = thread1->frames;
     struct sr_java_frame *frame2 = thread2->frames;
 
-    if (frame1 && !frame2)
+    while (frame1 && frame2)
+    {
+        int frames = sr_java_frame_cmp(frame1, frame2);
+        if (frames != 0)
+            return frames;
+        frame1 = frame1->next;
+        frame2 = frame2->next;
+    }
+
+    if (frame1)
         return 1;
-    else if (frame2 && !frame1)
+    else if (frame2)
         return -1;
-    else if (frame1 && frame2)
-        return sr_java_frame_cmp(frame1, frame2);
 
     return 0;
 }
-- 
2.43.0


From 699a6bfe3a61c31799c5e0ffa81f45093b21ddb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:40 +0000
Subject: [PATCH 035/109] fix: do not abort when comparing single-threaded
 stacktraces

---
 lib/generic_thread.c    | 23 +++++++++++++++++++++++
 lib/generic_thread.h    |  3 +++
 lib/js_stacktrace.c     |  2 +-
 lib/koops_stacktrace.c  |  2 +-
 lib/python_stacktrace.c |  2 +-
 lib/ruby_stacktrace.c   |  2 +-
 6 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/lib/generic_thread.c b/lib/generic_thread.c
index 4d2fc96..edbcea3 100644
--- a/lib/generic_thread.c
+++ b/lib/generic_thread.c
@@ -46,6 +46,29 @@ thread_frame_count(struct sr_thread *thread)
     return count;
 }
 
+int
+thread_cmp_frames(struct sr_thread *thread1, struct sr_thread *thread2)
+{
+    struct sr_frame *frame1 = sr_thread_frames(thread1),
+        *frame2 = sr_thread_frames(thread2);
+
+    while (frame1 && frame2)
+    {
+        int frames = sr_frame_cmp(frame1, frame2);
+        if (frames != 0)
+            return frames;
+        frame1 = sr_frame_next(frame1);
+        frame2 = sr_frame_next(frame2);
+    }
+
+    if (frame1)
+        return 1;
+    else if (frame2)
+        return -1;
+
+    return 0;
+}
+
 bool
 thread_remove_frame(struct sr_thread *thread, struct sr_frame *frame)
 {
diff --git a/lib/generic_thread.h b/lib/generic_thread.h
index 93d71ca..b4ac7ff 100644
--- a/lib/generic_thread.h
+++ b/lib/generic_thread.h
@@ -77,6 +77,9 @@ extern struct thread_methods core_thread_methods, python_thread_methods,
 int
 thread_frame_count(struct sr_thread *thread);
 
+int
+thread_cmp_frames(struct sr_thread *thread1, struct sr_thread *thread2);
+
 bool
 thread_remove_frame(struct sr_thread *thread, struct sr_frame *frame);
 
diff --git a/lib/js_stacktrace.c b/lib/js_stacktrace.c
index 6b21672..777304f 100644
--- a/lib/js_stacktrace.c
+++ b/lib/js_stacktrace.c
@@ -46,7 +46,7 @@ struct thread_methods js_thread_methods =
 {
     .frames = (frames_fn_t) js_frames,
     .set_frames = (set_frames_fn_t) js_set_frames,
-    .cmp = (thread_cmp_fn_t) NULL,
+    .cmp = (thread_cmp_fn_t) thread_cmp_frames,
     .frame_count = (frame_count_fn_t) thread_frame_count,
     .next = (next_thread_fn_t) thread_no_next_thread,
     .set_next = (set_next_thread_fn_t) NULL,
diff --git a/lib/koops_stacktrace.c b/lib/koops_stacktrace.c
index 37013b4..7016f1d 100644
--- a/lib/koops_stacktrace.c
+++ b/lib/koops_stacktrace.c
@@ -70,7 +70,7 @@ struct thread_methods koops_thread_methods =
 {
     .frames = (frames_fn_t) koops_frames,
     .set_frames = (set_frames_fn_t) koops_set_frames,
-    .cmp = (thread_cmp_fn_t) NULL,
+    .cmp = (thread_cmp_fn_t) thread_cmp_frames,
     .frame_count = (frame_count_fn_t) thread_frame_count,
     .next = (next_thread_fn_t) thread_no_next_thread,
     .set_next = (set_next_thread_fn_t) NULL,
diff --git a/lib/python_stacktrace.c b/lib/python_stacktrace.c
index ce913a1..86bdffe 100644
--- a/lib/python_stacktrace.c
+++ b/lib/python_stacktrace.c
@@ -45,7 +45,7 @@ struct thread_methods python_thread_methods =
 {
     .frames = (frames_fn_t) python_frames,
     .set_frames = (set_frames_fn_t) python_set_frames,
-    .cmp = (thread_cmp_fn_t) NULL,
+    .cmp = (thread_cmp_fn_t) thread_cmp_frames,
     .frame_count = (frame_count_fn_t) thread_frame_count,
     .next = (next_thread_fn_t) thread_no_next_thread,
     .set_next = (set_next_thread_fn_t) NULL,
diff --git a/lib/ruby_stacktrace.c b/lib/ruby_stacktrace.c
index c74cd94..8bee896 100644
--- a/lib/ruby_stacktrace.c
+++ b/lib/ruby_stacktrace.c
@@ -44,7 +44,7 @@ struct thread_methods ruby_thread_methods =
 {
     .frames = (frames_fn_t) ruby_frames,
     .set_frames = (set_frames_fn_t) ruby_set_frames,
-    .cmp = (thread_cmp_fn_t) NULL,
+    .cmp = (thread_cmp_fn_t) thread_cmp_frames,
     .frame_count = (frame_count_fn_t) thread_frame_count,
     .next = (next_thread_fn_t) thread_no_next_thread,
     .set_next = (set_next_thread_fn_t) NULL,
-- 
2.43.0


From c9e1bb27d1b14ff097c6edc80ced26871e7ef2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:57 +0000
Subject: [PATCH 036/109] fix: do not crash when the crash thread has no frame
 left

---
 lib/gdb_stacktrace.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/gdb_stacktrace.c b/lib/gdb_stacktrace.c
index 3380b67..6d563dc 100644
--- a/lib/gdb_stacktrace.c
+++ b/lib/gdb_stacktrace.c
@@ -426,7 +426,8 @@ sr_gdb_stacktrace_get_crash_frame(struct sr_gdb_stacktrace *stacktrace)
 
     sr_normalize_gdb_stacktrace(stacktrace);
     struct sr_gdb_frame *crash_frame = crash_thread->frames;
-    crash_frame = sr_gdb_frame_dup(crash_frame, false);
+    if (crash_frame)
+        crash_frame = sr_gdb_frame_dup(crash_frame, false);
     sr_gdb_stacktrace_free(stacktrace);
     return crash_frame;
 }
-- 
2.43.0


From e0681f80dddf2af2df2ca7b7cffd0cca43f026ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:36 +0000
Subject: [PATCH 037/109] fix: do not leak the name of an unnamed system
 release

---
 lib/operating_system.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/operating_system.c b/lib/operating_system.c
index 4983cde..1c95819 100644
--- a/lib/operating_system.c
+++ b/lib/operating_system.c
@@ -171,7 +171,11 @@ sr_operating_system_parse_etc_system_release(const char *etc_system_release,
         *name = g_strndup(etc_system_release, release - etc_system_release);
 
         if (0 == strlen(*name))
+        {
+            g_free(*name);
+            *name = NULL;
             return false;
+        }
 
         /* make the name all lower case */
         char *a = *name;
-- 
2.43.0


From 26216cd07c7b0128953fc04db31b2858dc5630de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:36 +0000
Subject: [PATCH 038/109] fix: do not leak os-release values that are not used

---
 lib/operating_system.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/operating_system.c b/lib/operating_system.c
index 1c95819..9795f8a 100644
--- a/lib/operating_system.c
+++ b/lib/operating_system.c
@@ -208,12 +208,15 @@ os_release_callback(char *key, char *value, void *data)
 
     if (0 == strcmp(key, "ID"))
     {
+        g_free(operating_system->name);
         operating_system->name = value;
     }
     else if (0 == strcmp(key, "VERSION_ID"))
     {
         if (operating_system->version == NULL)
             operating_system->version = value;
+        else
+            g_free(value);
     }
     /* fedora rawhide workaround */
     else if (0 == strcmp(key, "VERSION") && strstr(value, "(Rawhide)"))
@@ -225,10 +228,12 @@ os_release_callback(char *key, char *value, void *data)
     }
     else if (0 == strcmp(key, "CPE_NAME"))
     {
+        g_free(operating_system->cpe);
         operating_system->cpe = value;
     }
     else if (0 == strcmp(key, "VARIANT_ID"))
     {
+        g_free(operating_system->variant);
         operating_system->variant = value;
     }
     else
-- 
2.43.0


From 3915995bb166d6cbc179e1bdcd3ea2fe1ae49b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:36 +0000
Subject: [PATCH 039/109] fix: gdb frame text depended on an undefined argument

sr_frame_append_to_str() called the three-argument function with two.
---
 lib/gdb_frame.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/gdb_frame.c b/lib/gdb_frame.c
index 2c9fb8c..dcc1543 100644
--- a/lib/gdb_frame.c
+++ b/lib/gdb_frame.c
@@ -48,9 +48,15 @@ frame_cmp_without_number(struct sr_gdb_frame *frame1, struct sr_gdb_frame *frame
     return sr_gdb_frame_cmp(frame1, frame2, false);
 }
 
+static void
+frame_append_to_str_terse(struct sr_gdb_frame *frame, GString *str)
+{
+    sr_gdb_frame_append_to_str(frame, str, false);
+}
+
 struct frame_methods gdb_frame_methods =
 {
-    .append_to_str = (append_to_str_fn_t) sr_gdb_frame_append_to_str,
+    .append_to_str = (append_to_str_fn_t) frame_append_to_str_terse,
     .next = (next_frame_fn_t) gdb_next,
     .set_next = (set_next_frame_fn_t) gdb_set_next,
     .cmp = (frame_cmp_fn_t) frame_cmp_without_number,
-- 
2.43.0


From a151b7a43ede26b25626f5f6a4c8c91493063c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:36 +0000
Subject: [PATCH 040/109] fix: parse function lists without library names

A line written by sr_gdb_thread_format_funs() for a frame without library
was read as an empty function name in a library of that name.
---
 lib/gdb_thread.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/gdb_thread.c b/lib/gdb_thread.c
index 0e235ce..d1c0550 100644
--- a/lib/gdb_thread.c
+++ b/lib/gdb_thread.c
@@ -483,6 +483,10 @@ sr_gdb_thread_parse_funs(const char *input)
                 break;
         }
 
+        /* The line holds no library name. */
+        if (libname == input)
+            libname = next;
+
         frame = sr_gdb_frame_new();
         frame->function_name = g_strndup(input, libname - input);
         if (libname + 1 < next)
-- 
2.43.0


From 8aebd43e13ee4bb4b32933f8213d232add93e76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:46 +0000
Subject: [PATCH 041/109] fix: jaro-winkler called identical threads of one
 frame dissimilar

---
 lib/distance.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/distance.c b/lib/distance.c
index 43c4d59..219115f 100644
--- a/lib/distance.c
+++ b/lib/distance.c
@@ -46,6 +46,11 @@ distance_jaro_winkler(struct sr_thread *thread1,
     if (max_frame_count < frame1_count)
         max_frame_count = frame1_count;
 
+    /* Frames at the same position always match, even in the shortest threads. */
+    int max_distance = max_frame_count / 2 - 1;
+    if (max_distance < 0)
+        max_distance = 0;
+
     int prefix_len = 0;
     bool still_prefix = true;
     float trans_count = 0, match_count = 0;
@@ -67,7 +72,7 @@ distance_jaro_winkler(struct sr_thread *thread1,
              * other and if functions aren't both unpaired unknown
              * functions.
              */
-            if (abs(i - j) <= max_frame_count / 2 - 1 &&
+            if (abs(i - j) <= max_distance &&
                 0 == sr_frame_cmp_distance(curr_frame, curr_frame2))
             {
                 match = true;
-- 
2.43.0


From 731164060fcf412852b8325f255f4d814272b643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:46 +0000
Subject: [PATCH 042/109] fix: jaro-winkler common prefix does not exceed the
 shorter thread

---
 lib/distance.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/distance.c b/lib/distance.c
index 219115f..3c0ef30 100644
--- a/lib/distance.c
+++ b/lib/distance.c
@@ -83,7 +83,8 @@ distance_jaro_winkler(struct sr_thread *thread1,
             curr_frame2 = sr_frame_next(curr_frame2);
         }
 
-        if (still_prefix)
+        /* The common prefix ends with the shorter thread. */
+        if (still_prefix && i <= frame2_count)
             ++prefix_len;
 
         if (match)
-- 
2.43.0


From 7e5f74f72c5520fa451ed6e6c29d79bcba704782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:04 +0000
Subject: [PATCH 043/109] fix: jaro-winkler counted differing frames to the
 common prefix

A frame that matched an earlier one of the other thread was not compared
with the frame at its own position.
---
 lib/distance.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/distance.c b/lib/distance.c
index 3c0ef30..6291ca3 100644
--- a/lib/distance.c
+++ b/lib/distance.c
@@ -60,7 +60,7 @@ distance_jaro_winkler(struct sr_thread *thread1,
     {
         bool match = false;
         struct sr_frame *curr_frame2 = sr_thread_frames(thread2);
-        for (int j = 1; !match && curr_frame2; ++j)
+        for (int j = 1; (!match || j <= i) && curr_frame2; ++j)
         {
             /* Whether the prefix continues to be the same for both
              * threads or not.
@@ -72,7 +72,7 @@ distance_jaro_winkler(struct sr_thread *thread1,
              * other and if functions aren't both unpaired unknown
              * functions.
              */
-            if (abs(i - j) <= max_distance &&
+            if (!match && abs(i - j) <= max_distance &&
                 0 == sr_frame_cmp_distance(curr_frame, curr_frame2))
             {
                 match = true;
-- 
2.43.0


From 015c166df72cb498d80c2667a4ad0950bd8d1b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:52 +0000
Subject: [PATCH 044/109] fix: refuse to merge incomplete or mixed distance
 matrix parts

Distances of missing parts were left uninitialized and parts computed
with different metrics were merged into one matrix.
---
 lib/distance.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/distance.c b/lib/distance.c
index 6291ca3..21b665e 100644
--- a/lib/distance.c
+++ b/lib/distance.c
@@ -25,6 +25,7 @@
 #include "gdb/thread.h"
 #include "internal_utils.h"
 #include <assert.h>
+#include <math.h>
 #include <stdint.h>
 #include <string.h>
 
@@ -648,11 +649,16 @@ sr_distances_part_merge(struct sr_distances_part *parts)
 
     struct sr_distances *distances = sr_distances_new(parts->m, parts->n);
 
+    for (int i = 0; i < distances->m; i++)
+        for (int j = i + 1; j < distances->n; j++)
+            sr_distances_set_distance(distances, i, j, NAN);
+
     for (struct sr_distances_part *it = parts;
          it != NULL;
          it = it->next)
     {
         if (it->m != parts->m || it->n != parts->n
+            || it->dist_type != parts->dist_type
             || it->distances == NULL
             || it->checksum != parts->checksum)
         {
@@ -682,6 +688,12 @@ sr_distances_part_merge(struct sr_distances_part *parts)
 
     }
 
+    /* Every distance has to be covered by some part. */
+    for (int i = 0; i < distances->m; i++)
+        for (int j = i + 1; j < distances->n; j++)
+            if (isnan(sr_distances_get_distance(distances, i, j)))
+                goto error;
+
     return distances;
 error:
     sr_distances_free(distances);
-- 
2.43.0


From 0b8797ffccee3bd36c04757ec9f6b490ad345bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:43 +0000
Subject: [PATCH 045/109] fix: dividing a distance matrix into no parts divided
 by zero

---
 lib/distance.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/distance.c b/lib/distance.c
index 21b665e..3f56b3b 100644
--- a/lib/distance.c
+++ b/lib/distance.c
@@ -535,6 +535,9 @@ sr_distances_part_create(int m, int n, enum sr_distance_type dist_type,
 
     assert(m > 0 && n > 1 && m < n);
 
+    if (nparts == 0)
+        return NULL;
+
     int triangle_twice = m * (m-1);
     assert(triangle_twice % 2 == 0);
 
-- 
2.43.0


From 8be4a231e54f6d7c9e3b4c1093c326bcde08d929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:34 +0000
Subject: [PATCH 046/109] fix: reading past the end of a text that ends with an
 operator name

---
 lib/gdb_frame.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/gdb_frame.c b/lib/gdb_frame.c
index dcc1543..e788922 100644
--- a/lib/gdb_frame.c
+++ b/lib/gdb_frame.c
@@ -450,6 +450,10 @@ sr_gdb_frame_parse_function_name_chunk(const char **input,
             }
         }
 
+        /* The operator might be the last thing in the input. */
+        if (*local_input == '\0')
+            break;
+
         if (strchr(FUNCTION_NAME_CHARS, *local_input) == NULL)
         {
             if (!space_allowed || strchr(" ", *local_input) == NULL)
-- 
2.43.0


From 41af45aea66dde20c9db3deb14a747771a4953ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:34 +0000
Subject: [PATCH 047/109] fix: freeing a missing function name part

---
 lib/gdb_frame.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/gdb_frame.c b/lib/gdb_frame.c
index e788922..9538759 100644
--- a/lib/gdb_frame.c
+++ b/lib/gdb_frame.c
@@ -787,7 +787,8 @@ sr_gdb_frame_parse_function_name(const char **input,
         {
             /* Function name MUST be ended by empty space. */
             g_string_free(buf0, TRUE);
-            g_string_free(buf1, TRUE);
+            if (buf1)
+                g_string_free(buf1, TRUE);
             location->message = "Space or newline expected after function name.";
             return false;
         }
-- 
2.43.0


From b8ab09f90d0c2dc3ff02cb5568245a6815e321bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:34 +0000
Subject: [PATCH 048/109] fix: frames whose arguments hold characters like '('
 were lost

GDB prints such an argument as 40 '('; the parenthesis was taken for a
nested argument list, and the frame and the rest of the thread were dropped.
---
 lib/gdb_frame.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/gdb_frame.c b/lib/gdb_frame.c
index 9538759..1c6e55f 100644
--- a/lib/gdb_frame.c
+++ b/lib/gdb_frame.c
@@ -851,7 +851,14 @@ sr_gdb_frame_skip_function_args(const char **input,
         }
         else
         {
-            if (*local_input == '"')
+            /* Parentheses and quotes in character literals do not nest. */
+            if (local_input[0] == '\'' && local_input[1] != '\0' &&
+                strchr("()\"", local_input[1]) && local_input[2] == '\'')
+            {
+                location->column += 2;
+                local_input += 2;
+            }
+            else if (*local_input == '"')
                 string = true;
             else if (*local_input == '(')
                 ++depth;
-- 
2.43.0


From 0393776bc251ce547a6171a1204dc890c507c0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:34 +0000
Subject: [PATCH 049/109] fix: lines of GDB frames were counted repeatedly

The location of an error could point far behind the end of the input.
---
 lib/gdb_frame.c  | 6 +++++-
 lib/gdb_thread.c | 1 +
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/gdb_frame.c b/lib/gdb_frame.c
index 1c6e55f..b75add7 100644
--- a/lib/gdb_frame.c
+++ b/lib/gdb_frame.c
@@ -332,9 +332,13 @@ sr_gdb_frame_parse(const char **input,
                    struct sr_location *location)
 {
     const char *local_input = *input;
-    struct sr_gdb_frame *header = sr_gdb_frame_parse_header(input, location);
+    struct sr_location header_location = *location;
+    struct sr_gdb_frame *header = sr_gdb_frame_parse_header(input, &header_location);
     if (!header)
+    {
+        *location = header_location;
         return NULL;
+    }
 
     /* Skip the variables section for now. */
     local_input = findfirstabnul(local_input, "\n#", "\nThread", location);
diff --git a/lib/gdb_thread.c b/lib/gdb_thread.c
index d1c0550..62d84eb 100644
--- a/lib/gdb_thread.c
+++ b/lib/gdb_thread.c
@@ -422,6 +422,7 @@ sr_gdb_thread_parse(const char **input,
         sr_location_add(location,
                          frame_location.line,
                          frame_location.column);
+        sr_location_init(&frame_location);
     }
 
     if (!imthread->frames)
-- 
2.43.0


From 624347d74fae03a9d24e893e0877672939611fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:34 +0000
Subject: [PATCH 050/109] fix: reading past the end of a shared library table
 without final newline

---
 lib/gdb_sharedlib.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/gdb_sharedlib.c b/lib/gdb_sharedlib.c
index 2123f3c..708e2f7 100644
--- a/lib/gdb_sharedlib.c
+++ b/lib/gdb_sharedlib.c
@@ -244,7 +244,8 @@ sr_gdb_sharedlib_parse(const char *input)
         current->soname = g_string_free(buf, FALSE);
 
         /* we are on '\n' character, jump to next line */
-        ++tmp;
+        if (*tmp)
+            ++tmp;
     }
 
     return first;
-- 
2.43.0


From 37bac709142124fd9d7592d38965de51de9a2ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:54 +0000
Subject: [PATCH 051/109] fix: text after a blank line was taken for a shared
 library row

The blank line ends the table; a following line such as "No symbol table is
loaded." became a library.
---
 lib/gdb_sharedlib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/gdb_sharedlib.c b/lib/gdb_sharedlib.c
index 708e2f7..2ccdd04 100644
--- a/lib/gdb_sharedlib.c
+++ b/lib/gdb_sharedlib.c
@@ -181,7 +181,7 @@ sr_gdb_sharedlib_parse(const char *input)
         /* ugly - from/to address is sometimes missing; skip it and jump to symbols */
         if (isspace(*tmp))
         {
-            while (isspace(*tmp))
+            while (*tmp == ' ' || *tmp == '\t')
                 ++tmp;
         }
         else
-- 
2.43.0


From cc637449f66dd7a2da62ad11a9a04bd033ac09a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:54 +0000
Subject: [PATCH 052/109] fix: source files with unusual characters were cut
 short

The path of a frame ended at the first character such as ~ and its line
number was lost.
---
 lib/gdb_frame.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/gdb_frame.c b/lib/gdb_frame.c
index b75add7..14663e1 100644
--- a/lib/gdb_frame.c
+++ b/lib/gdb_frame.c
@@ -1068,7 +1068,9 @@ sr_gdb_frame_parse_file_location(const char **input,
     }
 
     char *file_name;
-    chars = sr_parse_char_span(&local_input, SR_alnum "_/\\+.-", &file_name);
+    chars = 0;
+    if (sr_parse_char_cspan(&local_input, ": \t\n", &file_name))
+        chars = strlen(file_name);
     location->column += chars;
     if (0 == chars)
     {
-- 
2.43.0


From cc3a129583ec627cf72550221c856bbcb041fdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:26 +0000
Subject: [PATCH 053/109] fix: functions whose name starts with vtable were not
 recognized in GDB frames

---
 lib/gdb_frame.c | 33 +++++++--------------------------
 1 file changed, 7 insertions(+), 26 deletions(-)

diff --git a/lib/gdb_frame.c b/lib/gdb_frame.c
index 14663e1..4655cfa 100644
--- a/lib/gdb_frame.c
+++ b/lib/gdb_frame.c
@@ -988,33 +988,14 @@ sr_gdb_frame_parse_address_in_function(const char **input,
         }
 
         /* C++ specific case for "0xfafa in vtable for function ()" */
-        chars = sr_skip_string(&local_input, "vtable");
-        location->column += chars;
-        if (0 <  chars)
+        const char *vtable_input = local_input;
+        if (0 < sr_skip_string(&vtable_input, "vtable") &&
+            0 < sr_skip_char_sequence(&vtable_input, ' ') &&
+            0 < sr_skip_string(&vtable_input, "for") &&
+            0 < sr_skip_char_sequence(&vtable_input, ' '))
         {
-            chars = sr_skip_char_sequence(&local_input, ' ');
-            location->column += chars;
-            if (0 == chars)
-            {
-                location->message = "Space expected after 'vtable'.";
-                return false;
-            }
-
-            chars = sr_skip_string(&local_input, "for");
-            location->column += chars;
-            if (0 == chars)
-            {
-                location->message = "Keyword \"for\" expected.";
-                return false;
-            }
-
-            chars = sr_skip_char_sequence(&local_input, ' ');
-            location->column += chars;
-            if (0 == chars)
-            {
-                location->message = "Space expected after 'for'.";
-                return false;
-            }
+            location->column += vtable_input - local_input;
+            local_input = vtable_input;
         }
     }
 
-- 
2.43.0


From e74eb7addee23bd98bbf863c65fae15568bb5988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:56 +0000
Subject: [PATCH 054/109] fix: the line after the RIP of a kernel oops was
 skipped

---
 lib/koops_stacktrace.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/koops_stacktrace.c b/lib/koops_stacktrace.c
index 7016f1d..c0db6a9 100644
--- a/lib/koops_stacktrace.c
+++ b/lib/koops_stacktrace.c
@@ -253,6 +253,10 @@ parse_IP(const char **input)
         frame = sr_koops_frame_parse(&local_input);
         if (!frame)
             return NULL;
+
+        /* The whole line has been read. */
+        *input = local_input;
+        return frame;
     }
     else if(sr_skip_string(&local_input, "EIP:"))
     {
-- 
2.43.0


From a580506186ad95fd9f953c208cd637589d38ab6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:56 +0000
Subject: [PATCH 055/109] fix: leak of the special stack name in kernel oopses

---
 lib/koops_stacktrace.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/koops_stacktrace.c b/lib/koops_stacktrace.c
index c0db6a9..fb18d69 100644
--- a/lib/koops_stacktrace.c
+++ b/lib/koops_stacktrace.c
@@ -395,6 +395,7 @@ sr_koops_stacktrace_parse(const char **input,
         char *new_alt_stack = parse_alt_stack_start(&local_input);
         if (new_alt_stack)
         {
+            g_free(alt_stack);
             alt_stack = new_alt_stack;
         }
 
-- 
2.43.0


From 6c25b2b85a905cc8642a875c56fcb44173eaa407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:56 +0000
Subject: [PATCH 056/109] fix: leak of the split module name in kernel oopses

---
 lib/koops_stacktrace.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/koops_stacktrace.c b/lib/koops_stacktrace.c
index fb18d69..d34312c 100644
--- a/lib/koops_stacktrace.c
+++ b/lib/koops_stacktrace.c
@@ -508,6 +508,7 @@ sr_koops_stacktrace_parse_modules(const char **input)
                 }
 
                 char *tmp = g_strdup_printf("%s%s", result[result_offset-1], therest);
+                g_free(therest);
                 g_free(result[result_offset-1]);
                 result[result_offset-1] = tmp;
             }
-- 
2.43.0


From ad1159a48a59c71397c6f95db9852c9c0dd8c7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:33 +0000
Subject: [PATCH 057/109] fix: stack addresses without a symbol in kernel
 oopses were taken for unreliable

---
 lib/koops_frame.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/koops_frame.c b/lib/koops_frame.c
index 9a9c4ea..f8d36e8 100644
--- a/lib/koops_frame.c
+++ b/lib/koops_frame.c
@@ -369,7 +369,10 @@ sr_koops_frame_parse(const char **input)
                                                  &frame->address);
 
         if (len > 0)
+        {
+            frame->reliable = true;
             goto done;
+        }
     }
 
     sr_skip_char_span(&local_input, " \t");
-- 
2.43.0


From 04c3dad4e551c93628a63d10fbca005d5b478de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:54 +0000
Subject: [PATCH 058/109] fix: RIP of a kernel oops without address took the
 address of the next line

---
 lib/koops_stacktrace.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/koops_stacktrace.c b/lib/koops_stacktrace.c
index d34312c..b530fe4 100644
--- a/lib/koops_stacktrace.c
+++ b/lib/koops_stacktrace.c
@@ -244,7 +244,7 @@ parse_IP(const char **input)
             return NULL;
 
         /* The address is there twice, skip the first one */
-        if (!sr_skip_char_cspan(&local_input, " \t"))
+        if (!sr_skip_char_cspan(&local_input, " \t\n"))
             return NULL;
 
         if (!sr_skip_char_span(&local_input, " \t"))
-- 
2.43.0


From efc16cba094ceaeb5a0de01265182bdeb87ad46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:39 +0000
Subject: [PATCH 059/109] fix: core stacktrace created from GDB output lacked
 the executable and the crash thread

---
 lib/core_stacktrace.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/core_stacktrace.c b/lib/core_stacktrace.c
index 84cd2a2..c1ef578 100644
--- a/lib/core_stacktrace.c
+++ b/lib/core_stacktrace.c
@@ -347,6 +347,10 @@ sr_core_stacktrace_create(const char *gdb_stacktrace_text,
     struct sr_core_stacktrace *core_stacktrace =
         sr_core_stacktrace_new();
 
+    core_stacktrace->executable = g_strdup(executable_path);
+
+    struct sr_gdb_thread *crash_thread =
+        sr_gdb_stacktrace_find_crash_thread(gdb_stacktrace);
     struct sr_gdb_thread *gdb_thread = gdb_stacktrace->threads;
     while (gdb_thread)
     {
@@ -380,6 +384,9 @@ sr_core_stacktrace_create(const char *gdb_stacktrace_text,
             gdb_frame = gdb_frame->next;
         }
 
+        if (gdb_thread == crash_thread)
+            core_stacktrace->crash_thread = core_thread;
+
         core_stacktrace->threads =
             sr_core_thread_append(core_stacktrace->threads,
                                   core_thread);
-- 
2.43.0


From 71c39de9693a0859f92920f22ec38159b0de0a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:22 +0000
Subject: [PATCH 060/109] fix: reading past the end of a text that ends with an
 opening parenthesis

---
 lib/gdb_frame.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/gdb_frame.c b/lib/gdb_frame.c
index 4655cfa..05c6534 100644
--- a/lib/gdb_frame.c
+++ b/lib/gdb_frame.c
@@ -831,7 +831,7 @@ sr_gdb_frame_skip_function_args(const char **input,
     int depth = 0;
     bool string = false;
     bool escape = false;
-    do
+    while (*local_input)
     {
         /* Sometimes function args would be too long so printer
          * truncates them. See frame #33 in rhbz#803600.
@@ -877,7 +877,6 @@ sr_gdb_frame_skip_function_args(const char **input,
         sr_location_eat_char(location, *local_input);
         ++local_input;
     }
-    while (*local_input);
 
     if (depth != 0 || string || escape)
     {
-- 
2.43.0


From 050183aad05b182bad23fb46ad8250f3e34e9dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:22 +0000
Subject: [PATCH 061/109] fix: lines of Python tracebacks were counted wrongly

---
 lib/python_frame.c      | 7 ++++---
 lib/python_stacktrace.c | 3 ++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/python_frame.c b/lib/python_frame.c
index 351becd..ec11456 100644
--- a/lib/python_frame.c
+++ b/lib/python_frame.c
@@ -237,7 +237,8 @@ sr_python_frame_parse(const char **input,
     {
         /* Skip the error location line */
         sr_skip_char_cspan(&local_input, "\n");
-        sr_skip_char(&local_input, '\n');
+        if (sr_skip_char(&local_input, '\n'))
+            sr_location_add(location, 2, 0);
         *input = local_input;
     }
 
@@ -335,14 +336,14 @@ sr_python_frame_parse(const char **input,
     }
 
     if (sr_skip_char(&local_input, '\n'))
-        sr_location_add(location, 1, 0);
+        sr_location_add(location, 2, 0);
 
     /* Parse source code line (optional). */
     if (4 == sr_skip_string(&local_input, "    "))
     {
         if (sr_parse_char_cspan(&local_input, "\n", &frame->line_contents)
                 && sr_skip_char(&local_input, '\n'))
-            sr_location_add(location, 1, 0);
+            sr_location_add(location, 2, 0);
     }
 
     *input = local_input;
diff --git a/lib/python_stacktrace.c b/lib/python_stacktrace.c
index 86bdffe..4132a33 100644
--- a/lib/python_stacktrace.c
+++ b/lib/python_stacktrace.c
@@ -183,7 +183,7 @@ sr_python_stacktrace_parse(const char **input,
     else
     {
         local_input += strlen(HEADER);
-        location->line += 2;
+        location->line += 1;
         location->column = 0;
     }
 
@@ -206,6 +206,7 @@ sr_python_stacktrace_parse(const char **input,
         sr_location_add(location,
                         frame_location.line,
                         frame_location.column);
+        sr_location_init(&frame_location);
     }
 
     if (!stacktrace->frames)
-- 
2.43.0


From 5bbc487581deeafb0007f851a4cc117fd4729814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:12 +0000
Subject: [PATCH 062/109] fix: negative column reported for a malformed Ruby
 frame

---
 lib/ruby_frame.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/ruby_frame.c b/lib/ruby_frame.c
index 8dfcb02..8f4bd0b 100644
--- a/lib/ruby_frame.c
+++ b/lib/ruby_frame.c
@@ -221,7 +221,7 @@ sr_ruby_frame_parse(const char **input,
     p -= strlen(":in ");
     if (p < filename_lineno_in || 0 != strcmp(":in ", p))
     {
-        location->column -= strlen(":in ");
+        location->column -= MIN(l, strlen(":in "));
         location->message = g_strdup("Unable to find ':in ' preceding the "
                                       "backtick character.");
         goto fail;
-- 
2.43.0


From cfce98149e9eb8eab6e1b1b0b6e7a2093fe57393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:31 +0000
Subject: [PATCH 063/109] fix: stack overflow on a Java exception with very
 many causes

---
 lib/java_frame.c | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/lib/java_frame.c b/lib/java_frame.c
index 9a598bc..20a5ca1 100644
--- a/lib/java_frame.c
+++ b/lib/java_frame.c
@@ -278,15 +278,23 @@ sr_java_frame_parse_exception(const char **input,
                               struct sr_location *location)
 {
     /* java.lang.NullPointerException: foo */
-    const char *cursor = sr_skip_whitespace(*input);
-    sr_location_add(location, 0, cursor - *input);
-    const char *mark = cursor;
+    const char *cursor = *input;
+    const char *mark;
+    /* the exceptions caused by the one being parsed, outermost last */
+    struct sr_java_frame *outer = NULL;
+
+parse_exception:
+    mark = cursor;
+    cursor = sr_skip_whitespace(mark);
+    sr_location_add(location, 0, cursor - mark);
+    mark = cursor;
 
     sr_location_add(location, 0, sr_skip_char_cspan(&cursor, ": \t\n"));
 
     if (mark == cursor)
     {
         location->message = "Expected exception name";
+        sr_java_frame_free_full(outer);
         return NULL;
     }
 
@@ -351,6 +359,7 @@ sr_java_frame_parse_exception(const char **input,
         if (parsed == NULL)
         {
             sr_java_frame_free_full(exception);
+            sr_java_frame_free_full(outer);
             return NULL;
         }
 
@@ -396,19 +405,13 @@ parse_inner_exception:
         cursor += strlen("Caused by: ");
         sr_location_add(location, 0, strlen("Caused by: "));
 
-        struct sr_java_frame *inner = sr_java_frame_parse_exception(&cursor, location);
-        if (inner == NULL)
-        {
-            sr_java_frame_free_full(exception);
-            return NULL;
-        }
-
-        struct sr_java_frame *last_inner = sr_java_frame_get_last(inner);
-        last_inner->next = exception;
-        exception = inner;
+        sr_java_frame_get_last(exception)->next = outer;
+        outer = exception;
+        goto parse_exception;
     }
 
 exception_parsing_successful:
+    sr_java_frame_get_last(exception)->next = outer;
     *input = cursor;
 
     return exception;
-- 
2.43.0


From 1911d5ff824e627ff03fac982fbef71a20e82e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:31 +0000
Subject: [PATCH 064/109] fix: stack overflow on a GDB function name with very
 deep nesting

---
 lib/gdb_frame.c | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/lib/gdb_frame.c b/lib/gdb_frame.c
index 05c6534..6e1ccd1 100644
--- a/lib/gdb_frame.c
+++ b/lib/gdb_frame.c
@@ -529,11 +529,17 @@ int sr_gdb_frame_parse_function_name_template_args(const char **input,
     return total_char_count;
 }
 
-int
-sr_gdb_frame_parse_function_name_braces(const char **input, char **target)
+/* Braces and templates nested deeper than this are not parsed. */
+#define MAX_NESTING 1000
+
+static int
+parse_function_name_template(const char **input, char **target, int depth);
+
+static int
+parse_function_name_braces(const char **input, char **target, int depth)
 {
     const char *local_input = *input;
-    if (!sr_skip_char(&local_input, '('))
+    if (depth > MAX_NESTING || !sr_skip_char(&local_input, '('))
         return 0;
 
     GString *buf = g_string_new(NULL);
@@ -542,8 +548,8 @@ sr_gdb_frame_parse_function_name_braces(const char **input, char **target)
     {
         char *namechunk = NULL;
         if (0 < sr_gdb_frame_parse_function_name_chunk(&local_input, true, &namechunk) ||
-            0 < sr_gdb_frame_parse_function_name_braces(&local_input, &namechunk) ||
-            0 < sr_gdb_frame_parse_function_name_template(&local_input, &namechunk))
+            0 < parse_function_name_braces(&local_input, &namechunk, depth + 1) ||
+            0 < parse_function_name_template(&local_input, &namechunk, depth + 1))
         {
             g_string_append(buf, namechunk);
             g_free(namechunk);
@@ -565,11 +571,11 @@ sr_gdb_frame_parse_function_name_braces(const char **input, char **target)
     return total_char_count;
 }
 
-int
-sr_gdb_frame_parse_function_name_template(const char **input, char **target)
+static int
+parse_function_name_template(const char **input, char **target, int depth)
 {
     const char *local_input = *input;
-    if (!sr_skip_char(&local_input, '<'))
+    if (depth > MAX_NESTING || !sr_skip_char(&local_input, '<'))
         return 0;
 
     GString *buf = g_string_new(NULL);
@@ -588,8 +594,8 @@ sr_gdb_frame_parse_function_name_template(const char **input, char **target)
          */
         if (0 < sr_gdb_frame_parse_function_name_template_args(&local_input, &namechunk) ||
             0 < sr_gdb_frame_parse_function_name_chunk(&local_input, true, &namechunk) ||
-            0 < sr_gdb_frame_parse_function_name_braces(&local_input, &namechunk) ||
-            0 < sr_gdb_frame_parse_function_name_template(&local_input, &namechunk))
+            0 < parse_function_name_braces(&local_input, &namechunk, depth + 1) ||
+            0 < parse_function_name_template(&local_input, &namechunk, depth + 1))
         {
             g_string_append(buf, namechunk);
             g_free(namechunk);
@@ -611,6 +617,18 @@ sr_gdb_frame_parse_function_name_template(const char **input, char **target)
     return total_char_count;
 }
 
+int
+sr_gdb_frame_parse_function_name_braces(const char **input, char **target)
+{
+    return parse_function_name_braces(input, target, 0);
+}
+
+int
+sr_gdb_frame_parse_function_name_template(const char **input, char **target)
+{
+    return parse_function_name_template(input, target, 0);
+}
+
 bool
 sr_gdb_frame_parse_function_name(const char **input,
                                  char **function_name,
-- 
2.43.0


From b54467990c0918ed7fa284276fe7ebe3e488ada6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:01 +0000
Subject: [PATCH 065/109] fix: JavaScript problem directories were taken for
 Java ones

---
 lib/abrt.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/abrt.c b/lib/abrt.c
index 2ed28d4..896082d 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -853,6 +853,8 @@ sr_abrt_type_from_type(const char *type)
         return SR_REPORT_PYTHON;
     else if (0 == strncmp(type, "Kerneloops", 10))
         return SR_REPORT_KERNELOOPS;
+    else if (0 == strncmp(type, "JavaScript", 10))
+        return SR_REPORT_JAVASCRIPT;
     else if (0 == strncmp(type, "Java", 4))
         return SR_REPORT_JAVA;
     else if (0 == strncmp(type, "Ruby", 4))
-- 
2.43.0


From 6626d58c17892c9ef9c7bdd609bc7ba367a18724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:01 +0000
Subject: [PATCH 066/109] fix: package epochs that are not numbers were
 accepted and packages without epoch leaked

---
 lib/abrt.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/abrt.c b/lib/abrt.c
index 896082d..89b3a6a 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -301,18 +301,23 @@ rpm_pkg_from_dir(struct sr_rpm_package *packages,
     char *epoch_str = file_contents(directory, "pkg_epoch", error_message);
     if (!epoch_str)
     {
+        sr_rpm_package_free(packages, false);
         return NULL;
     }
-    unsigned long epoch = strtoul(epoch_str, NULL, 10);
-    if (epoch == ULONG_MAX)
+    strip_newline(epoch_str);
+    const char *epoch_end = epoch_str;
+    uint32_t epoch;
+    if (sr_parse_uint32(&epoch_end, &epoch) <= 0 || *epoch_end != '\0')
     {
         *error_message = g_strdup_printf("Epoch '%s' is not a number", epoch_str);
+        g_free(epoch_str);
+        sr_rpm_package_free(packages, false);
         return NULL;
     }
     g_free(epoch_str);
 
 
-    packages->epoch = (uint32_t)epoch;
+    packages->epoch = epoch;
     packages->name = file_contents(directory, "pkg_name", error_message);
     packages->version = file_contents(directory, "pkg_version", error_message);
     packages->release = file_contents(directory, "pkg_release", error_message);
-- 
2.43.0


From c8e5cc04df31f8573786ec87828e72539494eee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:01 +0000
Subject: [PATCH 067/109] fix: error messages leaked when several package files
 are missing

---
 lib/abrt.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/abrt.c b/lib/abrt.c
index 89b3a6a..23337a4 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -318,14 +318,12 @@ rpm_pkg_from_dir(struct sr_rpm_package *packages,
 
 
     packages->epoch = epoch;
-    packages->name = file_contents(directory, "pkg_name", error_message);
-    packages->version = file_contents(directory, "pkg_version", error_message);
-    packages->release = file_contents(directory, "pkg_release", error_message);
-    packages->architecture = file_contents(directory, "pkg_arch", error_message);
     packages->role = SR_ROLE_AFFECTED;
 
-    if (!(packages->name && packages->version && packages->release &&
-          packages->architecture))
+    if (!((packages->name = file_contents(directory, "pkg_name", error_message)) &&
+          (packages->version = file_contents(directory, "pkg_version", error_message)) &&
+          (packages->release = file_contents(directory, "pkg_release", error_message)) &&
+          (packages->architecture = file_contents(directory, "pkg_arch", error_message))))
     {
         sr_rpm_package_free(packages, false);
         return NULL;
-- 
2.43.0


From 0f4fd922e2536ca9c573ac2804582c55fafc8d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:01 +0000
Subject: [PATCH 068/109] fix: no report for unpackaged programs whose library
 list names no package

---
 lib/abrt.c | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/lib/abrt.c b/lib/abrt.c
index 23337a4..5a1e341 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -339,29 +339,28 @@ rpm_pkg_from_dir(struct sr_rpm_package *packages,
     return packages;
 }
 
-static struct sr_rpm_package *
-rpm_dso_list_from_dir(struct sr_rpm_package *packages,
+static bool
+rpm_dso_list_from_dir(struct sr_rpm_package **packages,
                       const char *directory,
                       char **error_message)
 {
     char *dso_list_contents = file_contents(directory, "dso_list",
                                             error_message);
-    if (dso_list_contents)
-    {
-        struct sr_rpm_package *dso_packages =
-            sr_abrt_parse_dso_list(dso_list_contents);
+    if (!dso_list_contents)
+        return false;
 
-        if (dso_packages)
-        {
-            packages = sr_rpm_package_append(packages, dso_packages);
-            packages = sr_rpm_package_sort(packages);
-            packages = sr_rpm_package_uniq(packages);
-        }
+    struct sr_rpm_package *dso_packages =
+        sr_abrt_parse_dso_list(dso_list_contents);
 
-        g_free(dso_list_contents);
+    if (dso_packages)
+    {
+        *packages = sr_rpm_package_append(*packages, dso_packages);
+        *packages = sr_rpm_package_sort(*packages);
+        *packages = sr_rpm_package_uniq(*packages);
     }
 
-    return packages;
+    g_free(dso_list_contents);
+    return true;
 }
 
 static struct sr_rpm_package *
@@ -426,9 +425,12 @@ sr_abrt_rpm_packages_from_dir(const char *directory, struct sr_rpm_package **pac
     /* if dso_list doesn't exist, do not attach it */
     if (file_exist(directory, "dso_list"))
     {
-        *packages = rpm_dso_list_from_dir(*packages, directory, error_message);
-        if (!*packages)
+        if (!rpm_dso_list_from_dir(packages, directory, error_message))
+        {
+            sr_rpm_package_free(*packages, true);
+            *packages = NULL;
             return -2;
+        }
     }
 
     /* attach interpreter as related package if exists */
-- 
2.43.0


From 37587addbebc461883d7afafb8875df253b78667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:01 +0000
Subject: [PATCH 069/109] fix: desktop session was lost behind a variable with
 a similar name

---
 lib/abrt.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/lib/abrt.c b/lib/abrt.c
index 5a1e341..982a44e 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -448,16 +448,13 @@ desktop_from_dir(const char *directory,
     if (!environ_contents)
         return NULL;
 
-    char *desktop = strstr(environ_contents, "DESKTOP_SESSION=");
-    if (!desktop)
-    {
-        g_free(environ_contents);
-        return NULL;
-    }
-
     /* avoid prefixes - DESKTOP_SESSION= must either be
        the very first variable or preceeded by a newline */
-    if (desktop != environ_contents && *(desktop - 1) != '\n')
+    char *desktop = strstr(environ_contents, "DESKTOP_SESSION=");
+    while (desktop && desktop != environ_contents && *(desktop - 1) != '\n')
+        desktop = strstr(desktop + 1, "DESKTOP_SESSION=");
+
+    if (!desktop)
     {
         g_free(environ_contents);
         return NULL;
-- 
2.43.0


From 03992d2129e68f72cab976884c4556adf9e9f4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:01 +0000
Subject: [PATCH 070/109] fix: a problem count of 0 was refused depending on an
 old errno

---
 lib/abrt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/abrt.c b/lib/abrt.c
index 982a44e..1af04f1 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -481,6 +481,7 @@ occurrences_from_dir(const char *directory,
 
     char *endptr = NULL;
     bool result = false;
+    errno = 0;
     const long count = strtol(count_contents, &endptr , 10);
 
     /* Check for various possible errors */
-- 
2.43.0


From b41c4137bf810c3fc5945c93a581416cf9ff06b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:01 +0000
Subject: [PATCH 071/109] fix: fields of an unusable os_info were mixed with
 os_release and leaked

---
 lib/abrt.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/abrt.c b/lib/abrt.c
index 1af04f1..1434364 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -564,6 +564,10 @@ sr_abrt_operating_system_from_dir(const char *directory,
     /* fall back to os_release if parsing os_info fails */
     if (!success)
     {
+        /* forget what the unusable os_info has filled in */
+        sr_operating_system_free(os);
+        os = sr_operating_system_new();
+
         char *release_contents = file_contents(directory, "os_release",
                                                error_message);
         if (release_contents)
-- 
2.43.0


From a3cefccf0306ff4c281965f6c185fda8cdfbb868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:01 +0000
Subject: [PATCH 072/109] fix: messages about missing optional files of a
 problem directory leaked

---
 lib/abrt.c | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/lib/abrt.c b/lib/abrt.c
index 1434364..1909e92 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -51,6 +51,17 @@ file_contents(const char *directory, const char *file, char **error_message)
     return contents;
 }
 
+/* Failing to read the file is not an error. */
+static char*
+optional_file_contents(const char *directory, const char *file)
+{
+    char *message = NULL;
+    char *contents = file_contents(directory, file, &message);
+
+    g_free(message);
+    return contents;
+}
+
 bool
 sr_abrt_print_report_from_dir(const char *directory,
                                char **error_message)
@@ -365,11 +376,9 @@ rpm_dso_list_from_dir(struct sr_rpm_package **packages,
 
 static struct sr_rpm_package *
 rpm_interpreter_from_dir(struct sr_rpm_package *packages,
-                         const char *directory,
-                         char **error_message)
+                         const char *directory)
 {
-    char *interpreter_str = file_contents(directory, "interpreter",
-                                          error_message);
+    char *interpreter_str = optional_file_contents(directory, "interpreter");
     if (interpreter_str)
     {
         struct sr_rpm_package *interpreter_package = sr_rpm_package_new();
@@ -435,16 +444,15 @@ sr_abrt_rpm_packages_from_dir(const char *directory, struct sr_rpm_package **pac
 
     /* attach interpreter as related package if exists */
     if (file_exist(directory, "interpreter"))
-        *packages = rpm_interpreter_from_dir(*packages, directory, error_message);
+        *packages = rpm_interpreter_from_dir(*packages, directory);
 
     return 0;
 }
 
 static char *
-desktop_from_dir(const char *directory,
-                    char **error_message)
+desktop_from_dir(const char *directory)
 {
-    char *environ_contents = file_contents(directory, "environ", error_message);
+    char *environ_contents = optional_file_contents(directory, "environ");
     if (!environ_contents)
         return NULL;
 
@@ -519,16 +527,15 @@ finito:
 }
 
 static char *
-get_component(const char *directory,
-              char **error_message)
+get_component(const char *directory)
 {
     if (is_packaged(directory))
-        return file_contents(directory, "component", error_message);
+        return optional_file_contents(directory, "component");
 
     /* create component from executable basename concatenated with '-unpackaged' str */
     if (file_exist(directory, "executable"))
     {
-        char *executable = file_contents(directory, "executable", error_message);
+        char *executable = optional_file_contents(directory, "executable");
         if (executable)
         {
             const char *basename = strrchr(executable, '/');
@@ -554,7 +561,7 @@ sr_abrt_operating_system_from_dir(const char *directory,
     bool success = false;
     struct sr_operating_system *os = sr_operating_system_new();
 
-    char *osinfo_contents = file_contents(directory, "os_info", error_message);
+    char *osinfo_contents = optional_file_contents(directory, "os_info");
     if (osinfo_contents)
     {
         success = sr_operating_system_parse_etc_os_release(osinfo_contents, os);
@@ -568,8 +575,7 @@ sr_abrt_operating_system_from_dir(const char *directory,
         sr_operating_system_free(os);
         os = sr_operating_system_new();
 
-        char *release_contents = file_contents(directory, "os_release",
-                                               error_message);
+        char *release_contents = optional_file_contents(directory, "os_release");
         if (release_contents)
         {
             success = sr_operating_system_parse_etc_system_release(release_contents,
@@ -594,7 +600,7 @@ sr_abrt_operating_system_from_dir(const char *directory,
     }
 
     /* optional - failure is not fatal */
-    os->desktop = desktop_from_dir(directory, error_message);
+    os->desktop = desktop_from_dir(directory);
 
     return os;
 }
@@ -627,7 +633,7 @@ sr_abrt_report_from_dir(const char *directory,
     }
 
     /* Component name. */
-    report->component_name = get_component(directory, error_message);
+    report->component_name = get_component(directory);
 
     /* RPM packages. */
     if (sr_abrt_rpm_packages_from_dir(directory, &report->rpm_packages, error_message) < 0 )
-- 
2.43.0


From 400018e36a9e52e8489605a91982584cd4c650bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:01 +0000
Subject: [PATCH 073/109] fix: leaks when a file of a kernel oops or JavaScript
 problem is missing

---
 lib/abrt.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/abrt.c b/lib/abrt.c
index 1909e92..b9c9aef 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -715,6 +715,7 @@ sr_abrt_report_from_dir(const char *directory,
         char *backtrace_contents = file_contents(directory, "backtrace", error_message);
         if (!backtrace_contents)
         {
+            g_free(kernel_contents);
             sr_report_free(report);
             return NULL;
         }
@@ -810,6 +811,7 @@ sr_abrt_report_from_dir(const char *directory,
                                                 error_message);
         if (!analyzer_contents)
         {
+            g_free(backtrace_contents);
             sr_report_free(report);
             return NULL;
         }
-- 
2.43.0


From 7760ae6450fbfbe30d892061174c571bc99614c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:35 +0000
Subject: [PATCH 074/109] fix: library list entries were misread after a short
 line and lost at the end of the file

---
 lib/abrt.c | 112 +++++++++++++++++++++--------------------------------
 1 file changed, 44 insertions(+), 68 deletions(-)

diff --git a/lib/abrt.c b/lib/abrt.c
index b9c9aef..84ade7a 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -212,6 +212,45 @@ sr_abrt_get_core_stacktrace_from_core_hook(pid_t thread_id,
     return sr_abrt_get_core_stacktrace_from_core_hook_generate(thread_id, executable, signum, state, error_message);
 }
 
+/* NULL if the line does not describe a package. */
+static struct sr_rpm_package *
+parse_dso_line(const char *line)
+{
+    // Skip dynamic library name and the space.
+    const char *pos = strchr(line, ' ');
+    if (!pos)
+        return NULL;
+
+    ++pos;
+
+    // Find the package NEVRA.
+    const char *end = strchr(pos, ' ');
+    if (!end || end - pos <= 1)
+        return NULL;
+
+    // Parse the package NEVRA.
+    char *nevra = g_strndup(pos, end - pos);
+    struct sr_rpm_package *dso_package = sr_rpm_package_new();
+    bool success = sr_rpm_package_parse_nevra(nevra,
+                                              &dso_package->name,
+                                              &dso_package->epoch,
+                                              &dso_package->version,
+                                              &dso_package->release,
+                                              &dso_package->architecture);
+
+    g_free(nevra);
+
+    // Parse the package install time.
+    pos = strrchr(end, ' ') + 1;
+    if (!success || sr_parse_uint64(&pos, &dso_package->install_time) <= 0)
+    {
+        sr_rpm_package_free(dso_package, true);
+        return NULL;
+    }
+
+    return dso_package;
+}
+
 struct sr_rpm_package *
 sr_abrt_parse_dso_list(const char *text)
 {
@@ -219,78 +258,15 @@ sr_abrt_parse_dso_list(const char *text)
     const char *pos = text;
     while (pos && *pos)
     {
-        // Skip dynamic library name.
-        pos = strchr(pos, ' ');
-
-        if (!pos)
-            continue;
-
-        // Skip the space.
-        ++pos;
-
-        // Find the package NEVRA.
-        char *end = strchr(pos, ' ');
-        if (!end || end - pos <= 1)
-        {
-            pos = strchr(pos, '\n');
-            continue;
-        }
-
-        // Parse the package NEVRA.
-        char *nevra = g_strndup(pos, end - pos);
-        struct sr_rpm_package *dso_package = sr_rpm_package_new();
-        bool success = sr_rpm_package_parse_nevra(nevra,
-                                                  &dso_package->name,
-                                                  &dso_package->epoch,
-                                                  &dso_package->version,
-                                                  &dso_package->release,
-                                                  &dso_package->architecture);
-
-        g_free(nevra);
-
-        // If parsing failed, move to the next line.
-        if (!success)
-        {
-            sr_rpm_package_free(dso_package, true);
-            pos = strchr(pos, '\n');
-            continue;
-        }
-
-        // Find the package install time.
-        char *eol = strchr(pos, '\n');
-        if (!eol)
-        {
-            sr_rpm_package_free(dso_package, true);
-            break;
-        }
-
+        const char *eol = strchrnul(pos, '\n');
         char *line = g_strndup(pos, eol - pos);
-        pos = strrchr(line, ' ');
-        if (!pos)
-        {
-            pos = eol;
-            sr_rpm_package_free(dso_package, true);
-            g_free(line);
-            continue;
-        }
+        pos = *eol ? eol + 1 : eol;
 
-        ++pos;
+        struct sr_rpm_package *dso_package = parse_dso_line(line);
+        if (dso_package)
+            packages = sr_rpm_package_append(packages, dso_package);
 
-        // Parse the package install time.
-        int len = sr_parse_uint64((const char**)&pos,
-                                  &dso_package->install_time);
         g_free(line);
-
-        if (len <= 0)
-        {
-            pos = eol;
-            sr_rpm_package_free(dso_package, true);
-            continue;
-        }
-
-        // Append the package to the list.
-        packages = sr_rpm_package_append(packages, dso_package);
-        pos = eol;
     }
 
     return packages;
-- 
2.43.0


From b1e6bfeb73a41c1be93c6bbb3749e5e6bee582b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:33 +0000
Subject: [PATCH 075/109] fix: function name of a kernel oops leaked when no
 offset follows

---
 lib/koops_frame.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/koops_frame.c b/lib/koops_frame.c
index f8d36e8..961f064 100644
--- a/lib/koops_frame.c
+++ b/lib/koops_frame.c
@@ -572,6 +572,8 @@ sr_koops_parse_function(const char **input,
     }
     else
     {
+        g_free(*function_name);
+        *function_name = NULL;
         return false;
     }
 
-- 
2.43.0


From 8f6c31d8659551e17fed8c6a3eb30545b57afcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:30 +0000
Subject: [PATCH 076/109] fix: abrt-report-dir claimed success without sending
 anything

---
 satyr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/satyr.c b/satyr.c
index 83d3ac1..c33e468 100644
--- a/satyr.c
+++ b/satyr.c
@@ -105,6 +105,7 @@ static void
 abrt_report_dir(int argc, char **argv)
 {
     fprintf(stderr, "Not implemented.\n");
+    exit(1);
 }
 
 static void
-- 
2.43.0


From 2592fbc4c46a430bda27719300f432d4305d3af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:09 +0000
Subject: [PATCH 077/109] fix: keep the frame limit for threads with signal
 handler frames

sr_core_stacktrace_from_gdb counted only ordinary frames against the limit but
dropped any frames, so a long thread with signal handler frames kept too many.
---
 lib/core_unwind.c | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/lib/core_unwind.c b/lib/core_unwind.c
index 6a5be9b..a4b591f 100644
--- a/lib/core_unwind.c
+++ b/lib/core_unwind.c
@@ -453,28 +453,26 @@ sr_core_stacktrace_from_gdb(const char *gdb_output, const char *core_file,
     {
         struct sr_core_thread *core_thread = sr_core_thread_new();
 
-        unsigned long nframes = CORE_STACKTRACE_FRAME_LIMIT;
-        struct sr_gdb_frame *top_frame = gdb_thread->frames;
+        /* Keep CORE_STACKTRACE_FRAME_LIMIT least recent frames. */
+        unsigned long nframes = 0;
         for (struct sr_gdb_frame *gdb_frame = gdb_thread->frames;
              gdb_frame;
              gdb_frame = gdb_frame->next)
         {
-            if (gdb_frame->signal_handler_called)
-                continue;
-
-            if (nframes)
-                --nframes;
-            else
-                top_frame = top_frame->next;
+            if (!gdb_frame->signal_handler_called)
+                ++nframes;
         }
 
-        for (struct sr_gdb_frame *gdb_frame = top_frame;
+        for (struct sr_gdb_frame *gdb_frame = gdb_thread->frames;
              gdb_frame;
              gdb_frame = gdb_frame->next)
         {
             if (gdb_frame->signal_handler_called)
                 continue;
 
+            if (nframes-- > CORE_STACKTRACE_FRAME_LIMIT)
+                continue;
+
             struct sr_core_frame *core_frame = resolve_frame(ch->dwfl,
                     gdb_frame->address, false);
 
-- 
2.43.0


From 8dea01245621ace30b6bdd6cf99789dd9e339f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:09 +0000
Subject: [PATCH 078/109] fix: resolve the functions of callers rather than of
 what follows them

The flag that dwfl_frame_pc returns says that the address is exact; it was taken
as a request to subtract one. The frame a thread stopped in could be attributed
to the preceding function and a caller whose last instruction is a call to the
following one. The frames listed by GDB were always taken as exact.
---
 lib/core_unwind.c          | 14 ++++++++++++--
 lib/core_unwind_elfutils.c |  7 ++++---
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/lib/core_unwind.c b/lib/core_unwind.c
index a4b591f..6fc3e31 100644
--- a/lib/core_unwind.c
+++ b/lib/core_unwind.c
@@ -294,7 +294,7 @@ resolve_frame(Dwfl *dwfl, Dwarf_Addr ip, bool minus_one)
     struct sr_core_frame *frame = sr_core_frame_new();
     frame->address = frame->build_id_offset = (uint64_t)ip;
 
-    /* see dwfl_frame_state_pc for meaning of this parameter */
+    /* The address after a call may already belong to the next function. */
     Dwarf_Addr ip_adjusted = ip - (minus_one ? 1 : 0);
 
     Dwfl_Module *mod = dwfl_addrmodule(dwfl, ip_adjusted);
@@ -453,6 +453,9 @@ sr_core_stacktrace_from_gdb(const char *gdb_output, const char *core_file,
     {
         struct sr_core_thread *core_thread = sr_core_thread_new();
 
+        /* The innermost frame and those interrupted by a signal. */
+        bool is_activation = true;
+
         /* Keep CORE_STACKTRACE_FRAME_LIMIT least recent frames. */
         unsigned long nframes = 0;
         for (struct sr_gdb_frame *gdb_frame = gdb_thread->frames;
@@ -468,13 +471,20 @@ sr_core_stacktrace_from_gdb(const char *gdb_output, const char *core_file,
              gdb_frame = gdb_frame->next)
         {
             if (gdb_frame->signal_handler_called)
+            {
+                is_activation = true;
                 continue;
+            }
+
+            /* The address of a caller follows its call instruction. */
+            bool minus_one = !is_activation;
+            is_activation = false;
 
             if (nframes-- > CORE_STACKTRACE_FRAME_LIMIT)
                 continue;
 
             struct sr_core_frame *core_frame = resolve_frame(ch->dwfl,
-                    gdb_frame->address, false);
+                    gdb_frame->address, minus_one);
 
             core_thread->frames = sr_core_frame_append(core_thread->frames,
                     core_frame);
diff --git a/lib/core_unwind_elfutils.c b/lib/core_unwind_elfutils.c
index 67841cd..5a6bef5 100644
--- a/lib/core_unwind_elfutils.c
+++ b/lib/core_unwind_elfutils.c
@@ -61,15 +61,16 @@ frame_callback(Dwfl_Frame *frame, void *data)
     char **error_msg = &frame_arg->error_msg;
 
     Dwarf_Addr pc;
-    bool minus_one;
-    if (!dwfl_frame_pc(frame, &pc, &minus_one))
+    bool is_activation;
+    if (!dwfl_frame_pc(frame, &pc, &is_activation))
     {
         set_error_dwfl("dwfl_frame_pc");
         return DWARF_CB_ABORT;
     }
 
     Dwfl *dwfl = dwfl_thread_dwfl(dwfl_frame_thread(frame));
-    struct sr_core_frame *result = resolve_frame(dwfl, pc, minus_one);
+    /* The address of a caller follows its call instruction. */
+    struct sr_core_frame *result = resolve_frame(dwfl, pc, !is_activation);
 
     /* Do not unwind below __libc_start_main. */
     if (0 == g_strcmp0(result->function_name, "__libc_start_main"))
-- 
2.43.0


From 3f133eee7e66094a5cc6cd0a28093e6e5af473fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:09 +0000
Subject: [PATCH 079/109] fix: read the prstatus note without assuming its
 alignment

---
 lib/core_unwind.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/core_unwind.c b/lib/core_unwind.c
index 6fc3e31..b40074b 100644
--- a/lib/core_unwind.c
+++ b/lib/core_unwind.c
@@ -410,8 +410,10 @@ get_signal_number(Elf *e, const char *elf_file)
                 continue;
             }
 
-            struct elf_prstatus *prstatus = (struct elf_prstatus*)desc_data->d_buf;
-            short signal = prstatus->pr_cursig;
+            /* The note need not be aligned in the file. */
+            struct elf_prstatus prstatus;
+            memcpy(&prstatus, desc_data->d_buf, sizeof(prstatus));
+            short signal = prstatus.pr_cursig;
             if (signal)
                 return signal;
         }
-- 
2.43.0


From 8a796fc84c0103796e908cb1f12cfabbacbf28da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:24 +0000
Subject: [PATCH 080/109] fix: no stack trace when the process cannot be
 attached to

sr_core_stacktrace_from_core_hook_generate returned a trace without frames,
executable and signal together with an error message.
---
 lib/core_unwind_elfutils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/core_unwind_elfutils.c b/lib/core_unwind_elfutils.c
index 5a6bef5..f3678bf 100644
--- a/lib/core_unwind_elfutils.c
+++ b/lib/core_unwind_elfutils.c
@@ -332,6 +332,8 @@ sr_core_stacktrace_from_core_hook_generate(pid_t tid,
     if (dwfl_linux_proc_attach(state->dwfl, tid, true) != 0)
     {
         set_error_dwfl("dwfl_linux_proc_attach");
+        sr_core_stacktrace_free(stacktrace);
+        stacktrace = NULL;
         goto fail;
     }
 
-- 
2.43.0


From fbf09b3fb8c0e6986839896f93ca2f8d91d8877e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:35 +0000
Subject: [PATCH 081/109] fix: unwinding of a damaged stack may never end

Frames that refer to themselves were unwound until memory was exhausted. Stop
after more frames than fit into a stack and keep only those that are returned.
---
 lib/core_unwind_elfutils.c | 45 ++++++++++++++++++++++----------------
 lib/internal_unwind.h      |  5 +++++
 2 files changed, 31 insertions(+), 19 deletions(-)

diff --git a/lib/core_unwind_elfutils.c b/lib/core_unwind_elfutils.c
index f3678bf..88eb233 100644
--- a/lib/core_unwind_elfutils.c
+++ b/lib/core_unwind_elfutils.c
@@ -36,9 +36,11 @@
 
 struct frame_callback_arg
 {
+    struct sr_core_thread *thread;
     struct sr_core_frame **frames_tail;
     char *error_msg;
     unsigned nframes;
+    unsigned nunwound;
 };
 
 struct thread_callback_arg
@@ -54,12 +56,29 @@ struct sr_core_stracetrace_unwind_state {
 
 static const int CB_STOP_UNWIND = DWARF_CB_ABORT+1;
 
+static void
+truncate_long_thread(struct sr_core_thread *thread, struct frame_callback_arg *frame_arg)
+{
+    /* Truncate the stacktrace to CORE_STACKTRACE_FRAME_LIMIT least recent frames. */
+    while (thread->frames && frame_arg->nframes > CORE_STACKTRACE_FRAME_LIMIT)
+    {
+        struct sr_core_frame *old_frame = thread->frames;
+        thread->frames = old_frame->next;
+        sr_core_frame_free(old_frame);
+        frame_arg->nframes--;
+    }
+}
+
 static int
 frame_callback(Dwfl_Frame *frame, void *data)
 {
     struct frame_callback_arg *frame_arg = data;
     char **error_msg = &frame_arg->error_msg;
 
+    /* The frames of a damaged stack may repeat forever. */
+    if (frame_arg->nunwound++ >= CORE_STACKTRACE_UNWIND_LIMIT)
+        return CB_STOP_UNWIND;
+
     Dwarf_Addr pc;
     bool is_activation;
     if (!dwfl_frame_pc(frame, &pc, &is_activation))
@@ -82,23 +101,11 @@ frame_callback(Dwfl_Frame *frame, void *data)
     *frame_arg->frames_tail = result;
     frame_arg->frames_tail = &result->next;
     frame_arg->nframes++;
+    truncate_long_thread(frame_arg->thread, frame_arg);
 
     return DWARF_CB_OK;
 }
 
-static void
-truncate_long_thread(struct sr_core_thread *thread, struct frame_callback_arg *frame_arg)
-{
-    /* Truncate the stacktrace to CORE_STACKTRACE_FRAME_LIMIT least recent frames. */
-    while (thread->frames && frame_arg->nframes > CORE_STACKTRACE_FRAME_LIMIT)
-    {
-        struct sr_core_frame *old_frame = thread->frames;
-        thread->frames = old_frame->next;
-        sr_core_frame_free(old_frame);
-        frame_arg->nframes--;
-    }
-}
-
 static int
 unwind_thread(Dwfl_Thread *thread, void *data)
 {
@@ -115,9 +122,11 @@ unwind_thread(Dwfl_Thread *thread, void *data)
 
     struct frame_callback_arg frame_arg =
     {
+        .thread = result,
         .frames_tail = &(result->frames),
         .error_msg = NULL,
-        .nframes = 0
+        .nframes = 0,
+        .nunwound = 0
     };
 
     int ret = dwfl_thread_getframes(thread, frame_callback, &frame_arg);
@@ -143,8 +152,6 @@ unwind_thread(Dwfl_Thread *thread, void *data)
         goto abort;
     }
 
-    truncate_long_thread(result, &frame_arg);
-
     *thread_arg->threads_tail = result;
     thread_arg->threads_tail = &result->next;
 
@@ -339,9 +346,11 @@ sr_core_stacktrace_from_core_hook_generate(pid_t tid,
 
     struct frame_callback_arg frame_arg =
     {
+        .thread = stacktrace->threads,
         .frames_tail = &(stacktrace->threads->frames),
         .error_msg = NULL,
-        .nframes = 0
+        .nframes = 0,
+        .nunwound = 0
     };
 
     int ret = dwfl_getthread_frames(state->dwfl, tid, frame_callback, &frame_arg);
@@ -362,8 +371,6 @@ sr_core_stacktrace_from_core_hook_generate(pid_t tid,
         goto fail;
     }
 
-    truncate_long_thread(stacktrace->threads, &frame_arg);
-
     if (executable)
         stacktrace->executable = g_strdup(executable);
     if (signum > 0)
diff --git a/lib/internal_unwind.h b/lib/internal_unwind.h
index b1b9544..59ce26b 100644
--- a/lib/internal_unwind.h
+++ b/lib/internal_unwind.h
@@ -62,6 +62,11 @@ _set_error(char **error_msg, const char *fmt, ...) __sr_printf(2, 3);
  */
 #define CORE_STACKTRACE_FRAME_LIMIT 256
 
+/* Unwinding of a thread stops after this many frames. More calls than these do
+ * not fit into a stack of usual size (8 MiB).
+ */
+#define CORE_STACKTRACE_UNWIND_LIMIT (1 << 19)
+
 struct exe_mapping_data
 {
     uint64_t start;
-- 
2.43.0


From 35a5da918d28e0df6224e6804f2f4561256671df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:29 +0000
Subject: [PATCH 082/109] fix: gdb: recognise operators -- and -= as a whole

The minus alone was matched first.
---
 lib/gdb_frame.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/gdb_frame.c b/lib/gdb_frame.c
index 6e1ccd1..7a6d972 100644
--- a/lib/gdb_frame.c
+++ b/lib/gdb_frame.c
@@ -403,12 +403,11 @@ sr_gdb_frame_parseadd_operator(const char **input,
 
     OP(">>=")OP(">>")OP(">=")OP(">");
     OP("<<=")OP("<<")OP("<=")OP("<");
-    OP("->*")OP("->")OP("-");
+    OP("->*")OP("->")OP("--")OP("-=")OP("-");
     OP("==")OP("=");
     OP("&&")OP("&=")OP("&");
     OP("||")OP("|=")OP("|");
     OP("++")OP("+=")OP("+");
-    OP("--")OP("-=")OP("-");
     OP("/=")OP("/");
     OP("*=")OP("*");
     OP("%=")OP("%");
-- 
2.43.0


From 63711282fe44d3692e0580426a91c011875f1a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:23 +0000
Subject: [PATCH 083/109] fix: python: keep the C lists in step with emptied
 ones

An emptied list of threads, frames or shared libraries left the freed objects in
the C structure, as did the removal of the crash thread of a core stacktrace.
An item of a wrong type released another reference than its own.
---
 python/py_base_stacktrace.c | 28 +++++++++++++++++++++++++++-
 python/py_base_thread.c     |  9 +++++++++
 python/py_gdb_stacktrace.c  | 11 ++++++++++-
 3 files changed, 46 insertions(+), 2 deletions(-)

diff --git a/python/py_base_stacktrace.c b/python/py_base_stacktrace.c
index a2f60ad..e6afac6 100644
--- a/python/py_base_stacktrace.c
+++ b/python/py_base_stacktrace.c
@@ -22,6 +22,8 @@
 #include "py_base_stacktrace.h"
 
 #include "stacktrace.h"
+#include "core/stacktrace.h"
+#include "core/thread.h"
 #include "thread.h"
 
 #define single_stacktrace_doc "satyr.SingleThreadStacktrace - base class for stacktrace with single thread"
@@ -185,6 +187,15 @@ threads_prepare_linked_list(struct sr_py_multi_stacktrace *stacktrace)
     PyObject *item;
     struct sr_py_base_thread *current = NULL, *prev = NULL;
 
+    if (!stacktrace->threads || !PyList_Check(stacktrace->threads))
+    {
+        PyErr_SetString(PyExc_TypeError, "Attribute 'threads' is not a list.");
+        return -1;
+    }
+
+    /* The list may be empty. */
+    sr_stacktrace_set_threads(stacktrace->stacktrace, NULL);
+
     for (i = 0; i < PyList_Size(stacktrace->threads); ++i)
     {
         item = PyList_GetItem(stacktrace->threads, i);
@@ -194,7 +205,7 @@ threads_prepare_linked_list(struct sr_py_multi_stacktrace *stacktrace)
         Py_INCREF(item);
         if (!PyObject_TypeCheck(item, stacktrace->thread_type))
         {
-            Py_XDECREF(current);
+            Py_DECREF(item);
             Py_XDECREF(prev);
             PyErr_Format(PyExc_TypeError,
                          "threads must be a list of %s objects",
@@ -205,7 +216,11 @@ threads_prepare_linked_list(struct sr_py_multi_stacktrace *stacktrace)
         /* Note: this line is not present in frames_prepare_linked_list. */
         current = (struct sr_py_base_thread*)item;
         if (frames_prepare_linked_list(current) < 0)
+        {
+            Py_DECREF(item);
+            Py_XDECREF(prev);
             return -1;
+        }
 
         if (i == 0)
             sr_stacktrace_set_threads(stacktrace->stacktrace, current->thread);
@@ -222,6 +237,17 @@ threads_prepare_linked_list(struct sr_py_multi_stacktrace *stacktrace)
         Py_XDECREF(current);
     }
 
+    /* The crash thread may have been removed from the list. */
+    if (stacktrace->stacktrace->type == SR_REPORT_CORE)
+    {
+        struct sr_core_stacktrace *core = (struct sr_core_stacktrace *)stacktrace->stacktrace;
+        struct sr_core_thread *thread = core->threads;
+        while (thread && thread != core->crash_thread)
+            thread = thread->next;
+
+        core->crash_thread = thread;
+    }
+
     return 0;
 }
 
diff --git a/python/py_base_thread.c b/python/py_base_thread.c
index a61348d..ba80150 100644
--- a/python/py_base_thread.c
+++ b/python/py_base_thread.c
@@ -119,6 +119,15 @@ frames_prepare_linked_list(struct sr_py_base_thread *thread)
     PyObject *item;
     struct sr_py_base_frame *current = NULL, *prev = NULL;
 
+    if (!thread->frames || !PyList_Check(thread->frames))
+    {
+        PyErr_SetString(PyExc_TypeError, "Attribute 'frames' is not a list.");
+        return -1;
+    }
+
+    /* The list may be empty. */
+    sr_thread_set_frames(thread->thread, NULL);
+
     for (i = 0; i < PyList_Size(thread->frames); ++i)
     {
         item = PyList_GetItem(thread->frames, i);
diff --git a/python/py_gdb_stacktrace.c b/python/py_gdb_stacktrace.c
index 35d9d65..d703ff7 100644
--- a/python/py_gdb_stacktrace.c
+++ b/python/py_gdb_stacktrace.c
@@ -148,6 +148,15 @@ gdb_prepare_linked_lists(struct sr_py_gdb_stacktrace *stacktrace)
     int i;
     PyObject *item;
     struct sr_py_gdb_sharedlib *currentlib = NULL, *prevlib = NULL;
+
+    if (!stacktrace->libs || !PyList_Check(stacktrace->libs))
+    {
+        PyErr_SetString(PyExc_TypeError, "Attribute 'libs' is not a list.");
+        return -1;
+    }
+
+    /* The list may be empty. */
+    stacktrace->stacktrace->libs = NULL;
     for (i = 0; i < PyList_Size(stacktrace->libs); ++i)
     {
         item = PyList_GetItem(stacktrace->libs, i);
@@ -157,7 +166,7 @@ gdb_prepare_linked_lists(struct sr_py_gdb_stacktrace *stacktrace)
         Py_INCREF(item);
         if (!PyObject_TypeCheck(item, &sr_py_gdb_sharedlib_type))
         {
-            Py_XDECREF(currentlib);
+            Py_DECREF(item);
             Py_XDECREF(prevlib);
             PyErr_SetString(PyExc_TypeError,
                             "libs must be a list of satyr.Sharedlib objects");
-- 
2.43.0


From 319a163e57b61e8a3c5a75aad1a8543081eae14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:30 +0000
Subject: [PATCH 084/109] fix: python: objects of the gdb stacktrace own what
 they use

The crash frame was shared between the stacktrace and its caller with a single
reference, and copied as if it were a thread. Limiting the depth freed frames
that Python objects still own, threads were replaced by copies for no reason
(failing when there are none), and find_address refused the upper half of the
addresses.
---
 python/py_gdb_stacktrace.c | 102 +++++++++++++++++--------------------
 1 file changed, 48 insertions(+), 54 deletions(-)

diff --git a/python/py_gdb_stacktrace.c b/python/py_gdb_stacktrace.c
index d703ff7..b95291e 100644
--- a/python/py_gdb_stacktrace.c
+++ b/python/py_gdb_stacktrace.c
@@ -251,33 +251,18 @@ sharedlib_linked_list_to_python_list(struct sr_gdb_stacktrace *stacktrace)
  * such methods? Shouldn't we do a copy of the linked list *before* we call the
  * C function on it?
  */
-int
-stacktrace_rebuild_thread_python_list(struct sr_py_gdb_stacktrace *stacktrace)
+static int
+replace_threads(struct sr_py_gdb_stacktrace *stacktrace, struct sr_gdb_stacktrace *changed_copy)
 {
-    struct sr_gdb_thread *newlinkedlist = sr_gdb_thread_dup(stacktrace->stacktrace->threads, true);
-    if (!newlinkedlist)
+    PyObject *threads = thread_linked_list_to_python_list(changed_copy);
+    if (!threads)
         return -1;
 
     /* the list will decref all of its elements */
     Py_DECREF(stacktrace->threads);
-
-    stacktrace->stacktrace->threads = newlinkedlist;
-    stacktrace->threads = threads_to_python_list((struct sr_stacktrace *)stacktrace->stacktrace,
-                                                 &sr_py_gdb_thread_type, &sr_py_gdb_frame_type);
-    return 0;
-}
-
-int
-stacktrace_rebuild_sharedlib_python_list(struct sr_py_gdb_stacktrace *stacktrace)
-{
-    struct sr_gdb_sharedlib *newlinkedlist = sr_gdb_sharedlib_dup(stacktrace->stacktrace->libs, true);
-    if (!newlinkedlist)
-        return -1;
-
-    /* the list will decref all of its elements */
-    Py_DECREF(stacktrace->libs);
-    stacktrace->stacktrace->libs = newlinkedlist;
-    stacktrace->libs = sharedlib_linked_list_to_python_list(stacktrace->stacktrace);
+    stacktrace->threads = threads;
+    stacktrace->stacktrace->threads = changed_copy->threads;
+    changed_copy->threads = NULL;
     return 0;
 }
 
@@ -300,6 +285,7 @@ sr_py_gdb_stacktrace_new(PyTypeObject *object,
 
     bo->thread_type = &sr_py_gdb_thread_type;
     bo->frame_type = &sr_py_gdb_frame_type;
+    Py_INCREF(Py_None);
     bo->crashframe = (struct sr_py_gdb_frame*)Py_None;
     if (str)
     {
@@ -335,8 +321,9 @@ sr_py_gdb_stacktrace_free(PyObject *object)
 {
     struct sr_py_gdb_stacktrace *this = (struct sr_py_gdb_stacktrace*)object;
     /* the list will decref all of its elements */
-    Py_DECREF(this->threads);
-    Py_DECREF(this->libs);
+    Py_XDECREF(this->threads);
+    Py_XDECREF(this->libs);
+    Py_XDECREF(this->crashframe);
     this->stacktrace->threads = NULL;
     this->stacktrace->libs = NULL;
     sr_gdb_stacktrace_free(this->stacktrace);
@@ -386,14 +373,17 @@ sr_py_gdb_stacktrace_dup(PyObject *self, PyObject *args)
     if (!bo->libs)
         return NULL;
 
-    if (PyObject_TypeCheck(this->crashframe, &sr_py_gdb_frame_type))
+    if (this->crashframe && PyObject_TypeCheck(this->crashframe, &sr_py_gdb_frame_type))
     {
-        bo->crashframe = (struct sr_py_gdb_frame*)sr_py_gdb_thread_dup((PyObject*)this->crashframe, PyTuple_New(0));
+        bo->crashframe = (struct sr_py_gdb_frame*)sr_py_gdb_frame_dup((PyObject*)this->crashframe, NULL);
         if (!bo->crashframe)
             return NULL;
     }
     else
+    {
+        Py_INCREF(Py_None);
         bo->crashframe = (struct sr_py_gdb_frame*)Py_None;
+    }
 
     return (PyObject*)bo;
 }
@@ -405,7 +395,7 @@ sr_py_gdb_stacktrace_find_crash_frame(PyObject *self, PyObject *args)
     if (gdb_prepare_linked_lists(this) < 0)
         return NULL;
 
-    /* destroys linked list - need to rebuild python list */
+    /* does not destroy the linked list */
     struct sr_gdb_frame *frame = sr_gdb_stacktrace_get_crash_frame(this->stacktrace);
     if (!frame)
     {
@@ -423,14 +413,11 @@ sr_py_gdb_stacktrace_find_crash_frame(PyObject *self, PyObject *args)
     }
 
     result->frame = frame;
-    this->crashframe = result;
 
-    if (stacktrace_rebuild_thread_python_list(this) < 0)
-    {
-        sr_gdb_frame_free(frame);
-        Py_DECREF(result);
-        return NULL;
-    }
+    PyObject *previous = (PyObject *)this->crashframe;
+    Py_INCREF(result);
+    this->crashframe = result;
+    Py_XDECREF(previous);
 
     return (PyObject *)result;
 }
@@ -446,9 +433,18 @@ sr_py_gdb_stacktrace_limit_frame_depth(PyObject *self, PyObject *args)
     if (!PyArg_ParseTuple(args, "i", &depth))
         return NULL;
 
-    /* destroys linked list - need to rebuild python list */
-    sr_gdb_stacktrace_limit_frame_depth(this->stacktrace, depth);
-    if (stacktrace_rebuild_thread_python_list(this) < 0)
+    if (depth <= 0)
+    {
+        PyErr_SetString(PyExc_ValueError, "Depth must be positive.");
+        return NULL;
+    }
+
+    /* frees frames that belong to python objects - need to work on a copy */
+    struct sr_gdb_stacktrace *tmp = sr_gdb_stacktrace_dup(this->stacktrace);
+    sr_gdb_stacktrace_limit_frame_depth(tmp, depth);
+    int result = replace_threads(this, tmp);
+    sr_gdb_stacktrace_free(tmp);
+    if (result < 0)
         return NULL;
 
     Py_RETURN_NONE;
@@ -485,8 +481,12 @@ sr_py_gdb_stacktrace_find_address(PyObject *self, PyObject *args)
     if (gdb_prepare_linked_lists(this) < 0)
         return NULL;
 
-    unsigned long long address;
-    if (!PyArg_ParseTuple(args, "l", &address))
+    PyObject *number;
+    if (!PyArg_ParseTuple(args, "O!", &PyLong_Type, &number))
+        return NULL;
+
+    unsigned long long address = PyLong_AsUnsignedLongLong(number);
+    if (PyErr_Occurred())
         return NULL;
 
     if (address == (unsigned long long) -1)
@@ -520,8 +520,6 @@ sr_py_gdb_stacktrace_set_libnames(PyObject *self, PyObject *args)
 
     /* does not destroy the linked list */
     sr_gdb_stacktrace_set_libnames(this->stacktrace);
-    if (stacktrace_rebuild_thread_python_list(this) < 0)
-        return NULL;
 
     Py_RETURN_NONE;
 }
@@ -537,18 +535,17 @@ sr_py_gdb_stacktrace_normalize(PyObject *self, PyObject *args)
     /* need to rebuild python list manually */
     struct sr_gdb_stacktrace *tmp = sr_gdb_stacktrace_dup(this->stacktrace);
     sr_normalize_gdb_stacktrace(tmp);
-    /* the list will decref all of its elements */
-    Py_DECREF(this->threads);
 
-    this->stacktrace->threads = tmp->threads;
-    this->stacktrace->crash = tmp->crash;
-    this->stacktrace->crash_tid = tmp->crash_tid;
-    tmp->threads = NULL;
-    tmp->crash = NULL;
+    int result = replace_threads(this, tmp);
+    if (result == 0)
+    {
+        struct sr_gdb_frame *crash = this->stacktrace->crash;
+        this->stacktrace->crash = tmp->crash;
+        this->stacktrace->crash_tid = tmp->crash_tid;
+        tmp->crash = crash;
+    }
     sr_gdb_stacktrace_free(tmp);
-
-    this->threads = thread_linked_list_to_python_list(this->stacktrace);
-    if (!this->threads)
+    if (result < 0)
         return NULL;
 
     Py_RETURN_NONE;
@@ -573,9 +570,6 @@ sr_py_gdb_stacktrace_to_short_text(PyObject *self, PyObject *args)
         return NULL;
     }
 
-    if (stacktrace_rebuild_thread_python_list(this) < 0)
-        return NULL;
-
     PyObject *result = PyString_FromString(text);
 
     g_free(text);
-- 
2.43.0


From 531a85058a0f2e7247b28d54c66cc5806f0b7acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:20 +0000
Subject: [PATCH 085/109] fix: python: write the stacktrace of a report as it
 is now

Edits of the lists of frames and threads were not written and freed objects
were, an emptied list of packages still referred to freed ones, and the
stacktraces of JavaScript reports were lost.
---
 python/py_report.c | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/python/py_report.c b/python/py_report.c
index e2286ae..16bdd99 100644
--- a/python/py_report.c
+++ b/python/py_report.c
@@ -29,6 +29,7 @@
 #include "py_koops_stacktrace.h"
 #include "py_java_stacktrace.h"
 #include "py_ruby_stacktrace.h"
+#include "py_js_stacktrace.h"
 
 #include "report.h"
 #include "operating_system.h"
@@ -169,7 +170,7 @@ rpms_to_python_list(struct sr_rpm_package *rpm)
 int
 rpms_prepare_linked_list(struct sr_py_report *report)
 {
-    if (!PyList_Check(report->packages))
+    if (!report->packages || !PyList_Check(report->packages))
     {
         PyErr_SetString(PyExc_TypeError, "Attribute 'packages' is not a list.");
         return -1;
@@ -179,6 +180,9 @@ rpms_prepare_linked_list(struct sr_py_report *report)
     PyObject *item;
     struct sr_py_rpm_package *current = NULL, *prev = NULL;
 
+    /* The list may be empty. */
+    report->report->rpm_packages = NULL;
+
     for (i = 0; i < PyList_Size(report->packages); ++i)
     {
         item = PyList_GetItem(report->packages, i);
@@ -225,11 +229,17 @@ stacktrace_prepare(struct sr_py_report *report, PyTypeObject *type, bool multi_t
 
     if (multi_thread)
     {
+        if (threads_prepare_linked_list((struct sr_py_multi_stacktrace *)report->stacktrace) < 0)
+            return -1;
+
         report->report->stacktrace =
             ((struct sr_py_multi_stacktrace *)report->stacktrace)->stacktrace;
     }
     else
     {
+        if (frames_prepare_linked_list((struct sr_py_base_thread *)report->stacktrace) < 0)
+            return -1;
+
         report->report->stacktrace =
             (struct sr_stacktrace *)((struct sr_py_base_thread *)report->stacktrace)->thread;
     }
@@ -245,7 +255,7 @@ report_prepare_subobjects(struct sr_py_report *report)
         return -1;
 
     /* operating_system */
-    if (report->operating_system == Py_None)
+    if (!report->operating_system || report->operating_system == Py_None)
     {
         report->report->operating_system = NULL;
     }
@@ -262,7 +272,7 @@ report_prepare_subobjects(struct sr_py_report *report)
     }
 
     /* stacktrace */
-    if (report->stacktrace == Py_None)
+    if (!report->stacktrace || report->stacktrace == Py_None)
     {
         report->report->stacktrace = NULL;
     }
@@ -290,6 +300,10 @@ report_prepare_subobjects(struct sr_py_report *report)
             if (stacktrace_prepare(report, &sr_py_ruby_stacktrace_type, false) < 0)
                 return -1;
             break;
+        case SR_REPORT_JAVASCRIPT:
+            if (stacktrace_prepare(report, &sr_py_js_stacktrace_type, false) < 0)
+                return -1;
+            break;
         default:
             report->report->stacktrace = NULL;
             break;
@@ -357,6 +371,10 @@ report_to_python_obj(struct sr_report *report)
             ro->stacktrace = ruby_stacktrace_to_python_obj(
                     (struct sr_ruby_stacktrace *)report->stacktrace);
             break;
+        case SR_REPORT_JAVASCRIPT:
+            ro->stacktrace = js_stacktrace_to_python_obj(
+                    (struct sr_js_stacktrace *)report->stacktrace);
+            break;
         default:
             Py_INCREF(Py_None);
             ro->stacktrace = Py_None;
@@ -414,9 +432,9 @@ sr_py_report_free(PyObject *object)
     /* python will free the subordinate objects once their refcount reaches zero */
     /* XXX: is this correct wrt the warning on
      * http://docs.python.org/2.7/c-api/refcounting.html?highlight=py_decref#Py_DECREF ? */
-    Py_DECREF(this->packages);
-    Py_DECREF(this->operating_system);
-    Py_DECREF(this->stacktrace);
+    Py_XDECREF(this->packages);
+    Py_XDECREF(this->operating_system);
+    Py_XDECREF(this->stacktrace);
 
     /* if there was no other reference, these structs are free'd by now */
     this->report->rpm_packages = NULL;
-- 
2.43.0


From 283cfbf6f12cb505370da99a43f8282db0720380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:20 +0000
Subject: [PATCH 086/109] fix: python: setting the reporter name freed a string
 constant

---
 python/py_report.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/py_report.c b/python/py_report.c
index 16bdd99..ec27b09 100644
--- a/python/py_report.c
+++ b/python/py_report.c
@@ -323,6 +323,10 @@ report_to_python_obj(struct sr_report *report)
 
     ro->report = report;
 
+    /* the default values are not allocated, but the attributes can be set */
+    report->reporter_name = g_strdup(report->reporter_name);
+    report->reporter_version = g_strdup(report->reporter_version);
+
     /* wrap operating system in a python object */
     if (report->operating_system)
     {
@@ -441,6 +445,8 @@ sr_py_report_free(PyObject *object)
     this->report->operating_system = NULL;
     this->report->stacktrace = NULL;
 
+    g_free(this->report->reporter_name);
+    g_free(this->report->reporter_version);
     sr_report_free(this->report);
     PyObject_Del(object);
 }
-- 
2.43.0


From 98095e3de269aa7e5617985dc3267779a1a3eaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:20 +0000
Subject: [PATCH 087/109] fix: python: the epoch of RpmPackage() was not
 initialised

---
 python/py_rpm_package.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/py_rpm_package.c b/python/py_rpm_package.c
index 3bd907a..87a6791 100644
--- a/python/py_rpm_package.c
+++ b/python/py_rpm_package.c
@@ -122,7 +122,7 @@ sr_py_rpm_package_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 
     rpm->rpm_package = sr_rpm_package_new();
 
-    unsigned int epoch;
+    unsigned int epoch = 0;
     const char *name = NULL, *version = NULL, *rel = NULL, *arch = NULL;
     if (!PyArg_ParseTuple(args, "|sIsss", &name, &epoch, &version, &rel, &arch))
         return NULL;
-- 
2.43.0


From 5c4eeb4198615346554c07ebf1cb5129c6a2a2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:33 +0000
Subject: [PATCH 088/109] fix: python: format_funs of a thread with changed
 frames

The frames were not those of the list, and the text was never released.
---
 python/py_gdb_thread.c  | 9 ++++++++-
 python/py_java_thread.c | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/python/py_gdb_thread.c b/python/py_gdb_thread.c
index 6201738..97d9879 100644
--- a/python/py_gdb_thread.c
+++ b/python/py_gdb_thread.c
@@ -231,5 +231,12 @@ sr_py_gdb_thread_quality(PyObject *self, PyObject *args)
 PyObject *
 sr_py_gdb_thread_format_funs(PyObject *self, PyObject *args)
 {
-    return Py_BuildValue("s", sr_gdb_thread_format_funs(((struct sr_py_gdb_thread *)self)->thread));
+    struct sr_py_gdb_thread *this = (struct sr_py_gdb_thread *)self;
+    if (frames_prepare_linked_list((struct sr_py_base_thread *)this) < 0)
+        return NULL;
+
+    char *funs = sr_gdb_thread_format_funs(this->thread);
+    PyObject *result = PyString_FromString(funs);
+    g_free(funs);
+    return result;
 }
diff --git a/python/py_java_thread.c b/python/py_java_thread.c
index 99d44f7..3f8e69b 100644
--- a/python/py_java_thread.c
+++ b/python/py_java_thread.c
@@ -222,5 +222,12 @@ sr_py_java_thread_quality(PyObject *self, PyObject *args)
 PyObject *
 sr_py_java_thread_format_funs(PyObject *self, PyObject *args)
 {
-    return Py_BuildValue("s", sr_java_thread_format_funs(((struct sr_py_java_thread *)self)->thread));
+    struct sr_py_java_thread *this = (struct sr_py_java_thread *)self;
+    if (frames_prepare_linked_list((struct sr_py_base_thread *)this) < 0)
+        return NULL;
+
+    char *funs = sr_java_thread_format_funs(this->thread);
+    PyObject *result = PyString_FromString(funs);
+    g_free(funs);
+    return result;
 }
-- 
2.43.0


From 2e04c2c3237d1edd988840829f05147dd8a27014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:39 +0000
Subject: [PATCH 089/109] fix: python: a deleted list attribute crashed when
 the object was released

---
 python/py_core_stacktrace.c   | 2 +-
 python/py_core_thread.c       | 2 +-
 python/py_gdb_thread.c        | 2 +-
 python/py_java_stacktrace.c   | 2 +-
 python/py_java_thread.c       | 2 +-
 python/py_js_stacktrace.c     | 2 +-
 python/py_koops_stacktrace.c  | 2 +-
 python/py_python_stacktrace.c | 2 +-
 python/py_ruby_stacktrace.c   | 2 +-
 9 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/python/py_core_stacktrace.c b/python/py_core_stacktrace.c
index 1feea4c..4eada74 100644
--- a/python/py_core_stacktrace.c
+++ b/python/py_core_stacktrace.c
@@ -167,7 +167,7 @@ sr_py_core_stacktrace_free(PyObject *object)
 {
     struct sr_py_core_stacktrace *this = (struct sr_py_core_stacktrace*)object;
     /* the list will decref all of its elements */
-    Py_DECREF(this->threads);
+    Py_XDECREF(this->threads);
     this->stacktrace->threads = NULL;
     sr_core_stacktrace_free(this->stacktrace);
     PyObject_Del(object);
diff --git a/python/py_core_thread.c b/python/py_core_thread.c
index f583f22..1a73677 100644
--- a/python/py_core_thread.c
+++ b/python/py_core_thread.c
@@ -114,7 +114,7 @@ sr_py_core_thread_free(PyObject *object)
 {
     struct sr_py_core_thread *this = (struct sr_py_core_thread *)object;
     /* the list will decref all of its elements */
-    Py_DECREF(this->frames);
+    Py_XDECREF(this->frames);
     this->thread->frames = NULL;
     sr_core_thread_free(this->thread);
     PyObject_Del(object);
diff --git a/python/py_gdb_thread.c b/python/py_gdb_thread.c
index 97d9879..2c8fee5 100644
--- a/python/py_gdb_thread.c
+++ b/python/py_gdb_thread.c
@@ -160,7 +160,7 @@ sr_py_gdb_thread_free(PyObject *object)
 {
     struct sr_py_gdb_thread *this = (struct sr_py_gdb_thread *)object;
     /* the list will decref all of its elements */
-    Py_DECREF(this->frames);
+    Py_XDECREF(this->frames);
     this->thread->frames = NULL;
     sr_gdb_thread_free(this->thread);
     PyObject_Del(object);
diff --git a/python/py_java_stacktrace.c b/python/py_java_stacktrace.c
index aef1689..eb5db5d 100644
--- a/python/py_java_stacktrace.c
+++ b/python/py_java_stacktrace.c
@@ -129,7 +129,7 @@ sr_py_java_stacktrace_free(PyObject *object)
 {
     struct sr_py_java_stacktrace *this = (struct sr_py_java_stacktrace*)object;
     /* the list will decref all of its elements */
-    Py_DECREF(this->threads);
+    Py_XDECREF(this->threads);
     this->stacktrace->threads = NULL;
     sr_java_stacktrace_free(this->stacktrace);
     PyObject_Del(object);
diff --git a/python/py_java_thread.c b/python/py_java_thread.c
index 3f8e69b..fa3a8e8 100644
--- a/python/py_java_thread.c
+++ b/python/py_java_thread.c
@@ -151,7 +151,7 @@ sr_py_java_thread_free(PyObject *object)
 {
     struct sr_py_java_thread *this = (struct sr_py_java_thread *)object;
     /* the list will decref all of its elements */
-    Py_DECREF(this->frames);
+    Py_XDECREF(this->frames);
     this->thread->frames = NULL;
     sr_java_thread_free(this->thread);
     PyObject_Del(object);
diff --git a/python/py_js_stacktrace.c b/python/py_js_stacktrace.c
index 5027dcf..15f9ece 100644
--- a/python/py_js_stacktrace.c
+++ b/python/py_js_stacktrace.c
@@ -164,7 +164,7 @@ sr_py_js_stacktrace_free(PyObject *object)
 {
     struct sr_py_js_stacktrace *this = (struct sr_py_js_stacktrace*)object;
     /* the list will decref all of its elements */
-    Py_DECREF(this->frames);
+    Py_XDECREF(this->frames);
     this->stacktrace->frames = NULL;
     sr_js_stacktrace_free(this->stacktrace);
     PyObject_Del(object);
diff --git a/python/py_koops_stacktrace.c b/python/py_koops_stacktrace.c
index 0faa5a7..96ff720 100644
--- a/python/py_koops_stacktrace.c
+++ b/python/py_koops_stacktrace.c
@@ -206,7 +206,7 @@ sr_py_koops_stacktrace_free(PyObject *object)
 {
     struct sr_py_koops_stacktrace *this = (struct sr_py_koops_stacktrace*)object;
     /* the list will decref all of its elements */
-    Py_DECREF(this->frames);
+    Py_XDECREF(this->frames);
     this->stacktrace->frames = NULL;
     sr_koops_stacktrace_free(this->stacktrace);
     PyObject_Del(object);
diff --git a/python/py_python_stacktrace.c b/python/py_python_stacktrace.c
index 30e0169..fdad844 100644
--- a/python/py_python_stacktrace.c
+++ b/python/py_python_stacktrace.c
@@ -149,7 +149,7 @@ sr_py_python_stacktrace_free(PyObject *object)
 {
     struct sr_py_python_stacktrace *this = (struct sr_py_python_stacktrace*)object;
     /* the list will decref all of its elements */
-    Py_DECREF(this->frames);
+    Py_XDECREF(this->frames);
     this->stacktrace->frames = NULL;
     sr_python_stacktrace_free(this->stacktrace);
     PyObject_Del(object);
diff --git a/python/py_ruby_stacktrace.c b/python/py_ruby_stacktrace.c
index c03ab10..56ee05f 100644
--- a/python/py_ruby_stacktrace.c
+++ b/python/py_ruby_stacktrace.c
@@ -144,7 +144,7 @@ sr_py_ruby_stacktrace_free(PyObject *object)
 {
     struct sr_py_ruby_stacktrace *this = (struct sr_py_ruby_stacktrace*)object;
     /* the list will decref all of its elements */
-    Py_DECREF(this->frames);
+    Py_XDECREF(this->frames);
     this->stacktrace->frames = NULL;
     sr_ruby_stacktrace_free(this->stacktrace);
     PyObject_Del(object);
-- 
2.43.0


From 66ed33ea361f6020e49a7b426c7d281b9a47a2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:37 +0000
Subject: [PATCH 090/109] fix: python: get_merge_level() read one past the last
 level

There is one level less than there are objects.
---
 python/py_cluster.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/py_cluster.c b/python/py_cluster.c
index 30cdce1..5e3fbc8 100644
--- a/python/py_cluster.c
+++ b/python/py_cluster.c
@@ -159,7 +159,7 @@ sr_py_dendrogram_get_merge_level(PyObject *self, PyObject *args)
     if (!PyArg_ParseTuple(args, "i", &i))
         return NULL;
 
-    if (i < 0 || i > this->dendrogram->size)
+    if (i < 0 || i >= this->dendrogram->size - 1)
     {
         PyErr_SetString(PyExc_ValueError, "Merge level position out of range");
         return NULL;
-- 
2.43.0


From df4f546f70a352324680fc4b77b8e8fa694e8010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:37 +0000
Subject: [PATCH 091/109] fix: python: KerneloopsFrame() of a text that is not
 a frame

The constructor returned an object without the C frame, any use of which
crashed.
---
 python/py_koops_frame.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/py_koops_frame.c b/python/py_koops_frame.c
index b564f9f..a2af6b5 100644
--- a/python/py_koops_frame.c
+++ b/python/py_koops_frame.c
@@ -150,6 +150,12 @@ sr_py_koops_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
     if (str)
     {
         fo->frame = sr_koops_frame_parse(&str);
+        if (!fo->frame)
+        {
+            PyErr_SetString(PyExc_ValueError, "Cannot parse the frame");
+            PyObject_Del(fo);
+            return NULL;
+        }
     }
     else
         fo->frame = sr_koops_frame_new();
-- 
2.43.0


From e4b05c0d5877078733091b22d96566668908e694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:37 +0000
Subject: [PATCH 092/109] fix: python: equals() of threads returned a result
 with an error set

---
 python/py_base_thread.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/py_base_thread.c b/python/py_base_thread.c
index ba80150..97549f5 100644
--- a/python/py_base_thread.c
+++ b/python/py_base_thread.c
@@ -222,8 +222,12 @@ sr_py_base_thread_equals(PyObject *self, PyObject *args)
     if (!PyArg_ParseTuple(args, "O!", &sr_py_base_thread_type, &other))
         return NULL;
 
-    if (sr_py_base_thread_cmp((struct sr_py_base_thread *)self,
-                              (struct sr_py_base_thread *)other) == 0)
+    int cmp = sr_py_base_thread_cmp((struct sr_py_base_thread *)self,
+                                    (struct sr_py_base_thread *)other);
+    if (PyErr_Occurred())
+        return NULL;
+
+    if (cmp == 0)
         Py_RETURN_TRUE;
     else
         Py_RETURN_FALSE;
-- 
2.43.0


From f3cd1a886a7210dcc534c49816476545871ea936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:37 +0000
Subject: [PATCH 093/109] fix: python: too large values of 32bit attributes
 were truncated

---
 python/py_common.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/py_common.c b/python/py_common.c
index 40129b3..1db6104 100644
--- a/python/py_common.c
+++ b/python/py_common.c
@@ -118,9 +118,9 @@ sr_py_setter_uint32(PyObject *self, PyObject *rhs, void *data)
     if (PyErr_Occurred())
         return -1;
 
-    if (newvalue < 0)
+    if (newvalue < 0 || newvalue > UINT32_MAX)
     {
-        PyErr_SetString(PyExc_ValueError, "Value must not be negative.");
+        PyErr_SetString(PyExc_ValueError, "Negative or too large value.");
         return -1;
     }
 
-- 
2.43.0


From 332accd0254995de34630e6ad03cb8757ff91608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:37 +0000
Subject: [PATCH 094/109] fix: python: merge_parts() of an empty list failed
 without an exception

---
 python/py_metrics.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/py_metrics.c b/python/py_metrics.c
index 5eb09a9..502bd14 100644
--- a/python/py_metrics.c
+++ b/python/py_metrics.c
@@ -389,8 +389,9 @@ parts_prepare_linked_list(PyObject *part_list)
 
     if (PyList_Size(part_list) > 0)
         return ((struct sr_py_distances_part*)PyList_GetItem(part_list, 0))->distances_part;
-    else
-        return NULL;
+
+    PyErr_SetString(PyExc_ValueError, "List of distance matrix parts is empty");
+    return NULL;
 }
 
 PyObject *
-- 
2.43.0


From 340040f81ed368d2d968025657e2439a72e1a253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:01 +0000
Subject: [PATCH 095/109] fix: python: the hash of a gdb stacktrace used
 outdated shared libraries

The libraries could have been released already.
---
 python/py_gdb_stacktrace.c | 16 ++++++++++++++++
 python/py_gdb_stacktrace.h |  1 +
 2 files changed, 17 insertions(+)

diff --git a/python/py_gdb_stacktrace.c b/python/py_gdb_stacktrace.c
index b95291e..107aee4 100644
--- a/python/py_gdb_stacktrace.c
+++ b/python/py_gdb_stacktrace.c
@@ -55,6 +55,10 @@
                         "Returns short text representation of the crash thread. If max_frames is\n" \
                         "specified, the result includes only that much topmost frames."
 
+#define b_get_bthash_doc "Usage: stacktrace.get_bthash([flags])\n\n" \
+                         "Returns: string - hash of the stacktrace\n\n" \
+                         "flags: integer - bitwise sum of BTHASH_* flags"
+
 #define b_crashframe_doc (char *)"Readonly. By default the field contains None. After\n" \
                          "calling the find_crash_frame method, a reference to\n" \
                          "satyr.Frame object is stored into the field."
@@ -78,6 +82,7 @@ gdb_stacktrace_methods[] =
     { "set_libnames",         sr_py_gdb_stacktrace_set_libnames,         METH_NOARGS,  b_set_libnames_doc         },
     { "normalize",            sr_py_gdb_stacktrace_normalize,            METH_NOARGS,  b_normalize_doc            },
     { "to_short_text",        sr_py_gdb_stacktrace_to_short_text,        METH_VARARGS, b_to_short_text            },
+    { "get_bthash",           sr_py_gdb_stacktrace_get_bthash,           METH_VARARGS, b_get_bthash_doc           },
     { NULL },
 };
 
@@ -575,3 +580,14 @@ sr_py_gdb_stacktrace_to_short_text(PyObject *self, PyObject *args)
     g_free(text);
     return result;
 }
+
+PyObject *
+sr_py_gdb_stacktrace_get_bthash(PyObject *self, PyObject *args)
+{
+    /* the hash includes the shared libraries */
+    struct sr_py_gdb_stacktrace *this = (struct sr_py_gdb_stacktrace*)self;
+    if (gdb_prepare_linked_lists(this) < 0)
+        return NULL;
+
+    return sr_py_multi_stacktrace_get_bthash(self, args);
+}
diff --git a/python/py_gdb_stacktrace.h b/python/py_gdb_stacktrace.h
index 6c977be..bd255e0 100644
--- a/python/py_gdb_stacktrace.h
+++ b/python/py_gdb_stacktrace.h
@@ -72,6 +72,7 @@ PyObject *sr_py_gdb_stacktrace_find_address(PyObject *self, PyObject *args);
 PyObject *sr_py_gdb_stacktrace_set_libnames(PyObject *self, PyObject *args);
 PyObject *sr_py_gdb_stacktrace_normalize(PyObject *self, PyObject *args);
 PyObject * sr_py_gdb_stacktrace_to_short_text(PyObject *self, PyObject *args);
+PyObject * sr_py_gdb_stacktrace_get_bthash(PyObject *self, PyObject *args);
 
 #ifdef __cplusplus
 }
-- 
2.43.0


From 5ba145eedb17fb3c2fc2d669f87c65fa9fb02c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:45 +0000
Subject: [PATCH 096/109] fix: python: to_short_text() failed without an
 exception

---
 python/py_base_stacktrace.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/py_base_stacktrace.c b/python/py_base_stacktrace.c
index e6afac6..6532188 100644
--- a/python/py_base_stacktrace.c
+++ b/python/py_base_stacktrace.c
@@ -296,7 +296,10 @@ sr_py_single_stacktrace_to_short_text(PyObject *self, PyObject *args)
     char *text =
         sr_stacktrace_to_short_text((struct sr_stacktrace *)this->thread, max_frames);
     if (!text)
+    {
+        PyErr_SetString(PyExc_LookupError, "Crash thread not found");
         return NULL;
+    }
 
     PyObject *result = PyString_FromString(text);
 
@@ -319,7 +322,10 @@ sr_py_multi_stacktrace_to_short_text(PyObject *self, PyObject *args)
     char *text =
         sr_stacktrace_to_short_text((struct sr_stacktrace *)this->stacktrace, max_frames);
     if (!text)
+    {
+        PyErr_SetString(PyExc_LookupError, "Crash thread not found");
         return NULL;
+    }
 
     PyObject *result = PyString_FromString(text);
 
-- 
2.43.0


From 0f9fcae2198717c0ca7a8d7af978540120af769d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:45 +0000
Subject: [PATCH 097/109] fix: setting the library names crashed on a library
 without a name

That is what GdbSharedlib() of the Python module is; other code handles it.
---
 lib/gdb_thread.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/gdb_thread.c b/lib/gdb_thread.c
index 62d84eb..616cd9d 100644
--- a/lib/gdb_thread.c
+++ b/lib/gdb_thread.c
@@ -535,7 +535,7 @@ sr_gdb_thread_set_libnames(struct sr_gdb_thread *thread, struct sr_gdb_sharedlib
     {
         struct sr_gdb_sharedlib *lib = sr_gdb_sharedlib_find_address(libs,
                                                                      frame->address);
-        if (lib)
+        if (lib && lib->soname)
         {
             char *s1, *s2;
 
-- 
2.43.0


From e471b31a56c40633a75e323fb263f449f1a11b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:06 +0000
Subject: [PATCH 098/109] fix: python: objects appended to lists were never
 released

PyList_Append() takes a reference of its own; all frames, threads and
other objects that the module put into lists leaked.
---
 python/py_base_stacktrace.c  | 1 +
 python/py_base_thread.c      | 1 +
 python/py_cluster.c          | 7 ++++++-
 python/py_gdb_stacktrace.c   | 2 ++
 python/py_koops_stacktrace.c | 5 ++++-
 python/py_metrics.c          | 2 ++
 python/py_report.c           | 1 +
 7 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/python/py_base_stacktrace.c b/python/py_base_stacktrace.c
index 6532188..90c6d1a 100644
--- a/python/py_base_stacktrace.c
+++ b/python/py_base_stacktrace.c
@@ -275,6 +275,7 @@ threads_to_python_list(struct sr_stacktrace *stacktrace, PyTypeObject *thread_ty
 
         if (PyList_Append(result, (PyObject*)item) < 0)
             return NULL;
+        Py_DECREF(item);
 
         thread = sr_thread_next(thread);
     }
diff --git a/python/py_base_thread.c b/python/py_base_thread.c
index 97549f5..bbad30b 100644
--- a/python/py_base_thread.c
+++ b/python/py_base_thread.c
@@ -187,6 +187,7 @@ frames_to_python_list(struct sr_thread *thread, PyTypeObject *frame_type)
         item->frame = frame;
         if (PyList_Append(result, (PyObject *)item) < 0)
             return NULL;
+        Py_DECREF(item);
 
         frame = sr_frame_next(frame);
     }
diff --git a/python/py_cluster.c b/python/py_cluster.c
index 5e3fbc8..d5d8f0c 100644
--- a/python/py_cluster.c
+++ b/python/py_cluster.c
@@ -188,8 +188,13 @@ sr_py_dendrogram_cut(PyObject *self, PyObject *args)
     {
         listc = PyList_New(0);
         for (i = 0; i < cluster->size; i++)
-            PyList_Append(listc, PyInt_FromLong(cluster->objects[i]));
+        {
+            PyObject *object = PyInt_FromLong(cluster->objects[i]);
+            PyList_Append(listc, object);
+            Py_DECREF(object);
+        }
         PyList_Append(list, listc);
+        Py_DECREF(listc);
 
         cl = cluster;
         cluster = cluster->next;
diff --git a/python/py_gdb_stacktrace.c b/python/py_gdb_stacktrace.c
index 107aee4..39d8477 100644
--- a/python/py_gdb_stacktrace.c
+++ b/python/py_gdb_stacktrace.c
@@ -220,6 +220,7 @@ thread_linked_list_to_python_list(struct sr_gdb_stacktrace *stacktrace)
 
         if (PyList_Append(result, (PyObject*)item) < 0)
             return NULL;
+        Py_DECREF(item);
 
         thread = thread->next;
     }
@@ -244,6 +245,7 @@ sharedlib_linked_list_to_python_list(struct sr_gdb_stacktrace *stacktrace)
         item->sharedlib = sharedlib;
         if (PyList_Append(result, (PyObject *)item) < 0)
             return NULL;
+        Py_DECREF(item);
 
         sharedlib = sharedlib->next;
     }
diff --git a/python/py_koops_stacktrace.c b/python/py_koops_stacktrace.c
index 96ff720..a5d00dd 100644
--- a/python/py_koops_stacktrace.c
+++ b/python/py_koops_stacktrace.c
@@ -115,7 +115,10 @@ sr_py_koops_stacktrace_get_modules(PyObject *self, void *data)
 
     while(iter && *iter)
     {
-      PyList_Append(result, Py_BuildValue("s", *iter++));
+      PyObject *module = Py_BuildValue("s", *iter++);
+      if (!module || PyList_Append(result, module) < 0)
+          return NULL;
+      Py_DECREF(module);
     }
 
     return result;
diff --git a/python/py_metrics.c b/python/py_metrics.c
index 502bd14..efa0b55 100644
--- a/python/py_metrics.c
+++ b/python/py_metrics.c
@@ -521,6 +521,7 @@ sr_py_distances_part_reduce(PyObject *self, PyObject *args)
                 Py_XDECREF(dist_list);
                 return NULL;
             }
+            Py_DECREF(f);
         }
     }
     else
@@ -575,6 +576,7 @@ sr_py_distances_part_create(PyObject *self, PyObject *args, PyObject *kwds)
             sr_distances_part_free(it, true);
             return NULL;
         }
+        Py_DECREF(py_part);
     }
 
     return part_list;
diff --git a/python/py_report.c b/python/py_report.c
index ec27b09..fd3c92b 100644
--- a/python/py_report.c
+++ b/python/py_report.c
@@ -160,6 +160,7 @@ rpms_to_python_list(struct sr_rpm_package *rpm)
         item->rpm_package = rpm;
         if (PyList_Append(result, (PyObject *)item) < 0)
             return NULL;
+        Py_DECREF(item);
 
         rpm = rpm->next;
     }
-- 
2.43.0


From e679651f3c75b1b9cc92d1515bda34e54eaae93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:39 +0000
Subject: [PATCH 099/109] fix: JavaScript traces from JSON failed on an
 uninitialized error message

The caller's error message was read before anything was stored there.
Both the Python module and the satyr program leave it uninitialized, so
a correct stack trace could be refused.
---
 lib/js_stacktrace.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/js_stacktrace.c b/lib/js_stacktrace.c
index 777304f..852d5dd 100644
--- a/lib/js_stacktrace.c
+++ b/lib/js_stacktrace.c
@@ -337,9 +337,18 @@ sr_js_stacktrace_from_json(json_object *root, char **error_message)
 
     if (json_object_object_get_ex(root, "platform", &platform))
     {
-        result->platform = sr_js_platform_from_json(platform, error_message);
-        if (*error_message)
+        /* The caller need not have initialized *error_message. */
+        char *platform_error = NULL;
+
+        result->platform = sr_js_platform_from_json(platform, &platform_error);
+        if (platform_error)
+        {
+            if (error_message)
+                *error_message = platform_error;
+            else
+                g_free(platform_error);
             goto fail;
+        }
     }
 
     return result;
-- 
2.43.0


From 7aa867f7fe0562131c211d5a6734529f372513bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:18 +0000
Subject: [PATCH 100/109] fix: ELF tables could not be read before libelf was
 initialized elsewhere

---
 lib/elves.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/elves.c b/lib/elves.c
index 45ae61c..2013eac 100644
--- a/lib/elves.c
+++ b/lib/elves.c
@@ -132,6 +132,7 @@ sr_elf_get_procedure_linkage_table(const char *filename,
     }
 
     /* Initialize libelf on the opened file. */
+    elf_version(EV_CURRENT);
     Elf *elf = elf_begin(fd, ELF_C_READ, NULL);
     if (!elf)
     {
@@ -512,6 +513,7 @@ sr_elf_get_eh_frame(const char *filename,
     }
 
     /* Initialize libelf on the opened file. */
+    elf_version(EV_CURRENT);
     Elf *elf = elf_begin(fd, ELF_C_READ, NULL);
     if (!elf)
     {
-- 
2.43.0


From 64604a502763a16346a17087b353bd7c1a72bc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:43 +0000
Subject: [PATCH 101/109] fix: ELF functions had wrong addresses if the
 executable segment is not the first

---
 lib/elves.c | 49 +++++++++++++++++++++----------------------------
 1 file changed, 21 insertions(+), 28 deletions(-)

diff --git a/lib/elves.c b/lib/elves.c
index 2013eac..c41aac3 100644
--- a/lib/elves.c
+++ b/lib/elves.c
@@ -555,11 +555,11 @@ sr_elf_get_eh_frame(const char *filename,
         return NULL;
     }
 
-    /* Get the address at which the executable segment is loaded.  If
-     * the .eh_frame addresses are absolute, this is used to convert
-     * them to relative to the beginning of executable segment.  We
-     * are looking for the first LOAD segment that is executable, I
-     * hope this is sufficient.
+    /* Get the address at which the file is loaded: that of its first
+     * LOAD segment, which need not be the executable one.  The
+     * addresses of functions are converted to be relative to it, like
+     * the offsets of core frames.  There has to be an executable
+     * segment.
      */
     size_t phnum;
     if (elf_getphdrnum(elf, &phnum) != 0)
@@ -572,8 +572,9 @@ sr_elf_get_eh_frame(const char *filename,
         return NULL;
     }
 
+    bool executable = false;
     uint64_t exec_base = UINT64_MAX;
-    for (unsigned i = 0; i < phnum; i++)
+    for (unsigned i = 0; i < phnum && !executable; i++)
     {
         GElf_Phdr phdr;
         if (gelf_getphdr(elf, i, &phdr) != &phdr)
@@ -586,14 +587,16 @@ sr_elf_get_eh_frame(const char *filename,
             return NULL;
         }
 
-        if (phdr.p_type == PT_LOAD && phdr.p_flags & PF_X)
+        if (phdr.p_type == PT_LOAD)
         {
-            exec_base = phdr.p_vaddr;
-            break;
+            if (exec_base == UINT64_MAX)
+                exec_base = phdr.p_vaddr & -(phdr.p_align ? phdr.p_align : 1);
+
+            executable = phdr.p_flags & PF_X;
         }
     }
 
-    if (exec_base == UINT64_MAX)
+    if (!executable)
     {
         *error_message = g_strdup_printf("Can't determine executable base for %s",
                                      filename);
@@ -722,8 +725,8 @@ sr_elf_get_eh_frame(const char *filename,
                 return NULL;
             }
 
-            /* Read the two numbers we need and if they are PC-relative,
-             * compute the offset from VMA base
+            /* Read the two numbers we need and compute the offset from
+             * the load address.
              */
 
             uint64_t initial_location = fde_read_address(cfi.fde.start,
@@ -734,24 +737,14 @@ sr_elf_get_eh_frame(const char *filename,
 
             if (cie->pcrel)
             {
-                /* We need to determine how long is the 'length' (and
-                 * consequently CIE id) field of this FDE -- it can be
-                 * either 4 or 12 bytes long. */
-                uint64_t length = fde_read_address(section_data->d_buf + cfi_offset, 4);
-                uint64_t skip = (length == 0xffffffffUL ? 12 : 4);
-                uint64_t mask = (cie->ptr_len == 4 ? 0xffffffffUL : 0xffffffffffffffffUL);
-                initial_location += shdr.sh_offset + cfi_offset + 2 * skip;
-                initial_location &= mask;
-            }
-            else
-            {
-                /* Assuming that not pcrel means absolute address
-                 * (what if the file is a library?).  Convert to
-                 * text-section-start-relative.
-                 */
-                initial_location -= exec_base;
+                /* Relative to the place of the number itself. */
+                initial_location += shdr.sh_addr + (cfi.fde.start - (const uint8_t *)section_data->d_buf);
             }
 
+            /* Assuming that not pcrel means absolute address. */
+            uint64_t mask = (cie->ptr_len == 4 ? 0xffffffffUL : 0xffffffffffffffffUL);
+            initial_location = (initial_location - exec_base) & mask;
+
             struct sr_elf_fde *fde = g_malloc(sizeof(*fde));
             fde->exec_base = exec_base;
             fde->start_address = initial_location;
-- 
2.43.0


From a8583459e8a13354759b10547378c4ca9bca07ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:43 +0000
Subject: [PATCH 102/109] fix: ELF tables without data crashed the reader

---
 lib/elves.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/elves.c b/lib/elves.c
index c41aac3..da8cb35 100644
--- a/lib/elves.c
+++ b/lib/elves.c
@@ -104,6 +104,13 @@ find_elf_section_by_name(Elf *elf,
                 return 0;
             }
 
+            /* Files with separate debug info have the headers only. */
+            if (!(*data_dest)->d_buf && (*data_dest)->d_size > 0)
+            {
+                *error_message = g_strdup_printf("Section %s has no data", section_name);
+                return 0;
+            }
+
             /* Save the section header. */
             *shdr_dest = shdr;
             return section_index;
-- 
2.43.0


From e4a31aa63143771a0392069e3e93059c3f138e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:29 +0000
Subject: [PATCH 103/109] fix: slots of the procedure linkage table were read
 unaligned and out of bounds

---
 lib/elves.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/elves.c b/lib/elves.c
index da8cb35..1a70494 100644
--- a/lib/elves.c
+++ b/lib/elves.c
@@ -32,6 +32,7 @@
 #include <fcntl.h>
 #include <gelf.h>
 #include <libelf.h>
+#include <limits.h>
 #include <string.h>
 #include <unistd.h>
 #include <inttypes.h>
@@ -280,12 +281,15 @@ sr_elf_get_procedure_linkage_table(const char *filename,
      *   3463e0103b:   e9 d0 ff ff ff          jmpq   3463e01010 <_init+0x18>
      */
     struct sr_elf_plt_entry *result = NULL, *last = NULL;
-    for (unsigned plt_offset = 16; plt_offset < plt_data->d_size; plt_offset += 16)
+    for (size_t plt_offset = 16; plt_offset + 16 <= plt_data->d_size; plt_offset += 16)
     {
-        uint32_t *plt_index = (uint32_t*)(plt_data->d_buf + plt_offset + 7);
+        /* The number is not aligned. */
+        uint32_t plt_index;
+        memcpy(&plt_index, (const char *)plt_data->d_buf + plt_offset + 7, sizeof(plt_index));
 
         GElf_Rela rela;
-        if (gelf_getrela(rela_plt_data, *plt_index, &rela) != &rela)
+        if (plt_index > INT_MAX ||
+            gelf_getrela(rela_plt_data, plt_index, &rela) != &rela)
         {
             *error_message = g_strdup_printf("gelf_getrela failed for %s: %s",
                                          filename,
-- 
2.43.0


From c60c0cfc4b31e9f9b97cc9872b20c0681424f5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:08 +0000
Subject: [PATCH 104/109] fix: incomplete entries of .eh_frame were read out of
 bounds

---
 lib/elves.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/lib/elves.c b/lib/elves.c
index 1a70494..d22e593 100644
--- a/lib/elves.c
+++ b/lib/elves.c
@@ -432,11 +432,21 @@ read_cie(Dwarf_CFI_Entry *cfi,
      */
     const char *augmentation = cfi->cie.augmentation;
     const uint8_t *augmentation_data = cfi->cie.augmentation_data;
+    const uint8_t *augmentation_end = augmentation_data + cfi->cie.augmentation_data_size;
     if (*augmentation == 'z')
         ++augmentation;
 
     while (*augmentation != '\0')
     {
+        if (augmentation_data >= augmentation_end &&
+            (*augmentation == 'R' || *augmentation == 'P'))
+        {
+            *error_message = g_strdup_printf("Incomplete augmentation data (CIE %jx)",
+                                         (uintmax_t)cfi_offset);
+            g_free(cie);
+            return NULL;
+        }
+
         switch (*augmentation)
         {
         case 'R':
@@ -736,6 +746,19 @@ sr_elf_get_eh_frame(const char *filename,
                 return NULL;
             }
 
+            if (cfi.fde.end - cfi.fde.start < 2 * cie->ptr_len)
+            {
+                *error_message = g_strdup_printf("Incomplete FDE %jx in %s",
+                                             (uintmax_t)cfi_offset,
+                                             filename);
+
+                cie_free(cie_list);
+                sr_elf_eh_frame_free(result);
+                elf_end(elf);
+                close(fd);
+                return NULL;
+            }
+
             /* Read the two numbers we need and compute the offset from
              * the load address.
              */
-- 
2.43.0


From f1bbbcf049da9b40962c42f8f0a0d93721bc0bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:54:23 +0000
Subject: [PATCH 105/109] fix: the failing constructors of the Python module
 leaked the object

---
 python/py_cluster.c          |  3 +++
 python/py_gdb_frame.c        |  4 ++++
 python/py_gdb_stacktrace.c   |  5 +++++
 python/py_gdb_thread.c       |  4 ++++
 python/py_java_frame.c       |  4 ++++
 python/py_java_thread.c      |  4 ++++
 python/py_js_frame.c         |  4 ++++
 python/py_koops_frame.c      |  3 +++
 python/py_metrics.c          | 13 +++++++++----
 python/py_operating_system.c |  3 +++
 python/py_python_frame.c     |  4 ++++
 python/py_rpm_package.c      |  3 +++
 python/py_ruby_frame.c       |  6 ++++++
 13 files changed, 56 insertions(+), 4 deletions(-)

diff --git a/python/py_cluster.c b/python/py_cluster.c
index d5d8f0c..3cfd04f 100644
--- a/python/py_cluster.c
+++ b/python/py_cluster.c
@@ -97,7 +97,10 @@ sr_py_dendrogram_new(PyTypeObject *object,
     struct sr_py_distances *distances;
 
     if (!PyArg_ParseTuple(args, "O!", &sr_py_distances_type, &distances))
+    {
+        PyObject_Del(o);
         return NULL;
+    }
 
     o->dendrogram = sr_distances_cluster_objects(distances->distances);
 
diff --git a/python/py_gdb_frame.c b/python/py_gdb_frame.c
index 647b509..04e8e81 100644
--- a/python/py_gdb_frame.c
+++ b/python/py_gdb_frame.c
@@ -184,7 +184,10 @@ sr_py_gdb_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 
     const char *str = NULL;
     if (!PyArg_ParseTuple(args, "|s", &str))
+    {
+        PyObject_Del(fo);
         return NULL;
+    }
 
     if (str)
     {
@@ -195,6 +198,7 @@ sr_py_gdb_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
         if (!fo->frame)
         {
             PyErr_SetString(PyExc_ValueError, location.message);
+            PyObject_Del(fo);
             return NULL;
         }
     }
diff --git a/python/py_gdb_stacktrace.c b/python/py_gdb_stacktrace.c
index 39d8477..9a38ea6 100644
--- a/python/py_gdb_stacktrace.c
+++ b/python/py_gdb_stacktrace.c
@@ -288,7 +288,10 @@ sr_py_gdb_stacktrace_new(PyTypeObject *object,
 
     const char *str = NULL;
     if (!PyArg_ParseTuple(args, "|s", &str))
+    {
+        PyObject_Del(bo);
         return NULL;
+    }
 
     bo->thread_type = &sr_py_gdb_thread_type;
     bo->frame_type = &sr_py_gdb_frame_type;
@@ -303,6 +306,8 @@ sr_py_gdb_stacktrace_new(PyTypeObject *object,
         if (!bo->stacktrace)
         {
             PyErr_SetString(PyExc_ValueError, location.message);
+            Py_DECREF(bo->crashframe);
+            PyObject_Del(bo);
             return NULL;
         }
         bo->threads = thread_linked_list_to_python_list(bo->stacktrace);
diff --git a/python/py_gdb_thread.c b/python/py_gdb_thread.c
index 2c8fee5..ccc9d6e 100644
--- a/python/py_gdb_thread.c
+++ b/python/py_gdb_thread.c
@@ -121,7 +121,10 @@ sr_py_gdb_thread_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
     const char *str = NULL;
     int only_funs = 0;
     if (!PyArg_ParseTuple(args, "|si", &str, &only_funs))
+    {
+        PyObject_Del(to);
         return NULL;
+    }
 
     if (str)
     {
@@ -133,6 +136,7 @@ sr_py_gdb_thread_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
             if (!to->thread)
             {
                 PyErr_SetString(PyExc_ValueError, location.message);
+                PyObject_Del(to);
                 return NULL;
             }
         }
diff --git a/python/py_java_frame.c b/python/py_java_frame.c
index 271d937..a9a82ed 100644
--- a/python/py_java_frame.c
+++ b/python/py_java_frame.c
@@ -133,7 +133,10 @@ sr_py_java_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 
     const char *str = NULL;
     if (!PyArg_ParseTuple(args, "|s", &str))
+    {
+        PyObject_Del(fo);
         return NULL;
+    }
 
     if (str)
     {
@@ -144,6 +147,7 @@ sr_py_java_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
         if (!fo->frame)
         {
             PyErr_SetString(PyExc_ValueError, location.message);
+            PyObject_Del(fo);
             return NULL;
         }
     }
diff --git a/python/py_java_thread.c b/python/py_java_thread.c
index fa3a8e8..7eccf24 100644
--- a/python/py_java_thread.c
+++ b/python/py_java_thread.c
@@ -120,7 +120,10 @@ sr_py_java_thread_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 
     const char *str = NULL;
     if (!PyArg_ParseTuple(args, "|s", &str))
+    {
+        PyObject_Del(to);
         return NULL;
+    }
 
     if (str)
     {
@@ -130,6 +133,7 @@ sr_py_java_thread_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
         if (!to->thread)
         {
             PyErr_SetString(PyExc_ValueError, location.message);
+            PyObject_Del(to);
             return NULL;
         }
         to->frames = frames_to_python_list((struct sr_thread *)to->thread, to->frame_type);
diff --git a/python/py_js_frame.c b/python/py_js_frame.c
index bb1534b..1bb5e7a 100644
--- a/python/py_js_frame.c
+++ b/python/py_js_frame.c
@@ -126,7 +126,10 @@ sr_py_js_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 
     const char *str = NULL;
     if (!PyArg_ParseTuple(args, "|s", &str))
+    {
+        PyObject_Del(fo);
         return NULL;
+    }
 
     if (str)
     {
@@ -137,6 +140,7 @@ sr_py_js_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
         if (!fo->frame)
         {
             PyErr_SetString(PyExc_ValueError, location.message);
+            PyObject_Del(fo);
             return NULL;
         }
     }
diff --git a/python/py_koops_frame.c b/python/py_koops_frame.c
index a2af6b5..0ba6e21 100644
--- a/python/py_koops_frame.c
+++ b/python/py_koops_frame.c
@@ -145,7 +145,10 @@ sr_py_koops_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 
     const char *str = NULL;
     if (!PyArg_ParseTuple(args, "|s", &str))
+    {
+        PyObject_Del(fo);
         return NULL;
+    }
 
     if (str)
     {
diff --git a/python/py_metrics.c b/python/py_metrics.c
index efa0b55..edc4f74 100644
--- a/python/py_metrics.c
+++ b/python/py_metrics.c
@@ -240,11 +240,12 @@ sr_py_distances_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
         n = PyList_Size(thread_list);
         struct sr_thread *threads[n];
 
-        if (!validate_distance_params(m, n, dist_type))
-            return NULL;
-
-        if (!prepare_thread_array(thread_list, threads, n))
+        if (!validate_distance_params(m, n, dist_type) ||
+            !prepare_thread_array(thread_list, threads, n))
+        {
+            PyObject_Del(o);
             return NULL;
+        }
 
         o->distances = sr_threads_compare(threads, m, n, dist_type);
     }
@@ -254,13 +255,17 @@ sr_py_distances_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
         if (m < 1 || n < 2)
         {
             PyErr_SetString(PyExc_ValueError, "Distance matrix must have at least 1 row and 2 columns");
+            PyObject_Del(o);
             return NULL;
         }
 
         o->distances = sr_distances_new(m, n);
     }
     else
+    {
+        PyObject_Del(o);
         return NULL;
+    }
 
     return (PyObject *)o;
 }
diff --git a/python/py_operating_system.c b/python/py_operating_system.c
index 9a9981c..ba1985e 100644
--- a/python/py_operating_system.c
+++ b/python/py_operating_system.c
@@ -111,7 +111,10 @@ sr_py_operating_system_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 
     const char *name = NULL, *version = NULL, *arch = NULL;
     if (!PyArg_ParseTuple(args, "|sss", &name, &version, &arch))
+    {
+        Py_DECREF(os);
         return NULL;
+    }
 
     if (name)
         os->operating_system->name = g_strdup(name);
diff --git a/python/py_python_frame.c b/python/py_python_frame.c
index 15a3353..b86197d 100644
--- a/python/py_python_frame.c
+++ b/python/py_python_frame.c
@@ -130,7 +130,10 @@ sr_py_python_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 
     const char *str = NULL;
     if (!PyArg_ParseTuple(args, "|s", &str))
+    {
+        PyObject_Del(fo);
         return NULL;
+    }
 
     if (str)
     {
@@ -141,6 +144,7 @@ sr_py_python_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
         if (!fo->frame)
         {
             PyErr_SetString(PyExc_ValueError, location.message);
+            PyObject_Del(fo);
             return NULL;
         }
     }
diff --git a/python/py_rpm_package.c b/python/py_rpm_package.c
index 87a6791..c788279 100644
--- a/python/py_rpm_package.c
+++ b/python/py_rpm_package.c
@@ -125,7 +125,10 @@ sr_py_rpm_package_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
     unsigned int epoch = 0;
     const char *name = NULL, *version = NULL, *rel = NULL, *arch = NULL;
     if (!PyArg_ParseTuple(args, "|sIsss", &name, &epoch, &version, &rel, &arch))
+    {
+        Py_DECREF(rpm);
         return NULL;
+    }
 
     if (name)
         rpm->rpm_package->name = g_strdup(name);
diff --git a/python/py_ruby_frame.c b/python/py_ruby_frame.c
index d1a5ca2..919a161 100644
--- a/python/py_ruby_frame.c
+++ b/python/py_ruby_frame.c
@@ -130,7 +130,10 @@ sr_py_ruby_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 
     const char *str = NULL;
     if (!PyArg_ParseTuple(args, "|s", &str))
+    {
+        PyObject_Del(fo);
         return NULL;
+    }
 
     if (str)
     {
@@ -141,6 +144,9 @@ sr_py_ruby_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
         if (!fo->frame)
         {
             PyErr_SetString(PyExc_ValueError, location.message);
+            /* unlike those of the other parsers, this message is allocated */
+            g_free((char *)location.message);
+            PyObject_Del(fo);
             return NULL;
         }
     }
-- 
2.43.0


From 0184258de7f646decbdb02f3ff3b8c5bfaabc155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:54:23 +0000
Subject: [PATCH 106/109] fix: a failing from_json of the Python module leaked
 the message and the object

---
 python/py_base_stacktrace.c | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/python/py_base_stacktrace.c b/python/py_base_stacktrace.c
index 90c6d1a..695c5d8 100644
--- a/python/py_base_stacktrace.c
+++ b/python/py_base_stacktrace.c
@@ -460,20 +460,24 @@ sr_py_single_stacktrace_from_json(PyObject *class, PyObject *args)
     /* Free the C structure and thread list */
     struct sr_py_base_thread *this = (struct sr_py_base_thread*)result;
     enum sr_report_type type = this->thread->type;
-    /* the list will decref all of its elements */
-    Py_DECREF(this->frames);
-    sr_thread_set_frames(this->thread, NULL);
-    sr_thread_free(this->thread);
 
     /* Parse json */
-    this->thread = (struct sr_thread*)
+    struct sr_thread *thread = (struct sr_thread*)
         sr_stacktrace_from_json_text(type, json_str, &error_message);
 
-    if (!this->thread)
+    if (!thread)
     {
         PyErr_SetString(PyExc_ValueError, error_message);
+        g_free(error_message);
+        Py_DECREF(result);
         return NULL;
     }
+
+    /* the list will decref all of its elements */
+    Py_DECREF(this->frames);
+    sr_thread_set_frames(this->thread, NULL);
+    sr_thread_free(this->thread);
+    this->thread = thread;
     this->frames = frames_to_python_list((struct sr_thread *)this->thread, this->frame_type);
 
     return result;
@@ -494,18 +498,23 @@ sr_py_multi_stacktrace_from_json(PyObject *class, PyObject *args)
     /* Free the C structure and thread list */
     struct sr_py_multi_stacktrace *this = (struct sr_py_multi_stacktrace*)result;
     enum sr_report_type type = this->stacktrace->type;
-    /* the list will decref all of its elements */
-    Py_DECREF(this->threads);
-    sr_stacktrace_set_threads(this->stacktrace, NULL);
-    sr_stacktrace_free(this->stacktrace);
 
     /* Parse json */
-    this->stacktrace = sr_stacktrace_from_json_text(type, json_str, &error_message);
-    if (!this->stacktrace)
+    struct sr_stacktrace *stacktrace =
+        sr_stacktrace_from_json_text(type, json_str, &error_message);
+    if (!stacktrace)
     {
         PyErr_SetString(PyExc_ValueError, error_message);
+        g_free(error_message);
+        Py_DECREF(result);
         return NULL;
     }
+
+    /* the list will decref all of its elements */
+    Py_DECREF(this->threads);
+    sr_stacktrace_set_threads(this->stacktrace, NULL);
+    sr_stacktrace_free(this->stacktrace);
+    this->stacktrace = stacktrace;
     this->threads = threads_to_python_list(this->stacktrace, this->thread_type, this->frame_type);
 
     return result;
-- 
2.43.0


From ecb8a67da5e9add82ce7bef1c77ab64d5392057b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:54:23 +0000
Subject: [PATCH 107/109] fix: the values of Report.auth in the Python module
 were leaked

---
 python/py_report.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/py_report.c b/python/py_report.c
index fd3c92b..f0c6375 100644
--- a/python/py_report.c
+++ b/python/py_report.c
@@ -544,8 +544,13 @@ sr_py_report_get_auth(PyObject *self, void *data)
         if (!val)
             return NULL;
 
-        if (PyDict_SetItemString(auth, ae->key, val) == -1)
+        int failed = PyDict_SetItemString(auth, ae->key, val);
+        Py_DECREF(val);
+        if (failed == -1)
+        {
+            Py_DECREF(auth);
             return NULL;
+        }
     }
 
     return auth;
-- 
2.43.0


From 79b63c890f75a1ca3b5c58a153388c9a862c8bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:14:46 +0000
Subject: [PATCH 108/109] fix: python: arrays of no threads had the length zero

---
 python/py_metrics.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/py_metrics.c b/python/py_metrics.c
index edc4f74..d1d4d40 100644
--- a/python/py_metrics.c
+++ b/python/py_metrics.c
@@ -238,7 +238,8 @@ sr_py_distances_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
                                     &PyList_Type, &thread_list, &m, &dist_type))
     {
         n = PyList_Size(thread_list);
-        struct sr_thread *threads[n];
+        /* the length of an array must not be zero */
+        struct sr_thread *threads[n > 0 ? n : 1];
 
         if (!validate_distance_params(m, n, dist_type) ||
             !prepare_thread_array(thread_list, threads, n))
@@ -597,7 +598,8 @@ sr_py_distances_part_compute(PyObject *self, PyObject *args)
         return NULL;
 
     int n = PyList_Size(thread_list);
-    struct sr_thread *threads[n];
+    /* the length of an array must not be zero */
+    struct sr_thread *threads[n > 0 ? n : 1];
 
     if (!prepare_thread_array(thread_list, threads, n))
         return NULL;
-- 
2.43.0


From 98e97e4523dc7e6b1854876ebfcb6115b0336e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:14:46 +0000
Subject: [PATCH 109/109] fix: python: large line numbers were printed as
 negative ones

---
 python/py_java_frame.c   | 2 +-
 python/py_js_frame.c     | 2 +-
 python/py_python_frame.c | 2 +-
 python/py_ruby_frame.c   | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/py_java_frame.c b/python/py_java_frame.c
index a9a82ed..a11fa3c 100644
--- a/python/py_java_frame.c
+++ b/python/py_java_frame.c
@@ -189,7 +189,7 @@ sr_py_java_frame_str(PyObject *self)
             g_string_append_printf(buf, "(%s", this->frame->file_name);
 
         if (this->frame->file_line)
-            g_string_append_printf(buf, ":%d", this->frame->file_line);
+            g_string_append_printf(buf, ":%u", this->frame->file_line);
 
         if (this->frame->is_native)
             g_string_append(buf, "(Native Method");
diff --git a/python/py_js_frame.c b/python/py_js_frame.c
index 1bb5e7a..9445e12 100644
--- a/python/py_js_frame.c
+++ b/python/py_js_frame.c
@@ -182,7 +182,7 @@ sr_py_js_frame_str(PyObject *self)
         g_string_append(buf, "<unknown>");
     }
 
-    g_string_append_printf(buf, ":%d:%d", this->frame->file_line, this->frame->line_column);
+    g_string_append_printf(buf, ":%u:%u", this->frame->file_line, this->frame->line_column);
 
     if (this->frame->function_name)
     {
diff --git a/python/py_python_frame.c b/python/py_python_frame.c
index b86197d..e29db8d 100644
--- a/python/py_python_frame.c
+++ b/python/py_python_frame.c
@@ -178,7 +178,7 @@ sr_py_python_frame_str(PyObject *self)
                             (this->frame->special_file ? ">" : ""));
 
     if (this->frame->file_line)
-      g_string_append_printf(buf, ", %d", this->frame->file_line);
+      g_string_append_printf(buf, ", %u", this->frame->file_line);
 
     if (this->frame->function_name)
       g_string_append_printf(buf, ", in %s%s%s",
diff --git a/python/py_ruby_frame.c b/python/py_ruby_frame.c
index 919a161..4c9049d 100644
--- a/python/py_ruby_frame.c
+++ b/python/py_ruby_frame.c
@@ -180,7 +180,7 @@ sr_py_ruby_frame_str(PyObject *self)
 
     if (this->frame->file_line)
     {
-        g_string_append_printf(buf, ":%d", this->frame->file_line);
+        g_string_append_printf(buf, ":%u", this->frame->file_line);
     }
 
     if (this->frame->function_name)
@@ -199,7 +199,7 @@ sr_py_ruby_frame_str(PyObject *self)
         }
         else if (this->frame->block_level > 1)
         {
-            g_string_append_printf(buf, "block (%d levels) in ", this->frame->block_level);
+            g_string_append_printf(buf, "block (%u levels) in ", this->frame->block_level);
         }
 
         g_string_append_printf(buf, "%s%s%s'",
-- 
2.43.0

