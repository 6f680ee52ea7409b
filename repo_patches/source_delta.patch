From abe62fb077e82dec46b4196eca59f4d37a5ca73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:39 +0000
Subject: [PATCH 01/68] fix: restore stderr after a test

The stream was swapped once in the constructor and once in open(), and the
second swap saved the None the first one had installed, so stderr was lost
after the first test.
---
 booktest/testcaserun.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index 944969e..2fb4242 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -76,10 +76,6 @@ class TestCaseRun:
         self.log = None
         self.orig_handlers = None
 
-        # swap error
-        self.orig_err = sys.stderr
-        sys.stderr = self.err
-
         # error management
         #
         # let's separate diff from proper failure
-- 
2.43.0


From 763637db8b9125340d0b8e343e0511253cf71873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:45 +0000
Subject: [PATCH 02/68] fix: release stderr and log handlers when a test is
 interrupted

---
 booktest/testrun.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/booktest/testrun.py b/booktest/testrun.py
index 66c133d..9e35a67 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -98,6 +98,10 @@ class TestRun:
             t.iln().fail().iln(f"test raised exception {e}:")
             t.iln(traceback.format_exc())
             rv = None
+        except BaseException:
+            # e.g. on CTRL-C, give back stderr and the log handlers
+            t.close()
+            raise
 
         result, interaction = t.end()
         if result is TestResult.OK or result is TestResult.DIFF:
-- 
2.43.0


From 600663f952462484fb9fc2444f0b1081080d3f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:51 +0000
Subject: [PATCH 03/68] fix: report a test that calls sys.exit() as failed

SystemExit ended the whole run with the exit code the test asked for (in a
parallel run, it killed the worker and the run never ended).
---
 booktest/testrun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/testrun.py b/booktest/testrun.py
index 9e35a67..f1d82ed 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -94,7 +94,7 @@ class TestRun:
                 rv = await case(t)
             else:
                 rv = case(t)
-        except Exception as e:
+        except (Exception, SystemExit) as e:
             t.iln().fail().iln(f"test raised exception {e}:")
             t.iln(traceback.format_exc())
             rv = None
-- 
2.43.0


From 22a37083c39b75b344c9693aadfc1baaec7eaf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:56 +0000
Subject: [PATCH 04/68] fix: don't lose an unterminated last line nor marks
 made after it

Text, differences and failures that had not been followed by a line end were
dropped, and the test was reported as ok.
---
 booktest/testcaserun.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index 2fb4242..3d72b58 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -225,6 +225,7 @@ s
         self.ended = time.time()
         self.took_ms = 1000*(self.ended - self.started)
 
+        self.commit_pending()
         self.close()
 
         if self.errors != 0:
@@ -458,6 +459,22 @@ s
             self.report(f"  {self.out_line}")
             self.write_line()
 
+    def commit_pending(self):
+        """
+        Internal method. Commits an unterminated last line and any difference
+        or failure, that has been marked after the last committed line.
+        """
+        if len(self.out_line) > 0:
+            self.feed_token('\n', check=self.last_checked)
+        elif self.line_error is not None:
+            self.errors += 1
+            self.report("! (failed after the last line)")
+            self.line_error = self.line_diff = None
+        elif self.line_diff is not None:
+            self.diffs += 1
+            self.report("? (differs after the last line)")
+            self.line_diff = None
+
     def head_exp_token(self):
         """
         Returns the next token in the snapshot file without moving snapshot file cursor
-- 
2.43.0


From 0b135257c789f32b8ae56649cd280ac1411e0db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:01 +0000
Subject: [PATCH 05/68] fix: tokenizer never ended on text containing a NUL
 character

---
 booktest/tokenizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/tokenizer.py b/booktest/tokenizer.py
index 8e7fa25..b399d19 100644
--- a/booktest/tokenizer.py
+++ b/booktest/tokenizer.py
@@ -52,7 +52,7 @@ class TestTokenizer:
         if c.isalnum():
             while self.peek().isalnum():
                 self.at = self.at + 1
-        elif c != '\0':
+        else:
             self.at = self.at + 1
         return self.buf[begin:self.at]
 
-- 
2.43.0


From 3a4f8dec91ca4e7ba538dd53feefaa484db8f2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:19 +0000
Subject: [PATCH 06/68] fix: compare a set also when the snapshot has already
 ended

---
 booktest/testcaserun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index 3d72b58..410acaa 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -785,7 +785,7 @@ s
         """
         compare = None
 
-        if self.exp_line is not None:
+        if self.exp_file_exists:
             begin = self.exp_line_number
             compare = set()
             while (self.exp_line is not None
-- 
2.43.0


From e9d3e84d9d5728d15515ff3fd5742e3c73a745a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:25 +0000
Subject: [PATCH 07/68] fix: don't let command line options leak into the
 following runs

The options were written into the shared default configuration, so e.g. one
run with -a made all later runs of the process accept differences.
---
 booktest/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/booktest/config.py b/booktest/config.py
index e4edc5b..a450c5c 100644
--- a/booktest/config.py
+++ b/booktest/config.py
@@ -47,4 +47,5 @@ def get_default_config():
     global DEFAULT_CONFIG
     if DEFAULT_CONFIG is None:
         DEFAULT_CONFIG = resolve_default_config(DEFAULT_CONFIG_FILE)
-    return DEFAULT_CONFIG
+    # callers layer their own options on top of the defaults
+    return dict(DEFAULT_CONFIG)
-- 
2.43.0


From 6006b08b25edc5a8197b3b5aceadc314a84fde60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:30 +0000
Subject: [PATCH 08/68] fix: read .booktest in the home directory

---
 booktest/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/config.py b/booktest/config.py
index a450c5c..c494a88 100644
--- a/booktest/config.py
+++ b/booktest/config.py
@@ -30,7 +30,7 @@ def parse_config_file(config_file, config):
 def resolve_default_config(config_file):
     rv = {}
     # let home directory .booktest file has lowest priority
-    parse_config_file("~/.booktest", rv)
+    parse_config_file(path.expanduser("~/.booktest"), rv)
     # let config_file defaults have lower priority
     parse_config_file(config_file, rv)
 
-- 
2.43.0


From 3215ae3fd3566be6987c1d9ca85c8b55a6bd5c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:53 +0000
Subject: [PATCH 09/68] fix: env snapshots and mocks of unset variables raised
 KeyError

---
 booktest/env.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/booktest/env.py b/booktest/env.py
index f21b060..cb51936 100644
--- a/booktest/env.py
+++ b/booktest/env.py
@@ -40,7 +40,7 @@ class SnapshotEnv:
             if name in self.snaphots:
                 value = self.snaphots[name]
                 if value is None:
-                    del os.environ[name]
+                    os.environ.pop(name, None)
                 else:
                     os.environ[name] = self.snaphots[name]
                 self.capture[name] = value
@@ -54,7 +54,7 @@ class SnapshotEnv:
     def stop(self):
         for name, value in self._old_env.items():
             if value is None:
-                del os.environ[name]
+                os.environ.pop(name, None)
             else:
                 os.environ[name] = self._old_env[name]
 
@@ -114,16 +114,13 @@ class MockMissingEnv:
             old_value = os.environ.get(name)
             self._old_env[name] = old_value
 
-            if old_value is None:
-                if value is None:
-                    del os.environ[name]
-                else:
-                    os.environ[name] = value
+            if old_value is None and value is not None:
+                os.environ[name] = value
 
     def stop(self):
         for name, value in self._old_env.items():
             if value is None:
-                del os.environ[name]
+                os.environ.pop(name, None)
             else:
                 os.environ[name] = self._old_env[name]
 
-- 
2.43.0


From 60bd3d32927e123a37a7b4d65ec51e7093552435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:59 +0000
Subject: [PATCH 10/68] fix: restore the environment when an env snapshot is
 missing

---
 booktest/env.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/booktest/env.py b/booktest/env.py
index cb51936..c918d95 100644
--- a/booktest/env.py
+++ b/booktest/env.py
@@ -47,17 +47,22 @@ class SnapshotEnv:
             elif self.complete_snapshots or self.refresh_snapshots:
                 self.capture[name] = old_value
             else:
+                # the earlier variables have already been replaced
+                self.restore()
                 raise Exception(
                     f"missing env snapshot '{name}'. "
                     "try running booktest with '-s' flag to capture the missing snapshot")
 
-    def stop(self):
+    def restore(self):
         for name, value in self._old_env.items():
             if value is None:
                 os.environ.pop(name, None)
             else:
                 os.environ[name] = self._old_env[name]
 
+    def stop(self):
+        self.restore()
+
         with open(self.snapshot_out_path, "w") as f:
             json.dump(self.capture, f, indent=4)
 
-- 
2.43.0


From 84c66aca4a15c53324dfc5d2fab207f7ee124ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:04 +0000
Subject: [PATCH 11/68] fix: mock_missing_env must not mock when snapshots are
 captured

As documented, the mock value is only provided when the test is not in a
snapshot capture mode; the flag was computed but never used.
---
 booktest/env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/env.py b/booktest/env.py
index c918d95..4b8f03e 100644
--- a/booktest/env.py
+++ b/booktest/env.py
@@ -119,7 +119,7 @@ class MockMissingEnv:
             old_value = os.environ.get(name)
             self._old_env[name] = old_value
 
-            if old_value is None and value is not None:
+            if old_value is None and value is not None and self._do_mock:
                 os.environ[name] = value
 
     def stop(self):
-- 
2.43.0


From e803db4a1aafb7ae6df86e1c1524059b41b6f0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:40 +0000
Subject: [PATCH 12/68] fix: accepting a result twice destroyed the accepted
 files

When the output had already been moved (-p -u, a repeated review, or a review
after an interruption), the accepted directory was removed and then the rename
failed.
---
 booktest/review.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/booktest/review.py b/booktest/review.py
index 423afe7..53b8d5e 100644
--- a/booktest/review.py
+++ b/booktest/review.py
@@ -90,11 +90,16 @@ def freeze_case(exp_dir,
     out_dir_name = os.path.join(out_dir, case_name)
     out_file_name = os.path.join(out_dir, case_name + ".md")
 
-    # destroy old test related files
-    if path.exists(exp_dir_name):
-        shutil.rmtree(exp_dir_name)
-    os.rename(out_file_name, exp_file_name)
+    # the output may have been accepted already, and accepting it
+    # may have been interrupted between the document and its files
+    if path.exists(out_file_name):
+        # destroy old test related files
+        if path.exists(exp_dir_name):
+            shutil.rmtree(exp_dir_name)
+        os.rename(out_file_name, exp_file_name)
     if path.exists(out_dir_name):
+        if path.exists(exp_dir_name):
+            shutil.rmtree(exp_dir_name)
         os.rename(out_dir_name, exp_dir_name)
 
 
-- 
2.43.0


From 88b2293f5de04d5bc306e6d9ab8dd98f5c38d8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:46 +0000
Subject: [PATCH 13/68] fix: review crashed after an interrupted run for want
 of metrics

---
 booktest/reports.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/booktest/reports.py b/booktest/reports.py
index a764841..47e5f95 100644
--- a/booktest/reports.py
+++ b/booktest/reports.py
@@ -78,9 +78,13 @@ class Metrics:
 
     @staticmethod
     def of_file(path):
-        with open(path, "r") as f:
-            state = json.load(f)
-            return Metrics(state["tookMs"])
+        try:
+            with open(path, "r") as f:
+                state = json.load(f)
+                return Metrics(state["tookMs"])
+        except (OSError, ValueError, KeyError, TypeError):
+            # the run was interrupted before or while writing the metrics
+            return Metrics(0)
 
     def to_dir(self, dir):
         self.to_file(os.path.join(dir, "metrics.json"))
-- 
2.43.0


From aece96433a07d9c36cbe4bb388f58f12c9b7a21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:51 +0000
Subject: [PATCH 14/68] fix: fail a test whose return value cannot be pickled

The exception ended the whole run, in a parallel run without a report of the
test.
---
 booktest/testrun.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/booktest/testrun.py b/booktest/testrun.py
index f1d82ed..6adffa9 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -75,7 +75,7 @@ class TestRun:
 
         return False, None
 
-    def save_test_result(self, case_path, result):
+    def save_test_result(self, case_path, result, stored):
         bin_path = self.tests.test_result_path(self.out_dir, case_path)
         self.cache[bin_path] = result
         if result is None:
@@ -83,7 +83,7 @@ class TestRun:
                 os.remove(bin_path)
         else:
             with open(bin_path, 'wb') as file:
-                pickle.dump(result, file)
+                file.write(stored)
 
     async def run_case(self, case_path, case, title=None) \
             -> (TestResult, UserRequest, float):
@@ -94,6 +94,8 @@ class TestRun:
                 rv = await case(t)
             else:
                 rv = case(t)
+            # the value must be storable for the dependents
+            stored = pickle.dumps(rv)
         except (Exception, SystemExit) as e:
             t.iln().fail().iln(f"test raised exception {e}:")
             t.iln(traceback.format_exc())
@@ -106,7 +108,7 @@ class TestRun:
         result, interaction = t.end()
         if result is TestResult.OK or result is TestResult.DIFF:
             # if the test case return a value, store it in a cache
-            self.save_test_result(case_path, rv)
+            self.save_test_result(case_path, rv, stored)
 
         return result, interaction, t.took_ms
 
-- 
2.43.0


From f148eb9a96b9665e8b7c235fe041c57f70bd0c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:57 +0000
Subject: [PATCH 15/68] fix: write stored values atomically

A run killed while writing left a truncated value, which made the dependents
fail in every later run.
---
 booktest/testrun.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/booktest/testrun.py b/booktest/testrun.py
index 6adffa9..9b8a960 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -82,8 +82,11 @@ class TestRun:
             if path.exists(bin_path):
                 os.remove(bin_path)
         else:
-            with open(bin_path, 'wb') as file:
+            # never leave a half written value behind
+            tmp_path = bin_path + ".tmp"
+            with open(tmp_path, 'wb') as file:
                 file.write(stored)
+            os.replace(tmp_path, bin_path)
 
     async def run_case(self, case_path, case, title=None) \
             -> (TestResult, UserRequest, float):
-- 
2.43.0


From 2539f69771198d37a4de718527681a97cceb827e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:03 +0000
Subject: [PATCH 16/68] fix: store also the return value None

Dependents of a test returning None failed with a missing dependency, whenever
the value was not in the memory cache: in parallel and continued runs and after
cache eviction.
---
 booktest/testrun.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/booktest/testrun.py b/booktest/testrun.py
index 9b8a960..850a14f 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -78,15 +78,11 @@ class TestRun:
     def save_test_result(self, case_path, result, stored):
         bin_path = self.tests.test_result_path(self.out_dir, case_path)
         self.cache[bin_path] = result
-        if result is None:
-            if path.exists(bin_path):
-                os.remove(bin_path)
-        else:
-            # never leave a half written value behind
-            tmp_path = bin_path + ".tmp"
-            with open(tmp_path, 'wb') as file:
-                file.write(stored)
-            os.replace(tmp_path, bin_path)
+        # never leave a half written value behind
+        tmp_path = bin_path + ".tmp"
+        with open(tmp_path, 'wb') as file:
+            file.write(stored)
+        os.replace(tmp_path, bin_path)
 
     async def run_case(self, case_path, case, title=None) \
             -> (TestResult, UserRequest, float):
-- 
2.43.0


From 798cfef8b1fc3e5db79d043f868a149cee982a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:08 +0000
Subject: [PATCH 17/68] fix: running without a memory cache never ended

NoCache had no membership test, so Python looked for the value by indexing
forever, and values that the cache does not keep were returned as None.
---
 booktest/cache.py   |  3 +++
 booktest/testrun.py | 25 ++++++++++++++-----------
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/booktest/cache.py b/booktest/cache.py
index 886ff18..c66212a 100644
--- a/booktest/cache.py
+++ b/booktest/cache.py
@@ -42,6 +42,9 @@ class NoCache:
     def __len__(self):
         return 0
 
+    def __contains__(self, key):
+        return False
+
     def __getitem__(self, key):
         return None
 
diff --git a/booktest/testrun.py b/booktest/testrun.py
index 850a14f..eaac364 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -61,17 +61,20 @@ class TestRun:
             # a bit hacky way for figuring out the dependencies
             if match_method(method, t[1]):
                 bin_path = self.tests.test_result_path(self.out_dir, t[0])
-                if bin_path not in self.cache:
-                    if path.exists(bin_path):
-                        with open(bin_path, 'rb') as file:
-                            rv = pickle.load(file)
-                            self.cache[bin_path] = rv
-                    else:
-                        raise Exception(
-                            f"case {case.name} dependency {t[0]}" +
-                            f" missing in '{bin_path}'")
-
-                return True, self.cache[bin_path]
+                if bin_path in self.cache:
+                    return True, self.cache[bin_path]
+
+                if not path.exists(bin_path):
+                    raise Exception(
+                        f"case {case.name} dependency {t[0]}" +
+                        f" missing in '{bin_path}'")
+
+                # the cache may not keep the value
+                with open(bin_path, 'rb') as file:
+                    rv = pickle.load(file)
+                self.cache[bin_path] = rv
+
+                return True, rv
 
         return False, None
 
-- 
2.43.0


From 04df0ba297bc0c77137a6bb0d67153c4222af0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:31 +0000
Subject: [PATCH 18/68] fix: take paths literally instead of passing them to
 the shell unquoted

Names with blanks or shell characters created and removed the wrong
directories, could not be printed or viewed, and could execute commands.
---
 booktest/review.py      | 16 +++++++++++-----
 booktest/runs.py        |  5 +++--
 booktest/testcaserun.py |  4 ++--
 booktest/testrun.py     |  2 +-
 booktest/tests.py       |  7 ++++---
 5 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/booktest/review.py b/booktest/review.py
index 53b8d5e..841d3a8 100644
--- a/booktest/review.py
+++ b/booktest/review.py
@@ -1,5 +1,6 @@
 import os.path as path
 import os
+import shlex
 import shutil
 
 from booktest.reports import TestResult, CaseReports, UserRequest, read_lines, Metrics
@@ -13,6 +14,11 @@ from booktest.reports import TestResult, CaseReports, UserRequest, read_lines, M
 BOOK_TEST_PREFIX = "BOOKTEST_"
 
 
+def quote_files(*files):
+    """ Quotes file names for run_tool """
+    return " ".join(shlex.quote(i) for i in files)
+
+
 def run_tool(config, tool, args):
     """ Run a tool used in reviews """
     cmd = config.get(tool, None)
@@ -65,20 +71,20 @@ def interact(exp_dir, out_dir, case_name, test_result, config):
             done = True
         elif answer == "v":
             if os.path.exists(exp_file_name):
-                arg = f"{exp_file_name} {out_file_name}"
+                arg = quote_files(exp_file_name, out_file_name)
             else:
-                arg = out_file_name
+                arg = quote_files(out_file_name)
             run_tool(config, "md_viewer", arg)
         elif answer == "l":
-            run_tool(config, "log_viewer", log_file_name)
+            run_tool(config, "log_viewer", quote_files(log_file_name))
         elif answer == "d":
             run_tool(config,
                      "diff_tool",
-                     f"{exp_file_name} {out_file_name}")
+                     quote_files(exp_file_name, out_file_name))
         elif answer == "D":
             run_tool(config,
                      "fast_diff_tool",
-                     f"{exp_file_name} {out_file_name}")
+                     quote_files(exp_file_name, out_file_name))
     return rv, user_request
 
 
diff --git a/booktest/runs.py b/booktest/runs.py
index c725ce7..22c0f45 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -1,6 +1,7 @@
 import traceback
 import multiprocessing
 import os
+import shutil
 import threading
 import time
 from collections import defaultdict
@@ -36,7 +37,7 @@ def prepare_batch_dir(out_dir: str):
     _batch_dir = batch_dir(out_dir)
 
     if os.path.exists(_batch_dir):
-        os.system(f"rm -rf {_batch_dir}")
+        shutil.rmtree(_batch_dir)
         os.makedirs(_batch_dir, exist_ok=True)
 
 
@@ -310,7 +311,7 @@ def parallel_run_tests(exp_dir,
 
     exit_code = 0
 
-    os.system(f"mkdir -p {out_dir}")
+    os.makedirs(out_dir, exist_ok=True)
     report_file = os.path.join(out_dir, "cases.txt")
 
     with open(report_file, "w") as report_f:
diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index 410acaa..43c8151 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -45,7 +45,7 @@ class TestCaseRun:
 
         # expectation file
         self.exp_base_dir = path.join(run.exp_dir, relative_dir)
-        os.system(f"mkdir -p {self.exp_base_dir}")
+        os.makedirs(self.exp_base_dir, exist_ok=True)
         self.exp_file_name = path.join(self.exp_base_dir, name + ".md")
         self.exp_dir_name = path.join(self.exp_base_dir, name)
         self.exp_file_exists = path.exists(self.exp_file_name)
@@ -56,7 +56,7 @@ class TestCaseRun:
 
         # prepare output
         self.out_base_dir = path.join(run.out_dir, relative_dir)
-        os.system(f"mkdir -p {self.out_base_dir}")
+        os.makedirs(self.out_base_dir, exist_ok=True)
         self.out_file_name = path.join(self.out_base_dir, name + ".md")
         self.out_dir_name = path.join(self.out_base_dir, name)
         self.out_tmp_dir_name = path.join(self.out_base_dir, name + ".tmp")
diff --git a/booktest/testrun.py b/booktest/testrun.py
index eaac364..a2b778b 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -130,7 +130,7 @@ class TestRun:
         oks = 0
         fails = 0
         tests = 0
-        os.system(f"mkdir -p {self.report_dir}")
+        os.makedirs(self.report_dir, exist_ok=True)
         report_file = path.join(self.report_dir, "cases.txt")
 
         # 1.2. To continue testing, we need to read
diff --git a/booktest/tests.py b/booktest/tests.py
index b6cb00e..728dd03 100644
--- a/booktest/tests.py
+++ b/booktest/tests.py
@@ -8,7 +8,7 @@ from booktest.cache import LruCache
 from booktest.dependencies import bind_dependent_method_if_unbound
 from booktest.detection import BookTestSetup
 from booktest.reports import CaseReports
-from booktest.review import run_tool, review
+from booktest.review import run_tool, quote_files, review
 from booktest.runs import parallel_run_tests, run_tests
 from booktest.config import get_default_config
 import booktest.setup
@@ -456,7 +456,8 @@ class Tests:
             for name in todo:
                 file = path.join(exp_dir, f"{name}.md")
                 if path.exists(file):
-                    os.system(f"cat {file}")
+                    with open(file, "r") as f:
+                        print(f.read(), end="")
             return 0
         elif cmd == '--path':
             for name in todo:
@@ -470,7 +471,7 @@ class Tests:
                 if path.exists(file):
                     files.append(file)
             if len(files) > 0:
-                return run_tool(config, "md_viewer", " ".join(files))
+                return run_tool(config, "md_viewer", quote_files(*files))
             else:
                 return 0
         elif cmd == '--clean':
-- 
2.43.0


From 42a9bb2192c357a65ad97ca110e93bf787763c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:51 +0000
Subject: [PATCH 19/68] fix: report parallel jobs that left no report as failed

A missing report crashed the run, as the result was passed as a string; an
empty report killed the scheduler thread and the run never ended.
---
 booktest/reports.py | 2 +-
 booktest/runs.py    | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/booktest/reports.py b/booktest/reports.py
index 47e5f95..ff9d471 100644
--- a/booktest/reports.py
+++ b/booktest/reports.py
@@ -171,7 +171,7 @@ class CaseReports:
     def make_case(case_name,
                   res: TestResult,
                   duration):
-        return (case_name, res.name, duration)
+        return (case_name, res, duration)
 
     def to_dir(self, out_dir):
         report_file = os.path.join(out_dir, "cases.txt")
diff --git a/booktest/runs.py b/booktest/runs.py
index 22c0f45..9e6c04a 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -229,8 +229,10 @@ class ParallelRunner:
                 del scheduled[i]
                 self.reserved_resources -= self.resources[i]
                 report_file = case_batch_dir_and_report_file(self.batches_dir, i)[1]
-                if os.path.exists(report_file):
-                    reports.append(CaseReports.of_file(report_file).cases[0])
+                # the report is missing or empty, if the job was cut short
+                batch_cases = CaseReports.of_file(report_file).cases
+                if len(batch_cases) > 0:
+                    reports.append(batch_cases[0])
                 else:
                     reports.append(CaseReports.make_case(i, TestResult.FAIL, 0))
 
-- 
2.43.0


From 9ebcdece8a7672b1734c3729454987514ad3115b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:56 +0000
Subject: [PATCH 20/68] fix: parallel run never ended when a job was
 interrupted or exited

The worker process died, and the pool waits forever for the jobs of workers
that died.
---
 booktest/runs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/booktest/runs.py b/booktest/runs.py
index 9e6c04a..0508db6 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -77,6 +77,7 @@ class RunBatch:
 
         output = open(output_file, "w")
 
+        rv = -1
         try:
             run = TestRun(
                 self.exp_dir,
@@ -90,7 +91,9 @@ class RunBatch:
 
             with self.setup.setup_teardown():
                 rv = test_result_to_exit_code(run.run())
-        except Exception as e:
+        except BaseException as e:
+            # also on CTRL-C and sys.exit(): the pool never finishes
+            # a job, whose worker process ends
             print(f"{case} failed with {e}")
             traceback.print_exc()
         finally:
-- 
2.43.0


From abaff7ce0594f5593b9310755f8f67c36202093c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:01 +0000
Subject: [PATCH 21/68] fix: exit status of interrupted and quit parallel runs

The run succeeded although it had been interrupted, or although tests that had
finished before the user quit had failed.
---
 booktest/runs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/booktest/runs.py b/booktest/runs.py
index 0508db6..91599d8 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -364,6 +364,7 @@ def parallel_run_tests(exp_dir,
 
             except KeyboardInterrupt as e:
                 runner.abort()
+                exit_code = -1
                 for i in runner.todo - runner.done:
                     print(f"  {i}..interrupted")
 
@@ -385,6 +386,9 @@ def parallel_run_tests(exp_dir,
                                        result,
                                        duration,
                                        False)
+                    if result != TestResult.OK:
+                        exit_code = -1
+
                     record_case(
                         case_name,
                         result,
-- 
2.43.0


From 6bf12489e9fbdb67b5197db6cfddaaef0946f1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:53 +0000
Subject: [PATCH 22/68] fix: never truncate the case report

The report was emptied and then written again at the start of a run and at the
end of a review, so that an interruption lost the results of earlier tests.
---
 booktest/reports.py |  5 ++++-
 booktest/runs.py    |  9 +++------
 booktest/testrun.py | 13 +++++--------
 3 files changed, 12 insertions(+), 15 deletions(-)

diff --git a/booktest/reports.py b/booktest/reports.py
index ff9d471..3d5c9ea 100644
--- a/booktest/reports.py
+++ b/booktest/reports.py
@@ -178,11 +178,14 @@ class CaseReports:
         return self.to_file(report_file)
 
     def to_file(self, file):
-        with open(file, "w") as f:
+        # an interruption must not lose the earlier results
+        tmp_file = file + ".tmp"
+        with open(tmp_file, "w") as f:
             for i in self.cases:
                 CaseReports.write_case(f,
                                        i[0],
                                        i[1],
                                        i[2])
+        os.replace(tmp_file, file)
 
 
diff --git a/booktest/runs.py b/booktest/runs.py
index 91599d8..470b79f 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -319,13 +319,10 @@ def parallel_run_tests(exp_dir,
     os.makedirs(out_dir, exist_ok=True)
     report_file = os.path.join(out_dir, "cases.txt")
 
-    with open(report_file, "w") as report_f:
-        # add previously passed items to test
-        for i in reports.cases:
-            if i[0] not in todo:
-                CaseReports.write_case(
-                    report_f, i[0], i[1], i[2])
+    # keep previously passed items
+    CaseReports([i for i in reports.cases if i[0] not in todo]).to_file(report_file)
 
+    with open(report_file, "a") as report_f:
         reviewed = []
 
         def record_case(case_name, result, duration):
diff --git a/booktest/testrun.py b/booktest/testrun.py
index a2b778b..98fd2bd 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -149,14 +149,11 @@ class TestRun:
         # 2.2. run test.
         #      update the report as we test to allow hitting
         #      CTRL-C and continuing from the last succesful test
-        with open(report_file, "w") as report_f:
-
-            # 2.2.1 add previously passed items to test
-            if old_report is not None:
-                for i in old_report.cases:
-                    if i[0] not in todo:
-                        CaseReports.write_case(
-                            report_f, i[0], i[1], i[2])
+
+        # 2.2.1 keep previously passed items
+        CaseReports([i for i in old_report.cases if i[0] not in todo]).to_file(report_file)
+
+        with open(report_file, "a") as report_f:
 
             # 2.2.2 run cases
             for case_name in todo:
-- 
2.43.0


From a6b74cc29f72990df69ef0ee89dbe83ad5b3f9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:58 +0000
Subject: [PATCH 23/68] fix: last character of a snapshot without final line
 end was lost

---
 booktest/testcaserun.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index 43c8151..865bed4 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -326,7 +326,8 @@ s
                     self.exp_line_number += 1
                 else:
                     self.exp_line_number += 1
-                    self.exp_line = line[0:len(line)-1]
+                    # the last line may lack the line end
+                    self.exp_line = line[:-1] if line.endswith('\n') else line
                     self.exp_tokens =\
                         BufferIterator(TestTokenizer(self.exp_line))
             elif self.last_checked:
-- 
2.43.0


From b111d1b039b0cb117a3acf09410ef2457f7afc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:16 +0000
Subject: [PATCH 24/68] fix: report a difference when the output is cut off

A test that stopped writing after a checked line was reported as ok, however
much of the snapshot was missing. The end of a section is already treated the
same way, when the next header is written.
---
 booktest/testcaserun.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index 865bed4..8d09295 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -53,6 +53,7 @@ class TestCaseRun:
         self.exp_line = None
         self.exp_line_number = None
         self.exp_tokens = None
+        self.exp_end_reached = False
 
         # prepare output
         self.out_base_dir = path.join(run.out_dir, relative_dir)
@@ -226,6 +227,7 @@ s
         self.took_ms = 1000*(self.ended - self.started)
 
         self.commit_pending()
+        self.check_end()
         self.close()
 
         if self.errors != 0:
@@ -320,6 +322,7 @@ s
             if self.exp:
                 line = self.exp.readline()
                 if len(line) == 0:
+                    self.exp_end_reached = True
                     self.close_exp_reader()
                     self.exp_line = None
                     self.exp_tokens = None
@@ -476,6 +479,16 @@ s
             self.report("? (differs after the last line)")
             self.line_diff = None
 
+    def check_end(self):
+        """
+        Internal method. Marks a difference, if the test ended on checked content,
+        while the snapshot goes on.
+        """
+        if self.exp_file_exists and not self.exp_end_reached \
+           and (self.last_checked or self.line_number == 0):
+            self.diffs += 1
+            self.report(f"? {'EOF':60s} | {self.exp_line}")
+
     def head_exp_token(self):
         """
         Returns the next token in the snapshot file without moving snapshot file cursor
-- 
2.43.0


From 29f81e1eb317c76f9c9b0552bd522ec9ddb1cef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:22 +0000
Subject: [PATCH 25/68] fix: repeated HTTP requests lost their custom hash

The n-th identical request was hashed with the default hash, which includes the
details the custom hash removes, so that its recording could not be found.
---
 booktest/httpx.py    | 12 ++++++++++--
 booktest/requests.py | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/booktest/httpx.py b/booktest/httpx.py
index c59a675..3777b77 100644
--- a/booktest/httpx.py
+++ b/booktest/httpx.py
@@ -56,14 +56,22 @@ class RequestKey:
             json_object["hash"] = hash_code
 
         self.json_object = json_object
+        self.json_to_hash = json_to_hash
         self.hash = hash_code
 
     def increase_order(self):
         prev_order = self.json_object.get("order", 0)
         json_object = copy.copy(self.json_object)
-        json_object["order"] = prev_order + 1
+        json_object.pop("order", None)
         del json_object["hash"]
-        return RequestKey(json_object, False)
+        first = RequestKey(json_object, False, self.json_to_hash)
+        json_object["order"] = prev_order + 1
+        rv = RequestKey(json_object, False, self.json_to_hash)
+        if rv.hash == first.hash:
+            # the custom hash ignores the order
+            json_object["hash"] = json_to_sha1({"hash": first.hash, "order": prev_order + 1})
+            rv = RequestKey(json_object, False, self.json_to_hash)
+        return rv
 
     def url(self):
         return self.json_object.get("url")
diff --git a/booktest/requests.py b/booktest/requests.py
index 1814743..855a9ee 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -66,14 +66,22 @@ class RequestKey:
             json_object["hash"] = hash_code
 
         self.json_object = json_object
+        self.json_to_hash = json_to_hash
         self.hash = hash_code
 
     def increase_order(self):
         prev_order = self.json_object.get("order", 0)
         json_object = copy.copy(self.json_object)
-        json_object["order"] = prev_order + 1
+        json_object.pop("order", None)
         del json_object["hash"]
-        return RequestKey(json_object, False)
+        first = RequestKey(json_object, False, self.json_to_hash)
+        json_object["order"] = prev_order + 1
+        rv = RequestKey(json_object, False, self.json_to_hash)
+        if rv.hash == first.hash:
+            # the custom hash ignores the order
+            json_object["hash"] = json_to_sha1({"hash": first.hash, "order": prev_order + 1})
+            rv = RequestKey(json_object, False, self.json_to_hash)
+        return rv
 
     def url(self):
         return self.json_object.get("url")
-- 
2.43.0


From 26dbd191775f27be300d413a6b6ab6209e45cc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:26 +0000
Subject: [PATCH 26/68] fix: replay binary httpx responses

Any recorded body that is not UTF-8 failed to load, and bodies without content
type were replayed as text/plain.
---
 booktest/httpx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/httpx.py b/booktest/httpx.py
index 3777b77..672e82d 100644
--- a/booktest/httpx.py
+++ b/booktest/httpx.py
@@ -145,7 +145,7 @@ class RequestSnapshot:
                          json_to_hash=None):
         response_json = json_object["response"]
 
-        content = base64.b64decode(response_json["content"].encode("ascii")).decode("utf-8")
+        content = base64.b64decode(response_json["content"].encode("ascii"))
 
         response = httpx.Response(response_json["statusCode"],
                                   headers=response_json["headers"],
-- 
2.43.0


From f705bf7d3af4e259ef4a239fcf909d46c56c8e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:01 +0000
Subject: [PATCH 27/68] fix: record binary HTTP responses

A response body that is not UTF-8 could not be stored and failed the test.
---
 booktest/requests.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/booktest/requests.py b/booktest/requests.py
index 855a9ee..66d60dd 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -153,23 +153,31 @@ class RequestSnapshot:
         response.headers = response_json["headers"]
         response.status_code = response_json["statusCode"]
         response.encoding = response_json["encoding"]
-        response._content = response_json["content"].encode()
+        content = response_json["content"]
+        if response_json.get("contentEncoding") == "base64":
+            response._content = base64.b64decode(content)
+        else:
+            response._content = content.encode()
 
         return RequestSnapshot(RequestKey(json_object["request"], ignore_headers, json_to_hash),
                                response)
 
     def json_object(self, hide_details):
-        rv = {
-            "request": self.request.to_json_object(hide_details),
-            "response": {
-                "headers": dict(self.response.headers),
-                "statusCode": self.response.status_code,
-                "encoding": self.response.encoding,
-                "content": self.response.content.decode()
-            }
+        response = {
+            "headers": dict(self.response.headers),
+            "statusCode": self.response.status_code,
+            "encoding": self.response.encoding
         }
+        try:
+            response["content"] = self.response.content.decode()
+        except UnicodeDecodeError:
+            response["content"] = base64.b64encode(self.response.content).decode("ascii")
+            response["contentEncoding"] = "base64"
 
-        return rv
+        return {
+            "request": self.request.to_json_object(hide_details),
+            "response": response
+        }
 
     def hash(self):
         return self.request.hash
-- 
2.43.0


From 52926d01ca1e0760c735f48d4007f276f41c6c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:05 +0000
Subject: [PATCH 28/68] fix: replayed HTTP responses lacked their address and
 header lookup

Header names were case sensitive, so that e.g. redirects were not followed in
replay though they had been when recording, and streaming failed.
---
 booktest/requests.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/booktest/requests.py b/booktest/requests.py
index 66d60dd..26865d5 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -150,7 +150,7 @@ class RequestSnapshot:
         response_json = json_object["response"]
 
         response = requests.Response()
-        response.headers = response_json["headers"]
+        response.headers = requests.structures.CaseInsensitiveDict(response_json["headers"])
         response.status_code = response_json["statusCode"]
         response.encoding = response_json["encoding"]
         content = response_json["content"]
@@ -158,6 +158,7 @@ class RequestSnapshot:
             response._content = base64.b64decode(content)
         else:
             response._content = content.encode()
+        response._content_consumed = True
 
         return RequestSnapshot(RequestKey(json_object["request"], ignore_headers, json_to_hash),
                                response)
@@ -235,6 +236,9 @@ class SnapshotAdapter(adapters.BaseAdapter):
         if rv is None:
             rv = adapters.HTTPAdapter().send(request)
             self.requests.append(RequestSnapshot(key, rv))
+        else:
+            rv.url = request.url
+            rv.request = request
 
         return rv
 
-- 
2.43.0


From f8dc6cc5f4646834a30442900fbb4bce7cebce27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:10 +0000
Subject: [PATCH 29/68] fix: concurrent identical async HTTP requests overwrote
 each other's recording

---
 booktest/httpx.py    | 15 ++++++++++-----
 booktest/requests.py |  5 ++---
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/booktest/httpx.py b/booktest/httpx.py
index 672e82d..4ce9715 100644
--- a/booktest/httpx.py
+++ b/booktest/httpx.py
@@ -222,14 +222,14 @@ class SnapshotHttpx:
 
         self.snapshots = snapshots
         self.requests = []
+        self.pending = []
 
         self._real_handle_request = None
         self._real_handle_async_request = None
 
     def mark_order(self, key: RequestKey):
-        for i in self.requests:
-            if key == i.request:
-                key = key.increase_order()
+        while key in self.pending or any(key == i.request for i in self.requests):
+            key = key.increase_order()
 
         return key
 
@@ -266,8 +266,13 @@ class SnapshotHttpx:
         key, rv = self.lookup_snapshot(request)
 
         if rv is None:
-            rv = await self._real_handle_async_request(transport, request)
-            self.requests.append(RequestSnapshot(key, rv))
+            # reserve the order number, identical requests may be made meanwhile
+            self.pending.append(key)
+            try:
+                rv = await self._real_handle_async_request(transport, request)
+                self.requests.append(RequestSnapshot(key, rv))
+            finally:
+                self.pending.remove(key)
 
         return rv
 
diff --git a/booktest/requests.py b/booktest/requests.py
index 26865d5..33a56df 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -204,9 +204,8 @@ class SnapshotAdapter(adapters.BaseAdapter):
         self.requests = []
 
     def mark_order(self, key: RequestKey):
-        for i in self.requests:
-            if key == i.request:
-                key = key.increase_order()
+        while any(key == i.request for i in self.requests):
+            key = key.increase_order()
 
         return key
 
-- 
2.43.0


From 1ef8efc5e8f86dbdaa1e7e162533ea0b95a33c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:48 +0000
Subject: [PATCH 30/68] fix: function snapshots changed when the test modified
 a returned value

---
 booktest/functions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/booktest/functions.py b/booktest/functions.py
index 1cdb85a..9d1db42 100644
--- a/booktest/functions.py
+++ b/booktest/functions.py
@@ -135,7 +135,8 @@ class SnapshotFunctions:
             if snapshot.match(call):
                 if snapshot not in self.calls:
                     self.calls.append(snapshot)
-                return snapshot.result
+                # the caller may modify the value
+                return copy.deepcopy(snapshot.result)
 
         if not self.capture_snapshots:
             raise ValueError(f"missing snapshot for function call {call.func()} - {call.hash}. "
@@ -145,7 +146,7 @@ class SnapshotFunctions:
 
         # remove old version, it may have been timeout
         self.calls = list([i for i in self.calls if not i.call == call])
-        self.calls.append(FunctionCallSnapshot(call, rv))
+        self.calls.append(FunctionCallSnapshot(call, copy.deepcopy(rv)))
 
         return rv
 
-- 
2.43.0


From 3d42c6e3efe3033a66925acea6d32bb2ebf0c7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:28 +0000
Subject: [PATCH 31/68] fix: order of listed function calls differed between
 recording and replay

When a call was repeated, its recording moved to the end of the list, so that
the accepted result differed from every replay.
---
 booktest/functions.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/booktest/functions.py b/booktest/functions.py
index 9d1db42..e015d1a 100644
--- a/booktest/functions.py
+++ b/booktest/functions.py
@@ -144,9 +144,13 @@ class SnapshotFunctions:
 
         rv = func(*args, **kwargs)
 
-        # remove old version, it may have been timeout
-        self.calls = list([i for i in self.calls if not i.call == call])
-        self.calls.append(FunctionCallSnapshot(call, copy.deepcopy(rv)))
+        snapshot = FunctionCallSnapshot(call, copy.deepcopy(rv))
+        if snapshot in self.calls:
+            # replace old version, it may have been timeout. it keeps its
+            # place, as calls are listed by their first occurrence in replay
+            self.calls[self.calls.index(snapshot)] = snapshot
+        else:
+            self.calls.append(snapshot)
 
         return rv
 
-- 
2.43.0


From 6f3bbfd6f0df2a809524c0a2c6b8ac080927bb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:49 +0000
Subject: [PATCH 32/68] fix: CTRL-C did not stop a run of plain tests

asyncio turns the first CTRL-C into a cancellation, which is delivered only when
the run waits, so that all tests were still run.
---
 booktest/testrun.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/booktest/testrun.py b/booktest/testrun.py
index 98fd2bd..be8d4cd 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -157,6 +157,9 @@ class TestRun:
 
             # 2.2.2 run cases
             for case_name in todo:
+                # asyncio delivers CTRL-C, when the task waits
+                await asyncio.sleep(0)
+
                 case = self.tests.get_case(case_name)
                 res, request, duration = \
                     await self.run_case(case_name, case)
-- 
2.43.0


From f6cf3c8fe3e3e750e2fbb409dd6f74857733d8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:06 +0000
Subject: [PATCH 33/68] fix: heading after text on the first line was glued to
 that line

---
 booktest/testcaserun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index 8d09295..c6525e9 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -616,7 +616,7 @@ s
         the only difference between this method and anchorln() method is that the
         header is preceded and followed by an empty line.
         """
-        if self.line_number > 0:
+        if self.line_number > 0 or len(self.out_line) > 0:
             check = self.last_checked and self.exp_line is not None
             self.feed_token("\n", check=check)
         self.anchorln(header)
-- 
2.43.0


From 8a8afe4631142037b2770788e0082e80f76080cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:40 +0000
Subject: [PATCH 34/68] fix: cut-off output was not reported when a set moved
 the cursor to the end

---
 booktest/testcaserun.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index c6525e9..6e597b2 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -807,6 +807,7 @@ s
                 compare.add(self.exp_line[len(prefix):])
                 self.next_exp_line()
             end = self.exp_line_number
+            end_reached = self.exp_end_reached
 
         for i in items:
             i_str = str(i)
@@ -822,6 +823,8 @@ s
         if compare is not None:
             if len(compare) > 0:
                 self.diff()
+            # the elements may have moved the cursor further than the set goes
+            self.exp_end_reached = end_reached
             self.jump(end)
 
     def assertln(self, cond, error_message=None):
-- 
2.43.0


From 86a60e063a20c4aa9200222a390f750370a5716a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:47 +0000
Subject: [PATCH 35/68] fix: cut-off output was not reported after the
 comparison had passed the end once

---
 booktest/testcaserun.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index 6e597b2..83a0309 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -53,7 +53,7 @@ class TestCaseRun:
         self.exp_line = None
         self.exp_line_number = None
         self.exp_tokens = None
-        self.exp_end_reached = False
+        self.exp_lines_seen = set()
 
         # prepare output
         self.out_base_dir = path.join(run.out_dir, relative_dir)
@@ -322,7 +322,6 @@ s
             if self.exp:
                 line = self.exp.readline()
                 if len(line) == 0:
-                    self.exp_end_reached = True
                     self.close_exp_reader()
                     self.exp_line = None
                     self.exp_tokens = None
@@ -482,12 +481,20 @@ s
     def check_end(self):
         """
         Internal method. Marks a difference, if the test ended on checked content,
-        while the snapshot goes on.
-        """
-        if self.exp_file_exists and not self.exp_end_reached \
-           and (self.last_checked or self.line_number == 0):
-            self.diffs += 1
-            self.report(f"? {'EOF':60s} | {self.exp_line}")
+        while the snapshot goes on with lines, that the test didn't write. Parts, that
+        were written earlier (because they are in different order in the snapshot),
+        may follow.
+        """
+        if self.last_checked or self.line_number == 0:
+            end_line = self.exp_line
+            while self.exp_line == "" \
+                    and self.exp_line_number not in self.exp_lines_seen:
+                self.next_exp_line()
+            if end_line is not None \
+               and (self.exp_line is None
+                    or self.exp_line_number not in self.exp_lines_seen):
+                self.diffs += 1
+                self.report(f"? {'EOF':60s} | {end_line}")
 
     def head_exp_token(self):
         """
@@ -533,6 +540,8 @@ s
            and token != exp_token \
            and check:
             self.diff()
+        elif check and self.exp_line is not None:
+            self.exp_lines_seen.add(self.exp_line_number)
         if token == '\n':
             self.commit_line()
         else:
@@ -807,7 +816,6 @@ s
                 compare.add(self.exp_line[len(prefix):])
                 self.next_exp_line()
             end = self.exp_line_number
-            end_reached = self.exp_end_reached
 
         for i in items:
             i_str = str(i)
@@ -823,8 +831,6 @@ s
         if compare is not None:
             if len(compare) > 0:
                 self.diff()
-            # the elements may have moved the cursor further than the set goes
-            self.exp_end_reached = end_reached
             self.jump(end)
 
     def assertln(self, cond, error_message=None):
-- 
2.43.0


From c8bce63d61603cefd96187a635f48a5a1a900b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:17 +0000
Subject: [PATCH 36/68] fix: review and forget crashed before the first run

---
 booktest/reports.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/booktest/reports.py b/booktest/reports.py
index 3d5c9ea..4eb74af 100644
--- a/booktest/reports.py
+++ b/booktest/reports.py
@@ -178,6 +178,8 @@ class CaseReports:
         return self.to_file(report_file)
 
     def to_file(self, file):
+        # nothing may have been run yet
+        os.makedirs(os.path.dirname(file) or ".", exist_ok=True)
         # an interruption must not lose the earlier results
         tmp_file = file + ".tmp"
         with open(tmp_file, "w") as f:
-- 
2.43.0


From 631c75c4527c23bfa481514e483cf6534254ab88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:58 +0000
Subject: [PATCH 37/68] fix: dependency on an inherited test was neither run
 nor ordered

---
 booktest/tests.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/booktest/tests.py b/booktest/tests.py
index 728dd03..428fb69 100644
--- a/booktest/tests.py
+++ b/booktest/tests.py
@@ -76,6 +76,9 @@ class Tests:
             for dependency in method._dependencies:
                 bound_method = bind_dependent_method_if_unbound(method, dependency)
                 case = self.case_by_method(bound_method)
+                if case is None:
+                    # e.g. an inherited method may be a test of the parent only
+                    case = self.case_by_method(dependency)
                 if case is not None:
                     if self.is_selected(case, selection) or \
                        cache_out_dir is None or \
-- 
2.43.0


From 78231b304b415908a2d7e02348e25e32e541b575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:41 +0000
Subject: [PATCH 38/68] fix: replaced functions are put back as they were
 found, also class methods and nested mocks

---
 booktest/functions.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/booktest/functions.py b/booktest/functions.py
index e015d1a..b364c18 100644
--- a/booktest/functions.py
+++ b/booktest/functions.py
@@ -96,15 +96,29 @@ class FunctionSnapshotter:
         return str(self.func)
 
 
+MISSING = object()
+
+
 def set_function(func, value):
+    """ replaces the function with the value and returns a method, which undoes this """
     target = None
     if hasattr(func, "__self__"):
         target = func.__self__
     elif hasattr(func, "__module__"):
         target = sys.modules[func.__module__]
     name = func.__name__
+    # e.g. a class method is not the attribute, that the class has
+    old = getattr(target, "__dict__", {}).get(name, MISSING)
     setattr(target, name, value)
 
+    def undo():
+        if old is MISSING:
+            delattr(target, name)
+        else:
+            setattr(target, name, old)
+
+    return undo
+
 
 class SnapshotFunctions:
 
@@ -127,6 +141,7 @@ class SnapshotFunctions:
         self.snapshots = None
         self.calls = None
         self.snapshotters = None
+        self._undo = []
 
     def snapshot(self, func, *args, **kwargs):
         call = FunctionCall.from_properties(func, args, kwargs)
@@ -170,7 +185,7 @@ class SnapshotFunctions:
 
         for func in self.snapshot_funcs:
             snapshotter = FunctionSnapshotter(self, func)
-            set_function(func, snapshotter)
+            self._undo.append(set_function(func, snapshotter))
             snapshotters.append(snapshotter)
 
         self.snapshots = snapshots
@@ -178,9 +193,8 @@ class SnapshotFunctions:
         self.snapshotters = snapshotters
 
     def stop(self):
-        for snapshotter in self.snapshotters:
-            func = snapshotter.func
-            set_function(func, func)
+        while self._undo:
+            self._undo.pop()()
 
         os.makedirs(self.mock_out_path, exist_ok=True)
 
@@ -246,14 +260,13 @@ class MockFunctions:
         original_funcs = []
 
         for func, mock in self.mock_funcs.items():
-            set_function(func, mock)
-            original_funcs.append(func)
+            original_funcs.append(set_function(func, mock))
 
         self._original_funcs = original_funcs
 
     def stop(self):
-        for func in self._original_funcs:
-            set_function(func, func)
+        for undo in reversed(self._original_funcs):
+            undo()
 
         self._original_funcs = None
 
-- 
2.43.0


From fdbf9353aeab32cc9ed16aae0f5fabd43d73762f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:55 +0000
Subject: [PATCH 39/68] fix: snapshotted functions of the same name no longer
 share their results

---
 booktest/functions.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/booktest/functions.py b/booktest/functions.py
index b364c18..b56dd30 100644
--- a/booktest/functions.py
+++ b/booktest/functions.py
@@ -41,9 +41,9 @@ class FunctionCall:
         return rv
 
     @staticmethod
-    def from_properties(func, args, kwargs):
+    def from_properties(func, args, kwargs, name=None):
         json_object = {
-            "func": str(func.__qualname__),
+            "func": str(name or func.__qualname__),
             "args": list(args),
             "kwargs": dict(kwargs)
         }
@@ -143,8 +143,19 @@ class SnapshotFunctions:
         self.snapshotters = None
         self._undo = []
 
+    def function_name(self, func):
+        """ the name tells the functions apart, that are snapshotted in the test """
+        name = str(func.__qualname__)
+        same = [i for i in self.snapshot_funcs if i == func or str(i.__qualname__) == name]
+        if func in same and any(i != func for i in same):
+            name = f"{func.__module__}.{name}"
+            if any(i != func and i.__module__ == func.__module__ for i in same):
+                # e.g. a method of several objects
+                name = f"{name}#{same.index(func)}"
+        return name
+
     def snapshot(self, func, *args, **kwargs):
-        call = FunctionCall.from_properties(func, args, kwargs)
+        call = FunctionCall.from_properties(func, args, kwargs, self.function_name(func))
 
         for snapshot in reversed(self.snapshots):
             if snapshot.match(call):
-- 
2.43.0


From c94af65e7a721e9bf2af408b9c42de1f7470d4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:45 +0000
Subject: [PATCH 40/68] fix: a test raising e.g. CancelledError fails instead
 of ending the run

---
 booktest/testrun.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/booktest/testrun.py b/booktest/testrun.py
index be8d4cd..535a4ac 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -31,6 +31,15 @@ def match_method(matcher, method):
     return matcher_func == method_func and (matcher_self == method_self or matcher_self is None)
 
 
+def is_interruption(exception):
+    """ tells, whether the exception ends the run, and not only the test that raised it """
+    if isinstance(exception, asyncio.CancelledError):
+        # asyncio delivers CTRL-C by cancelling the task, but tests may cancel their own tasks
+        cancelling = getattr(asyncio.current_task(), "cancelling", None)
+        return cancelling is None or cancelling() > 0
+    return isinstance(exception, (KeyboardInterrupt, GeneratorExit))
+
+
 class TestRun:
     """
     Runs a selection of test cases from the test-object
@@ -98,14 +107,14 @@ class TestRun:
                 rv = case(t)
             # the value must be storable for the dependents
             stored = pickle.dumps(rv)
-        except (Exception, SystemExit) as e:
+        except BaseException as e:
+            if is_interruption(e):
+                # e.g. on CTRL-C, give back stderr and the log handlers
+                t.close()
+                raise
             t.iln().fail().iln(f"test raised exception {e}:")
             t.iln(traceback.format_exc())
             rv = None
-        except BaseException:
-            # e.g. on CTRL-C, give back stderr and the log handlers
-            t.close()
-            raise
 
         result, interaction = t.end()
         if result is TestResult.OK or result is TestResult.DIFF:
-- 
2.43.0


From 8503fd622ff6f4d459c83358fbfeebddd1948b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:24 +0000
Subject: [PATCH 41/68] fix: cookies set by recorded responses were lost at
 replay

---
 booktest/requests.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/booktest/requests.py b/booktest/requests.py
index 33a56df..03911b4 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -1,11 +1,16 @@
 import contextlib
 import functools
 import hashlib
+import io
 import os
 import types
+from http.client import HTTPMessage
+
 import booktest as bt
 import requests
+import urllib3
 from requests import adapters
+from requests.cookies import extract_cookies_to_jar
 import json
 import threading
 import sys
@@ -160,6 +165,19 @@ class RequestSnapshot:
             response._content = content.encode()
         response._content_consumed = True
 
+        # requests takes cookies from the raw response
+        set_cookies = response_json.get("setCookie")
+        if set_cookies is None:
+            set_cookies = [v for k, v in response.headers.items() if k.lower() == "set-cookie"]
+        message = HTTPMessage()
+        for i in set_cookies:
+            message["Set-Cookie"] = i
+        response.raw = urllib3.HTTPResponse(
+            body=io.BytesIO(response._content),
+            status=response.status_code,
+            preload_content=False,
+            original_response=types.SimpleNamespace(msg=message, isclosed=lambda: True))
+
         return RequestSnapshot(RequestKey(json_object["request"], ignore_headers, json_to_hash),
                                response)
 
@@ -175,6 +193,12 @@ class RequestSnapshot:
             response["content"] = base64.b64encode(self.response.content).decode("ascii")
             response["contentEncoding"] = "base64"
 
+        # the headers contain repeated headers only merged together
+        original = getattr(self.response.raw, "_original_response", None)
+        set_cookies = original.msg.get_all("Set-Cookie") if original is not None else None
+        if set_cookies:
+            response["setCookie"] = set_cookies
+
         return {
             "request": self.request.to_json_object(hide_details),
             "response": response
@@ -238,6 +262,7 @@ class SnapshotAdapter(adapters.BaseAdapter):
         else:
             rv.url = request.url
             rv.request = request
+            extract_cookies_to_jar(rv.cookies, request, rv.raw)
 
         return rv
 
-- 
2.43.0


From 37cf27f518e0a659c637d29da35810240d5473e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:57 +0000
Subject: [PATCH 42/68] fix: capture streamed responses, and with the options
 of the request

---
 booktest/requests.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/booktest/requests.py b/booktest/requests.py
index 03911b4..e86247f 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -257,7 +257,9 @@ class SnapshotAdapter(adapters.BaseAdapter):
         key, rv = self.lookup_snapshot(request)
 
         if rv is None:
-            rv = adapters.HTTPAdapter().send(request)
+            rv = adapters.HTTPAdapter().send(request, **kwargs)
+            # streamed responses can be read only once
+            rv.content
             self.requests.append(RequestSnapshot(key, rv))
         else:
             rv.url = request.url
-- 
2.43.0


From 718c3aec1e0b006bd2bc0628d1b32a404824dfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:32 +0000
Subject: [PATCH 43/68] fix: repeated headers of httpx responses were merged at
 replay

---
 booktest/httpx.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/booktest/httpx.py b/booktest/httpx.py
index 4ce9715..ca732e3 100644
--- a/booktest/httpx.py
+++ b/booktest/httpx.py
@@ -158,9 +158,10 @@ class RequestSnapshot:
         payload = self.response.content
 
         # remove possible compression
-        headers = dict(self.response.headers)
-        if "content-encoding" in headers:
-            del headers["content-encoding"]
+        headers = [(k, v) for k, v in self.response.headers.multi_items() if k != "content-encoding"]
+        if len(dict(headers)) == len(headers):
+            # a list is needed only, if headers are repeated
+            headers = dict(headers)
 
         rv = {
             "request": self.request.to_json_object(hide_details),
-- 
2.43.0


From d00e876c14d4e9319f8b2418b3f461b29465bd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:32 +0000
Subject: [PATCH 44/68] fix: capture streamed httpx responses

---
 booktest/httpx.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/booktest/httpx.py b/booktest/httpx.py
index ca732e3..d960a36 100644
--- a/booktest/httpx.py
+++ b/booktest/httpx.py
@@ -259,6 +259,8 @@ class SnapshotHttpx:
 
         if rv is None:
             rv = self._real_handle_request(transport, request)
+            # streamed responses can be read only once
+            rv.read()
             self.requests.append(RequestSnapshot(key, rv))
 
         return rv
@@ -271,6 +273,8 @@ class SnapshotHttpx:
             self.pending.append(key)
             try:
                 rv = await self._real_handle_async_request(transport, request)
+                # streamed responses can be read only once
+                await rv.aread()
                 self.requests.append(RequestSnapshot(key, rv))
             finally:
                 self.pending.remove(key)
-- 
2.43.0


From 23a6d02b1736dc2a1a0b2f7d2902e2631eea9000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:04 +0000
Subject: [PATCH 45/68] fix: concurrent identical HTTP requests of several
 threads overwrote each other's recording

---
 booktest/httpx.py | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/booktest/httpx.py b/booktest/httpx.py
index d960a36..0f9895d 100644
--- a/booktest/httpx.py
+++ b/booktest/httpx.py
@@ -224,6 +224,7 @@ class SnapshotHttpx:
         self.snapshots = snapshots
         self.requests = []
         self.pending = []
+        self.lock = threading.Lock()
 
         self._real_handle_request = None
         self._real_handle_async_request = None
@@ -240,28 +241,35 @@ class SnapshotHttpx:
                                       self._json_to_hash,
                                       self._encode_body)
 
-        key = self.mark_order(key)
+        with self.lock:
+            key = self.mark_order(key)
 
-        for snapshot in reversed(self.snapshots):
-            if snapshot.match(key):
-                if snapshot not in self.requests:
-                    self.requests.append(snapshot)
-                return key, snapshot.response
+            for snapshot in reversed(self.snapshots):
+                if snapshot.match(key):
+                    if snapshot not in self.requests:
+                        self.requests.append(snapshot)
+                    return key, snapshot.response
 
-        if not self.capture_snapshots:
-            raise ValueError(f"missing snapshot for request {request.url} - {key.hash}. "
-                             f"try running booktest with '-s' flag to capture the missing snapshot")
+            if not self.capture_snapshots:
+                raise ValueError(f"missing snapshot for request {request.url} - {key.hash}. "
+                                 f"try running booktest with '-s' flag to capture the missing snapshot")
 
-        return key, None
+            # reserve the order number, identical requests may be made meanwhile
+            self.pending.append(key)
+
+            return key, None
 
     def handle_request(self, transport: httpx.HTTPTransport, request: httpx.Request):
         key, rv = self.lookup_snapshot(request)
 
         if rv is None:
-            rv = self._real_handle_request(transport, request)
-            # streamed responses can be read only once
-            rv.read()
-            self.requests.append(RequestSnapshot(key, rv))
+            try:
+                rv = self._real_handle_request(transport, request)
+                # streamed responses can be read only once
+                rv.read()
+                self.requests.append(RequestSnapshot(key, rv))
+            finally:
+                self.pending.remove(key)
 
         return rv
 
@@ -269,8 +277,6 @@ class SnapshotHttpx:
         key, rv = self.lookup_snapshot(request)
 
         if rv is None:
-            # reserve the order number, identical requests may be made meanwhile
-            self.pending.append(key)
             try:
                 rv = await self._real_handle_async_request(transport, request)
                 # streamed responses can be read only once
-- 
2.43.0


From 24cfc83af354d2298e0ba3459b904ea28414285b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:49 +0000
Subject: [PATCH 46/68] fix: a test file importing TestBook got a test of
 booktest itself

---
 booktest/detection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/booktest/detection.py b/booktest/detection.py
index a30331f..a0bd76a 100644
--- a/booktest/detection.py
+++ b/booktest/detection.py
@@ -67,7 +67,8 @@ def parse_test_file(root, f):
     for name in dir(module):
         member = getattr(module, name)
         if isinstance(member, type) and \
-                issubclass(member, bt.TestBook):
+                issubclass(member, bt.TestBook) and \
+                member is not bt.TestBook:
             member_signature = signature(member)
             needed_arguments = 0
             for parameter in member_signature.parameters.values():
-- 
2.43.0


From dc2053a1e3e89d844ab54651c2882dc1116647e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:50 +0000
Subject: [PATCH 47/68] fix: tests found in several files or paths were listed
 and run several times

---
 booktest/detection.py | 12 +++++++++++-
 booktest/testsuite.py |  6 +++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/booktest/detection.py b/booktest/detection.py
index a0bd76a..17279cd 100644
--- a/booktest/detection.py
+++ b/booktest/detection.py
@@ -58,6 +58,16 @@ def parse_booktest_setup(root, f):
     return BookTestSetup(setup_teardown)
 
 
+# the same class may be found in several files or paths
+test_books = {}
+
+
+def get_test_book(clazz):
+    if clazz not in test_books:
+        test_books[clazz] = clazz()
+    return test_books[clazz]
+
+
 def parse_test_file(root, f):
     rv = []
     test_suite_name = os.path.join(root, clean_test_postfix(f[:len(f) - 3]))
@@ -75,7 +85,7 @@ def parse_test_file(root, f):
                 if parameter.default == Parameter.empty:
                     needed_arguments += 1
             if needed_arguments == 0:
-                rv.append(member())
+                rv.append(get_test_book(member))
         elif isinstance(member, bt.TestBook) or \
                 isinstance(member, bt.Tests):
             rv.append(member)
diff --git a/booktest/testsuite.py b/booktest/testsuite.py
index 3864164..33292ec 100644
--- a/booktest/testsuite.py
+++ b/booktest/testsuite.py
@@ -46,8 +46,12 @@ def merge_tests(tests_or_suites) -> Tests:
     Combines a list of Tests into a single Tests entity
     """
     cases = []
+    methods = {}
     for c in cases_of(tests_or_suites):
-        cases.append([c[0], c[1]])
+        # the same test may be found e.g. in its file and where it is imported
+        if c[1] not in methods.setdefault(c[0], []):
+            methods[c[0]].append(c[1])
+            cases.append([c[0], c[1]])
 
     return Tests(cases)
 
-- 
2.43.0


From 6bd1a1ee8b203b8fe3c0a897661e83fa7be99ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:23 +0000
Subject: [PATCH 48/68] fix: CTRL-C while a worker process loads the tests
 makes a parallel run hang

---
 booktest/runs.py | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/booktest/runs.py b/booktest/runs.py
index 470b79f..c34b43d 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -2,9 +2,11 @@ import traceback
 import multiprocessing
 import os
 import shutil
+import signal
 import threading
 import time
 from collections import defaultdict
+from contextlib import contextmanager
 from copy import copy
 
 from booktest.cache import LruCache
@@ -41,6 +43,27 @@ def prepare_batch_dir(out_dir: str):
         os.makedirs(_batch_dir, exist_ok=True)
 
 
+def init_worker():
+    import coverage
+    # CTRL-C reaches also the workers, but the pool never finishes a job,
+    # whose worker is interrupted before or after running the test
+    signal.signal(signal.SIGINT, signal.SIG_IGN)
+    coverage.process_startup()
+
+
+@contextmanager
+def interruptible():
+    """ lets CTRL-C interrupt the test run by a worker """
+    in_worker = multiprocessing.parent_process() is not None
+    if in_worker:
+        signal.signal(signal.SIGINT, signal.default_int_handler)
+    try:
+        yield
+    finally:
+        if in_worker:
+            signal.signal(signal.SIGINT, signal.SIG_IGN)
+
+
 class RunBatch:
     #
     # Tests are collected into suites, that are
@@ -89,7 +112,7 @@ class RunBatch:
                 PROCESS_LOCAL_CACHE,
                 output)
 
-            with self.setup.setup_teardown():
+            with interruptible(), self.setup.setup_teardown():
                 rv = test_result_to_exit_code(run.run())
         except BaseException as e:
             # also on CTRL-C and sys.exit(): the pool never finishes
@@ -268,9 +291,8 @@ class ParallelRunner:
             time.sleep(0.01)
 
     def __enter__(self):
-        import coverage
         self.finished = False
-        self.pool = multiprocessing.get_context('spawn').Pool(self.process_count, initializer=coverage.process_startup)
+        self.pool = multiprocessing.get_context('spawn').Pool(self.process_count, initializer=init_worker)
         self.pool.__enter__()
 
         self.thread = threading.Thread(target=self.thread_function)
-- 
2.43.0


From a22c82961385bcf606d711113f077f81cac05664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:47 +0000
Subject: [PATCH 49/68] fix: accepting parallel runs don't show, which tests
 differ

---
 booktest/runs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/booktest/runs.py b/booktest/runs.py
index c34b43d..7d3d449 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -173,6 +173,9 @@ class ParallelRunner:
         job_config["continue"] = False
         job_config["interactive"] = False
         job_config["always_interactive"] = False
+        # the results are accepted, when they are reported
+        job_config["accept"] = False
+        job_config["update"] = False
 
         self.batches_dir = batches_dir
         self.run_batch = RunBatch(exp_dir, out_dir, tests, job_config, setup)
-- 
2.43.0


From 951f822a28f0aa90b4af67e552c31a443b807811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:46 +0000
Subject: [PATCH 50/68] fix: a report interrupted in the middle of a character
 made every later run fail

read_lines decoded the torn line strictly, and continuing the interrupted
run ended in UnicodeDecodeError.
---
 booktest/reports.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/booktest/reports.py b/booktest/reports.py
index 4eb74af..971ea12 100644
--- a/booktest/reports.py
+++ b/booktest/reports.py
@@ -47,7 +47,8 @@ def read_lines(path, filename=None):
     else:
         file = os.path.join(path, filename)
     if os.path.exists(file):
-        with open(file, "r") as f:
+        # an interrupted run may have left half of a character at the end
+        with open(file, "r", errors="replace") as f:
             rv = f.read().split("\n")
             if len(rv) > 0 and len(rv[len(rv)-1]) == 0:
                 # remove empty trailing line
-- 
2.43.0


From b9a261c25dca7abc26c48d06a6f84144a81f32c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:06 +0000
Subject: [PATCH 51/68] fix: rel_path takes files of directories with the same
 beginning as the test's files

---
 booktest/testcaserun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index 83a0309..1716fc5 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -178,7 +178,7 @@ class TestCaseRun:
         """
         abs_file = os.path.abspath(file)
         abs_out_base_dir = os.path.abspath(self.out_base_dir)
-        if abs_file[:len(abs_out_base_dir)] == abs_out_base_dir:
+        if abs_file.startswith(os.path.join(abs_out_base_dir, "")):
             return abs_file[len(abs_out_base_dir)+1:]
         else:
             return None
-- 
2.43.0


From 3d3141ad1a972183b02876a01283cc0af4806d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:06 +0000
Subject: [PATCH 52/68] fix: parallel tests named e.g. a.b/c and a/b.c share
 files, and long names fail

---
 booktest/runs.py | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/booktest/runs.py b/booktest/runs.py
index 7d3d449..839a84b 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -83,20 +83,12 @@ class RunBatch:
         self.setup = setup
 
     def __call__(self, case):
-        path = case.split("/")
-        batch_name = ".".join(path)
-        batch_dir = \
-            os.path.join(
-                self.out_dir,
-                ".batches",
-                batch_name)
+        batch_dir, _ = \
+            case_batch_dir_and_report_file(
+                os.path.join(self.out_dir, ".batches"),
+                case)
 
-        output_file = \
-            os.path.join(
-                self.out_dir,
-                ".batches",
-                batch_name,
-                "output.txt")
+        output_file = os.path.join(batch_dir, "output.txt")
 
         output = open(output_file, "w")
 
@@ -126,8 +118,8 @@ class RunBatch:
 
 
 def case_batch_dir_and_report_file(batches_dir, name):
-    path = ".".join(name.split("/"))
-    batch_dir = os.path.join(batches_dir, path)
+    # the postfix tells the batch 'a' from the directory of the batch 'a/b'
+    batch_dir = os.path.join(batches_dir, name + ".batch")
     return batch_dir, os.path.join(batch_dir, "cases.txt")
 
 
-- 
2.43.0


From 5c1d80d67440bf56ba3b415b82ab0e7527d8d113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:06 +0000
Subject: [PATCH 53/68] fix: a decorated suite of functions doesn't find what
 its tests depend on

---
 booktest/testrun.py | 40 ++++++++++++++++++++--------------------
 booktest/tests.py   |  9 ++++++++-
 2 files changed, 28 insertions(+), 21 deletions(-)

diff --git a/booktest/testrun.py b/booktest/testrun.py
index 535a4ac..31b3f45 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -66,26 +66,26 @@ class TestRun:
         self.output = output
 
     def get_test_result(self, case, method):
-        for t in self.tests.cases:
-            # a bit hacky way for figuring out the dependencies
-            if match_method(method, t[1]):
-                bin_path = self.tests.test_result_path(self.out_dir, t[0])
-                if bin_path in self.cache:
-                    return True, self.cache[bin_path]
-
-                if not path.exists(bin_path):
-                    raise Exception(
-                        f"case {case.name} dependency {t[0]}" +
-                        f" missing in '{bin_path}'")
-
-                # the cache may not keep the value
-                with open(bin_path, 'rb') as file:
-                    rv = pickle.load(file)
-                self.cache[bin_path] = rv
-
-                return True, rv
-
-        return False, None
+        # a bit hacky way for figuring out the dependencies
+        name = self.tests.case_by_method(method)
+        if name is None:
+            return False, None
+
+        bin_path = self.tests.test_result_path(self.out_dir, name)
+        if bin_path in self.cache:
+            return True, self.cache[bin_path]
+
+        if not path.exists(bin_path):
+            raise Exception(
+                f"case {case.name} dependency {name}" +
+                f" missing in '{bin_path}'")
+
+        # the cache may not keep the value
+        with open(bin_path, 'rb') as file:
+            rv = pickle.load(file)
+        self.cache[bin_path] = rv
+
+        return True, rv
 
     def save_test_result(self, case_path, result, stored):
         bin_path = self.tests.test_result_path(self.out_dir, case_path)
diff --git a/booktest/tests.py b/booktest/tests.py
index 428fb69..424a2c7 100644
--- a/booktest/tests.py
+++ b/booktest/tests.py
@@ -5,7 +5,7 @@ import argparse
 from coverage import Coverage
 
 from booktest.cache import LruCache
-from booktest.dependencies import bind_dependent_method_if_unbound
+from booktest.dependencies import bind_dependent_method_if_unbound, remove_decoration
 from booktest.detection import BookTestSetup
 from booktest.reports import CaseReports
 from booktest.review import run_tool, quote_files, review
@@ -65,6 +65,13 @@ class Tests:
         for t in self.cases:
             if match_method(method, t[1]):
                 return t[0]
+        # e.g. all tests of a suite may have been decorated afterwards
+        method_self, func = method_identity(method)
+        for t in self.cases:
+            case_self, case_func = method_identity(t[1])
+            if remove_decoration(func) == remove_decoration(case_func) and \
+               (method_self is None or method_self == case_self):
+                return t[0]
         return None
 
     def method_dependencies(self,
-- 
2.43.0


From db93e9f53323268b6a76e6c9a3baccd3cd840859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:09 +0000
Subject: [PATCH 54/68] fix: run crashes, when a test writes or raises a text
 that cannot be stored

---
 booktest/testcaserun.py | 10 ++++++++--
 booktest/testrun.py     | 15 +++++++++++++--
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index 1716fc5..05be8e4 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -105,9 +105,15 @@ class TestCaseRun:
 
     def report(self, *args, sep=' ', end='\n'):
         """ writes a report line in report log and possibly in standard output  """
-        print(*args, sep=sep, end=end, file=self.rep)
+        text = self.storable(sep.join(str(i) for i in args))
+        print(text, end=end, file=self.rep)
         if self.verbose:
-            self.print(*args, sep=sep, end=end)
+            self.print(text, end=end)
+
+    def storable(self, text):
+        """ escapes the characters, that cannot be written in files, e.g. lone surrogates """
+        encoding = self.rep.encoding
+        return text.encode(encoding, "backslashreplace").decode(encoding)
 
     def reset_exp_reader(self):
         """ Resets the reader that reads expectation / snapshot file """
diff --git a/booktest/testrun.py b/booktest/testrun.py
index 31b3f45..8d1eeef 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -40,6 +40,13 @@ def is_interruption(exception):
     return isinstance(exception, (KeyboardInterrupt, GeneratorExit))
 
 
+def exception_text(exception):
+    try:
+        return str(exception)
+    except Exception:
+        return "<exception str() failed>"
+
+
 class TestRun:
     """
     Runs a selection of test cases from the test-object
@@ -107,13 +114,17 @@ class TestRun:
                 rv = case(t)
             # the value must be storable for the dependents
             stored = pickle.dumps(rv)
+            # an unterminated last line must be storable too
+            t.commit_pending()
         except BaseException as e:
             if is_interruption(e):
                 # e.g. on CTRL-C, give back stderr and the log handlers
                 t.close()
                 raise
-            t.iln().fail().iln(f"test raised exception {e}:")
-            t.iln(traceback.format_exc())
+            # the pending line or the exception's text may not be storable
+            t.out_line = t.storable(t.out_line)
+            t.iln().fail().iln(t.storable(f"test raised exception {exception_text(e)}:"))
+            t.iln(t.storable(traceback.format_exc()))
             rv = None
 
         result, interaction = t.end()
-- 
2.43.0


From 8b8f6f8da217c91813912f27fa6fca203c2b6161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:14 +0000
Subject: [PATCH 55/68] fix: run crashes, when an accepted document is not
 valid text

---
 booktest/testcaserun.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index 05be8e4..4ee93bf 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -119,7 +119,8 @@ class TestCaseRun:
         """ Resets the reader that reads expectation / snapshot file """
         self.close_exp_reader()
         if self.exp_file_exists:
-            self.exp = open(self.exp_file_name, "r")
+            # invalid bytes differ from everything a test can write
+            self.exp = open(self.exp_file_name, "r", errors="surrogateescape")
         else:
             self.exp = None
         self.exp_line = None
-- 
2.43.0


From 90f8568301eb96613b14c85bebb9fa4e352fe66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:19 +0000
Subject: [PATCH 56/68] fix: test fails, when it prints a text that cannot be
 encoded to stderr

---
 booktest/testcaserun.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index 4ee93bf..9325c37 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -276,7 +276,8 @@ s
         # open files
         self.out = open(self.out_file_name, "w")
         self.rep = open(self.rep_file_name, "w")
-        self.err = open(self.err_file_name, "w")
+        # like the real stderr
+        self.err = open(self.err_file_name, "w", errors="backslashreplace")
         self.log = logging.StreamHandler(self.err)
 
         # swap logger
-- 
2.43.0


From 623f09ace7aea3e26edbb52275f5cbfaea5c2bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:52 +0000
Subject: [PATCH 57/68] fix: stacked environment snapshots of a test lose each
 other's recordings

---
 booktest/env.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/booktest/env.py b/booktest/env.py
index 4b8f03e..09ff833 100644
--- a/booktest/env.py
+++ b/booktest/env.py
@@ -35,8 +35,8 @@ class SnapshotEnv:
 
         self._old_env = {}
         for name in self.names:
-            old_value = os.environ.get(name)
-            self._old_env[name] = old_value
+            # the same name may be given twice
+            old_value = self._old_env.setdefault(name, os.environ.get(name))
             if name in self.snaphots:
                 value = self.snaphots[name]
                 if value is None:
@@ -63,8 +63,15 @@ class SnapshotEnv:
     def stop(self):
         self.restore()
 
+        # the same test may take several environment snapshots
+        stored = {}
+        if os.path.exists(self.snapshot_out_path):
+            with open(self.snapshot_out_path, "r") as f:
+                stored = json.load(f)
+        stored.update(self.capture)
+
         with open(self.snapshot_out_path, "w") as f:
-            json.dump(self.capture, f, indent=4)
+            json.dump(stored, f, indent=4)
 
     def t_snapshots(self):
         self.t.h1("env snaphots:")
-- 
2.43.0


From 2d3db52a18e9291ab059bb29c223562c466e30ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:09 +0000
Subject: [PATCH 58/68] fix: stacked request snapshots of a test lose each
 other's recordings

---
 booktest/httpx.py    | 4 ++++
 booktest/requests.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/booktest/httpx.py b/booktest/httpx.py
index 0f9895d..6c2b169 100644
--- a/booktest/httpx.py
+++ b/booktest/httpx.py
@@ -325,6 +325,10 @@ class SnapshotHttpx:
 
         # let's store everything in one file to avoid spamming git
         stored = {}
+        # the same test may take several snapshots
+        if os.path.exists(self.mock_out_file):
+            with open(self.mock_out_file, "r") as f:
+                stored = json.load(f)
         for snapshot in self.requests:
             name = snapshot.hash()
             stored[name] = snapshot.json_object(self._lose_request_details)
diff --git a/booktest/requests.py b/booktest/requests.py
index e86247f..9cc8a45 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -406,6 +406,10 @@ class SnapshotRequests:
 
         # let's store everything in one file to avoid spamming git
         stored = {}
+        # the same test may take several snapshots
+        if os.path.exists(self.mock_out_file):
+            with open(self.mock_out_file, "r") as f:
+                stored = json.load(f)
         for snapshot in self._adapter.requests:
             name = snapshot.hash()
             stored[name] = snapshot.json_object(self._lose_request_details)
-- 
2.43.0


From d541d68cb168d87ab32dc4936d6dbdc32b6ecf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:02 +0000
Subject: [PATCH 59/68] fix: snapshotted functions stay replaced, when listing
 their calls fails

---
 booktest/functions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/booktest/functions.py b/booktest/functions.py
index b56dd30..e6e66e7 100644
--- a/booktest/functions.py
+++ b/booktest/functions.py
@@ -230,8 +230,10 @@ class SnapshotFunctions:
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        self.t_snapshots()
-        self.stop()
+        try:
+            self.t_snapshots()
+        finally:
+            self.stop()
 
 
 def snapshot_functions(*snapshot_funcs):
-- 
2.43.0


From bae94d5419f08d6950070bee4fa9089449abd040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:11 +0000
Subject: [PATCH 60/68] fix: functions and variables stay replaced, when
 replacing them fails halfway

---
 booktest/env.py       | 16 ++++++++++++++++
 booktest/functions.py | 34 ++++++++++++++++++++++++++--------
 2 files changed, 42 insertions(+), 8 deletions(-)

diff --git a/booktest/env.py b/booktest/env.py
index 09ff833..07c34c2 100644
--- a/booktest/env.py
+++ b/booktest/env.py
@@ -122,6 +122,14 @@ class MockMissingEnv:
             raise ValueError("already started")
 
         self._old_env = {}
+        try:
+            self.mock()
+        except BaseException:
+            # e.g. a value is not a string
+            self.stop()
+            raise
+
+    def mock(self):
         for name, value in self.env.items():
             old_value = os.environ.get(name)
             self._old_env[name] = old_value
@@ -171,6 +179,14 @@ class MockEnv:
             raise ValueError("already started")
 
         self._old_env = {}
+        try:
+            self.mock()
+        except BaseException:
+            # e.g. a value is not a string
+            self.stop()
+            raise
+
+    def mock(self):
         for name, value in self.env.items():
             old_value = os.environ.get(name)
             self._old_env[name] = old_value
diff --git a/booktest/functions.py b/booktest/functions.py
index e6e66e7..a5ed9d3 100644
--- a/booktest/functions.py
+++ b/booktest/functions.py
@@ -194,19 +194,30 @@ class SnapshotFunctions:
 
         snapshotters = []
 
-        for func in self.snapshot_funcs:
-            snapshotter = FunctionSnapshotter(self, func)
-            self._undo.append(set_function(func, snapshotter))
-            snapshotters.append(snapshotter)
+        try:
+            self.replace(snapshotters)
+        except BaseException:
+            # e.g. methods of builtin types cannot be replaced
+            self.restore()
+            raise
 
         self.snapshots = snapshots
         self.calls = []
         self.snapshotters = snapshotters
 
-    def stop(self):
+    def replace(self, snapshotters):
+        for func in self.snapshot_funcs:
+            snapshotter = FunctionSnapshotter(self, func)
+            self._undo.append(set_function(func, snapshotter))
+            snapshotters.append(snapshotter)
+
+    def restore(self):
         while self._undo:
             self._undo.pop()()
 
+    def stop(self):
+        self.restore()
+
         os.makedirs(self.mock_out_path, exist_ok=True)
 
         for snapshot in self.calls:
@@ -270,13 +281,20 @@ class MockFunctions:
         if self._original_funcs is not None:
             raise RuntimeError('FunctionSnapshots has already been started')
 
-        original_funcs = []
+        self._original_funcs = []
+        try:
+            self.mock()
+        except BaseException:
+            # e.g. methods of builtin types cannot be replaced
+            self.stop()
+            raise
+
+    def mock(self):
+        original_funcs = self._original_funcs
 
         for func, mock in self.mock_funcs.items():
             original_funcs.append(set_function(func, mock))
 
-        self._original_funcs = original_funcs
-
     def stop(self):
         for undo in reversed(self._original_funcs):
             undo()
-- 
2.43.0


From f9e266e5f5cdd8af1a1dce2a9cde71cc1aa7d78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:45 +0000
Subject: [PATCH 61/68] fix: tests of a class in a file such as test_book.py
 get an empty part in their name and are cleaned as garbage

---
 booktest/naming.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/booktest/naming.py b/booktest/naming.py
index 22b24cd..3000a4c 100644
--- a/booktest/naming.py
+++ b/booktest/naming.py
@@ -66,5 +66,6 @@ def class_to_test_path(clazz):
         # be lenient with underscores for backward compatibility
         test_name_path.append(cleaned_class_name)
 
-    return "/".join(test_name_path)
+    # nothing may be left of a name such as test_book.py
+    return "/".join(i for i in test_name_path if i)
 
-- 
2.43.0


From 24330706646d3c686b8c81aebeac3906c7d0b22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:37 +0000
Subject: [PATCH 62/68] fix: sessions keep a replaced get_adapter after the
 test

---
 booktest/requests.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/booktest/requests.py b/booktest/requests.py
index 9cc8a45..598fce2 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -332,7 +332,6 @@ class SnapshotRequests:
         self.mock_out_file = t.file(".requests.json")
         self._mock_target = requests.Session
         self._last_send = None
-        self._last_get_adapter = None
         self._lose_request_details = lose_request_details
         self._ignore_headers = ignore_headers
         self._encode_body = encode_body
@@ -372,20 +371,24 @@ class SnapshotRequests:
 
         # backup last `send` for restoration on `self.stop`
         self._last_send = self._mock_target.send
-        self._last_get_adapter = self._mock_target.get_adapter
 
         def _fake_get_adapter(session, url):
             return self._adapter
 
         def _fake_send(session, request, **kwargs):
             with threading_rlock(timeout=10):
+                # the session may have an adapter method of its own
+                last_get_adapter = vars(session).get("get_adapter")
                 _set_method(session, "get_adapter", _fake_get_adapter)
 
                 try:
                     return _original_send(session, request, **kwargs)
                 finally:
                     # restore get_adapter
-                    _set_method(session, "get_adapter", self._last_get_adapter)
+                    if last_get_adapter is None:
+                        del session.get_adapter
+                    else:
+                        session.get_adapter = last_get_adapter
 
             if isinstance(self._mock_target, type):
                 return self._last_send(session, request, **kwargs)
-- 
2.43.0


From 6d4ddfdf2617e54cd86a294547f206ec42ccc42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:37 +0000
Subject: [PATCH 63/68] fix: informational values that are not texts crash the
 test

---
 booktest/testcaserun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index 9325c37..bcdfde1 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -585,7 +585,7 @@ s
         NOTE: The token content IS NOT COMPARED to snapshot content, and differences
         are ignored
         """
-        tokens = TestTokenizer(text)
+        tokens = TestTokenizer(str(text))
         for t in tokens:
             self.feed_token(t)
         return self
-- 
2.43.0


From b825e255334b4f41c4e6a2ff9d331d8b0c4cace5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:37 +0000
Subject: [PATCH 64/68] fix: tables with repeated names, or names that are not
 texts, are written wrong or crash the test

---
 booktest/testcaserun.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index bcdfde1..2b84c93 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -753,16 +753,17 @@ s
         NOTE: df should be of pd.DataFrame or compatible type
         """
         pads = []
-        for column in df.columns:
-            max_len = len(column)
-            for i in df.index:
-                max_len = max(max_len, len(str(df[column][i])))
+        # the names of columns and rows need not be unique or text
+        for j, column in enumerate(df.columns):
+            max_len = len(str(column))
+            for i in range(len(df.index)):
+                max_len = max(max_len, len(str(df.iloc[i, j])))
             pads.append(max_len)
 
         buf = ""
         buf += "|"
         for i, column in enumerate(df.columns):
-            buf += column.ljust(pads[i])
+            buf += str(column).ljust(pads[i])
             buf += "|"
         self.iln(buf)
         buf = "|"
@@ -770,10 +771,10 @@ s
             buf += "-" * i
             buf += "|"
         self.tln(buf)
-        for i in df.index:
+        for i in range(len(df.index)):
             self.t("|")
             for j, column in enumerate(df.columns):
-                buf = str(df[column][i])\
+                buf = str(df.iloc[i, j])\
                           .replace("\r", " ")\
                           .replace("\n", " ")\
                           .strip()
-- 
2.43.0


From 07b790cb891e9b07ae730a7669dd028d7938ab83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:52 +0000
Subject: [PATCH 65/68] fix: replayed responses lose the reason of the recorded
 response

---
 booktest/httpx.py    | 11 ++++++++++-
 booktest/requests.py |  6 ++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/booktest/httpx.py b/booktest/httpx.py
index 6c2b169..b8f4d2b 100644
--- a/booktest/httpx.py
+++ b/booktest/httpx.py
@@ -147,9 +147,15 @@ class RequestSnapshot:
 
         content = base64.b64decode(response_json["content"].encode("ascii"))
 
+        # e.g. raise_for_status() tells the reason
+        extensions = {}
+        if "reason" in response_json:
+            extensions["reason_phrase"] = response_json["reason"].encode("ascii", "ignore")
+
         response = httpx.Response(response_json["statusCode"],
                                   headers=response_json["headers"],
-                                  content=content)
+                                  content=content,
+                                  extensions=extensions)
 
         return RequestSnapshot(RequestKey(json_object["request"], ignore_headers, json_to_hash),
                                response)
@@ -172,6 +178,9 @@ class RequestSnapshot:
             }
         }
 
+        if self.response.reason_phrase != httpx.codes.get_reason_phrase(self.response.status_code):
+            rv["response"]["reason"] = self.response.reason_phrase
+
         return rv
 
     def hash(self):
diff --git a/booktest/requests.py b/booktest/requests.py
index 598fce2..58e9d57 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -158,6 +158,8 @@ class RequestSnapshot:
         response.headers = requests.structures.CaseInsensitiveDict(response_json["headers"])
         response.status_code = response_json["statusCode"]
         response.encoding = response_json["encoding"]
+        # e.g. raise_for_status() tells the reason
+        response.reason = response_json.get("reason")
         content = response_json["content"]
         if response_json.get("contentEncoding") == "base64":
             response._content = base64.b64decode(content)
@@ -193,6 +195,10 @@ class RequestSnapshot:
             response["content"] = base64.b64encode(self.response.content).decode("ascii")
             response["contentEncoding"] = "base64"
 
+        # older snapshots have no reason
+        if self.response.reason is not None:
+            response["reason"] = self.response.reason
+
         # the headers contain repeated headers only merged together
         original = getattr(self.response.raw, "_original_response", None)
         set_cookies = original.msg.get_all("Set-Cookie") if original is not None else None
-- 
2.43.0


From bc857ecac37c776b5d92013b8373c0ab46cee2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:52 +0000
Subject: [PATCH 66/68] fix: asynchronous httpx requests with streamed bodies
 crash when recorded

---
 booktest/httpx.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/booktest/httpx.py b/booktest/httpx.py
index b8f4d2b..dc79ceb 100644
--- a/booktest/httpx.py
+++ b/booktest/httpx.py
@@ -283,6 +283,8 @@ class SnapshotHttpx:
         return rv
 
     async def handle_async_request(self, transport: httpx.AsyncHTTPTransport, request: httpx.Request):
+        # the body may be an asynchronous stream
+        await request.aread()
         key, rv = self.lookup_snapshot(request)
 
         if rv is None:
-- 
2.43.0


From 9ed96646bf4f6402f97d6870cbeb066cc6f78377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:52 +0000
Subject: [PATCH 67/68] fix: further requests of digest authentication are not
 recorded

---
 booktest/requests.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/booktest/requests.py b/booktest/requests.py
index 58e9d57..f5a7044 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -272,6 +272,9 @@ class SnapshotAdapter(adapters.BaseAdapter):
             rv.request = request
             extract_cookies_to_jar(rv.cookies, request, rv.raw)
 
+        # e.g. digest authentication sends a second request through it
+        rv.connection = self
+
         return rv
 
 
-- 
2.43.0


From b53d128c20a32ea715c2c9e63fa80a92f3f7cc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:04 +0000
Subject: [PATCH 68/68] fix: tests of a base class depend on their own
 instance, also when a derived class that shares them comes first

---
 booktest/testbook.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/booktest/testbook.py b/booktest/testbook.py
index 99000a5..197499b 100644
--- a/booktest/testbook.py
+++ b/booktest/testbook.py
@@ -78,7 +78,10 @@ class TestBook(metaclass=OrderedClass):
                     if m[0] == name:
                         unbound = m[1].__func__
                         if not hasattr(unbound, "_self_type"):
-                            unbound._self_type = type(self)
+                            # a derived class may share the test of its base
+                            unbound._self_type = next(
+                                (c for c in reversed(type(self).__mro__) if any(i is unbound for i in vars(c).values())),
+                                type(self))
                         cases.append([clean_method_name(name), m[1]])
 
         self.test_suite = TestSuite(full_path, cases)
-- 
2.43.0

