From ae64eeeb887f296695dd4d901bdb8d31c208d36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:40 +0000
Subject: [PATCH 1/7] fix: build the absent-control marker as floats so integer
 data cannot turn it into a bogus control

np.full_like kept the dtype of the mimicked array, so with integer Z (or A)
the NaN marker was cast to the most negative integer and then applied as a
real control input.
---
 src/kalmankit/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kalmankit/utils.py b/src/kalmankit/utils.py
index f386b5b..e9c1839 100644
--- a/src/kalmankit/utils.py
+++ b/src/kalmankit/utils.py
@@ -30,7 +30,7 @@ def check_none_and_broadcast(
         Array with np.nan values or original array if is not None.
     """
     if arr is None:
-        arr = np.full_like(broad_to, np.nan)
+        arr = np.full_like(broad_to, np.nan, dtype=float)
 
     return arr
 
-- 
2.43.0


From 0092bd26bbf53adcfaeadb363f4110685d3e4dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:40 +0000
Subject: [PATCH 2/7] fix: let KalmanFilter.predict take Bk=None or uk=None as
 documented

---
 src/kalmankit/standard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kalmankit/standard.py b/src/kalmankit/standard.py
index c930a92..328ea6a 100644
--- a/src/kalmankit/standard.py
+++ b/src/kalmankit/standard.py
@@ -176,7 +176,7 @@ class KalmanFilter:
             Prior value of state covariance.
         """
         # project state ahead
-        if is_nan_all(Bk) or is_nan_all(uk):
+        if Bk is None or uk is None or is_nan_all(Bk) or is_nan_all(uk):
             xk_prior = Ak @ xk
         else:
             xk_prior = Ak @ xk + Bk @ uk
-- 
2.43.0


From 947efe64396f826268cd355dc7b1656747dcbed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:40 +0000
Subject: [PATCH 3/7] fix: accept a float measurement noise R in filter and
 smooth as documented

---
 src/kalmankit/extended.py | 7 ++++++-
 src/kalmankit/standard.py | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/kalmankit/extended.py b/src/kalmankit/extended.py
index f6a84ea..ff11eae 100644
--- a/src/kalmankit/extended.py
+++ b/src/kalmankit/extended.py
@@ -283,8 +283,13 @@ class ExtendedKalmanFilter:
         predict_func = self.predict
         update_func = self.update
 
+        # a float R is the same variance for every observation
+        R = self.R
+        if np.ndim(R) == 0:
+            R = [R * np.identity(np.size(zk)) for zk in Z]
+
         # feedback-control loop
-        _iterable = zip(U, Z, self.Q, self.R)
+        _iterable = zip(U, Z, self.Q, R)
         for k, (uk, zk, Qk, Rk) in enumerate(_iterable):
             # predict step, get prior estimates
             xk_prior, Pk_prior = predict_func(xk=xk, uk=uk, Pk=Pk, Qk=Qk)
diff --git a/src/kalmankit/standard.py b/src/kalmankit/standard.py
index 328ea6a..6050305 100644
--- a/src/kalmankit/standard.py
+++ b/src/kalmankit/standard.py
@@ -287,8 +287,13 @@ class KalmanFilter:
         predict_func = self.predict
         update_func = self.update
 
+        # a float R is the same variance for every observation
+        R = self.R
+        if np.ndim(R) == 0:
+            R = [R * np.identity(np.size(zk)) for zk in Z]
+
         # feedback-control loop
-        _iterable = zip(self.A, self.H, self.B, U, Z, self.Q, self.R)
+        _iterable = zip(self.A, self.H, self.B, U, Z, self.Q, R)
         for k, (Ak, Hk, Bk, uk, zk, Qk, Rk) in enumerate(_iterable):
             # predict step, get prior estimates
             xk_prior, Pk_prior = predict_func(
-- 
2.43.0


From fcb27383025d806856b84e7bbea6f3edd33c87af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:35 +0000
Subject: [PATCH 4/7] fix: keep single-precision scalar observations from
 lowering the extended innovation's precision

---
 src/kalmankit/extended.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kalmankit/extended.py b/src/kalmankit/extended.py
index ff11eae..92bb7ed 100644
--- a/src/kalmankit/extended.py
+++ b/src/kalmankit/extended.py
@@ -237,6 +237,9 @@ class ExtendedKalmanFilter:
         Kk = np.linalg.solve(Sk.T, Hk @ Pk.T).T
         self.kalman_gains.append(Kk)
 
+        # a single-precision scalar would keep the innovation in that precision
+        zk = np.asarray(zk, dtype=float)
+
         # update estimate via zk
         xk_posterior = xk + Kk @ np.atleast_1d((zk - self.h(xk)))
 
-- 
2.43.0


From f9f3710e30de3da8c0ce0a1cadd909b92c3b3f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:42 +0000
Subject: [PATCH 5/7] fix: keep other repositories' work tree, index and
 objects in the environment out of the version

---
 src/kalmankit/_version.py | 4 ++++
 versioneer.py             | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/src/kalmankit/_version.py b/src/kalmankit/_version.py
index f60db0f..16d6040 100644
--- a/src/kalmankit/_version.py
+++ b/src/kalmankit/_version.py
@@ -286,6 +286,10 @@ def git_pieces_from_vcs(
     # but that should not change where we get our version from.
     env = os.environ.copy()
     env.pop("GIT_DIR", None)
+    # Nor may the working tree, index or objects of some other repository.
+    for name in ("GIT_WORK_TREE", "GIT_INDEX_FILE", "GIT_COMMON_DIR",
+                 "GIT_OBJECT_DIRECTORY"):
+        env.pop(name, None)
     runner = functools.partial(runner, env=env)
 
     _, rc = runner(
diff --git a/versioneer.py b/versioneer.py
index 1e3753e..34e2ed2 100644
--- a/versioneer.py
+++ b/versioneer.py
@@ -778,6 +778,10 @@ def git_pieces_from_vcs(
     # but that should not change where we get our version from.
     env = os.environ.copy()
     env.pop("GIT_DIR", None)
+    # Nor may the working tree, index or objects of some other repository.
+    for name in ("GIT_WORK_TREE", "GIT_INDEX_FILE", "GIT_COMMON_DIR",
+                 "GIT_OBJECT_DIRECTORY"):
+        env.pop(name, None)
     runner = functools.partial(runner, env=env)
 
     _, rc = runner(GITS, ["rev-parse", "--git-dir"], cwd=root,
@@ -1309,6 +1313,10 @@ def git_pieces_from_vcs(
     # but that should not change where we get our version from.
     env = os.environ.copy()
     env.pop("GIT_DIR", None)
+    # Nor may the working tree, index or objects of some other repository.
+    for name in ("GIT_WORK_TREE", "GIT_INDEX_FILE", "GIT_COMMON_DIR",
+                 "GIT_OBJECT_DIRECTORY"):
+        env.pop(name, None)
     runner = functools.partial(runner, env=env)
 
     _, rc = runner(GITS, ["rev-parse", "--git-dir"], cwd=root,
-- 
2.43.0


From 1597d2b133bca17e27da1ac6e9bb80bb546918ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:42 +0000
Subject: [PATCH 6/7] fix: fall back instead of failing to import when git
 rev-list or git show fails

---
 src/kalmankit/_version.py |  9 ++++++---
 versioneer.py             | 14 ++++++++++++--
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/kalmankit/_version.py b/src/kalmankit/_version.py
index 16d6040..b808532 100644
--- a/src/kalmankit/_version.py
+++ b/src/kalmankit/_version.py
@@ -408,12 +408,15 @@ def git_pieces_from_vcs(
         # HEX: no tags
         pieces["closest-tag"] = None
         out, rc = runner(GITS, ["rev-list", "HEAD", "--left-right"], cwd=root)
+        if out is None:
+            raise NotThisMethod("'git rev-list' failed")
         pieces["distance"] = len(out.split())  # total number of commits
 
     # commit date: see ISO-8601 comment in git_versions_from_keywords()
-    date = runner(GITS, ["show", "-s", "--format=%ci", "HEAD"], cwd=root)[
-        0
-    ].strip()
+    date, rc = runner(GITS, ["show", "-s", "--format=%ci", "HEAD"], cwd=root)
+    if date is None:
+        raise NotThisMethod("'git show' failed")
+    date = date.strip()
     # Use only the last line.  Previous lines may contain GPG signature
     # information.
     date = date.splitlines()[-1]
diff --git a/versioneer.py b/versioneer.py
index 34e2ed2..0ef3a5b 100644
--- a/versioneer.py
+++ b/versioneer.py
@@ -886,10 +886,15 @@ def git_pieces_from_vcs(
         # HEX: no tags
         pieces["closest-tag"] = None
         out, rc = runner(GITS, ["rev-list", "HEAD", "--left-right"], cwd=root)
+        if out is None:
+            raise NotThisMethod("'git rev-list' failed")
         pieces["distance"] = len(out.split())  # total number of commits
 
     # commit date: see ISO-8601 comment in git_versions_from_keywords()
-    date = runner(GITS, ["show", "-s", "--format=%%ci", "HEAD"], cwd=root)[0].strip()
+    date, rc = runner(GITS, ["show", "-s", "--format=%%ci", "HEAD"], cwd=root)
+    if date is None:
+        raise NotThisMethod("'git show' failed")
+    date = date.strip()
     # Use only the last line.  Previous lines may contain GPG signature
     # information.
     date = date.splitlines()[-1]
@@ -1421,10 +1426,15 @@ def git_pieces_from_vcs(
         # HEX: no tags
         pieces["closest-tag"] = None
         out, rc = runner(GITS, ["rev-list", "HEAD", "--left-right"], cwd=root)
+        if out is None:
+            raise NotThisMethod("'git rev-list' failed")
         pieces["distance"] = len(out.split())  # total number of commits
 
     # commit date: see ISO-8601 comment in git_versions_from_keywords()
-    date = runner(GITS, ["show", "-s", "--format=%ci", "HEAD"], cwd=root)[0].strip()
+    date, rc = runner(GITS, ["show", "-s", "--format=%ci", "HEAD"], cwd=root)
+    if date is None:
+        raise NotThisMethod("'git show' failed")
+    date = date.strip()
     # Use only the last line.  Previous lines may contain GPG signature
     # information.
     date = date.splitlines()[-1]
-- 
2.43.0


From 4f0b88623b181139eae8ff06223045f4f79c1696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:42 +0000
Subject: [PATCH 7/7] fix: keep importable on branches whose name is not valid
 UTF-8

---
 src/kalmankit/_version.py | 2 +-
 versioneer.py             | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kalmankit/_version.py b/src/kalmankit/_version.py
index b808532..cbecb4f 100644
--- a/src/kalmankit/_version.py
+++ b/src/kalmankit/_version.py
@@ -121,7 +121,7 @@ def run_command(
         if verbose:
             print("unable to find command, tried %s" % (commands,))
         return None, None
-    stdout = process.communicate()[0].strip().decode()
+    stdout = process.communicate()[0].strip().decode(errors="replace")
     if process.returncode != 0:
         if verbose:
             print("unable to run %s (error)" % dispcmd)
diff --git a/versioneer.py b/versioneer.py
index 0ef3a5b..b2fe1b2 100644
--- a/versioneer.py
+++ b/versioneer.py
@@ -496,7 +496,7 @@ def run_command(
         if verbose:
             print("unable to find command, tried %s" % (commands,))
         return None, None
-    stdout = process.communicate()[0].strip().decode()
+    stdout = process.communicate()[0].strip().decode(errors="replace")
     if process.returncode != 0:
         if verbose:
             print("unable to run %s (error)" % dispcmd)
@@ -623,7 +623,7 @@ def run_command(
         if verbose:
             print("unable to find command, tried %%s" %% (commands,))
         return None, None
-    stdout = process.communicate()[0].strip().decode()
+    stdout = process.communicate()[0].strip().decode(errors="replace")
     if process.returncode != 0:
         if verbose:
             print("unable to run %%s (error)" %% dispcmd)
-- 
2.43.0

