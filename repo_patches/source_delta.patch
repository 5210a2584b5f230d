From b3831ae3ed5ba7d274f180aed929d22e08bacc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:34 +0000
Subject: [PATCH 01/54] fix: accept triangular distributions ending below zero
 and reject empty ones

---
 src/SALib/util/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SALib/util/__init__.py b/src/SALib/util/__init__.py
index 47e73bc..f1af48f 100644
--- a/src/SALib/util/__init__.py
+++ b/src/SALib/util/__init__.py
@@ -187,7 +187,7 @@ def _nonuniform_scale_samples(params, bounds, dists):
                 )
 
             # checking for correct parameters
-            if b1 < 0 or b2 < 0 or b2 >= 1 or loc_start > b1:
+            if b1 <= loc_start or b2 < 0 or b2 >= 1:
                 raise ValueError(
                     """Triangular distribution bound error: Scale must be
                     greater than zero; peak on interval [0,1], triangular
-- 
2.43.0


From fdeea6310b6c72990febc230154a33002a0ce07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:34 +0000
Subject: [PATCH 02/54] fix: reject log-uniform bounds that are not positive
 and increasing

---
 src/SALib/util/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/SALib/util/__init__.py b/src/SALib/util/__init__.py
index f1af48f..259f793 100644
--- a/src/SALib/util/__init__.py
+++ b/src/SALib/util/__init__.py
@@ -208,7 +208,13 @@ def _nonuniform_scale_samples(params, bounds, dists):
                 conv_params[:, i] = params[:, i] * (b2 - b1) + b1
 
         elif dists[i] == "logunif":
-            conv_params[:, i] = sp.stats.loguniform.ppf(params[:, i], a=b1, b=b2)
+            if b1 <= 0 or b1 >= b2:
+                raise ValueError(
+                    """Log-uniform distribution: lower bound must be greater
+                    than zero and less than upper bound"""
+                )
+            else:
+                conv_params[:, i] = sp.stats.loguniform.ppf(params[:, i], a=b1, b=b2)
 
         elif dists[i] == "norm":
             if b2 <= 0:
-- 
2.43.0


From 680f2ede7433e9cd86327fbbadeabda6b64cdc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:34 +0000
Subject: [PATCH 03/54] fix: honour seed=0 in the Sobol analysis

---
 src/SALib/analyze/sobol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SALib/analyze/sobol.py b/src/SALib/analyze/sobol.py
index 6cb5ed3..1ed661a 100644
--- a/src/SALib/analyze/sobol.py
+++ b/src/SALib/analyze/sobol.py
@@ -110,7 +110,7 @@ def analyze(
        Reliability Engineering & System Safety, 92(7), 957-960.
        https://doi.org/10.1016/j.ress.2006.07.001
     """
-    if seed:
+    if seed is not None:
         # Set seed to ensure CIs are the same
         rng = np.random.default_rng(seed).integers
     else:
-- 
2.43.0


From 8dabc73d792af6e814fc4a40910043c6b26767c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:34 +0000
Subject: [PATCH 04/54] fix: report zero Sobol indices for constant outputs
 instead of NaN

---
 src/SALib/analyze/sobol.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/SALib/analyze/sobol.py b/src/SALib/analyze/sobol.py
index 1ed661a..048d0be 100644
--- a/src/SALib/analyze/sobol.py
+++ b/src/SALib/analyze/sobol.py
@@ -138,7 +138,10 @@ def analyze(
     # Estimates of the Sobol' indices can be biased for non-centered outputs
     # so we center here by normalizing with the standard deviation.
     # Other approaches opt to subtract the mean.
-    Y = (Y - Y.mean()) / Y.std()
+    Y = Y - Y.mean()
+    Y_std = Y.std()
+    if Y_std != 0.0:
+        Y = Y / Y_std
 
     A, B, AB, BA = separate_output_values(Y, D, N, calc_second_order)
     r = rng(N, size=(N, num_resamples))
-- 
2.43.0


From 11aa944781020aa2a98c9eb7944c4c342517ac4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:34 +0000
Subject: [PATCH 05/54] fix: report zero Sobol confidence for constant
 resamples in every mode

---
 src/SALib/analyze/sobol.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/SALib/analyze/sobol.py b/src/SALib/analyze/sobol.py
index 048d0be..aa56153 100644
--- a/src/SALib/analyze/sobol.py
+++ b/src/SALib/analyze/sobol.py
@@ -180,9 +180,12 @@ def analyze(
             for j in range(D):
                 for k in range(j + 1, D):
                     S["S2"][j, k] = second_order(A, AB[:, j], AB[:, k], BA[:, j], B)
-                    S["S2_conf"][j, k] = Z * second_order(
-                        A[r], AB[r, j], AB[r, k], BA[r, j], B[r]
-                    ).std(ddof=1)
+                    if var_diff != 0.0:
+                        S["S2_conf"][j, k] = Z * second_order(
+                            A[r], AB[r, j], AB[r, k], BA[r, j], B[r]
+                        ).std(ddof=1)
+                    else:
+                        S["S2_conf"][j, k] = 0.0
     else:
         tasks, n_processors = create_task_list(D, calc_second_order, n_processors)
 
@@ -284,9 +287,12 @@ def separate_output_values(Y, D, N, calc_second_order):
 
 def sobol_parallel(Z, A, AB, BA, B, r, tasks):
     sobol_indices = []
+    var_diff = np.ptp(np.r_[A[r], B[r]])
     for d, j, k in tasks:
         if d == "S1":
             s = first_order(A, AB[:, j], B)
+        elif d.endswith("_conf") and var_diff == 0.0:
+            s = 0.0
         elif d == "S1_conf":
             s = Z * first_order(A[r], AB[r, j], B[r]).std(ddof=1)
         elif d == "ST":
-- 
2.43.0


From e7fb9d3a29f8a6d3afb8c052e4aa9966ea53313f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:34 +0000
Subject: [PATCH 06/54] fix: keep the Sobol resamples when running in parallel

---
 src/SALib/analyze/sobol.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/SALib/analyze/sobol.py b/src/SALib/analyze/sobol.py
index aa56153..fb2807d 100644
--- a/src/SALib/analyze/sobol.py
+++ b/src/SALib/analyze/sobol.py
@@ -291,18 +291,21 @@ def sobol_parallel(Z, A, AB, BA, B, r, tasks):
     for d, j, k in tasks:
         if d == "S1":
             s = first_order(A, AB[:, j], B)
-        elif d.endswith("_conf") and var_diff == 0.0:
-            s = 0.0
-        elif d == "S1_conf":
-            s = Z * first_order(A[r], AB[r, j], B[r]).std(ddof=1)
         elif d == "ST":
             s = total_order(A, AB[:, j], B)
-        elif d == "ST_conf":
-            s = Z * total_order(A[r], AB[r, j], B[r]).std(ddof=1)
         elif d == "S2":
             s = second_order(A, AB[:, j], AB[:, k], BA[:, j], B)
-        elif d == "S2_conf":
-            s = Z * second_order(A[r], AB[r, j], AB[r, k], BA[r, j], B[r]).std(ddof=1)
+        else:
+            if d == "S1_conf":
+                resamples = first_order(A[r], AB[r, j], B[r])
+            elif d == "ST_conf":
+                resamples = total_order(A[r], AB[r, j], B[r])
+            elif d == "S2_conf":
+                resamples = second_order(A[r], AB[r, j], AB[r, k], BA[r, j], B[r])
+
+            s = Z * resamples.std(ddof=1) if var_diff != 0.0 else 0.0
+            if d != "S2_conf":
+                sobol_indices.append([d + "_all", j, k, resamples])
         sobol_indices.append([d, j, k, s])
 
     return sobol_indices
@@ -363,7 +366,10 @@ def Si_list_to_dict(
         L += list
 
     for s in L:  # First order (+conf.)
-        if s[2] is None:
+        if s[0].endswith("_all"):
+            if keep_resamples:
+                S[s[0]][:, s[1]] = s[3]
+        elif s[2] is None:
             S[s[0]][s[1]] = s[3]
         else:
             S[s[0]][s[1], s[2]] = s[3]
-- 
2.43.0


From 5ab021cbd5376a2305da3a678baa16d7b55669f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:13 +0000
Subject: [PATCH 07/54] fix: honour seed=0 in every analyser

---
 src/SALib/analyze/delta.py         | 2 +-
 src/SALib/analyze/dgsm.py          | 2 +-
 src/SALib/analyze/enhanced_hdmr.py | 2 +-
 src/SALib/analyze/fast.py          | 2 +-
 src/SALib/analyze/ff.py            | 2 +-
 src/SALib/analyze/hdmr.py          | 2 +-
 src/SALib/analyze/pawn.py          | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/SALib/analyze/delta.py b/src/SALib/analyze/delta.py
index 52bcb82..788cbc7 100644
--- a/src/SALib/analyze/delta.py
+++ b/src/SALib/analyze/delta.py
@@ -159,7 +159,7 @@ def analyze(
            sensitivity measures from given data." European Journal of
            Operational Research, 226(3):536-550, doi:10.1016/j.ejor.2012.11.047.
     """
-    if seed:
+    if seed is not None:
         np.random.seed(seed)
 
     valid_methods = {"delta", "sobol", "all"}
diff --git a/src/SALib/analyze/dgsm.py b/src/SALib/analyze/dgsm.py
index 5e8ae11..f6ad7c9 100644
--- a/src/SALib/analyze/dgsm.py
+++ b/src/SALib/analyze/dgsm.py
@@ -55,7 +55,7 @@ def analyze(
            indices." Mathematics and Computers in Simulation, 79(10):3009-3017,
            doi:10.1016/j.matcom.2009.01.023.
     """
-    if seed:
+    if seed is not None:
         np.random.seed(seed)
 
     D = problem["num_vars"]
diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index d4aef0f..9e89afb 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -196,7 +196,7 @@ def analyze(
        https://doi.org/10.1029/2022WR032834
     """
     # Random Seed
-    if seed:
+    if seed is not None:
         np.random.seed(seed)
 
     # Check arguments
diff --git a/src/SALib/analyze/fast.py b/src/SALib/analyze/fast.py
index a6e4f2c..2511db2 100644
--- a/src/SALib/analyze/fast.py
+++ b/src/SALib/analyze/fast.py
@@ -65,7 +65,7 @@ def analyze(
        fast99 - R `sensitivity` package
        https://github.com/cran/sensitivity/blob/master/R/fast99.R
     """
-    if seed:
+    if seed is not None:
         np.random.seed(seed)
 
     D = problem["num_vars"]
diff --git a/src/SALib/analyze/ff.py b/src/SALib/analyze/ff.py
index 98592e8..e3fbb0d 100644
--- a/src/SALib/analyze/ff.py
+++ b/src/SALib/analyze/ff.py
@@ -68,7 +68,7 @@ def analyze(problem, X, Y, second_order=False, print_to_console=False, seed=None
            Wiley, West Sussex, U.K.
            http://doi.org/10.1002/9780470725184
     """
-    if seed:
+    if seed is not None:
         np.random.seed(seed)
 
     problem = extend_bounds(problem)
diff --git a/src/SALib/analyze/hdmr.py b/src/SALib/analyze/hdmr.py
index e2a46e8..3bd9362 100644
--- a/src/SALib/analyze/hdmr.py
+++ b/src/SALib/analyze/hdmr.py
@@ -177,7 +177,7 @@ def analyze(
     )
 
     # Random Seed
-    if seed:
+    if seed is not None:
         rng = handle_seed(seed)  # noqa
 
     # Initial part: Check input arguments and define HDMR variables
diff --git a/src/SALib/analyze/pawn.py b/src/SALib/analyze/pawn.py
index 80851ce..e25722f 100644
--- a/src/SALib/analyze/pawn.py
+++ b/src/SALib/analyze/pawn.py
@@ -103,7 +103,7 @@ def analyze(
            Combining variance- and distribution-based global sensitivity analysis
            https://github.com/baronig/GSA-cvd
     """
-    if seed:
+    if seed is not None:
         np.random.seed(seed)
 
     D = problem["num_vars"]
-- 
2.43.0


From e7e9075593287a63bfc7d10b7175c452ee43290e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:13 +0000
Subject: [PATCH 08/54] fix: do not clip finite difference steps to the
 parameters of unbounded distributions

---
 src/SALib/sample/finite_diff.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/SALib/sample/finite_diff.py b/src/SALib/sample/finite_diff.py
index 368286f..cb0ed5a 100644
--- a/src/SALib/sample/finite_diff.py
+++ b/src/SALib/sample/finite_diff.py
@@ -57,6 +57,13 @@ def sample(
     D = problem["num_vars"]
     bounds = problem["bounds"]
 
+    # Only some distributions are limited by the first two entries of their bounds
+    dists = problem.get("dists") or ["unif"] * D
+    limited = [
+        d in ("unif", "logunif", "truncnorm") or (d == "triang" and len(b) == 3)
+        for d, b in zip(dists, bounds)
+    ]
+
     # Create base sequence - could be any type of sampling
     base_sequence = sobol_sequence.sample(N + skip_values, D)
 
@@ -76,8 +83,9 @@ def sample(
             bnd_j = bounds[j]
             temp[j] = base_sequence[i, j] * delta
             dgsm_sequence[index, :] = base_sequence[i, :] + temp
-            dgsm_sequence[index, j] = min(dgsm_sequence[index, j], bnd_j[1])
-            dgsm_sequence[index, j] = max(dgsm_sequence[index, j], bnd_j[0])
+            if limited[j]:
+                dgsm_sequence[index, j] = min(dgsm_sequence[index, j], bnd_j[1])
+                dgsm_sequence[index, j] = max(dgsm_sequence[index, j], bnd_j[0])
             index += 1
 
     return dgsm_sequence
-- 
2.43.0


From 2cd567429d754d5b77b81afc1aa2266ae539a863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 09/54] fix: extend fractional factorial problems without
 altering the caller's problem

Dummy parameters also get a distribution and a group of their own, and
problems of more than 512 parameters are accepted.
---
 src/SALib/sample/ff.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/SALib/sample/ff.py b/src/SALib/sample/ff.py
index 0938e4a..3b0609c 100644
--- a/src/SALib/sample/ff.py
+++ b/src/SALib/sample/ff.py
@@ -26,9 +26,11 @@ def find_smallest(num_vars):
     x : int
         Smallest exponent of two greater than `num_vars`
     """
-    for x in range(10):
-        if num_vars <= 2**x:
-            return x
+    x = 0
+    while num_vars > 2**x:
+        x += 1
+
+    return x
 
 
 def extend_bounds(problem):
@@ -38,20 +40,31 @@ def extend_bounds(problem):
     ----------
     problem : dict
         The problem definition
+
+    Returns
+    -------
+    problem : dict
+        A copy of the problem definition, padded with dummy variables
     """
+    problem = dict(problem)
 
     num_vars = problem["num_vars"]
     num_ff_vars = 2 ** find_smallest(num_vars)
     num_dummy_variables = num_ff_vars - num_vars
 
     bounds = list(problem["bounds"])
-    names = problem["names"]
+    names = list(problem["names"])
     if num_dummy_variables > 0:
+        dummies = ["dummy_" + str(var) for var in range(num_dummy_variables)]
         bounds.extend([[0, 1] for x in range(num_dummy_variables)])
-        names.extend(["dummy_" + str(var) for var in range(num_dummy_variables)])
+        names.extend(dummies)
         problem["bounds"] = bounds
         problem["names"] = names
         problem["num_vars"] = num_ff_vars
+        if problem.get("groups"):
+            problem["groups"] = list(problem["groups"]) + dummies
+        if problem.get("dists"):
+            problem["dists"] = list(problem["dists"]) + ["unif"] * len(dummies)
 
     return problem
 
-- 
2.43.0


From 4e12e53237a41c289563a10b8ac3b0b319fe7421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 10/54] fix: do not add groups to the caller's problem in the
 Morris method

---
 src/SALib/analyze/morris.py | 2 +-
 src/SALib/util/__init__.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SALib/analyze/morris.py b/src/SALib/analyze/morris.py
index 1c6c864..8db312a 100644
--- a/src/SALib/analyze/morris.py
+++ b/src/SALib/analyze/morris.py
@@ -135,7 +135,7 @@ def analyze(
 
     rng = handle_seed(seed)
 
-    _define_problem_with_groups(problem)
+    problem = _define_problem_with_groups(problem)
 
     _check_if_array_of_floats(X)
     _check_if_array_of_floats(Y)
diff --git a/src/SALib/util/__init__.py b/src/SALib/util/__init__.py
index 259f793..cd4d065 100644
--- a/src/SALib/util/__init__.py
+++ b/src/SALib/util/__init__.py
@@ -376,7 +376,7 @@ def _define_problem_with_groups(problem: Dict) -> Dict:
     """
     # Checks if there isn't a key 'groups' or if it exists and is set to 'None'
     if "groups" not in problem or not problem["groups"]:
-        problem["groups"] = problem["names"]
+        problem = {**problem, "groups": problem["names"]}
     elif len(problem["groups"]) != problem["num_vars"]:
         raise ValueError(
             "Number of entries in 'groups' should be the same " "as in 'names'"
-- 
2.43.0


From cad0c80451f752a2ff1b400f0ed6977c624d26f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:58 +0000
Subject: [PATCH 11/54] fix: accept every number of slices in PAWN

np.arange(0, 1 + step, step) can end with a quantile above one.
---
 src/SALib/analyze/pawn.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/SALib/analyze/pawn.py b/src/SALib/analyze/pawn.py
index e25722f..0dca634 100644
--- a/src/SALib/analyze/pawn.py
+++ b/src/SALib/analyze/pawn.py
@@ -112,9 +112,8 @@ def analyze(
     results = np.full((D, 6), np.nan)
     temp_pawn = np.full((S, D), np.nan)
 
-    step = 1 / S
+    seq = np.linspace(0, 1, S + 1)
     for d_i in range(D):
-        seq = np.arange(0, 1 + step, step)
         X_di = X[:, d_i]
         X_q = np.nanquantile(X_di, seq)
 
-- 
2.43.0


From a6d2e3cdb44a2c2a3343909c52631424003676b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:59 +0000
Subject: [PATCH 12/54] fix: include the largest sample in the last PAWN slice

---
 src/SALib/analyze/pawn.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/SALib/analyze/pawn.py b/src/SALib/analyze/pawn.py
index 0dca634..1a837e0 100644
--- a/src/SALib/analyze/pawn.py
+++ b/src/SALib/analyze/pawn.py
@@ -118,7 +118,12 @@ def analyze(
         X_q = np.nanquantile(X_di, seq)
 
         for s in range(S):
-            Y_sel = Y[(X_di >= X_q[s]) & (X_di < X_q[s + 1])]
+            in_slice = (X_di >= X_q[s]) & (X_di < X_q[s + 1])
+            if s == S - 1:
+                # the last slice includes the upper edge
+                in_slice |= X_di == X_q[S]
+
+            Y_sel = Y[in_slice]
             if len(Y_sel) == 0:
                 # no available samples
                 continue
-- 
2.43.0


From 0ffb557fadad84cfdea7faccf9233195bc1ab2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:59 +0000
Subject: [PATCH 13/54] fix: use exactly the requested number of bins in RSA

---
 src/SALib/analyze/rsa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SALib/analyze/rsa.py b/src/SALib/analyze/rsa.py
index 22d255a..e1b4dab 100644
--- a/src/SALib/analyze/rsa.py
+++ b/src/SALib/analyze/rsa.py
@@ -124,7 +124,7 @@ def analyze(
 
     Si = ResultDict([(g, results[:, i]) for i, g in enumerate(var_names)])
     Si["names"] = var_names
-    Si["bins"] = np.arange(0.0, 1.0, (1.0 / bins))
+    Si["bins"] = np.linspace(0.0, 1.0, bins, endpoint=False)
     Si["target"] = target
 
     # Attach object methods specific to this sensitivity method to ResultDict.
@@ -142,7 +142,7 @@ def rsa(X: np.ndarray, y: np.ndarray, bins: int = 10, target="X") -> np.ndarray:
     N, D = X.shape
 
     # Pre-allocated arrays to store data/results
-    seq = np.append(np.arange(0.0, 1.0, (1 / bins)), 1.0)
+    seq = np.linspace(0.0, 1.0, bins + 1)
     X_di = np.empty(N)  # store of factor values
     r_s = np.full((bins, D), np.nan)  # results
 
-- 
2.43.0


From f4e0f7c44a6542006e3492d3f541d87273c970f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:59 +0000
Subject: [PATCH 14/54] fix: average RSA results over the members of each group

---
 src/SALib/analyze/rsa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SALib/analyze/rsa.py b/src/SALib/analyze/rsa.py
index e1b4dab..06b44df 100644
--- a/src/SALib/analyze/rsa.py
+++ b/src/SALib/analyze/rsa.py
@@ -112,11 +112,11 @@ def analyze(
     groups = _check_groups(problem)
     var_names, n_groups = extract_group_names(problem)
     if groups:
-        groups = np.array(var_names)
+        groups = np.array(groups)
         tmp = np.full((bins, n_groups), np.nan)
 
         # Take the mean of effects from parameters that are grouped together
-        for grp_id, grp in enumerate(groups):
+        for grp_id, grp in enumerate(var_names):
             tmp[:, grp_id] = np.nanmean(results[:, groups == grp], axis=1)
 
         results = tmp
-- 
2.43.0


From 41bec597ba5bf9333e70eef703b92b2563171b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 15/54] fix: leave RSA bins undefined when fewer than two
 samples lie outside

The Cramer-von Mises test needs two observations on either side and raised
an error for outputs with many equal values.
---
 src/SALib/analyze/rsa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SALib/analyze/rsa.py b/src/SALib/analyze/rsa.py
index 06b44df..8aa5363 100644
--- a/src/SALib/analyze/rsa.py
+++ b/src/SALib/analyze/rsa.py
@@ -184,7 +184,7 @@ def _has_samples(y, sel):
     """
     return (
         (np.count_nonzero(sel) != 0)
-        and (len(y[~sel]) != 0)
+        and (len(y[~sel]) > 1)
         and np.unique(y[sel]).size > 1
     )
 
-- 
2.43.0


From 2bce591b14accf1bb59485344422a07f554dc383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:35 +0000
Subject: [PATCH 16/54] fix: label grouped discrepancy indices with their group
 names

---
 src/SALib/analyze/discrepancy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/SALib/analyze/discrepancy.py b/src/SALib/analyze/discrepancy.py
index 282ff1b..e735567 100644
--- a/src/SALib/analyze/discrepancy.py
+++ b/src/SALib/analyze/discrepancy.py
@@ -84,6 +84,7 @@ def analyze(
         >>> Si = discrepancy.analyze(problem, X, Y, print_to_console=True)
     """
     D = problem["num_vars"]
+    names = problem["names"]
     groups = _check_groups(problem)
     Y = Y.reshape(-1, 1)
 
@@ -109,10 +110,11 @@ def analyze(
             tmp[grp_id, :] = np.mean(s_discrepancy[groups == grp], axis=0)
 
         s_discrepancy = tmp.flatten()
+        names = [str(grp) for grp in unique_grps]
 
     keys = ("s_discrepancy",)
     Si = ResultDict((k, np.zeros(D)) for k in keys)
-    Si["names"] = problem["names"]
+    Si["names"] = names
 
     Si["s_discrepancy"] = s_discrepancy
 
-- 
2.43.0


From abc671aaa6277bbc657828dc0128ff273db2edc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:25 +0000
Subject: [PATCH 17/54] fix: discard the analysis when samples or results are
 replaced

---
 src/SALib/util/problem.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/SALib/util/problem.py b/src/SALib/util/problem.py
index bf0796d..5e0f664 100644
--- a/src/SALib/util/problem.py
+++ b/src/SALib/util/problem.py
@@ -73,8 +73,9 @@ class ProblemSpec(dict):
 
         self._samples = vals
 
-        # Clear results to avoid confusion
+        # Clear results and analysis to avoid confusion
         self._results = None
+        self._analysis = None
 
     @property
     def results(self):
@@ -102,6 +103,9 @@ class ProblemSpec(dict):
 
         self._results = vals
 
+        # Any existing analysis belongs to the previous results
+        self._analysis = None
+
     @property
     def analysis(self):
         return self._analysis
-- 
2.43.0


From d0206be39957cc9b962105068a8282659aa953b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:25 +0000
Subject: [PATCH 18/54] fix: refuse to evaluate a problem without samples

---
 src/SALib/util/problem.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/SALib/util/problem.py b/src/SALib/util/problem.py
index 5e0f664..e54d2a5 100644
--- a/src/SALib/util/problem.py
+++ b/src/SALib/util/problem.py
@@ -184,6 +184,9 @@ class ProblemSpec(dict):
         if nprocs > 1:
             return self.evaluate_parallel(func, *args, nprocs=nprocs, **kwargs)
 
+        if self._samples is None:
+            raise RuntimeError("Sampling not yet conducted")
+
         self.results = func(self._samples, *args, **kwargs)
 
         return self
@@ -291,6 +294,9 @@ class ProblemSpec(dict):
                 " `conda install pathos -c conda-forge`"
             )
 
+        if self._samples is None:
+            raise RuntimeError("Sampling not yet conducted")
+
         if verbose:
             from pathos.parallel import stats
 
-- 
2.43.0


From e41232c19c8e0b3e6d0aa10189555f293701e1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:25 +0000
Subject: [PATCH 19/54] fix: pass extra model arguments on in distributed
 evaluation

---
 src/SALib/util/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SALib/util/problem.py b/src/SALib/util/problem.py
index e54d2a5..78432f9 100644
--- a/src/SALib/util/problem.py
+++ b/src/SALib/util/problem.py
@@ -310,7 +310,7 @@ class ProblemSpec(dict):
         # Split into even chunks
         chunks = np.array_split(self._samples, int(nprocs) * len(servers), axis=0)
 
-        tmp_f = self._wrap_func(func)
+        tmp_f = self._wrap_func(func, *args, **kwargs)
 
         res = list(workers.map(tmp_f, chunks))
 
-- 
2.43.0


From 856c860d60c309250f2682a9b58fb705b4d88a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:25 +0000
Subject: [PATCH 20/54] fix: collect parallel evaluations when a progress bar
 is shown

---
 src/SALib/util/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SALib/util/problem.py b/src/SALib/util/problem.py
index 78432f9..89a68f7 100644
--- a/src/SALib/util/problem.py
+++ b/src/SALib/util/problem.py
@@ -242,7 +242,7 @@ class ProblemSpec(dict):
 
         if ptqdm_available:
             # Display progress bar if available
-            res = p_imap(tmp_f, chunks, num_cpus=nprocs)
+            res = list(p_imap(tmp_f, chunks, num_cpus=nprocs))
         else:
             with Pool(nprocs) as pool:
                 res = list(pool.imap(tmp_f, chunks))
-- 
2.43.0


From 3b89c3b631fa6cca9d1ebb3225e6ccd3c21d90d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:25 +0000
Subject: [PATCH 21/54] fix: refuse to analyse problems with a single group

---
 src/SALib/util/problem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/SALib/util/problem.py b/src/SALib/util/problem.py
index 89a68f7..00dc9d1 100644
--- a/src/SALib/util/problem.py
+++ b/src/SALib/util/problem.py
@@ -346,7 +346,9 @@ class ProblemSpec(dict):
         -------
         self : ProblemSpec object
         """
-        if self["num_vars"] == 1 or (self["groups"] and len("groups") == 1):
+        if self["num_vars"] == 1 or (
+            self["groups"] and len(set(self["groups"])) == 1
+        ):
             msg = (
                 "There is only a single parameter or group defined. There is "
                 "no point in conducting sensitivity analysis as any and all"
-- 
2.43.0


From 810ebf32795508c9a1d4a4802f339245041d93f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:25 +0000
Subject: [PATCH 22/54] fix: accept results given as a single column

---
 src/SALib/util/problem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/SALib/util/problem.py b/src/SALib/util/problem.py
index 00dc9d1..3e4503f 100644
--- a/src/SALib/util/problem.py
+++ b/src/SALib/util/problem.py
@@ -382,7 +382,8 @@ class ProblemSpec(dict):
             for i, out in enumerate(self["outputs"]):
                 self._analysis[out] = func(self, Y=self._results[:, i])
         else:
-            self._analysis = func(self, Y=self._results)
+            # results may be provided as a single column
+            self._analysis = func(self, Y=self._results.reshape(-1))
 
         return self
 
@@ -438,7 +439,7 @@ class ProblemSpec(dict):
                 f" for 1 output."
             )
 
-            res = func(self, Y=self._results)
+            res = func(self, Y=self._results.reshape(-1))
         else:
             max_procs = cpu_count()
             if nprocs is None:
-- 
2.43.0


From 84e2c2f67fb0b26fa9c3b0c49f2b859830510230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:22 +0000
Subject: [PATCH 23/54] fix: pass positional arguments of analysers after the
 data

---
 src/SALib/util/problem.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/SALib/util/problem.py b/src/SALib/util/problem.py
index 3e4503f..015f12a 100644
--- a/src/SALib/util/problem.py
+++ b/src/SALib/util/problem.py
@@ -363,11 +363,7 @@ class ProblemSpec(dict):
         if self._results is None:
             raise RuntimeError("Model not yet evaluated")
 
-        if "X" in func.__code__.co_varnames:
-            # enforce passing of X if expected
-            func = partial(func, *args, X=self._samples, **kwargs)
-        else:
-            func = partial(func, *args, **kwargs)
+        func = self._wrap_analyzer(func, *args, **kwargs)
 
         out_cols = self.get("outputs", None)
         if out_cols is None:
@@ -416,11 +412,7 @@ class ProblemSpec(dict):
         if self._results is None:
             raise RuntimeError("Model not yet evaluated")
 
-        if "X" in func.__code__.co_varnames:
-            # enforce passing of X if expected
-            func = partial(func, *args, X=self._samples, **kwargs)
-        else:
-            func = partial(func, *args, **kwargs)
+        func = self._wrap_analyzer(func, *args, **kwargs)
 
         out_cols = self.get("outputs", None)
         if out_cols is None:
@@ -557,6 +549,20 @@ class ProblemSpec(dict):
 
         return tmp_f
 
+    def _wrap_analyzer(self, func, *args, **kwargs):
+        # Create partial function of the problem spec and keyword `Y`
+        needs_X = "X" in func.__code__.co_varnames
+        if len(args) > 0:
+            # additional positional arguments follow the data
+            data = (self._samples,) if needs_X else ()
+            return lambda spec, Y: func(spec, *data, Y, *args, **kwargs)
+
+        if needs_X:
+            # enforce passing of X if expected
+            kwargs["X"] = self._samples
+
+        return partial(func, **kwargs)
+
     def _collect_results(self, res):
         res_shape = res[0].shape
         if len(res_shape) > 1:
-- 
2.43.0


From 6ecad3a80c96ac1e30542de3f100320642de8c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:28 +0000
Subject: [PATCH 24/54] fix: ignore comments when detecting the format of
 parameter files

---
 src/SALib/util/util_funcs.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/SALib/util/util_funcs.py b/src/SALib/util/util_funcs.py
index 601624d..c405303 100644
--- a/src/SALib/util/util_funcs.py
+++ b/src/SALib/util/util_funcs.py
@@ -66,9 +66,12 @@ def read_param_file(filename, delimiter=None):
     fieldnames = ["name", "lower_bound", "upper_bound", "group", "dist"]
 
     with open(filename, "r") as csvfile:
-        dialect = csv.Sniffer().sniff(csvfile.read(1024), delimiters=delimiter)
-        csvfile.seek(0)
-        reader = csv.DictReader(csvfile, fieldnames=fieldnames, dialect=dialect)
+        # comments and blank lines take no part in detecting the format
+        lines = [
+            ln for ln in csvfile if ln.strip() and not ln.strip().startswith("#")
+        ]
+        dialect = csv.Sniffer().sniff("".join(lines)[:1024], delimiters=delimiter)
+        reader = csv.DictReader(lines, fieldnames=fieldnames, dialect=dialect)
         for row in reader:
             if row["name"].strip().startswith("#"):
                 pass
-- 
2.43.0


From 1d5331f50c9d5dad12dc0974557a83dc620e8806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:28 +0000
Subject: [PATCH 25/54] fix: treat empty group and distribution columns of
 parameter files as missing

---
 src/SALib/util/util_funcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SALib/util/util_funcs.py b/src/SALib/util/util_funcs.py
index c405303..f2e2991 100644
--- a/src/SALib/util/util_funcs.py
+++ b/src/SALib/util/util_funcs.py
@@ -82,7 +82,7 @@ def read_param_file(filename, delimiter=None):
 
                 # If the fourth column does not contain a group name, use
                 # the parameter name
-                if row["group"] is None:
+                if not row["group"]:
                     groups.append(row["name"])
                 elif row["group"] == "NA":
                     groups.append(row["name"])
@@ -91,7 +91,7 @@ def read_param_file(filename, delimiter=None):
 
                 # If the fifth column does not contain a distribution
                 # use uniform
-                if row["dist"] is None:
+                if not row["dist"]:
                     dists.append("unif")
                 else:
                     dists.append(row["dist"])
-- 
2.43.0


From 7e7ae8487806e10fa3ec91d1818d1e1931f41c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:05 +0000
Subject: [PATCH 26/54] fix: use the seed in the HDMR analysis

---
 src/SALib/analyze/hdmr.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/SALib/analyze/hdmr.py b/src/SALib/analyze/hdmr.py
index 3bd9362..a699957 100644
--- a/src/SALib/analyze/hdmr.py
+++ b/src/SALib/analyze/hdmr.py
@@ -177,12 +177,11 @@ def analyze(
     )
 
     # Random Seed
-    if seed is not None:
-        rng = handle_seed(seed)  # noqa
+    rng = handle_seed(seed)
 
     # Initial part: Check input arguments and define HDMR variables
     settings = _check_settings(X, Y, maxorder, maxiter, m, K, R, alpha, lambdax)
-    init_vars = _init(X, Y, settings)
+    init_vars = _init(X, Y, settings, rng)
 
     # Sensitivity Analysis Computation with/without bootstrapping
     SA, Em, RT, Y_em, idx = _compute(X, Y, settings, init_vars)
@@ -371,7 +370,7 @@ def _compute(X, Y, settings, init_vars):
     return (SA, Em, RT, Y_em, idx)
 
 
-def _init(X, Y, settings):
+def _init(X, Y, settings, rng):
     """Initialize HDMR variables."""
     N, d, maxorder, maxiter, m, K, R, alpha, lambdax = settings
 
@@ -381,7 +380,7 @@ def _init(X, Y, settings):
         idx = np.arange(0, N).reshape(N, 1)
     else:
         # Now setup the bootstrap matrix with selection matrix, idx, for samples
-        idx = np.argsort(np.random.rand(N, K), axis=0)[:R]
+        idx = np.argsort(rng.random((N, K)), axis=0)[:R]
 
     # Compute normalized X-values
     X_n = (X - np.tile(X.min(0), (N, 1))) / np.tile((X.max(0)) - X.min(0), (N, 1))
-- 
2.43.0


From 4cd1701d549efdc7aaf016073d737a67c4917aa3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 27/54] fix: do not alter the caller's problem in enhanced HDMR

---
 src/SALib/analyze/enhanced_hdmr.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index 9e89afb..ef566c7 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -258,6 +258,9 @@ def _check_args(
     N, d = X.shape
     y_row = Y.shape[0]
 
+    # Leave the caller's problem definition as it is
+    problem = dict(problem)
+
     # If parameter names are not defined
     if "names" not in problem:
         problem["names"] = [f"x_{i}" for i in range(d)]
@@ -588,7 +591,7 @@ def _core_params(
         )
         for k in keys
     )
-    Si["Term"] = problem["names"]
+    Si["Term"] = list(problem["names"])
     Si["ST"] = np.full(hdmr.nc_t, np.nan)
     Si["ST_conf"] = np.full(hdmr.nc_t, np.nan)
 
-- 
2.43.0


From ea75276b5adf85be21c787421e2a35b10cf380f6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 28/54] fix: make first-order enhanced HDMR work

---
 src/SALib/analyze/enhanced_hdmr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index ef566c7..6dc9337 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -1439,7 +1439,7 @@ def _finalize(hdmr, Si, alpha, return_emulator):
     # Compute the total sensitivity of each parameter/coefficient
     for r in range(hdmr.d):
         if hdmr.max_order == 1:
-            TS = hdmr.S[r, :]
+            TS = Si["S"][r, :]
         elif hdmr.max_order == 2:
             ij = hdmr.d + np.where(np.sum(hdmr.beta == r, axis=1) == 1)[0]
             TS = np.sum(Si["S"][np.append(r, ij), :], axis=0)
-- 
2.43.0


From 4a4026b8d469ee9c569d54b73a4a8b03508bf93b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 29/54] fix: make third-order enhanced HDMR work

---
 src/SALib/analyze/enhanced_hdmr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index 6dc9337..9c3b4b0 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -876,6 +876,7 @@ def _fanova(b_m, hdmr, Si, Y, bootstrap, max_iter, l2_penalty, alpha):
                     Y_res,
                     l2_penalty,
                     hdmr,
+                    t,
                 )
 
         # Calculate component functions
@@ -1445,7 +1446,7 @@ def _finalize(hdmr, Si, alpha, return_emulator):
             TS = np.sum(Si["S"][np.append(r, ij), :], axis=0)
         elif hdmr.max_order == 3:
             ij = hdmr.d + np.where(np.sum(hdmr.beta == r, axis=1) == 1)[0]
-            ijk = hdmr.d + hdmr.nc2 + np.where(np.sum(hdmr.nc3 == r, axis=1) == 1)[0]
+            ijk = hdmr.d + hdmr.nc2 + np.where(np.sum(hdmr.gamma == r, axis=1) == 1)[0]
             TS = np.sum(Si["S"][np.append(r, np.append(ij, ijk)), :], axis=0)
         Si["ST"][r] = np.mean(TS)
         Si["ST_conf"][r] = mult * np.std(TS)
-- 
2.43.0


From da2efff2a0c18f9dc22464b05cc428b997ebe1e0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 30/54] fix: limit the order of enhanced HDMR for problems with
 two parameters

---
 src/SALib/analyze/enhanced_hdmr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index 9c3b4b0..c606448 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -200,7 +200,7 @@ def analyze(
         np.random.seed(seed)
 
     # Check arguments
-    Y, problem, subset, max_iter = _check_args(
+    Y, problem, max_order, subset, max_iter = _check_args(
         problem,
         X,
         Y,
@@ -348,7 +348,7 @@ def _check_args(
     if l2_penalty < 0.0 or l2_penalty > 10:
         raise ValueError("'l2_penalty' should be in between 0 and 10")
 
-    return Y, problem, subset, max_iter
+    return Y, problem, max_order, subset, max_iter
 
 
 def _core_params(
-- 
2.43.0


From 5f78b66bf85baaece2ca26e47df4a9563b9f04b9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 31/54] fix: compute the confidence of the summed enhanced HDMR
 indices over the bootstrap

---
 src/SALib/analyze/enhanced_hdmr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index c606448..42d68b0 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -1455,9 +1455,9 @@ def _finalize(hdmr, Si, alpha, return_emulator):
     Si["Sa_conf"] = mult * np.std(Si["Sa"], axis=1)
     Si["Sb_conf"] = mult * np.std(Si["Sb"], axis=1)
     Si["S_conf"] = mult * np.std(Si["S"], axis=1)
-    Si["Sa_sum_conf"] = mult * np.std(np.sum(Si["Sa"]))
-    Si["Sb_sum_conf"] = mult * np.std(np.sum(Si["Sb"]))
-    Si["S_sum_conf"] = mult * np.std(np.sum(Si["S"]))
+    Si["Sa_sum_conf"] = mult * np.std(np.sum(Si["Sa"], axis=0))
+    Si["Sb_sum_conf"] = mult * np.std(np.sum(Si["Sb"], axis=0))
+    Si["S_sum_conf"] = mult * np.std(np.sum(Si["S"], axis=0))
 
     # Assign Bootstrap Results to Si Dict
     Si["Sa"] = np.mean(Si["Sa"], axis=1)
-- 
2.43.0


From 5d5908fdb601fbf36e9d9086be5cf6d62513dbab Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 32/54] fix: accept the documented range of iterations in
 enhanced HDMR

---
 src/SALib/analyze/enhanced_hdmr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index 42d68b0..ebe2884 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -342,8 +342,8 @@ def _check_args(
     if extended_base:
         max_iter = None
     else:
-        if max_iter not in np.arange(100, 1000):
-            raise ValueError("'max_iter' should be between 100 and 1000")
+        if max_iter not in np.arange(1, 1001):
+            raise ValueError("'max_iter' should be between 1 and 1000")
 
     if l2_penalty < 0.0 or l2_penalty > 10:
         raise ValueError("'l2_penalty' should be in between 0 and 10")
-- 
2.43.0


From 4c278cbaa3eb50d4a89096e66e97f6455929e3fe Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 33/54] fix: extend third-order enhanced HDMR components by
 their own pairs

---
 src/SALib/analyze/enhanced_hdmr.py | 31 ++++++------------------------
 1 file changed, 6 insertions(+), 25 deletions(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index ebe2884..91e2401 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -694,31 +694,12 @@ def _basis_matrix(X, hdmr):
                 col += hdmr.p_o
 
                 p_o_2 = hdmr.p_o**2
-                b_m[:, col : col + p_o_2] = b_m[
-                    :,
-                    hdmr.tnt1
-                    + (2 * hdmr.nt1) * (i + 1)
-                    + i * p_o_2 : hdmr.tnt1
-                    + (i + 1) * (p_o_2 + 2 * hdmr.nt1),
-                ]
-                col += p_o_2
-
-                b_m[:, col : col + p_o_2] = b_m[
-                    :,
-                    hdmr.tnt1
-                    + (2 * hdmr.nt1) * (j + 1)
-                    + j * p_o_2 : hdmr.tnt1
-                    + (j + 1) * (p_o_2 + 2 * hdmr.nt1),
-                ]
-                col += p_o_2
-                b_m[:, col : col + p_o_2] = b_m[
-                    :,
-                    hdmr.tnt1
-                    + (2 * hdmr.nt1) * (k + 1)
-                    + k * p_o_2 : hdmr.tnt1
-                    + (k + 1) * (p_o_2 + 2 * hdmr.nt1),
-                ]
-                col += p_o_2
+                for pair in comb((i, j, k), 2):
+                    # Products of this pair in its second order component
+                    row = np.where((hdmr.beta == pair).all(axis=1))[0][0]
+                    start = hdmr.tnt1 + row * hdmr.nt2 + 2 * hdmr.p_o
+                    b_m[:, col : col + p_o_2] = b_m[:, start : start + p_o_2]
+                    col += p_o_2
 
             for l1, l2, l3 in _prod(
                 range(i * hdmr.p_o, (i + 1) * hdmr.p_o),
-- 
2.43.0


From f653f0e9a929a8b398a4f8969a31f187792a1e2f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 34/54] fix: print enhanced HDMR total indices without removing
 results

---
 src/SALib/analyze/enhanced_hdmr.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index 91e2401..dc35f0f 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -1503,7 +1503,7 @@ def emulate(self, X):
 
 def _print(Si):
     nc_t = len(Si["Sa"])
-    d = np.isnan(Si["ST"]).sum()
+    d = np.sum(~np.isnan(Si["ST"]))
     print("\n")
     cols = "Term    \t      Sa            Sb             S             ST         Significancy "  # noqa: E501
     print(cols)
@@ -1560,10 +1560,6 @@ def _print(Si):
         )
     )
 
-    keys = ("Sa_sum", "Sb_sum", "S_sum", "Sa_sum_conf", "Sb_sum_conf", "S_sum_conf")
-    for k in keys:
-        Si.pop(k, None)
-
 
 def cli_parse(parser):
     parser.add_argument(
-- 
2.43.0


From f2113d953face500af1555943b14f65dc1e0c33a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 35/54] fix: count the coefficients of the right order in the
 HDMR F-test

---
 src/SALib/analyze/hdmr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SALib/analyze/hdmr.py b/src/SALib/analyze/hdmr.py
index a699957..cc7b756 100644
--- a/src/SALib/analyze/hdmr.py
+++ b/src/SALib/analyze/hdmr.py
@@ -646,9 +646,9 @@ def f_test(Y, f0, Y_em, R, alpha, m1, m2, m3, n1, n2, n3, n):
         Y_res1 = Y_res0 - Y_em[:, i]
 
         # Number of parameters of proposed model (order dependent)
-        if i <= n1:
+        if i < n1:
             p1 = m1  # 1st order
-        elif n1 < i <= (n1 + n2):
+        elif n1 <= i < (n1 + n2):
             p1 = m2  # 2nd order
         else:
             p1 = m3  # 3rd order
-- 
2.43.0


From 1fe22ed62f6ed8bd604cc8c1c2587da0c997c5c2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 36/54] fix: compute the confidence of the summed HDMR indices
 over the bootstrap

---
 src/SALib/analyze/hdmr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/SALib/analyze/hdmr.py b/src/SALib/analyze/hdmr.py
index cc7b756..c70762b 100644
--- a/src/SALib/analyze/hdmr.py
+++ b/src/SALib/analyze/hdmr.py
@@ -791,9 +791,9 @@ def _finalize(problem, SA, Em, d, alpha, maxorder, RT, Y_em, bootstrap_idx, X, Y
     Si["Sa_conf"] = mult * np.std(SA["Sa"], axis=1)
     Si["Sb_conf"] = mult * np.std(SA["Sb"], axis=1)
     Si["S_conf"] = mult * np.std(SA["S"], axis=1)
-    Si["Sa_sum_conf"] = mult * np.std(np.sum(SA["Sa"]))
-    Si["Sb_sum_conf"] = mult * np.std(np.sum(SA["Sb"]))
-    Si["S_sum_conf"] = mult * np.std(np.sum(SA["S"]))
+    Si["Sa_sum_conf"] = mult * np.std(np.sum(SA["Sa"], axis=0))
+    Si["Sb_sum_conf"] = mult * np.std(np.sum(SA["Sb"], axis=0))
+    Si["S_sum_conf"] = mult * np.std(np.sum(SA["S"], axis=0))
 
     # F-test # of selection to print out
     Si["select"] = Em["select"].flatten()
-- 
2.43.0


From 470de8f9809a6f875d4157c2d14a6b6364c33ede Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 37/54] fix: default ill-conditioned first-order HDMR terms to
 zero

---
 src/SALib/analyze/hdmr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SALib/analyze/hdmr.py b/src/SALib/analyze/hdmr.py
index c70762b..3eecc91 100644
--- a/src/SALib/analyze/hdmr.py
+++ b/src/SALib/analyze/hdmr.py
@@ -520,7 +520,7 @@ def B_spline(X, m, d):
 def _first_order(B1, Y_res, C1, R, n1, m1, maxiter, lambdax):
     """Compute first order sensitivities."""
     Y_i = np.empty((R, n1))  # Initialize 1st order contributions
-    T1 = np.empty((m1, R, n1))  # Initialize T(emporary) matrix - 1st
+    T1 = np.zeros((m1, R, n1))  # Initialize T(emporary) matrix - 1st
     it = 0  # Initialize iteration counter
 
     lam_eye_m1 = lambdax * identity(m1)
-- 
2.43.0


From d934fd43abc45428352b68607796b752f91d7a83 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 38/54] fix: count the selections of each HDMR term

---
 src/SALib/analyze/hdmr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SALib/analyze/hdmr.py b/src/SALib/analyze/hdmr.py
index 3eecc91..26cc332 100644
--- a/src/SALib/analyze/hdmr.py
+++ b/src/SALib/analyze/hdmr.py
@@ -796,7 +796,7 @@ def _finalize(problem, SA, Em, d, alpha, maxorder, RT, Y_em, bootstrap_idx, X, Y
     Si["S_sum_conf"] = mult * np.std(np.sum(SA["S"], axis=0))
 
     # F-test # of selection to print out
-    Si["select"] = Em["select"].flatten()
+    Si["select"] = np.sum(Em["select"], axis=1)
 
     Si["names"] = Si["Term"]
 
-- 
2.43.0


From d4ccbbbc33ca1754aebbbd0e1464ac47412a8085 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 39/54] fix: keep the summed HDMR indices when printing

---
 src/SALib/analyze/hdmr.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/SALib/analyze/hdmr.py b/src/SALib/analyze/hdmr.py
index 26cc332..565448b 100644
--- a/src/SALib/analyze/hdmr.py
+++ b/src/SALib/analyze/hdmr.py
@@ -996,10 +996,6 @@ def _print(Si, d):
         )
     )
 
-    keys = ("Sa_sum", "Sb_sum", "S_sum", "Sa_sum_conf", "Sb_sum_conf", "S_sum_conf")
-    for k in keys:
-        Si.pop(k, None)
-
     return Si
 
 
-- 
2.43.0


From 90b766b1e0b4017f447e8620f1a2659d13bc6c0f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 40/54] fix: use one covariance estimator in the HDMR
 decomposition

---
 src/SALib/analyze/hdmr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SALib/analyze/hdmr.py b/src/SALib/analyze/hdmr.py
index 565448b..0857141 100644
--- a/src/SALib/analyze/hdmr.py
+++ b/src/SALib/analyze/hdmr.py
@@ -695,7 +695,7 @@ def ancova(Y, Y_em, V_Y, n, R):
     # See Li et al. (2010)  for more details
 
     # Structural contribution of jth term ( = Eq. 20 of Li et al )
-    S_a = np.var(Y_em, axis=0) / V_Y
+    S_a = np.var(Y_em, axis=0, ddof=1) / V_Y
 
     # Correlative contribution of jth term ( = Eq. 21 of Li et al )
     cov_matrix = np.empty((m, m))
-- 
2.43.0


From 793c2a488b9c24688908051564720f02bab1834f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 41/54] fix: include the mean in the enhanced HDMR emulator

---
 src/SALib/analyze/enhanced_hdmr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index dc35f0f..66773ff 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -1498,7 +1498,7 @@ def emulate(self, X):
     # Get component functions
     Y_em = _comp_func(b_m, self["hdmr"], emulator=True)
 
-    return np.sum(Y_em, axis=1)
+    return self["hdmr"].f0 + np.sum(Y_em, axis=1)
 
 
 def _print(Si):
-- 
2.43.0


From c01f0e53093e80cf1aa8d40f303ddf5625bc84d4 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 42/54] fix: pass seed and skipped values of the Sobol sampling
 command on

---
 src/SALib/sample/sobol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/SALib/sample/sobol.py b/src/SALib/sample/sobol.py
index 07e905a..ec0e687 100644
--- a/src/SALib/sample/sobol.py
+++ b/src/SALib/sample/sobol.py
@@ -242,6 +242,8 @@ def cli_action(args):
         args.samples,
         calc_second_order=(args.max_order == 2),
         scramble=args.scramble,
+        skip_values=args.skip_values or 0,
+        seed=args.seed,
     )
     np.savetxt(
         args.output,
-- 
2.43.0


From 94aa7b42c2eea94dca93a73974eea749804cf1d7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 43/54] fix: read False options of the Morris commands as false

---
 src/SALib/analyze/morris.py       | 2 +-
 src/SALib/sample/morris/morris.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SALib/analyze/morris.py b/src/SALib/analyze/morris.py
index 8db312a..cfabd1b 100644
--- a/src/SALib/analyze/morris.py
+++ b/src/SALib/analyze/morris.py
@@ -630,7 +630,7 @@ def cli_parse(parser):
     )
     parser.add_argument(
         "--scaled",
-        type=bool,
+        type=lambda x: str(x).lower() not in ("false", "0", ""),
         required=False,
         default=False,
         help="Scale the results by ratio of stddev of X and Y (Morris)",
diff --git a/src/SALib/sample/morris/morris.py b/src/SALib/sample/morris/morris.py
index d54cdd9..20bd784 100644
--- a/src/SALib/sample/morris/morris.py
+++ b/src/SALib/sample/morris/morris.py
@@ -445,7 +445,7 @@ def cli_parse(parser):
     parser.add_argument(
         "-lo",
         "--local",
-        type=bool,
+        type=lambda x: str(x).lower() not in ("false", "0", ""),
         required=True,
         default=False,
         help="Use the local optimisation method \
-- 
2.43.0


From d9e6959f146fe9eb642f586395e4c121c3a4c598 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 44/54] fix: give the optional PAWN and RSA command options
 their defaults

---
 src/SALib/analyze/pawn.py | 7 ++++++-
 src/SALib/analyze/rsa.py  | 2 ++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/SALib/analyze/pawn.py b/src/SALib/analyze/pawn.py
index 1a837e0..d3d5ef9 100644
--- a/src/SALib/analyze/pawn.py
+++ b/src/SALib/analyze/pawn.py
@@ -185,7 +185,12 @@ def cli_parse(parser):
     )
 
     parser.add_argument(
-        "-S", "--slices", type=int, required=False, help="Number of slices to take"
+        "-S",
+        "--slices",
+        type=int,
+        required=False,
+        default=10,
+        help="Number of slices to take",
     )
     return parser
 
diff --git a/src/SALib/analyze/rsa.py b/src/SALib/analyze/rsa.py
index 8aa5363..71df1b0 100644
--- a/src/SALib/analyze/rsa.py
+++ b/src/SALib/analyze/rsa.py
@@ -250,6 +250,7 @@ def cli_parse(parser):
         "--bins",
         type=int,
         required=False,
+        default=20,
         help="Number of bins to partition target space into",
     )
 
@@ -258,6 +259,7 @@ def cli_parse(parser):
         "--target",
         type=str,
         required=False,
+        default="Y",
         help="Target input space (X) or output space (Y)",
     )
 
-- 
2.43.0


From df1abc357af256001b00adfa007eb7f7da8728be Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 45/54] fix: read single-column model inputs as one parameter

---
 src/SALib/analyze/discrepancy.py | 2 +-
 src/SALib/analyze/pawn.py        | 2 +-
 src/SALib/analyze/rbd_fast.py    | 2 +-
 src/SALib/analyze/rsa.py         | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/SALib/analyze/discrepancy.py b/src/SALib/analyze/discrepancy.py
index e735567..2aa6bc3 100644
--- a/src/SALib/analyze/discrepancy.py
+++ b/src/SALib/analyze/discrepancy.py
@@ -134,7 +134,7 @@ def cli_parse(parser):
 
 def cli_action(args):
     problem = read_param_file(args.paramfile)
-    X = np.loadtxt(args.model_input_file, delimiter=args.delimiter)
+    X = np.loadtxt(args.model_input_file, delimiter=args.delimiter, ndmin=2)
     Y = np.loadtxt(
         args.model_output_file, delimiter=args.delimiter, usecols=(args.column,)
     )
diff --git a/src/SALib/analyze/pawn.py b/src/SALib/analyze/pawn.py
index d3d5ef9..c6fe238 100644
--- a/src/SALib/analyze/pawn.py
+++ b/src/SALib/analyze/pawn.py
@@ -197,7 +197,7 @@ def cli_parse(parser):
 
 def cli_action(args):
     problem = read_param_file(args.paramfile)
-    X = np.loadtxt(args.model_input_file, delimiter=args.delimiter)
+    X = np.loadtxt(args.model_input_file, delimiter=args.delimiter, ndmin=2)
     Y = np.loadtxt(
         args.model_output_file, delimiter=args.delimiter, usecols=(args.column,)
     )
diff --git a/src/SALib/analyze/rbd_fast.py b/src/SALib/analyze/rbd_fast.py
index d642557..0d9168e 100644
--- a/src/SALib/analyze/rbd_fast.py
+++ b/src/SALib/analyze/rbd_fast.py
@@ -177,7 +177,7 @@ def cli_parse(parser):
 
 def cli_action(args):
     problem = read_param_file(args.paramfile)
-    X = np.loadtxt(args.model_input_file, delimiter=args.delimiter)
+    X = np.loadtxt(args.model_input_file, delimiter=args.delimiter, ndmin=2)
     Y = np.loadtxt(
         args.model_output_file, delimiter=args.delimiter, usecols=(args.column,)
     )
diff --git a/src/SALib/analyze/rsa.py b/src/SALib/analyze/rsa.py
index 71df1b0..5bf586e 100644
--- a/src/SALib/analyze/rsa.py
+++ b/src/SALib/analyze/rsa.py
@@ -268,7 +268,7 @@ def cli_parse(parser):
 
 def cli_action(args):
     problem = read_param_file(args.paramfile)
-    X = np.loadtxt(args.model_input_file, delimiter=args.delimiter)
+    X = np.loadtxt(args.model_input_file, delimiter=args.delimiter, ndmin=2)
     Y = np.loadtxt(
         args.model_output_file, delimiter=args.delimiter, usecols=(args.column,)
     )
-- 
2.43.0


From 4187058204011bdcaaa08ddee25050bc8758dab5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 46/54] fix: pass the seed of the HDMR commands on

---
 src/SALib/analyze/enhanced_hdmr.py | 1 +
 src/SALib/analyze/hdmr.py          | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index 66773ff..ce2a994 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -1671,6 +1671,7 @@ def cli_action(args):
         "extended_base": args.extended_base,
         "print_to_console": args.print_to_console,
         "return_emulator": args.return_emulator,
+        "seed": args.seed,
     }
 
     if len(X.shape) == 1:
diff --git a/src/SALib/analyze/hdmr.py b/src/SALib/analyze/hdmr.py
index 0857141..bb7a2b5 100644
--- a/src/SALib/analyze/hdmr.py
+++ b/src/SALib/analyze/hdmr.py
@@ -1084,6 +1084,7 @@ def cli_action(args):
         "alpha": alpha,
         "lambdax": lambdax,
         "print_to_console": True,
+        "seed": args.seed,
     }
 
     if len(X.shape) == 1:
-- 
2.43.0


From 5b3d366d087b1588176e96775296c5ec00db9ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:02 +0000
Subject: [PATCH 47/54] fix: refuse a single group of several parameters in
 every method that compares groups

---
 src/SALib/analyze/sobol.py   | 3 ++-
 src/SALib/util/util_funcs.py | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/SALib/analyze/sobol.py b/src/SALib/analyze/sobol.py
index fb2807d..ee4a585 100644
--- a/src/SALib/analyze/sobol.py
+++ b/src/SALib/analyze/sobol.py
@@ -7,7 +7,7 @@ import numpy as np
 import pandas as pd
 
 from . import common_args
-from ..util import read_param_file, ResultDict, extract_group_names
+from ..util import read_param_file, ResultDict, extract_group_names, _check_groups
 
 from multiprocessing import Pool, cpu_count
 from functools import partial
@@ -118,6 +118,7 @@ def analyze(
 
     # Determine if groups are defined and adjusting the number
     # of rows in the cross-sampled matrix accordingly
+    _check_groups(problem)
     _, D = extract_group_names(problem)
 
     if calc_second_order and Y.size % (2 * D + 2) == 0:
diff --git a/src/SALib/util/util_funcs.py b/src/SALib/util/util_funcs.py
index f2e2991..eb003a2 100644
--- a/src/SALib/util/util_funcs.py
+++ b/src/SALib/util/util_funcs.py
@@ -127,7 +127,10 @@ def _check_groups(problem):
         return False
 
     if len(set(groups)) == 1:
-        return False
+        if len(problem["names"]) == 1:
+            return False
+
+        raise ValueError("Only one group defined, results will not be meaningful")
 
     return groups
 
-- 
2.43.0


From 4f0b1db67f18c239687609bb20e7ac5f07717949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:02 +0000
Subject: [PATCH 48/54] fix: refuse group lists whose length is not the number
 of parameters

---
 src/SALib/sample/latin.py    | 4 ++++
 src/SALib/util/util_funcs.py | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/src/SALib/sample/latin.py b/src/SALib/sample/latin.py
index a818348..14bc0f9 100644
--- a/src/SALib/sample/latin.py
+++ b/src/SALib/sample/latin.py
@@ -49,6 +49,10 @@ def sample(problem, N, seed: Optional[Union[int, np.random.Generator, None]] = N
 
     groups = problem.get("groups")
     if groups:
+        if len(groups) != problem["num_vars"]:
+            raise ValueError(
+                "Number of entries in 'groups' should be the same as in 'names'"
+            )
         num_groups = len(set(groups))
         G, group_names = compute_groups_matrix(groups)
     else:
diff --git a/src/SALib/util/util_funcs.py b/src/SALib/util/util_funcs.py
index eb003a2..9b93346 100644
--- a/src/SALib/util/util_funcs.py
+++ b/src/SALib/util/util_funcs.py
@@ -126,6 +126,11 @@ def _check_groups(problem):
     if groups == problem["names"]:
         return False
 
+    if len(groups) != len(problem["names"]):
+        raise ValueError(
+            "Number of entries in 'groups' should be the same as in 'names'"
+        )
+
     if len(set(groups)) == 1:
         if len(problem["names"]) == 1:
             return False
-- 
2.43.0


From 7db0e0c5dd6b56470befceef08e2a8e9962c76c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:37 +0000
Subject: [PATCH 49/54] fix: tabulate second-order indices of one and two
 parameters like all others

---
 src/SALib/analyze/sobol.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/SALib/analyze/sobol.py b/src/SALib/analyze/sobol.py
index ee4a585..7b009b2 100644
--- a/src/SALib/analyze/sobol.py
+++ b/src/SALib/analyze/sobol.py
@@ -417,10 +417,7 @@ def Si_to_pandas_dict(S_dict):
     if "S2" in S_dict:
         names, _ = extract_group_names(S_dict.problem)
 
-        if len(names) > 2:
-            idx = list(combinations(names, 2))
-        else:
-            idx = (names,)
+        idx = list(combinations(names, 2))
 
         second_order = {
             "S2": [S_dict["S2"][names.index(i[0]), names.index(i[1])] for i in idx],
-- 
2.43.0


From fccf36e463de2de11fb248d5badb56b2d6666467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:37 +0000
Subject: [PATCH 50/54] fix: label heatmap rows by the indices they show

---
 src/SALib/plotting/heatmap.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/SALib/plotting/heatmap.py b/src/SALib/plotting/heatmap.py
index 702c1cc..e0eceff 100644
--- a/src/SALib/plotting/heatmap.py
+++ b/src/SALib/plotting/heatmap.py
@@ -57,7 +57,11 @@ def heatmap(sp: Dict, metric: str, index: str, title: str = None, ax=None):
         met_data = sp.analysis
 
     si_shape = met_data[index[0]].shape
-    s_data = np.vstack([met_data[k] for k in index if met_data[k].shape == si_shape])
+
+    # Only indices of the same shape can share a heatmap
+    # e.g., cannot easily show second-order values at the moment
+    index = [k for k in index if met_data[k].shape == si_shape]
+    s_data = np.vstack([met_data[k] for k in index])
 
     ax.imshow(s_data)
     fig.colorbar(ax.images[0], ax=ax, shrink=0.9)
@@ -75,10 +79,7 @@ def heatmap(sp: Dict, metric: str, index: str, title: str = None, ax=None):
     ax.xaxis.set_ticks(range(0, len(disp_names)))
     ax.xaxis.set_ticklabels(disp_names, rotation=90)
 
-    # Account for indices that may have been filtered out
-    # e.g., cannot easily show second-order values at the moment
-    disp_idx = s_data.shape[0]
-    ax.yaxis.set_ticks(range(0, len(index[0:disp_idx])))
-    ax.yaxis.set_ticklabels(index[0:disp_idx])
+    ax.yaxis.set_ticks(range(0, len(index)))
+    ax.yaxis.set_ticklabels(index)
 
     return ax
-- 
2.43.0


From 840c9e0e9939c4ebe9b1f4fab79ea1c26ebadd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:54 +0000
Subject: [PATCH 51/54] fix: emulate new inputs with the range and mean of the
 HDMR analysis

---
 src/SALib/analyze/hdmr.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/SALib/analyze/hdmr.py b/src/SALib/analyze/hdmr.py
index bb7a2b5..d06b85d 100644
--- a/src/SALib/analyze/hdmr.py
+++ b/src/SALib/analyze/hdmr.py
@@ -868,8 +868,9 @@ def emulate(self, X, Y=None):
     # Initialize emulated Y's
     Y_em = np.zeros((N, n1 + n2 + n3))
 
-    # Compute normalized X-values
-    X_n = (X - np.tile(X.min(0), (N, 1))) / np.tile((X.max(0)) - X.min(0), (N, 1))
+    # Compute normalized X-values, by the range of the inputs the coefficients belong to
+    x_min, x_max = self["X"].min(0), self["X"].max(0)
+    X_n = (X - np.tile(x_min, (N, 1))) / np.tile(x_max - x_min, (N, 1))
 
     # Now compute B values
     B1 = B_spline(X_n, m, d)
@@ -905,12 +906,10 @@ def emulate(self, X, Y=None):
         for j in range(n1 + n2, n1 + n2 + n3):
             Y_em[:, j] = B3[:, :, j - n1 - n2] @ C3[:, j - n1 - n2]
 
-    Y_mean = 0
     if Y is not None:
-        Y_mean = np.mean(Y)
         self["Y_test"] = Y
 
-    self["emulated"] = np.sum(Y_em, axis=1) + Y_mean
+    self["emulated"] = np.sum(Y_em, axis=1) + np.mean(Em["f0"])
 
 
 def to_df(self):
-- 
2.43.0


From 034496da51a31980616ac00c5dd6aa0b359624b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:54 +0000
Subject: [PATCH 52/54] fix: emulate new inputs with the polynomials of the
 enhanced HDMR analysis

---
 src/SALib/analyze/enhanced_hdmr.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index ce2a994..735c27d 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -230,6 +230,9 @@ def analyze(
     Si, hdmr = _fanova(b_m, hdmr, Si, Y, bootstrap, max_iter, l2_penalty, alpha)
     # HDMR finalize
     Si = _finalize(hdmr, Si, alpha, return_emulator)
+    if return_emulator:
+        # The basis of the emulator is that of these inputs
+        Si["X"] = X.copy()
     # Print results to console
     if print_to_console:
         _print(Si)
@@ -626,7 +629,7 @@ def _core_params(
     return (hdmr, Si)
 
 
-def _basis_matrix(X, hdmr):
+def _basis_matrix(X, hdmr, X_fit=None):
     """The basis matrix represents the foundation of the component functions.
     It is constructed using orthonormal polynomials for each input variable,
     ensuring that it captures the data optimally. The component functions are
@@ -638,19 +641,28 @@ def _basis_matrix(X, hdmr):
         Model input matrix
     hdmr : namedtuple
         Core parameters of hdmr expansion
+    X_fit : numpy.array, optional
+        Input matrix that determines the polynomials (default: `X` itself)
 
     Returns
     -------
     b_m : numpy.array
         Basis matrix
     """
+    if X_fit is None:
+        X_fit = X
+
     # Compute normalized X-values
-    X_n = (X - np.tile(X.min(0), (X.shape[0], 1))) / np.tile(
-        (X.max(0)) - X.min(0), (X.shape[0], 1)
+    x_min, x_max = X_fit.min(0), X_fit.max(0)
+    X_n = (X - np.tile(x_min, (X.shape[0], 1))) / np.tile(
+        x_max - x_min, (X.shape[0], 1)
+    )
+    X_fit_n = (X_fit - np.tile(x_min, (X_fit.shape[0], 1))) / np.tile(
+        x_max - x_min, (X_fit.shape[0], 1)
     )
 
     # Compute Orthonormal Polynomial Coefficients
-    coeff = _orth_poly_coeff(X_n, hdmr)
+    coeff = _orth_poly_coeff(X_fit_n, hdmr)
 
     # Initialize Basis Matrix
     b_m = np.zeros((X.shape[0], hdmr.a_tnt))
@@ -1493,7 +1505,7 @@ def emulate(self, X):
         Emulated output
     """
     # Calculate HDMR Basis Matrix
-    b_m = _basis_matrix(X, self["hdmr"])
+    b_m = _basis_matrix(X, self["hdmr"], self["X"])
 
     # Get component functions
     Y_em = _comp_func(b_m, self["hdmr"], emulator=True)
-- 
2.43.0


From 01991819be786f9c32ef6afd043f5c277314ad6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:38 +0000
Subject: [PATCH 53/54] fix: stop the enhanced HDMR backfitting after max_iter
 sweeps

---
 src/SALib/analyze/enhanced_hdmr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index 735c27d..6ed0d6f 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -1081,7 +1081,7 @@ def _first_order(b_m1, Y_idx, max_iter, l2_penalty, hdmr, t):
         var_max = np.absolute(var_old - np.square(hdmr.x[: hdmr.tnt1, t])).max()
         iter += 1
 
-        if (var_max < 1e-4) or (iter > max_iter):
+        if (var_max < 1e-4) or (iter >= max_iter):
             break
 
         var_old = np.square(hdmr.x[: hdmr.tnt1, t])
@@ -1175,7 +1175,7 @@ def _second_order(b_m2, Y_res, max_iter, l2_penalty, hdmr, t):
         ).max()
         iter += 1
 
-        if (var_max < 1e-4) or (iter > max_iter):
+        if (var_max < 1e-4) or (iter >= max_iter):
             break
 
         var_old = np.square(hdmr.x[hdmr.tnt1 : hdmr.tnt1 + hdmr.tnt2, t])
-- 
2.43.0


From abedd9dfb2a1f09f1835f33f1b535f524850f9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:56 +0000
Subject: [PATCH 54/54] fix: keep the enhanced HDMR polynomials orthonormal up
 to the highest order

---
 src/SALib/analyze/enhanced_hdmr.py | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index 6ed0d6f..65e5c03 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -7,7 +7,7 @@ from collections import defaultdict, namedtuple
 
 import numpy as np
 from pandas import DataFrame as df
-from numpy.linalg import det, pinv, matrix_rank
+from numpy.linalg import inv, matrix_rank, pinv, qr
 from scipy.linalg import svd, LinAlgError, solve
 from scipy import stats, special
 
@@ -750,25 +750,16 @@ def _orth_poly_coeff(X, hdmr):
     .. [1] Szegő, G. 1975. . Orthogonal Polynomials. American Mathematical Society.
     """
     p_o_1 = hdmr.p_o + 1
-    M = np.zeros((p_o_1, p_o_1, hdmr.d))
-    for i in range(hdmr.d):
-        k = 0
-        for j in range(p_o_1):
-            for z in range(p_o_1):
-                M[j, z, i] = sum(X[:, i] ** k) / X.shape[0]
-                k += 1
-            k = j + 1
-
     coeff = np.zeros((hdmr.p_o, p_o_1, hdmr.d))
-    for i, j in product(range(hdmr.d), range(hdmr.p_o)):
-        z = range(j + 2)
-        for k in z:
-            z__k = list(z)
-            z__k.pop(k)
-            det_ij = det(M[: j + 1, : j + 1, i]) * det(M[: j + 2, : j + 2, i])
-            coeff[j, j + 1 - k, i] = (
-                (-1) ** (j + k + 1) * det(M[: j + 1, z__k, i]) / np.sqrt(det_ij)
-            )
+    for i in range(hdmr.d):
+        # Orthonormalize the monomials over the given sample. The determinants of
+        # the moment matrix lose all accuracy for the higher polynomial orders
+        powers = X[:, [i]] ** np.arange(p_o_1)
+        r = qr(powers / np.sqrt(X.shape[0]), mode="r")
+        # Positive leading coefficients
+        r_inv = inv(r) * np.sign(np.diag(r))
+        for j in range(hdmr.p_o):
+            coeff[j, : j + 2, i] = r_inv[j + 1 :: -1, j + 1]
 
     return coeff
 
-- 
2.43.0

