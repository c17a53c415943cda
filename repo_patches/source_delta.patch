From ec5a1420069318f88ea815101246fd1a4d4ca1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:45 +0000
Subject: [PATCH 01/36] fix: kalman_filter replacement indexes the filtered
 series and returns the result

The filter output is a list of 1x1 arrays, which cannot be indexed by an
index array, and the function never returned the modified data.
---
 proadv/filtration/replacement/replacements.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/proadv/filtration/replacement/replacements.py b/proadv/filtration/replacement/replacements.py
index 8cb089f..e98f567 100644
--- a/proadv/filtration/replacement/replacements.py
+++ b/proadv/filtration/replacement/replacements.py
@@ -361,7 +361,8 @@ def kalman_filter(velocities, spike_indices, initial_state, initial_covariance,
     filtered_data = kl(modified_data, initial_state, initial_covariance, process_noise, measurement_noise)
 
     # Replace values at spikes indices with the kalman_filter values
-    modified_data[spike_indices] = filtered_data[spike_indices]
+    modified_data[spike_indices] = np.ravel(filtered_data)[spike_indices]
+    return modified_data
 
 
 def _create_model(velocities, velocities_indices, spike_indices, degree):
-- 
2.43.0


From 021eee9a86113b718f143e84d88d73f4e8af6612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:45 +0000
Subject: [PATCH 02/36] fix: linear_interpolation accepts an empty set of spike
 indices

A detector that flags nothing made the replacement raise IndexError.
---
 proadv/filtration/replacement/replacements.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/proadv/filtration/replacement/replacements.py b/proadv/filtration/replacement/replacements.py
index e98f567..048fc7a 100644
--- a/proadv/filtration/replacement/replacements.py
+++ b/proadv/filtration/replacement/replacements.py
@@ -123,6 +123,10 @@ def linear_interpolation(velocities, spike_indices, decimals=4):
     # Create a copy of the velocity data to avoid modifying the original array
     modified_data = np.copy(velocities)
 
+    # Nothing to interpolate when no spike was detected
+    if len(spike_indices) == 0:
+        return np.around(modified_data, decimals=decimals)
+
     # Initialize spike values with NaN to facilitate interpolation
     modified_data[spike_indices] = np.nan
 
-- 
2.43.0


From d9271cf9eac10ca1caf4dc9853a693af19581acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:45 +0000
Subject: [PATCH 03/36] fix: cubic_12points_polynomial interpolates between the
 actual neighbours

The sample right before the spike was dropped and its place taken by one
further back (a linear ramp was not reproduced), earlier spikes were used as
if they were valid, index 0 wrapped around to the last sample and a spike run
reaching the end of the record raised IndexError.
---
 proadv/filtration/replacement/replacements.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/proadv/filtration/replacement/replacements.py b/proadv/filtration/replacement/replacements.py
index 048fc7a..671ff65 100644
--- a/proadv/filtration/replacement/replacements.py
+++ b/proadv/filtration/replacement/replacements.py
@@ -203,15 +203,16 @@ def cubic_12points_polynomial(velocities, spike_indices, decimals=4):
     x = np.array(list(range(1, 13)) + list(range(14, 26)))
 
     for i in spike_indices:
+        # Valid data points after the spike
+        following = modified_data[i:][~np.isnan(modified_data[i:])]
         # Check if index is near the boundaries
-        if i <= 30 or i >= (len(velocities) - 30):
+        if i <= 30 or i >= (len(velocities) - 30) or following.size < 12:
             # Use linear interpolation near the boundaries
-            modified_data[i] = np.around((velocities[i - 1] + modified_data[i:][~np.isnan(modified_data[i:])][0]) / 2,
-                                         4)
+            neighbours = np.append(modified_data[max(i - 1, 0): i], following[0:1])
+            modified_data[i] = np.around(np.mean(neighbours), 4)
         else:
             # Use cubic polynomial interpolation
-            yint = np.delete(np.append(velocities[i - 13: i], modified_data[i:][~np.isnan(modified_data[i:])][0:12]),
-                             12)
+            yint = np.append(modified_data[i - 12: i], following[0:12])
             f = interp1d(x, yint, 3)
             modified_data[i] = f(13)
     return np.around(modified_data, decimals=decimals)
-- 
2.43.0


From d4926d32b147e1252c939654c2425edc8335df4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:45 +0000
Subject: [PATCH 04/36] fix: cubic_12points_polynomial raises the documented
 ValueError on invalid input

---
 proadv/filtration/replacement/replacements.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/proadv/filtration/replacement/replacements.py b/proadv/filtration/replacement/replacements.py
index 671ff65..ea2b856 100644
--- a/proadv/filtration/replacement/replacements.py
+++ b/proadv/filtration/replacement/replacements.py
@@ -193,6 +193,11 @@ def cubic_12points_polynomial(velocities, spike_indices, decimals=4):
     - The input velocities array is modified in-place to replace missing data points with interpolated values.
     """
 
+    if np.ndim(velocities) != 1:
+        raise ValueError("Velocities must be a one-dimensional array.")
+    if np.any(np.asarray(spike_indices) < 0) or np.any(np.asarray(spike_indices) >= len(velocities)):
+        raise ValueError("Spike indices must lie within the velocities array.")
+
     # Make a copy of velocities to preserve original data
     modified_data = velocities.copy()
 
-- 
2.43.0


From aaf7941e8488c34ade122592179f927912480f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:45 +0000
Subject: [PATCH 05/36] fix: polynomial_replacement handles a single spike and
 a spike at index 10

squeeze() turned one spike into a 0-d array, which cannot be iterated, and the
spike at index 10 was left in the data.
---
 proadv/filtration/replacement/replacements.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/proadv/filtration/replacement/replacements.py b/proadv/filtration/replacement/replacements.py
index ea2b856..ba43b02 100644
--- a/proadv/filtration/replacement/replacements.py
+++ b/proadv/filtration/replacement/replacements.py
@@ -425,7 +425,8 @@ def polynomial_replacement(velocities, spike_indices, window=100, degree=2, deci
     # Make a copy of velocities to preserve original data
     modified_data = velocities.copy()
     a = 0
-    for i in spike_indices.squeeze():
+    spike_indices = np.ravel(spike_indices)
+    for i in spike_indices:
         if i == 0:
             # If the first index of the data set is a spike, it will be replaced with the value of the mean of the data.
             modified_data[i] = np.mean(modified_data)
@@ -433,7 +434,7 @@ def polynomial_replacement(velocities, spike_indices, window=100, degree=2, deci
             # Spikes 1 to 10 are replaced using linear interpolation algorithm
             if a == 0:
                 modified_data = linear_interpolation(modified_data,
-                                                     spike_indices[np.where(spike_indices < 10)[0]].squeeze(), decimals)
+                                                     spike_indices[np.where(spike_indices <= 10)[0]], decimals)
                 a += 1  # "a" is to run this algorithm only once.
         elif 11 <= i <= window - 1:
             # Predicting the appropriate spike value for indexes less than window
-- 
2.43.0


From cfc9a33e56e283ce695e936f08d3ff432d259fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:45 +0000
Subject: [PATCH 06/36] fix: calculate_ab returns a pair when the ellipse is
 degenerate

The conditional bound to the second element only, so correlated velocity
components made velocity_correlation raise a broadcasting error.
---
 proadv/filtration/detection/poincare.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/filtration/detection/poincare.py b/proadv/filtration/detection/poincare.py
index 5d1f48f..3240550 100644
--- a/proadv/filtration/detection/poincare.py
+++ b/proadv/filtration/detection/poincare.py
@@ -22,7 +22,7 @@ def calculate_ab(std1, std2, theta, lambda_):
     fact = np.cos(theta) ** 4 - np.sin(theta) ** 4
     fa = (r1 ** 2 * np.cos(theta) ** 2 - r2 ** 2 * np.sin(theta) ** 2) / fact
     fb = (r2 ** 2 * np.cos(theta) ** 2 - r1 ** 2 * np.sin(theta) ** 2) / fact
-    return np.sqrt(fa), np.sqrt(fb) if fa > 0 and fb > 0 else (1e10, 1e10)
+    return (np.sqrt(fa), np.sqrt(fb)) if fa > 0 and fb > 0 else (1e10, 1e10)
 
 
 def calculate_rho(x, y, theta, a, b):
-- 
2.43.0


From 2c0a38c6b8a4850c85467f372e441cb81614e99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:45 +0000
Subject: [PATCH 07/36] fix: phase-space ellipse axes in the rotated plane
 solve the ellipse equations

Goring and Nikora give the squared axes as the quotient; only the numerator
was under the square root (compare calculate_ab).
---
 proadv/filtration/detection/phasespace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proadv/filtration/detection/phasespace.py b/proadv/filtration/detection/phasespace.py
index 87b22d3..7c5a4b4 100644
--- a/proadv/filtration/detection/phasespace.py
+++ b/proadv/filtration/detection/phasespace.py
@@ -72,8 +72,8 @@ def calculate_parameters(c, dc, dc2):
     a2 = lambda_ * std_dc
     b2 = lambda_ * std_dc2
     fact = np.cos(theta) ** 4 - np.sin(theta) ** 4
-    a3 = np.sqrt(a1 ** 2 * np.cos(theta) ** 2 - b2 ** 2 * np.sin(theta) ** 2) / fact
-    b3 = np.sqrt(b2 ** 2 * np.cos(theta) ** 2 - a1 ** 2 * np.sin(theta) ** 2) / fact
+    a3 = np.sqrt((a1 ** 2 * np.cos(theta) ** 2 - b2 ** 2 * np.sin(theta) ** 2) / fact)
+    b3 = np.sqrt((b2 ** 2 * np.cos(theta) ** 2 - a1 ** 2 * np.sin(theta) ** 2) / fact)
     return std_c, std_dc, std_dc2, lambda_, theta, a1, b1, a2, b2, a3, b3
 
 
-- 
2.43.0


From 500e41c88e1a60d1ae1a4f68ce275ea2a64d3a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:45 +0000
Subject: [PATCH 08/36] fix: premodification removes the points beyond the
 threshold on either side

A sample was required to lie above the upper and below the lower threshold at
once, so nothing was ever removed. Work on a copy: the caller's data was the
array being overwritten.
---
 proadv/filtration/detection/phasespace.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/proadv/filtration/detection/phasespace.py b/proadv/filtration/detection/phasespace.py
index 7c5a4b4..7446dfe 100644
--- a/proadv/filtration/detection/phasespace.py
+++ b/proadv/filtration/detection/phasespace.py
@@ -163,10 +163,11 @@ def phasespace_thresholding_premodification(data, c1=1.5, c2=1.35):
     removable_threshold = c2 * theta * np.sqrt(2 * np.log(data_size))
 
     # Calculate indices of removable data
-    removable_indices = np.intersect1d(np.nonzero(data > removable_threshold)[0],
-                                       np.nonzero(data < -removable_threshold)[0])
+    removable_indices = np.union1d(np.nonzero(data > removable_threshold)[0],
+                                   np.nonzero(data < -removable_threshold)[0])
 
     # Replace removable data points with the preceding data point
+    data = np.copy(data)
     for i in removable_indices:
         data[i] = data[i - 1]
 
-- 
2.43.0


From 39a5fdf1f40a8a26f7347f98372061c0729d1312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:45 +0000
Subject: [PATCH 09/36] fix: spherical thresholding flags spikes whose
 projection rounds past the ellipsoid

The rounded projection made the squared height negative, its root NaN and the
comparison false, so samples far outside the ellipsoid were kept.
---
 proadv/filtration/detection/spherical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/filtration/detection/spherical.py b/proadv/filtration/detection/spherical.py
index bc27337..c77f352 100644
--- a/proadv/filtration/detection/spherical.py
+++ b/proadv/filtration/detection/spherical.py
@@ -121,7 +121,7 @@ def _spike_indices(x, y, z, a, b, c):
         z1 = z[i]
         x2 = np.around(a * b * c * x1 / np.sqrt((a * c * y1) ** 2 + b ** 2 * (c ** 2 * x1 ** 2 + a ** 2 * z1 ** 2)), 4)
         y2 = np.around(a * b * c * y1 / np.sqrt((a * c * y1) ** 2 + b ** 2 * (c ** 2 * x1 ** 2 + a ** 2 * z1 ** 2)), 4)
-        zt = np.around(c ** 2 * (1 - (x2 / a) ** 2 - (y2 / b) ** 2), 4)
+        zt = np.maximum(np.around(c ** 2 * (1 - (x2 / a) ** 2 - (y2 / b) ** 2), 4), 0)
         if z1 < 0:
             z2 = -np.around(np.sqrt(zt), 4)
         elif z1 > 0:
-- 
2.43.0


From 9e5910daeccbb630287c2a320af6bf41fb42ecba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:45 +0000
Subject: [PATCH 10/36] fix: spherical thresholding rotates by the angle of the
 principal axis

The angle is that of the second derivative against the velocity (Wahl 2003, and
phasespace.calculate_parameters); the first derivative is orthogonal to the
velocity, so the ellipsoid was never aligned.
---
 proadv/filtration/detection/spherical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/filtration/detection/spherical.py b/proadv/filtration/detection/spherical.py
index c77f352..1282553 100644
--- a/proadv/filtration/detection/spherical.py
+++ b/proadv/filtration/detection/spherical.py
@@ -167,7 +167,7 @@ def spherical_phasespace_thresholding(c, iteration, c_mean):
     dc, dc2 = _gradients(c)
 
     # Calculaterotation angle
-    theta = np.around(np.arctan2(np.sum(c * dc), np.sum(dc2 ** 2)), 4)
+    theta = np.around(np.arctan2(np.sum(c * dc2), np.sum(c ** 2)), 4)
 
     # Rotate data
     x, y, z = _rotation(c, dc, dc2, theta)
-- 
2.43.0


From 6fd6cc5872d461619fe5ac85da4c6317014f4aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:45 +0000
Subject: [PATCH 11/36] fix: pollution_rate measures negative noise from the
 filtered series

The lower threshold was mirrored at zero, so records with a negative mean came
out as fully polluted and negative spikes of the others were missed.
---
 proadv/filtration/detection/pollution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/filtration/detection/pollution.py b/proadv/filtration/detection/pollution.py
index 05fd099..bf95c5e 100644
--- a/proadv/filtration/detection/pollution.py
+++ b/proadv/filtration/detection/pollution.py
@@ -21,7 +21,7 @@ def pollution_rate(x, xfil, k):
     pos = np.nonzero(x > xfil + k * std(x))
     
     # Find positions where x is below the negative threshold
-    neg = np.nonzero(x < -xfil - k * std(x))
+    neg = np.nonzero(x < xfil - k * std(x))
     
     # Concatenate positive and negative noises
     noises = np.concatenate((pos, neg), axis=None)
-- 
2.43.0


From 7a7faff8bd5f3ae1357564203dcadf9ad72cf44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:45 +0000
Subject: [PATCH 12/36] fix: kernel estimates the density of the rotated data

The covariance and the grid are those of the rotated coordinates, the samples
were the unrotated ones.
---
 proadv/filtration/detection/trivariatekernel.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/proadv/filtration/detection/trivariatekernel.py b/proadv/filtration/detection/trivariatekernel.py
index b12cd3e..28eab4c 100644
--- a/proadv/filtration/detection/trivariatekernel.py
+++ b/proadv/filtration/detection/trivariatekernel.py
@@ -472,14 +472,13 @@ def kernel(u1, w1, grid):
     Spieks Indices and estimation.
     """
 
-    dataset = np.array([u1, w1])
     theta = _rotation(u1, w1)
     ut, wt = _transform(u1, w1, theta)
     mesh_u, mesh_w = _scaling(ut, wt, grid)
     uf, wf = _profile(mesh_u, mesh_w)
     positions, values = _position(mesh_u, mesh_w, ut, wt)
     evals = _density(values)
-    evole = _evolve(dataset, positions, evals)
+    evole = _evolve(values, positions, evals)
     estimation = _estimation(evole.T, mesh_u)
     density = np.reshape(kde(values)(positions).T, mesh_u.shape)
     peak, up, wp, fu, fw = _peak(density)
-- 
2.43.0


From 62bbaa6adcbf31e680d2ed2bf24f93abdd99badd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:45 +0000
Subject: [PATCH 13/36] fix: mean converts every numeric string wherever it
 stands

The first string that is not a number also discarded the numeric strings after
it, and input without any number gave NaN instead of the documented message.
---
 proadv/statistics/descriptive.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/proadv/statistics/descriptive.py b/proadv/statistics/descriptive.py
index 50f90c5..371d5d4 100644
--- a/proadv/statistics/descriptive.py
+++ b/proadv/statistics/descriptive.py
@@ -207,23 +207,21 @@ def mean(array):
 
     # if at least one of the items in our list is not an int or float:
     if not isinstance(array, (int, float)) and np.size(np.array(array)) != 0:
+        values = []
         for item in array:
             if isinstance(item, str):
                 # Trys to convert the string to a float
                 try:
-                    array = list(array)
-                    index = array.index(item)
-                    array[index] = float(item)
-
+                    item = float(item)
                 except ValueError:
-                    # If conversion fails, it's not a number, so we take out the invalid data and calculate the rest
-                    array = [item for item in array if isinstance(item, (int, float))]
+                    # If conversion fails, it's not a number, so we leave it out and calculate the rest
                     continue
-        mean_array = np.sum(array) / np.size(array)
-        return mean_array
+            values.append(item)
+        if values:
+            mean_array = np.sum(values) / np.size(values)
+            return mean_array
 
-    else:
-        return "Invalid input."  # if there are any invalid inputs like a str this statement becomes true
+    return "Invalid input."  # if there are any invalid inputs like a str this statement becomes true
 
 
 def median(data):
-- 
2.43.0


From c419f2954e3a4e2ccb3ee102f9783eb8f6a98c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:45 +0000
Subject: [PATCH 14/36] fix: kurtosis flattens its input as documented

---
 proadv/statistics/moment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proadv/statistics/moment.py b/proadv/statistics/moment.py
index 4944be2..c6308f0 100644
--- a/proadv/statistics/moment.py
+++ b/proadv/statistics/moment.py
@@ -104,8 +104,8 @@ def kurtosis(x):
     2.2
     """
 
-    # Convert data to a numpy array
-    x = np.array(x)
+    # Convert data to a flat numpy array
+    x = np.array(x).flatten()
 
     # Calculate the mean
     average = mean(x)
-- 
2.43.0


From 905c968bfd96005ca4a48acf599c0b4e7e0155c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:45 +0000
Subject: [PATCH 15/36] fix: cdf of integers and scalars

Probabilities were written back into an integer copy and truncated to 0, and a
scalar could not be iterated, which made skewtest and kurtotest always fail.
---
 proadv/statistics/distributions/normal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proadv/statistics/distributions/normal.py b/proadv/statistics/distributions/normal.py
index 7af9195..3a69544 100644
--- a/proadv/statistics/distributions/normal.py
+++ b/proadv/statistics/distributions/normal.py
@@ -47,13 +47,13 @@ def cdf(array):
     """
 
     from math import erf, erfc
-    array_cdf = np.copy(array)
+    array_cdf = np.array(array, dtype=float)
     D = array_cdf.shape  # array dimensions
     if array_cdf.size == 0:
         raise ValueError("cannot calculate PDF with empty array.")
     if np.isnan(array_cdf).any():
         raise TypeError('array cannot contain NaN values.')
-    if array_cdf.ndim > 1:
+    if array_cdf.ndim != 1:
         array_cdf = array_cdf.flatten()
     np_sqrt = 1.0 / np.sqrt(2)
     array_ns = array_cdf * np_sqrt
-- 
2.43.0


From 7ea79206e0529cd954981169469bad12dca71700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:45 +0000
Subject: [PATCH 16/36] fix: kurtotest takes the real cube root for platykurtic
 samples

For kurtosis below about 1.6 (a sine wave) the denominator is negative and the
result was masked.
---
 proadv/statistics/distributions/normal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/statistics/distributions/normal.py b/proadv/statistics/distributions/normal.py
index 3a69544..514dab5 100644
--- a/proadv/statistics/distributions/normal.py
+++ b/proadv/statistics/distributions/normal.py
@@ -294,7 +294,7 @@ def kurtotest(data, alternative='two-sided'):
     elif np.isscalar(denom) and denom == 0.0:
         denom = np.ma.masked
 
-    term2 = np.ma.power((1 - 2.0 / a) / denom, 1 / 3.0)
+    term2 = np.sign(denom) * np.ma.power((1 - 2.0 / a) / abs(denom), 1 / 3.0)
 
     # Final z-score calculation
     z_score_final = (term1 - term2) / np.ma.sqrt(2 / (9.0 * a))
-- 
2.43.0


From 5d72d230f414d25f13fb2577d6e3fa0ad2f4fd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:45 +0000
Subject: [PATCH 17/36] fix: log_pdf does not underflow to -inf away from the
 mean

---
 proadv/statistics/distributions/normal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/statistics/distributions/normal.py b/proadv/statistics/distributions/normal.py
index 514dab5..b12ecf2 100644
--- a/proadv/statistics/distributions/normal.py
+++ b/proadv/statistics/distributions/normal.py
@@ -370,7 +370,7 @@ def log_pdf(array, std=1, mean=0):
         raise ValueError("cannot calculate Log_PDF with empty array")
     if np.isnan(array).any():
         raise TypeError('array cannot contain NaN values.')
-    logpdf = np.log(pdf(array, std, mean))
+    logpdf = -0.5 * np.log(2 * np.pi) - np.log(std) - np.power(array - mean, 2) / (2 * (std * std))
     return logpdf
 
 
-- 
2.43.0


From fea758054236fb659fe24375edcd27b11cd41601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:45 +0000
Subject: [PATCH 18/36] fix: fminbound returns the point of the reported
 minimum

The best point was overwritten by the last one evaluated.
---
 proadv/statistics/optimize/optimize.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/proadv/statistics/optimize/optimize.py b/proadv/statistics/optimize/optimize.py
index 40e6d35..3c940ad 100644
--- a/proadv/statistics/optimize/optimize.py
+++ b/proadv/statistics/optimize/optimize.py
@@ -328,7 +328,6 @@ def _optimize_within_bounds(target_function, limit_bounds, extra_params=(),
         convergence_flag = 2
 
     # Set the final optimal value and function value
-    x_optimal = x_current
     fval = f_current
     flag = convergence_flag
 
-- 
2.43.0


From 584c9ef6aa9b44f54ccebafacfd9f3297175fe17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:45 +0000
Subject: [PATCH 19/36] fix: brentq full output is a dictionary for a root at
 an endpoint too

---
 proadv/statistics/optimize/optimize.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/proadv/statistics/optimize/optimize.py b/proadv/statistics/optimize/optimize.py
index 3c940ad..8e8f474 100644
--- a/proadv/statistics/optimize/optimize.py
+++ b/proadv/statistics/optimize/optimize.py
@@ -66,9 +66,11 @@ def brentq(f, xa, xb, xtol=1.48e-8, rtol=1.48e-8, maxiter=500, full_output=False
 
     # Check if we already have a root at the endpoints
     if fpre == 0:
-        return (xpre, 0, 0, 1) if full_output else xpre
+        return {'root': xpre, 'function_calls': 2, 'iterations': 0, 'converged': True,
+                'flag': 'converged'} if full_output else xpre
     if fcur == 0:
-        return (xb, 0, 0, 1) if full_output else xb
+        return {'root': xb, 'function_calls': 2, 'iterations': 0, 'converged': True,
+                'flag': 'converged'} if full_output else xb
 
     # Ensure the function has opposite signs at the endpoints (necessary condition for Brent's method)
     if np.sign(fpre) == np.sign(fcur):
-- 
2.43.0


From ee83afb4b2ba7d89800d62495ff47c561597d2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:45 +0000
Subject: [PATCH 20/36] fix: brentq raises the documented ValueError when it
 does not converge

---
 proadv/statistics/optimize/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/statistics/optimize/optimize.py b/proadv/statistics/optimize/optimize.py
index 8e8f474..216be5b 100644
--- a/proadv/statistics/optimize/optimize.py
+++ b/proadv/statistics/optimize/optimize.py
@@ -152,7 +152,7 @@ def brentq(f, xa, xb, xtol=1.48e-8, rtol=1.48e-8, maxiter=500, full_output=False
     if full_output:
         return result
     else:
-        return result['root']
+        raise ValueError("The algorithm failed to converge within maxiter iterations.")
 
 
 def _optimize_within_bounds(target_function, limit_bounds, extra_params=(),
-- 
2.43.0


From 95cde5b81b3448dfe6162a044f593a8d956c4a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:45 +0000
Subject: [PATCH 21/36] fix: power_spectra takes the overlap as a percentage,
 as documented

---
 proadv/statistics/signal/spectrum.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/proadv/statistics/signal/spectrum.py b/proadv/statistics/signal/spectrum.py
index aab687f..e96a63a 100644
--- a/proadv/statistics/signal/spectrum.py
+++ b/proadv/statistics/signal/spectrum.py
@@ -24,6 +24,7 @@ def power_spectra(data, sampling_frequency, overlap=50, block=2048, onesided=Tru
     win=hann(block, True)
 
     # Compute power spectral density
-    fxu, fyu = welch(data, sampling_frequency, window=win, noverlap=overlap, nfft=block, return_onesided=onesided)
+    fxu, fyu = welch(data, sampling_frequency, window=win, noverlap=int(block * overlap / 100), nfft=block,
+                     return_onesided=onesided)
     
     return fxu, fyu
-- 
2.43.0


From eeeec72ef93a7c7b085581cd053461f1a874acad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:51 +0000
Subject: [PATCH 22/36] fix: bivariate_kernel returns the smoothed density of
 the data

The cosine transform ran across the rows, the forward transform stood in for
the inverse, and the histogram bins were off by one, so the density did not
integrate to one and peaked in the wrong place.
---
 proadv/kernel/bivariate.py | 56 ++++++++++++++++++++++++++++++++++----
 1 file changed, 51 insertions(+), 5 deletions(-)

diff --git a/proadv/kernel/bivariate.py b/proadv/kernel/bivariate.py
index dd2b010..845d045 100644
--- a/proadv/kernel/bivariate.py
+++ b/proadv/kernel/bivariate.py
@@ -130,7 +130,7 @@ def _histogram(trans, grid):
     
     # Iterate over each column and compute the bins
     for i in range(cols):
-        bins[:, i] = np.digitize(trans[:, i], hist, 1)
+        bins[:, i] = np.digitize(trans[:, i], hist) - 1
         bins[:, i] = np.minimum(bins[:, i], grid - 1)
         
     # Accumulate the binned data
@@ -154,10 +154,10 @@ def _discrete_cosine_1d(data, weight):
     """
     
     # Reorder the data for the discrete cosine transform
-    reordered = np.vstack((data[::2, :], data[::-2, :]))
+    reordered = np.vstack((data[::2, :], data[1::2, :][::-1, :]))
     
-    # Compute the discrete cosine transform using FFT
-    transform = np.real(weight * np.fft.fft(reordered))
+    # Compute the discrete cosine transform of each column using FFT
+    transform = np.real(weight * np.fft.fft(reordered, axis=0))
     
     return transform
 
@@ -193,6 +193,52 @@ def _discrete_cosine_2d(data):
     return discrete
 
 
+def _inverse_discrete_cosine_1d(data):
+    """
+    Invert the 1D discrete cosine transform of each column of the data.
+
+    Parameters
+    ------
+    data (array_like): 1D discrete cosine transform of each column.
+
+    Returns
+    ------
+    inverse (array_like): The array whose transform was given.
+    """
+
+    # Undo the weights, with the factor two of all but the first coefficient
+    rows = data.shape[0]
+    weight = 0.5 * np.exp(1j * np.arange(rows) * np.pi / (2 * rows))
+    mirrored = np.vstack((np.zeros((1, data.shape[1])), data[:0:-1, :]))
+    coefficients = data - 1j * mirrored
+    coefficients[0, :] = 2 * data[0, :]
+    reordered = np.real(np.fft.ifft(weight[:, np.newaxis] * coefficients, axis=0))
+
+    # Undo the reordering
+    half = (rows + 1) // 2
+    inverse = np.empty_like(reordered)
+    inverse[::2, :] = reordered[:half, :]
+    inverse[1::2, :] = reordered[half:, :][::-1, :]
+
+    return inverse
+
+
+def _inverse_discrete_cosine_2d(data):
+    """
+    Invert the 2D discrete cosine transform.
+
+    Parameters
+    ------
+    data (array_like): 2D discrete cosine transform.
+
+    Returns
+    ------
+    inverse (array_like): The array whose transform was given.
+    """
+
+    return _inverse_discrete_cosine_1d(_inverse_discrete_cosine_1d(data).T).T
+
+
 def _k(s_indices):
     """
     Compute the k-value based on the given indices.
@@ -423,7 +469,7 @@ def bivariate_kernel(data, hx, hy, grid):
     a_t = np.matmul(v1, v2) * discrete
     
     # Compute density matrix
-    density_mx = _discrete_cosine_2d(a_t) * (a_t.size / np.prod(scale))
+    density_mx = _inverse_discrete_cosine_2d(a_t) * (a_t.size / np.prod(scale))
     density_mx[density_mx < 0] = np.finfo(float).eps
     
     # Create vectors for x and y values
-- 
2.43.0


From 9bf18d5f0cdb02836fc107cde0e64889f89e7785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:47 +0000
Subject: [PATCH 23/36] fix: brentq counts the last function call when it does
 not converge

---
 proadv/statistics/optimize/optimize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proadv/statistics/optimize/optimize.py b/proadv/statistics/optimize/optimize.py
index 216be5b..d73ee7b 100644
--- a/proadv/statistics/optimize/optimize.py
+++ b/proadv/statistics/optimize/optimize.py
@@ -144,8 +144,8 @@ def brentq(f, xa, xb, xtol=1.48e-8, rtol=1.48e-8, maxiter=500, full_output=False
     # If we reach here, the method did not converge within the maximum number of iterations
     result = {
         'root': xcur,
-        'function_calls': i + 2,
-        'iterations': i + 1,
+        'function_calls': maxiter + 2,
+        'iterations': maxiter,
         'converged': False,
         'flag': 'convergence not achieved'
     }
-- 
2.43.0


From 9b5ffe9ae4330e9cb941867b6fe17fa086020e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:09 +0000
Subject: [PATCH 24/36] fix: replacement methods keep the fraction of a fill in
 integer records

---
 proadv/filtration/replacement/replacements.py | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/proadv/filtration/replacement/replacements.py b/proadv/filtration/replacement/replacements.py
index ba43b02..197c025 100644
--- a/proadv/filtration/replacement/replacements.py
+++ b/proadv/filtration/replacement/replacements.py
@@ -49,7 +49,7 @@ def mean_value(velocities, spike_indices):
     """
 
     # Create a copy of the original data
-    modified_data = np.copy(velocities)
+    modified_data = np.array(velocities, dtype=float)
 
     # Replace values at spikes indices with the mean value
     modified_data[spike_indices] = mean(velocities)
@@ -75,7 +75,7 @@ def median_value(velocities, spike_indices):
     """
 
     # Create a copy of the original data
-    modified_data = np.copy(velocities)
+    modified_data = np.array(velocities, dtype=float)
 
     # Replace values at spikes indices with the median value
     modified_data[spike_indices] = median(velocities)
@@ -121,7 +121,7 @@ def linear_interpolation(velocities, spike_indices, decimals=4):
     """
 
     # Create a copy of the velocity data to avoid modifying the original array
-    modified_data = np.copy(velocities)
+    modified_data = np.array(velocities, dtype=float)
 
     # Nothing to interpolate when no spike was detected
     if len(spike_indices) == 0:
@@ -199,7 +199,7 @@ def cubic_12points_polynomial(velocities, spike_indices, decimals=4):
         raise ValueError("Spike indices must lie within the velocities array.")
 
     # Make a copy of velocities to preserve original data
-    modified_data = velocities.copy()
+    modified_data = np.array(velocities, dtype=float)
 
     # Replace spike indices with NaN values
     modified_data[spike_indices] = np.nan
@@ -243,7 +243,7 @@ def simple_moving_average(velocities, spike_indices, window_size=20):
     from proadv.statistics.series import moving_average as ma
 
     # Create a copy of the original data
-    modified_data = np.copy(velocities)
+    modified_data = np.array(velocities, dtype=float)
 
     # Use moving_average function
     sma = ma(modified_data, window_size)
@@ -273,7 +273,7 @@ def exponential_moving_average(velocities, spike_indices, alpha=0.2):
     from proadv.statistics.series import exponential_moving_average as expo
 
     # Create a copy of the original data
-    modified_data = np.copy(velocities)
+    modified_data = np.array(velocities, dtype=float)
 
     # Use exponential_moving_average function
     ema = expo(modified_data, alpha)
@@ -303,7 +303,7 @@ def weighted_moving_average(velocities, spike_indices, period=20):
     from proadv.statistics.series import weighted_moving_average as wm
 
     # Create a copy of the original data
-    modified_data = np.copy(velocities)
+    modified_data = np.array(velocities, dtype=float)
 
     # Use weighted_moving_average function
     wma = wm(modified_data, period)
@@ -333,7 +333,7 @@ def ssa(velocities, spike_indices, fs, f):
     from proadv.statistics.series import ssa as sa
 
     # Create a copy of the original data
-    modified_data = np.copy(velocities)
+    modified_data = np.array(velocities, dtype=float)
 
     # Use ssa function
     xf = sa(modified_data, fs, f)
@@ -365,7 +365,7 @@ def kalman_filter(velocities, spike_indices, initial_state, initial_covariance,
     from proadv.statistics.series import kalman_filter as kl
 
     # Create a copy of the original data
-    modified_data = np.copy(velocities)
+    modified_data = np.array(velocities, dtype=float)
 
     # Use kalman_filter function
     filtered_data = kl(modified_data, initial_state, initial_covariance, process_noise, measurement_noise)
@@ -423,7 +423,7 @@ def polynomial_replacement(velocities, spike_indices, window=100, degree=2, deci
     """
 
     # Make a copy of velocities to preserve original data
-    modified_data = velocities.copy()
+    modified_data = np.array(velocities, dtype=float)
     a = 0
     spike_indices = np.ravel(spike_indices)
     for i in spike_indices:
-- 
2.43.0


From 320c0bb0398e4f63f9bfd3c9227695f124be0147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:09 +0000
Subject: [PATCH 25/36] fix: linear_interpolation accepts spike indices as a
 list

---
 proadv/filtration/replacement/replacements.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/proadv/filtration/replacement/replacements.py b/proadv/filtration/replacement/replacements.py
index 197c025..e1468e6 100644
--- a/proadv/filtration/replacement/replacements.py
+++ b/proadv/filtration/replacement/replacements.py
@@ -123,6 +123,8 @@ def linear_interpolation(velocities, spike_indices, decimals=4):
     # Create a copy of the velocity data to avoid modifying the original array
     modified_data = np.array(velocities, dtype=float)
 
+    spike_indices = np.asarray(spike_indices)
+
     # Nothing to interpolate when no spike was detected
     if len(spike_indices) == 0:
         return np.around(modified_data, decimals=decimals)
-- 
2.43.0


From 0c328f47242c6f36862e327b2285c204b910c0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:09 +0000
Subject: [PATCH 26/36] fix: exponential_moving_average no longer truncates
 integer records

---
 proadv/statistics/series.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/statistics/series.py b/proadv/statistics/series.py
index ef5a1b1..00d362a 100644
--- a/proadv/statistics/series.py
+++ b/proadv/statistics/series.py
@@ -118,7 +118,7 @@ def exponential_moving_average(data, alpha=0.2):
         raise ValueError("Alpha must be between 0 and 1 (inclusive).")
 
     # Initialize the exponential moving average array with zeros
-    ema = np.zeros_like(data)
+    ema = np.zeros_like(data, dtype=float)
 
     # Set the first value of ema to be equal to the first value of the data
     ema[0] = data[0]
-- 
2.43.0


From 439cbb5ce54c16fde5a727f498557e3e380fb91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:09 +0000
Subject: [PATCH 27/36] fix: detector derivatives of integer records are no
 longer truncated

---
 proadv/filtration/detection/phasespace.py       | 4 ++--
 proadv/filtration/detection/trivariatekernel.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/proadv/filtration/detection/phasespace.py b/proadv/filtration/detection/phasespace.py
index 7446dfe..cd09ab7 100644
--- a/proadv/filtration/detection/phasespace.py
+++ b/proadv/filtration/detection/phasespace.py
@@ -17,8 +17,8 @@ def calculate_derivatives(c):
         dc2 (array_like): Second derivative of the input data.
     """
     # Initialize arrays for first and second derivatives
-    dc = np.zeros_like(c)
-    dc2 = np.zeros_like(c)
+    dc = np.zeros_like(c, dtype=float)
+    dc2 = np.zeros_like(c, dtype=float)
 
     # Calculate first derivative
     for i in range(1, len(c) - 1):
diff --git a/proadv/filtration/detection/trivariatekernel.py b/proadv/filtration/detection/trivariatekernel.py
index 28eab4c..08702b2 100644
--- a/proadv/filtration/detection/trivariatekernel.py
+++ b/proadv/filtration/detection/trivariatekernel.py
@@ -20,8 +20,8 @@ def _derivatives(data):
     """
 
     # Initialize arrays for first and second derivatives
-    dc = np.zeros_like(data)
-    dc2 = np.zeros_like(data)
+    dc = np.zeros_like(data, dtype=float)
+    dc2 = np.zeros_like(data, dtype=float)
 
     # Calculate first derivative
     for i in range(1, data.size - 1):
-- 
2.43.0


From 7ea51bccefad6b393b1a9eb635ec97b927de6c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:41 +0000
Subject: [PATCH 28/36] fix: survival function and log probabilities stay
 accurate in the far tails

---
 proadv/statistics/distributions/normal.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/proadv/statistics/distributions/normal.py b/proadv/statistics/distributions/normal.py
index b12ecf2..f20cfcb 100644
--- a/proadv/statistics/distributions/normal.py
+++ b/proadv/statistics/distributions/normal.py
@@ -1,4 +1,5 @@
 import numpy as np
+from scipy.special import log_ndtr
 from proadv.statistics.moment import kurtosis, skewness
 
 
@@ -423,7 +424,7 @@ def log_cdf(array):
         raise ValueError("cannot calculate Log_CDF with empty array.")
     if np.isnan(array_cdf).any():
         raise TypeError('array cannot contain NaN values.')
-    logcdf = np.log(cdf(array))
+    logcdf = log_ndtr(array_cdf.astype(float))
     return logcdf
 
 
@@ -476,7 +477,7 @@ def sf(array):
         raise ValueError("cannot calculate SF with empty array.")
     if np.isnan(array_sf).any():
         raise TypeError('array cannot contain NaN values.')
-    sf_array = 1 - cdf(array)
+    sf_array = cdf(np.negative(array_sf, dtype=float))[()]
     return sf_array
 
 
@@ -524,5 +525,5 @@ def log_sf(array):
     ------
 
     """
-    logsf = np.log(sf(array))
+    logsf = log_cdf(np.negative(array, dtype=float))
     return logsf
-- 
2.43.0


From bf6dc2f9b9608ca9f96e8ab51b43d7ff2370b973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:41 +0000
Subject: [PATCH 29/36] fix: pdf and log_pdf of large integers no longer
 overflow

---
 proadv/statistics/distributions/normal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proadv/statistics/distributions/normal.py b/proadv/statistics/distributions/normal.py
index f20cfcb..1eabe5c 100644
--- a/proadv/statistics/distributions/normal.py
+++ b/proadv/statistics/distributions/normal.py
@@ -128,7 +128,7 @@ def pdf(array, std=1, mean=0):
     if np.isnan(array).any():
         raise TypeError('array cannot contain NaN values.')
     x = (-0.5 * np.log(2 * np.pi)) - np.log(std)
-    y = np.power(array - mean, 2) / (2 * (std * std))
+    y = np.power(np.subtract(array, mean, dtype=float), 2) / (2 * (std * std))
     array_pdf = np.exp(x - y)
     return array_pdf
 
@@ -371,7 +371,7 @@ def log_pdf(array, std=1, mean=0):
         raise ValueError("cannot calculate Log_PDF with empty array")
     if np.isnan(array).any():
         raise TypeError('array cannot contain NaN values.')
-    logpdf = -0.5 * np.log(2 * np.pi) - np.log(std) - np.power(array - mean, 2) / (2 * (std * std))
+    logpdf = -0.5 * np.log(2 * np.pi) - np.log(std) - np.power(np.subtract(array, mean, dtype=float), 2) / (2 * (std * std))
     return logpdf
 
 
-- 
2.43.0


From 6551ff46a5ed2495850f7730d3e74ee30a543e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:05 +0000
Subject: [PATCH 30/36] fix: brentq no longer divides by an underflowed product
 when the function values are small

---
 proadv/statistics/optimize/optimize.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/proadv/statistics/optimize/optimize.py b/proadv/statistics/optimize/optimize.py
index d73ee7b..d03c6fb 100644
--- a/proadv/statistics/optimize/optimize.py
+++ b/proadv/statistics/optimize/optimize.py
@@ -112,9 +112,9 @@ def brentq(f, xa, xb, xtol=1.48e-8, rtol=1.48e-8, maxiter=500, full_output=False
 
             else:
                 # Extrapolation
-                dpre = (fpre - fcur) / (xpre - xcur)
-                dblk = (fblk - fcur) / (xblk - xcur)
-                stry = -fcur * (fblk * dblk - fpre * dpre) / (dblk * dpre * (fblk - fpre))
+                dpre = (xpre - xcur) / (fpre - fcur)
+                dblk = (xblk - xcur) / (fblk - fcur)
+                stry = -fcur * (fblk * dpre - fpre * dblk) / (fblk - fpre)
 
             # Decide if we accept the interpolation/extrapolation
             if 2 * abs(stry) < min(abs(spre), 3 * abs(sbis) - delta):
-- 
2.43.0


From d2d23d764b0b245cd734198cb494a63dee7c01c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:17 +0000
Subject: [PATCH 31/36] fix: skewtest of a sample with no skewness returns a
 z-score of zero

---
 proadv/statistics/distributions/normal.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/proadv/statistics/distributions/normal.py b/proadv/statistics/distributions/normal.py
index 1eabe5c..33eaa3f 100644
--- a/proadv/statistics/distributions/normal.py
+++ b/proadv/statistics/distributions/normal.py
@@ -197,9 +197,6 @@ def skewtest(data, alternative='two-sided'):
     # Calculate the alpha constant
     alpha = np.sqrt(2.0 / (w2 - 1))
 
-    # Ensure adjusted skewness is not zero for calculation
-    adjusted_skewness = np.where(adjusted_skewness == 0, 1, adjusted_skewness)
-
     # Calculate the z score
     z = delta * np.log(adjusted_skewness / alpha + np.sqrt((adjusted_skewness / alpha) ** 2 + 1))
 
-- 
2.43.0


From 2425d00d2f1b81bf2f4697df9b32cbb792b5544b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:29 +0000
Subject: [PATCH 32/36] fix: acceleration_thresholding no longer overflows on
 narrow integer records

---
 proadv/filtration/detection/acceleration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/filtration/detection/acceleration.py b/proadv/filtration/detection/acceleration.py
index a993c36..84e3beb 100644
--- a/proadv/filtration/detection/acceleration.py
+++ b/proadv/filtration/detection/acceleration.py
@@ -46,7 +46,7 @@ def acceleration_thresholding(velocities, frequency, tag, gravity=980, k_gravity
             "Despiking acoustic Doppler velocimeter data."
             Journal of hydraulic engineering 128.1 (2002): 117-126.
     """
-    velocities = np.asarray(velocities)
+    velocities = np.asarray(velocities, dtype=float)
 
     # Calculate velocity differences and multiply by frequency to obtain acceleration
     differences = np.concatenate((np.array([0]), np.diff(velocities) * frequency))
-- 
2.43.0


From 3e85c18e9c7b72557b4f2fbe104e14e486d3368b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:29 +0000
Subject: [PATCH 33/36] fix: phase-space derivatives and axes no longer
 overflow on narrow integer records

---
 proadv/filtration/detection/phasespace.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/proadv/filtration/detection/phasespace.py b/proadv/filtration/detection/phasespace.py
index cd09ab7..1131ed6 100644
--- a/proadv/filtration/detection/phasespace.py
+++ b/proadv/filtration/detection/phasespace.py
@@ -16,6 +16,8 @@ def calculate_derivatives(c):
         dc (array_like): First derivative of the input data.
         dc2 (array_like): Second derivative of the input data.
     """
+    c = np.asarray(c, dtype=float)
+
     # Initialize arrays for first and second derivatives
     dc = np.zeros_like(c, dtype=float)
     dc2 = np.zeros_like(c, dtype=float)
@@ -55,6 +57,8 @@ def calculate_parameters(c, dc, dc2):
         a3 (float): Coefficient 'a3'.
         b3 (float): Coefficient 'b3'.
     """
+    c = np.asarray(c, dtype=float)
+
     # Calculate standard deviations
     std_c = std(c)
     std_dc = std(dc)
-- 
2.43.0


From 34ea8bfa0ec8b4f3270b45816977807ecbd7b06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:29 +0000
Subject: [PATCH 34/36] fix: kernel detection no longer overflows on narrow
 integer records

---
 proadv/filtration/detection/trivariatekernel.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/proadv/filtration/detection/trivariatekernel.py b/proadv/filtration/detection/trivariatekernel.py
index 08702b2..2ab30c0 100644
--- a/proadv/filtration/detection/trivariatekernel.py
+++ b/proadv/filtration/detection/trivariatekernel.py
@@ -19,6 +19,8 @@ def _derivatives(data):
     dc2 (array_like): Second derivative of the input data.
     """
 
+    data = np.asarray(data, dtype=float)
+
     # Initialize arrays for first and second derivatives
     dc = np.zeros_like(data, dtype=float)
     dc2 = np.zeros_like(data, dtype=float)
@@ -472,6 +474,9 @@ def kernel(u1, w1, grid):
     Spieks Indices and estimation.
     """
 
+    u1 = np.asarray(u1, dtype=float)
+    w1 = np.asarray(w1, dtype=float)
+
     theta = _rotation(u1, w1)
     ut, wt = _transform(u1, w1, theta)
     mesh_u, mesh_w = _scaling(ut, wt, grid)
-- 
2.43.0


From 4a64511d87e9e4af8cc1d20bfbeffe28292e07ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:29 +0000
Subject: [PATCH 35/36] fix: bivariate kernel steps no longer overflow on
 narrow integer records

---
 proadv/filtration/detection/bivariatekernel.py | 1 +
 proadv/kernel/bivariate.py                     | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/proadv/filtration/detection/bivariatekernel.py b/proadv/filtration/detection/bivariatekernel.py
index 31126d0..beed5cc 100644
--- a/proadv/filtration/detection/bivariatekernel.py
+++ b/proadv/filtration/detection/bivariatekernel.py
@@ -54,6 +54,7 @@ def _cutoff(density_profile, velocity_profile, c1_threshold, c2_threshold, force
 
 
 def _derivative(data):
+    data = np.asarray(data, dtype=float)
     data_size = data.size
     derivative = np.zeros(data_size)
     for i in range(1, data_size - 1):
diff --git a/proadv/kernel/bivariate.py b/proadv/kernel/bivariate.py
index 845d045..bdcc379 100644
--- a/proadv/kernel/bivariate.py
+++ b/proadv/kernel/bivariate.py
@@ -16,6 +16,9 @@ def _rotation(x, y):
     theta (float): The rotation angle theta in radians.
     """
 
+    x = np.asarray(x, dtype=float)
+    y = np.asarray(y, dtype=float)
+
     # Compute the size of the data
     data_size = x.size
 
@@ -425,6 +428,8 @@ def bivariate_kernel(data, hx, hy, grid):
     y_mx (array_like): Meshgrid of y values.
     """
     
+    data = np.asarray(data, dtype=float)
+
     # Compute scaling parameters
     data_size = data.size
     max_co, min_co, scale = _scaling(data)
-- 
2.43.0


From 14af08ab664c7e99327b587fab4704524948f864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:29 +0000
Subject: [PATCH 36/36] fix: moving_average no longer overflows on narrow
 integer records

---
 proadv/statistics/series.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/proadv/statistics/series.py b/proadv/statistics/series.py
index 00d362a..b9055d5 100644
--- a/proadv/statistics/series.py
+++ b/proadv/statistics/series.py
@@ -55,6 +55,7 @@ def moving_average(data, window_size=20):
     if window_size > data.size:
         raise ValueError("Data array size must be greater than window size.")
 
+    data = np.asarray(data, dtype=float)
     ma = np.zeros(data.size)  # Moving Average
 
     # Calculate the initial moving average for the first window_size elements
-- 
2.43.0

