From 2497b6813a5865a7c92f9c74e6997bec4408d40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:54 +0000
Subject: [PATCH 01/26] fix: compare option strings by value, not identity

SCF.compute_surface, Cramer_Distance.format_data and
PDF_Distance.distance_metric used 'is' on option strings, so an equal string
that is not the interned literal (read from a file, unpickled in a worker
process) was rejected or crashed.
---
 turbustat/statistics/pdf/compare_pdf.py | 8 ++++----
 turbustat/statistics/scf/scf.py         | 4 ++--
 turbustat/statistics/threeD_to_twoD.py  | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/turbustat/statistics/pdf/compare_pdf.py b/turbustat/statistics/pdf/compare_pdf.py
index cfd0eaa..4219a57 100644
--- a/turbustat/statistics/pdf/compare_pdf.py
+++ b/turbustat/statistics/pdf/compare_pdf.py
@@ -693,17 +693,17 @@ class PDF_Distance(object):
             Save the figure when a file name is given.
         '''
 
-        if statistic is 'all':
+        if statistic == 'all':
             self.compute_hellinger_distance()
             self.compute_ks_distance()
             # self.compute_ad_distance()
             if self._do_fit:
                 self.compute_lognormal_distance()
-        elif statistic is 'hellinger':
+        elif statistic == 'hellinger':
             self.compute_hellinger_distance()
-        elif statistic is 'ks':
+        elif statistic == 'ks':
             self.compute_ks_distance()
-        elif statistic is 'lognormal':
+        elif statistic == 'lognormal':
             if not self._do_fit:
                 raise Exception("Fitting must be enabled to compute the"
                                 " lognormal distance.")
diff --git a/turbustat/statistics/scf/scf.py b/turbustat/statistics/scf/scf.py
index fdb0cde..38def2f 100644
--- a/turbustat/statistics/scf/scf.py
+++ b/turbustat/statistics/scf/scf.py
@@ -199,7 +199,7 @@ class SCF(BaseStatisticMixIn):
                     shift_func = fourier_shift
                 tmp = shift_func(tmp, y_shift, axis=2)
 
-            if boundary is "cut":
+            if boundary == "cut":
                 # Always round up to the nearest integer.
                 x_shift = np.ceil(x_shift).astype(int)
                 y_shift = np.ceil(y_shift).astype(int)
@@ -219,7 +219,7 @@ class SCF(BaseStatisticMixIn):
 
                 data_slice = (slice(None), x_slice_data, y_slice_data)
                 tmp_slice = (slice(None), x_slice_tmp, y_slice_tmp)
-            elif boundary is "continuous":
+            elif boundary == "continuous":
                 data_slice = (slice(None),) * 3
                 tmp_slice = (slice(None),) * 3
 
diff --git a/turbustat/statistics/threeD_to_twoD.py b/turbustat/statistics/threeD_to_twoD.py
index 73e614f..b360df8 100644
--- a/turbustat/statistics/threeD_to_twoD.py
+++ b/turbustat/statistics/threeD_to_twoD.py
@@ -69,7 +69,7 @@ def _format_data(cube, data_format='intensity', num_spec=1000,
     Rearrange data into a 2D object using the given format.
     '''
 
-    if data_format is "spectra":
+    if data_format == "spectra":
         if num_spec is None:
             raise ValueError('Must specify num_spec for data format',
                              'spectra.')
@@ -89,7 +89,7 @@ def _format_data(cube, data_format='intensity', num_spec=1000,
 
         data_matrix = cube[:, x, y]
 
-    elif data_format is "intensity":
+    elif data_format == "intensity":
         data_matrix = intensity_data(cube, noise_lim=noise_lim,
                                      p=p)
 
-- 
2.43.0


From 5079c94d764919a20933b6b0781486c8f4993a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:34 +0000
Subject: [PATCH 02/26] fix: distance metrics fill in plot defaults on a copy
 of the caller's dict

plot_kwargs1/plot_kwargs2 (and their shared mutable defaults) were filled in
in place, and 'xunit' was deleted from the caller's dictionary.
---
 turbustat/statistics/delta_variance/delta_variance.py | 3 +++
 turbustat/statistics/dendrograms/dendro_stats.py      | 6 ++++++
 turbustat/statistics/mvc/mvc.py                       | 3 +++
 turbustat/statistics/pca/pca.py                       | 3 +++
 turbustat/statistics/pdf/compare_pdf.py               | 3 +++
 turbustat/statistics/pspec_bispec/pspec.py            | 3 +++
 turbustat/statistics/scf/scf.py                       | 3 +++
 turbustat/statistics/stat_moments/highstatmoments.py  | 3 +++
 turbustat/statistics/vca_vcs/vca.py                   | 3 +++
 turbustat/statistics/vca_vcs/vcs.py                   | 3 +++
 turbustat/statistics/wavelets/wavelet_transform.py    | 3 +++
 11 files changed, 36 insertions(+)

diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index 989d282..a15a263 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -923,6 +923,9 @@ class DeltaVariance_Distance(object):
             print(self.delvar1.fit.summary())
             print(self.delvar2.fit.summary())
 
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
diff --git a/turbustat/statistics/dendrograms/dendro_stats.py b/turbustat/statistics/dendrograms/dendro_stats.py
index 784e79e..f92ac7a 100644
--- a/turbustat/statistics/dendrograms/dendro_stats.py
+++ b/turbustat/statistics/dendrograms/dendro_stats.py
@@ -644,6 +644,9 @@ class Dendrogram_Distance(object):
 
             import matplotlib.pyplot as plt
 
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
@@ -771,6 +774,9 @@ class Dendrogram_Distance(object):
         if verbose:
             import matplotlib.pyplot as plt
 
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
diff --git a/turbustat/statistics/mvc/mvc.py b/turbustat/statistics/mvc/mvc.py
index d284fef..6e00d88 100644
--- a/turbustat/statistics/mvc/mvc.py
+++ b/turbustat/statistics/mvc/mvc.py
@@ -466,6 +466,9 @@ class MVC_Distance(object):
 
             import matplotlib.pyplot as plt
 
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
diff --git a/turbustat/statistics/pca/pca.py b/turbustat/statistics/pca/pca.py
index 18d5766..ef1be66 100644
--- a/turbustat/statistics/pca/pca.py
+++ b/turbustat/statistics/pca/pca.py
@@ -1160,6 +1160,9 @@ class PCA_Distance(object):
         if verbose:
             import matplotlib.pyplot as plt
 
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
diff --git a/turbustat/statistics/pdf/compare_pdf.py b/turbustat/statistics/pdf/compare_pdf.py
index 4219a57..f75846c 100644
--- a/turbustat/statistics/pdf/compare_pdf.py
+++ b/turbustat/statistics/pdf/compare_pdf.py
@@ -719,6 +719,9 @@ class PDF_Distance(object):
 
             import matplotlib.pyplot as plt
 
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             defaults1 = {'color': 'b', 'marker': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'marker': 'o', 'label': '2'}
 
diff --git a/turbustat/statistics/pspec_bispec/pspec.py b/turbustat/statistics/pspec_bispec/pspec.py
index bc040aa..dce8e48 100644
--- a/turbustat/statistics/pspec_bispec/pspec.py
+++ b/turbustat/statistics/pspec_bispec/pspec.py
@@ -366,6 +366,9 @@ class PSpec_Distance(object):
 
             import matplotlib.pyplot as plt
 
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
diff --git a/turbustat/statistics/scf/scf.py b/turbustat/statistics/scf/scf.py
index 38def2f..2cc2743 100644
--- a/turbustat/statistics/scf/scf.py
+++ b/turbustat/statistics/scf/scf.py
@@ -1004,6 +1004,9 @@ class SCF_Distance(object):
         if verbose:
             import matplotlib.pyplot as plt
 
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             defaults1 = {'color': 'b', 'marker': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'marker': 'o', 'label': '2'}
 
diff --git a/turbustat/statistics/stat_moments/highstatmoments.py b/turbustat/statistics/stat_moments/highstatmoments.py
index 41e95fd..7b5a58b 100644
--- a/turbustat/statistics/stat_moments/highstatmoments.py
+++ b/turbustat/statistics/stat_moments/highstatmoments.py
@@ -693,6 +693,9 @@ class StatMoments_Distance(object):
         if verbose:
             import matplotlib.pyplot as plt
 
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             defaults1 = {'color': 'b', 'label': '1'}
             defaults2 = {'color': 'g', 'label': '2'}
 
diff --git a/turbustat/statistics/vca_vcs/vca.py b/turbustat/statistics/vca_vcs/vca.py
index 8baa9d8..3a4a885 100644
--- a/turbustat/statistics/vca_vcs/vca.py
+++ b/turbustat/statistics/vca_vcs/vca.py
@@ -353,6 +353,9 @@ class VCA_Distance(object):
 
             import matplotlib.pyplot as plt
 
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
diff --git a/turbustat/statistics/vca_vcs/vcs.py b/turbustat/statistics/vca_vcs/vcs.py
index 50edf6f..54933c8 100644
--- a/turbustat/statistics/vca_vcs/vcs.py
+++ b/turbustat/statistics/vca_vcs/vcs.py
@@ -512,6 +512,9 @@ class VCS_Distance(object):
 
             import matplotlib.pyplot as plt
 
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
diff --git a/turbustat/statistics/wavelets/wavelet_transform.py b/turbustat/statistics/wavelets/wavelet_transform.py
index 0057818..0fb7912 100644
--- a/turbustat/statistics/wavelets/wavelet_transform.py
+++ b/turbustat/statistics/wavelets/wavelet_transform.py
@@ -715,6 +715,9 @@ class Wavelet_Distance(object):
 
             import matplotlib.pyplot as plt
 
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
-- 
2.43.0


From 2cadf6b2c55cb95c9fde111fc9d4c99ce00d7de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:56 +0000
Subject: [PATCH 03/26] fix: power-spectrum statistics no longer edit the
 caller's weights and option dicts

PowerSpectrum zeroed NaNs inside the caller's weight array; run() popped
'threads' and 'fit_unbinned' from the caller's dictionaries, and
PSpec_Distance popped 'brk' from a nested one.
---
 turbustat/statistics/mvc/mvc.py            | 1 +
 turbustat/statistics/pspec_bispec/pspec.py | 9 ++++++---
 turbustat/statistics/vca_vcs/vca.py        | 2 ++
 turbustat/statistics/vca_vcs/vcs.py        | 1 +
 4 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/turbustat/statistics/mvc/mvc.py b/turbustat/statistics/mvc/mvc.py
index 6e00d88..6e5dc8f 100644
--- a/turbustat/statistics/mvc/mvc.py
+++ b/turbustat/statistics/mvc/mvc.py
@@ -273,6 +273,7 @@ class MVC(BaseStatisticMixIn, StatisticBase_PSpec2D):
         '''
 
         # Remove threads if in dict
+        pyfftw_kwargs = dict(pyfftw_kwargs)
         if pyfftw_kwargs.get('threads') is not None:
             pyfftw_kwargs.pop('threads')
 
diff --git a/turbustat/statistics/pspec_bispec/pspec.py b/turbustat/statistics/pspec_bispec/pspec.py
index dce8e48..8f77758 100644
--- a/turbustat/statistics/pspec_bispec/pspec.py
+++ b/turbustat/statistics/pspec_bispec/pspec.py
@@ -5,7 +5,7 @@ import numpy as np
 from numpy.fft import fftshift
 import astropy.units as u
 from warnings import warn
-from copy import copy
+from copy import deepcopy
 
 from ..rfft_to_fft import rfft_to_fft
 from ..base_pspec2 import StatisticBase_PSpec2D
@@ -53,6 +53,7 @@ class PowerSpectrum(BaseStatisticMixIn, StatisticBase_PSpec2D):
             # Get rid of all NaNs
             isnan = np.isnan(self.data)
 
+            weights = weights.copy()
             weights[np.isnan(weights)] = 0.0
             weights[isnan] = 0.0
             self.data[isnan] = 0.0
@@ -177,10 +178,12 @@ class PowerSpectrum(BaseStatisticMixIn, StatisticBase_PSpec2D):
         '''
 
         # Remove threads if in dict
+        pyfftw_kwargs = dict(pyfftw_kwargs)
         if pyfftw_kwargs.get('threads') is not None:
             pyfftw_kwargs.pop('threads')
 
         # Pop fit_unbinned if given as kwarg in dict.
+        fit_kwargs = dict(fit_kwargs)
         if fit_kwargs.get('fit_unbinned') is not None:
             fit_kwargs.pop('fit_unbinned')
 
@@ -280,7 +283,7 @@ class PSpec_Distance(object):
             needs_run = True
 
         if needs_run:
-            this_pspec_kwargs = copy(pspec_kwargs)
+            this_pspec_kwargs = deepcopy(pspec_kwargs)
 
             this_pspec_kwargs.pop('low_cut', None)
             this_pspec_kwargs.pop('high_cut', None)
@@ -308,7 +311,7 @@ class PSpec_Distance(object):
 
         if needs_run:
 
-            this_pspec2_kwargs = copy(pspec2_kwargs)
+            this_pspec2_kwargs = deepcopy(pspec2_kwargs)
 
             this_pspec2_kwargs.pop('low_cut', None)
             this_pspec2_kwargs.pop('high_cut', None)
diff --git a/turbustat/statistics/vca_vcs/vca.py b/turbustat/statistics/vca_vcs/vca.py
index 3a4a885..5b8d25d 100644
--- a/turbustat/statistics/vca_vcs/vca.py
+++ b/turbustat/statistics/vca_vcs/vca.py
@@ -183,10 +183,12 @@ class VCA(BaseStatisticMixIn, StatisticBase_PSpec2D):
         '''
 
         # Remove threads if in dict
+        pyfftw_kwargs = dict(pyfftw_kwargs)
         if pyfftw_kwargs.get('threads') is not None:
             pyfftw_kwargs.pop('threads')
 
         # Pop fit_unbinned if given as kwarg in dict.
+        fit_kwargs = dict(fit_kwargs)
         if fit_kwargs.get('fit_unbinned') is not None:
             fit_kwargs.pop('fit_unbinned')
 
diff --git a/turbustat/statistics/vca_vcs/vcs.py b/turbustat/statistics/vca_vcs/vcs.py
index 54933c8..04fdce4 100644
--- a/turbustat/statistics/vca_vcs/vcs.py
+++ b/turbustat/statistics/vca_vcs/vcs.py
@@ -371,6 +371,7 @@ class VCS(BaseStatisticMixIn):
         '''
 
         # Remove threads if in dict
+        pyfftw_kwargs = dict(pyfftw_kwargs)
         if pyfftw_kwargs.get('threads') is not None:
             pyfftw_kwargs.pop('threads')
         self.compute_pspec(use_pyfftw=use_pyfftw, threads=threads,
-- 
2.43.0


From f9dcf8a943952cd1316a3fe44ade7f2a25d24f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:29 +0000
Subject: [PATCH 04/26] fix: Dendrogram_Distance leaves the caller's
 dendro_kwargs alone

'make_hists' and 'verbose' were popped from the caller's dictionary, and not
removed from dendro2_kwargs at all.
---
 turbustat/statistics/dendrograms/dendro_stats.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/turbustat/statistics/dendrograms/dendro_stats.py b/turbustat/statistics/dendrograms/dendro_stats.py
index f92ac7a..71b184e 100644
--- a/turbustat/statistics/dendrograms/dendro_stats.py
+++ b/turbustat/statistics/dendrograms/dendro_stats.py
@@ -539,6 +539,13 @@ class Dendrogram_Distance(object):
         if dendro2_kwargs is None:
             dendro2_kwargs = dendro_kwargs
 
+        # These are set below. Drop them from copies of the given dictionaries.
+        dendro_kwargs = dict(dendro_kwargs)
+        dendro2_kwargs = dict(dendro2_kwargs)
+        for key in ['make_hists', 'verbose']:
+            dendro_kwargs.pop(key, None)
+            dendro2_kwargs.pop(key, None)
+
         # if fiducial_model is not None:
         #     self.dendro1 = fiducial_model
         # elif isinstance(dataset1, str):
@@ -552,15 +559,11 @@ class Dendrogram_Distance(object):
                 warn("Dendrogram_Stats needs to be re-run for dataset1 "
                      "to compute the slope or have the same set of "
                      "`min_deltas`.")
-                dendro_kwargs.pop('make_hists', None)
-                dendro_kwargs.pop('verbose', None)
                 self.dendro1.run(verbose=False, make_hists=False,
                                  **dendro_kwargs)
         else:
             self.dendro1 = Dendrogram_Stats(dataset1, min_deltas=min_deltas,
                                             dendro_params=dendro_params1)
-            dendro_kwargs.pop('make_hists', None)
-            dendro_kwargs.pop('verbose', None)
             self.dendro1.run(verbose=False, make_hists=False,
                              **dendro_kwargs)
 
@@ -575,16 +578,12 @@ class Dendrogram_Distance(object):
                 warn("Dendrogram_Stats needs to be re-run for dataset2 "
                      "to compute the slope or have the same set of "
                      "`min_deltas`.")
-                dendro_kwargs.pop('make_hists', None)
-                dendro_kwargs.pop('verbose', None)
                 self.dendro2.run(verbose=False, make_hists=False,
                                  **dendro2_kwargs)
         else:
             self.dendro2 = \
                 Dendrogram_Stats(dataset2, min_deltas=min_deltas,
                                  dendro_params=dendro_params2)
-            dendro_kwargs.pop('make_hists', None)
-            dendro_kwargs.pop('verbose', None)
             self.dendro2.run(verbose=False, make_hists=False,
                              **dendro2_kwargs)
 
-- 
2.43.0


From ce038f48547aa87174502356873925d16fc12349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:43 +0000
Subject: [PATCH 05/26] fix: Dendrogram_Distance.histogram_stat can be called
 more than once

The given nbins was overwritten with the per-delta array, so a second
distance_metric call on the same object failed.
---
 .../statistics/dendrograms/dendro_stats.py    | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/turbustat/statistics/dendrograms/dendro_stats.py b/turbustat/statistics/dendrograms/dendro_stats.py
index 71b184e..e4f8f86 100644
--- a/turbustat/statistics/dendrograms/dendro_stats.py
+++ b/turbustat/statistics/dendrograms/dendro_stats.py
@@ -718,27 +718,27 @@ class Dendrogram_Distance(object):
         '''
 
         if self.nbins == "best":
-            self.nbins = [np.floor(np.sqrt((n1 + n2) / 2.)) for n1, n2 in
-                          zip(self.dendro1.numfeatures[:self.cutoff],
-                              self.dendro2.numfeatures[:self.cutoff])]
+            nbins = [np.floor(np.sqrt((n1 + n2) / 2.)) for n1, n2 in
+                     zip(self.dendro1.numfeatures[:self.cutoff],
+                         self.dendro2.numfeatures[:self.cutoff])]
         else:
-            self.nbins = [self.nbins] * \
+            nbins = [self.nbins] * \
                 len(self.dendro1.numfeatures[:self.cutoff])
 
-        self.nbins = np.array(self.nbins, dtype=int)
+        nbins = np.array(nbins, dtype=int)
 
         self.histograms1 = \
             np.empty((len(self.dendro1.numfeatures[:self.cutoff]),
-                      np.max(self.nbins)))
+                      np.max(nbins)))
         self.histograms2 = \
             np.empty((len(self.dendro2.numfeatures[:self.cutoff]),
-                      np.max(self.nbins)))
+                      np.max(nbins)))
 
         self.bins = []
 
         for n, (data1, data2, nbin) in enumerate(
                 zip(self.dendro1.values[:self.cutoff],
-                    self.dendro2.values[:self.cutoff], self.nbins)):
+                    self.dendro2.values[:self.cutoff], nbins)):
 
             stand_data1 = standardize(data1)
             stand_data2 = standardize(data2)
@@ -751,13 +751,13 @@ class Dendrogram_Distance(object):
             hist1 = np.histogram(stand_data1, bins=bins,
                                  density=True)[0]
             self.histograms1[n, :] = \
-                np.append(hist1, (np.max(self.nbins) -
+                np.append(hist1, (np.max(nbins) -
                                   bins.size + 1) * [np.nan])
 
             hist2 = np.histogram(stand_data2, bins=bins,
                                  density=True)[0]
             self.histograms2[n, :] = \
-                np.append(hist2, (np.max(self.nbins) -
+                np.append(hist2, (np.max(nbins) -
                                   bins.size + 1) * [np.nan])
 
             # Normalize
@@ -799,7 +799,7 @@ class Dendrogram_Distance(object):
             ax1.set_ylabel("ECDF")
             for n in range(len(self.dendro1.min_deltas[:self.cutoff])):
                 ax1.plot((self.bins[n][:-1] + self.bins[n][1:]) / 2,
-                         self.mecdf1[n, :][:self.nbins[n]],
+                         self.mecdf1[n, :][:nbins[n]],
                          plot_kwargs1['symbol'],
                          color=plot_kwargs1['color'])
             ax1.axes.xaxis.set_ticklabels([])
@@ -809,7 +809,7 @@ class Dendrogram_Distance(object):
             ax2.axes.yaxis.set_ticklabels([])
             for n in range(len(self.dendro2.min_deltas[:self.cutoff])):
                 ax2.plot((self.bins[n][:-1] + self.bins[n][1:]) / 2,
-                         self.mecdf2[n, :][:self.nbins[n]],
+                         self.mecdf2[n, :][:nbins[n]],
                          plot_kwargs2['symbol'],
                          color=plot_kwargs2['color'])
             ax3 = plt.subplot(2, 2, 3)
@@ -817,7 +817,7 @@ class Dendrogram_Distance(object):
             for n in range(len(self.dendro1.min_deltas[:self.cutoff])):
                 bin_width = self.bins[n][1] - self.bins[n][0]
                 ax3.bar((self.bins[n][:-1] + self.bins[n][1:]) / 2,
-                        self.histograms1[n, :][:self.nbins[n]],
+                        self.histograms1[n, :][:nbins[n]],
                         align="center", width=bin_width, alpha=0.25,
                         color=plot_kwargs1['color'])
 
@@ -826,7 +826,7 @@ class Dendrogram_Distance(object):
             for n in range(len(self.dendro2.min_deltas[:self.cutoff])):
                 bin_width = self.bins[n][1] - self.bins[n][0]
                 ax4.bar((self.bins[n][:-1] + self.bins[n][1:]) / 2,
-                        self.histograms2[n, :][:self.nbins[n]],
+                        self.histograms2[n, :][:nbins[n]],
                         align="center", width=bin_width, alpha=0.25,
                         color=plot_kwargs2['color'])
 
-- 
2.43.0


From 07415a5cf8f588e58f12217f46ba236f384ae81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:43 +0000
Subject: [PATCH 06/26] fix: Dendrogram_Distance re-runs a given
 Dendrogram_Stats with the requested min_deltas

A pre-computed object with other min_deltas was re-run with its own, so the
two datasets were compared on different deltas; deltas of another length
raised instead of triggering the re-run.
---
 turbustat/statistics/dendrograms/dendro_stats.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/dendrograms/dendro_stats.py b/turbustat/statistics/dendrograms/dendro_stats.py
index e4f8f86..5ababa1 100644
--- a/turbustat/statistics/dendrograms/dendro_stats.py
+++ b/turbustat/statistics/dendrograms/dendro_stats.py
@@ -554,11 +554,13 @@ class Dendrogram_Distance(object):
             self.dendro1 = dataset1
             # Check if we need to re-run the stat
             has_slope = hasattr(self.dendro1, "_tail_slope")
-            match_deltas = (self.dendro1.min_deltas == min_deltas).all()
+            match_deltas = np.array_equal(self.dendro1.min_deltas,
+                                          min_deltas)
             if not has_slope or not match_deltas:
                 warn("Dendrogram_Stats needs to be re-run for dataset1 "
                      "to compute the slope or have the same set of "
                      "`min_deltas`.")
+                self.dendro1.min_deltas = min_deltas
                 self.dendro1.run(verbose=False, make_hists=False,
                                  **dendro_kwargs)
         else:
@@ -573,11 +575,13 @@ class Dendrogram_Distance(object):
             self.dendro2 = dataset2
             # Check if we need to re-run the stat
             has_slope = hasattr(self.dendro2, "_tail_slope")
-            match_deltas = (self.dendro2.min_deltas == min_deltas).all()
+            match_deltas = np.array_equal(self.dendro2.min_deltas,
+                                          min_deltas)
             if not has_slope or not match_deltas:
                 warn("Dendrogram_Stats needs to be re-run for dataset2 "
                      "to compute the slope or have the same set of "
                      "`min_deltas`.")
+                self.dendro2.min_deltas = min_deltas
                 self.dendro2.run(verbose=False, make_hists=False,
                                  **dendro2_kwargs)
         else:
-- 
2.43.0


From 2c7f2ff6ca95ca7a9303876b89cb79f30e823071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:03 +0000
Subject: [PATCH 07/26] fix: PDF.make_pdf no longer reuses the previous bin
 centers as bin edges

Calling make_pdf or run a second time on the same object took the stored bin
centers for bin edges and returned a different PDF with one bin less.
---
 turbustat/statistics/pdf/compare_pdf.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/turbustat/statistics/pdf/compare_pdf.py b/turbustat/statistics/pdf/compare_pdf.py
index f75846c..0b6bf4f 100644
--- a/turbustat/statistics/pdf/compare_pdf.py
+++ b/turbustat/statistics/pdf/compare_pdf.py
@@ -74,6 +74,7 @@ class PDF(BaseStatisticMixIn):
         else:
             self._normalization_type = "None"
 
+        self._input_bins = bins
         self._bins = bins
 
         self._pdf = None
@@ -91,17 +92,16 @@ class PDF(BaseStatisticMixIn):
             Bins to compute the PDF from. Overrides initial bin input.
         '''
 
-        if bins is not None:
-            self._bins = bins
+        if bins is None:
+            bins = self._input_bins
 
         # If the number of bins is not given, use sqrt of data length.
-        if self.bins is None:
-            self._bins = np.sqrt(self.data.shape[0])
-            self._bins = int(np.round(self.bins))
+        if bins is None:
+            bins = int(np.round(np.sqrt(self.data.shape[0])))
 
         # norm_weights = np.ones_like(self.data) / self.data.shape[0]
 
-        self._pdf, bin_edges = np.histogram(self.data, bins=self.bins,
+        self._pdf, bin_edges = np.histogram(self.data, bins=bins,
                                             density=True)
                                             # weights=norm_weights)
 
-- 
2.43.0


From 18c8bdee838045682a138f86e9209fac52f104a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:22 +0000
Subject: [PATCH 08/26] fix: Cramer_Distance.format_data samples from its own
 seeded stream

np.random.seed(seed) reset the caller's global random stream whenever the two
data sets had different sizes.
---
 turbustat/statistics/cramer/cramer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/turbustat/statistics/cramer/cramer.py b/turbustat/statistics/cramer/cramer.py
index 1bc1d59..aade6b7 100644
--- a/turbustat/statistics/cramer/cramer.py
+++ b/turbustat/statistics/cramer/cramer.py
@@ -95,7 +95,7 @@ class Cramer_Distance(object):
         if samps1 != samps2:
 
             # Set the seed due to the sampling
-            np.random.seed(seed)
+            rng = np.random.RandomState(seed)
 
             if samps1 < samps2:
 
@@ -103,8 +103,8 @@ class Cramer_Distance(object):
 
                 for i in range(self.data_matrix2.shape[0]):
                     new_data[i, :] = \
-                        np.random.choice(self.data_matrix2[i, :], samps1,
-                                         replace=False)
+                        rng.choice(self.data_matrix2[i, :], samps1,
+                                   replace=False)
 
                 self._data_matrix2 = new_data
 
@@ -114,8 +114,8 @@ class Cramer_Distance(object):
 
                 for i in range(self.data_matrix1.shape[0]):
                     new_data[i, :] = \
-                        np.random.choice(self.data_matrix1[i, :], samps2,
-                                         replace=False)
+                        rng.choice(self.data_matrix1[i, :], samps2,
+                                   replace=False)
 
                 self._data_matrix1 = new_data
 
-- 
2.43.0


From cc5d4ecd3780a88b516f4fbec8f8f9a54a1beb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:22 +0000
Subject: [PATCH 09/26] fix: seeded functions draw from a private random stream

make_3dfield, make_extended, Bispectrum and residual_bootstrap seeded the
process-wide numpy stream and restored it afterwards, so another thread (or an
interrupt) could mix the two streams: the same seed gave different results and
the other caller's stream was rewound. The streams are unchanged.
---
 turbustat/simulator/gen_field.py            | 19 ++++---
 turbustat/statistics/fitting_utils.py       | 35 ++++++-------
 turbustat/statistics/pspec_bispec/bispec.py | 57 ++++++++++-----------
 3 files changed, 54 insertions(+), 57 deletions(-)

diff --git a/turbustat/simulator/gen_field.py b/turbustat/simulator/gen_field.py
index a4a1d0f..1bd1350 100644
--- a/turbustat/simulator/gen_field.py
+++ b/turbustat/simulator/gen_field.py
@@ -1,6 +1,5 @@
 
 import numpy as np
-from astropy.utils import NumpyRNGContext
 
 
 def make_3dfield(imsize, powerlaw=2.0, amp=1.0,
@@ -42,14 +41,14 @@ def make_3dfield(imsize, powerlaw=2.0, amp=1.0,
     # flag out the bad point to avoid warnings
     rr[rr == 0] = np.nan
 
-    with NumpyRNGContext(randomseed):
+    rng = np.random.RandomState(randomseed)
 
-        Np1 = (imsize - 1) // 2 if imsize % 2 != 0 else imsize // 2
+    Np1 = (imsize - 1) // 2 if imsize % 2 != 0 else imsize // 2
 
-        angles = np.random.uniform(0, 2 * np.pi,
-                                   size=(imsize, imsize, Np1 + 1))
+    angles = rng.uniform(0, 2 * np.pi,
+                         size=(imsize, imsize, Np1 + 1))
 
-        phases = np.cos(angles) + 1j * np.sin(angles)
+    phases = np.cos(angles) + 1j * np.sin(angles)
 
     output = (rr**(-powerlaw / 2.)).astype('complex') * phases
 
@@ -199,12 +198,12 @@ def make_extended(imsize, powerlaw=2.0, theta=0., ellip=1.,
     # flag out the bad point to avoid warnings
     rr[rr == 0] = np.nan
 
-    with NumpyRNGContext(randomseed):
+    rng = np.random.RandomState(randomseed)
 
-        Np1 = (imsize - 1) // 2 if imsize % 2 != 0 else imsize // 2
+    Np1 = (imsize - 1) // 2 if imsize % 2 != 0 else imsize // 2
 
-        angles = np.random.uniform(0, 2 * np.pi,
-                                   size=(imsize, Np1 + 1))
+    angles = rng.uniform(0, 2 * np.pi,
+                         size=(imsize, Np1 + 1))
 
     phases = np.cos(angles) + 1j * np.sin(angles)
 
diff --git a/turbustat/statistics/fitting_utils.py b/turbustat/statistics/fitting_utils.py
index edc9beb..6f27c4b 100644
--- a/turbustat/statistics/fitting_utils.py
+++ b/turbustat/statistics/fitting_utils.py
@@ -3,7 +3,6 @@ from __future__ import print_function, absolute_import, division
 
 import numpy as np
 import astropy.units as u
-from astropy.utils import NumpyRNGContext
 
 '''
 Routines for fitting a line with errors in both variables.
@@ -328,30 +327,30 @@ def residual_bootstrap(fit_model, nboot=1000, seed=38574895,
     if debug:
         import matplotlib.pyplot as plt
 
-    with NumpyRNGContext(seed):
+    rng = np.random.RandomState(seed)
 
-        for _ in range(nboot):
+    for _ in range(nboot):
 
-            y_resamp = y + y_res[np.random.choice(y_res.size - 1, y_res.size)]
+        y_resamp = y + y_res[rng.choice(y_res.size - 1, y_res.size)]
 
-            resamp_mod = fit_model.model.__class__(y_resamp,
-                                                   fit_model.model.exog)
-            resamp_fit = resamp_mod.fit(**fit_kwargs)
+        resamp_mod = fit_model.model.__class__(y_resamp,
+                                               fit_model.model.exog)
+        resamp_fit = resamp_mod.fit(**fit_kwargs)
 
-            if debug:
-                plt.plot(fit_model.model.exog[:, 1], y, label='Data')
-                plt.plot(fit_model.model.exog[:, 1], y_resamp, label='Resamp')
-                plt.plot(resamp_fit.model.exog[:, 1], resamp_fit.model.endog,
-                         label='Resamp Model')
-                plt.legend()
-                plt.draw()
+        if debug:
+            plt.plot(fit_model.model.exog[:, 1], y, label='Data')
+            plt.plot(fit_model.model.exog[:, 1], y_resamp, label='Resamp')
+            plt.plot(resamp_fit.model.exog[:, 1], resamp_fit.model.endog,
+                     label='Resamp Model')
+            plt.legend()
+            plt.draw()
 
-                print(resamp_fit.params)
+            print(resamp_fit.params)
 
-                input("?")
-                plt.clf()
+            input("?")
+            plt.clf()
 
-            resamps.append(resamp_fit.params)
+        resamps.append(resamp_fit.params)
 
     resamps = np.array(resamps).squeeze()
 
diff --git a/turbustat/statistics/pspec_bispec/bispec.py b/turbustat/statistics/pspec_bispec/bispec.py
index d1072a9..e054c9c 100644
--- a/turbustat/statistics/pspec_bispec/bispec.py
+++ b/turbustat/statistics/pspec_bispec/bispec.py
@@ -2,12 +2,10 @@
 # from __future__ import print_function, absolute_import, division
 
 import numpy as np
-import numpy.random as ra
 import astropy.units as u
 from scipy.stats import binned_statistic
 from warnings import warn
 from astropy.utils.console import ProgressBar
-from astropy.utils import NumpyRNGContext
 from itertools import product
 
 try:
@@ -126,40 +124,41 @@ class Bispectrum(BaseStatisticMixIn):
         prod = product(range(int(fftarr.shape[0] / 2.)),
                        range(int(fftarr.shape[1] / 2.)))
 
-        with NumpyRNGContext(seed):
-            for n, (k1mag, k2mag) in enumerate(prod):
-                phi1 = ra.uniform(0, 2 * np.pi, nsamples)
-                phi2 = ra.uniform(0, 2 * np.pi, nsamples)
+        rng = np.random.RandomState(seed)
 
-                k1x = np.asarray([int(k1mag * np.cos(angle))
-                                  for angle in phi1])
-                k2x = np.asarray([int(k2mag * np.cos(angle))
-                                  for angle in phi2])
-                k1y = np.asarray([int(k1mag * np.sin(angle))
-                                  for angle in phi1])
-                k2y = np.asarray([int(k2mag * np.sin(angle))
-                                  for angle in phi2])
+        for n, (k1mag, k2mag) in enumerate(prod):
+            phi1 = rng.uniform(0, 2 * np.pi, nsamples)
+            phi2 = rng.uniform(0, 2 * np.pi, nsamples)
 
-                k3x = np.asarray([int(k1mag * np.cos(ang1) +
-                                      k2mag * np.cos(ang2))
-                                  for ang1, ang2 in zip(phi1, phi2)])
-                k3y = np.asarray([int(k1mag * np.sin(ang1) +
-                                      k2mag * np.sin(ang2))
-                                  for ang1, ang2 in zip(phi1, phi2)])
+            k1x = np.asarray([int(k1mag * np.cos(angle))
+                              for angle in phi1])
+            k2x = np.asarray([int(k2mag * np.cos(angle))
+                              for angle in phi2])
+            k1y = np.asarray([int(k1mag * np.sin(angle))
+                              for angle in phi1])
+            k2y = np.asarray([int(k2mag * np.sin(angle))
+                              for angle in phi2])
 
-                samps = fftarr[k1x, k1y] * fftarr[k2x, k2y] * conjfft[k3x, k3y]
+            k3x = np.asarray([int(k1mag * np.cos(ang1) +
+                                  k2mag * np.cos(ang2))
+                              for ang1, ang2 in zip(phi1, phi2)])
+            k3y = np.asarray([int(k1mag * np.sin(ang1) +
+                                  k2mag * np.sin(ang2))
+                              for ang1, ang2 in zip(phi1, phi2)])
 
-                self._bispectrum[k1mag, k2mag] = np.sum(samps)
+            samps = fftarr[k1x, k1y] * fftarr[k2x, k2y] * conjfft[k3x, k3y]
 
-                biconorm[k1mag, k2mag] = np.sum(np.abs(samps))
+            self._bispectrum[k1mag, k2mag] = np.sum(samps)
 
-                # Track where we're sampling from in fourier space
-                self._tracker[k1x, k1y] += 1
-                self._tracker[k2x, k2y] += 1
-                self._tracker[k3x, k3y] += 1
+            biconorm[k1mag, k2mag] = np.sum(np.abs(samps))
 
-                if show_progress:
-                    bar.update(n + 1)
+            # Track where we're sampling from in fourier space
+            self._tracker[k1x, k1y] += 1
+            self._tracker[k2x, k2y] += 1
+            self._tracker[k3x, k3y] += 1
+
+            if show_progress:
+                bar.update(n + 1)
 
         self._bicoherence = (np.abs(self.bispectrum) / biconorm)
         self._bispectrum_amp = np.log10(np.abs(self.bispectrum))
-- 
2.43.0


From 23896655e535163d4fd4523fa1622f92fa383fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:32 +0000
Subject: [PATCH 10/26] fix: a fitted PDF can be saved

The likelihood class was local to fit_pdf, so save_results raised
("Can't pickle local object") after any model fit.
---
 turbustat/statistics/pdf/compare_pdf.py | 95 ++++++++++++++-----------
 1 file changed, 55 insertions(+), 40 deletions(-)

diff --git a/turbustat/statistics/pdf/compare_pdf.py b/turbustat/statistics/pdf/compare_pdf.py
index 0b6bf4f..9e658f3 100644
--- a/turbustat/statistics/pdf/compare_pdf.py
+++ b/turbustat/statistics/pdf/compare_pdf.py
@@ -12,6 +12,59 @@ from ..base_statistic import BaseStatisticMixIn
 from ...io import common_types, twod_types, threed_types, input_data
 
 
+class _Likelihood(GenericLikelihoodModel):
+    '''
+    Likelihood of a scipy.stats distribution. Defined at the module level so
+    that a fitted `~PDF` can be pickled.
+    '''
+
+    def __init__(self, data, model, floc=True, loc=0.0, fscale=False,
+                 scale=1.0):
+
+        self._model = model
+
+        # Get the number of parameters from shapes.
+        # Add one for scales, since we're assuming loc is frozen.
+        # Keeping loc=0 is appropriate for log-normal models.
+        self.nparams = 1 if model.shapes is None else \
+            len(model.shapes.split(",")) + 1
+
+        self._floc = floc
+        self._loc = loc
+        self._fscale = fscale
+        self._scale = scale
+
+        super(_Likelihood, self).__init__(data)
+
+    def loglike(self, params):
+        if np.isnan(params).any():
+            return - np.inf
+
+        if not self._floc and not self._fscale:
+            loc = params[-2]
+            scale = params[-1]
+            cut = -2
+        elif not self._floc:
+            loc = params[-1]
+            scale = self._scale
+            cut = -1
+        elif not self._fscale:
+            scale = params[-1]
+            loc = self._loc
+            cut = -1
+
+        loglikes = \
+            self._model.logpdf(self.endog, *params[:cut],
+                               scale=scale,
+                               loc=loc)
+
+        if not np.isfinite(loglikes).all():
+            return -np.inf
+
+        else:
+            return loglikes.sum()
+
+
 class PDF(BaseStatisticMixIn):
     '''
     Create the PDF of a given array.
@@ -213,45 +266,6 @@ class PDF(BaseStatisticMixIn):
 
         self._do_fit = True
 
-        class Likelihood(GenericLikelihoodModel):
-
-            # Get the number of parameters from shapes.
-            # Add one for scales, since we're assuming loc is frozen.
-            # Keeping loc=0 is appropriate for log-normal models.
-            nparams = 1 if model.shapes is None else \
-                len(model.shapes.split(",")) + 1
-
-            _loc = loc
-            _scale = scale
-
-            def loglike(self, params):
-                if np.isnan(params).any():
-                    return - np.inf
-
-                if not floc and not fscale:
-                    loc = params[-2]
-                    scale = params[-1]
-                    cut = -2
-                elif not floc:
-                    loc = params[-1]
-                    scale = self._scale
-                    cut = -1
-                elif not fscale:
-                    scale = params[-1]
-                    loc = self._loc
-                    cut = -1
-
-                loglikes = \
-                    model.logpdf(self.endog, *params[:cut],
-                                 scale=scale,
-                                 loc=loc)
-
-                if not np.isfinite(loglikes).all():
-                    return -np.inf
-
-                else:
-                    return loglikes.sum()
-
         def emcee_fit(model, init_params, burnin=200, steps=2000, thin=10):
 
             try:
@@ -290,7 +304,8 @@ class PDF(BaseStatisticMixIn):
 
         init_params = np.array(init_params)
 
-        self._model = Likelihood(self.data)
+        self._model = _Likelihood(self.data, model, floc=floc, loc=loc,
+                                  fscale=fscale, scale=scale)
 
         self._scipy_model = model
 
-- 
2.43.0


From c118e4aff4cc22f1dc75d8445789f80d71bf648e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:33 +0000
Subject: [PATCH 11/26] fix: MVC.save_results drops every copy of the data

_data is the centroid map, and was still written with keep_data=False.
---
 turbustat/statistics/mvc/mvc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/turbustat/statistics/mvc/mvc.py b/turbustat/statistics/mvc/mvc.py
index 6e5dc8f..bb6f641 100644
--- a/turbustat/statistics/mvc/mvc.py
+++ b/turbustat/statistics/mvc/mvc.py
@@ -217,6 +217,7 @@ class MVC(BaseStatisticMixIn, StatisticBase_PSpec2D):
 
         # Don't keep the whole cube unless keep_data enabled.
         if not keep_data:
+            self_copy._data = None
             self_copy._centroid = None
             self_copy._moment0 = None
             self_copy._linewidth = None
-- 
2.43.0


From 840ad9ccab6065ef53cac86415c5eff61a627d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:33 +0000
Subject: [PATCH 12/26] fix: copied and reloaded statistics keep a usable beam

radio_beam.Beam loses its axes when it is pickled or deep-copied, so
beam_correct=True raised on an object returned by load_results.
---
 turbustat/statistics/base_statistic.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/turbustat/statistics/base_statistic.py b/turbustat/statistics/base_statistic.py
index 4b9aa9d..ec3d639 100644
--- a/turbustat/statistics/base_statistic.py
+++ b/turbustat/statistics/base_statistic.py
@@ -31,6 +31,20 @@ class BaseStatisticMixIn(object):
     # Disable this when the data property will not be used.
     no_data_flag = False
 
+    def __getstate__(self):
+        # A copied or unpickled Beam has lost its axes. Keep them instead.
+        state = self.__dict__.copy()
+        beam = state.get("_beam")
+        if isinstance(beam, Beam):
+            state["_beam"] = (beam.major, beam.minor, beam.pa)
+
+        return state
+
+    def __setstate__(self, state):
+        self.__dict__.update(state)
+        if isinstance(state.get("_beam"), tuple):
+            self._beam = Beam(*state["_beam"])
+
     @property
     def header(self):
         return self._header
-- 
2.43.0


From 65442b5c82867862b40c181be17f47c38d475b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:43 +0000
Subject: [PATCH 13/26] fix: save_results never damages previously saved
 results

---
 turbustat/statistics/base_statistic.py | 24 ++++++++++++++++++++++--
 turbustat/statistics/mvc/mvc.py        | 11 ++---------
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/turbustat/statistics/base_statistic.py b/turbustat/statistics/base_statistic.py
index ec3d639..e90583c 100644
--- a/turbustat/statistics/base_statistic.py
+++ b/turbustat/statistics/base_statistic.py
@@ -9,6 +9,8 @@ from astropy.wcs.utils import proj_plane_pixel_scales, is_proj_plane_distorted
 from radio_beam import Beam
 from radio_beam.beam import NoBeamException
 from warnings import warn
+import os
+import uuid
 import sys
 from copy import deepcopy
 
@@ -20,6 +22,25 @@ else:
 from ..io import input_data
 
 
+def _write_pickle(obj, output_name):
+    '''
+    Pickle an object to a file. The file only takes its final name once it is
+    complete, so a failed save never damages previously saved results.
+    '''
+
+    output_name = os.path.realpath(output_name)
+    temp_name = "{0}.{1}.tmp".format(output_name, uuid.uuid4().hex)
+
+    try:
+        with open(temp_name, 'wb') as output:
+            pickle.dump(obj, output, -1)
+        os.replace(temp_name, output_name)
+    except BaseException:
+        if os.path.exists(temp_name):
+            os.remove(temp_name)
+        raise
+
+
 class BaseStatisticMixIn(object):
     """
     Common properties to all statistics
@@ -161,8 +182,7 @@ class BaseStatisticMixIn(object):
         if not keep_data:
             self_copy._data = None
 
-        with open(output_name, 'wb') as output:
-                pickle.dump(self_copy, output, -1)
+        _write_pickle(self_copy, output_name)
 
     @staticmethod
     def load_results(pickle_file):
diff --git a/turbustat/statistics/mvc/mvc.py b/turbustat/statistics/mvc/mvc.py
index bb6f641..a106011 100644
--- a/turbustat/statistics/mvc/mvc.py
+++ b/turbustat/statistics/mvc/mvc.py
@@ -5,16 +5,10 @@ import numpy as np
 from numpy.fft import fftshift
 import astropy.units as u
 from warnings import warn
-import sys
 from copy import deepcopy
 
-if sys.version_info[0] >= 3:
-    import _pickle as pickle
-else:
-    import cPickle as pickle
-
 from ..base_pspec2 import StatisticBase_PSpec2D
-from ..base_statistic import BaseStatisticMixIn
+from ..base_statistic import BaseStatisticMixIn, _write_pickle
 from ...io import input_data, common_types, twod_types
 from ..fitting_utils import check_fit_limits
 from ..rfft_to_fft import rfft_to_fft
@@ -222,8 +216,7 @@ class MVC(BaseStatisticMixIn, StatisticBase_PSpec2D):
             self_copy._moment0 = None
             self_copy._linewidth = None
 
-        with open(output_name, 'wb') as output:
-                pickle.dump(self_copy, output, -1)
+        _write_pickle(self_copy, output_name)
 
     def run(self, verbose=False, beam_correct=False,
             apodize_kernel=None, alpha=0.2, beta=0.0,
-- 
2.43.0


From 32385b7758a91439833dd3fa22432fba506fdcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:03 +0000
Subject: [PATCH 14/26] fix: a fit without a break does not report the previous
 break's error

---
 turbustat/statistics/base_pspec2.py                   | 2 +-
 turbustat/statistics/delta_variance/delta_variance.py | 1 +
 turbustat/statistics/wavelets/wavelet_transform.py    | 1 +
 3 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/base_pspec2.py b/turbustat/statistics/base_pspec2.py
index 3af1cba..1e18367 100644
--- a/turbustat/statistics/base_pspec2.py
+++ b/turbustat/statistics/base_pspec2.py
@@ -277,9 +277,9 @@ class StatisticBase_PSpec2D(object):
                                without break.")
         else:
             self._brk = None
-            self._brk_err = None
 
         if self.brk is None:
+            self._brk_err = None
             x = sm.add_constant(x)
 
             if weighted_fit:
diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index a15a263..c73dba6 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -406,6 +406,7 @@ class DeltaVariance(BaseStatisticMixIn):
         # Revert to model without break if none is given, or if the segmented
         # model failed.
         if self.brk is None:
+            self._brk_err = None
 
             x = sm.add_constant(x)
 
diff --git a/turbustat/statistics/wavelets/wavelet_transform.py b/turbustat/statistics/wavelets/wavelet_transform.py
index 0fb7912..2444447 100644
--- a/turbustat/statistics/wavelets/wavelet_transform.py
+++ b/turbustat/statistics/wavelets/wavelet_transform.py
@@ -351,6 +351,7 @@ class Wavelet(BaseStatisticMixIn):
         # Revert to model without break if none is given, or if the segmented
         # model failed.
         if self.brk is None:
+            self._brk_err = None
 
             x = sm.add_constant(x)
 
-- 
2.43.0


From 1dbad9d78c56c7471c4653f5158a133f9bfe0225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:27 +0000
Subject: [PATCH 15/26] fix: DeltaVariance_Distance uses given DeltaVariance
 objects correctly

Check dataset2's type (not dataset1's), recompute with the requested lags,
define lags2 and use the second set of keywords for the second object.
Setting new lags drops the fit made for the old ones.
---
 .../statistics/delta_variance/delta_variance.py  | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index c73dba6..03d4a6d 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -118,6 +118,10 @@ class DeltaVariance(BaseStatisticMixIn):
 
         self._lags = values
 
+        # An existing fit is for different lags.
+        if hasattr(self, "_slope"):
+            del self._slope
+
     @property
     def weights(self):
         '''
@@ -711,7 +715,7 @@ class DeltaVariance_Distance(object):
 
     def __init__(self, dataset1, dataset2, weights1=None, weights2=None,
                  diam_ratio=1.5, lags=None, use_common_lags=True,
-                 delvar_kwargs={}, delvar2_kwargs=None):
+                 delvar_kwargs={}, delvar2_kwargs=None, lags2=None):
         super(DeltaVariance_Distance, self).__init__()
 
         if isinstance(dataset1, DeltaVariance):
@@ -721,7 +725,7 @@ class DeltaVariance_Distance(object):
             _given_data1 = True
             dataset1 = copy(input_data(dataset1, no_header=False))
 
-        if isinstance(dataset1, DeltaVariance):
+        if isinstance(dataset2, DeltaVariance):
             _given_data2 = False
             self.delvar2 = dataset2
         else:
@@ -796,7 +800,8 @@ class DeltaVariance_Distance(object):
         else:
             # Check if we need to re-run the statistic if the lags are wrong.
             if lags1 is not None:
-                if not (self.delvar1.lags == lags1).all():
+                if not np.array_equal(self.delvar1.lags, lags1):
+                    self.delvar1.lags = lags1
                     self.delvar1.run(**delvar_kwargs)
 
             if not hasattr(self.delvar1, "_slope"):
@@ -816,7 +821,8 @@ class DeltaVariance_Distance(object):
             self.delvar2.run(**delvar2_kwargs)
         else:
             if lags2 is not None:
-                if not (self.delvar2.lags == lags2).all():
+                if not np.array_equal(self.delvar2.lags, lags2):
+                    self.delvar2.lags = lags2
                     self.delvar2.run(**delvar2_kwargs)
 
             if not hasattr(self.delvar2, "_slope"):
@@ -824,7 +830,7 @@ class DeltaVariance_Distance(object):
                      " slope. Re-running delta variance.")
                 if lags2 is not None:
                     self.delvar2._lags = lags2
-                self.delvar2.run(**delvar_kwargs)
+                self.delvar2.run(**delvar2_kwargs)
 
     @property
     def curve_distance(self):
-- 
2.43.0


From f04f2715e72e263d0daec107c2144574812e67cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:27 +0000
Subject: [PATCH 16/26] fix: SCF_Distance recomputes given SCFs whose lags
 differ

Lag arrays of different sizes were treated as matching, and the lags of
the second cube depended on how the first was given. Setting new lags
drops the spectrum made for the old ones.
---
 turbustat/statistics/scf/scf.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/turbustat/statistics/scf/scf.py b/turbustat/statistics/scf/scf.py
index 2cc2743..d27e302 100644
--- a/turbustat/statistics/scf/scf.py
+++ b/turbustat/statistics/scf/scf.py
@@ -120,6 +120,10 @@ class SCF(BaseStatisticMixIn):
                                         " distance is given) units.")
         self._roll_lags = value
 
+        # An existing spectrum is for different lags.
+        if hasattr(self, "_scf_spectrum"):
+            del self._scf_spectrum
+
     @property
     def scf_surface(self):
         '''
@@ -866,12 +870,12 @@ class SCF_Distance(object):
             else:
                 roll_lags1 = roll_lags
 
-            if not _has_data1:
+            if not _has_data2:
                 roll_lags2 = self.scf2._to_pixel(self.scf2.roll_lags)
             else:
                 roll_lags2 = roll_lags
 
-            if not (roll_lags1 == roll_lags2).all():
+            if not np.array_equal(roll_lags1, roll_lags2):
                 raise ValueError("The roll lags must match when using pre-computed SCFs.")
 
         elif scale > 1.0:
@@ -896,10 +900,9 @@ class SCF_Distance(object):
         else:
             needs_run1 = False
 
-            if roll_lags1.size != self.scf1.roll_lags.size:
-                lag_check = True
-            else:
-                lag_check = (roll_lags1 == self.scf1._to_pixel(self.scf1.roll_lags)).all()
+            lag_check = \
+                np.array_equal(roll_lags1,
+                               self.scf1._to_pixel(self.scf1.roll_lags))
 
             if not lag_check:
                 warn("SCF given as cube1 needs to be recomputed as the lags"
@@ -907,6 +910,7 @@ class SCF_Distance(object):
                      " sets. Recomputing SCF.")
                 needs_run1 = True
                 self.scf1.roll_lags = roll_lags1
+                self.scf1.size = roll_lags1.size
 
             compute_check = hasattr(self.scf1, "_scf_spectrum")
             if not compute_check:
@@ -927,10 +931,9 @@ class SCF_Distance(object):
         else:
             needs_run2 = False
 
-            if roll_lags2.size != self.scf2.roll_lags.size:
-                lag_check = True
-            else:
-                lag_check = (roll_lags2 == self.scf2._to_pixel(self.scf2.roll_lags)).all()
+            lag_check = \
+                np.array_equal(roll_lags2,
+                               self.scf2._to_pixel(self.scf2.roll_lags))
 
             if not lag_check:
                 warn("SCF given as cube2 needs to be recomputed as the lags"
@@ -938,6 +941,7 @@ class SCF_Distance(object):
                      " sets. Recomputing SCF.")
                 needs_run2 = True
                 self.scf2.roll_lags = roll_lags2
+                self.scf2.size = roll_lags2.size
 
             compute_check = hasattr(self.scf2, "_scf_spectrum")
             if not compute_check:
-- 
2.43.0


From 4d149440928ef1865a8c93664f2021f6987f63cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:27 +0000
Subject: [PATCH 17/26] fix: StatMoments only keeps complete maps and
 StatMoments_Distance uses its bins

An interrupted compute_spatial_distrib left uninitialized maps, which
later calls took as finished.
---
 .../stat_moments/highstatmoments.py           | 43 ++++++++++++-------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/turbustat/statistics/stat_moments/highstatmoments.py b/turbustat/statistics/stat_moments/highstatmoments.py
index 7b5a58b..a2bdeab 100644
--- a/turbustat/statistics/stat_moments/highstatmoments.py
+++ b/turbustat/statistics/stat_moments/highstatmoments.py
@@ -93,6 +93,12 @@ class StatMoments(BaseStatisticMixIn):
 
         self._radius = value
 
+        # Existing maps are for a different radius.
+        for name in ("_mean_array", "_variance_array", "_skewness_array",
+                     "_kurtosis_array"):
+            if hasattr(self, name):
+                delattr(self, name)
+
     def array_moments(self):
         '''
         Moments over the entire image.
@@ -124,10 +130,10 @@ class StatMoments(BaseStatisticMixIn):
             raise ValueError("min_frac must be larger than 0 and less than"
                              "or equal to 1.")
 
-        self._mean_array = np.empty(self.data.shape)
-        self._variance_array = np.empty(self.data.shape)
-        self._skewness_array = np.empty(self.data.shape)
-        self._kurtosis_array = np.empty(self.data.shape)
+        mean_array = np.empty(self.data.shape)
+        variance_array = np.empty(self.data.shape)
+        skewness_array = np.empty(self.data.shape)
+        kurtosis_array = np.empty(self.data.shape)
 
         # Use the new radius when another given
         if radius is not None:
@@ -166,10 +172,10 @@ class StatMoments(BaseStatisticMixIn):
                     np.isfinite(wgt_slice).sum() / float(wgt_slice.size)
 
                 if valid_img_frac < min_frac or valid_wgt_frac < min_frac:
-                    self.mean_array[i - pix_rad, j - pix_rad] = np.nan
-                    self.variance_array[i - pix_rad, j - pix_rad] = np.nan
-                    self.skewness_array[i - pix_rad, j - pix_rad] = np.nan
-                    self.kurtosis_array[i - pix_rad, j - pix_rad] = np.nan
+                    mean_array[i - pix_rad, j - pix_rad] = np.nan
+                    variance_array[i - pix_rad, j - pix_rad] = np.nan
+                    skewness_array[i - pix_rad, j - pix_rad] = np.nan
+                    kurtosis_array[i - pix_rad, j - pix_rad] = np.nan
 
                 else:
                     img_slice = img_slice * circle_mask
@@ -177,14 +183,20 @@ class StatMoments(BaseStatisticMixIn):
 
                     moments = compute_moments(img_slice, wgt_slice)
 
-                    self.mean_array[i - pix_rad, j - pix_rad] = moments[0]
-                    self.variance_array[i - pix_rad, j - pix_rad] = moments[1]
-                    self.skewness_array[i - pix_rad, j - pix_rad] = moments[2]
-                    self.kurtosis_array[i - pix_rad, j - pix_rad] = moments[3]
+                    mean_array[i - pix_rad, j - pix_rad] = moments[0]
+                    variance_array[i - pix_rad, j - pix_rad] = moments[1]
+                    skewness_array[i - pix_rad, j - pix_rad] = moments[2]
+                    kurtosis_array[i - pix_rad, j - pix_rad] = moments[3]
 
                 if show_progress:
                     bar.update(n + 1)
 
+        # Only keep complete maps
+        self._mean_array = mean_array
+        self._variance_array = variance_array
+        self._skewness_array = skewness_array
+        self._kurtosis_array = kurtosis_array
+
     @property
     def mean_array(self):
         '''
@@ -587,13 +599,13 @@ class StatMoments_Distance(object):
             pix_rad = self.moments1._to_pixel(self.moments1.radius).value
             pix_rad1 = self.moments1._to_pixel(radius1).value
 
-            if np.abs(pix_rad - pix_rad1) >= 1.:
+            if np.ceil(pix_rad) != np.ceil(pix_rad1):
                 warnings.warn("Spatial radius differs "
                               "between the given radius"
                               " or common radius found by "
                               "StatMoments_Distance. Recomputing `moments1`.")
                 self.moments1.radius = radius1
-                self.moments1.nbins = nbins
+                self.moments1.nbins = self.nbins
                 needs_run = True
 
         if needs_run:
@@ -616,11 +628,12 @@ class StatMoments_Distance(object):
 
             pix_rad = self.moments2._to_pixel(self.moments2.radius).value
             pix_rad2 = self.moments2._to_pixel(radius2).value
-            if np.abs(pix_rad - pix_rad2) >= 1.:
+            if np.ceil(pix_rad) != np.ceil(pix_rad2):
                 warnings.warn("Spatial radius differs between the given radius"
                               " or common radius found by "
                               "StatMoments_Distance. Recomputing `moments2`.")
                 self.moments2.radius = radius2
+                self.moments2.nbins = self.nbins
                 needs_run = True
 
         if needs_run:
-- 
2.43.0


From 2ec49b6ca1f507b3a4dbeb73b237f249bd4dc939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:27 +0000
Subject: [PATCH 18/26] fix: Bispectrum only keeps a completed bispectrum

An interrupted run left a partially filled bispectrum.
---
 turbustat/statistics/pspec_bispec/bispec.py | 25 ++++++++++++---------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/turbustat/statistics/pspec_bispec/bispec.py b/turbustat/statistics/pspec_bispec/bispec.py
index e054c9c..56794e9 100644
--- a/turbustat/statistics/pspec_bispec/bispec.py
+++ b/turbustat/statistics/pspec_bispec/bispec.py
@@ -112,11 +112,10 @@ class Bispectrum(BaseStatisticMixIn):
 
         bispec_shape = (int(self.shape[0] / 2.), int(self.shape[1] / 2.))
 
-        self._bispectrum = np.zeros(bispec_shape, dtype=complex)
-        self._bicoherence = np.zeros(bispec_shape, dtype=float)
-        self._tracker = np.zeros(self.shape, dtype=np.int16)
+        bispectrum = np.zeros(bispec_shape, dtype=complex)
+        tracker = np.zeros(self.shape, dtype=np.int16)
 
-        biconorm = np.ones_like(self.bispectrum, dtype=float)
+        biconorm = np.ones_like(bispectrum, dtype=float)
 
         if show_progress:
             bar = ProgressBar(np.prod(fftarr.shape) / 4.)
@@ -148,20 +147,26 @@ class Bispectrum(BaseStatisticMixIn):
 
             samps = fftarr[k1x, k1y] * fftarr[k2x, k2y] * conjfft[k3x, k3y]
 
-            self._bispectrum[k1mag, k2mag] = np.sum(samps)
+            bispectrum[k1mag, k2mag] = np.sum(samps)
 
             biconorm[k1mag, k2mag] = np.sum(np.abs(samps))
 
             # Track where we're sampling from in fourier space
-            self._tracker[k1x, k1y] += 1
-            self._tracker[k2x, k2y] += 1
-            self._tracker[k3x, k3y] += 1
+            tracker[k1x, k1y] += 1
+            tracker[k2x, k2y] += 1
+            tracker[k3x, k3y] += 1
 
             if show_progress:
                 bar.update(n + 1)
 
-        self._bicoherence = (np.abs(self.bispectrum) / biconorm)
-        self._bispectrum_amp = np.log10(np.abs(self.bispectrum))
+        bicoherence = (np.abs(bispectrum) / biconorm)
+        bispectrum_amp = np.log10(np.abs(bispectrum))
+
+        # Only keep complete results
+        self._bicoherence = bicoherence
+        self._bispectrum_amp = bispectrum_amp
+        self._tracker = tracker
+        self._bispectrum = bispectrum
 
     @property
     def bispectrum(self):
-- 
2.43.0


From aec1cf3060728f5c582d80a9ebe03c1ff778e27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:27 +0000
Subject: [PATCH 19/26] fix: Dendrogram_Stats only keeps completed feature
 counts

An interrupted compute_dendro left uninitialized counts, and new
min_deltas kept the fit made for the old ones.
---
 .../statistics/dendrograms/dendro_stats.py    | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/turbustat/statistics/dendrograms/dendro_stats.py b/turbustat/statistics/dendrograms/dendro_stats.py
index 5ababa1..19f12d0 100644
--- a/turbustat/statistics/dendrograms/dendro_stats.py
+++ b/turbustat/statistics/dendrograms/dendro_stats.py
@@ -106,6 +106,10 @@ class Dendrogram_Stats(BaseStatisticMixIn):
             else:
                 self._min_deltas = value
 
+        # An existing fit is for different min_deltas.
+        if hasattr(self, "_tail_slope"):
+            del self._tail_slope
+
     def autoset_min_deltas(self, num=10):
         '''
         Create an array delta values that the dendrogram will be pruned to.
@@ -151,8 +155,8 @@ class Dendrogram_Stats(BaseStatisticMixIn):
             Enable when the data is periodic in the spatial dimensions.
         '''
 
-        self._numfeatures = np.empty(self.min_deltas.shape, dtype=int)
-        self._values = []
+        numfeatures = np.empty(self.min_deltas.shape, dtype=int)
+        values = []
 
         if dendro_obj is None:
             if periodic_bounds:
@@ -173,9 +177,9 @@ class Dendrogram_Stats(BaseStatisticMixIn):
                                    neighbours=neighbours)
         else:
             d = dendro_obj
-        self._numfeatures[0] = len(d)
-        self._values.append(np.array([struct.vmax for struct in
-                                      d.all_structures]))
+        numfeatures[0] = len(d)
+        values.append(np.array([struct.vmax for struct in
+                                d.all_structures]))
 
         if len(self.min_deltas) > 1:
 
@@ -186,13 +190,17 @@ class Dendrogram_Stats(BaseStatisticMixIn):
 
             for i, delta in enumerate(self.min_deltas[1:]):
                 d.prune(min_delta=delta)
-                self._numfeatures[i + 1] = len(d)
-                self._values.append(np.array([struct.vmax for struct in
-                                              d.all_structures]))
+                numfeatures[i + 1] = len(d)
+                values.append(np.array([struct.vmax for struct in
+                                        d.all_structures]))
 
                 if show_progress:
                     bar.update(i + 1)
 
+        # Only keep complete results
+        self._numfeatures = numfeatures
+        self._values = values
+
     @property
     def numfeatures(self):
         '''
-- 
2.43.0


From 798ee387d15cb5c9daf9f839481d3577cb7f5fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:56 +0000
Subject: [PATCH 20/26] fix: plot_fit raised for power spectra fitted with a
 break

---
 turbustat/statistics/base_pspec2.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/base_pspec2.py b/turbustat/statistics/base_pspec2.py
index 1e18367..a133fbe 100644
--- a/turbustat/statistics/base_pspec2.py
+++ b/turbustat/statistics/base_pspec2.py
@@ -716,7 +716,11 @@ class StatisticBase_PSpec2D(object):
 
         xvals_plot = np.log10(xvals[fit_index]).ravel()
         # y_fit = self.fit.fittedvalues
-        y_fit = self.fit.predict(sm.add_constant(xvals_plot))
+        if isinstance(self.slope, np.ndarray):
+            # Broken linear model
+            y_fit = self._model.model(np.log10(self.freqs.value[fit_index]))
+        else:
+            y_fit = self.fit.predict(sm.add_constant(xvals_plot))
 
         ax_1D.plot(xvals_plot, y_fit, linestyle='-',
                    label=label, linewidth=3, color=fit_color)
-- 
2.43.0


From 7730ae8c3bf6b26ca2148b09cdf9fc32eaa26b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:56 +0000
Subject: [PATCH 21/26] fix: Dendrogram_Stats.plot_fit raised for a histogram
 with a single bin

---
 turbustat/statistics/dendrograms/dendro_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/dendrograms/dendro_stats.py b/turbustat/statistics/dendrograms/dendro_stats.py
index 19f12d0..f4800d3 100644
--- a/turbustat/statistics/dendrograms/dendro_stats.py
+++ b/turbustat/statistics/dendrograms/dendro_stats.py
@@ -397,7 +397,7 @@ class Dendrogram_Stats(BaseStatisticMixIn):
             for bins, vals in self.hists:
                 if bins.size < 1:
                     continue
-                bin_width = np.abs(bins[1] - bins[0])
+                bin_width = np.abs(bins[1] - bins[0]) if bins.size > 1 else 1.
                 ax2.bar(bins, vals, align="center",
                         width=bin_width, alpha=0.25,
                         color=color)
-- 
2.43.0


From 4272bb72dab906876a398c01c2773951e719f806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:56 +0000
Subject: [PATCH 22/26] fix: VCA raised when fitting or plotting the 2D power
 spectrum of a SpectralCube or re-gridded cube

---
 turbustat/statistics/vca_vcs/vca.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/turbustat/statistics/vca_vcs/vca.py b/turbustat/statistics/vca_vcs/vca.py
index 5b8d25d..b8c1684 100644
--- a/turbustat/statistics/vca_vcs/vca.py
+++ b/turbustat/statistics/vca_vcs/vca.py
@@ -59,6 +59,11 @@ class VCA(BaseStatisticMixIn, StatisticBase_PSpec2D):
             # Don't pass the header. It will read the new one in reg_cube
             self.input_data_header(reg_cube, None)
 
+        # The fits and plots use the log of the power, so drop the units that
+        # come with a SpectralCube.
+        if hasattr(self.data, "unit"):
+            self.data = self.data.value
+
         isnan = np.isnan(self.data)
         if isnan.any():
             self.data = self.data.copy()
-- 
2.43.0


From 939e30583f1318af087c47c1107c438f5335fdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:47 +0000
Subject: [PATCH 23/26] fix: pyFFTW power spectra raised for data in FITS
 (big-endian) byte order

---
 turbustat/statistics/rfft_to_fft.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/turbustat/statistics/rfft_to_fft.py b/turbustat/statistics/rfft_to_fft.py
index 67c07c5..c80e5d8 100644
--- a/turbustat/statistics/rfft_to_fft.py
+++ b/turbustat/statistics/rfft_to_fft.py
@@ -52,6 +52,9 @@ def rfft_to_fft(image, keep_rfft=False, use_pyfftw=False,
 
     if use_pyfftw:
         if PYFFTW_FLAG:
+            # FFTW only handles the native byte order
+            image = np.asanyarray(image)
+            image = image.astype(image.dtype.newbyteorder('='), copy=False)
             fft_abs = np.abs(rfftn(image, **pyfftw_kwargs))
         else:
             use_pyfftw = False
-- 
2.43.0


From 1a4081459e1703ea84b3aa098bd3ab9ecc6f23ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:16 +0000
Subject: [PATCH 24/26] fix: spectral_regrid_cube does not change the caller's
 cube

---
 turbustat/statistics/vca_vcs/slice_thickness.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/vca_vcs/slice_thickness.py b/turbustat/statistics/vca_vcs/slice_thickness.py
index 33c542c..dd976d0 100644
--- a/turbustat/statistics/vca_vcs/slice_thickness.py
+++ b/turbustat/statistics/vca_vcs/slice_thickness.py
@@ -5,6 +5,7 @@ import numpy as np
 from astropy import units as u
 from astropy.convolution import Gaussian1DKernel
 from warnings import warn
+from copy import copy
 
 try:
     from spectral_cube.version import version as sc_version
@@ -88,6 +89,9 @@ def spectral_regrid_cube(cube, channel_width, method='downsample',
         raise ValueError("method must be 'regrid' or 'downsample'. {} was"
                          " given".format(method))
 
+    # Set the flag on a shallow copy: the given cube belongs to the caller.
+    orig_cube = cube
+    cube = copy(orig_cube)
     cube.allow_huge_operations = allow_huge_operations
 
     if method == 'downsample':
@@ -142,7 +146,7 @@ def spectral_regrid_cube(cube, channel_width, method='downsample',
         if diff_factor == 1:
             warn("The requested channel width match the original channel "
                  "width. The original cube is returned.")
-            return cube
+            return orig_cube
 
         if diff_factor < 1:
             raise ValueError("Only down-sampling the spectral grid is"
-- 
2.43.0


From a5bdd30501409f841bfa37f0538f9c7227790a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:16 +0000
Subject: [PATCH 25/26] fix: WidthEstimate1D does not normalise the caller's
 arrays in place

---
 turbustat/statistics/pca/width_estimate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/pca/width_estimate.py b/turbustat/statistics/pca/width_estimate.py
index 36c2755..b88ea03 100644
--- a/turbustat/statistics/pca/width_estimate.py
+++ b/turbustat/statistics/pca/width_estimate.py
@@ -352,7 +352,7 @@ def WidthEstimate1D(inList, method='walk-down'):
                 scales[idx] = np.abs(output.stddev.value) * np.sqrt(2)
             scale_errors[idx] = errors[-1] * np.sqrt(2)
         elif method == "walk-down":
-            y /= y.max()
+            y = y / y.max()
             # Starting from the first point, start walking down the curve until
             # 1/e is reached
             for i, val in enumerate(y):
-- 
2.43.0


From 85642b5cf18cff496997f74fe4f5d5082de60c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:16 +0000
Subject: [PATCH 26/26] fix: PowerSpectrum accepts read-only data when weights
 are given

---
 turbustat/statistics/pspec_bispec/pspec.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/turbustat/statistics/pspec_bispec/pspec.py b/turbustat/statistics/pspec_bispec/pspec.py
index 8f77758..0fd021f 100644
--- a/turbustat/statistics/pspec_bispec/pspec.py
+++ b/turbustat/statistics/pspec_bispec/pspec.py
@@ -50,13 +50,9 @@ class PowerSpectrum(BaseStatisticMixIn, StatisticBase_PSpec2D):
         if weights is None:
             weights = np.ones(self.data.shape)
         else:
-            # Get rid of all NaNs
-            isnan = np.isnan(self.data)
-
+            # Get rid of all NaNs. The NaNs in the data were removed above
             weights = weights.copy()
             weights[np.isnan(weights)] = 0.0
-            weights[isnan] = 0.0
-            self.data[isnan] = 0.0
 
         self.weighted_data = self.data * weights
 
-- 
2.43.0

