From 3e9823b970b076e9b882ac6223b325df6c514f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:18 +0000
Subject: [PATCH 01/27] fix: evaluate the NUFFT at -2*phi so asymmetric Faraday
 depth grids are not mirrored

---
 RMutils/util_RM.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index 265c36b..65b9e5c 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -202,7 +202,7 @@ def do_rmsynth_planes(
         finufft.nufft1d3(
             x=a,
             c=np.ascontiguousarray(pCube.T),
-            s=(phiArr_radm2[::-1] * 2).astype(a.dtype),
+            s=(-2 * phiArr_radm2).astype(a.dtype),
             eps=eps,
         )
         * KArr[..., None]
@@ -403,7 +403,7 @@ def get_rmsf_planes(
             finufft.nufft1d3(
                 x=a,
                 c=np.ascontiguousarray(weightCube.T),
-                s=(phi2Arr[::-1] * 2).astype(a.dtype),
+                s=(-2 * phi2Arr).astype(a.dtype),
                 eps=eps,
             )
             * KArr[..., None]
-- 
2.43.0


From 2756fbc4d463e09c1618524adad66582597c87ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:19 +0000
Subject: [PATCH 02/27] fix: propagate the covariance correctly in
 renormalize_StokesI_model

The variance of the fifth parameter of a log model used cov[0,5] in place of
cov[1,1], and the variance of the last one lacked the ln(10)^2 factors.
---
 RMutils/util_misc.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index cb3c30c..bc42c09 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -658,7 +658,7 @@ def renormalize_StokesI_model(
                 + 30 * lnx**6 * cov[0, 2]
                 + 20 * lnx**5 * cov[0, 3]
                 + 10 * lnx**4 * cov[0, 4]
-                + 16 * lnx**6 * cov[0, 5]
+                + 16 * lnx**6 * cov[1, 1]
                 + 24 * lnx**5 * cov[1, 2]
                 + 16 * lnx**4 * cov[1, 3]
                 + 8 * lnx**3 * cov[1, 4]
@@ -671,25 +671,25 @@ def renormalize_StokesI_model(
             ),
             np.abs(g2)
             * np.sqrt(
-                lnx**10 * cov[0, 0]
-                + 2 * lnx**9 * cov[0, 1]
-                + 2 * lnx**8 * cov[0, 2]
-                + 2 * lnx**7 * cov[0, 3]
-                + 2 * lnx**6 * cov[0, 4]
+                lnx**10 * np.log(10) ** 2 * cov[0, 0]
+                + 2 * lnx**9 * np.log(10) ** 2 * cov[0, 1]
+                + 2 * lnx**8 * np.log(10) ** 2 * cov[0, 2]
+                + 2 * lnx**7 * np.log(10) ** 2 * cov[0, 3]
+                + 2 * lnx**6 * np.log(10) ** 2 * cov[0, 4]
                 + 2 * lnx**5 / g * np.log(10) * cov[0, 5]
-                + lnx**8 * cov[1, 1]
-                + 2 * lnx**7 * cov[1, 2]
-                + 2 * lnx**6 * cov[1, 3]
-                + 2 * lnx**5 * cov[1, 4]
+                + lnx**8 * np.log(10) ** 2 * cov[1, 1]
+                + 2 * lnx**7 * np.log(10) ** 2 * cov[1, 2]
+                + 2 * lnx**6 * np.log(10) ** 2 * cov[1, 3]
+                + 2 * lnx**5 * np.log(10) ** 2 * cov[1, 4]
                 + 2 * lnx**4 / g * np.log(10) * cov[1, 5]
-                + lnx**6 * cov[2, 2]
-                + 2 * lnx**5 * cov[2, 3]
-                + 2 * lnx**4 * cov[2, 4]
+                + lnx**6 * np.log(10) ** 2 * cov[2, 2]
+                + 2 * lnx**5 * np.log(10) ** 2 * cov[2, 3]
+                + 2 * lnx**4 * np.log(10) ** 2 * cov[2, 4]
                 + 2 * lnx**3 / g * np.log(10) * cov[2, 5]
-                + lnx**4 * cov[3, 3]
-                + 2 * lnx**3 * cov[3, 4]
+                + lnx**4 * np.log(10) ** 2 * cov[3, 3]
+                + 2 * lnx**3 * np.log(10) ** 2 * cov[3, 4]
                 + 2 * lnx**2 / g * np.log(10) * cov[3, 5]
-                + lnx**2 * cov[4, 4]
+                + lnx**2 * np.log(10) ** 2 * cov[4, 4]
                 + 2 * lnx / g * np.log(10) * cov[4, 5]
                 + 1 / g**2 * cov[5, 5]
             ),
-- 
2.43.0


From 899ee23726d518933e8e09cfcaa7ad152b334389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:58 +0000
Subject: [PATCH 03/27] fix: correct the speed of light in rescale_I_model_3D

2.997924538e8 was a typing error for 2.99792458e8: the new reference frequency
was not the frequency of the FDF cube's lambda^2_0.
---
 RMtools_3D/rescale_I_model_3D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_3D/rescale_I_model_3D.py b/RMtools_3D/rescale_I_model_3D.py
index a2eb9a7..f0324f1 100644
--- a/RMtools_3D/rescale_I_model_3D.py
+++ b/RMtools_3D/rescale_I_model_3D.py
@@ -154,7 +154,7 @@ def command_line():
     if args.lambda2_0 is not None:
         FDF_header = pf.getheader(args.lambda2_0)
         lam0Sq_m2 = FDF_header["LAMSQ0"]
-        freq0 = 2.997924538e8 / np.sqrt(lam0Sq_m2)
+        freq0 = 2.99792458e8 / np.sqrt(lam0Sq_m2)
         new_freq_map = np.ones_like(old_reffreq_map) * freq0
     elif args.new_reffreq is not None:
         new_freq_map = np.ones_like(old_reffreq_map) * args.new_reffreq
-- 
2.43.0


From 5a7f650d9ffef5edd6b6c9232bb8d889efeb185c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:59 +0000
Subject: [PATCH 04/27] fix: square sigma_RM in the Burn depolarisation of
 simulated spectra

Burn (1966) external depolarisation is exp(-2 sigma_RM^2 lambda^4).
---
 RMutils/util_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index bc42c09..94ae060 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -1199,7 +1199,7 @@ def create_pqu_spectra_burn(
     pArr = fracPolArr * np.ones((nComps, nChans), dtype="f8")
     quArr = pArr * (
         np.exp(2j * (np.radians(psi0Arr_deg) + RMArr_radm2 * lamSqArr_m2))
-        * np.exp(-2.0 * sigmaRMArr_radm2 * np.power(lamArr_m, 4.0))
+        * np.exp(-2.0 * sigmaRMArr_radm2**2.0 * np.power(lamArr_m, 4.0))
     )
 
     # Sum along the component axis to create the final spectra
-- 
2.43.0


From 038417d5e93f2bcd46389d1be9933321ce888d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:59 +0000
Subject: [PATCH 05/27] fix: accept lists of angles in create_pqu_spectra_diff

The angles were reshaped without being converted to an array, so every call
with a list (the documented form) raised AttributeError.
---
 RMutils/util_misc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index 94ae060..79608d8 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -1252,6 +1252,7 @@ def create_pqu_spectra_diff(freqArr_Hz, fracPolArr, psi0Arr_deg, RMArr_radm2):
     # Convert lists to arrays
     freqArr_Hz = np.array(freqArr_Hz, dtype="f8")
     fracPolArr = np.array(fracPolArr, dtype="f8")
+    psi0Arr_deg = np.array(psi0Arr_deg, dtype="f8")
     psi0Arr_rad = np.radians(psi0Arr_deg, dtype="f8")
     RMArr_radm2 = np.array(RMArr_radm2, dtype="f8")
 
-- 
2.43.0


From 5e2de7fbd0e88fc7d0d99e318a08035fb6513a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:39 +0000
Subject: [PATCH 06/27] fix: extract_region keeps the last row and column of a
 2D cutout

---
 RMtools_3D/extract_region.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_3D/extract_region.py b/RMtools_3D/extract_region.py
index 2776a72..46b9d66 100644
--- a/RMtools_3D/extract_region.py
+++ b/RMtools_3D/extract_region.py
@@ -166,7 +166,7 @@ def main():
             zlim[0] - 1 : zlim[1], box[2] - 1 : box[3], box[0] - 1 : box[1]
         ]
     elif header["NAXIS"] == 2:
-        data = hdu[0].data[box[2] - 1 : box[3] - 1, box[0] - 1 : box[1] - 1]
+        data = hdu[0].data[box[2] - 1 : box[3], box[0] - 1 : box[1]]
     else:
         raise Exception("Number of dimensions is some nonsupported value!")
 
-- 
2.43.0


From e2bb5252a6d9f1971447b308e6df5f03683e1c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:39 +0000
Subject: [PATCH 07/27] fix: extract_region accepts -1 as the upper bound of
 the box

---
 RMtools_3D/extract_region.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RMtools_3D/extract_region.py b/RMtools_3D/extract_region.py
index 46b9d66..d2e319e 100644
--- a/RMtools_3D/extract_region.py
+++ b/RMtools_3D/extract_region.py
@@ -98,10 +98,10 @@ def main():
             args.box[2] + args.box[3],
         ]
 
-    if box[0] > box[1]:
+    if box[1] != -1 and box[0] > box[1]:
         raise Exception("Box dimensions incorrect! x_max < x_min!")
 
-    if box[2] > box[3]:
+    if box[3] != -1 and box[2] > box[3]:
         raise Exception("Box dimensions incorrect! y_max < y_min!")
 
     hdu = pf.open(args.infile, memmap=True)
-- 
2.43.0


From 6c290eb8a0bf7589f47070d026c0f3f5d593b72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:28 +0000
Subject: [PATCH 08/27] fix: create_chunks and assemble_chunks handle images
 that fit in a single chunk

---
 RMtools_3D/assemble_chunks.py | 2 +-
 RMtools_3D/create_chunks.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/RMtools_3D/assemble_chunks.py b/RMtools_3D/assemble_chunks.py
index be2892b..c419f0b 100644
--- a/RMtools_3D/assemble_chunks.py
+++ b/RMtools_3D/assemble_chunks.py
@@ -137,7 +137,7 @@ def main():
         #       large.flush()
         chunk.close()
 
-    i += 1
+    i = num_chunks - 1
     file = chunkfiles[i]
     idx = base_idx_arr + i * Nperchunk
     idx = idx[idx < Npix_image]
diff --git a/RMtools_3D/create_chunks.py b/RMtools_3D/create_chunks.py
index 8afe8d8..2c3e16e 100644
--- a/RMtools_3D/create_chunks.py
+++ b/RMtools_3D/create_chunks.py
@@ -106,7 +106,7 @@ def main():
         filename = ("{}.C{" + prntcode + "}.fits").format(prefix, i)
         pf.writeto(filename, np.transpose(newdata), new_header, overwrite=True)
 
-    i += 1
+    i = num_chunks - 1
     idx = base_idx_arr + i * Nperchunk
     idx = idx[idx < Npix_image]
     xarr = idx // y_image
-- 
2.43.0


From 700ec1ffc7857cca18d5f81e60c9f51014bb92ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:58 +0000
Subject: [PATCH 09/27] fix: clean_model command line passes file names, not
 one-element lists

---
 RMtools_1D/clean_model.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/RMtools_1D/clean_model.py b/RMtools_1D/clean_model.py
index 14ab545..f18d556 100755
--- a/RMtools_1D/clean_model.py
+++ b/RMtools_1D/clean_model.py
@@ -115,25 +115,21 @@ def main():
     parser.add_argument(
         "freqfile",
         metavar="input.dat",
-        nargs=1,
         help="ASCII file containing original frequency spectra.",
     )
     parser.add_argument(
         "rmSynthfile",
         metavar="_RMsynth.json",
-        nargs=1,
         help="RMsynth1d output JSON file.",
     )
     parser.add_argument(
         "CCfile",
         metavar="_FDFmodel.dat",
-        nargs=1,
         help="Clean component model file (_FDFmodel.dat)",
     )
     parser.add_argument(
         "outfile",
         metavar="QUmodel.dat",
-        nargs=1,
         help="Filename to save output model to.",
     )
     args = parser.parse_args()
-- 
2.43.0


From 65a6e0719b3c299af9f1c34b68615f8746db8ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:42 +0000
Subject: [PATCH 10/27] fix: 1D RM synthesis ignores channels with a flagged U
 or weight like those with a flagged Q

---
 RMtools_1D/do_RMsynth_1D.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/RMtools_1D/do_RMsynth_1D.py b/RMtools_1D/do_RMsynth_1D.py
index d4cd489..2d7d481 100755
--- a/RMtools_1D/do_RMsynth_1D.py
+++ b/RMtools_1D/do_RMsynth_1D.py
@@ -295,6 +295,10 @@ def run_rmsynth(
     else:
         weightType = "uniform"
         weightArr = np.ones(freqArr_Hz.shape, dtype=dtFloat)
+    # Channels without a usable q, u or weight do not contribute (to the FDF, the
+    # RMSF, the theoretical noise or the channel statistics).
+    goodArr = np.isfinite(qArr) & np.isfinite(uArr) & ~np.isnan(weightArr)
+    weightArr = np.where(goodArr, weightArr, 0.0)
     if verbose:
         log("Weight type is '%s'." % weightType)
 
@@ -317,7 +321,7 @@ def run_rmsynth(
         lambdaSqArr_m2=lambdaSqArr_m2,
         phiArr_radm2=phiArr_radm2,
         weightArr=weightArr,
-        mskArr=~np.isfinite(qArr),
+        mskArr=~goodArr,
         lam0Sq_m2=lam0Sq_m2,
         double=True,
         fitRMSF=fitRMSF or super_resolution,
-- 
2.43.0


From 18654e4d1d861dbd0add375e001e0af94ac0bae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:42 +0000
Subject: [PATCH 11/27] fix: create_frac_spectra sets the reference frequency
 of a supplied Stokes I model

---
 RMutils/util_misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index 79608d8..f49559c 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -806,7 +806,8 @@ def create_frac_spectra(
             AIC=0,
             polyOrd=polyOrd,
             nIter=0,
-            reference_frequency_Hz=1,
+            # Same convention as for a fitted model:
+            reference_frequency_Hz=1 / np.sqrt(nanmean(1 / freqArr**2)),
             dof=len(freqArr) - polyOrd - 1,
             pcov=np.zeros((6, 6)),
             perror=np.zeros(6),
-- 
2.43.0


From 3e1dccb4754a2ddafe4b39d2738ec8f7d3e89fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:42 +0000
Subject: [PATCH 12/27] fix: 3D RM synthesis masks the RMSF where Stokes U is
 flagged, not only Q

---
 RMtools_3D/do_RMsynth_3D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_3D/do_RMsynth_3D.py b/RMtools_3D/do_RMsynth_3D.py
index fab7abc..969768e 100755
--- a/RMtools_3D/do_RMsynth_3D.py
+++ b/RMtools_3D/do_RMsynth_3D.py
@@ -213,7 +213,7 @@ def run_rmsynth(
             lambdaSqArr_m2=lambdaSqArr_m2,
             phiArr_radm2=phiArr_radm2,
             weightArr=weightArr,
-            mskArr=~np.isfinite(dataQ),
+            mskArr=~(np.isfinite(qArr) & np.isfinite(uArr)),
             lam0Sq_m2=lam0Sq_m2,
             double=True,
             fitRMSF=fitRMSF or super_resolution,
-- 
2.43.0


From 19572a1175769eaf66b5ded5369368ccf92f606e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:43 +0000
Subject: [PATCH 13/27] fix: 3D RM synthesis interpolates Stokes I to the
 reference frequency

---
 RMtools_3D/do_RMsynth_3D.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/RMtools_3D/do_RMsynth_3D.py b/RMtools_3D/do_RMsynth_3D.py
index 969768e..c374e22 100755
--- a/RMtools_3D/do_RMsynth_3D.py
+++ b/RMtools_3D/do_RMsynth_3D.py
@@ -239,11 +239,17 @@ def run_rmsynth(
         )
 
     if dataI is not None and not not_rmsynth:  # if we created an FDF cube
+        # Linear interpolation between the two channels on either side of freq0_Hz
+        # (frequencies may be in ascending or descending order).
         idx = np.abs(freqArr_Hz - freq0_Hz).argmin()
-        if freqArr_Hz[idx] < freq0_Hz:
-            Ifreq0Arr = interp_images(dataI[idx, :, :], dataI[idx + 1, :, :], f=0.5)
-        elif freqArr_Hz[idx] > freq0_Hz:
-            Ifreq0Arr = interp_images(dataI[idx - 1, :, :], dataI[idx, :, :], f=0.5)
+        ascending = freqArr_Hz[-1] > freqArr_Hz[0]
+        idx2 = idx + 1 if (freqArr_Hz[idx] < freq0_Hz) == ascending else idx - 1
+        if freqArr_Hz[idx] != freq0_Hz and 0 <= idx2 < freqArr_Hz.size:
+            Ifreq0Arr = interp_images(
+                dataI[idx, :, :],
+                dataI[idx2, :, :],
+                f=(freq0_Hz - freqArr_Hz[idx]) / (freqArr_Hz[idx2] - freqArr_Hz[idx]),
+            )
         else:
             Ifreq0Arr = dataI[idx, :, :]
 
-- 
2.43.0


From 5a5c2e1fac820a6a2ede2912f3d14e01f7dbd4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:43 +0000
Subject: [PATCH 14/27] fix: 3D RM synthesis accepts Stokes I cubes with
 degenerate spatial axes

---
 RMtools_3D/do_RMsynth_3D.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/RMtools_3D/do_RMsynth_3D.py b/RMtools_3D/do_RMsynth_3D.py
index c374e22..13fdf9e 100755
--- a/RMtools_3D/do_RMsynth_3D.py
+++ b/RMtools_3D/do_RMsynth_3D.py
@@ -253,8 +253,9 @@ def run_rmsynth(
         else:
             Ifreq0Arr = dataI[idx, :, :]
 
-        # Multiply the dirty FDF by Ifreq0 to recover the PI
-        FDFcube *= Ifreq0Arr
+        # Multiply the dirty FDF by Ifreq0 to recover the PI (degenerate axes have
+        # been removed from the FDF cube)
+        FDFcube *= np.squeeze(Ifreq0Arr)
 
     if not_rmsf:  # only RMsynth
         dataArr = [FDFcube, phiArr_radm2, lam0Sq_m2, lambdaSqArr_m2]
-- 
2.43.0


From fccf2a179a7357940473589aecb45045336a15e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:36 +0000
Subject: [PATCH 15/27] fix: bwdepol accepts a column of channel widths

---
 RMtools_1D/rmtools_bwdepol.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index ccb5d11..57277a2 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -307,7 +307,7 @@ def bwdepol_simulation(peak_rm, freqArr_Hz, widths_Hz):
          [freq_Hz, q, u,  dq, du]
 
     """
-    if widths_Hz == None:
+    if widths_Hz is None:
         widths_Hz = estimate_channel_bandwidth(freqArr_Hz)
 
     p_tilda = analytical_chan_pol(freqArr_Hz, widths_Hz, peak_rm)
@@ -935,7 +935,7 @@ def do_adjoint_rmsynth_planes(
         progress(40, 0)
 
     # calculate channel widths if necessary
-    if widths_Hz == None:
+    if widths_Hz is None:
         widths_Hz = estimate_channel_bandwidth(freqArr_Hz)
     for i in range(nPhi):
         if verbose:
@@ -1041,7 +1041,8 @@ def run_adjoint_rmsynth(
                 "> Six columns found, trying [freq_Hz, widths_Hz, Q, U, dQ, dU]",
                 end=" ",
             )
-        freqArr_Hz, width_Hz, QArr, UArr, dQArr, dUArr = data
+        freqArr_Hz, widths_Hz, QArr, UArr, dQArr, dUArr = data
+        noStokesI = True
     elif data.shape[0] == 5:
         if verbose:
             log("> Five columns found, trying [freq_Hz, Q, U, dQ, dU]", end=" ")
@@ -1260,7 +1261,7 @@ def run_adjoint_rmsynth(
     mDict["min_freq"] = float(np.min(freqArr_Hz[good_channels]))
     mDict["max_freq"] = float(np.max(freqArr_Hz[good_channels]))
     mDict["N_channels"] = good_channels.size
-    if widths_Hz != None:
+    if widths_Hz is not None:
         mDict["median_channel_width"] = float(np.median(widths_Hz))
     else:
         mDict["median_channel_width"] = float(np.median(np.diff(freqArr_Hz)))
-- 
2.43.0


From 64d0df3de47da8a549a7934e3dddf530d6c13a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:36 +0000
Subject: [PATCH 16/27] fix: bwdepol evaluates the Stokes I model it fitted

---
 RMtools_1D/rmtools_bwdepol.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index 57277a2..c7ddda6 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -47,9 +47,9 @@ from matplotlib.ticker import MaxNLocator
 from RMtools_1D.do_RMsynth_1D import saveOutput
 from RMutils.util_misc import (
     MAD,
+    calculate_StokesI_model,
     create_frac_spectra,
     nanmedian,
-    poly5,
     progress,
     toscalar,
 )
@@ -1087,7 +1087,7 @@ def run_adjoint_rmsynth(
         if verbose:
             log("Plotting the input data and spectral index fit.")
         freqHirArr_Hz = np.linspace(freqArr_Hz[0], freqArr_Hz[-1], 10000)
-        IModHirArr = poly5(fit_result.params)(freqHirArr_Hz / 1e9)
+        IModHirArr = calculate_StokesI_model(fit_result, freqHirArr_Hz / 1e9)
         specFig = plt.figure(figsize=(12.0, 8))
         plot_Ipqu_spectra_fig(
             freqArr_Hz=freqArr_Hz,
@@ -1216,7 +1216,7 @@ def run_adjoint_rmsynth(
     # Determine the Stokes I value at lam0Sq_m2 from the Stokes I model
     # Multiply the dirty FDF by Ifreq0 to recover the PI
     freq0_Hz = speed_of_light.value / m.sqrt(lam0Sq_m2)
-    Ifreq0 = poly5(fit_result.params)(freq0_Hz / 1e9)
+    Ifreq0 = calculate_StokesI_model(fit_result, freq0_Hz / 1e9)
     dirtyFDF *= Ifreq0  # FDF is in fracpol units initially, convert back to flux
 
     # Calculate the theoretical noise in the FDF !!
-- 
2.43.0


From 7f4da8e6004e9d4ac4f3d7fc96b700fafd1c6a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:36 +0000
Subject: [PATCH 17/27] fix: bwdepol computes the RMSF on the depth axis it
 returns with it

---
 RMtools_1D/rmtools_bwdepol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index c7ddda6..283f591 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -629,7 +629,7 @@ def bwdepol_get_rmsf_planes(
         freqArr_Hz,
         RMSF_data[1],
         RMSF_data[2],
-        phiArr_radm2,
+        phi2Arr,
         widths_Hz=widths_Hz,
         weightArr=weightArr,
         lam0Sq_m2=lam0Sq_m2,
@@ -1350,7 +1350,7 @@ def run_adjoint_rmsynth(
         bwdepol_plot_rmsf_fdf_fig(
             phiArr=phiArr_radm2,
             FDF=(dirtyFDF / adjoint_sens),
-            phi2Arr=phiArr_radm2,
+            phi2Arr=phi2Arr_radm2,
             RMSFArr=RMSFArr,
             peak_rm=peak_rm,
             fwhmRMSF=fwhmRMSF,
-- 
2.43.0


From fd3852630ab44577405ebd6902ae2acfb3d97b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:36 +0000
Subject: [PATCH 18/27] fix: bwdepol verbose output failed for lack of the
 theoretical FDF noise

---
 RMtools_1D/rmtools_bwdepol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index 283f591..e58bac5 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -1248,7 +1248,7 @@ def run_adjoint_rmsynth(
     mDict["freq0_Hz"] = toscalar(freq0_Hz)
     mDict["fwhmRMSF"] = toscalar(fwhmRMSF)
     mDict["dQU"] = toscalar(nanmedian(dQUArr))
-    # mDict["dFDFth"] = toscalar(dFDFth)
+    mDict["dFDFth"] = toscalar(dFDFth)
     mDict["units"] = units
 
     if fit_result.fitStatus >= 128:
-- 
2.43.0


From 8d2e4894ee3182c6f1d2130b9beca0bb8c92ae9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:58 +0000
Subject: [PATCH 19/27] fix: bwdepol ignores channels with a flagged q, u or
 error

---
 RMtools_1D/rmtools_bwdepol.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index e58bac5..b984b89 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -1163,6 +1163,9 @@ def run_adjoint_rmsynth(
     else:
         weightType = "uniform"
         weightArr = np.ones(freqArr_Hz.shape, dtype=dtFloat)
+    # Channels without a usable q, u or weight do not contribute
+    goodArr = np.isfinite(qArr) & np.isfinite(uArr) & ~np.isnan(weightArr)
+    weightArr = np.where(goodArr, weightArr, 0.0)
     if verbose:
         log("Weight type is '%s'." % weightType)
 
@@ -1182,7 +1185,9 @@ def run_adjoint_rmsynth(
     )
 
     # generate adjoint_noise and adjoint__sens
-    adjoint_info = adjoint_theory(adjoint_vars, dQUArr, show_progress=False)
+    adjoint_info = adjoint_theory(
+        adjoint_vars, np.nan_to_num(dQUArr), show_progress=False
+    )
     phiArr_radm2, adjoint_sens, adjoint_noise = adjoint_info
 
     # calculate peak RM
@@ -1197,7 +1202,7 @@ def run_adjoint_rmsynth(
         widths_Hz=widths_Hz,
         phiArr_radm2=phiArr_radm2,
         weightArr=weightArr,
-        mskArr=~np.isfinite(qArr),
+        mskArr=~goodArr,
         lam0Sq_m2=lam0Sq_m2,
         double=True,
         fitRMSF=fitRMSF,
-- 
2.43.0


From 91f0d13377753eda48597142e714be6c5cdec96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:38 +0000
Subject: [PATCH 20/27] fix: peak measurement rejects vertices outside the
 sampled Faraday depths on any axis

---
 RMutils/util_RM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index 65b9e5c..8496477 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -1052,7 +1052,7 @@ def measure_FDF_parms(
         # In rare cases, a parabola can be fitted to the edge of the spectrum,
         # producing a unreasonably large RM and polarized intensity.
         # In these cases, everything should get NaN'd out.
-        if np.abs(phiPeakPIfit) > np.max(np.abs(phiArr)):
+        if phiPeakPIfit > np.max(phiArr) or phiPeakPIfit < np.min(phiArr):
             phiPeakPIfit = np.nan
             ampPeakPIfit = np.nan
 
-- 
2.43.0


From 417bad9f2a872770f2d376d9ec30657409d84817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:00 +0000
Subject: [PATCH 21/27] fix: degrees of freedom of a Stokes I fit count the
 fitted channels only

---
 RMutils/util_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index f49559c..c80f46a 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -516,7 +516,7 @@ def fit_StokesI_model(freqArr, IArr, dIArr, polyOrd, fit_function="log") -> FitR
         )
         aic = 2 * (polyOrd + 1) + mp.fnorm
 
-    dof = len(freqArr) - polyOrd - 1
+    dof = int(np.sum(goodchan)) - polyOrd - 1
     return FitResult(
         params=mp.params,
         fitStatus=int(np.abs(mp.status)),
-- 
2.43.0


From 7f83dd35baf783076e31c33169a9e4064bc0c567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:00 +0000
Subject: [PATCH 22/27] fix: Stokes I order selection never keeps a fit the
 fitter rejected

---
 RMutils/util_misc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index c80f46a..fee3e26 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -496,6 +496,8 @@ def fit_StokesI_model(freqArr, IArr, dIArr, polyOrd, fit_function="log") -> FitR
                 fit_function,
             )
             new_aic = 2 * (current_order + 1) + new_mp.fnorm
+            if new_mp.status == 0:  # fit rejected: more parameters than channels
+                break
             if new_aic < old_aic:  # if there's an improvement, keep going
                 old_aic = new_aic
                 mp = new_mp
-- 
2.43.0


From c5c25606117c557ed31e93869b6fb7e02c815daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:00 +0000
Subject: [PATCH 23/27] fix: fall back to a unity Stokes I model if the fitter
 rejects the spectrum

---
 RMutils/util_misc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index fee3e26..50fff8a 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -761,6 +761,8 @@ def create_frac_spectra(
                 polyOrd,
                 fit_function,
             )
+            if fit_result.fitStatus == 0:
+                raise ValueError("Too few good channels to fit.")
             IModArr = calculate_StokesI_model(fit_result, freqArr)
 
             if np.min(IModArr) < 0:  # Flag sources with negative models.
-- 
2.43.0


From 86bdca5ae50710696950542040c12a5690d83846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:35 +0000
Subject: [PATCH 24/27] fix: QU-fit likelihood ignores the same flagged
 channels as its chi-squared

---
 RMtools_1D/do_QUfit_1D_mnest.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/RMtools_1D/do_QUfit_1D_mnest.py b/RMtools_1D/do_QUfit_1D_mnest.py
index ea39a21..986af6b 100644
--- a/RMtools_1D/do_QUfit_1D_mnest.py
+++ b/RMtools_1D/do_QUfit_1D_mnest.py
@@ -620,14 +620,16 @@ class lnlike_call(bilby.Likelihood):
         model = load_model(self.modelNum).model
         quMod = model(self.parameters, self.lamSqArr_m2)
         dquArr = np.sqrt(np.power(self.dqArr, 2) + np.power(self.duArr, 2))
-        chiSqQ = np.nansum(np.power((self.qArr - quMod.real) / self.dqArr, 2))
-        chiSqU = np.nansum(np.power((self.uArr - quMod.imag) / self.duArr, 2))
+        # Channels flagged in either q or u are ignored, as in chisq_model
+        chiSq = np.nansum(
+            np.power((self.qArr - quMod.real) / self.dqArr, 2)
+            + np.power((self.uArr - quMod.imag) / self.duArr, 2)
+        )
         nData = len(dquArr)
         logLike = (
             -nData * np.log(2.0 * np.pi)
             - 2.0 * np.nansum(np.log(dquArr))
-            - chiSqQ / 2.0
-            - chiSqU / 2.0
+            - chiSq / 2.0
         )
 
         return logLike
-- 
2.43.0


From 1c140f7991a06d05b59fe0c19bdd30cf0418d83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:35 +0000
Subject: [PATCH 25/27] fix: QU-fit statistics count the unflagged data points
 only

---
 RMtools_1D/do_QUfit_1D_mnest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_1D/do_QUfit_1D_mnest.py b/RMtools_1D/do_QUfit_1D_mnest.py
index 986af6b..9b88f2c 100644
--- a/RMtools_1D/do_QUfit_1D_mnest.py
+++ b/RMtools_1D/do_QUfit_1D_mnest.py
@@ -451,7 +451,7 @@ def run_qufit(
         )
 
     # Calculate goodness-of-fit parameters
-    nData = 2.0 * len(lamSqArr_m2)
+    nData = 2.0 * np.sum(np.isfinite(qArr + uArr + dqArr + duArr))
     dof = nData - nFree - 1
     chiSq = chisq_model(parNames, p, lamSqArr_m2, qArr, dqArr, uArr, duArr, model)
     chiSqRed = chiSq / dof
-- 
2.43.0


From f4598ee2e21dc620eea2085e4101d3c579dfef3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:35 +0000
Subject: [PATCH 26/27] fix: QU-fit AICc lacked the 2 nFree term of the AIC

---
 RMtools_1D/do_QUfit_1D_mnest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_1D/do_QUfit_1D_mnest.py b/RMtools_1D/do_QUfit_1D_mnest.py
index 9b88f2c..9b67d93 100644
--- a/RMtools_1D/do_QUfit_1D_mnest.py
+++ b/RMtools_1D/do_QUfit_1D_mnest.py
@@ -456,7 +456,7 @@ def run_qufit(
     chiSq = chisq_model(parNames, p, lamSqArr_m2, qArr, dqArr, uArr, duArr, model)
     chiSqRed = chiSq / dof
     AIC = 2.0 * nFree - 2.0 * lnLike
-    AICc = 2.0 * nFree * (nFree + 1) / (nData - nFree - 1) - 2.0 * lnLike
+    AICc = AIC + 2.0 * nFree * (nFree + 1) / (nData - nFree - 1)
     BIC = nFree * np.log(nData) - 2.0 * lnLike
 
     # Summary of run
-- 
2.43.0


From c2a9bed2a206a4f00605f9d0337e73a36b7cd1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:41 +0000
Subject: [PATCH 27/27] fix: additional-scatter likelihood ignores flagged data

---
 RMutils/util_RM.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index 8496477..02b7c14 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -1159,6 +1159,9 @@ def calc_sigma_add(xArr, yArr, dyArr, yMed=None, noise=None, nSamp=1000, suffix=
     if noise is None:
         noise = MAD(yArr)
 
+    # Flagged data carry no information on the scatter
+    dyArr = np.where(np.isnan(yArr), np.nan, dyArr)
+
     # Sample the PDF of the additional noise term from a limit near zero to
     # a limit of the range of the data, including error bars
     yRng = np.nanmax(yArr + dyArr) - np.nanmin(yArr - dyArr)
@@ -1167,7 +1170,7 @@ def calc_sigma_add(xArr, yArr, dyArr, yMed=None, noise=None, nSamp=1000, suffix=
     # Model deviation from Gaussian as an additional noise term.
     # Loop through the range of i additional noise samples and calculate
     # chi-squared and sum(ln(sigma_total)), used later to calculate likelihood.
-    nData = len(xArr)
+    nData = np.count_nonzero(np.isfinite(yArr + dyArr))
     chiSqArr = np.zeros_like(sigmaAddArr)
     lnSigmaSumArr = np.zeros_like(sigmaAddArr)
     for i, sigmaAdd in enumerate(sigmaAddArr):
-- 
2.43.0

