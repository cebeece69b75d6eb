From 9e5b0e7b1af6914a70624aad7a5349e18a73151e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:51 +0000
Subject: [PATCH 01/61] fix: replace numpy aliases removed from numpy (np.int,
 np.float, np.NaN)

They raised AttributeError in 2D fit preparation, adaptive wavelength
upsampling, slit-illumination checks, MCMC sampling and plotting.
---
 misfit/fit/fit_core.py         |  6 ++---
 misfit/fit/fit_io.py           |  2 +-
 misfit/general/galaxy_utils.py | 46 +++++++++++++++++-----------------
 misfit/model/aper_model.py     |  2 +-
 misfit/model/kin_functions.py  |  2 +-
 misfit/plot/plot_bestfit.py    |  2 +-
 misfit/plot/plot_image_slit.py |  8 +++---
 misfit/plot/plot_trace.py      |  4 +--
 8 files changed, 36 insertions(+), 36 deletions(-)

diff --git a/misfit/fit/fit_core.py b/misfit/fit/fit_core.py
index 1d3016f..fbc399f 100644
--- a/misfit/fit/fit_core.py
+++ b/misfit/fit/fit_core.py
@@ -195,7 +195,7 @@ def run_mcmc(fitEmis2D, fitEmis2D_fit=None):
         and then delete attributes
     """
     print("fitting with emcee version: {}".format(emcee.__version__))
-    if np.int(emcee.__version__[0]) >= 3:
+    if int(emcee.__version__[0]) >= 3:
         fitEmis2D = _run_mcmc_emcee_3(fitEmis2D, fitEmis2D_fit=fitEmis2D_fit)
     else:
         fitEmis2D = _run_mcmc_emcee_221(fitEmis2D, fitEmis2D_fit=fitEmis2D_fit)
@@ -216,7 +216,7 @@ def _run_mcmc_emcee_221(fitEmis2D, fitEmis2D_fit=None):
     # --------------------------------
     # Setup for threading for emcee, if desired
     if fitEmis2D.mcmcOptions.nCPUs is None:
-        fitEmis2D.mcmcOptions.nCPUs = np.int(np.floor(psutil.cpu_count()*fitEmis2D.mcmcOptions.cpuFrac))
+        fitEmis2D.mcmcOptions.nCPUs = int(np.floor(psutil.cpu_count()*fitEmis2D.mcmcOptions.cpuFrac))
     if fitEmis2D.mcmcOptions.NoThread:
         fitEmis2D.mcmcOptions.nCPUs = 1
 
@@ -515,7 +515,7 @@ def _run_mcmc_emcee_3(fitEmis2D, fitEmis2D_fit=None):
     # --------------------------------
     # Setup for threading for emcee, if desired
     if fitEmis2D.mcmcOptions.nCPUs is None:
-        fitEmis2D.mcmcOptions.nCPUs = np.int(np.floor(psutil.cpu_count()*fitEmis2D.mcmcOptions.cpuFrac))
+        fitEmis2D.mcmcOptions.nCPUs = int(np.floor(psutil.cpu_count()*fitEmis2D.mcmcOptions.cpuFrac))
     if fitEmis2D.mcmcOptions.NoThread:
         fitEmis2D.mcmcOptions.nCPUs = 1
 
diff --git a/misfit/fit/fit_io.py b/misfit/fit/fit_io.py
index c73ba99..f95a45e 100644
--- a/misfit/fit/fit_io.py
+++ b/misfit/fit/fit_io.py
@@ -50,7 +50,7 @@ def make_emcee_sampler_dict(sampler,fitEmis2D=None, nBurn=0):
         try:
             acor_time = sampler.get_autocorr_time(self, low=5, c=10)
         except:
-            acor_time = np.NaN
+            acor_time = np.nan
 
     try:
         nDim = sampler.ndim
diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index 0c95bcd..1669209 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -891,7 +891,7 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                             args=(xx, sp_arr, err_arr))
 
 
-        m0 = np.int(np.round(result.params['mu'].value))
+        m0 = int(np.round(result.params['mu'].value))
         if (m0 > (len(snr_arr) -1)):
             m0_closest = len(snr_arr) -1
         elif (m0 < 0):
@@ -902,8 +902,8 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
         m0_shift_fit = result.params['mu'].value - m0
         m0_peak_snr = snr_arr[m0_closest]
         if dither:
-            m1 = np.int(np.round(result.params['mu_l'].value))
-            m2 = np.int(np.round(result.params['mu_r'].value))
+            m1 = int(np.round(result.params['mu_l'].value))
+            m2 = int(np.round(result.params['mu_r'].value))
 
         if debug:
             print(ypos)
@@ -931,9 +931,9 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
             sp_ind_neg2 = m2
 
             diff = (abs(sp_ind0-sp_ind_neg1) + abs(sp_ind0-sp_ind_neg2))/2.
-            cut = np.int(np.ceil(diff/2.))
+            cut = int(np.ceil(diff/2.))
         else:
-            cut = np.int(np.ceil(1.5/spatial_pixscale/2.))
+            cut = int(np.ceil(1.5/spatial_pixscale/2.))
 
         m_min = m0 - cut
         m_max = m0 + cut
@@ -950,7 +950,7 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                 print("m0, ypos=", m0, ypos)
 
                 # Just default to the old position!
-                m0 = np.int(np.round(ypos))
+                m0 = int(np.round(ypos))
 
                 params = lmfit.Parameters()
 
@@ -974,7 +974,7 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                     result = lmfit.minimize(utils.gaus_residual, params,
                                 args=(xx, sp_arr, err_arr))
 
-                m0 = np.int(np.round(result.params['mu'].value))
+                m0 = int(np.round(result.params['mu'].value))
                 if (m0 > (len(snr_arr) -1)):
                     m0_closest = len(snr_arr) -1
                 elif (m0 < 0):
@@ -984,8 +984,8 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                 m0_shift_fit = result.params['mu'].value - m0
                 m0_peak_snr = snr_arr[m0_closest]
                 if dither:
-                    m1 = np.int(np.round(result.params['mu_l'].value))
-                    m2 = np.int(np.round(result.params['mu_r'].value))
+                    m1 = int(np.round(result.params['mu_l'].value))
+                    m2 = int(np.round(result.params['mu_r'].value))
 
                 if debug:
                     print(ypos)
@@ -1010,9 +1010,9 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                     sp_ind_neg2 = m2
 
                     diff = (abs(sp_ind0-sp_ind_neg1) + abs(sp_ind0-sp_ind_neg2))/2.
-                    cut = np.int(np.ceil(diff/2.))
+                    cut = int(np.ceil(diff/2.))
                 else:
-                    cut = np.int(np.ceil(1.5/spatial_pixscale/2.))
+                    cut = int(np.ceil(1.5/spatial_pixscale/2.))
 
 
                 m_min = m0 - cut
@@ -1071,7 +1071,7 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                     result = lmfit.minimize(utils.gaus_residual, params,
                                     args=(xx, sp_arr, err_arr))
 
-                m0 = np.int(np.round(result.params['mu'].value)) + trimval
+                m0 = int(np.round(result.params['mu'].value)) + trimval
                 if (m0 > (len(snr_arr) -1)):
                     m0_closest = len(snr_arr) -1
                 elif (m0 < 0):
@@ -1081,8 +1081,8 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                 m0_shift_fit = result.params['mu'].value + trimval - m0
                 m0_peak_snr = snr_arr[m0_closest-trimval]
                 if dither:
-                    m1 = np.int(np.round(result.params['mu_l'].value)) + trimval
-                    m2 = np.int(np.round(result.params['mu_r'].value)) + trimval
+                    m1 = int(np.round(result.params['mu_l'].value)) + trimval
+                    m2 = int(np.round(result.params['mu_r'].value)) + trimval
 
                 if debug:
                     print(ypos)
@@ -1105,9 +1105,9 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                     sp_ind_neg2 = m2
 
                     diff = (abs(sp_ind0-sp_ind_neg1) + abs(sp_ind0-sp_ind_neg2))/2.
-                    cut = np.int(np.ceil(diff/2.))
+                    cut = int(np.ceil(diff/2.))
                 else:
-                    cut = np.int(np.ceil(1.5/spatial_pixscale/2.))
+                    cut = int(np.ceil(1.5/spatial_pixscale/2.))
 
                 m_min = m0 - cut
                 m_max = m0 + cut
@@ -1147,12 +1147,12 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                 result = lmfit.minimize(utils.gaus_residual, params,
                             args=(xx, sp_arr, err_arr))
 
-            m0 = np.int(np.round(result.params['mu'].value)) + trimval
+            m0 = int(np.round(result.params['mu'].value)) + trimval
             m0_shift_fit = result.params['mu'].value + trimval - m0
             m0_peak_snr = snr_arr[m0-trimval]
             if dither:
-                m1 = np.int(np.round(result.params['mu_l'].value)) + trimval
-                m2 = np.int(np.round(result.params['mu_r'].value)) + trimval
+                m1 = int(np.round(result.params['mu_l'].value)) + trimval
+                m2 = int(np.round(result.params['mu_r'].value)) + trimval
 
             if debug:
                 print(ypos            )
@@ -1175,9 +1175,9 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                 sp_ind_neg2 = m2
 
                 diff = (abs(sp_ind0-sp_ind_neg1) + abs(sp_ind0-sp_ind_neg2))/2.
-                cut = np.int(np.ceil(diff/2.))
+                cut = int(np.ceil(diff/2.))
             else:
-                cut = np.int(np.ceil(1.5/spatial_pixscale/2.))
+                cut = int(np.ceil(1.5/spatial_pixscale/2.))
 
             m_min = m0 - cut
             m_max = m0 + cut
@@ -1195,7 +1195,7 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
         result = lmfit.minimize(utils.gaus_residual, params,
                         args=(xx, sp_arr, err_arr))
 
-        m0 = np.int(np.round(result.params['mu'].value))
+        m0 = int(np.round(result.params['mu'].value))
         m0_shift_fit = result.params['mu'].value - m0
         m0_peak_snr = snr_arr[m0]
 
@@ -1225,7 +1225,7 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
         if ypos is not None:
             if ((np.abs(ypos-m0) > 2.) & (not skip_check)):
                 # Just default to the old position!
-                m0 = np.int(np.round(ypos))
+                m0 = int(np.round(ypos))
                 m0_shift_fit = ypos - m0
                 m0_peak_snr = snr_arr[m0]
 
diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index e36093b..09574f2 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -750,7 +750,7 @@ class AperModel2D(object):
     def check_do_upsample_wave(self):
         if (np.abs(self.kinProfile.dispProfile.theta) < self.sigma_upsample_value) :
             # Create new array that has finer sampling:
-            self.delt_wave = self.delt_wave_real / np.float(self.adaptive_upsample_factor)
+            self.delt_wave = self.delt_wave_real / float(self.adaptive_upsample_factor)
 
             nwmin = self.wave_arr.min() - 0.5*(self.delt_wave_real - self.delt_wave)
             nwmax = self.wave_arr.max() + 0.5*(self.delt_wave_real - self.delt_wave)
diff --git a/misfit/model/kin_functions.py b/misfit/model/kin_functions.py
index 5dbb9d1..9c2cd50 100644
--- a/misfit/model/kin_functions.py
+++ b/misfit/model/kin_functions.py
@@ -290,7 +290,7 @@ def check_slit_illum(xarr, wh_in_slit_x, A_tmp, mu_y, FWHM_arcsec, tot_slit_widt
     if modified_bounds:
         # Determine the new mu:
         model = A_tmp*gaus_from_fwhm(xarr, FWHM_arcsec, mu_y)
-        model_mask = np.zeros(len(xarr))*np.NaN
+        model_mask = np.zeros(len(xarr))*np.nan
         model_mask[wh_in_slit_x] = 1.
         model_orig = model.copy()
         model *= model_mask
diff --git a/misfit/plot/plot_bestfit.py b/misfit/plot/plot_bestfit.py
index c264bfd..e5ded5f 100644
--- a/misfit/plot/plot_bestfit.py
+++ b/misfit/plot/plot_bestfit.py
@@ -56,7 +56,7 @@ def plot_bestfit_model(fitEmis2D, fileout=None, noTitles=False,
     
     """
     sh_spec_trim = np.shape(fitEmis2D.galaxy.spec2D.flux)
-    sp_rat = sh_spec_trim[1]/np.float(sh_spec_trim[0])  # width/height
+    sp_rat = sh_spec_trim[1]/float(sh_spec_trim[0])  # width/height
 
 
     fig = plt.figure()
diff --git a/misfit/plot/plot_image_slit.py b/misfit/plot/plot_image_slit.py
index d1c7803..0fd1f63 100644
--- a/misfit/plot/plot_image_slit.py
+++ b/misfit/plot/plot_image_slit.py
@@ -163,7 +163,7 @@ def plot_image_slit(galaxy=None, instrument=None,
         yarc_orig = yarr_orig*instrument_img.pixscale
 
         # Output pix/arc array:
-        n_round = np.int(np.floor(np.shape(pstamp_trim)[0]*instrument_img.pixscale/instrument.pixscale))
+        n_round = int(np.floor(np.shape(pstamp_trim)[0]*instrument_img.pixscale/instrument.pixscale))
 
         ### New:
         yarr_new = np.linspace(0, n_round, num=n_round, endpoint=False)
@@ -250,8 +250,8 @@ def plot_image_slit(galaxy=None, instrument=None,
 
     #######################################
     # Scale based on noise levels:
-    xlim_round = np.array([np.int(np.round(xlim[0])), np.int(np.round(xlim[1]))])
-    ylim_round = np.array([np.int(np.round(ylim[0])), np.int(np.round(ylim[1]))])
+    xlim_round = np.array([int(np.round(xlim[0])), int(np.round(xlim[1]))])
+    ylim_round = np.array([int(np.round(ylim[0])), int(np.round(ylim[1]))])
 
     tmp_trim = pstamp_trim[ylim_round[0]:ylim_round[1],xlim_round[0]:xlim_round[1]].copy()
     tmp_trim = tmp_trim.flatten()
@@ -259,7 +259,7 @@ def plot_image_slit(galaxy=None, instrument=None,
     range_spec = np.abs(range_spec)
     range_spec.sort()
     # Only consider the lowest 50\% *abs* points:
-    range_spec = range_spec[0:np.int(np.ceil(len(range_spec)/2.))]
+    range_spec = range_spec[0:int(np.ceil(len(range_spec)/2.))]
     median_err = np.median(range_spec)
 
     ext = 3.
diff --git a/misfit/plot/plot_trace.py b/misfit/plot/plot_trace.py
index 1fe2433..6838f2c 100644
--- a/misfit/plot/plot_trace.py
+++ b/misfit/plot/plot_trace.py
@@ -45,7 +45,7 @@ def plot_trace(sampler_dict, fitEmis2D, fileout=None, usetex=True):
 
     nWalkers = sampler_dict['nWalkers']
 
-    alpha = max(0.01, 1./np.float(nWalkers))
+    alpha = max(0.01, 1./float(nWalkers))
 
 
     # Define random color inds for tracking some walkers:
@@ -56,7 +56,7 @@ def plot_trace(sampler_dict, fitEmis2D, fileout=None, usetex=True):
     trace_inds = np.random.randint(0,nWalkers, size=nTraceWalkers)
     trace_colors = []
     for i in range(nTraceWalkers):
-        trace_colors.append(cmap(1./np.float(nTraceWalkers)*i))
+        trace_colors.append(cmap(1./float(nTraceWalkers)*i))
 
     norm_inds = np.setdiff1d(range(nWalkers), trace_inds)
 
-- 
2.43.0


From fcb48a94fa62fd8440b4f27efefaf796e16ee354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:12 +0000
Subject: [PATCH 02/61] fix: space the 2D model subpixels along the slit by
 pixscale/nSubpixels

The end points of y_arr did not match the number of padded subpixels, so
the spatial axis of the model was compressed: the sampling was finer than
delt_y, depending on the padding and the number of subpixels.
---
 misfit/model/aper_model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index 09574f2..f9bc84c 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -706,8 +706,11 @@ class AperModel2D(object):
         self.z_arr = np.linspace(-(self.n_pix_z/2.-0.5)*self.delt_z,
                             (self.n_pix_z/2.-0.5)*self.delt_z, num=self.nZ)
 
-        self.y_arr = np.linspace(-(self.padY-0.5)*self.delt_y,
-                ((self.n_pix_y_whole-1)*self.nSubpixels + self.padY-0.5)*self.delt_y,
+        # Subpixel centers: whole pixel k is centered on k*pixscale
+        #   (before shifting m0_fit to 0), and is split into nSubpixels subpixels.
+        self.y_arr = np.linspace(-(self.padY+0.5*(self.nSubpixels-1))*self.delt_y,
+                ((self.n_pix_y_whole-1)*self.nSubpixels + \
+                        self.padY+0.5*(self.nSubpixels-1))*self.delt_y,
                 num=self.nY)
 
         self.z = self.theta[-1]
-- 
2.43.0


From e4d7990897f27220e5d6d8ea51bc32234e034ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:12 +0000
Subject: [PATCH 03/61] fix: center the PSF stamp of the 2D and rotation
 aperture models

The stamp was evaluated on coordinates relative to the galaxy, so for a
galaxy off the center of the slit the PSF itself was off-center, and the
offset was applied twice.
---
 misfit/model/aper_model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index f9bc84c..c2f0d76 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -271,7 +271,8 @@ class AperModel1DRot(AperModel1DBase):
         # y_arr_flat = np.tile(np.array([y_arr_trim]).T, (1,len(x_arr_trim)))
 
 
-        conv_stamp = self.instrument.PSF.generate_conv_stamp(x_arr_trim, y_arr_trim)
+        # The stamp must be centered: remove the offset of the grid from the galaxy.
+        conv_stamp = self.instrument.PSF.generate_conv_stamp(x_arr_trim-xc, y_arr_trim-yc)
         self.instrument.PSF.set_conv_stamp(conv_stamp)
 
 
@@ -612,7 +613,8 @@ class AperModel2D(object):
         #    # z can either be true z, or WAVELENGTH
 
 
-        conv_stamp = self.instrument.PSF.generate_conv_stamp(x_arr_trim, y_arr_trim)
+        # The stamp must be centered: remove the offset of the grid from the galaxy.
+        conv_stamp = self.instrument.PSF.generate_conv_stamp(x_arr_trim-xc, y_arr_trim-yc)
         # Test new:
         kern3D = np.zeros(shape=(1, conv_stamp.shape[0], conv_stamp.shape[1],))
         kern3D[0, :, :] = conv_stamp
-- 
2.43.0


From bc62c3e01339d48cecea7e8c2e9bf426d92ffc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:21 +0000
Subject: [PATCH 04/61] fix: use an odd-sized, centered PSF stamp also for
 grids of even size

With an even number of samples the 'same' convolution shifts the result by
half a subpixel, so the modelled emission was off its position along and
across the slit.
---
 misfit/model/aper_model.py | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index c2f0d76..07fd1f0 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -17,6 +17,22 @@ from misfit.general import general_utils as utils
 import astropy.constants as const
 c_kms = const.c.cgs.value/1.e5
 
+def _psf_stamp_coords(arr, halfwidth):
+    """
+    Coordinates for a PSF stamp: the offsets of the regularly sampled arr that lie within
+    +-halfwidth of its center.
+
+    The number of coordinates is always odd, with the middle one at 0: for an even number,
+    a 'same' convolution would shift the convolved array by half a sample.
+    """
+    mid = len(arr)//2
+    offsets = arr - arr[mid]
+    if len(arr) % 2 == 0:
+        offsets = offsets[1:]
+    # Keep pairs of +-offsets equal to halfwidth within rounding together
+    return offsets[np.abs(offsets) <= halfwidth*(1.+1.e-9)]
+
+
 class AperModel1DBase(object):
     def __init__(self, **kwargs):
         self.galaxy=None
@@ -262,17 +278,15 @@ class AperModel1DRot(AperModel1DBase):
         # Convolve arrays with PSF:
         # Trim x_arr, y_arr so you're only making a convolution kernal for +- FWHM on the
         # x_arr, y_arr are in *ARCSECONDS*
-        xc = np.average(self.x_arr)
-        yc = np.average(self.y_arr)
-        x_arr_trim = self.x_arr[np.abs(self.x_arr-xc) <= self.instrument.PSF.PSF_FWHM]
-        y_arr_trim = self.y_arr[np.abs(self.y_arr-yc) <= self.instrument.PSF.PSF_FWHM]
+        # The stamp must be centered: remove the offset of the grid from the galaxy.
+        x_arr_trim = _psf_stamp_coords(self.x_arr, self.instrument.PSF.PSF_FWHM)
+        y_arr_trim = _psf_stamp_coords(self.y_arr, self.instrument.PSF.PSF_FWHM)
 
         # x_arr_flat = np.tile(x_arr_trim, (len(y_arr_trim),1))
         # y_arr_flat = np.tile(np.array([y_arr_trim]).T, (1,len(x_arr_trim)))
 
 
-        # The stamp must be centered: remove the offset of the grid from the galaxy.
-        conv_stamp = self.instrument.PSF.generate_conv_stamp(x_arr_trim-xc, y_arr_trim-yc)
+        conv_stamp = self.instrument.PSF.generate_conv_stamp(x_arr_trim, y_arr_trim)
         self.instrument.PSF.set_conv_stamp(conv_stamp)
 
 
@@ -599,10 +613,9 @@ class AperModel2D(object):
         ## Convolve the spectra cube with the PSF:
         ## Trim x_arr, y_arr so you're only making a convolution kernal for +- FWHM
         #       x_arr, y_arr are in *ARCSECONDS*
-        xc = np.average(self.x_arr)
-        yc = np.average(self.y_arr)
-        x_arr_trim = self.x_arr[np.abs(self.x_arr-xc) <= self.instrument.PSF.PSF_FWHM]
-        y_arr_trim = self.y_arr[np.abs(self.y_arr-yc) <= self.instrument.PSF.PSF_FWHM]
+        # The stamp must be centered: remove the offset of the grid from the galaxy.
+        x_arr_trim = _psf_stamp_coords(self.x_arr, self.instrument.PSF.PSF_FWHM)
+        y_arr_trim = _psf_stamp_coords(self.y_arr, self.instrument.PSF.PSF_FWHM)
 
         #x_arr_flat = np.tile(x_arr_trim, (len(y_arr_trim),1))
         #y_arr_flat = np.tile(np.array([y_arr_trim]).T, (1,len(x_arr_trim)))
@@ -613,8 +626,7 @@ class AperModel2D(object):
         #    # z can either be true z, or WAVELENGTH
 
 
-        # The stamp must be centered: remove the offset of the grid from the galaxy.
-        conv_stamp = self.instrument.PSF.generate_conv_stamp(x_arr_trim-xc, y_arr_trim-yc)
+        conv_stamp = self.instrument.PSF.generate_conv_stamp(x_arr_trim, y_arr_trim)
         # Test new:
         kern3D = np.zeros(shape=(1, conv_stamp.shape[0], conv_stamp.shape[1],))
         kern3D[0, :, :] = conv_stamp
-- 
2.43.0


From dd73c142db7b094f1b3d4f2e1fb1dd566e8b35cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:06 +0000
Subject: [PATCH 05/61] fix: include the negative dither images in the Moffat
 PSF stamp

PSFMoffat ignored yspace_dither_arc, which PSFGaussian includes.
---
 misfit/instrument.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/misfit/instrument.py b/misfit/instrument.py
index 52ba1d3..da643e8 100644
--- a/misfit/instrument.py
+++ b/misfit/instrument.py
@@ -69,7 +69,8 @@ class PSFMoffat(PSFBase):
         beta = self.PSF_beta
         alpha = PSF_FWHM/(2. * np.sqrt(np.power(2., 1./beta) -1))
 
-        return PSF_stamp_moffat(x, y, alpha=alpha, beta=beta)
+        return PSF_stamp_moffat(x, y, alpha=alpha, beta=beta,
+                    yspace_dither_arc=self.yspace_dither_arc)
 
 
 class Instrument(object):
-- 
2.43.0


From 6ff2ce5e19b264c2b676efbc059ecbf2c17e372c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:15 +0000
Subject: [PATCH 06/61] fix: allow no PSF convolution (PSF_FWHM=0) with a
 Moffat PSF

It raised ZeroDivisionError, whereas the Gaussian PSF supports it.
---
 misfit/instrument.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/misfit/instrument.py b/misfit/instrument.py
index da643e8..85030da 100644
--- a/misfit/instrument.py
+++ b/misfit/instrument.py
@@ -66,6 +66,9 @@ class PSFMoffat(PSFBase):
         # x, y should already be *CENTERED*, and in arcsec.
         if PSF_FWHM is None:
             PSF_FWHM = self.PSF_FWHM
+        if PSF_FWHM == 0.:
+            # No PSF: no profile is defined, and the models do no convolution.
+            return np.ones((len(y), len(x)))
         beta = self.PSF_beta
         alpha = PSF_FWHM/(2. * np.sqrt(np.power(2., 1./beta) -1))
 
-- 
2.43.0


From 798f3d5cf7dc165fd23c8efef1744eea9a4ba728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:25 +0000
Subject: [PATCH 07/61] fix: position wavelength shift in the 1D rotation
 aperture model

The PSF stamp of that model is 2D, while PSF_convolve needs it to be 3D,
so do_position_wave_shift raised an error.
---
 misfit/model/kin_functions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/misfit/model/kin_functions.py b/misfit/model/kin_functions.py
index 9c2cd50..1f1eaf3 100644
--- a/misfit/model/kin_functions.py
+++ b/misfit/model/kin_functions.py
@@ -365,6 +365,9 @@ def PSF_convolve(spectra_cube, PSF):
 
     if PSF.PSF_FWHM > 0.:
         kern3D = PSF._conv_stamp
+        if kern3D.ndim == 2:
+            # Stamp set up for collapsed 2D maps, eg by AperModel1DRot
+            kern3D = kern3D[np.newaxis,:,:]
 
         spectra_cube_see_conv = fftconvolve(spectra_cube, kern3D, mode='same')
         # Conserve total flux:
-- 
2.43.0


From 487061ec4b18b43fd8cf4c520e449b2fbd024c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:56 +0000
Subject: [PATCH 08/61] fix: recalculation of a 1D rotation model with position
 wavelength shift

The cache check used an attribute which AperModel1DRot does not have.
---
 misfit/model/aper_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index 07fd1f0..361305f 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -436,7 +436,7 @@ class AperModel1DRot(AperModel1DBase):
 
         # Add position offset, if calculating that shift:
         if self.do_position_wave_shift or self.do_inst_res_conv_effective:
-            if (self.delta_position_velspace is None) or (self.inst_disp_wave is None):
+            if (self.delta_position_velspace is None) or (self.inst_disp_vel is None):
                 #################
                 # Exclude the padded regions ????
                 wh_in_slit_x = np.array(range(self.padX,self.n_pix_x+self.padX))
-- 
2.43.0


From 6de69b49e41550e2d31f18f92cd403a430edbce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:56 +0000
Subject: [PATCH 09/61] fix: do not let models sharing an instrument use each
 other's PSF stamp

Setting up a second aperture model replaced the convolution stamp of the
first one, whose later updates then used a stamp made for another grid.
---
 misfit/model/aper_model.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index 361305f..7582254 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -286,11 +286,13 @@ class AperModel1DRot(AperModel1DBase):
         # y_arr_flat = np.tile(np.array([y_arr_trim]).T, (1,len(x_arr_trim)))
 
 
-        conv_stamp = self.instrument.PSF.generate_conv_stamp(x_arr_trim, y_arr_trim)
-        self.instrument.PSF.set_conv_stamp(conv_stamp)
+        # Keep the stamp: the instrument may be shared with other models, on other grids.
+        self._conv_stamp = self.instrument.PSF.generate_conv_stamp(x_arr_trim, y_arr_trim)
 
 
     def calc_aper_correction(self, recalc=False):
+        self.instrument.PSF.set_conv_stamp(self._conv_stamp)
+
         self.update_kinProfile()
 
 
@@ -631,7 +633,8 @@ class AperModel2D(object):
         kern3D = np.zeros(shape=(1, conv_stamp.shape[0], conv_stamp.shape[1],))
         kern3D[0, :, :] = conv_stamp
 
-        self.instrument.PSF.set_conv_stamp(kern3D)
+        # Keep the stamp: the instrument may be shared with other models, on other grids.
+        self._conv_stamp = kern3D
 
     def make_model(self):
 
@@ -646,6 +649,8 @@ class AperModel2D(object):
 
     def do_model_calcs(self):
 
+        self.instrument.PSF.set_conv_stamp(self._conv_stamp)
+
         self.kinProfile.update_theta(self.theta)
 
         if self.adaptive_upsample_wave:
-- 
2.43.0


From e891a0d099c3483daaa199b7624c2e23de074f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:56 +0000
Subject: [PATCH 10/61] fix: apply changes of m0_shift and z when updating a 2D
 model

The coordinate grid, which depends on both, was only set up when the model
was first made, so an update silently kept their initial values.
---
 misfit/model/aper_model.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index 7582254..d06e829 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -645,6 +645,12 @@ class AperModel2D(object):
     def update_model(self, **kwargs):
         self.setAttr(**kwargs)
 
+        if not np.array_equal(self.theta[-2:], self._theta_grid):
+            # The grid depends on m0_shift and z
+            self.delta_position_velspace = None
+            self.inst_disp_wave = None
+            self.setup_calcs()
+
         self.do_model_calcs()
 
     def do_model_calcs(self):
@@ -733,6 +739,7 @@ class AperModel2D(object):
                 num=self.nY)
 
         self.z = self.theta[-1]
+        self._theta_grid = np.array(self.theta[-2:])
 
         # Offset m0_fit to be at 0.:
         self.m0_fit = self.galaxy.spec2D.m0 + self.theta[-2]
-- 
2.43.0


From 47220d8160b292399cb57d90ecc953024b0a749a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:34 +0000
Subject: [PATCH 11/61] fix: generate 3D (IFU) model cubes with a PSF, and
 repeatedly

The cube was already trimmed of its PSF padding but was rebinned as if it
were not, which raised an error for any PSF; so did the debug cubes, and
making the model a second time. The update kept the padded, unconvolved
and oversampled cube. The velocity cube was summed over subpixels, and the
slit width of the input instrument was changed.
---
 misfit/model/aper_model.py |  2 +-
 misfit/model/kin_model.py  | 41 ++++++++++++++++++++------------------
 2 files changed, 23 insertions(+), 20 deletions(-)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index d06e829..b9a172c 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -699,7 +699,7 @@ class AperModel2D(object):
         self.n_pix_x = int(np.ceil(self.instrument.slit_width/self.delt_y))
         # Check for case where slit width = slit length:
         #    make sure rounding errors don't end up with diff nPix.
-        if self.y_aper == self.instrument.slit_width:
+        if np.isclose(self.y_aper, self.instrument.slit_width, rtol=1.e-9, atol=0.):
             if self.n_pix_x != self.n_pix_y:
                 self.n_pix_x = self.n_pix_y
         self.delt_x = self.instrument.slit_width/self.n_pix_x
diff --git a/misfit/model/kin_model.py b/misfit/model/kin_model.py
index cc87e12..969cde9 100644
--- a/misfit/model/kin_model.py
+++ b/misfit/model/kin_model.py
@@ -226,8 +226,8 @@ class KinModel2D(object):
                 n_pix_y_whole = galaxy.spec2D.flux.shape[0]
             else:
                 n_pix_y_whole = galaxy.spec2D.shape[0]
+            instrument = instrument.copy()  # Don't change the slit of the input instrument
             instrument.slit_width = n_pix_y_whole*instrument.pixscale
-            n_pix_x_whole = n_pix_y_whole
 
             self.aperModel = AperModel2D(galaxy=galaxy, instrument=instrument,
                                 theta=self.theta,
@@ -240,6 +240,7 @@ class KinModel2D(object):
                                 do_inst_res_conv_effective=self.kinModelOptions.do_inst_res_conv_effective,
                                 absvalsigma=self.kinModelOptions.absvalsigma,
                                 adaptive_upsample_wave=self.kinModelOptions.adaptive_upsample_wave,
+                                adaptive_upsample_factor=self.kinModelOptions.adaptive_upsample_factor,
                                 sigma_floor=self.kinModelOptions.sigma_floor,
                                 debug=self.debug)#,
         else:
@@ -247,29 +248,32 @@ class KinModel2D(object):
             #                     kinProfile=self.kinProfile)
             self.aperModel.update_model(theta=self.theta)
 
+        self._downsample_3D_int_model()
+
+    def _downsample_3D_int_model(self):
         ###################
         # Do downsampling:
-        # # Save the 2D model to base part of class
+        # # Save the 3D model to base part of class
+        aperModel = self.aperModel
 
         # Shape: nSpec, nY, nX
-        nWave = len(galaxy.spec2D.wave.copy())
-        # if self.debug:
-        #     print("spec cube conv shape={}".format(self.aperModel.spectra_cube_conv.shape))
-        #     print("n_pix_y_whole={}, padY={}, n_pix_x_whole={}, padX={}".format(n_pix_y_whole,
-        #             self.aperModel.padY, n_pix_x_whole, self.aperModel.padX))
-        self.model_cube = kfuncs.rebin(self.aperModel.spectra_cube_conv.copy(),
-                    nWave, n_pix_y_whole+2*self.aperModel.padY, n_pix_x_whole+2*self.aperModel.padX)
+        nWave = len(aperModel.galaxy.spec2D.wave)
+        nY = aperModel.n_pix_y_whole
+        nX = int(np.round(aperModel.n_pix_x/float(aperModel.nSubpixels)))
+
+        # The PSF padding has already been trimmed
+        self.model_cube = kfuncs.rebin(aperModel.spectra_cube_conv.copy(), nWave, nY, nX)
 
         if self.debug:
-            # Downsample others too
-            self.I_wide = kfuncs.rebin(self.aperModel.I_wide.copy(),
-                        n_pix_y_whole, n_pix_y_whole, n_pix_x_whole)
-            #
-            self.V_wide = kfuncs.rebin(self.aperModel.V_wide.copy(),
-                        n_pix_y_whole, n_pix_y_whole, n_pix_x_whole)
+            # Downsample others too, after trimming the PSF padding
+            trimy = slice(aperModel.padY, aperModel.n_pix_y+aperModel.padY)
+            trimx = slice(aperModel.padX, aperModel.n_pix_x+aperModel.padX)
+            self.I_wide = kfuncs.rebin(aperModel.I_wide[:,trimy,trimx], nY, nY, nX)
+            # Velocity: average over the subpixels
+            self.V_wide = kfuncs.rebin(aperModel.V_wide[:,trimy,trimx],
+                        nY, nY, nX)/float(aperModel.nSubpixels)**3
             #
-            self.I_Vsq_wide = kfuncs.rebin(self.aperModel.I_Vsq_wide.copy(),
-                        n_pix_y_whole, n_pix_y_whole, n_pix_x_whole)
+            self.I_Vsq_wide = kfuncs.rebin(aperModel.I_Vsq_wide[:,trimy,trimx], nY, nY, nX)
 
     def update_3D_int_model(self, theta_fitting=None):
         # For illustrative purposes / toy-model use for mock analysis of IFU data:
@@ -286,8 +290,7 @@ class KinModel2D(object):
         #                         kinProfile=self.aperModel.kinProfile)
         self.aperModel.update_model(theta=self.theta)
 
-        # # Save the 2D model to base part of class
-        self.model_cube = self.aperModel.spectra_cube.copy()
+        self._downsample_3D_int_model()
 
     # +++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++
 
-- 
2.43.0


From 066775d216adbf56b8a3c1dbf8a1f81c9f9cddbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:01 +0000
Subject: [PATCH 12/61] fix: do not share default and input settings between
 models and fits

Default profiles, options and results were created once, and so shared by
all models and fits: setting up one changed the others' light profile or
results. The model also wrote its parameters into the input settings (as
integers, truncating them, if those were integers).
---
 misfit/fit/fit2D.py           | 23 +++++++++++++++++------
 misfit/mock/generate_basic.py |  9 +++++++--
 misfit/model/kin_model.py     | 22 ++++++++++++++++------
 3 files changed, 40 insertions(+), 14 deletions(-)

diff --git a/misfit/fit/fit2D.py b/misfit/fit/fit2D.py
index 4e913e6..e1a6f34 100644
--- a/misfit/fit/fit2D.py
+++ b/misfit/fit/fit2D.py
@@ -40,7 +40,6 @@ except:
 # from misfit.model import AperModel2D
 from misfit.model import KinModel2D, KinModel2DOptions
 from misfit.model.kin_classes import KinProfileFiducial, IntensityProfileFiducial, ThetaPriorFlat
-from misfit import Galaxy
 
 import astropy.constants as constants
 c_cgs = constants.c.cgs.value
@@ -142,17 +141,29 @@ class FitEmissionLines2D(object):
     def __init__(self, galaxy=None, instrument=None, instrument_img=None,
                     linegroup_name = None, linenames_arr = None,
                     restwave_arr = None, flux_ratio_arr = None,
-                    kinProfile=KinProfileFiducial(),
-                    intensityProfile=IntensityProfileFiducial(Galaxy(n=1.,q0=0.19,re_arcsec=0.)),
-                    kinModelOptions=KinModel2DOptions(),
+                    kinProfile=None,
+                    intensityProfile=None,
+                    kinModelOptions=None,
                     thetaPrior=None,
                     thetaSettings=None,
-                    mcmcOptions = MCMC2DOptions(),
+                    mcmcOptions = None,
                     theta_linked_posteriors = None,
-                    mcmc_results = MCMCResults(),
+                    mcmc_results = None,
                     usetex=True,
                     **kwargs):
 
+        # Defaults: new instances, so they are not shared between fits
+        if kinProfile is None:
+            kinProfile = KinProfileFiducial()
+        if intensityProfile is None:
+            intensityProfile = IntensityProfileFiducial(galaxy)
+        if kinModelOptions is None:
+            kinModelOptions = KinModel2DOptions()
+        if mcmcOptions is None:
+            mcmcOptions = MCMC2DOptions()
+        if mcmc_results is None:
+            mcmc_results = MCMCResults()
+
         self.galaxy = galaxy
         self.instrument = instrument
         self.instrument_img = instrument_img
diff --git a/misfit/mock/generate_basic.py b/misfit/mock/generate_basic.py
index 0ada591..d33a3a2 100644
--- a/misfit/mock/generate_basic.py
+++ b/misfit/mock/generate_basic.py
@@ -42,8 +42,8 @@ def generate_mock_basis(z=None,
         pad_factor=0.5,
         do_position_wave_shift=False,
         do_inst_res_conv_effective=False,
-        kinProfile = KinProfileFiducial(),
-        intensityProfile = IntensityProfileFiducial(Galaxy(n=1.,q0=0.19,re_arcsec=0.)),
+        kinProfile = None,
+        intensityProfile = None,
         debug=False, **kwargs):
 
     # Enforce min slit-length
@@ -77,6 +77,11 @@ def generate_mock_basis(z=None,
     galaxy.namebase = str(ID)
 
 
+    if kinProfile is None:
+        kinProfile = KinProfileFiducial()
+    if intensityProfile is None:
+        intensityProfile = IntensityProfileFiducial(galaxy)
+
     intensityProfile.update_values(galaxy=galaxy)
 
     ###############
diff --git a/misfit/model/kin_model.py b/misfit/model/kin_model.py
index 969cde9..114f41a 100644
--- a/misfit/model/kin_model.py
+++ b/misfit/model/kin_model.py
@@ -10,7 +10,6 @@ import copy
 from misfit.model.kin_classes import KinProfileFiducial, IntensityProfileFiducial, \
                                 Theta2DSettingsFiducial
 from misfit.model import AperModel2D
-from misfit import Galaxy
 
 #from numba import jit
 ##from numba import njit
@@ -60,15 +59,26 @@ class KinModel2D(object):
     Handles variable + fixed parameters, talks to the Aper2DModel class,
     creates scaled model to data.
     """
-    def __init__(self, galaxy, thetaSettings=Theta2DSettingsFiducial(),
-                    kinProfile=KinProfileFiducial(),
-                    intensityProfile=IntensityProfileFiducial(Galaxy(n=1.,q0=0.19,re_arcsec=0.)),
-                    kinModelOptions = KinModel2DOptions(),
+    def __init__(self, galaxy, thetaSettings=None,
+                    kinProfile=None,
+                    intensityProfile=None,
+                    kinModelOptions=None,
                     do_position_wave_shift=False,
                     do_inst_res_conv_effective=False, **kwargs):
+        # Defaults: new instances, so they are not shared between models
+        if thetaSettings is None:
+            thetaSettings = Theta2DSettingsFiducial()
+        if kinProfile is None:
+            kinProfile = KinProfileFiducial()
+        if intensityProfile is None:
+            intensityProfile = IntensityProfileFiducial(galaxy)
+        if kinModelOptions is None:
+            kinModelOptions = KinModel2DOptions()
+
         # Galaxy()
         # Unpack thetaSettings:
-        self.theta = thetaSettings.theta
+        # (theta is updated in place: don't change the values of the input settings)
+        self.theta = np.array(thetaSettings.theta, dtype=float)
         self.theta_vary = thetaSettings.theta_vary
         self.theta_names = thetaSettings.theta_names
         self.theta_names_nice = thetaSettings.theta_names_nice
-- 
2.43.0


From a1f538178b7d4185afb558e9347f9babb74731cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:29 +0000
Subject: [PATCH 13/61] fix: use the dispersion slope d of the 1D dispersion
 models in the aperture

Only the intrinsic dispersion used d: the dispersion in the aperture was
always calculated with the default slope.
---
 misfit/model/kin_functions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/misfit/model/kin_functions.py b/misfit/model/kin_functions.py
index 1f1eaf3..1518edf 100644
--- a/misfit/model/kin_functions.py
+++ b/misfit/model/kin_functions.py
@@ -600,7 +600,7 @@ def sigma_aper_dispersion(aperModel1DDisp = None, re_arcsec=None, re_mass_arcsec
     # re_arcsec should already be circularized -- use q=1.
     sig_sq_wide = disp_square(aperModel1DDisp.x_arr_full, aperModel1DDisp.y_arr_full,
                     q=1., delt_PA=0., re_mass_arcsec=re_mass_arcsec,
-                    r_core=aperModel1DDisp.r_core)
+                    r_core=aperModel1DDisp.r_core, d=aperModel1DDisp.d)
 
     I_wide  = Igal(aperModel1DDisp.x_arr_full, aperModel1DDisp.y_arr_full, re_arcsec=re_arcsec,
                         n=aperModel1DDisp.galaxy.n, q=1., delt_PA=0.,r_core=aperModel1DDisp.r_core)
@@ -683,7 +683,7 @@ def sigma_aper_dispersion_misalign(aperModel1DDisp = None,
     sig_sq_wide = disp_square(aperModel1DDisp.x_arr_full, aperModel1DDisp.y_arr_full,
                     q=aperModel1DDisp.galaxy.q, delt_PA=aperModel1DDisp.galaxy.delt_PA,
                     re_mass_arcsec=re_mass_arcsec,
-                    r_core=aperModel1DDisp.r_core)
+                    r_core=aperModel1DDisp.r_core, d=aperModel1DDisp.d)
 
 
     I_wide  = Igal(aperModel1DDisp.x_arr_full, aperModel1DDisp.y_arr_full,
@@ -998,13 +998,13 @@ def sigma_aper_dispersion_misalign_ORIG(aperModel1DDisp = None, re_arcsec=None,
 
 #@jit
 @njit
-def disp_square(x, y, q=None, delt_PA=None, re_mass_arcsec=None, r_core=None):
+def disp_square(x, y, q=None, delt_PA=None, re_mass_arcsec=None, r_core=None, d=-0.089):
 
     r = r_int_ellip(x, y, q, delt_PA)
 
     # r is relative to r_circularized for that given ellipse -- use re_circ.
     # INPUT RE_CIRC!
-    sigma_val = sigma_profile(r, re_mass_arcsec, r_core=r_core)
+    sigma_val = sigma_profile(r, re_mass_arcsec, d=d, r_core=r_core)
 
     return sigma_val**2
 
-- 
2.43.0


From 9e83d41623dd39334f44b9b93f9f5cd16c43995a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:07 +0000
Subject: [PATCH 14/61] fix: velocity models with zero dispersion

They used the undefined wavelength lam0, raising NameError.
---
 misfit/model/kin_functions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/misfit/model/kin_functions.py b/misfit/model/kin_functions.py
index 1518edf..319a3da 100644
--- a/misfit/model/kin_functions.py
+++ b/misfit/model/kin_functions.py
@@ -124,8 +124,9 @@ def add_sigma_collapse_z(I_wide, V_wide, sigma_wide,
 
             I_Vxy_oneline = np.sum(I_conv, axis=1)*delt_z
         else:
-            I_Vxy_oneline = I_simple_collapse(I_wide, V_wide, wave_arr, nWave,
-                            nZ, nY, nX, delt_z, delt_wave, lam0)
+            # wave_arr is in velocity: lam0*(1.+V/c) has to be V
+            I_Vxy_oneline = I_simple_collapse(I_wide, V_wide-c_kms, wave_arr, nWave,
+                            nZ, nY, nX, delt_z, delt_wave, c_kms)
 
         I_Vxy += I_Vxy_oneline
 
-- 
2.43.0


From e6b528adcbbbdddad00e72913078f59b652eabe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:34 +0000
Subject: [PATCH 15/61] fix: same flux normalization of the model for small and
 large dispersions

The model is a flux density, but was summed over the finer wavelength
samples used for small dispersions (3 times too high by default), and for
zero dispersion the flux was not divided by the width of the sample.
---
 misfit/model/aper_model.py    | 4 +++-
 misfit/model/kin_functions.py | 2 +-
 misfit/model/kin_model.py     | 5 ++++-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index b9a172c..fcd8a34 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -913,8 +913,10 @@ class AperModel2D(object):
 
 
     def downsample_to_real_wave(self):
+        # The model is a flux density: average over the finer wavelength samples
+        n_upsample = self.nWave/float(self.nWave_real)
         self.model_out = kfuncs.rebin(self.model_out,
-                            self.nWave_real, self.n_pix_y_whole)
+                            self.nWave_real, self.n_pix_y_whole)/n_upsample
         # Reset other parameters to original values:
         self.wave_arr = self.wave_arr_real.copy()
         self.nWave = self.nWave_real
diff --git a/misfit/model/kin_functions.py b/misfit/model/kin_functions.py
index 319a3da..38e9409 100644
--- a/misfit/model/kin_functions.py
+++ b/misfit/model/kin_functions.py
@@ -160,7 +160,7 @@ def I_simple_collapse(I_wide, V_wide, wave_arr,
 
                 # Force it all into the closest pixel:
                 wh_closest = np.argmin(lam_diff)
-                I_Vxy[wh_closest,j,k] += I*delt_z
+                I_Vxy[wh_closest,j,k] += I*delt_z/delt_wave   # flux density
 
 
     return I_Vxy
diff --git a/misfit/model/kin_model.py b/misfit/model/kin_model.py
index 114f41a..048011e 100644
--- a/misfit/model/kin_model.py
+++ b/misfit/model/kin_model.py
@@ -272,7 +272,10 @@ class KinModel2D(object):
         nX = int(np.round(aperModel.n_pix_x/float(aperModel.nSubpixels)))
 
         # The PSF padding has already been trimmed
-        self.model_cube = kfuncs.rebin(aperModel.spectra_cube_conv.copy(), nWave, nY, nX)
+        # The cube is a flux density: average over the finer wavelength samples, if upsampled
+        n_upsample = aperModel.spectra_cube_conv.shape[0]/float(nWave)
+        self.model_cube = kfuncs.rebin(aperModel.spectra_cube_conv.copy(),
+                    nWave, nY, nX)/n_upsample
 
         if self.debug:
             # Downsample others too, after trimming the PSF padding
-- 
2.43.0


From 7a270551c976404ed9f914ec11a7c3013da2c6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:26 +0000
Subject: [PATCH 16/61] fix: flux of the 1D emission line profile

The profile was scaled so its largest sample had the amplitude of the
peak. The flux then depended on where the samples fell (and which were
masked), and a line outside of the wavelength range added a spurious full
amplitude line at its edge. A negative dispersion gave NaN, which the fit
took to be a perfect match.
---
 misfit/model/emission_lines_model.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/misfit/model/emission_lines_model.py b/misfit/model/emission_lines_model.py
index 5b8292a..1a51f32 100644
--- a/misfit/model/emission_lines_model.py
+++ b/misfit/model/emission_lines_model.py
@@ -273,11 +273,8 @@ def gaussian_line(x, mu, vel_sig, flux):
     # Mu: wavelength
 
     # Convert vel_sig into sig in wavelength:
-    sig = vel_sig / c_kms * mu
-
-    # make gaussian
-    gaus = norm.pdf(x, mu, sig)
-    # scale to amplitude
-    scale = flux/(sig*np.sqrt(2.*np.pi))
-    gaus = gaus/gaus.max()*scale
-    return gaus
+    # (only the size of the dispersion matters)
+    sig = np.abs(vel_sig) / c_kms * mu
+
+    # make gaussian, normalized to the total flux
+    return flux*norm.pdf(x, mu, sig)
-- 
2.43.0


From 287079b57f154a8bc0982ca899e5f79af9620153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:26 +0000
Subject: [PATCH 17/61] fix: do not raise an error after the 1D fit
 uncertainties are calculated

A leftover debugging statement made every fit with noErrors=False fail.
---
 misfit/fit/fit1D.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/misfit/fit/fit1D.py b/misfit/fit/fit1D.py
index 41b622d..ca56062 100644
--- a/misfit/fit/fit1D.py
+++ b/misfit/fit/fit1D.py
@@ -506,8 +506,6 @@ class FitEmissionLines1D(object):
             self.cont_coeff_err =   \
                 values_err[len(self.names_arr)+2:len(self.names_arr)+2+self.cont_order+1,:]
 
-            raise ValueError
-
         else:
             print( "Not doing errors")
             self.z_err =            np.zeros(2)
-- 
2.43.0


From 0201f91eeda862c3346bdb3d9c899187f45542e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:26 +0000
Subject: [PATCH 18/61] fix: 1D fits of line sets with different numbers of
 lines

Eg, names_arr=['Halpha', 'NII'] raised an error, as the rest wavelengths
can't be put in one array.
---
 misfit/fit/fit1D.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/misfit/fit/fit1D.py b/misfit/fit/fit1D.py
index ca56062..a0e0fed 100644
--- a/misfit/fit/fit1D.py
+++ b/misfit/fit/fit1D.py
@@ -181,7 +181,8 @@ class FitEmissionLines1D(object):
                     wave_arr.append(io.read_restwave(wave_file, linename=linename))
                 waves_arr.append(wave_arr)
 
-            self.restwave_arr = np.array(waves_arr)
+            # Line sets can have different numbers of lines
+            self.restwave_arr = [np.array(wave_arr) for wave_arr in waves_arr]
 
     def setup_spectrum(self):
         """
-- 
2.43.0


From 5b949fccb5e0726a8054fbe2184677253f1b937b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:26 +0000
Subject: [PATCH 19/61] fix: use the instrument's resolution for the corrected
 dispersion errors

The resolution is an attribute of the instrument, as used for the value:
the 1D spectrum may not have one, or a different one.
---
 misfit/fit/fit1D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/fit/fit1D.py b/misfit/fit/fit1D.py
index a0e0fed..bd53bfe 100644
--- a/misfit/fit/fit1D.py
+++ b/misfit/fit/fit1D.py
@@ -613,7 +613,7 @@ class FitEmissionLines1D(object):
 
             # Correct all in value matrix
             vel_disp_mc = value_matrix[:,1]
-            vel_disp_mc_inst_corr = np.sqrt(vel_disp_mc**2 - self.galaxy.spec1D.instrument_resolution**2)
+            vel_disp_mc_inst_corr = np.sqrt(vel_disp_mc**2 - self.instrument.instrument_resolution**2)
 
             # Make non-finite cases: these are where inst res > vel disp
             vel_disp_mc_inst_corr[~np.isfinite(vel_disp_mc_inst_corr)] = 0.
-- 
2.43.0


From 9ae32a8927198d50a65f1155ddd1a2695e79c192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:26 +0000
Subject: [PATCH 20/61] fix: 1D fits of galaxies whose ID is not an integer

---
 misfit/fit/fit1D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/fit/fit1D.py b/misfit/fit/fit1D.py
index bd53bfe..95c5267 100644
--- a/misfit/fit/fit1D.py
+++ b/misfit/fit/fit1D.py
@@ -370,7 +370,7 @@ class FitEmissionLines1D(object):
         values_true = np.append(values_true, self.cont_coeff)
 
         print( "-----------------------------------------------------------------------------")
-        print( "{} {:d}".format(self.galaxy.field, self.galaxy.ID) )
+        print( "{} {}".format(self.galaxy.field, self.galaxy.ID) )
         print( "Message: \t\t {}".format(self.lmfit_result.message) )
         print( "Success: \t\t {}".format(self.lmfit_result.success) )
         print( "Errorbars estimated?: \t {}".format( self.lmfit_result.errorbars) )
-- 
2.43.0


From e82ba159474ebc421c9be47929657ab4facbd0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:12 +0000
Subject: [PATCH 21/61] fix: trim a 1D spectrum by a restframe range for a
 float redshift

---
 misfit/general/galaxy_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index 1669209..c6bfb90 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -46,7 +46,7 @@ def trim_spectrum_1D(spec1D, galaxy, trim_restwave_range=None,
         trim_restwave_range = io.read_wave_range(param_restwave_filename,linename=linename)
 
     if trim_obswave_range is None:
-        trim_obswave_range = np.array(trim_restwave_range)*(1.+galaxy.z).tolist()
+        trim_obswave_range = (np.array(trim_restwave_range)*(1.+galaxy.z)).tolist()
 
     # Find the range there is coverage:
     if spec1D is not None:
-- 
2.43.0


From 204af87134021e3cf26837c1d78619f4cdcef666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:12 +0000
Subject: [PATCH 22/61] fix: mask num_edge pixels at the right edge of 1D
 spectra

Two more than at the left edge were masked, and none at all if the unmasked
range ended within num_edge pixels of the start of the spectrum.
---
 misfit/general/galaxy_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index c6bfb90..763bed8 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -694,7 +694,7 @@ def mask_edges_1D(spec=None, spec_err=None, spec_mask=None,num_edge=10):
         if edge_l > 0:
             spec_mask[edge_l:edge_l+num_edge] = 0
         if edge_r < len(spec)-1:
-            spec_mask[edge_r-num_edge-1:edge_r+1] = 0
+            spec_mask[max(edge_r-num_edge+1, 0):edge_r+1] = 0
 
     return spec_mask
 
-- 
2.43.0


From 25c6423e283109a4e50c68d1eb4ecce896f660ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:12 +0000
Subject: [PATCH 23/61] fix: mask missing (zero error) pixels also if other
 errors are not finite

---
 misfit/general/galaxy_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index 763bed8..832c0e4 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -710,8 +710,8 @@ def spec_mask_missing(spec=None, spec_err=None, spec_weight=None,
 
     # ##########################################################
     # # Mask missing values: eg, where error = 0.
-    if (not nonfinite_only) & (np.abs(spec_err).max() > 0.):
-        wh_missing = np.where(spec_err == 0.)[0]
+    if (not nonfinite_only) & np.any(spec_err != 0.):
+        wh_missing = np.where(spec_err == 0.)
         spec_mask[wh_missing] = 0.
     # ##########################################################
 
-- 
2.43.0


From d69b0b034eb2e0cc533ff25fc0dbb2b798ddb812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:12 +0000
Subject: [PATCH 24/61] fix: do not change the input data arrays when preparing
 spectra for fitting

Missing data in the user's flux and error arrays was overwritten by -99, which is
valid data if the arrays are used again, and masks of skylines leaked into the mask
of the 1D spectrum.
---
 misfit/general/galaxy_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index 832c0e4..0331e37 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -388,7 +388,7 @@ def subtract_continuum_2D(spec2D, galaxy, fill_value=-99., no_cont_subtraction=F
                             median_err=spec2D.median_flux_error,
                             cutoff=spec2D.band_cutoff, full=True)
 
-        spec_mask_tmp = galaxy.spec1D.spec_mask[:]
+        spec_mask_tmp = galaxy.spec1D.spec_mask.copy()
         spec_mask_tmp[wh_sky] = 0.
 
 
@@ -707,6 +707,8 @@ def spec_mask_missing(spec=None, spec_err=None, spec_weight=None,
     """
     if spec_mask is None:
         spec_mask = np.ones(spec.shape, dtype=float)
+    else:
+        spec_mask = spec_mask.copy()    # Don't change the input mask
 
     # ##########################################################
     # # Mask missing values: eg, where error = 0.
@@ -737,6 +739,7 @@ def mask_spec2D_from_1D(mask2D=None, mask1D=None):
 
 def spec_nan_masking(flux=None, spec_mask=None, fill_value=-99., mask_zero=False, mask_all_masked=False):
     # Change the non-finite errors so they don't create problems in calculations multiplying with mask
+    flux = flux.copy()    # Don't change the input data
 
     if not mask_all_masked:
         wh_reset = np.where((np.invert(np.isfinite(flux))) & (spec_mask == 0.))
-- 
2.43.0


From 70f8ceb7f571781b5c8bb87040466aeb39b357cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:09 +0000
Subject: [PATCH 25/61] fix: fit the lines explicitly set in FitEmissionLines2D

---
 misfit/fit/fit2D.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/misfit/fit/fit2D.py b/misfit/fit/fit2D.py
index e1a6f34..95268fe 100644
--- a/misfit/fit/fit2D.py
+++ b/misfit/fit/fit2D.py
@@ -235,6 +235,8 @@ class FitEmissionLines2D(object):
                 self.galaxy.spec2D.linenames_arr = self.linenames_arr
             else:
                 self.linenames_arr = self.galaxy.spec2D.linenames_arr
+        elif self.galaxy.spec2D.linenames_arr is None:
+            self.galaxy.spec2D.linenames_arr = self.linenames_arr
 
         if (self.linenames_arr is not None) & (self.restwave_arr is None):
             if (self.galaxy.spec2D.linenames_arr is not None) & \
@@ -248,6 +250,8 @@ class FitEmissionLines2D(object):
                 self.galaxy.spec2D.restwave_arr = self.restwave_arr
             else:
                 self.restwave_arr = self.galaxy.spec2D.restwave_arr
+        elif self.galaxy.spec2D.restwave_arr is None:
+            self.galaxy.spec2D.restwave_arr = np.array(self.restwave_arr)
 
         if (self.linenames_arr is not None) & (self.flux_ratio_arr is None):
             if (self.galaxy.spec2D.linenames_arr is not None) & (self.galaxy.spec2D.flux_ratio_arr is None):
@@ -260,6 +264,8 @@ class FitEmissionLines2D(object):
                 self.galaxy.spec2D.flux_ratio_arr = self.flux_ratio_arr
             else:
                 self.flux_ratio_arr = self.galaxy.spec2D.flux_ratio_arr
+        elif self.galaxy.spec2D.flux_ratio_arr is None:
+            self.galaxy.spec2D.flux_ratio_arr = np.array(self.flux_ratio_arr)
 
 
         # Setup spectrum:
-- 
2.43.0


From dfaa81a8e8c750a819c75849d2fe800bda422163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:09 +0000
Subject: [PATCH 26/61] fix: leave the chain unchanged for absvalsigma with
 fixed dispersion

Indexing with None took the absolute value of all parameters.
---
 misfit/fit/fit_core.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/misfit/fit/fit_core.py b/misfit/fit/fit_core.py
index fbc399f..80923e1 100644
--- a/misfit/fit/fit_core.py
+++ b/misfit/fit/fit_core.py
@@ -945,10 +945,11 @@ def add_v_re_22(fitEmis2D):
                 else:
                     free_inds.append(None)
             ind = free_inds[ind_all]
-            fitEmis2D.sampler_dict['flatchain'][:, ind] = \
-                   np.abs(fitEmis2D.sampler_dict['flatchain'][:, ind])
-            fitEmis2D.sampler_dict['chain'][:, :, ind] = \
-                   np.abs(fitEmis2D.sampler_dict['chain'][:, :, ind])
+            if ind is not None:
+                fitEmis2D.sampler_dict['flatchain'][:, ind] = \
+                       np.abs(fitEmis2D.sampler_dict['flatchain'][:, ind])
+                fitEmis2D.sampler_dict['chain'][:, :, ind] = \
+                       np.abs(fitEmis2D.sampler_dict['chain'][:, :, ind])
         else:
             raise ValueError
 
-- 
2.43.0


From 09210c12a8d5e785205d0f9bd9e0087c3f8f8683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:09 +0000
Subject: [PATCH 27/61] fix: allow repeated analysis of the same MCMC chain

---
 misfit/fit/fit_core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/misfit/fit/fit_core.py b/misfit/fit/fit_core.py
index 80923e1..96c8af2 100644
--- a/misfit/fit/fit_core.py
+++ b/misfit/fit/fit_core.py
@@ -953,6 +953,10 @@ def add_v_re_22(fitEmis2D):
         else:
             raise ValueError
 
+    # Only the free parameters: drop derived values from a previous analysis of this chain
+    fitEmis2D.sampler_dict['flatchain'] = \
+            fitEmis2D.sampler_dict['flatchain'][:, :fitEmis2D.kinModel.n_free_param]
+
     i_free = 0
     len_chain = fitEmis2D.sampler_dict['flatchain'].shape[0]
     for i in range(len(fitEmis2D.kinModel.theta)):
-- 
2.43.0


From a277c46f6d8037909f363e5b721225ce789fff61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:09 +0000
Subject: [PATCH 28/61] fix: 1 sigma errors of all groups of linked posteriors

---
 misfit/fit/fit_core.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/misfit/fit/fit_core.py b/misfit/fit/fit_core.py
index 96c8af2..d591214 100644
--- a/misfit/fit/fit_core.py
+++ b/misfit/fit/fit_core.py
@@ -1075,9 +1075,8 @@ def get_param_posterior_bestfits(fitEmis2D):
     #       eg, theta_linked_posteriors.
     # eg, for V_a and r_t mcmc based on best-fit value for V(R_E):
     if fitEmis2D.theta_linked_posteriors is not None:
-        mcmc_lims_zip = list(zip(*mcmc_limits))
-
         for i in range(len(fitEmis2D.theta_linked_posteriors)):
+            mcmc_lims_zip = list(zip(*mcmc_limits))
             mcmc_peak, mcmc_uncertainties_1sig = \
                     utils.get_bestfit_values_linked(fitEmis2D,
                     mcmc_uncertainties_1sig, mcmc_lims_zip,
-- 
2.43.0


From b7431065f63f494521fcad4f10897321bcc8aadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:09 +0000
Subject: [PATCH 29/61] fix: analyze chains with constant values, eg of a fixed
 dispersion

---
 misfit/general/general_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/misfit/general/general_utils.py b/misfit/general/general_utils.py
index 5fcf554..0f5fb28 100644
--- a/misfit/general/general_utils.py
+++ b/misfit/general/general_utils.py
@@ -209,6 +209,10 @@ def find_peak_gaussian_KDE(flatchain, initval):
     if nparams > 1:
         peakvals = np.zeros(nparams)
         for i in range(nparams):
+            if flatchain[:,i].min() == flatchain[:,i].max():
+                # No spread, eg values derived from only fixed parameters
+                peakvals[i] = flatchain[0,i]
+                continue
             kern = gaussian_kde(flatchain[:,i])
             peakvals[i] = fmin(lambda x: -kern(x), initval[i], disp=False)
         return peakvals
-- 
2.43.0


From 4937e020c10f31a63de2526241531ff99a0112a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:09 +0000
Subject: [PATCH 30/61] fix: peak of the posterior of a single parameter

---
 misfit/general/general_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/misfit/general/general_utils.py b/misfit/general/general_utils.py
index 0f5fb28..d5c3edd 100644
--- a/misfit/general/general_utils.py
+++ b/misfit/general/general_utils.py
@@ -217,8 +217,8 @@ def find_peak_gaussian_KDE(flatchain, initval):
             peakvals[i] = fmin(lambda x: -kern(x), initval[i], disp=False)
         return peakvals
     else:
-        neg_kernel = gaussian_KDE_kernel_func(flatchain)
-        peakval = fmin(neg_kernel, initval, disp=False)
+        kern = gaussian_kde(np.ravel(flatchain))
+        peakval = fmin(lambda x: -kern(x), initval, disp=False)
 
         return peakval
 
-- 
2.43.0


From 207182e383c286e74b24a68694ae5a1ac927bbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:09 +0000
Subject: [PATCH 31/61] fix: keep the subpixel rows of the model if
 rebin_output=False

---
 misfit/model/aper_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index fcd8a34..b890780 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -916,7 +916,7 @@ class AperModel2D(object):
         # The model is a flux density: average over the finer wavelength samples
         n_upsample = self.nWave/float(self.nWave_real)
         self.model_out = kfuncs.rebin(self.model_out,
-                            self.nWave_real, self.n_pix_y_whole)/n_upsample
+                            self.nWave_real, self.model_out.shape[1])/n_upsample
         # Reset other parameters to original values:
         self.wave_arr = self.wave_arr_real.copy()
         self.nWave = self.nWave_real
-- 
2.43.0


From d1da17730d4c443205970e60bb06db2cefaffae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:12 +0000
Subject: [PATCH 32/61] fix: box integration of images for aligned pixel edges
 and finer pixels

Pixels whose edge coincides with that of the new pixel were counted twice, pixels wider
than the new pixel were not cut to it, and the image contributed negatively outside its
edges.
---
 misfit/plot/plot_image_slit.py | 44 ++++++----------------------------
 1 file changed, 7 insertions(+), 37 deletions(-)

diff --git a/misfit/plot/plot_image_slit.py b/misfit/plot/plot_image_slit.py
index 0fd1f63..012160f 100644
--- a/misfit/plot/plot_image_slit.py
+++ b/misfit/plot/plot_image_slit.py
@@ -502,46 +502,16 @@ def box_integrate(x, y, x_new, debug=False):
         low = x_new[i] - delt_x_new/2.
         high = x_new[i] + delt_x_new/2.
 
-        # Initialize integrated value:
-        int_y = 0.
+        # Overlap of each of the original pixels with that interval:
+        #   x_new may extend further than the original x -- the missing data is
+        #   implicitly zero.
+        overlap = np.minimum(x_high, high) - np.maximum(x_low, low)
+        ind = np.where(overlap > 0.)[0]
 
-        try:
-            # Pixels wholly contained within the new range:
-            c_l = np.where(x_low >= low)[0]
-            c_r = np.where(x_high <= high)[0]
-            ind_c = np.array(list(set(c_l) & set(c_r)))
-            ind_c.sort()
-
-            int_y += np.sum(y[ind_c])*delt_x
-        except:
-            ind_c = 'None'
-
-
-        # For outside edges: wrap in try..except
-        #   to cover case of x_new extending further than
-        #   original x -- the missing data will implicitly be zero.
-        try:
-            # Find element of x_low just lower than low
-            ind_l = np.where(x_low <= low)[0].max()
-            # range corresponding to this interval:
-            # (x_high[ind_l] - low)
-
-            int_y += y[ind_l]*(x_high[ind_l]-low)
-        except:
-            ind_l = 'None'
-
-        try:
-            # find element of x_high just higher than high
-            ind_r = np.where(x_high >= high)[0].min()
-            # range corresponding to this interval:
-            # (high - x_low[ind_r])
-
-            int_y += y[ind_r]*(high-x_low[ind_r])
-        except:
-            ind_r = 'None'
+        int_y = np.sum(y[ind]*overlap[ind])
 
         if debug:
-            print("indicies = {:d} {:d} {:d}".format(ind_l, ind_c, ind_r) )
+            print("indicies = {}".format(ind))
 
 
         y_new[i] = int_y/delt_x_new
-- 
2.43.0


From 9d5329ab49c39ceea1703b4805f1a9d8381911f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:12 +0000
Subject: [PATCH 33/61] fix: sign_from_pos_angle for float angles above 180
 degrees

---
 misfit/plot/plot_utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/misfit/plot/plot_utils.py b/misfit/plot/plot_utils.py
index 88b415c..6683f98 100644
--- a/misfit/plot/plot_utils.py
+++ b/misfit/plot/plot_utils.py
@@ -68,8 +68,7 @@ def sign_from_pos_angle(pos_angle):
         pos_angle += 360.
 
     if pos_angle > 180.:
-        PA_old = pos_angle.copy()
-        pos_angle = 360. - PA_old
+        pos_angle = 360. - pos_angle
 
     if pos_angle > 90.:
         return -1.
-- 
2.43.0


From 83e2a2677c1ac3dfdd62bc9ac584d17db426cca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:12 +0000
Subject: [PATCH 34/61] fix: center the stamp convolving galaxy images

---
 misfit/plot/plot_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/misfit/plot/plot_utils.py b/misfit/plot/plot_utils.py
index 6683f98..6a43f12 100644
--- a/misfit/plot/plot_utils.py
+++ b/misfit/plot/plot_utils.py
@@ -214,8 +214,9 @@ def convolve_rot_gal(galaxy=None, instrument=None, instrument_img=None,
                 endpoint=False)
     #cent = [y0_rot, x0_rot]
 
-    xoff = x - x0_rot
-    yoff = y - y0_rot
+    # The convolution stamp must be centered for the galaxy to stay at x0_rot, y0_rot:
+    xoff = x - x[(len(x)-1)//2]
+    yoff = y - y[(len(y)-1)//2]
     xoffarc = xoff * instrument_img.pixscale
     yoffarc = yoff * instrument_img.pixscale
 
-- 
2.43.0


From b53fa88c6c00b25b6e7c8c31ab23d82faf1e9659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:03 +0000
Subject: [PATCH 35/61] fix: let the in-slit Gaussian fit start when the slit
 is sampled by few pixels

---
 misfit/model/kin_functions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/misfit/model/kin_functions.py b/misfit/model/kin_functions.py
index 38e9409..0a4605b 100644
--- a/misfit/model/kin_functions.py
+++ b/misfit/model/kin_functions.py
@@ -533,7 +533,12 @@ def lmfit_gaussian(x_arr, y_arr, y_err=None):
     params = lmfit.Parameters()
     params.add('mu', value=x_arr[y_arr.argmax()], vary=True)
     params.add('A', value=y_arr.max(), vary=True)
-    params.add('FWHM', value=(x_arr.max()-x_arr.min())/10., vary=True, min=0.)
+    # The initial width must be resolved by the sampling: otherwise the model is 0 everywhere
+    #   but at the peak, and the fit cannot start.
+    FWHM_init = (x_arr.max()-x_arr.min())/10.
+    if len(x_arr) > 1:
+        FWHM_init = max(FWHM_init, (x_arr.max()-x_arr.min())/(len(x_arr)-1.))
+    params.add('FWHM', value=FWHM_init, vary=True, min=0.)
 
     result = lmfit.minimize(gaus_residual_FWHM, params,
                 args=(x_arr, y_arr, y_err))
-- 
2.43.0


From 9ff12b265c3235d99dfaa1c07899a7728d3837f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:42 +0000
Subject: [PATCH 36/61] fix: exclude masked pixels when scaling the model rows
 to the data

---
 misfit/fit/fit_core.py    |  1 +
 misfit/model/kin_model.py | 10 ++++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/misfit/fit/fit_core.py b/misfit/fit/fit_core.py
index d591214..7a1c54f 100644
--- a/misfit/fit/fit_core.py
+++ b/misfit/fit/fit_core.py
@@ -838,6 +838,7 @@ def make_pruned_fitEmis2D_class(fitEmis2D):
     spec2D.lam0 = None
     spec2D.m0 = None
     spec2D.wh_nosky = None
+    spec2D.mask_qual = None
     spec2D.restwave_arr = None
     spec2D.wave = None
     spec2D.fitting_weight_matrix = None
diff --git a/misfit/model/kin_model.py b/misfit/model/kin_model.py
index 048011e..ea4bdfc 100644
--- a/misfit/model/kin_model.py
+++ b/misfit/model/kin_model.py
@@ -152,9 +152,15 @@ class KinModel2D(object):
         # Use the galaxy spectrum to scale the model:
         wh_no_sky = galaxy.spec2D.wh_nosky.copy()
 
-        num_arr = np.sum(galaxy.spec2D.flux[:,wh_no_sky]*self.model[:,wh_no_sky]/\
+        # Exclude masked pixels: use the data quality mask, so the low S/N rows are also scaled
+        mask = getattr(galaxy.spec2D, 'mask_qual', None)
+        if mask is None:
+            mask = galaxy.spec2D.spec_mask
+        mask = mask[:,wh_no_sky]
+
+        num_arr = np.sum(mask*galaxy.spec2D.flux[:,wh_no_sky]*self.model[:,wh_no_sky]/\
                             galaxy.spec2D.flux_err[:,wh_no_sky]**2, axis=1)
-        den_arr = np.sum(self.model[:,wh_no_sky]**2/galaxy.spec2D.flux_err[:,wh_no_sky]**2, axis=1)
+        den_arr = np.sum(mask*self.model[:,wh_no_sky]**2/galaxy.spec2D.flux_err[:,wh_no_sky]**2, axis=1)
 
         num_arr[~np.isfinite(num_arr)] = 0.
         num_arr[np.abs(den_arr) == 0.] = 0.
-- 
2.43.0


From a8fe153f86bc159f047c7bfdad671c2ed9444105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:09 +0000
Subject: [PATCH 37/61] fix: natural logarithm in the Gaussian log-likelihood
 normalisation

---
 misfit/model/kin_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/model/kin_model.py b/misfit/model/kin_model.py
index ea4bdfc..8b2b50b 100644
--- a/misfit/model/kin_model.py
+++ b/misfit/model/kin_model.py
@@ -363,7 +363,7 @@ def _model_llike(kinModel, model=None):
             ( kinModel.aperModel.galaxy.spec2D.fitting_weight_matrix * \
                  ((((kinModel.aperModel.galaxy.spec2D.flux-model))/\
                 kinModel.aperModel.galaxy.spec2D.flux_err)**2.) + \
-            np.log10(2.*np.pi*kinModel.aperModel.galaxy.spec2D.flux_err**2) )
+            np.log(2.*np.pi*kinModel.aperModel.galaxy.spec2D.flux_err**2) )
 
     # chisq_arr_raw_modified = kinModel.aperModel.galaxy.spec2D.spec_mask * \
     #         ( ((((kinModel.aperModel.galaxy.spec2D.flux-model))/\
-- 
2.43.0


From 64e0bf6d61ea80b9e600dbcb0e5fffc1261dcc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:31 +0000
Subject: [PATCH 38/61] fix: keep the PSF stamp of the 1D dispersion models,
 the instrument may be shared

---
 misfit/model/aper_model.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index b890780..6f95e49 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -181,10 +181,12 @@ class AperModel1DDisp(AperModel1DDispBase):
         cent = [np.mean(self.x_arr), np.mean(self.y_arr)]
         x_off_arc = self.x_arr-cent[0]
         y_off_arc = self.y_arr-cent[1]
-        conv_stamp = self.instrument.PSF.generate_conv_stamp(x_off_arc, y_off_arc)
-        self.instrument.PSF.set_conv_stamp(conv_stamp)
+        # Keep the stamp: the instrument may be shared with other models, on other grids.
+        self._conv_stamp = self.instrument.PSF.generate_conv_stamp(x_off_arc, y_off_arc)
 
     def calc_aper_correction(self):
+        self.instrument.PSF.set_conv_stamp(self._conv_stamp)
+
         self.sigma_ap = kfuncs.sigma_aper_dispersion(aperModel1DDisp = self,
                         re_arcsec=self.galaxy.re_arcsec_circ,
                         re_mass_arcsec=self.galaxy.re_mass_arcsec_circ)
@@ -220,10 +222,12 @@ class AperModel1DDispMisalign(AperModel1DDispBase):
         cent = [np.mean(self.x_arr), np.mean(self.y_arr)]
         x_off_arc = self.x_arr-cent[0]
         y_off_arc = self.y_arr-cent[1]
-        conv_stamp = self.instrument.PSF.generate_conv_stamp(x_off_arc, y_off_arc)
-        self.instrument.PSF.set_conv_stamp(conv_stamp)
+        # Keep the stamp: the instrument may be shared with other models, on other grids.
+        self._conv_stamp = self.instrument.PSF.generate_conv_stamp(x_off_arc, y_off_arc)
 
     def calc_aper_correction(self):
+        self.instrument.PSF.set_conv_stamp(self._conv_stamp)
+
         self.sigma_ap = kfuncs.sigma_aper_dispersion_misalign(aperModel1DDisp = self,
                         re_arcsec=self.galaxy.re_arcsec_circ,
                         re_mass_arcsec=self.galaxy.re_mass_arcsec_circ)
-- 
2.43.0


From 8afec7576e7f1f7614a721762046b56d6bf87ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:48 +0000
Subject: [PATCH 39/61] fix: trim the continuum arrays with the copy of a 2D
 spectrum

---
 misfit/general/galaxy_utils.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index 0331e37..851e945 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -158,6 +158,13 @@ def trim_spectrum_2D_wavelength(spec2D, galaxy,
                 spec2D_trim.spec_mask = spec2D.spec_mask[:,wh]
                 spec2D_trim.spec_weight = spec2D.spec_weight[:,wh]
 
+                try:
+                    spec2D_trim.flux_incl_cont = spec2D.flux_incl_cont[:,wh]
+                    spec2D_trim.cont_model = spec2D.cont_model[:,wh]
+                except:
+                    spec2D_trim.flux_incl_cont = None
+                    spec2D_trim.cont_model = None
+
                 spec2D_trim.calculate_restwave(galaxy)
             else:
                 spec2D_trim.wave = None
-- 
2.43.0


From 37cc9067acb0d93c6f06946792d7ee38723b3a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:43 +0000
Subject: [PATCH 40/61] fix: leave the input mask of mask_edges_1D unchanged

---
 misfit/general/galaxy_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index 851e945..35ad4a0 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -689,6 +689,8 @@ def mask_edges_1D(spec=None, spec_err=None, spec_mask=None,num_edge=10):
     Mask the edges of the spectrum, as these are often very noisy.
     """
 
+    spec_mask = spec_mask.copy()    # Don't change the input mask
+
     # Find the edges by the first, last non-zero spec_mask value
     unmasked_inds = np.where(spec_mask == 1)[0]
 
-- 
2.43.0


From 57b04b200811e7362ddf3bad574026a8730a79ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:10 +0000
Subject: [PATCH 41/61] fix: normalize spatial and wavelength profiles before
 fitting Gaussians to them

---
 misfit/general/galaxy_utils.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index 35ad4a0..f5b7d59 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -784,6 +784,18 @@ def wh_skylines_1D(err_spec, cutoff=None, median_err=None, full=False):
 
         return wh_cont, wh_cont_sky
 
+#
+def _normalize_profile(prof, prof_err):
+    """
+    Normalize a profile and its errors by the maximum absolute value, before fitting the shape:
+    lmfit treats starting values below ~1.e-15 (eg amplitudes for fluxes in cgs units) as 0.
+    """
+    scale = np.max(np.abs(prof)) if len(prof) > 0 else 0.
+    if (not np.isfinite(scale)) or (scale == 0.):
+        scale = 1.
+
+    return prof/scale, prof_err/scale
+
 #
 
 def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
@@ -820,8 +832,7 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
     sn_orig = np.abs(sp_sum_tmp/err_sum_tmp)
     sn_orig[~np.isfinite(sn_orig)] = 0.
 
-    sp_arr = sp_sum_tmp.copy()
-    err_arr = err_sum_tmp.copy()
+    sp_arr, err_arr = _normalize_profile(sp_sum_tmp, err_sum_tmp)
     snr_arr = sn_orig.copy()
 
 
@@ -1282,6 +1293,7 @@ def calculate_2D_fit_weights(spec2D):
         sum_arr = np.abs(np.sum(spec2D.flux_incl_cont*spec2D.mask_sky, axis=1))
         # Need to fit this to a gaussian:
         err_arr = np.abs(np.sum(spec2D.flux_err*spec2D.mask_sky, axis=1))
+        sum_arr, err_arr = _normalize_profile(sum_arr, err_arr)
         xx_arr = np.linspace(0,len(sum_arr), num=len(sum_arr), endpoint=False)
 
         params = lmfit.Parameters()
@@ -1353,6 +1365,7 @@ def get_m0_lam0_pos_2D(spec2D, galaxy):
     # Straight forward sum over the wavelength direction:
     y_prof = np.sum(spec, axis=1)
     y_prof_err = np.sqrt(np.sum(err**2, axis=1))
+    y_prof, y_prof_err = _normalize_profile(y_prof, y_prof_err)
     yy_arr = np.linspace(spec2D.m_lims[0], spec2D.m_lims[1],
                     num=(spec2D.m_lims[1]-spec2D.m_lims[0]), endpoint=False)
 
@@ -1362,6 +1375,7 @@ def get_m0_lam0_pos_2D(spec2D, galaxy):
     # Sum over spatial direction
     lam_prof = np.sum(spec, axis=0)
     lam_prof_err = np.sqrt(np.sum(err**2, axis=0))
+    lam_prof, lam_prof_err = _normalize_profile(lam_prof, lam_prof_err)
     lam_arr = spec2D.wave.copy()
 
     wh_not_mask_lam = spec2D.wh_nosky.copy()
@@ -1498,6 +1512,7 @@ def fit_emission_y_profile(spec2D, gal, inst, filename_plot=None, plot=False, nu
     n_spatial = spec2D.flux.shape[0]
     y_prof = np.sum(spec, axis=1)
     y_prof_err = np.sqrt(np.sum(err**2, axis=1))
+    y_prof, y_prof_err = _normalize_profile(y_prof, y_prof_err)
     yy_arr = np.linspace(spec2D.m_lims[0]*pixscale, spec2D.m_lims[1]*pixscale,
                     num=(spec2D.m_lims[1]-spec2D.m_lims[0]), endpoint=False)
 
-- 
2.43.0


From d6425e6e99ad13294a37d095955a4bb6da960754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:37 +0000
Subject: [PATCH 42/61] fix: start the 1D fit redshift off the center of its
 bounds

---
 misfit/fit/fit1D.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/misfit/fit/fit1D.py b/misfit/fit/fit1D.py
index 95c5267..0713b4b 100644
--- a/misfit/fit/fit1D.py
+++ b/misfit/fit/fit1D.py
@@ -204,13 +204,26 @@ class FitEmissionLines1D(object):
         self.galaxy.spec1D_trim.mask_edges()
 
     #
+    def add_z_param(self, params):
+        """
+        Add the redshift, starting from the current value, to the LMFIT parameters.
+        """
+        dz = self.del_obs_lam/self.restwave_arr[0][0]
+
+        # The finite difference steps of LMFIT are proportional to the offset from the center
+        #   of the bounds: don't start at the center, or z can be kept fixed by round-off.
+        z_init = self.z
+        if np.abs(z_init - self.galaxy.z) < 1.e-3*dz:
+            z_init = self.galaxy.z + 1.e-3*dz
+
+        params.add('z', value=z_init, min=self.galaxy.z-dz, max=self.galaxy.z+dz)
+
     def make_params(self, flux_bound=False, vel_disp_bound=False):
         """
         Initialize the LMFIT fitting parameters class with values and fit ranges.
         """
         params = lmfit.Parameters()
-        params.add('z', value=self.z, min=self.galaxy.z-self.del_obs_lam/self.restwave_arr[0][0],
-                    max=self.galaxy.z+self.del_obs_lam/self.restwave_arr[0][0])
+        self.add_z_param(params)
 
         if vel_disp_bound:
             params.add('vel_disp', value=self.vel_disp, min=0.)
@@ -450,8 +463,7 @@ class FitEmissionLines1D(object):
                     spec_perturb += self.galaxy.spec1D_trim.flux_err*rand_vals
 
                     params_best = lmfit.Parameters()
-                    params_best.add('z', value=self.z, min=self.galaxy.z-self.del_obs_lam/self.restwave_arr[0][0],
-                                max=self.galaxy.z+self.del_obs_lam/self.restwave_arr[0][0])
+                    self.add_z_param(params_best)
                     params_best.add('vel_disp', value=self.vel_disp)#, min=0.)
                     if fix_z:
                         params_best['z'].vary = False
-- 
2.43.0


From 6c92258d15c2b199ac36e1d88ad0cdc96effdfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:27 +0000
Subject: [PATCH 43/61] fix: fit 1D line fluxes relative to their scale

---
 misfit/fit/fit1D.py                  | 52 ++++++++++++++++++++--------
 misfit/model/emission_lines_model.py |  4 ++-
 2 files changed, 40 insertions(+), 16 deletions(-)

diff --git a/misfit/fit/fit1D.py b/misfit/fit/fit1D.py
index 0713b4b..1026042 100644
--- a/misfit/fit/fit1D.py
+++ b/misfit/fit/fit1D.py
@@ -242,6 +242,38 @@ class FitEmissionLines1D(object):
 
         return params
 
+    def minimize_spec(self, emisModel, params, flux):
+        """
+        Run LMFIT on a spectrum, for the fit window wavelengths, errors, and mask.
+        """
+        # LMFIT sets values < 1.e-15 to zero, so fit the line fluxes relative to their scale
+        scale = np.max(np.abs(self.flux_arr))
+        if not (np.isfinite(scale) and (scale > 0.)):
+            scale = 1.
+
+        for i in range(len(self.names_arr)):
+            params['flux'+str(i)].set(value=self.flux_arr[i]/scale)
+
+        emisModel.flux_scale = scale
+        result = lmfit.minimize(emisModel.residual1DProfile, params,
+                args=(self.galaxy.spec1D_trim.obswave, flux,
+                    self.galaxy.spec1D_trim.flux_err, self.galaxy.spec1D_trim.spec_mask))
+        emisModel.flux_scale = 1.
+
+        # Restore the physical units
+        for i in range(len(self.names_arr)):
+            par = result.params['flux'+str(i)]
+            stderr = par.stderr
+            par.value = par.value*scale
+            par.init_value = par.init_value*scale
+            if stderr is not None:
+                par.stderr = stderr*scale
+        if getattr(result, 'covar', None) is not None:
+            scales = np.array([scale if name.startswith('flux') else 1. for name in result.var_names])
+            result.covar = result.covar * np.outer(scales, scales)
+
+        return result
+
     def fit(self, reload_errors=False,
             noErrors=False, noPlot=False,
             plot_filename=None, err_filename=None,
@@ -316,26 +348,18 @@ class FitEmissionLines1D(object):
                         cont_order=self.cont_order, shape1D=self.shape1D)
 
         # Do the fitting:
-        result = lmfit.minimize(emisModel.residual1DProfile, params,
-                args=(self.galaxy.spec1D_trim.obswave, self.galaxy.spec1D_trim.flux,
-                    self.galaxy.spec1D_trim.flux_err, self.galaxy.spec1D_trim.spec_mask))
+        result = self.minimize_spec(emisModel, params, self.galaxy.spec1D_trim.flux)
 
         #raise ValueError
         if (result.params['vel_disp'].value < 0.) & (result.params['flux0'].value < 0.):
             params = self.make_params(vel_disp_bound=True, flux_bound=True)
-            result = lmfit.minimize(emisModel.residual1DProfile, params,
-                args=(self.galaxy.spec1D_trim.obswave, self.galaxy.spec1D_trim.flux,
-                    self.galaxy.spec1D_trim.flux_err, self.galaxy.spec1D_trim.spec_mask))
+            result = self.minimize_spec(emisModel, params, self.galaxy.spec1D_trim.flux)
         elif (result.params['vel_disp'].value < 0.):
             params = self.make_params(vel_disp_bound=True)
-            result = lmfit.minimize(emisModel.residual1DProfile, params,
-                args=(self.galaxy.spec1D_trim.obswave, self.galaxy.spec1D_trim.flux,
-                    self.galaxy.spec1D_trim.flux_err, self.galaxy.spec1D_trim.spec_mask))
+            result = self.minimize_spec(emisModel, params, self.galaxy.spec1D_trim.flux)
         elif (result.params['flux0'].value < 0.):
             params = self.make_params(flux_bound=True)
-            result = lmfit.minimize(emisModel.residual1DProfile, params,
-                args=(self.galaxy.spec1D_trim.obswave, self.galaxy.spec1D_trim.flux,
-                    self.galaxy.spec1D_trim.flux_err, self.galaxy.spec1D_trim.spec_mask))
+            result = self.minimize_spec(emisModel, params, self.galaxy.spec1D_trim.flux)
 
         #if not result.errorbars:
         #    fix_cont = True
@@ -479,9 +503,7 @@ class FitEmissionLines1D(object):
                             params_best['cont_coeff'+str(jj)].vary = False
 
                     #now fit the perturbed spectrum:
-                    result_mc = lmfit.minimize(emisModel.residual1DProfile, params_best,
-                            args=(self.galaxy.spec1D_trim.obswave, spec_perturb,
-                                self.galaxy.spec1D_trim.flux_err, self.galaxy.spec1D_trim.spec_mask))
+                    result_mc = self.minimize_spec(emisModel, params_best, spec_perturb)
 
 
                     if not noPlot:
diff --git a/misfit/model/emission_lines_model.py b/misfit/model/emission_lines_model.py
index 1a51f32..e1e55b2 100644
--- a/misfit/model/emission_lines_model.py
+++ b/misfit/model/emission_lines_model.py
@@ -78,6 +78,8 @@ class EmissionLinesSpectrum1DModel(object):
 
         self.obswave_arr = None
 
+        self.flux_scale = 1.    # units of the flux parameters [erg/s/cm2]
+
         #self.profile = None
 
         self.setAttr(**kwargs)
@@ -105,7 +107,7 @@ class EmissionLinesSpectrum1DModel(object):
         #
         flux_arr = np.array([])
         for i in range(len(self.names_arr)):
-            flux_arr = np.append(flux_arr, params['flux'+str(i)].value)
+            flux_arr = np.append(flux_arr, params['flux'+str(i)].value*self.flux_scale)
 
         # Update values
         self.obswave_arr = obswave_arr
-- 
2.43.0


From 2519d7ce3b164e3757fef932467f8a56b05d860b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:10 +0000
Subject: [PATCH 44/61] fix: take the scalar peak of each parameter's KDE

---
 misfit/general/general_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/general/general_utils.py b/misfit/general/general_utils.py
index d5c3edd..1543770 100644
--- a/misfit/general/general_utils.py
+++ b/misfit/general/general_utils.py
@@ -214,7 +214,7 @@ def find_peak_gaussian_KDE(flatchain, initval):
                 peakvals[i] = flatchain[0,i]
                 continue
             kern = gaussian_kde(flatchain[:,i])
-            peakvals[i] = fmin(lambda x: -kern(x), initval[i], disp=False)
+            peakvals[i] = fmin(lambda x: -kern(x), initval[i], disp=False)[0]
         return peakvals
     else:
         kern = gaussian_kde(np.ravel(flatchain))
-- 
2.43.0


From a2057ae39d407d85dbda2d9cc14830085b0f0e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:35 +0000
Subject: [PATCH 45/61] fix: measure 2 sigma errors of linked parameters from
 the reported best values

---
 misfit/fit/fit_core.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/misfit/fit/fit_core.py b/misfit/fit/fit_core.py
index 7a1c54f..4c4ca19 100644
--- a/misfit/fit/fit_core.py
+++ b/misfit/fit/fit_core.py
@@ -1085,11 +1085,9 @@ def get_param_posterior_bestfits(fitEmis2D):
             fitEmis2D.mcmc_results.bestfit_theta = mcmc_peak
             fitEmis2D.mcmc_results.err_theta_1sig = mcmc_uncertainties_1sig
 
-            mcmc_lims_zip = list(zip(*mcmc_limits_2sig))
-            mcmc_peak, mcmc_uncertainties_2sig = \
-                    utils.get_bestfit_values_linked(fitEmis2D,
-                    mcmc_uncertainties_2sig, mcmc_lims_zip,
-                    theta_linked_posteriors=fitEmis2D.theta_linked_posteriors[i]) #, debug=True)
+            # 2sig uncertainties: relative to the same best-fit values
+            mcmc_uncertainties_2sig = np.array([mcmc_peak-mcmc_limits_2sig[0],
+                                                mcmc_limits_2sig[1]-mcmc_peak]).T
             fitEmis2D.mcmc_results.err_theta_2sig = mcmc_uncertainties_2sig
 
     #############################################################################
-- 
2.43.0


From e9253865d24760a3a74da6cff6d0a3c14d3c0007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:19 +0000
Subject: [PATCH 46/61] fix: search for posterior peaks in units of each
 parameter's spread

---
 misfit/general/general_utils.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/misfit/general/general_utils.py b/misfit/general/general_utils.py
index 1543770..28f11b8 100644
--- a/misfit/general/general_utils.py
+++ b/misfit/general/general_utils.py
@@ -213,14 +213,10 @@ def find_peak_gaussian_KDE(flatchain, initval):
                 # No spread, eg values derived from only fixed parameters
                 peakvals[i] = flatchain[0,i]
                 continue
-            kern = gaussian_kde(flatchain[:,i])
-            peakvals[i] = fmin(lambda x: -kern(x), initval[i], disp=False)[0]
+            peakvals[i] = find_peak_gaussian_KDE_scaled(flatchain[:,i], initval[i])[0]
         return peakvals
     else:
-        kern = gaussian_kde(np.ravel(flatchain))
-        peakval = fmin(lambda x: -kern(x), initval, disp=False)
-
-        return peakval
+        return find_peak_gaussian_KDE_scaled(np.ravel(flatchain), initval)
 
 
 def find_peak_gaussian_KDE_multiD(flatchain, linked_inds, initval):
@@ -229,10 +225,24 @@ def find_peak_gaussian_KDE_multiD(flatchain, linked_inds, initval):
     """
 
     nparams = len(linked_inds)
-    kern = gaussian_kde(flatchain[:,linked_inds].T)
-    peakvals = fmin(lambda x: -kern(x), initval, disp=False)
+    return find_peak_gaussian_KDE_scaled(flatchain[:,linked_inds].T, initval)
+
+
+def find_peak_gaussian_KDE_scaled(samples, initval):
+    """
+    Peak of the KDE of samples, with shape (nparams, nsamples), starting from initval.
+    Searches in units of the spread of each parameter, so the tolerances of the
+    search do not depend on the units (or relative scales) of the parameters.
+    """
+    samples = np.atleast_2d(samples)
+    initval = np.atleast_1d(initval)
+    scale = samples.std(axis=1)
+
+    kern = gaussian_kde((samples-initval[:,np.newaxis])/scale[:,np.newaxis])
+    simplex = np.vstack([np.zeros(len(scale)), 0.1*np.eye(len(scale))])
+    peak = fmin(lambda x: -kern(x)[0], np.zeros(len(scale)), initial_simplex=simplex, disp=False)
 
-    return peakvals
+    return initval + peak*scale
 
 
 
-- 
2.43.0


From d27719a224fc9e8de6d7a9b14422932ac055cb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:38 +0000
Subject: [PATCH 47/61] fix: the corner plot no longer fails when corner is
 asked to set titles for four quantiles

---
 misfit/plot/plot_mcmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/plot/plot_mcmc.py b/misfit/plot/plot_mcmc.py
index 7e189e2..0d5b665 100644
--- a/misfit/plot/plot_mcmc.py
+++ b/misfit/plot/plot_mcmc.py
@@ -47,7 +47,7 @@ def plot_param_corner(fitEmis2D, fileout=None,verbose=False,showLinked=True,
                             quantiles= [.02275, 0.15865, 0.84135, .97725],
                             truths=truths,
                             plot_datapoints=False,
-                            show_titles=True,
+                            show_titles=False,      # The titles are set below
                             bins=40,
                             plot_contours=True,
                             verbose=verbose)
-- 
2.43.0


From 8d433fa2cbef0d88ea7b7acccc9bda9c87c2ea78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:23 +0000
Subject: [PATCH 48/61] fix: the corner plot works when the dispersion is not a
 free parameter

---
 misfit/plot/plot_mcmc.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/misfit/plot/plot_mcmc.py b/misfit/plot/plot_mcmc.py
index 0d5b665..fea3c0d 100644
--- a/misfit/plot/plot_mcmc.py
+++ b/misfit/plot/plot_mcmc.py
@@ -146,18 +146,20 @@ def plot_param_corner(fitEmis2D, fileout=None,verbose=False,showLinked=True,
                             xytext=(0,2), textcoords='offset points',
                             ha='left', va='bottom')
 
-    # Annotate sigma
-    wh_sig = np.where(np.array(fitEmis2D.mcmc_results.theta_names) == 'sigma0')[0][0]
-    val = "%3.2f" % fitEmis2D.mcmc_results.bestfit_theta[wh_sig]
-    lower = "%3.2f" % fitEmis2D.mcmc_results.err_theta_1sig[wh_sig][0]
-    upper = "%3.2f" % fitEmis2D.mcmc_results.err_theta_1sig[wh_sig][1]
-    if usetex:
-        sig_string = r"$\sigma="+val+"^{"+upper+r"}_{"+lower+"}$"
-    else:
-        sig_string = "sigma="+val+"-"+lower+"+"+upper
-    fig.gca().annotate(sig_string, xy=(.33, 0.), xycoords="figure fraction",
-                        xytext=(0,2), textcoords="offset points",
-                        ha="right", va="bottom")
+    # Annotate sigma, if it is a free parameter
+    wh_sig = np.where(np.array(fitEmis2D.mcmc_results.theta_names) == 'sigma0')[0]
+    if len(wh_sig) > 0:
+        wh_sig = wh_sig[0]
+        val = "%3.2f" % fitEmis2D.mcmc_results.bestfit_theta[wh_sig]
+        lower = "%3.2f" % fitEmis2D.mcmc_results.err_theta_1sig[wh_sig][0]
+        upper = "%3.2f" % fitEmis2D.mcmc_results.err_theta_1sig[wh_sig][1]
+        if usetex:
+            sig_string = r"$\sigma="+val+"^{"+upper+r"}_{"+lower+"}$"
+        else:
+            sig_string = "sigma="+val+"-"+lower+"+"+upper
+        fig.gca().annotate(sig_string, xy=(.33, 0.), xycoords="figure fraction",
+                            xytext=(0,2), textcoords="offset points",
+                            ha="right", va="bottom")
 
 
     # Annotate V(R_E)
-- 
2.43.0


From 6a55ad24682410c89e31ea476321b53cd93f9dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:09 +0000
Subject: [PATCH 49/61] fix: the corner plot overlays the constant-velocity
 curves only for linked velocity parameters, at the radii of V(R_E) and V(2.2)

---
 misfit/plot/plot_mcmc.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/misfit/plot/plot_mcmc.py b/misfit/plot/plot_mcmc.py
index fea3c0d..98c7976 100644
--- a/misfit/plot/plot_mcmc.py
+++ b/misfit/plot/plot_mcmc.py
@@ -82,9 +82,17 @@ def plot_param_corner(fitEmis2D, fileout=None,verbose=False,showLinked=True,
 
     # If linked results:
     if (fitEmis2D.theta_linked_posteriors is not None) & (showLinked):
+        # Linked parameters are counted among the free parameters, as in the chain:
+        inds_vary = np.where(fitEmis2D.kinModel.theta_vary)[0]
         for j in range(len(fitEmis2D.theta_linked_posteriors)):
-            ind = fitEmis2D.theta_linked_posteriors[j][0] + fitEmis2D.theta_linked_posteriors[j][1]*\
-                    samples.shape[1]
+            # Only show for the pair of velocity profile parameters, with the first free:
+            if isinstance(fitEmis2D.theta_linked_posteriors[j], str):
+                continue
+            linked = np.sort(fitEmis2D.theta_linked_posteriors[j])
+            if (len(linked) != 2) or (linked[1] >= len(inds_vary)) or (inds_vary[linked[0]] != 0) or \
+                    (inds_vary[linked[1]] >= fitEmis2D.kinModel.kinProfile.velProfile.n_params):
+                continue
+            ind = linked[0] + linked[1]*samples.shape[1]
 
             xlim = axes[ind].get_xlim()
             ylim = axes[ind].get_ylim()
@@ -100,8 +108,8 @@ def plot_param_corner(fitEmis2D, fileout=None,verbose=False,showLinked=True,
             theta_orig = fitEmis2D.kinModel.kinProfile.theta.copy()
             len_tmp = len(col2arr)
             for i in range(len(fitEmis2D.kinModel.kinProfile.theta)):
-                if i in fitEmis2D.theta_linked_posteriors[j]:
-                    if i == fitEmis2D.theta_linked_posteriors[j][0]:
+                if i in inds_vary[linked]:
+                    if i == inds_vary[linked[0]]:
                         theta_tmp = np.array([np.ones(len_tmp)])
                     else:
                         # The fixed dimension:
@@ -118,8 +126,8 @@ def plot_param_corner(fitEmis2D, fileout=None,verbose=False,showLinked=True,
 
             fitEmis2D.kinProfile.update_theta(theta_tmp)
 
-            V_re_arr_dummy = fitEmis2D.kinModel.kinProfile.vel(fitEmis2D.galaxy.re_arcsec, 0.)
-            V_22_arr_dummy = fitEmis2D.kinModel.kinProfile.vel(2.2/1.676 * fitEmis2D.galaxy.re_arcsec, 0.)
+            V_re_arr_dummy = fitEmis2D.kinModel.kinProfile.vel(fitEmis2D.galaxy.re_mass_arcsec, 0.)
+            V_22_arr_dummy = fitEmis2D.kinModel.kinProfile.vel(2.2/1.676 * fitEmis2D.galaxy.re_mass_arcsec, 0.)
 
 
             fitEmis2D.kinProfile.theta = theta_orig
-- 
2.43.0


From 40cd26f02cffcb222fc52bdb971fa2d024119b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:16 +0000
Subject: [PATCH 50/61] fix: the best-fit plot marks the columns excluded from
 the fit

---
 misfit/plot/plot_bestfit.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/misfit/plot/plot_bestfit.py b/misfit/plot/plot_bestfit.py
index e5ded5f..1a246fa 100644
--- a/misfit/plot/plot_bestfit.py
+++ b/misfit/plot/plot_bestfit.py
@@ -261,7 +261,7 @@ def plot_bestfit_model(fitEmis2D, fileout=None, noTitles=False,
             if fitEmis2D.kinModel is not None:
                 axes[3].axvline(x=low, ls=ls, color=column_color)
                 axes[4].axvline(x=low, ls=ls, color=column_color)
-        if hi != n_sp-1:
+        if hi != n_wave-1:
             hi += 0.5 # top of pixel
             axes[2].axvline(x=hi, ls=ls, color=column_color)
             if fitEmis2D.kinModel is not None:
@@ -276,27 +276,25 @@ def plot_bestfit_model(fitEmis2D, fileout=None, noTitles=False,
     hatch_pattern = '//'
     lw_edge_hatch = 0
     for wh in wh_cont:
-        if len(wh_cont) == 1:
-            wh_cont = [wh_cont[0], wh_cont[0]]
-        axes[2].add_patch(Polygon([[-pad,wh_cont[0]-pad],
-                        [n_wave-pad, wh_cont[0]-pad],
-                        [n_wave-pad, wh_cont[-1]+1-pad],
-                        [-pad, wh_cont[-1]+1-pad]],
+        axes[2].add_patch(Polygon([[wh[0]-pad,-pad],
+                        [wh[-1]+1-pad, -pad],
+                        [wh[-1]+1-pad, n_sp-pad],
+                        [wh[0]-pad, n_sp-pad]],
                         closed=True,
                         lw=lw_edge_hatch,
                         fill=False, color = color_hatch))
         if fitEmis2D.kinModel is not None:
-            axes[3].add_patch(Polygon([[-pad,wh_cont[0]-pad],
-                            [n_wave-pad, wh_cont[0]-pad],
-                            [n_wave-pad, wh_cont[-1]+1-pad],
-                            [-pad, wh_cont[-1]+1-pad]],
+            axes[3].add_patch(Polygon([[wh[0]-pad,-pad],
+                            [wh[-1]+1-pad, -pad],
+                            [wh[-1]+1-pad, n_sp-pad],
+                            [wh[0]-pad, n_sp-pad]],
                             closed=True,
                             lw=lw_edge_hatch,
                             fill=False, hatch=hatch_pattern, color=color_hatch))
-            axes[4].add_patch(Polygon([[-pad,wh_cont[0]-pad],
-                            [n_wave-pad, wh_cont[0]-pad],
-                            [n_wave-pad, wh_cont[-1]+1-pad],
-                            [-pad, wh_cont[-1]+1-pad]],
+            axes[4].add_patch(Polygon([[wh[0]-pad,-pad],
+                            [wh[-1]+1-pad, -pad],
+                            [wh[-1]+1-pad, n_sp-pad],
+                            [wh[0]-pad, n_sp-pad]],
                             closed=True,
                             lw=lw_edge_hatch,
                             fill=False, hatch=hatch_pattern, color=color_hatch))
-- 
2.43.0


From 0f8cf88d6209218914128919684a57325eb67960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:05 +0000
Subject: [PATCH 51/61] fix: the best-fit plot can show the data alone, before
 there is a model

---
 misfit/plot/plot_bestfit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/plot/plot_bestfit.py b/misfit/plot/plot_bestfit.py
index 1a246fa..873c722 100644
--- a/misfit/plot/plot_bestfit.py
+++ b/misfit/plot/plot_bestfit.py
@@ -76,7 +76,7 @@ def plot_bestfit_model(fitEmis2D, fileout=None, noTitles=False,
 
     #
     # Pstamp + slit plot, image convolved to spectrum resolution:
-    if fitEmis2D.kinModel.bestfit is not None:
+    if (fitEmis2D.kinModel is not None) and (fitEmis2D.kinModel.bestfit is not None):
         m0shift = fitEmis2D.kinModel.bestfit.theta[-2]
     else:
         m0shift = 0.
-- 
2.43.0


From 851a822b4ad0ba9174cab2768ffb26c43f6baebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:35 +0000
Subject: [PATCH 52/61] fix: the trace plot is shown when no output file is
 given

---
 misfit/plot/plot_trace.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/misfit/plot/plot_trace.py b/misfit/plot/plot_trace.py
index 6838f2c..f619a2e 100644
--- a/misfit/plot/plot_trace.py
+++ b/misfit/plot/plot_trace.py
@@ -80,8 +80,11 @@ def plot_trace(sampler_dict, fitEmis2D, fileout=None, usetex=True):
 
     #############################################################
     # Save to file:
-    plt.savefig(fileout, bbox_inches='tight', dpi=300)
-    plt.close()
+    if fileout is not None:
+        plt.savefig(fileout, bbox_inches='tight', dpi=300)
+        plt.close(f)
+    else:
+        plt.show()
 
 
     return None
-- 
2.43.0


From b11f281097c72cb5c522334fea1554213719ccc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:01 +0000
Subject: [PATCH 53/61] fix: the corner plot's annotation is valid mathtext

---
 misfit/plot/plot_mcmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/plot/plot_mcmc.py b/misfit/plot/plot_mcmc.py
index 98c7976..3820db5 100644
--- a/misfit/plot/plot_mcmc.py
+++ b/misfit/plot/plot_mcmc.py
@@ -147,7 +147,7 @@ def plot_param_corner(fitEmis2D, fileout=None,verbose=False,showLinked=True,
 
     # Annotate R_E, n
     if usetex:
-        galparam_str = r'$n=%0.2f$, $R_E=%0.2f "$' % (fitEmis2D.galaxy.n, fitEmis2D.galaxy.re_arcsec)
+        galparam_str = r'$n=%0.2f$, $R_E=%0.2f$ "' % (fitEmis2D.galaxy.n, fitEmis2D.galaxy.re_arcsec)
     else:
         galparam_str = r'n=%0.2f, RE=%0.2f "' % (fitEmis2D.galaxy.n, fitEmis2D.galaxy.re_arcsec)
     fig.gca().annotate(galparam_str, (0.01, 0.), xycoords='figure fraction',
-- 
2.43.0


From d61651dce4e6834bae18e795bb0a2fb5de00bf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:20 +0000
Subject: [PATCH 54/61] fix: the corner plot can show quantities that do not
 vary

---
 misfit/plot/plot_mcmc.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/misfit/plot/plot_mcmc.py b/misfit/plot/plot_mcmc.py
index 3820db5..36887c9 100644
--- a/misfit/plot/plot_mcmc.py
+++ b/misfit/plot/plot_mcmc.py
@@ -43,8 +43,17 @@ def plot_param_corner(fitEmis2D, fileout=None,verbose=False,showLinked=True,
     samples = fitEmis2D.sampler_dict['flatchain'][:,:-2]
 
 
+    # Quantities that do not vary (eg, V_RE for a fixed velocity profile) have no range of their own:
+    ranges = []
+    for i in range(samples.shape[1]):
+        lims = [samples[:,i].min(), samples[:,i].max()]
+        if lims[0] == lims[1]:
+            lims = [lims[0] - max(1., np.abs(lims[0])), lims[1] + max(1., np.abs(lims[1]))]
+        ranges.append(lims)
+
     fig = corner.corner(samples, labels=fitEmis2D.mcmc_results.theta_names_nice,
                             quantiles= [.02275, 0.15865, 0.84135, .97725],
+                            range=ranges,
                             truths=truths,
                             plot_datapoints=False,
                             show_titles=False,      # The titles are set below
-- 
2.43.0


From 79cb7bb89043f7b128b7ea04696c5b36d64b6ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:36 +0000
Subject: [PATCH 55/61] fix: the slit overlay works for a spectrograph without
 a slit length

---
 misfit/plot/plot_image_slit.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/misfit/plot/plot_image_slit.py b/misfit/plot/plot_image_slit.py
index 012160f..d124746 100644
--- a/misfit/plot/plot_image_slit.py
+++ b/misfit/plot/plot_image_slit.py
@@ -281,9 +281,8 @@ def plot_image_slit(galaxy=None, instrument=None,
     ############################################################
     # Do calculations for slit:
     slit_wid = instrument.slit_width
-    try:
-        slit_len = instrument.slit_length
-    except:
+    slit_len = getattr(instrument, 'slit_length', None)
+    if slit_len is None:
         slit_len = np.shape(pstamp_trim)[0]+20.
 
     if rotate is True:
-- 
2.43.0


From e5de634d804d367ae29f799867dd109563545268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:02 +0000
Subject: [PATCH 56/61] fix: the image can be plotted without the galaxy's
 ellipse

---
 misfit/plot/plot_image_slit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/misfit/plot/plot_image_slit.py b/misfit/plot/plot_image_slit.py
index d124746..29a789b 100644
--- a/misfit/plot/plot_image_slit.py
+++ b/misfit/plot/plot_image_slit.py
@@ -105,6 +105,8 @@ def plot_image_slit(galaxy=None, instrument=None,
         x0_galfit, y0_galfit = w.wcs_world2pix(galaxy.sersicRA, galaxy.sersicDEC, originWCS)
         x0_galfit -= 1. # Convert to np pixel coords
         y0_galfit -= 1. # Convert to np pixel coords
+    else:
+        x0_galfit, y0_galfit = x0WCS_sci.copy(), y0WCS_sci.copy()
 
     # x is column, y is row: arrays are row, column
     cent_pix= np.array([(np.shape(galaxy.pstamp.pstamp)[1]-1)/2.,
-- 
2.43.0


From a201e634eddd6905d40af195a579e2a0cf147453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:25 +0000
Subject: [PATCH 57/61] fix: the ellipse and annotation on the image use
 matplotlib's current signatures

---
 misfit/plot/plot_image_slit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/misfit/plot/plot_image_slit.py b/misfit/plot/plot_image_slit.py
index 29a789b..07d9aaa 100644
--- a/misfit/plot/plot_image_slit.py
+++ b/misfit/plot/plot_image_slit.py
@@ -375,7 +375,7 @@ def plot_image_slit(galaxy=None, instrument=None,
             ############
             # Information in sub-title:
             if external_ax is False:
-                ax.annotate(s=s, xy=[.5, 0.05], xycoords='figure fraction',
+                ax.annotate(s, xy=[.5, 0.05], xycoords='figure fraction',
                             ha='center', va='bottom')
             if verbose:
                 print("% misfit.plot.plot_image_slit:")
@@ -405,7 +405,7 @@ def plot_image_slit(galaxy=None, instrument=None,
 
             # Plot ellipse:
             ell = Ellipse((x0_gal,y0_gal), 2.*semi_minor/pscale,
-                            2.*semi_major/pscale, galfit_angle,
+                            2.*semi_major/pscale, angle=galfit_angle,
                             ec='blue', fc='none', fill=False, zorder=11)
 
             ####################################
-- 
2.43.0


From 5e08487e715bec0b5a36c57e135b12983cf2fbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:11 +0000
Subject: [PATCH 58/61] fix: the slit is offset by yoffset arcsec on the image
 at its own pixel scale

---
 misfit/plot/plot_image_slit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/plot/plot_image_slit.py b/misfit/plot/plot_image_slit.py
index 07d9aaa..a0f5e02 100644
--- a/misfit/plot/plot_image_slit.py
+++ b/misfit/plot/plot_image_slit.py
@@ -299,7 +299,7 @@ def plot_image_slit(galaxy=None, instrument=None,
             slit_angle = galaxy.spec1D.slit_PA - galaxy.pstamp.img_PA
 
     # Offset in slit coords -- pixels
-    y0_off = galaxy.spec2D.yoffset/instrument.pixscale
+    y0_off = galaxy.spec2D.yoffset/pscale
 
     ##############
     # Corner coords: slit rectangle
-- 
2.43.0


From 0fa9beefc1d990553c5c56ada83af9b6c0b02a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:31 +0000
Subject: [PATCH 59/61] fix: the grey scale of the image is found when the
 plotted region extends beyond the image

---
 misfit/plot/plot_image_slit.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/misfit/plot/plot_image_slit.py b/misfit/plot/plot_image_slit.py
index a0f5e02..352070c 100644
--- a/misfit/plot/plot_image_slit.py
+++ b/misfit/plot/plot_image_slit.py
@@ -255,6 +255,10 @@ def plot_image_slit(galaxy=None, instrument=None,
     xlim_round = np.array([int(np.round(xlim[0])), int(np.round(xlim[1]))])
     ylim_round = np.array([int(np.round(ylim[0])), int(np.round(ylim[1]))])
 
+    # The plotted region may extend beyond the image
+    xlim_round = np.maximum(xlim_round, 0)
+    ylim_round = np.maximum(ylim_round, 0)
+
     tmp_trim = pstamp_trim[ylim_round[0]:ylim_round[1],xlim_round[0]:xlim_round[1]].copy()
     tmp_trim = tmp_trim.flatten()
     range_spec = tmp_trim[np.isfinite(tmp_trim)].copy()
-- 
2.43.0


From b152de5dbfa0b861dee2abe5353df562dae388c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:00 +0000
Subject: [PATCH 60/61] fix: 1D fit figure: title without field or mask name

---
 misfit/fit/fit1D.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/misfit/fit/fit1D.py b/misfit/fit/fit1D.py
index 1026042..3e346bf 100644
--- a/misfit/fit/fit1D.py
+++ b/misfit/fit/fit1D.py
@@ -603,8 +603,10 @@ class FitEmissionLines1D(object):
 
             if self.galaxy.maskname is not None:
                 title = r'\_'.join(self.galaxy.maskname.split('_'))+'-'+str(self.galaxy.ID)+' '+names_cat
-            else:
+            elif self.galaxy.field is not None:
                 title = self.galaxy.field+'-'+str(self.galaxy.ID)+' '+names_cat
+            else:
+                title = str(self.galaxy.ID)+' '+names_cat
 
             ax.set_title(title)
             ax.set_xlim(xlim)
-- 
2.43.0


From fc78bbc17af96423c2275a2ac9a8d1b147e87af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:54 +0000
Subject: [PATCH 61/61] fix: 1D fit: bound both dispersion and flux if bounding
 one makes the other negative

---
 misfit/fit/fit1D.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/misfit/fit/fit1D.py b/misfit/fit/fit1D.py
index 3e346bf..3e39338 100644
--- a/misfit/fit/fit1D.py
+++ b/misfit/fit/fit1D.py
@@ -351,14 +351,13 @@ class FitEmissionLines1D(object):
         result = self.minimize_spec(emisModel, params, self.galaxy.spec1D_trim.flux)
 
         #raise ValueError
-        if (result.params['vel_disp'].value < 0.) & (result.params['flux0'].value < 0.):
-            params = self.make_params(vel_disp_bound=True, flux_bound=True)
-            result = self.minimize_spec(emisModel, params, self.galaxy.spec1D_trim.flux)
-        elif (result.params['vel_disp'].value < 0.):
-            params = self.make_params(vel_disp_bound=True)
-            result = self.minimize_spec(emisModel, params, self.galaxy.spec1D_trim.flux)
-        elif (result.params['flux0'].value < 0.):
-            params = self.make_params(flux_bound=True)
+        # Bound the dispersion / fluxes if negative (bounding one can make the other negative)
+        vel_disp_bound, flux_bound = False, False
+        while ((result.params['vel_disp'].value < 0.) & (not vel_disp_bound)) | \
+                ((result.params['flux0'].value < 0.) & (not flux_bound)):
+            vel_disp_bound = vel_disp_bound | (result.params['vel_disp'].value < 0.)
+            flux_bound = flux_bound | (result.params['flux0'].value < 0.)
+            params = self.make_params(vel_disp_bound=vel_disp_bound, flux_bound=flux_bound)
             result = self.minimize_spec(emisModel, params, self.galaxy.spec1D_trim.flux)
 
         #if not result.errorbars:
-- 
2.43.0

