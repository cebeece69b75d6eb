"""Writes known_findings.txt from the fix commits of /repo and the property each restores (run by hand)."""
import subprocess
M = {'9e5b0e7': 'C03', 'fcb48a9': 'C03', 'e4d7990': 'C05', 'bc62c3e': 'C05', 'dd73c14': 'C05', '6ff2ce5': 'C05', '798f3d5': 'C12',
     '487061e': 'C12', '6de69b4': 'C06', 'e891a0d': 'C06', '47220d8': 'C21', '066775d': 'C06', 'a1f5381': 'C11', '9e83d41': 'C03',
     'e6b528a': 'C04', '7a27055': 'C17', '287079b': 'C18', '0201f91': 'C17', '5b949fc': 'C18', '9ae32a8': 'C18', 'e82ba15': 'C13',
     '204af87': 'C14', '25c6423': 'C14', 'd69b0b0': 'C14', '70f8ceb': 'C20', 'dfaa81a': 'C19', '09210c1': 'C19', 'a277c46': 'C19',
     'b743106': 'C19', '4937e02': 'C19', '207182e': 'C03', 'd1da177': 'C22', '9d5329a': 'C22', '83e2a26': 'C22', 'b53fa88': 'C03',
     '9ff12b2': 'C08', 'a8fe153': 'C09', '64e0bf6': 'C06', '8afec75': 'C13', '37cc906': 'C14', '57b04b2': 'C16', 'd6425e6': 'C18', '6c92258': 'C18', '2519d7c': 'C19', 'a2057ae': 'C19', 'e925386': 'C19', 'd27719a': 'C24', '8d433fa': 'C24', '6a55ad2': 'C24', '40cd26f': 'C24', '0f8cf88': 'C24', '851a822': 'C24', 'b11f281': 'C24', 'd61651d': 'C24', '79cb7bb': 'C24', 'e5de634': 'C24', 'a201e63': 'C24', '5e08487': 'C24', '0fa9bee': 'C24', 'b152de5': 'C24', 'fc78bbc': 'C18'}
D = {'9e5b0e7': 'np.int/np.float/np.NaN no longer exist: every model and spectrum preparation raised on the installed numpy',
 'fcb48a9': '2D model with nSubpixels>1 sampled the slit at wrong positions (spacing not pixscale/nSubpixels)',
 'e4d7990': 'PSF stamp not centred on the grid for any object offset: PSF blurring moved the source',
 'bc62c3e': 'even-sized PSF stamp: blurring moved the source by half a pixel',
 'dd73c14': 'Moffat PSF ignored yspace_dither_arc',
 '6ff2ce5': 'Moffat PSF with FWHM=0 divided by zero instead of being the identity',
 '798f3d5': 'AperModel1DRot with do_position_wave_shift raised',
 '487061e': 'recalculating AperModel1DRot with position shift differed from a fresh model',
 '6de69b4': 'two models on grids of different size sharing an instrument used the wrong PSF stamp',
 'e891a0d': 'updating m0_shift or z of a 2D model did not change the grid',
 '47220d8': 'IFU cube generation raised with a PSF, or the second time',
 '066775d': 'mutable default arguments and un-copied theta shared state between models and fits',
 'a1f5381': 'dispersion slope d of the 1D dispersion models was ignored',
 '9e83d41': 'velocity-unit models raised for zero dispersion',
 'e6b528a': 'models with zero dispersion had a different flux normalisation',
 '7a27055': '1D emission line profile integral was not the flux',
 '287079b': 'leftover raise after 1D Monte Carlo errors',
 '0201f91': '1D line sets with unequal component counts raised',
 '5b949fc': 'corrected-dispersion errors used a nonexistent/other resolution',
 '9ae32a8': '1D fit of a galaxy whose ID is not an integer raised',
 'e82ba15': 'trimming a 1D spectrum by rest range raised for float z',
 '204af87': 'mask_edges_1D masked one pixel too few at the right edge',
 '25c6423': 'zero-error pixels not masked when another error is not finite',
 'd69b0b0': 'preparing a spectrum changed the caller\'s arrays',
 '70f8ceb': 'FitEmissionLines2D ignored explicitly set lines',
 'dfaa81a': 'absvalsigma with fixed dispersion folded another parameter\'s chain',
 '09210c1': 'analysing the same chain twice raised/gave other results',
 'a277c46': '1 sigma errors missing for all but the last linked group',
 'b743106': 'constant chain columns (fixed dispersion) raised in the analysis',
 '4937e02': 'peak of a single-parameter posterior raised',
 '207182e': 'rebin_output=False returned mis-shaped output',
 'd1da177': 'box integration lost flux for aligned edges / finer pixels',
 '9d5329a': 'sign_from_pos_angle wrong for float angles above 180',
 '83e2a26': 'image blurring moved the galaxy by half a pixel (even stamp)',
 'b53fa88': 'in-slit Gaussian fit of the position shift did not converge when the slit is sampled by few pixels (start width 1e-12-like)',
 '64e0bf6': 'recalculating a 1D dispersion correction after another model used the instrument took the wrong PSF kernel',
 'a8fe153': 'log-likelihood normalisation used log10 instead of the natural logarithm',
 '9ff12b2': 'masked pixels influenced the row amplitudes of the scaled model',
 '8afec75': 'trimming a copy of a 2D spectrum left its continuum arrays uncut',
 '37cc906': 'mask_edges_1D changed the mask array handed to it in place',
 '57b04b2': 'measured positions, trimming and optimal weights depended on the flux unit (poor fits below about 1e-15, where the fit amplitudes start from zero)',
 'd6425e6': '1D fit kept z fixed (and gave zero z errors) when the starting redshift was at the centre of its bounds up to rounding, e.g. z near 1 or 2',
 '6c92258': '1D fit of cgs fluxes started from zero flux (LMFIT zeroes values below 1e-15), so results depended on the error scale and could miss the minimum by many sigma',
 '2519d7c': 'analysing any chain raised: a one-element array was assigned to a scalar slot',
 'a2057ae': '2 sigma errors of linked parameters were measured from a second, different peak, up to a sigma away from the reported one',
 'e925386': "best values depended on the parameters' units: the peak search stopped at its start for parameters of spread below about 1e-3 and stalled for groups of parameters with different scales",
 'd27719a': 'every fit() raised while drawing the corner plot at its end (corner rejects titles for four quantiles)',
 '8d433fa': 'the corner plot raised an IndexError (ending fit() with an error) whenever sigma0 was fixed or named otherwise',
 '6a55ad2': "the corner plot raised for the link group 'all', for groups of other parameters or in reversed order, and drew the overlaid curves at the light radius instead of the mass radius",
 '40cd26f': 'the best-fit plot raised (or hatched rows instead of columns) when columns are marked as excluded from the fit (wh_sky_fit)',
 '0f8cf88': 'the best-fit plot raised for a fit without a model (which it is written to show as data only)',
 '851a822': 'the trace plot raised when called without an output file, its default',
 'b11f281': "the corner plot raised with usetex=True and matplotlib's own mathtext (a double quote inside math)",
 'd61651d': 'the corner plot raised (ending fit() with an error) when both velocity parameters are fixed, V(R_E) being constant',
 '79cb7bb': 'plotting the image with the slit raised for a spectrograph without slit_length, the default',
 'e5de634': 'plot_image_slit(show_galfit=False) always raised',
 'a201e63': "plotting the image with the galaxy's ellipse always raised (so fit() with a postage stamp ended with an error)",
 '5e08487': 'the slit drawn on the full-resolution image was offset by yoffset in spectrum pixels taken as image pixels (a third of the offset, say)',
 '0fa9bee': 'the image panel was blank when the plotted region extends beyond the left or lower edge of the image (negative slice bounds)',
 'b152de5': 'the figure of a 1D fit of a galaxy without a field and mask name failed with a TypeError',
 'fc78bbc': 'a 1D fit of an absorption line reported a negative velocity dispersion (only the flux was bounded in the refit)'}
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines()
with open('/verif/known_findings.txt', 'w') as f:
    f.write('# Genuine defects found by the checks. "fixed:" lines are repaired in /repo and suppress nothing;\n'
            '# a line "known: property=<id> sub=<sub-check> case=<json> <text>" would list an unrepaired one (none at present).\n')
    for l in log:
        h, s = l.split(' ', 1)
        if s.startswith('fix:'):
            f.write('fixed: property=%s %s %s\n' % (M.get(h, '?'), h, D.get(h, s[5:])))
