#!/usr/bin/env python3
"""Writes properties.jsonl (one JSON object per property)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a})
KF = 'misfit/model/kin_functions.py'; KC = 'misfit/model/kin_classes.py'; AM = 'misfit/model/aper_model.py'
KM = 'misfit/model/kin_model.py'; EL = 'misfit/model/emission_lines_model.py'; GA = 'misfit/galaxy.py'
GU = 'misfit/general/galaxy_utils.py'; GG = 'misfit/general/general_utils.py'; IN = 'misfit/instrument.py'
FC = 'misfit/fit/fit_core.py'; F2 = 'misfit/fit/fit2D.py'; F1 = 'misfit/fit/fit1D.py'; FI = 'misfit/fit/fit_io.py'
MO = 'misfit/mock/generate_basic.py'; PI = 'misfit/plot/plot_image_slit.py'; PU = 'misfit/plot/plot_utils.py'; IO = 'misfit/general/io.py'

p('C01', 'Sky-to-galaxy geometry is the documented rotation, projection and inclination',
  'The mapping from slit/sky coordinates to the galaxy\'s own frame is a rigid rotation by the misalignment angle (positive counter-clockwise from the slit axis) followed by a rotation by the inclination about the major axis, so it preserves distances, is undone by the reverse rotations, and sends the direction at the misalignment angle to the major axis. '
  'The inclination follows from the observed axis ratio and intrinsic thickness (sin i is 0 face-on, 1 when the observed ratio is at or below the thickness, decreasing in between, and consistent between the two functions that give it). '
  'The misalignment derived from the catalogue, image and slit angles lies within +-90 deg, depends on each angle only modulo 180 deg, is antisymmetric under mirroring and unchanged when the sky is rotated, and the helper projections of the effective radius onto the slit agree with plane trigonometry.',
  ['inputs'], 'all coordinates, angles (any branch), axis ratios, thicknesses and slit widths',
  'Existing tests only use three angles (0, 60, 90 deg) at one axis ratio and compare final numbers; wrong signs or branches of the angle algebra cancel for those.',
  [KF, GU, GG, GA], [('sky to intrinsic transform', KF+': transform_int_3d'), ('sin of inclination', KF+': sin_i'), ('inclination angle', GG+': inclination_angle'),
   ('slit misalignment angle', GU+': calculate_slit_offset_angles'), ('projections of the radius', GG+': y_proj_major, x_proj_major, y_proj_major_inslit, r_unproj_major')])
p('C02', 'Kinematic and light profiles follow their documented laws for every parameter',
  'The rotation curve is the documented arctangent law (odd in radius, monotonic, approaching its asymptotic velocity, half of it at the turnover radius), the default dispersion is constant, and the light distribution is a Sersic law in radius times an exponential in height with the documented scale height. '
  'A combined kinematic profile hands each component exactly its own slice of the parameter vector, for user-defined components of any size as well, and profile objects never share state with one another or alter the vectors handed to them. '
  'Light profiles refreshed from a galaxy use that galaxy\'s current size, Sersic index and thickness.',
  ['inputs', 'histories'], 'all profile parameters, radii, heights and sequences of parameter updates on several profile objects',
  'The tests evaluate profiles only inside one full model at one parameter vector; no test updates a profile, mixes two profiles, or uses a custom component.',
  [KC], [('velocity and dispersion laws', KC+': VelArctanProfile, DispConstProfile'), ('parameter distribution', KC+': KinProfile.update_theta'), ('light laws', KC+': IntProfileSersic, IntProfileExpZ, IntProfileExpZScale')],
  [('theta', 'parameters of each component', KC+': velProfile.theta, dispProfile.theta')])
p('C03', 'The 2D slit model equals the projected, blurred, slit-integrated galaxy',
  'For every galaxy, slit and option set, the modelled 2D spectrum equals the light of the inclined rotating disc - each line centred at its redshifted rest wavelength times (1 + projected velocity/c), with its flux ratio and thermal width - integrated along the line of sight, blurred by the PSF on the sky, cut to and integrated across the slit, binned to spatial pixels, blurred by the instrument and sampled on the data wavelengths. '
  'This holds for both spectral (wavelength and velocity) forms, for any sub-sampling, padding, centring, object offset within the slit, misalignment, light profile, multi-line set, and for the narrow-line upsampling and dispersion-floor rules; with the position-dependent wavelength shift enabled, each row is shifted by its in-slit centroid times the instrument width over the slit width. '
  'Unsupported requests (slit masks, position shifts in velocity units) are refused.',
  ['inputs', 'configurations'], 'all model parameters, galaxy shapes, instruments, grid sizes and model options',
  'The two existing 2D tests build one model in one configuration and compare against stored numbers.',
  [AM, KF, KM], [('2D model pipeline', AM+': AperModel2D.do_model_calcs'), ('line-of-sight collapse', KF+': add_sigma_collapse_z, I_simple_collapse'), ('dispersion floor / upsampling', AM+': check_do_upsample_wave'), ('slit position shift', KF+': calculate_effective_inst_res_lam_shift')])
p('C04', 'Modelled spectra obey flux conservation, linearity and mirror symmetries',
  'Total modelled flux equals the in-slit light regardless of velocity field, dispersion (zero, or resolved by the sampling) or instrument resolution, and scales linearly with the light profile; blurring never creates or destroys total flux. '
  'Reversing the rotation mirrors the spectrum in velocity, rotating the galaxy by 180 deg flips it along the slit (and reverses rotation), mirroring the misalignment about the slit axis or shifting the systemic velocity by whole pixels only mirrors or shifts the spectrum, and a face-on or non-rotating galaxy has no velocity gradient. '
  'Multi-line spectra are the sum of the single-line spectra weighted by the line ratios.',
  ['inputs', 'configurations'], 'all parameter vectors and pairs of configurations related by the stated transformations',
  'A test comparing against stored numbers in one configuration says nothing about how two configurations relate.',
  [AM, KF, KC], [('spectral cube and slit integration', AM+': calculate_spectral_cube, trim_downsample_spectral_cube'), ('velocity projection', AM+': setup_model_grid')])
p('C05', 'PSF kernels are correctly shaped and centred, and PSF blurring conserves light',
  'Gaussian and Moffat kernels have the requested full width at half maximum, are centred, circular and non-negative, and - when a dither spacing is given - include half-amplitude negative images at plus and minus that spacing along the slit only. '
  'Blurring keeps total flux and, for a symmetric kernel, the position of a source that lies away from the edges, is linear, widens a source by the kernel width in quadrature, and is the identity for a zero-width PSF. '
  'A kernel is always the one belonging to the grid of the model being computed, whichever model used the instrument before.',
  ['inputs', 'configurations', 'histories'], 'all PSF families, widths, dither spacings, stamp sizes (even or odd), cubes and order of use of a shared instrument',
  'Tests use one Gaussian PSF with one grid; neither kernel shape nor centring nor sharing of instruments is ever looked at.',
  [IN, KF, AM], [('kernel generation', IN+': PSFGaussian, PSFMoffat'), ('cube and image convolution', KF+': PSF_convolve, PSF_convolve_flat'), ('stamp grids', AM+': _psf_stamp_coords')],
  [('conv_stamp', 'current kernel stored with the instrument', IN+': PSFBase.conv_stamp')])
p('C06', 'A model depends only on its current inputs, not on history or other models',
  'After any sequence of parameter updates, object re-use and interleaving of several models sharing galaxies, instruments or option objects, the produced spectrum or cube equals the one from freshly built objects with the same current parameters. '
  'Building, updating or copying one model never changes another model\'s results, the caller\'s galaxy or instrument data, or the caller\'s parameter arrays. '
  'A parameter vector of the wrong length is refused.',
  ['histories'], 'all interleaved sequences of build / update / copy operations over several models',
  'No existing test calls update at all, or builds two models in one process and compares them.',
  [KM, AM, KC, FC], [('in-place model update', AM+': AperModel2D.update_model'), ('3D/2D model make and update', KM+': make_model, update_model, make_3D_int_model, update_3D_int_model'), ('parameter mapping', KM+': update_parameters')],
  [('theta', 'full parameter vector of a model', KM+': KinModel2D.theta'), ('aperModel2D', 'cached grid model', KM+': KinModel2D.aperModel2D')])
p('C07', 'Instrumental broadening has the requested width, keeps flux and shifts no line',
  'Convolving a model with the instrument resolution multiplies nothing and moves nothing: the total flux and line centroid of every row are unchanged for lines away from the edges, and the line variance grows by exactly the squared instrument dispersion converted to wavelength at the reference line (or used directly for velocity spectra). '
  'A zero resolution leaves the model untouched, and wavelength resampling back to the data grid is the average over the fine samples of each data pixel.',
  ['inputs', 'configurations'], 'all resolutions, wavelength grids (odd and even length, any offset), spectral forms and model arrays',
  'Tests only compare one stored spectrum with one resolution and one grid length.',
  [AM, KF], [('instrument convolution', AM+': convolve_instrument_resolution; '+KF+': inst_convol_complete'), ('resampling', AM+': downsample_to_real_wave; '+KF+': rebin')])
p('C08', 'Each model row is scaled by the error-weighted least-squares amplitude',
  'When row scaling is on, every spatial row of the model is multiplied by the amplitude that minimises the error-weighted squared difference to the data over that row\'s unmasked (including sky-line-free) pixels, so no other amplitude fits that row better, and rows without usable signal become zero instead of non-finite. '
  'Masked pixels have no influence, the scaled model is independent of the overall normalisation of the unscaled model, scaling the data scales the model, and with scaling off the model is returned untouched.',
  ['inputs'], 'all data, error, mask and model arrays',
  'Tests build noiseless models with scaling off; amplitudes with masks or uneven errors are never exercised.',
  [KM], [('row scaling', KM+': KinModel2D.scale_model')])
p('C09', 'Chi-squared, likelihood, prior and posterior equal their definitions',
  'For any data, errors, masks and row weights the reported chi-squared is the weighted sum over unmasked pixels of squared normalised residuals, the reduced forms divide by the number of unmasked pixels less the free parameters, and the log-likelihood is the Gaussian one, minus half the sum over unmasked pixels of the weighted squared residual plus ln(2 pi err^2); pixels that are masked never matter, whatever finite flux and non-zero error they hold. '
  'The flat prior admits exactly the closed box of bounds of the free parameters, and the log-posterior is the prior plus likelihood, minus infinity outside the bounds or for a non-finite model, evaluated at the parameters asked for regardless of evaluation order. '
  'The slimmed-down object used inside the sampler gives the same log-posterior as the full one.',
  ['inputs', 'histories'], 'all data, masks, weights, bounds, parameter vectors and evaluation orders',
  'The fitting layer has no stable test at all; masks, weights and bounds are never varied.',
  [KM, KC, FC], [('chi-squared and likelihood', KM+': model_chisq, model_llike, model_redchisq*'), ('flat prior', KC+': ThetaPriorFlat'), ('log-posterior', FC+': lnprob'), ('sampler object', FC+': make_pruned_fitEmis2D_class')])
p('C10', 'Free and fixed parameters are mapped consistently between fit and model',
  'Given any pattern of free and fixed parameters, a vector of free values fills the free slots in order and leaves every fixed parameter at its setting, in both the slit and cube models, and the initial free vector is the free subset of the settings. '
  'Walker starting positions lie inside the bounds of their own parameters, and neither fits, models nor priors built from the same settings disturb each other or the settings object.',
  ['configurations', 'histories'], 'all free/fixed patterns, bounds, parameter values and update sequences',
  'The tests only ever use the all-fixed pattern of mock models.',
  [KM, KC, FC], [('mapping', KM+': update_parameters'), ('initial vector', FC+': initialize_fitting_theta'), ('walkers', FC+': init_walker_pos'), ('settings', KC+': Theta2DSettingsFiducial')])
p('C11', '1D aperture dispersion correction equals the seeing-blurred slit integral',
  'The ratio between aperture dispersion and effective-radius dispersion equals the light-weighted quadratic mean of the documented dispersion profile over the PSF-blurred slit and extraction aperture, divided by that over the effective radius, in both the aligned (circularised) and misaligned (elliptical) treatments. '
  'The ratio is positive and finite, depends only on relative angular scales (multiplying all angular sizes together changes nothing), is the same for mirrored or half-turned misalignment angles with a centred slit, and both treatments agree for round galaxies.',
  ['inputs', 'configurations'], 'all galaxy sizes, axis ratios, angles, apertures, offsets and PSFs',
  'Four existing tests pin four stored numbers in one galaxy/slit combination.',
  [AM, KF], [('aligned correction', KF+': sigma_aper_dispersion'), ('misaligned correction', KF+': sigma_aper_dispersion_misalign'), ('reference dispersion', KF+': sigma_e_dispersion')])
p('C12', '1D rotation correction is the modelled aperture dispersion over the reference',
  'The ratio converting an observed aperture dispersion to the intrinsic root-mean-square velocity equals the light-weighted second moment of velocity plus dispersion over the PSF-blurred slit and extraction profile, divided by the root-mean-square velocity at the reference radius, for optimal and boxcar extractions. '
  'It depends on the ratio of velocity to dispersion and not on their common scale, is unaffected by mirroring or half-turning the galaxy in a centred slit, equals the pure rotation and pure dispersion limits at the ends, and recalculation after changing an input equals a fresh model; an unknown extraction type is refused.',
  ['inputs', 'configurations', 'histories'], 'all galaxy shapes, angles, v/sigma ratios (including none and zero), extraction choices, PSFs and recalculations',
  'Six existing tests pin six stored numbers for one galaxy; extraction variants, offsets, recalculation and other PSFs are untested.',
  [AM, KF], [('rotation correction', AM+': AperModel1DRot.calc_aper_correction'), ('grid, cube and trimming', AM+': setup_model_grid, calculate_kin_cube, convolve_kin_arr_PSF, trim_sum_aperture')])
p('C13', 'Trimming and line tables return exactly the requested data',
  'Trimming a 1D or 2D spectrum in wavelength keeps exactly the samples within the requested range (inclusive, rest ranges converted with the galaxy redshift) with every companion array cut identically and values unchanged; a request outside the data yields an empty result, and for a 2D spectrum contradictory or missing ranges are refused. '
  'Spatial trimming keeps a contiguous row range that is cut identically from every companion array and moves the recorded object position by the rows removed. '
  'Line tables give each named line or complex its documented components, vacuum wavelengths, flux ratios and windows, and unknown names are refused.',
  ['inputs', 'configurations'], 'all wavelength grids, redshifts, ranges, row counts, positions and line names',
  'Trimming and lookups have no stable tests.',
  [GU, GA, IO], [('1D trimming', GU+': trim_spectrum_1D'), ('2D trimming', GU+': trim_spectrum_2D_wavelength, trim_spectrum_2D_spatial'), ('line tables', IO+': read_line_names, read_restwave, read_line_ratio, read_wave_range, read_skyline_band_cutoff')])
p('C14', 'Masks exclude exactly the bad data and leave the caller data alone',
  'Missing-data masks exclude exactly the pixels with non-finite values, with zero weight, or with zero error (unless every error is zero or only non-finite ones were asked for), blanked fill values are written only where documented, and edge masks exclude exactly the given number of pixels inside each end of the good data. '
  'Sky-line masks exclude exactly the wavelengths whose error level reaches the band\'s multiple of the median, and low signal-to-noise masks exclude whole rows outward from the object following the documented threshold and contiguity rules. '
  'Spectra passed in keep their original flux, error and mask values.',
  ['inputs', 'configurations'], 'all flux, error, weight and mask arrays including non-finite values, all bands and thresholds',
  'No stable test touches masking.',
  [GU, GA], [('missing data', GU+': spec_mask_missing, spec_nan_masking'), ('edges', GU+': mask_edges_1D'), ('sky lines', GU+': mask_skylines_2D, wh_skylines_1D'), ('low S/N rows', GU+': mask_low_snr_rows_2D')])
p('C15', 'Continuum subtraction removes exactly a linear continuum and keeps the lines',
  'For a 2D spectrum made of a per-row linear continuum plus emission lines inside the line window, the preparation step recovers the continuum in every row with usable data and leaves the line flux, and original flux minus stored continuum always equals the prepared flux. '
  'The continuum of a row is the common slope fitted to the 1D spectrum (away from sky lines; zero when one side of the line has no usable samples) plus its own weighted constant. '
  'Masked and in-line pixels do not influence the continuum, adding a constant to a row changes only that row\'s continuum, and with subtraction disabled the flux is unchanged.',
  ['inputs', 'configurations'], 'all continua, line profiles, masks, sky lines, noise levels and line sets',
  'No stable test runs the 2D spectrum preparation.',
  [GU, GA], [('continuum subtraction', GU+': subtract_continuum_2D'), ('preparation sequence', GA+': ObsSpectrum2D.fit_prep_calcs')])
p('C16', 'Spatial position and row weights follow the object and are normalised',
  'Row weights sum to one (or vanish when nothing is usable), are the documented function of each row\'s signal-to-noise for every weighting scheme, are repeated identically along wavelength, and - for the schemes that depend on signal-to-noise - are zero for rows excluded for low signal-to-noise. '
  'The object row and line position measured from a spectrum follow the object: moving the object by whole rows moves the measured position by the same number, and scaling flux and errors together changes neither position nor weights; the measured spatial extent is the width of the emission along the slit, with the PSF width removed in quadrature (zero when unresolved).',
  ['inputs', 'configurations'], 'all row signal-to-noise profiles, weighting schemes, object positions and flux scales',
  'No stable test computes weights or positions.',
  [GU, GA], [('weights', GU+': calculate_2D_fit_weights'), ('position', GU+': get_m0_lam0_pos_2D, vert_position, fit_emission_y_profile')])
p('C17', 'A 1D emission line model has the stated flux, centroid, width and components',
  'Every line of a modelled 1D spectrum is a Gaussian at its redshifted rest wavelength whose velocity width equals the requested dispersion and whose integral equals the requested flux times the fixed ratio of that component; the spectrum is the sum over all lines plus the requested polynomial continuum. '
  'It is linear in the fluxes, shifts rigidly in log wavelength with redshift, and several models in one process do not affect each other; residuals given to the fit are the normalised differences at unmasked samples only.',
  ['inputs', 'configurations'], 'all line sets, wavelength grids, redshifts, widths, fluxes, continua and masks',
  'No stable test evaluates the 1D emission-line model.',
  [EL], [('line profile', EL+': EmissionLines1DModel.make1DProfile, gaussian_line'), ('spectrum', EL+': EmissionLinesSpectrum1DModel.make1DProfile, residual1DProfile')])
p('C18', 'Fitting a 1D spectrum recovers what generated it, with honest errors',
  'For a noise-free spectrum made from the model, fitting returns the redshift, dispersion, fluxes and continuum that generated it, whatever the line set, starting guesses near the truth, mask and units of the errors; pixels that are masked or lie outside the fitting window have no influence. '
  'Monte Carlo errors are the percentile ranges of the refitted realisations, each attached to its own quantity with lower and upper sides kept apart, can be saved and reloaded identically, and the instrument-corrected dispersion is the quadratic difference to the instrument resolution, zero when unresolved. No negative dispersion or primary-line flux is ever reported, even for a line in absorption.',
  ['inputs', 'configurations'], 'all generating parameters, line sets, masks, starting guesses and resolutions',
  'No stable test runs the 1D fit.',
  [F1, EL], [('1D fit', F1+': FitEmissionLines1D.fit'), ('resolution correction', F1+': calculate_inst_corr_vel_disp'), ('error storage', F1+': save_mc_sim_matrix, load_mc_sim_matrix')])
p('C19', 'Posterior summaries are faithful to the chain',
  'Confidence limits are the documented percentiles of each parameter\'s chain, the best value of a parameter is the peak of its marginal or (for linked parameters) joint distribution, and reported errors are the distances from that value to the limits, for every combination of linked parameters. '
  'Velocities and dispersions at the effective radius and at 2.2 scale lengths are those of the profile evaluated sample by sample, negative dispersions are folded when asked, and re-analysing the same chain gives the same answer. '
  'Summaries are equivariant: permuting samples changes nothing, and shifting or rescaling one parameter\'s samples moves only that parameter\'s summary accordingly.',
  ['inputs', 'histories', 'configurations'], 'all chains, free/fixed patterns, link groups and repeated analyses',
  'No stable test analyses a chain.',
  [FC, GG], [('posterior analysis', FC+': get_param_posterior_bestfits, add_v_re_22'), ('peak finding', GG+': find_peak_gaussian_KDE, find_peak_gaussian_KDE_multiD, get_bestfit_values_linked')],
  [('mcmc_results', 'stored summary', FC+': MCMCResults')])
p('C20', 'Sampling records every step faithfully and saved results reload identically',
  'A sampling run keeps exactly the requested walkers and steps (fewer only when its stopping criteria are met) after dropping exactly the burn-in, moves walkers by stretches within the configured scale, every stored log-probability is the log-posterior of its stored position, all positions are inside the bounds, and flattened and unflattened records agree. '
  'Saving and reloading samples, fits and best fits gives back equal data, restarting from saved samples reproduces the analysis, and existing output is kept or replaced exactly as the overwrite option says.',
  ['configurations', 'histories'], 'all walker/step/burn-in counts, free-parameter patterns, random seeds and save/reload sequences',
  'The MCMC driver and its file formats have no stable test.',
  [FC, FI, F2], [('MCMC driver', FC+': run_mcmc'), ('sampler record', FI+': make_emcee_sampler_dict'), ('pickle IO', FI+': dumppickle, loadpickle'), ('fit wrapper', F2+': fit, reload_results, reload_sampler')])
p('C21', 'Mock observations match the models they are built from',
  'Mock slit spectra and cubes generated from a parameter set are those of the model with exactly that galaxy, instrument and kinematic setting, with the documented grid (line at the wavelength of the redshifted rest line, object at the central row plus the requested offset, at least the requested number of rows). '
  'Summing the mock cube over the sky direction perpendicular to the slit gives the spectrum of a slit that covers the whole field, cube axes are ordered wavelength, along-slit, across-slit, and calls with different settings are independent of one another.',
  ['inputs', 'configurations'], 'all mock settings, for both the slit and the cube generators',
  'One existing test builds one slit mock; the cube generator is not exercised by a stable test.',
  [MO, KM], [('mock generation', MO+': generate_mock_basis, generate_mock_slit_obs, generate_mock_IFU_cube'), ('cube downsampling', KM+': _downsample_3D_int_model')])
p('C22', 'Image resampling, rotation and angle helpers conserve flux and orientation',
  'Box-integrating a profile or image onto new pixels conserves flux exactly where the grids overlap, is linear and separable, is the identity on the same grid, and composes with coarser regridding. '
  'Coordinate rotations are counter-clockwise isometries about the given centre that compose and invert, image position angles read from headers match the coordinate matrix, position-angle signs follow the documented half-planes, and blurring a galaxy image to the observing resolution keeps its flux and position. '
  'Splitting an index list into runs loses nothing and yields maximal consecutive runs.',
  ['inputs'], 'all images, grids, angles, centres and header matrices',
  'No stable test touches the image helpers.',
  [PI, PU, GG], [('box integration', PI+': box_integrate, box_integrate_pstamp'), ('rotation', PU+': rot_coord_angle, rot_corner_coords, rot_object_center, rotate_pstamp'), ('angles', PU+': pstamp_position_angle, pos_angle, sign_from_pos_angle'), ('image blurring', PU+': convolve_rot_gal'), ('runs', GG+': wh_continuous')])
p('C23', 'Setting up a fit prepares raw spectra once, and model and data line up',
  'Constructing a 2D fit from raw spectra prepares them exactly as running the preparation directly does, once only (another fit of the same galaxy, or preparing again, changes nothing; nothing happens when preparation is skipped), and gives fit and spectrum the same line names, wavelengths and flux ratios whichever way the lines were named. The wavelength windows and thresholds used are those given on the spectrum (as values or in a file), and otherwise the documented ones. '
  'A spectrum attached to a galaxy keeps its data and gets rest-frame wavelengths for that redshift and, when it has no mask, one that masks nothing; the galaxy keeps the values it was given. '
  'A noise-free galaxy embedded in a larger raw spectrum with continuum, sky columns and rows or wavelengths to trim is, after preparation, reproduced by the fit model at its true parameters (with the object row and redshift they imply), while a different redshift, dispersion, rotation sense or centre fits worse; the measured object row and line position are those of the galaxy.',
  ['inputs', 'configurations', 'histories'], 'all raw spectra, line sets, ways of naming the lines, trimmings and orders of set-up',
  'The only end-to-end test is one slow fit with loose error bars; set-up from raw data with rows and wavelengths to trim is never compared with anything.',
  [F2, GU, GA], [('fit set-up', F2+': FitEmissionLines2D.setup, setup_model'), ('preparation', GA+': ObsSpectrum2D.fit_prep_calcs'), ('row bookkeeping', GU+': trim_spectrum_2D_spatial, get_m0_lam0_pos_2D')])
PB = 'misfit/plot/plot_bestfit.py'; PM = 'misfit/plot/plot_mcmc.py'; PT = 'misfit/plot/plot_trace.py'
p('C24', 'Diagnostic figures are always drawn and show the data, model and posterior',
  'Whatever parameters are free, linked or fixed and whichever rows, columns or stamps are present, the posterior, best-fit, trace and image figures are drawn without failing and change nothing in the fit. '
  'The posterior figure titles and annotates every free and derived quantity with its best value and its own lower and upper errors (and calls the velocity rotation or dispersion dominated by whether its interval excludes zero), with curves of constant velocity only for linked velocity parameters. '
  'The best-fit figure shows data, model and data minus model on one grey scale set by the sky-free columns, with the model centre, the blurred projected half-light rows and exactly the excluded rows and columns marked. '
  'The trace figure shows every walker of every free parameter. Image panels put the slit, ellipse and viewed region where the object is in the (rotated, blurred, resampled) image, in its own pixel scale. The figure of a 1D fit shows the spectrum, its errors, the fitted model and continuum over the fitted range, the fitted lines at their redshifted wavelengths and the values found.',
  ['inputs', 'configurations'], 'all fits, posteriors, chains, masks, stamps and plotting options',
  'No stable test draws any figure; the fit ends by drawing them, so a failure there loses the run.',
  [PM, PB, PT, PI, F1], [('posterior figure', PM+': plot_param_corner'), ('best-fit figure', PB+': plot_bestfit_model'), ('trace figure', PT+': plot_trace'), ('image and slit', PI+': plot_image_slit'), ('1D fit figure', F1+': plot')])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, (x['id'], len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
