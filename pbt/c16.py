"""C16: row weights and measured positions."""
from .buildprep import *
from misfit.general import galaxy_utils as gu
from scipy.optimize import least_squares

PROPERTY = 'C16'
RULE = ('Random row signal-to-noise profiles and weighting schemes (stand-alone and after the whole preparation of a spectrum), random object positions, widths, dither '
        'patterns and flux scales; oracles: the definition of each weighting, the generating position and width for noise-free objects, and relations between a '
        'spectrum and its shifted or rescaled version. Non-trivial: at least two usable rows of different weight, or a measured object away from the array centre.')
ASSUMPTIONS = ['optimal weights are compared with an independent Gaussian fit only where several starting points agree on the best fit',
               'positions are judged to 0.1 pixel (0.3 for dithered images, whose negative neighbours bias a single Gaussian) for noise-free objects']


class Holder(object):
    pass


def gfit(x, y, e):
    """best-fitting Gaussian over rows with data, None when not unique."""
    k = e > 0
    if k.sum() < 4:
        return None
    sc = max(np.abs(y[k]).max(), 1e-300)
    out = []
    n = len(x)
    for mu0 in (n/2., float(x[np.argmax(np.where(k, y, -np.inf))]), n/4., 3*n/4.):
        for s0 in (n/4., 1.5, n*1.):
            f = lambda t: (t[1]*np.exp(-.5*((x[k]-t[0])/t[2])**2)-y[k]/sc)/(e[k]/sc)
            try:
                r = least_squares(f, [mu0, 1., s0], xtol=1e-12, ftol=1e-12, gtol=1e-12, max_nfev=400)
            except ValueError:
                return None
            out.append((r.cost, r.x))
    out.sort(key=lambda t: t[0])
    best = out[0]
    p = lambda t: t[1]*np.exp(-.5*((x-t[0])/t[2])**2)
    w0 = p(best[1])
    far = [q for q in out if np.abs(p(q[1])-w0).max() > 1e-4*np.abs(w0).max()]
    return w0*sc, best, far


def t_weights(c):
    r = rng(c['seed'])
    ny, nw = c['ny'], c['nw']
    if c['w'] == 'optimal' and ny < 4:
        raise ref.Skip('too few rows for a Gaussian')
    y = np.arange(ny)
    u = c['unit']
    err = r.uniform(.5, 1.5, size=(ny, nw))*u
    qual = (r.uniform(size=(ny, nw)) > c['pm']).astype(float)
    mask = qual*(r.uniform(size=nw) > c['pm'])          # also without sky lines
    prof = np.exp(-.5*((y-c['mu']*(ny-1))/(c['sig']*ny))**2)*c['amp']
    flux = u*(prof[:, None]*r.uniform(.5, 1.5, size=(ny, nw))+c['noise']*r.normal(size=(ny, nw)))
    low = np.array([i for i in range(ny) if r.uniform() < c['plow'] or not mask[i].any()], dtype=int)
    if c['all']:
        low = np.arange(ny)
    cont = u*r.normal()*c['cont']*np.ones((ny, nw))
    if c['w'] == 'optimal' and c['exact']:
        # the row sums are exactly a Gaussian
        for i in range(ny):
            k = mask[i] == 1
            if k.any():
                flux[i, k] = u*prof[i]/k.sum()
        cont[...] = 0.
    fitm = qual.copy()
    fitm[low] = 0.
    s = ObsSpectrum2D(wave=np.arange(nw)+5000., flux=flux.copy(), flux_err=err.copy(), spec_mask=fitm.copy())
    s.flux_incl_cont = flux+cont
    s.cont_model = cont
    s.mask_sky, s.mask_qual, s.low_snr_row_inds = mask.copy(), qual.copy(), low.copy()
    s.weighting_type = c['w']
    f = flux.copy()
    s.calculate_fit_weights()
    W, P = s.fitting_weight_matrix, s.fitting_weight_profile
    same(s.flux, f, 'flux after computing weights')
    check(W.shape == (ny, nw), lambda: 'weight matrix of shape %s for %s' % (W.shape, (ny, nw)))
    for k in range(nw):
        same(W[:, k], P, 'weights of wavelength %d' % k)
    use = [i for i in range(ny) if i not in set(low)]
    lab = [c['w']]
    if c['w'] == 'none':
        close(P, np.ones(ny)/ny, rtol=1e-12, what='equal weights')
        return ny > 1, lab
    check(np.all(P[low] == 0), 'rows of low S/N have weight')
    if not use:
        check(np.all(P == 0), 'weights without usable rows')
        return False, lab+['unusable']
    if c['w'] == 'up-edges':
        want = np.zeros(ny)
        for i in use:
            k = mask[i] == 1
            want[i] = math.sqrt(float((err[i, k]**2).sum()))/abs(math.fsum(flux[i, k]))
        close(P, want/want.sum(), rtol=1e-9, what='weights, inverse S/N')
    else:
        yy = np.abs(((flux+cont)*mask).sum(axis=1))
        ee = np.abs((err*mask).sum(axis=1))
        q = gfit(y.astype(float), yy, ee)
        if q is None:
            raise ref.Skip('fit not defined')
        g, best, far = q
        want = np.where(np.isin(y, use), g, 0.)
        want = want/want.sum()
        if far or not .8 < abs(best[1][2]) < 1.5*ny or not 0 <= best[1][0] <= ny-1 or (ee > 0).sum() < 8:
            raise ref.Skip('fit not unique')
        close(P, want, rtol=0, atol=3e-3*want.max(), what='weights, Gaussian fit')
    close(P.sum(), 1., rtol=1e-9, what='sum of weights')
    # masked pixels and scale are irrelevant
    k = 10**r.uniform(-4, 4)
    s2 = ObsSpectrum2D(wave=np.arange(nw)+5000., flux=np.where(mask == 1, flux*k, r.normal()*1e3*u*k), flux_err=np.where(mask == 1, err*k, u*k*50), spec_mask=fitm.copy())
    s2.flux_incl_cont = np.where(mask == 1, (flux+cont)*k, 7e3*u*k)
    s2.mask_sky, s2.mask_qual, s2.low_snr_row_inds, s2.weighting_type = mask.copy(), qual.copy(), low.copy(), c['w']
    s2.calculate_fit_weights()
    close(s2.fitting_weight_profile, P, rtol=0, atol=(1e-9 if c['w'] == 'up-edges' else 1e-3)*P.max(), what='weights after rescaling flux and errors')
    return len(use) >= 2, lab


s_w = st.fixed_dictionaries(dict(seed=seeds(), ny=st.one_of(st.integers(1, 24), st.integers(10, 24)), nw=st.integers(1, 8), pm=st.sampled_from([0., .2]), mu=num(.25, .75, 2), sig=num(.08, .35, 2), amp=num(3, 50, 1),
                                 noise=st.sampled_from([0., .5, 2.]), plow=st.sampled_from([0., .1, .4]), all=st.sampled_from([False]*12+[True]), cont=st.sampled_from([0., .5]),
                                 w=st.sampled_from(['up-edges', 'none', 'optimal']), exact=st.booleans(), unit=st.sampled_from([1., 1e-18, 1e4])))


def prep(c, d):
    g, s, ins = objects(c, d)
    s.fit_prep_calcs(g, ins)
    return g, s, ins


def t_prep(c):
    """weights that come out of the preparation."""
    d = raw(c)
    m, m1 = refmask(c, d)
    if m1 is not None and not (m1 == 1).any():
        raise ref.Skip('no good 1D data')
    try:
        g, s, ins = prep(c, d)
    except TypeError as e:
        if c['weighting'] == 'optimal' and 'Improper input' in str(e):
            raise ref.Skip('too few rows for a Gaussian')
        raise
    W, P = s.fitting_weight_matrix, s.fitting_weight_profile
    check(W.shape == s.flux.shape, 'weight matrix has another shape than the data')
    for k in range(W.shape[1]):
        same(W[:, k], P, 'weights of wavelength %d' % k)
    check(np.all(np.isfinite(P)) and np.all(P >= -1e-12), 'weights are not finite and positive')
    tot = P.sum()
    check(abs(tot-1) < 1e-9 or np.all(P == 0), lambda: 'sum of weights %.10g' % tot)
    low = set(int(i) for i in s.low_snr_row_inds)
    use = [i for i in range(len(P)) if i not in low]
    if c['weighting'] != 'none':
        for i in low:
            check(P[i] == 0, 'row %d of low S/N has weight' % i)
    if c['weighting'] == 'up-edges':
        want = np.zeros(len(P))
        for i in use:
            k = s.mask_sky[i] == 1
            want[i] = math.sqrt(float((s.flux_err[i, k]**2).sum()))/abs(math.fsum(s.flux[i, k]))
        if use:
            close(P, want/want.sum(), rtol=1e-8, what='weights, inverse S/N')
    if c['weighting'] == 'none':
        close(P, np.ones(len(P))/len(P), rtol=1e-12, what='equal weights')
    return len(use) >= 2, [c['weighting'], 'dither' if c['dither'] else 'nodither']


def clean(c):
    return dict(c, noise=0., pbad=0., bad1=False, edge1=0, deadrow=False)


def measured(s):
    return s.full_m0+s.m0_shift, s.lam0


def t_pos(c):
    """noise-free objects: measured where they are."""
    c = clean(c)
    d = raw(c)
    if not c['nocont'] and c['clip'] and c['slope']:
        raise ref.Skip('continuum not removed')
    if c['nocont'] and (c['slope'] or c['csc']):
        raise ref.Skip('continuum not removed')
    g, s, ins = prep(c, d)
    y, lam = measured(s)
    check(abs(s.ypos+s.full_l_ind-(np.round(d.m)+c['ybump'])) < 1e-9, 'nominal position is lost by trimming')
    check(abs(s.m0+s.full_l_ind-s.full_m0) < 1e-9, 'position in the trimmed and untrimmed image differ')
    tol = .3 if c['dither'] else .1
    check(abs(y-d.m) <= tol, lambda: 'object at row %.3f measured at %.4f' % (d.m, y))
    check(abs(s.full_m0-d.m) <= 1.5+tol, lambda: 'object row %d for an object at %.3f' % (s.full_m0, d.m))
    lw = d.rest*(1+d.z)
    check(abs(lam-lw) <= .1*c['dlam'], lambda: 'line at %.3f measured at %.3f (pixel %.1f)' % (lw, lam, c['dlam']))
    check(s.full_l_ind <= d.m < s.full_r_ind, 'object was cut off')
    return bool(abs(d.m-(c['ny']-1)/2.) > .3), ['dither' if c['dither'] else 'nodither']


def t_shift(c):
    """whole-row shifts of the scene, and rescaling."""
    c = clean(c)
    if not c['nocont'] and c['clip'] and c['slope'] or c['nocont'] and (c['slope'] or c['csc']):
        raise ref.Skip('continuum not removed')
    d = raw(c)
    k = c['shift']
    g, s, ins = prep(c, d)
    y, lam = measured(s)
    e = raw(c)
    # rows moved by k: regenerate the profile so that no row is lost
    c2 = dict(c)
    c2['m'] = (d.m+k)/(c['ny']-1.)
    e2 = raw(c2)
    check(abs(e2.m-d.m-k) < 1e-9, 'harness')
    g2, s2, ins2 = prep(c2, e2)
    y2, lam2 = measured(s2)
    tol = .1 if c['dither'] else .02
    check(abs(y2-y-k) <= tol, lambda: 'moving the object by %d rows moves the measured position by %.4f' % (k, y2-y))
    check(abs(lam2-lam) <= .02*c['dlam'], lambda: 'moving the object by %d rows moves the line by %.4f' % (k, lam2-lam))
    return True, ['shift%d' % k]


def t_scale(c):
    """flux and errors scaled together, any spectrum."""
    c = dict(c, nocont=True)
    d = raw(c)
    m, m1 = refmask(c, d)
    if m1 is not None and not (m1 == 1).any():
        raise ref.Skip('no good 1D data')
    g, s, ins = prep(c, d)
    k = 2.**c['lk']            # exact in floating point: fits of poorly constrained profiles amplify rounding
    e = raw(c)
    for q in ('flux', 'err', 'flux1', 'err1'):
        setattr(e, q, getattr(e, q)*k)
    g2, s2, ins2 = prep(c, e)
    if len(s.low_snr_row_inds) != len(s2.low_snr_row_inds) or s.full_l_ind != s2.full_l_ind:
        # a row or an edge on a threshold
        snr = lambda q: np.abs((q.flux*q.mask_sky).sum(axis=1)/np.sqrt(((q.flux_err*q.mask_sky)**2).sum(axis=1)))
        if np.any(np.abs(snr(s)-s.row_snr_cut) < 1e-3):
            raise ref.Skip('tie')
    y, y2 = measured(s)[0], measured(s2)[0]
    if abs(abs(y-s.full_m0)-.5) < .02 and s.full_m0 != s2.full_m0:
        raise ref.Skip('tie of the object row')
    check(s.full_m0 == s2.full_m0 and s.full_l_ind == s2.full_l_ind and s.full_r_ind == s2.full_r_ind,
          lambda: 'object row and rows kept %s become %s when the flux is scaled by %.3g' % ((s.full_m0, s.full_l_ind, s.full_r_ind), (s2.full_m0, s2.full_l_ind, s2.full_r_ind), k))
    same(s.low_snr_row_inds, s2.low_snr_row_inds, 'low S/N rows')
    close(s2.m0_shift, s.m0_shift, rtol=0, atol=5e-3, what='position after scaling flux and errors by %.3g' % k)
    close(s2.lam0, s.lam0, rtol=0, atol=5e-3*c['dlam'], what='line position after scaling by %.3g' % k)
    close(s2.fitting_weight_profile, s.fitting_weight_profile, rtol=0, atol=(1e-4 if c['weighting'] != 'optimal' else 3e-3)*max(s.fitting_weight_profile.max(), 1e-9), what='weights after scaling by %.3g' % k)
    return True, [c['weighting']]


def t_extent(c):
    """spatial extent of the emission."""
    c = clean(dict(c, dither=False, nocont=False, clip=0))
    d = raw(c)
    g, s, ins = prep(c, d)
    np.random.seed(c['seed'] % 1000)
    gu.fit_emission_y_profile(s, g, ins, num_MC=8)
    w = c['ysig']*ins.pixscale
    psf = ins.PSF.PSF_FWHM/(2*math.sqrt(2*math.log(2)))
    close(s.sigma_y_emis_obs, w, rtol=.03, what='width of the emission along the slit')
    want = math.sqrt(max(s.sigma_y_emis_obs**2-psf**2, 0))
    close(s.sigma_y_emis_int, want, rtol=1e-9, atol=1e-12, what='intrinsic width')
    close(s.D50, want*2*math.sqrt(2*math.log(2)), rtol=1e-9, atol=1e-12, what='full width at half maximum')
    return True, ['resolved' if want > 0 else 'unresolved']


@st.composite
def s_shift(draw):
    c = draw(prep_cfg())
    c['m'] = draw(num(.38, .5, 3))
    c['shift'] = draw(st.integers(1, 3))
    c['lk'] = draw(st.integers(-20, 20))
    return c


SUBS = [Sub('weights', s_w, t_weights, 500, 20000), Sub('prepared-weights', prep_cfg(), t_prep, 250, 3000), Sub('position', prep_cfg(), t_pos, 300, 3000),
        Sub('moved', s_shift(), t_shift, 250, 2500), Sub('scaled', s_shift(), t_scale, 250, 2500), Sub('extent', prep_cfg(), t_extent, 120, 800)]
