"""C18: fitting 1D spectra."""
import os
from .core import *
from . import ref
from .c13 import LINES, WAVE, RATIO
from .c17 import gauss, lines, CKMS
from scipy.optimize import least_squares
from misfit.galaxy import Galaxy, ObsSpectrum1D
from misfit.instrument import Spectrograph
from misfit.fit import FitEmissionLines1D

PROPERTY = 'C18'
RULE = ('Spectra generated from an independent Gaussian-line model (cgs units) for random line sets, parameters, masks, junk in masked and out-of-window samples, starting '
        'guesses near the truth; oracles: the generating parameters (noise-free), an independent least-squares solution (noisy), percentiles of the saved realisations, '
        'the linear error propagation of the model, and the quadratic resolution correction. Non-trivial: at least 20 fitted samples and a line above the noise.')
ASSUMPTIONS = ['starting redshift within 6 observed Angstrom (noisy spectra: 2), dispersion within 20%, fluxes within 60% of the truth (Levenberg-Marquardt may otherwise end in a spike at one sample)',
               'noisy spectra: the dispersion is determined to 6% and every flux to 15% (weaker lines have secondary minima)',
               'lines resolved by the sampling (at least 1.2 samples per sigma) and inside the fitting window']
SETS = [(['Halpha'], None), (['Halpha', 'NII'], None), (['NII', 'Halpha'], (6480., 6650.)), (['OIII'], None), (['Hbeta'], None), (['Halpha', 'NII', 'SII'], (6470., 6810.)),
        (['OIII', 'Hbeta'], (4800., 5070.)), (['SII'], (6650., 6800.)), (['OII'], (3670., 3790.))]
WIN = {'Halpha': (6480., 6650.), 'Hbeta': (4800., 4920.), 'OIII': (4930., 5060.)}


@st.composite
def s_fit(draw):
    k = draw(st.integers(0, len(SETS)-1))
    c = dict(seed=draw(seeds()), set=k)
    c['z'] = draw(st.one_of(num(.6, 3, 4), st.sampled_from([1., 2.])))
    c['v'] = draw(num(60, 250, 1))
    c['flux'] = [draw(num(1, 9, 2))*10.**draw(st.integers(-17, -16)) for j in range(3)]
    c['order'] = draw(st.sampled_from([1, 1, 0, 2]))
    c['c0'] = draw(num(-1, 5, 2))
    c['slope'] = draw(st.sampled_from([0., .5, -.5]))
    c['curve'] = draw(st.sampled_from([0., .4]))
    c['per'] = draw(num(1.3, 3, 1))             # samples per sigma
    c['dz'] = draw(st.one_of(num(-6, 6, 1), st.just(0.)))
    c['fv'] = draw(num(.8, 1.25, 2))
    c['ff'] = draw(num(.6, 1.6, 2))
    c['snr'] = draw(num(8, 120, 0))
    c['pm'] = draw(st.sampled_from([0., .05, .15]))
    c['edge'] = draw(st.sampled_from([0, 0, 3]))
    c['res'] = draw(num(20, 300, 0))
    c['esc'] = 10.**draw(st.integers(-3, 3))
    c['mc'] = draw(st.integers(2, 9))
    c['cap'] = draw(st.booleans())
    return c


class Obs(object):
    pass


def window(c):
    names, w = SETS[c['set']]
    return w or WIN[names[0]]


def model(c, w, p):
    """p: z, v, fluxes, continuum coefficients (1e-18)."""
    names = SETS[c['set']][0]
    out = np.zeros(len(w))
    for k, n in enumerate(names):
        for x, r in lines(n):
            s = abs(p[1])/CKMS*x*(1+p[0])
            out += p[2+k]*r/(s*math.sqrt(2*math.pi))*np.exp(-.5*((w-x*(1+p[0]))/s)**2)
    for q in range(c['order']+1):
        out += p[2+len(names)+q]*1e-18*w**q
    return out


def make(c, noise=0.):
    r = rng(c['seed'])
    names = SETS[c['set']][0]
    lo, hi = window(c)
    zz = 1+c['z']
    # continuum expressed about the middle of the window
    m, h = .5*(lo+hi)*zz, .5*(hi-lo)*zz
    pol = np.poly1d([c['curve']/h**2 if c['order'] > 1 else 0., 0., c['c0']])
    cc = np.poly1d([1., -m])
    tot = np.poly1d([c['c0']])
    if c['order'] > 0:
        tot = tot+cc*(c['slope']/h)
    if c['order'] > 1:
        tot = tot+cc*cc*(c['curve']/h**2)
    co = list(tot.coeffs[::-1])
    co = co+[0.]*(c['order']+1-len(co))
    o = Obs()
    o.p = np.array([c['z'], c['v']]+c['flux'][:len(names)]+co)
    sig = c['v']/CKMS*lo*zz
    d = sig/c['per']
    w = np.arange((lo-20)*zz, (hi+20)*zz, d)
    o.w = w
    o.clean = model(c, w, o.p)
    peak = min(c['flux'][:len(names)])/(sig*2.5)
    o.err = r.uniform(.7, 1.3, size=len(w))*peak/c['snr']
    o.flux = o.clean+noise*o.err*r.normal(size=len(w))
    # samples within the window at the redshift the galaxy is believed to have
    o.zstart = c['z']+c['dz']/6600.
    win = (w >= lo*(1+o.zstart)) & (w <= hi*(1+o.zstart))
    o.win = win
    near = np.zeros(len(w), dtype=bool)
    for n in names:
        for x, q in lines(n):
            near |= np.abs(w-x*zz) < 1.2*sig
    mask = np.ones(len(w))
    mask[(r.uniform(size=len(w)) < c['pm']) & ~near] = 0.
    if c['edge']:
        k = np.where(win)[0][:c['edge']]
        mask[k] = 0.
    o.mask = mask
    good = mask == 1
    # the code excludes ten samples inside a masked end of the window
    idx = np.where(win)[0]
    g = [k for k in idx if good[k]]
    use = good & win
    if g and g[0] > idx[0]:
        use[g[0]:g[0]+10] = False
    if g and g[-1] < idx[-1]:
        use[g[-1]-9:g[-1]+1] = False
    o.use = use
    if np.any(near & win & ~use) or use.sum() < 20:
        raise ref.Skip('line touches a masked end')
    bad = ~use
    junk = r.normal(size=len(w))*peak*50
    o.flux[bad & (r.uniform(size=len(w)) < .7)] += junk[bad & (r.uniform(size=len(w)) < .7)][0] if bad.any() and (bad & (r.uniform(size=len(w)) < .7)).any() else 0.
    nf = (mask == 0) & (r.uniform(size=len(w)) < .3)
    o.flux[nf] = np.nan
    o.err[(mask == 0) & (r.uniform(size=len(w)) < .3)] = 0.
    o.sig, o.peak = sig, peak
    return o


def fitter(c, o, **kw):
    names, trim = SETS[c['set']]
    g = Galaxy(z=o.zstart, ID=1)
    g.field, g.maskname = 'F', None
    g.set_spectrum_1D(ObsSpectrum1D(wave=o.w, flux=o.flux, flux_err=o.err, spec_mask=o.mask))
    ins = Spectrograph(PSF_type='Gaussian', PSF_FWHM=.6, pixscale=.18, slit_width=.7, instrument_resolution=c['res'])
    a = dict(galaxy=g, instrument=ins, names_arr=list(names), flux_arr=np.array(c['flux'][:len(names)])*c['ff'], vel_disp=c['v']*c['fv'], cont_order=c['order'])
    if trim:
        a['trim_restwave_range'] = list(trim)
    a.update(kw)
    return FitEmissionLines1D(**a)


def run(f, **kw):
    with quiet():
        f.fit(noPlot=True, **kw)
    return f


def result(c, f):
    return np.concatenate([[f.z, f.vel_disp], f.flux_arr, f.cont_coeff])


def cov(c, o, p=None, along=None):
    """linear error propagation at the generating parameters."""
    p = o.p if p is None else p
    w, e = o.w[o.use], o.err[o.use]
    J = []
    for k in range(len(p)):
        h = {0: 1e-7, 1: 1e-3}.get(k, max(abs(p[k]), 1e-30)*1e-4)
        if k >= 2+len(SETS[c['set']][0]):
            q = k-2-len(SETS[c['set']][0])
            J.append(1e-18*w**q/e)
            continue
        a, b = p.copy(), p.copy()
        a[k] += h
        b[k] -= h
        J.append((model(c, w, a)-model(c, w, b))/(2*h)/e)
    J = np.array(J).T
    sc = np.sqrt((J**2).sum(axis=0))
    q, rr = np.linalg.qr(J/sc)
    ri = np.linalg.inv(rr)
    if along is not None:
        # of a linear combination of the parameters
        return math.sqrt(((along/sc).dot(ri)**2).sum())
    return np.sqrt((ri**2).sum(axis=1))/sc


def inputs(o):
    return {k: np.copy(getattr(o, k)) for k in ('w', 'flux', 'err', 'mask')}


def unchanged(o, before):
    for k in before:
        same(getattr(o, k), before[k], 'caller\'s '+k)


def t_recover(c):
    o = make(c)
    b = inputs(o)
    f = run(fitter(c, o), noErrors=True)
    unchanged(o, b)
    p = result(c, f)
    sd = cov(c, o)
    nl = len(SETS[c['set']][0])
    dev = np.abs(p-o.p)/sd
    check(np.all(dev[:2+nl] < .05), lambda: 'noise-free fit %s differs from the truth %s by %s standard errors' % (p[:2+nl], o.p[:2+nl], dev[:2+nl]))
    cont = lambda q: sum(q[2+nl+k]*1e-18*o.w[o.use]**k for k in range(c['order']+1))
    close(cont(p), cont(o.p), rtol=0, atol=.02*np.median(o.err[o.use]), what='fitted continuum')
    close(f.final_model[np.isin(f.galaxy.spec1D_trim.obswave, o.w[o.use])], o.clean[o.use], rtol=0, atol=.02*np.median(o.err[o.use]), what='fitted model')
    # an error scale is irrelevant
    o2 = make(c)
    o2.err *= c['esc']
    f2 = run(fitter(c, o2), noErrors=True)
    dev = np.abs(result(c, f2)-o.p)/sd
    check(np.all(dev[:2+nl] < .05), lambda: 'with errors times %g the noise-free fit differs from the truth by %s' % (c['esc'], dev[:2+nl]))
    check(f.z_err is not None and np.all(np.asarray(f.flux_arr_err) == 0), 'errors are not zero when not asked for')
    return bool(o.use.sum() >= 20), ['+'.join(SETS[c['set']][0])]


def t_noisy(c):
    """an independent least-squares solution."""
    c = dict(c, dz=c['dz']/3)
    o = make(c, noise=1.)
    w, e, d = o.w[o.use], o.err[o.use], o.flux[o.use]
    nl = len(SETS[c['set']][0])
    m = w.mean()
    sd = cov(c, o)

    def full(t):
        q = o.p.copy()
        q[:2+nl] += t[:2+nl]*sd[:2+nl]
        # continuum in a well-conditioned basis
        poly = np.poly1d([0.])
        for k in range(c['order']+1):
            poly = poly+np.poly1d([1./600., -m/600.])**k*t[2+nl+k]
        co = list(np.poly1d(poly).coeffs[::-1])
        co += [0.]*(c['order']+1-len(co))
        q[2+nl:] += co
        return q
    r = least_squares(lambda t: (model(c, w, full(t))-d)/e, np.zeros(len(o.p)), jac='3-point', xtol=1e-12, ftol=1e-12, gtol=1e-12)
    want = full(r.x)
    if sd[1] > .06*c['v'] or np.any(sd[2:2+nl] > .15*o.p[2:2+nl]) or abs(want[1]-c['v']) > 6*sd[1] or abs(want[1]) < 20 or np.any(want[2:2+nl] <= 0) or abs(want[0]-o.zstart)*6000 > 15:
        raise ref.Skip('poorly constrained')
    f = run(fitter(c, o), noErrors=True)
    p = result(c, f)
    dev = np.abs(p-want)[:2+nl]/sd[:2+nl]
    check(np.all(dev < .15), lambda: 'fit %s differs from the least-squares solution %s by %s standard errors' % (p[:2+nl], want[:2+nl], dev))
    chi = lambda q: float((((model(c, w, q)-d)/e)**2).sum())
    check(chi(p) <= chi(want)+.01, lambda: 'chi2 %.6g of the fit exceeds the minimum %.6g' % (chi(p), chi(want)))
    return True, ['noisy']


def t_errors(c):
    c = dict(c, snr=max(c['snr'], 15.))
    o = make(c, noise=.3)
    np.random.seed(c['seed'] % 2**31)
    fn = os.path.join(os.environ['PBT_SCRATCH'], 'mc%d.pkl' % os.getpid())
    nl = len(SETS[c['set']][0])
    if os.path.exists(fn):
        os.unlink(fn)
    f = run(fitter(c, o, num_MC=c['mc']), err_filename=fn)
    p = result(c, f)
    M = np.asarray(f.load_mc_sim_matrix(err_filename=fn))
    check(M.shape == (c['mc'], len(p)), lambda: 'saved realisations of shape %s' % (M.shape,))
    sd = cov(c, o)
    for k in range(2+nl):
        check(np.all(np.abs(M[:, k]-p[k]) < 8*sd[k]+.2*abs(sd[k])), lambda: 'realisations of parameter %d: %s for a best value %.8g +- %.2g' % (k, M[:, k], p[k], sd[k]))
    check(np.all(np.std(M[:, :2+nl], axis=0) > 0), 'realisations do not vary')
    E = np.vstack([f.z_err, f.vel_disp_err, f.flux_arr_err, f.cont_coeff_err])
    check(E.shape == (len(p), 2), lambda: 'errors of shape %s' % (E.shape,))

    def pct(v, q):
        s = np.sort(v)
        x = q/100.*(len(s)-1)
        i = int(math.floor(x))
        return s[i] if i+1 >= len(s) else s[i]+(x-i)*(s[i+1]-s[i])
    for k in range(len(p)):
        lo, hi = pct(M[:, k], 15.865), pct(M[:, k], 84.135)
        close(E[k], [p[k]-lo, hi-p[k]], rtol=1e-8, atol=1e-11*abs(p[k]), what='lower and upper error of parameter %d' % k)
    # reloading
    f2 = run(fitter(c, o), err_filename=fn, reload_errors=True)
    same(np.vstack([f2.z_err, f2.vel_disp_err, f2.flux_arr_err, f2.cont_coeff_err]), E, 'reloaded errors')
    # instrument resolution
    R = c['res']
    corr = lambda v: math.sqrt(v*v-R*R) if abs(v) > R else 0.
    for g in (f, f2):
        with quiet():
            g.calculate_inst_corr_vel_disp(err_filename=fn)
        close(g.vel_disp_inst_corr, corr(p[1]), rtol=1e-9, atol=1e-9, what='corrected dispersion')
        v = np.array([corr(x) for x in M[:, 1]])
        close(g.vel_disp_inst_corr_err, [corr(p[1])-pct(v, 15.865), pct(v, 84.135)-corr(p[1])], rtol=1e-8, atol=1e-8, what='errors of the corrected dispersion')
    same(np.asarray(f.load_mc_sim_matrix(err_filename=fn)), M, 'saved realisations after use')
    with quiet():
        f.calculate_inst_corr_vel_disp(noErrors=True)
    check(np.all(np.asarray(f.vel_disp_inst_corr_err) == 0), 'errors of the corrected dispersion when not asked for')
    raises(ValueError, lambda: fitter(c, o, num_MC=2).fit(noPlot=True, err_filename=None) if False else f.load_mc_sim_matrix(), 'missing file name')
    os.unlink(fn)
    return True, ['resolved' if corr(p[1]) > 0 else 'unresolved']


def t_spread(c):
    """spread of the realisations equals the propagated error."""
    c = dict(c, snr=max(c['snr'], 20.))
    o = make(c, noise=0.)
    np.random.seed(c['seed'] % 2**31)
    fn = os.path.join(os.environ['PBT_SCRATCH'], 'mcs%d.pkl' % os.getpid())
    n = 60
    f = run(fitter(c, o, num_MC=n), err_filename=fn)
    M = np.asarray(f.load_mc_sim_matrix(err_filename=fn))
    os.unlink(fn)
    sd = cov(c, o)
    nl = len(SETS[c['set']][0])
    for k in range(2+nl):
        s = np.std(M[:, k])/sd[k]
        check(.55 < s < 1.6, lambda: 'spread of parameter %d is %.3f of the propagated error (%d realisations)' % (k, s, n))
    # continuum in the middle of the fit window
    w = np.mean(o.w[o.use])
    b = np.array([0.]*(2+nl)+[w**k for k in range(M.shape[1]-2-nl)])
    s = np.std(M.dot(b))/cov(c, o, along=b)
    check(.5 < s < 1.7, lambda: 'spread of the continuum is %.3f of the propagated error (%d realisations)' % (s, n))
    return True, ['spread']


def t_refuse(c):
    o = make(c)
    f = fitter(c, o)
    f.instrument.instrument_resolution = -abs(c['res'])
    raises(ValueError, lambda: f.fit(noPlot=True, noErrors=True), 'negative resolution')
    raises(ValueError, lambda: fitter(c, o, shape1D='lorentz'), 'unknown shape')
    f = fitter(c, o, num_MC=2)
    with quiet():
        raises(ValueError, lambda: f.fit(noPlot=True), 'errors without a file name')
    return True, ['refused']


@st.composite
def s_neg(draw):
    c = draw(s_fit())
    c['sgn'] = [draw(st.sampled_from([-1, -1, -1, 1])), draw(st.sampled_from([-1, 1])), draw(st.sampled_from([-1, 1]))]
    c['fv'] = draw(st.one_of(num(.2, .7, 2), num(.7, 3., 2)))
    c['noise'] = draw(st.sampled_from([0., 1.]))
    return c


def t_negative(c):
    """absorption, or noise fitted far from the truth: no negative dispersion or primary flux is reported, and the model is that of the values reported."""
    o = make(c, noise=0.)
    r = rng(c['seed']+1)
    nl = len(SETS[c['set']][0])
    q = o.p.copy()
    q[2:2+nl] *= c['sgn'][:nl]
    d = model(c, o.w, q)
    o.flux = np.where(o.use, d+c['noise']*o.err*r.normal(size=len(o.w)), o.flux)
    f = run(fitter(c, o), noErrors=True)
    p = result(c, f)
    check(np.all(np.isfinite(p)), lambda: 'results %s' % p)
    check(f.vel_disp >= 0 and f.flux_arr[0] >= 0, lambda: 'dispersion %r and flux %r reported' % (f.vel_disp, f.flux_arr[0]))
    s = f.galaxy.spec1D_trim
    got = f.final_model[np.isin(s.obswave, o.w[o.use])]
    w, e, d = o.w[o.use], o.err[o.use], o.flux[o.use]
    scale = np.abs(d).max()
    if f.vel_disp > 1e-3:
        close(got, model(c, w, p), rtol=0, atol=1e-9*scale, what='fitted model')
    return c['sgn'][0] < 0, ['+'.join(SETS[c['set']][0]), 'absorption' if c['sgn'][0] < 0 else 'emission', 'noise' if c['noise'] else 'clean']


SUBS = [Sub('recovery', s_fit(), t_recover, 120, 3000), Sub('noisy', s_fit(), t_noisy, 80, 2500), Sub('errors', s_fit(), t_errors, 60, 1500),
        Sub('spread', s_fit(), t_spread, 12, 300), Sub('refused', s_fit(), t_refuse, 10, 100),
        Sub('absorption', s_neg(), t_negative, 8, 300, 8, 250)]
