"""C17: 1D emission line model."""
import lmfit
from .core import *
from . import ref
from .c13 import LINES, WAVE, RATIO
from misfit.model.emission_lines_model import EmissionLinesSpectrum1DModel, EmissionLines1DModel

PROPERTY = 'C17'
RULE = ('Random line sets (catalogued and user-defined), wavelength grids, redshifts, widths, fluxes, continua and masks; oracles: the Gaussian formula evaluated sample by '
        'sample, measured moments (integral, centroid, width) of the model, and relations (linearity, sum over sets, redshift as a rigid shift in log wavelength, '
        'interleaved models). Non-trivial: some modelled sample differs from the continuum.')
ASSUMPTIONS = ['speed of light 299792.458 km/s', 'moments are measured on grids sampling every line by at least two samples per sigma']
CKMS = 299792.458
NAMES = sorted(LINES)


def wgrid(c):
    """uneven but smooth sampling around the first line."""
    r = rng(c['seed'])
    w0 = c['rest0']*(1+c['z'])
    n = c['n']
    return w0+c['off']+np.cumsum(r.uniform(.6, 1.4, size=n))*c['dl']-.5*n*c['dl']


def gauss(w, mu, v, f):
    s = abs(v)/CKMS*mu
    return np.array([f/(s*math.sqrt(2*math.pi))*math.exp(max(-.5*((x-mu)/s)**2, -745.)) if abs((x-mu)/s) < 38.5 else 0. for x in w])


def lines(name):
    return [(WAVE[k], RATIO[k]) for k in LINES[name]]


def scale_of(fl, v, mu):
    return max(abs(f) for f in fl)/(abs(v)/CKMS*mu*2.5)


def t_set(c):
    """one line set."""
    name = c['names'][0]
    if c['custom']:
        ls = [(c['rest0']*k, r) for k, r in c['custom']]
        kw = dict(linenames_arr=['X%d' % k for k in range(len(ls))], restwave_arr=np.array([x for x, r in ls]), flux_ratio_arr=np.array([r for x, r in ls]))
    else:
        ls = lines(name)
        c = dict(c, rest0=ls[0][0])
        kw = dict(name=name)
    w = wgrid(c)
    w0 = w.copy()
    m = EmissionLines1DModel(**kw)
    m.make1DProfile(w, c['z'], c['v'], c['flux'][0])
    want = sum(gauss(w, x*(1+c['z']), c['v'], c['flux'][0]*r) for x, r in ls)
    tol = 1e-9*max(scale_of(c['flux'][:1], c['v'], c['rest0']*(1+c['z'])), 1e-300)
    close(m.profile, want, rtol=1e-9, atol=tol, what='line set profile')
    same(w, w0, 'wavelengths')
    first = m.profile.copy()
    # another model and re-use
    m2 = EmissionLines1DModel(**kw)
    m2.make1DProfile(w+3., c['z']*1.01, c['v']*2, c['flux'][0]*3)
    same(m.profile, first, 'profile after using another model')
    m2.make1DProfile(w, c['z'], c['v'], c['flux'][0])
    same(m2.profile, first, 'profile of a re-used model')
    # own profile function
    f = lambda x, mu, s, fl: fl*np.exp(-np.abs(x-mu)/(abs(s)/CKMS*mu))
    m3 = EmissionLines1DModel(profile_function=f, **kw)
    m3.make1DProfile(w, c['z'], c['v'], c['flux'][0])
    close(m3.profile, sum(f(w, x*(1+c['z']), c['v'], c['flux'][0]*r) for x, r in ls), rtol=1e-9, atol=tol, what='profile with a custom line shape')
    same(EmissionLines1DModel(**kw).restwave_arr, np.array([x for x, r in ls]), 'rest wavelengths')
    return bool(np.abs(want).max() > 0), ['custom' if c['custom'] else name]


def pars(c):
    p = lmfit.Parameters()
    p.add('z', value=c['z'])
    p.add('vel_disp', value=c['v'])
    for k in range(len(c['names'])):
        p.add('flux%d' % k, value=c['flux'][k])
    for k in range(c['order']+1):
        p.add('cont_coeff%d' % k, value=c['cont'][k])
    return p


def spec(c, names=None):
    return EmissionLinesSpectrum1DModel(names_arr=list(names or c['names']), cont_order=c['order'], shape1D='gaussian')


def refspec(c, w):
    out = np.zeros(len(w))
    for k, n in enumerate(c['names']):
        for x, r in lines(n):
            out += gauss(w, x*(1+c['z']), c['v'], c['flux'][k]*r)
    for k in range(c['order']+1):
        out += c['cont'][k]*1e-18*w**k
    return out


def t_spec(c):
    c = dict(c, rest0=lines(c['names'][0])[0][0])
    w = wgrid(c)
    m = spec(c)
    got = m.make1DProfile(pars(c), w)
    want = refspec(c, w)
    tol = 1e-9*np.abs(want).max()+1e-300
    close(got, want, rtol=1e-9, atol=tol, what='spectrum')
    keep = got.copy()
    # residuals
    r = rng(c['seed']+1)
    d, e = want*r.uniform(.5, 1.5, size=len(w)), r.uniform(.5, 2, size=len(w))*max(np.abs(want).max(), 1e-30)*c['esc']
    mask = (r.uniform(size=len(w)) > c['pm']).astype(float)
    d[(mask == 0) & (r.uniform(size=len(w)) < .5)] = np.nan
    e[(mask == 0) & (r.uniform(size=len(w)) < .5)] = 0.
    d0, e0, m0 = d.copy(), e.copy(), mask.copy()
    res = m.residual1DProfile(pars(c), w, d, e, mask)
    k = mask == 1
    close(res, (want[k]-d[k])/e[k], rtol=1e-8, atol=1e-8*max(1., np.abs(want).max()/np.abs(e[k]).min() if k.any() else 1.), what='residuals of unmasked samples')
    same(d, d0, 'data')
    same(e, e0, 'errors')
    same(mask, m0, 'mask')
    # other models do not matter
    c2 = dict(c, z=c['z']*1.002, v=c['v']*1.7, names=c['names'][::-1], flux=c['flux'][::-1])
    o = spec(c2)
    o.make1DProfile(pars(c2), w+1)
    same(keep, got, 'earlier result')
    close(m.make1DProfile(pars(c), w), got, rtol=1e-12, atol=tol*1e-6, what='spectrum after using another model')
    close(o.make1DProfile(pars(c2), w), refspec(c2, w), rtol=1e-9, atol=tol, what='second model')
    # sum over sets and linearity
    tot = np.zeros(len(w))
    for j, n in enumerate(c['names']):
        p = lmfit.Parameters()
        p.add('z', value=c['z'])
        p.add('vel_disp', value=c['v'])
        p.add('flux0', value=3*c['flux'][j])
        p.add('cont_coeff0', value=0.)
        tot += EmissionLinesSpectrum1DModel(names_arr=[n], cont_order=0).make1DProfile(p, w)
    base = sum(c['cont'][q]*1e-18*w**q for q in range(c['order']+1))
    close(tot, 3*(got-base), rtol=1e-9, atol=10*tol, what='three times the sum of the single sets')
    raises(ValueError, lambda: EmissionLinesSpectrum1DModel(names_arr=list(c['names']), cont_order=1, shape1D=c['shape']), 'unsupported line shape %r' % c['shape'])
    return bool(np.abs(got-base).max() > 0), ['sets%d' % len(c['names']), 'order%d' % c['order']]


def t_moments(c):
    """integral, centroid, width of each component; rigid shift with redshift."""
    name = c['names'][0]
    z, v, f = c['z'], abs(c['v']), c['flux'][0]
    ls = lines(name)
    tot = 0.
    grids = []
    lo, hi = min(x for x, r in ls)*(1+z), max(x for x, r in ls)*(1+z)
    s = v/CKMS*lo
    w = np.arange(lo-9*s-c['fr']*s, hi+9*s*hi/lo, s/c['per'])
    m = EmissionLines1DModel(name=name)
    m.make1DProfile(w, z, v, f)
    p = m.profile
    d = w[1]-w[0]
    close(p.sum()*d, f*sum(r for x, r in ls), rtol=1e-6, what='integral of the set')
    fr = sum(r for x, r in ls)
    cen = sum(r*x for x, r in ls)/fr*(1+z)
    close((p*w).sum()/p.sum(), cen, rtol=0, atol=1e-5*s, what='centroid of the set')
    var = sum(r*((v/CKMS*x*(1+z))**2+(x*(1+z)-cen)**2) for x, r in ls)/fr
    close((p*(w-cen)**2).sum()/p.sum(), var, rtol=1e-5, what='variance of the set')
    # redshift: the same line in log wavelength
    k = c['z2']
    m.make1DProfile(w*(1+k)/(1+z), k, v, f)
    close(m.profile*(1+k)/(1+z), p, rtol=1e-9, atol=1e-9*abs(p).max(), what='profile at another redshift')
    return True, [name]


@st.composite
def s_cfg(draw):
    c = dict(seed=draw(seeds()), z=draw(num(0, 4, 4)), v=draw(num(5, 900, 1)), n=draw(st.integers(1, 60)), off=draw(num(-40, 40, 1)), dl=draw(num(.3, 8, 1)),
             rest0=draw(num(1000, 9000, 1)))
    c['names'] = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=4, unique=True))
    c['flux'] = [draw(st.sampled_from([1e-18, 1e-17, 1., 50., -2.]))*draw(num(.1, 9, 2)) for k in range(4)]
    c['order'] = draw(st.integers(0, 3))
    c['cont'] = [draw(num(-5, 5, 2))*10.**(-4*k) for k in range(4)]
    c['custom'] = draw(st.one_of(st.just([]), st.lists(st.tuples(num(.98, 1.02, 3), num(.05, 1, 2)), min_size=1, max_size=4)))
    c['pm'] = draw(st.sampled_from([0., .2, .6]))
    c['esc'] = draw(st.sampled_from([.01, 1., 100.]))
    c['per'] = draw(num(2, 6, 1))
    c['fr'] = draw(num(0, 1, 2))
    c['z2'] = draw(num(0, 4, 3))
    c['shape'] = draw(st.sampled_from(['lorentzian', 'Gaussian', 'voigt', '', None]))
    if draw(st.integers(0, 5)) == 0:
        c['v'] = -c['v']                       # a width met during a fit: only its size matters
    return c


SUBS = [Sub('line-set', s_cfg(), t_set, 400, 15000), Sub('spectrum', s_cfg(), t_spec, 800, 10000), Sub('moments', s_cfg(), t_moments, 600, 8000)]
