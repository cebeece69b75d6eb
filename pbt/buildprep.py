"""Synthetic 1D and 2D spectra for the preparation step, with a reference of its masks."""
from .core import *
from . import ref
from misfit.galaxy import Galaxy, ObsSpectrum1D, ObsSpectrum2D
from misfit.instrument import Spectrograph

# line, full range, line range, masked range (rest frame; the documented windows)
TAB = {'Halpha': (6564.60, (6454.60, 6674.60), (6555.60, 6573.60), (6533.60, 6599.60)),
       'Hbeta': (4862.71, (4787.71, 4932.71), (4856.71, 4868.71), (4852.71, 4872.71)),
       'OIII': (5008.24, (4880.24, 5118.24), (5002.29, 5015.24), (4928.24, 5038.24))}
CUT = {'K': 2., 'H': 3., 'J': 3., 'Y': 3.}


def cutoff(c):
    return c.get('bcut') or CUT[c['band']]


@st.composite
def prep_cfg(draw, bad=True, dither=None, noise=None, ny=(20, 34)):
    c = dict(seed=draw(seeds()))
    c['line'] = draw(st.sampled_from(sorted(TAB)))
    c['band'] = draw(st.sampled_from('KHJ'))
    c['z'] = draw(num(.8, 2.8, 4))
    c['ny'] = draw(st.integers(*ny))
    c['dlam'] = draw(num(3, 6, 1))
    c['margin'] = draw(num(5, 60, 0))          # wavelength coverage beyond the full range (or short of it if clip)
    c['clip'] = draw(st.sampled_from([0, 0, 0, 0, 1, 2]))
    c['m'] = draw(num(.38, .62, 3))
    c['ysig'] = draw(num(1.2, 2.2, 2))
    c['lsig'] = draw(num(1.2, 2.5, 2))         # in pixels
    c['amp'] = draw(num(20, 200, 0))
    c['dither'] = draw(st.booleans()) if dither is None else dither
    c['off'] = draw(num(9, 13, 1))
    c['noise'] = draw(st.sampled_from([0., .3, 1.])) if noise is None else noise
    c['slope'] = draw(st.sampled_from([0., .01, -.02, .005]))
    c['csc'] = draw(st.sampled_from([0., 1., 5.]))
    c['psky'] = draw(st.sampled_from([0., .05, .15]))
    c['skyx'] = draw(num(3.5, 15, 1))
    c['ybump'] = draw(st.integers(-1, 1))
    c['pbad'] = draw(st.sampled_from([0., .002, .02])) if bad else 0.
    c['bad1'] = draw(st.booleans()) if bad else False
    c['edge1'] = draw(st.integers(0, 6)) if bad else 0
    c['deadrow'] = draw(st.booleans()) if bad else False
    c['nocont'] = draw(st.integers(0, 4)) == 0
    c['weighting'] = draw(st.sampled_from(['up-edges', 'up-edges', 'none', 'optimal']))
    c['unit'] = draw(st.sampled_from([1., 1., 1e-18, 1e3]))
    return c


class Raw(object):
    pass


def raw(c):
    """the arrays handed to the code."""
    r = rng(c['seed'])
    d = Raw()
    rest, full, lr, mr = TAB[c['line']]
    zz = 1+c['z']
    lo, hi = full[0]*zz-c['margin'], full[1]*zz+c['margin']
    if c['clip'] == 1:
        lo = mr[0]*zz+2*c['dlam']              # no continuum on the left
    elif c['clip'] == 2:
        hi = mr[1]*zz-2*c['dlam']
    d.wave = np.arange(lo, hi, c['dlam'])
    nw, ny = len(d.wave), c['ny']
    d.rest, d.z = rest, c['z']
    d.m = c['m']*(ny-1)
    y = np.arange(ny)
    g = lambda mu: np.exp(-.5*((y-mu)/c['ysig'])**2)
    prof = g(d.m)
    if c['dither']:
        prof = prof-.5*g(d.m-c['off'])-.5*g(d.m+c['off'])
    d.prof = prof
    d.lprof = np.exp(-.5*((d.wave-rest*zz)/(c['lsig']*c['dlam']))**2)
    d.line = c['amp']*prof[:, None]*d.lprof[None]
    lam = d.wave-rest*zz
    d.b = r.normal(size=ny)*c['csc']
    d.cont = d.b[:, None]+c['slope']*lam[None]
    d.sky = r.uniform(size=nw) < c['psky']
    lev = np.where(d.sky, c['skyx'], 1.)*r.uniform(.9, 1.1, size=nw)
    d.err = np.tile(lev[None], (ny, 1))*r.uniform(.95, 1.05, size=(ny, nw))
    d.flux = d.line+d.cont+c['noise']*d.err*r.normal(size=(ny, nw))
    d.mask = np.ones((ny, nw))
    d.weight = r.uniform(.5, 2, size=(ny, nw))
    e1 = lev*r.uniform(.95, 1.05, size=nw)
    d.flux1 = (c['amp']*3*d.lprof+7.+c['slope']*lam)+.3*c['noise']*e1*r.normal(size=nw)
    d.err1 = e1
    d.mask1 = np.ones(nw)
    u = c['unit']
    for k in ('line', 'cont', 'err', 'flux', 'flux1', 'err1', 'b'):
        setattr(d, k, getattr(d, k)*u)
    p = c['pbad']
    if p:
        k = r.uniform(size=(ny, nw))
        d.flux[k < p] = np.nan
        d.err[(k > .3) & (k < .3+p)] = np.inf
        d.weight[(k > .6) & (k < .6+p)] = 0.
        d.mask[(k > .8) & (k < .8+p)] = 0.
        z = (k > .9) & (k < .9+p)
        d.mask[z] = 0.
        d.err[z] = 0.
        if c['deadrow']:
            j = r.randint(ny)
            d.flux[j] = np.nan
    if c['bad1']:
        k = r.uniform(size=nw)
        d.flux1[k < .01] = np.nan
        d.err1[(k > .4) & (k < .41)] = 0.
        d.mask1[(k > .8) & (k < .81)] = 0.
        if c['edge1']:
            d.err1[:c['edge1']] = 0.
            d.flux1[-c['edge1']:] = np.nan
    return d


def objects(c, d):
    s = ObsSpectrum2D(wave=d.wave, flux=d.flux, flux_err=d.err, spec_mask=d.mask, spec_weight=d.weight, band=c['band'], linegroup_name=c['line'])
    s.weighting_type = c['weighting']
    s.no_continuum_subtraction = c['nocont']
    if c.get('bcut'):
        s.band_cutoff = c['bcut']
    if c.get('rcut'):
        s.row_snr_cut = c['rcut']
    s.ypos = float(np.round(d.m)+c['ybump'])
    g = Galaxy(z=d.z, ID=1, delt_PA=10., dither=c['dither'])
    g.set_spectrum_2D(s)
    s1 = ObsSpectrum1D(wave=d.wave, flux=d.flux1, flux_err=d.err1, spec_mask=d.mask1)
    g.set_spectrum_1D(s1)
    ins = Spectrograph(PSF_type='Gaussian', PSF_FWHM=.6, pixscale=.18, slit_width=.7, instrument_resolution=40.)
    return g, s, ins


def edges(m, n=10):
    """mask of a 1D spectrum after excluding n pixels inside each end of the good data, where data are missing beyond that end."""
    good = [k for k in range(len(m)) if m[k] == 1]
    out = m.copy()
    if not good:
        return out
    a, b = good[0], good[-1]
    for k in range(len(m)):
        if a > 0 and k < a+n:
            out[k] = 0.
        if b < len(m)-1 and k > b-n:
            out[k] = 0.
    return out


def refmask(c, d):
    """quality mask of the whole input spectrum, by definition."""
    ny, nw = d.flux.shape
    m = np.ones((ny, nw))
    for i in range(ny):
        for k in range(nw):
            if not (math.isfinite(d.flux[i, k]) and math.isfinite(d.err[i, k])) or d.weight[i, k] == 0 or d.mask[i, k] == 0:
                m[i, k] = 0.
    m1 = None
    if not c['nocont']:
        m1 = np.ones(nw)
        anyerr = np.any(d.err1 != 0)
        for k in range(nw):
            if not (math.isfinite(d.flux1[k]) and math.isfinite(d.err1[k])) or d.mask1[k] == 0 or (anyerr and d.err1[k] == 0):
                m1[k] = 0.
        m1 = edges(m1)
        m[:, m1 == 0] = 0.
    return m, m1


def refsky(c, d, m):
    """columns within the line window, their quality mask and sky flags."""
    e = np.where(m == 1, d.err, 0.)
    lev = np.sqrt((e**2).sum(axis=0))
    med = np.median(lev)
    rest, full, lr, mr = TAB[c['line']]
    zz = 1+c['z']
    cols = [k for k in range(len(d.wave)) if lr[0]*zz <= d.wave[k] <= lr[1]*zz and full[0]*zz <= d.wave[k] <= full[1]*zz]
    lev = lev[cols]
    sky = lev >= cutoff(c)*med
    tie = np.any(np.abs(lev-cutoff(c)*med) <= 1e-9*med)
    return np.array(cols, dtype=int), sky, tie, med


def reflow(flux, err, calc, cut):
    """rows excluded for low signal to noise: below the threshold; isolated runs of at most two good rows (when there is more
    than one run); and everything outside the outermost excluded row of each half."""
    n = flux.shape[0]
    snr = []
    for i in range(n):
        k = calc[i] == 1
        s, v = flux[i, k].sum(), (err[i, k]**2).sum()
        snr.append(abs(s)/math.sqrt(v) if v > 0 else float('nan'))
    snr = np.array(snr)
    good = [bool(x >= cut) for x in snr]
    runs, cur = [], []
    for i in range(n):
        if good[i]:
            cur.append(i)
        elif cur:
            runs.append(cur)
            cur = []
    if cur:
        runs.append(cur)
    if len(runs) > 1:
        for q in runs:
            if len(q) <= 2:
                for i in q:
                    good[i] = False
    low = [i for i in range(n) if not good[i]]
    out = set(low)
    if low and len(low) < n:
        if min(low) < n/2.:
            out |= set(range(min(low)))
        low = sorted(out)
        if max(low) > n/2.:
            out |= set(range(max(low)+1, n))
    tie = np.any(np.abs(snr[np.isfinite(snr)]-cut) < 1e-9*max(cut, 1e-300))
    return np.array(sorted(out), dtype=int), snr, tie
