"""C23: setting up a 2D fit from raw spectra, end to end."""
import shutil
import tempfile
from .core import *
from . import ref
from . import buildprep as bp
from .build2d import *
from misfit.galaxy import Galaxy, ObsSpectrum1D, ObsSpectrum2D, ObsSpectrum2DBasic
from misfit.fit import FitEmissionLines2D

PROPERTY = 'C23'
RULE = ('Random raw spectra and ways of naming the lines; oracles: preparation run directly, the line tables, and - end to end - a noise-free galaxy of known parameters '
        'embedded in a larger raw spectrum, which the fit model must reproduce at those parameters and at no clearly different ones. Non-trivial: the fit object was built '
        'and rows or wavelengths were trimmed.')
ASSUMPTIONS = ['lines well inside the fitted wavelength window', 'object well inside the rows kept',
               'the end-to-end residual is below 1e-2 of the signal in quadrature (edges of the trimmed grid)']

ARRS = ('wave', 'flux', 'flux_err', 'flux_incl_cont', 'cont_model', 'spec_mask', 'spec_weight', 'mask_qual', 'mask_sky', 'mask_low_snr', 'fitting_weight_matrix', 'obswave', 'restwave')
NUMS = ('m0', 'm0_shift', 'lam0', 'full_l_ind', 'full_r_ind', 'ypos', 'median_flux_error', 'dlam')


def state(s):
    out = {}
    for k in ARRS+NUMS+('wh_sky', 'wh_nosky', 'low_snr_row_inds', 'linenames_arr', 'restwave_arr', 'flux_ratio_arr', 'm_lims'):
        if hasattr(s, k):
            v = getattr(s, k)
            out[k] = None if v is None else np.array(v)
    return out


def equal(a, b, what):
    check(set(a) == set(b), what+': other attributes')
    for k in a:
        if a[k] is None or b[k] is None:
            check(a[k] is None and b[k] is None, lambda: '%s: %s set in one only' % (what, k))
        else:
            same(b[k], a[k], what+': '+k)


LINES = {'Halpha': ['HA6565'], 'Hbeta': ['HB4863'], 'OIII': ['OIII5008', 'OIII4960']}
REST = {'HA6565': 6564.60, 'HB4863': 4862.71, 'OIII5008': 5008.24, 'OIII4960': 4960.295}
RATIO = {'HA6565': 1., 'HB4863': 1., 'OIII5008': 1., 'OIII4960': .333333}


def objects(c, d):
    g, s, ins = bp.objects(c, d)
    g.n, g.re_arcsec, g.q, g.q0 = 1., .5, .6, .19
    return g, s, ins


def one(c, d, g):
    """the 1D spectrum holds its own data at the wavelengths of the prepared 2D spectrum."""
    s, o = g.spec2D, g.spec1D
    close(s.obswave, s.wave, rtol=0, what='observed wavelengths')
    close(s.restwave, s.wave/(1.+d.z), rtol=1e-12, what='rest wavelengths')
    if c['nocont']:
        same(o.wave, d.wave, 'wavelengths of the 1D spectrum without continuum subtraction')
        l, n = 0, len(d.wave)
    else:
        l, n = int(np.argmin(np.abs(d.wave-o.wave[0]))), len(o.wave)
        same(o.wave, d.wave[l:l+n], 'wavelengths of the 1D spectrum')
        check(o.wave[0] <= s.wave[0] and o.wave[-1] >= s.wave[-1], '1D spectrum covers less than the 2D spectrum')
    same(np.asarray(o.flux), d.flux1[l:l+n], '1D flux')
    same(np.asarray(o.flux_err), d.err1[l:l+n], '1D errors')
    check(len(o.spec_mask) == n and np.all(np.asarray(o.spec_mask) <= d.mask1[l:l+n]), '1D mask')
    close(o.obswave, o.wave, rtol=0, what='observed wavelengths of the 1D spectrum')
    close(o.restwave, o.wave/(1.+d.z), rtol=1e-12, what='rest wavelengths of the 1D spectrum')


def t_setup(c):
    """a fit set up from raw data holds the directly prepared data; a second one leaves it alone."""
    d = bp.raw(c)
    g0, s0, i0 = objects(c, d)
    try:
        with quiet():
            s0.fit_prep_calcs(g0, i0)
    except Exception:
        raise ref.Skip('preparation not possible')
    one(c, d, g0)
    g, s, ins = objects(c, d)
    names = LINES[c['line']]
    kw = {}
    how = c['how']
    if how == 'group':
        kw = dict(linegroup_name=c['line'])
    elif how == 'names':
        kw = dict(linenames_arr=list(names))
    elif how == 'arrays':
        kw = dict(linenames_arr=list(names), restwave_arr=np.array([REST[n] for n in names]), flux_ratio_arr=np.array([RATIO[n] for n in names]))
    elif how == 'spectrum':
        s.initialize_lineset()
    elif how == 'spectrum-names':
        s.linenames_arr = list(names)
        kw = dict(linegroup_name=c['line'])
    elif how == 'fit-waves':
        # waves shared through the fit object
        kw = dict(linenames_arr=list(names), restwave_arr=[REST[n] for n in names])
    before = {k: np.copy(v) for k, v in d.__dict__.items() if isinstance(v, np.ndarray)}
    if c['skip']:
        ref0 = state(s)
    with quiet():
        f = FitEmissionLines2D(galaxy=g, instrument=ins, skip_fit_prep_calcs=c['skip'], **kw)
    for k in before:
        same(getattr(d, k), before[k], 'caller\'s array '+k)
    check(f.galaxy is g and f.instrument is ins, 'fit holds other objects')
    s = f.galaxy.spec2D
    for o, w in ((f, 'fit'), (s, 'spectrum')):
        check(list(o.linenames_arr) == names, lambda: 'line names of the %s: %r' % (w, o.linenames_arr))
        close(np.array(o.restwave_arr, dtype=float), [REST[n] for n in names], rtol=1e-12, what='wavelengths of the '+w)
        close(np.array(o.flux_ratio_arr, dtype=float), [RATIO[n] for n in names], rtol=1e-12, what='ratios of the '+w)
    if c['skip']:
        now = state(s)
        for k in ('wave', 'flux', 'flux_err', 'spec_mask', 'spec_weight'):
            same(now[k], ref0[k], 'unprepared '+k)
        check(not s.prepared_for_fitting, 'marked as prepared although preparation was skipped')
        return False, [how, 'skipped']
    st0 = state(s)
    equal(state(s0), st0, 'set up by the fit rather than directly')
    # another fit of the same galaxy, and preparing again
    with quiet():
        f2 = FitEmissionLines2D(galaxy=g, instrument=ins, **kw)
    equal(st0, state(f2.galaxy.spec2D), 'after another fit was set up')
    with quiet():
        s.fit_prep_calcs(g, ins)
    equal(st0, state(g.spec2D), 'after preparing again')
    return s.flux.shape[0] < c['ny'] or s.flux.shape[1] < len(d.wave), [how, c['line'], 'dither' if c['dither'] else 'plain']


@st.composite
def s_setup(draw):
    c = draw(bp.prep_cfg())
    c['how'] = draw(st.sampled_from(['group', 'names', 'arrays', 'spectrum', 'spectrum-names', 'fit-waves']))
    c['skip'] = draw(st.integers(0, 4)) == 0
    return c


# ----------------------------------------------------------------------------------------------------------------

@st.composite
def s_end(draw):
    c = dict(seed=draw(seeds()))
    c['line'] = draw(st.sampled_from(sorted(LINES)))
    c['z'] = draw(num(.8, 2.6, 3))
    c['va'] = draw(num(-160, 160, 0))
    c['rt'] = draw(num(.08, .5, 2))
    c['sig'] = draw(num(40, 90, 0))
    c['re'] = draw(num(.35, .7, 2))
    c['n'] = draw(st.sampled_from([.7, 1., 1.5]))
    c['q'] = draw(num(.35, .95, 2))
    c['pa'] = draw(num(-45, 45, 0))
    c['fwhm'] = draw(num(.35, .7, 2))
    c['ny'] = draw(st.integers(30, 42))
    c['off'] = draw(num(-3, 3, 1))
    c['frac'] = draw(num(-.4, .4, 1))
    c['dv'] = draw(num(25, 40, 0))
    c['res'] = draw(num(20, 45, 0))
    c['slope'] = draw(st.sampled_from([0., 1., -1.]))
    c['snr'] = draw(st.sampled_from([60, 200]))
    c['sky'] = draw(st.integers(0, 2))
    c['nsub'] = draw(st.sampled_from([1, 1, 2]))
    c['nocont'] = draw(st.integers(0, 3)) == 0
    c['unit'] = draw(st.sampled_from([1., 1e-18]))
    c['dither'] = draw(st.booleans())
    return c


def t_end(c):
    rest, full, lr, mr = bp.TAB[c['line']]
    zz = 1+c['z']
    r = rng(c['seed'])
    dl = c['dv']/ref.C_KMS*rest*zz
    wave = np.arange((full[0]-4)*zz, (full[1]+4)*zz, dl)
    ny = c['ny']
    names = LINES[c['line']]
    pix = .18
    dith = 2.5 if c['dither'] else None
    mk = lambda: Spectrograph(PSF_type='Gaussian', PSF_FWHM=c['fwhm'], pixscale=pix, slit_width=.7, slit_length=ny*pix, instrument_resolution=c['res'], yspace_dither_arc=dith,
                              instrument_name='TEST', band='K')
    gal = lambda: Galaxy(z=c['z'], n=c['n'], re_arcsec=c['re'], q=c['q'], q0=.19, delt_PA=c['pa'], ID=1, dither=c['dither'])
    # the galaxy alone, on a narrow range of the raw grid around the line
    half = 14*zz if c['line'] != 'OIII' else 72*zz
    cols = np.where(np.abs(wave-rest*zz) < half)[0]
    g = gal()
    s = ObsSpectrum2D(wave=wave[cols], flux=np.ones((ny, len(cols))), flux_err=np.ones((ny, len(cols))), spec_type='wave')
    s.m0 = (ny-1)/2.
    s.ypos = s.m0
    s.linenames_arr, s.restwave_arr, s.flux_ratio_arr = list(names), np.array([REST[n] for n in names]), np.array([RATIO[n] for n in names])
    g.set_spectrum_2D(s)
    sh = np.round(c['off'])+c['frac']
    par = np.array([c['va'], c['rt'], c['sig'], sh, c['z']])
    m = AperModel2D(galaxy=g, instrument=mk(), theta=par, kinProfile=kc.KinProfileFiducial(), intensityProfile=kc.IntensityProfileFiducial(g), nSubpixels=c['nsub']).model
    line = np.zeros((ny, len(wave)))
    line[:, cols] = m/m.max()*c['snr']
    lam = wave-rest*zz
    b = r.normal(size=ny)
    slope = 0. if c['nocont'] else c['slope']*.01
    cont = np.zeros(line.shape) if c['nocont'] else b[:, None]+slope*lam[None]
    u = c['unit']
    err = np.ones(line.shape)
    mask = np.ones(line.shape)
    inl = np.where((wave >= lr[0]*zz) & (wave <= lr[1]*zz))[0]
    flux = line+cont
    bad = r.choice(inl, c['sky'], replace=False)
    for k in bad:                                                # sky-dominated columns hold junk
        err[:, k] = 30.
        flux[:, k] += 40*r.normal(size=ny)
    g = gal()
    s = ObsSpectrum2D(wave=wave, flux=flux*u, flux_err=err*u, spec_mask=mask, band='K', linegroup_name=c['line'])
    s.ypos = float(np.round((ny-1)/2.+sh))
    s.no_continuum_subtraction = c['nocont']
    g.set_spectrum_2D(s)
    f1 = line.sum(axis=0)*.3+5.+slope*lam
    g.set_spectrum_1D(ObsSpectrum1D(wave=wave, flux=f1*u, flux_err=np.ones(len(wave))*u*.5, spec_mask=np.ones(len(wave))))
    ins = mk()
    free = np.array([True, True, True, True, True])
    with quiet():
        f = FitEmissionLines2D(galaxy=g, instrument=ins, linegroup_name=c['line'], kinProfile=kc.KinProfileFiducial(), intensityProfile=kc.IntensityProfileFiducial(g),
                               kinModelOptions=KinModel2DOptions(nSubpixels=c['nsub']))
    s = g.spec2D
    true = (ny-1)/2.+sh-s.full_l_ind                             # row of the object in the prepared spectrum
    n = s.flux.shape[0]
    if not (3 < true < n-4):
        raise ref.Skip('object close to the rows cut')
    par = np.array([c['va'], c['rt'], c['sig'], true-s.m0, c['z']])
    bounds = np.stack([par-np.array([400., .05, 30., 5., .01]), par+np.array([400., .5, 100., 5., .01])], axis=1)
    f.thetaSettings = kc.Theta2DSettingsFiducial(theta=par.copy(), theta_vary=free, theta_bounds=bounds)
    with quiet():
        f.setup_model()

    def chi(p):
        with quiet():
            f.update_model(np.array(p))
        k = (s.spec_mask*s.mask_sky) > 0
        q = f.kinModel.model
        w = np.asarray(s.fitting_weight_matrix)
        return float((w*((s.flux-q)/s.flux_err)**2)[k].sum()/max((w*(s.flux/s.flux_err)**2)[k].sum(), 1e-300))
    k = (s.spec_mask*s.mask_sky) > 0
    if k.sum() < 20:
        raise ref.Skip('little left')
    x = chi(par)
    check(x < 2e-3, lambda: 'model at the true parameters leaves a fraction %.3g of the signal' % x)
    # the object is where the preparation says it is
    if not c['sky']:                                             # (masked columns hide part of a rotating object)
        check(abs(s.m0+s.m0_shift-true) < .3, lambda: 'object measured at row %.3f, is at %.3f' % (s.m0+s.m0_shift, true))
        check(abs(s.lam0-rest*zz) < 1.*dl+.25*abs(c['va'])/c['dv']*dl, lambda: 'line measured at %.2f, is at %.2f' % (s.lam0, rest*zz))
    lab = [c['line'], 'dither' if c['dither'] else 'plain']
    dz = c['dv']/ref.C_KMS*zz
    for a, what in (([0, 0, 0, 0, dz], 'redshift'), ([0, 0, 0, 0, -dz], 'redshift'), ([0, 0, 45, 0, 0], 'dispersion')):
        y = chi(par+a)
        check(y > 5*x and y > 3e-3, lambda: 'another %s fits as well: %.3g after %.3g' % (what, y, x))
    if abs(c['va']) >= 60 and abs(c['pa']) <= 30 and c['q'] <= .85:
        lab.append('rotating')
        y = chi(par*np.array([-1, 1, 1, 1, 1]))
        check(y > 20*x and y > 1e-2, lambda: 'reversed rotation fits as well: %.3g after %.3g' % (y, x))
        for d in (-1, 1):
            y = chi(par+[0, 0, 0, d, 0])
            check(y > 3*x, lambda: 'another centre fits as well: %.3g after %.3g' % (y, x))
    check(chi(par) == x, 'the same parameters give another model')
    return True, lab


GAL = ('z', 'n', 're_arcsec', 'q', 'q0', 'sersicPA', 'delt_PA', 'RA', 'DEC', 'lmass', 'lsfr', 'Av', 'q_mass', 're_mass_arcsec')


@st.composite
def s_attach(draw):
    c = dict(seed=draw(seeds()), given=draw(st.lists(st.sampled_from(GAL[1:]), unique=True, max_size=6)), z=draw(st.one_of(num(0, 6, 4), st.just(0.))))
    c['dither'] = draw(st.sampled_from([None, True, False]))
    c['order'] = draw(st.lists(st.sampled_from(['1D', '2D', '2D-again', '1D-again']), min_size=1, max_size=4))
    for k in ('vel1', 'vel2', 'mask1', 'mask2', 'noflux', 'basic'):
        c[k] = draw(st.integers(0, 3)) == 0 if k in ('vel1', 'vel2', 'noflux') else draw(st.booleans())
    c['n'], c['ny'] = draw(st.integers(2, 40)), draw(st.integers(1, 9))
    c['z2'] = draw(num(0, 6, 4))
    return c


def t_attach(c):
    """a galaxy keeps what it was given; attached spectra get rest-frame wavelengths and, if they have none, masks with nothing masked."""
    r = rng(c['seed'])
    vals = {k: float(np.round(r.uniform(.1, 5.), 3)) for k in c['given']}
    kw = dict(vals, z=c['z'])
    if c['dither'] is not None:
        kw['dither'] = c['dither']
    g = Galaxy(ID=3, **kw)
    for k in GAL:
        check(getattr(g, k) == kw.get(k, .19 if k == 'q0' else None), lambda: '%s of the galaxy: %r' % (k, getattr(g, k)))
    check(g.dither is (c['dither'] if c['dither'] is not None else True) and not g.debug and g.spec1D is None and g.spec2D is None, 'defaults of the galaxy')

    def make(o, two):
        vel, mask = c['vel2' if two else 'vel1'], c['mask2' if two else 'mask1']
        w = np.sort(r.uniform(-500., 500., c['n'])) if vel else np.sort(r.uniform(4000., 24000., c['n']))
        shape = (c['ny'], c['n']) if two else (c['n'],)
        a = dict(wave=w, flux=r.normal(size=shape), flux_err=r.uniform(.1, 1., shape))
        if two and c['noflux']:
            a['flux'] = a['flux_err'] = None
        if mask:
            a['spec_mask'] = (r.uniform(size=shape) < .8).astype(float)
        kept = {k: (None if v is None else v.copy()) for k, v in a.items()}
        t = dict(spec_type='velocity') if vel else {}
        return o(**dict(a, **t)), kept, vel

    def examine(s, kept, vel, z, what):
        for k, v in kept.items():
            if v is None:
                check(getattr(s, k) is None, lambda: '%s of the %s' % (k, what))
            else:
                same(getattr(s, k), v, '%s of the %s' % (k, what))
        check(s.spec_type == ('velocity' if vel else 'wave') and s.units_wave == 'angstroms', 'type of the '+what)
        if not vel:
            close(s.obswave, kept['wave'], rtol=0, what='observed wavelengths of the '+what)
            close(s.restwave, kept['wave']/(1.+z), rtol=1e-12, what='rest wavelengths of the '+what)
        if 'spec_mask' not in kept and kept['flux'] is not None:
            check(np.shape(s.spec_mask) == kept['flux'].shape and np.all(np.asarray(s.spec_mask) == 1), 'pixels masked without a mask: '+what)

    live = []
    for step in c['order']:
        two = step.startswith('2D')
        if step.endswith('again') and any(l[0] is two for l in live):
            # the same spectrum attached to a galaxy of another redshift
            l = [l for l in live if l[0] is two][-1]
            g2 = Galaxy(ID=4, z=c['z2'])
            s2 = l[1].copy()
            (g2.set_spectrum_2D if two else g2.set_spectrum_1D)(s2)
            examine(s2, l[2], l[3], c['z2'], 'spectrum of another galaxy')
        else:
            s, kept, vel = make((ObsSpectrum2DBasic if c['basic'] else ObsSpectrum2D) if two else ObsSpectrum1D, two)
            (g.set_spectrum_2D if two else g.set_spectrum_1D)(s)
            check((g.spec2D if two else g.spec1D) is s, 'another spectrum attached')
            live.append((two, s, kept, vel))
        for l in live:
            examine(l[1], l[2], l[3], c['z'], '2D spectrum' if l[0] else '1D spectrum')
    return c['z'] > 0 and len(c['order']) > 1, ['z0' if c['z'] == 0 else 'z', 'steps%d' % len(c['order'])]


WIN = [('wave_full_range_rest', 1), ('wave_line_range_rest', 2), ('mask_lines_wave_range_rest', 3)]


@st.composite
def s_win(draw):
    c = draw(bp.prep_cfg(bad=False))
    c['clip'] = 0
    c['weighting'] = draw(st.sampled_from(['up-edges', 'none']))
    c['how'] = [draw(st.sampled_from(['default', 'range', 'file', 'own', 'own', 'own-file'])) for _ in WIN]
    c['shrink'] = [[draw(num(-.2, .3, 3)), draw(num(-.2, .3, 3))] for _ in WIN]
    c['law'] = draw(st.sampled_from(['same', 'line', 'outside', 'continuum']))
    return c


def t_win(c):
    """the wavelength windows used are those given on the spectrum, as numbers or in a file, and the documented ones otherwise."""
    rest, full, lr, mr = bp.TAB[c['line']]
    d = bp.raw(c)
    w = []
    for i, (nm, k) in enumerate(WIN):
        lo, hi = bp.TAB[c['line']][k]
        if c['how'][i].startswith('own'):
            a, b = c['shrink'][i]
            lo, hi = lo+a*(rest-lo), hi-b*(hi-rest)
        w.append([round(float(lo), 3), round(float(hi), 3)])
    zz = 1.+c['z']
    far = lambda x, e: np.abs(x-e*zz) > .01
    for q in w:
        if not all(far(d.wave, e).all() for e in q):
            raise ref.Skip('a pixel on the border')
    name = LINES[c['line']][0]

    def go(d, how):
        g, s, ins = objects(c, d)
        tmp = tempfile.mkdtemp(dir=os.environ.get('PBT_SCRATCH'))
        try:
            for i, (nm, k) in enumerate(WIN):
                if how[i] in ('range', 'own'):
                    setattr(s, nm, np.array(w[i]))
                elif how[i] in ('file', 'own-file'):
                    fn = os.path.join(tmp, nm+'.param')
                    with open(fn, 'w') as f:
                        f.write('# linename  wave_l   wave_u\nXX1234 100. 200.\n%s %.3f %.3f\nYY1234 100. 200.\n' % (name, w[i][0], w[i][1]))
                    setattr(s, nm+'_param_filename', fn)
            with quiet():
                s.fit_prep_calcs(g, ins)
        finally:
            shutil.rmtree(tmp)
        return g, s
    inside = lambda q: (d.wave >= q[0]*zz) & (d.wave <= q[1]*zz)
    F, L, M = [inside(q) for q in w]
    cw = F & ~M
    if L.sum() < 4 or (~c['nocont'] and (cw & (d.wave < rest*zz)).sum() < 6) or (cw & (d.wave > rest*zz)).sum() < 6:
        raise ref.Skip('little left')
    try:
        g, s = go(d, c['how'])
    except Exception:
        try:                                                     # the same windows given otherwise
            go(d, ['own']*3)
        except Exception:
            raise ref.Skip('preparation not possible')
        raise
    st0 = state(s)
    if not c['nocont']:
        L = L & F
    same(s.wave, d.wave[L], 'wavelengths kept')
    law = c['law']
    if c['nocont']:
        law = 'same'
    flip = {'default': 'range', 'range': 'default', 'file': 'range', 'own': 'own-file', 'own-file': 'own'}
    if law == 'same':
        g2, s2 = go(d, [flip[h] for h in c['how']])
        equal(st0, state(s2), 'windows given another way')
    else:
        e = bp.raw(c)
        r = rng(c['seed']+5)
        k = {'line': M & ~L, 'outside': ~F & ~L, 'continuum': cw & ~L}[law]
        if not k.any():
            raise ref.Skip('no pixel to change')
        v = np.sort(r.uniform(50, 100, size=k.sum()))*c['unit']     # (a trend, so that slope and level change)
        e.flux[:, k] += v[None]
        e.flux1[k] += v
        g2, s2 = go(e, c['how'])
        if law == 'continuum':
            bad = np.abs(s2.flux-s.flux).max() if s2.flux.shape == s.flux.shape else np.inf
            check(bad > c['unit'], 'pixels between the windows do not influence the continuum')
        else:
            close(s2.flux, s.flux, rtol=1e-6, atol=2e-5*np.abs(d.flux).max(), what='fluxes after changing pixels out of use (%s)' % law)
            same(s2.wave, s.wave, 'wavelengths after changing pixels out of use')
    return any(h != 'default' for h in c['how']), [law]+['%s-%s' % (nm.split('_')[1], h) for (nm, k), h in zip(WIN, c['how'])]


SUBS = [Sub('set-up', s_setup(), t_setup, 160, 5000), Sub('end-to-end', s_end(), t_end, 160, 6000), Sub('attach', s_attach(), t_attach, 300, 8000),
        Sub('windows', s_win(), t_win, 160, 5000)]
