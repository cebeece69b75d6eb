"""C11: 1D aperture dispersion correction."""
from .core import *
from . import ref
from .build1d import *

PROPERTY = 'C11'
RULE = ('Random galaxies, slits, extraction choices and PSFs for both treatments; oracle: an independent direct-sum slit integral '
        '(PSF by explicit summation, Gauss-Legendre reference dispersion), and laws relating two models. Non-trivial: not round, '
        'or a PSF is present, and the dispersion is not constant.')
ASSUMPTIONS = ['relative tolerance 1e-6 plus the absolute accuracy of the adaptive quadrature for very small galaxies', 'across-slit and along-slit offsets are not combined with each other']


def warmup():
    c = dict(re=.5, q=.5, q0=.19, n=1., pa=20., fwhm=.5, ptype='Gaussian', beta=2.5, dith=None, slit=.7, ext='optimal', width=None,
             rad=None, xc=0., yc=0., z=2., rest=5000., nPix=2, rem=.4, qm=.6, slope=-.089, rcore=1/300.)
    for k in ('Gaussian', 'Moffat'):
        for mis in (False, True):
            disp(dict(c, ptype=k), mis)


def t_ref(c):
    want = ref.refdisp(c, c['mis'])
    m = disp(c, c['mis'])
    close(m.disp_aper_ratio, want['ratio'], rtol=want['tol'], what='aperture-to-reference ratio')
    close(m.sigma_ap, want['sigma_ap'], rtol=1e-6, what='aperture dispersion')
    close(m.sigma_e, want['sigma_e'], rtol=want['tol'], what='reference dispersion')
    return (c['q'] < 1 or c['fwhm'] > 0) and c['slope'] != 0, labels1d(c) + ['misaligned' if c['mis'] else 'aligned']


def t_law(c):
    law, mis = c['law'], c['mis']
    ref.refdisp(c, mis)
    m = disp(c, mis)
    a = m.disp_aper_ratio

    def b(**kw):
        return disp(dict(c, **kw), mis).disp_aper_ratio
    if law == 'mirror':
        close(b(pa=-c['pa'], xc=-c['xc']), a, rtol=1e-7, what='mirrored misalignment')
        close(b(pa=c['pa']+180.), a, rtol=1e-7, what='half-turned galaxy')
        close(b(xc=-c['xc'], yc=-c['yc']), a, rtol=1e-7, what='opposite offset')
        if not mis:
            close(b(pa=c['pa']+c['k']*17.), a, rtol=1e-9, what='aligned treatment ignores the misalignment')
    elif law == 'angular':
        k = c['k']
        cc = dict(c, **{x: None if c[x] is None else c[x]*k for x in ('re', 'rem', 'fwhm', 'slit', 'width', 'rad', 'xc', 'yc')})
        # the number of pixels depends on the size in arcsec: compensate
        f1 = (c['re'] if mis else c['re']*np.sqrt(c['q'])) <= .1
        f2 = (cc['re'] if mis else cc['re']*np.sqrt(c['q'])) <= .1
        if f1 and not f2:
            cc['nPix'] = 2*c['nPix']
        elif f2 and not f1:
            c2 = dict(c, nPix=2*c['nPix'])
            a = disp(c2, mis).disp_aper_ratio
        t = ref.refdisp(cc, mis)['tol']+ref.refdisp(c, mis)['tol']
        close(disp(cc, mis).disp_aper_ratio, a, rtol=t, what='all angular sizes scaled')
    elif law == 'round':
        cc = dict(c, q=1.)
        w = c['width'] if c['width'] is not None else ref.ext_width(dict(cc, pa=0.))
        x = disp(dict(cc, width=w), True).disp_aper_ratio
        y = disp(dict(cc, width=w), False).disp_aper_ratio
        close(x, y, rtol=1e-7, what='both treatments for a round galaxy')
        z = disp(dict(cc, width=w, pa=c['pa']+c['k']*31.), True).disp_aper_ratio
        if c['xc'] == 0 and c['yc'] == 0:
            close(z, y, rtol=1e-7, what='round galaxy at any angle')
    elif law == 'flat':
        close(b(slope=0.), 1., rtol=ref.refdisp(c, mis)['tol'], what='constant dispersion profile')
    elif law == 'power':
        # the second moment scales with the square of the dispersion profile: declining profiles fall below their centre
        s = [disp(dict(c, slope=k), mis).sigma_e for k in (-.3, -.1, .1, .3)]
        R = c['rad'] if c['rad'] is not None else c['re']*np.sqrt(c['q'])
        rem = c['rem']*np.sqrt(c['qm'])
        if R <= rem:
            check(s[0] > s[1] > 1. > s[2] > s[3], 'dispersion inside the mass radius: %s' % s)
    elif law == 'refused':
        raises(ValueError, lambda: b(ext='top-hat'), 'unknown extraction')
    return (c['q'] < 1 or c['fwhm'] > 0) and c['slope'] != 0, [law]


def t_shared(c):
    g, ins = galaxy(c), instrument(c)
    keep = (g.re_arcsec, g.q, g.delt_PA, g.re_mass_arcsec, g.q_mass, g.n, ins.slit_width, ins.PSF.PSF_FWHM)
    for mis, nPix, w, e in c['ops']:
        cc = dict(c, nPix=nPix, width=w, ext=e)
        m = disp(cc, mis, g, ins)
        f = disp(cc, mis)
        close(m.disp_aper_ratio, f.disp_aper_ratio, rtol=1e-9, what='model sharing galaxy and instrument')
    check(keep == (g.re_arcsec, g.q, g.delt_PA, g.re_mass_arcsec, g.q_mass, g.n, ins.slit_width, ins.PSF.PSF_FWHM),
          'galaxy or instrument settings changed')
    return len(c['ops']) > 1 and c['fwhm'] > 0, ['%d' % len(c['ops'])]


def ext(s, **kw):
    keys = list(kw)
    return st.tuples(s, *[kw[k] for k in keys]).map(lambda t: dict(t[0], **dict(zip(keys, t[1:]))))


SUBS = [Sub('reference', ext(cfg1d(rotm=False), mis=st.booleans()), t_ref, 1600, 30000),
        Sub('laws', ext(cfg1d(rotm=False), mis=st.booleans(), k=num(.2, 5, 1),
                        law=st.sampled_from(['mirror', 'angular', 'round', 'flat', 'power', 'refused'])), t_law, 1000, 20000),
        Sub('shared', ext(cfg1d(rotm=False), ops=st.lists(st.tuples(st.booleans(), st.integers(2, 5),
            st.one_of(st.none(), num(.3, 3, 1)), st.sampled_from(['optimal', 'boxcar'])), min_size=1, max_size=4)), t_shared, 300, 5000)]
