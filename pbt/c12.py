"""C12: 1D rotation aperture correction."""
from .core import *
from . import ref
from .build1d import *

PROPERTY = 'C12'
RULE = ('Random galaxies, slits, extraction choices, PSFs and v/sigma settings; oracle: an independent direct-sum slit integral, and '
        'laws relating two models (velocity scale, mirroring, half turn, limits, recalculation vs fresh model). Non-trivial: '
        'rotation with a slit that is neither face-on nor without light.')
ASSUMPTIONS = ['relative tolerance 1e-7 (1e-4 with the position shift, whose per-row Gaussian fit is iterative)',
               'across-slit and along-slit offsets are not combined']


def warmup():
    c = dict(re=.5, q=.5, q0=.19, n=1., pa=20., fwhm=.5, ptype='Gaussian', beta=2.5, dith=None, slit=.7, ext='optimal', width=None,
             rad=None, xc=0., yc=0., z=2., rest=5000., posshift=False, nPix=5, pad=.5, va=100., vs=1., rt=.3, iprof=0, kprof=0,
             res=40.)
    for k in ('Gaussian', 'Moffat'):
        rot(dict(c, ptype=k))


def nontriv(c):
    return c['q'] < .99 and c['vs'] != 0


def tol(c, cc=None):
    t = 1e-7
    if c.get('posshift'):
        t = 2e-4
    return max(t, cusp(c))


def cusp(c):
    """grid point on the centre: rounding of the radius is amplified by the Sersic cusp."""
    try:
        on = ref.refrot(c)['centre']
    except ref.Skip:
        on = True
    return 10.*(2*c['n']-.324)*(1e-15)**(1./c['n']) if on else 0.


def t_ref(c):
    want = ref.refrot(c)
    m = rot(c)
    # accuracy of the fitted in-slit centroids, as a velocity
    at = 1e-4*c['res']*ref.F2S if c.get('posshift') else 1e-9*abs(c['va'])
    close(m.disp_aper_ratio, want['ratio'], rtol=tol(c), atol=at/want['vrms'], what='aperture-to-reference ratio')
    close(m.sigma_aper, want['sigma_aper'], rtol=tol(c), atol=at, what='aperture dispersion')
    check(np.isfinite(m.disp_aper_ratio) and m.disp_aper_ratio >= 0, 'ratio must be finite')
    return nontriv(c), labels1d(c)


def t_law(c):
    law = c['law']
    ref.refrot(c)               # ties give no verdict
    a = rot(c).disp_aper_ratio
    t = max(tol(c), 1e-7)

    def b(**kw):
        return rot(dict(c, **kw)).disp_aper_ratio
    if law == 'scale':
        close(b(va=c['va']*c['k']), a, rtol=t, what='ratio with all velocities scaled')
        close(b(va=-c['va']), a, rtol=t, what='ratio with all velocities reversed')
        if c['vs']:
            close(b(vs=-c['vs']), a, rtol=t, what='ratio for the other sign of the dispersion')
    elif law == 'mirror':
        w = c['width'] if c['width'] is not None else ref.ext_width(c)
        close(b(pa=-c['pa'], xc=-c['xc'], width=w), a, rtol=t, what='mirrored misalignment')
        close(b(pa=c['pa']+180., xc=-c['xc'], yc=-c['yc']), a, rtol=t, what='half-turned galaxy')
        close(b(pa=c['pa']-360.), a, rtol=t, what='misalignment minus 360')
    elif law == 'angular':
        if c['kprof'] == 0:
            k = c['k']
            cc = dict(c, **{x: None if c[x] is None else c[x]*k for x in ('re', 'fwhm', 'slit', 'width', 'rad', 'xc', 'yc', 'rt')})
            ref.refrot(cc)
            close(rot(cc).disp_aper_ratio, a, rtol=max(t, 1e-6), what='all angular sizes scaled')
    elif law == 'limits':
        if c['kprof'] == 0 and c['vs'] is not None:
            # constant dispersion alone: ratio one
            close(b(vs=0.), 1., rtol=1e-7, what='pure constant dispersion')
            close(b(vs=1e-7), 1., rtol=1e-5, what='dispersion-dominated limit')
            close(b(vs=1e7), b(vs=None), rtol=1e-5, atol=1e-6, what='rotation-dominated limit')
            # aperture second moment = rotation part + dispersion part
            va, vs = c['va'], c['vs'] or 1.
            m = rot(dict(c, vs=vs))
            s0 = ref.arctan_v(c['rad'] or c['re'], va, c['rt'])/vs
            m0 = rot(dict(c, vs=None))
            close(m.sigma_aper**2, m0.sigma_aper**2+s0**2, rtol=1e-6, what='second moments add')
        elif c['vs'] is not None:
            close(b(vs=1e7), b(vs=None), rtol=1e-5, atol=1e-6, what='rotation-dominated limit')
    elif law == 'face-on':
        if c['kprof'] == 0:
            vs = c['vs'] if c['vs'] else 2.
            m = rot(dict(c, q=1., vs=vs))
            s0 = abs(ref.arctan_v(c['rad'] or c['re'], c['va'], c['rt'])/vs)
            close(m.sigma_aper, s0, rtol=1e-6, what='face-on aperture dispersion')
    elif law == 'boxcar':
        c2 = dict(c, ext='boxcar')
        o = b(ext='optimal')
        check(np.isfinite(o) and o >= 0, 'optimal ratio finite')
        raises(ValueError, lambda: b(ext=['top-hat', 'Optimal', ''][int(c['k']*10) % 3]), 'unknown extraction')
    return nontriv(c), [law]


def t_recalc(c):
    ref.refrot(c)
    g, ins = galaxy(c), instrument(c)
    m = rot(c, g, ins)
    cur = dict(c)
    n = 0
    for k, kind, v1, v2, v3 in c['ops']:
        if kind == 0:
            cur.update(va=v1, vs=v2, rt=v3)
            m.theta = theta(cur)
        elif kind == 1:
            cur['ext'] = ['optimal', 'boxcar'][k % 2]
            m.extraction_method = cur['ext']
        elif kind == 2:
            # another model uses the same instrument, galaxy
            o = dict(cur, nPix=c['nPix']+1+k % 3, width=.4+.3*(k % 4), xc=0., yc=0., posshift=False)
            oth = rot(o, g, ins).disp_aper_ratio
            close(oth, rot(o).disp_aper_ratio, rtol=1e-9, what='a second model sharing galaxy and instrument')
        else:
            # disp model sharing the instrument
            disp(dict(cur, nPix=2, slope=-.089, rcore=1/300., rem=cur['re'], qm=cur['q']), bool(k % 2), g, ins)
        try:
            ref.refrot(cur)
        except ref.Skip:
            continue
        with quiet():
            m.calc_aper_correction(**({'recalc': True} if k % 2 else {}))
        n += 1
        close(m.disp_aper_ratio, rot(cur).disp_aper_ratio, rtol=1e-9, what='recalculated vs fresh model')
    return n > 1, ['%d-steps' % n] + (['posshift'] if c['posshift'] else [])


ops = st.lists(st.tuples(st.integers(0, 7), st.integers(0, 3), num(-300, 300, 1).filter(lambda v: v != 0),
                         st.one_of(num(.1, 8, 2), st.none(), st.just(0.)), num(.02, 1, 2)), min_size=1, max_size=5)


def ext(s, **kw):
    keys = list(kw)
    return st.tuples(s, *[kw[k] for k in keys]).map(lambda t: dict(t[0], **dict(zip(keys, t[1:]))))


SUBS = [Sub('reference', cfg1d(), t_ref, 1600, 40000),
        Sub('position-shift', cfg1d(posshift=True, maxpix=7), t_ref, 160, 3000),
        Sub('laws', ext(cfg1d(), law=st.sampled_from(['scale', 'mirror', 'angular', 'limits', 'face-on', 'boxcar']),
                        k=num(.2, 4, 1)), t_law, 800, 20000),
        Sub('recalculation', ext(st.one_of(cfg1d(maxpix=6), cfg1d(maxpix=6), cfg1d(posshift=True, maxpix=5)), ops=ops), t_recalc, 300, 6000)]
