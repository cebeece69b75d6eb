"""C04: conservation, linearity, symmetry laws of 2D models (metamorphic; no reference pipeline)."""
from .core import *
from . import ref
from .build2d import *
from misfit.model import kin_functions as kf

PROPERTY = 'C04'
RULE = ('Random configuration plus one transformation of it; oracle: the law relating both outputs. Non-trivial: the '
        'spectrum rotates (va != 0, not face-on) or the law is about light only; case distinct by parameters and law.')
ASSUMPTIONS = ['lines lie inside the wavelength window for the flux laws', 'dispersion at least 1.2 samples or exactly zero '
               'for flux laws (a narrower sampled Gaussian has no exact sum)', 'relative tolerance 1e-6']


def wide(c, s=None):
    """Resolved dispersion, window wide enough for rotation + dispersion + resolution."""
    c = dict(c)
    pixv = c['dw'] if c['vel'] else c['dw']/(c['rest'][0]*(1+c['z']))*ref.C_KMS
    if c['sclass'] != 'zero':
        c['sig'] = c['sigpix']*pixv
        c['absval'] = False
    else:
        c['floor'] = False
        c['adaptive'] = False
    c['va'] = max(-4., min(4., c['vpix']))*pixv
    c['res'] = c['respix']*pixv
    c['zw'] = c['z']
    span = 2*(4+7*max(c['sigpix'], 1.)+7*c['respix'])
    for l in c['rest'][1:]:
        span += 2*abs(l-c['rest'][0])*(1+c['z'])/c['dw']
    c['nW'] = int(span)+8+(c['nW'] % 2)
    return c


def build(c, **kw):
    d = dict(c)
    d.update(kw)
    return aper2d(d).model


def tolr(c):
    return max(1e-6, cusp_tol(c))


def t_flux(c):
    """row totals do not depend on rotation, dispersion, resolution; without PSF they are the light in the slit."""
    c = wide(c)
    m = build(c)
    tot = m.sum(axis=1)*c['dw']
    ref0 = build(c, va=0., sig=c['sig'] if c['sclass'] == 'zero' else c['sig']*.8, res=0.).sum(axis=1)*c['dw']
    # flux lost by the finite kernel of the resolution is restored globally, not per row
    close(tot, ref0, rtol=max(2e-5, tolr(c)), what='row totals vs a non-rotating narrower model')
    if c['fwhm'] == 0:
        try:
            g = ref.grid2d(c)
        except ref.Skip:
            return False, ['tie']
        I, V, r, zi = ref.field2d(c, g)
        light = I.sum(axis=(0, 2))*g['dy']*g['dx']*(1. if c['vel'] else sum(c['ratio']))
        light = light.reshape(c['nY'], c['nsub']).sum(axis=1) if c['rebin'] else light
        close(tot, light, rtol=max(2e-5, tolr(c)), what='row totals vs light inside the slit')
    return True, labels2d(c)


class Scaled(object):
    def __init__(self, *parts):
        self.parts = parts

    def update_values(self, galaxy):
        pass

    def int(self, r, z):
        return sum(k*p.int(r, z) for k, p in self.parts)


def t_linear(c):
    c = wide(c)
    g, ins = galaxy(c), instrument(c)
    p1 = kc.IntensityProfileFiducial(g)
    g2 = g.copy()
    g2.re_arcsec = c['re2']
    g2.n = c['n2']
    p2 = kc.IntensityProfileSersicExpScale(g2)

    def mod(p, **kw):
        return AperModel2D(galaxy=galaxy(c), instrument=instrument(c), theta=theta(c), kinProfile=kinprof(c),
                           intensityProfile=p, **options(c)).model
    m1 = mod(p1)
    k = c['k']
    close(mod(Scaled((k, p1))), k*m1, rtol=1e-8, what='model of scaled light')
    if c['fwhm'] == 0 and c['res'] == 0:
        close(mod(Scaled((k, p1), (1., p2))), k*m1+mod(p2), rtol=1e-8, what='model of summed light')
    return c['va'] != 0, labels2d(c)


def t_mirror(c):
    c = wide(c)
    c['woff'] = 0.
    c['zw'] = c['z']
    c['rest'] = c['rest'][:1]
    c['ratio'] = c['ratio'][:1]
    if c['sclass'] == 'zero':
        # avoid velocities on pixel edges: symmetric grids have ties at the line centre
        if c['nW'] % 2 == 0:
            c['nW'] += 1
        try:
            ref.ref2d(c)
        except ref.Skip:
            return False, ['tie']
    m = build(c)
    t = tolr(c)
    law = c['law']
    if law == 'reverse':
        close(build(c, va=-c['va']), m[:, ::-1], rtol=t, what='reversed rotation mirrors the spectrum')
    elif law == 'half-turn':
        c2 = dict(c, m0=(c['nY']-1)/2., m0s=0., xc=0.)
        a = build(c2)
        b = build(c2, pa=c['pa']+180.)
        close(b, a[::-1], rtol=t, what='half-turned galaxy flips along the slit')
        close(b, a[:, ::-1], rtol=t, what='half-turned galaxy rotates backwards')
        close(b, build(c2, va=-c['va']), rtol=t, what='half-turned galaxy equals reversed rotation')
    elif law == 'pa-mirror':
        close(build(c, pa=-c['pa'], xc=-c['xc']), m, rtol=t, what='mirrored misalignment')
    elif law == 'pa-360':
        close(build(c, pa=c['pa']+360.), m, rtol=t, what='misalignment + 360')
    elif law == 'no-gradient':
        c2 = dict(c, **({'va': 0.} if c['k'] > 1 else {'q': 1.}))
        a = build(c2)
        close(a, a[:, ::-1], rtol=t, what='non-rotating or face-on galaxy is symmetric in velocity')
        x = np.arange(c2['nW'])-(c2['nW']-1)/2.
        s = a.sum(axis=1)
        ok = s > 1e-6*s.max()
        close((a*x).sum(axis=1)[ok]/s[ok], np.zeros(ok.sum()), atol=1e-4, what='row centroids')
    return c['va'] != 0 and c['q'] < 1, [law] + labels2d(c)[:3]


def t_shift(c):
    c = wide(c)
    law = c['law']
    if c['vel'] and law == 'redshift':
        law = 'velshift'
    if not c['vel'] and law == 'velshift':
        law = 'redshift'
    t = tolr(c)
    if c['sclass'] == 'zero':
        try:
            ref.ref2d(c)
        except ref.Skip:
            return False, ['tie']
    if law == 'redshift':
        s = c['zfac']
        z2 = (1+c['z'])*s-1
        if z2 < 0:
            s = 1./s
            z2 = (1+c['z'])*s-1
        a = build(c)
        b = build(c, z=z2, zw=z2, dw=c['dw']*s)
        close(b*s, a, rtol=max(t, 1e-5), what='spectrum at another redshift, same log-wavelength sampling')
    elif law == 'velshift':
        c['res'] = 0.
        if not (c['sclass'] == 'zero'):
            a = build(c)
            b = build(c, woff=c['woff']-c['k'])
            k = c['k']
            if c['fwhm'] == 0:
                close(b[:, k:], a[:, :a.shape[1]-k], rtol=t, what='velocity grid shifted by whole samples')
    elif law == 'rows':
        c['res'] = 0.
        c['fwhm'] = 0.
        a = build(c)
        k = min(c['k'], c['nY']-1)
        b = build(c, m0s=c['m0s']+k)
        n = c['nsub'] if not c['rebin'] else 1
        close(b[k*n:], a[:a.shape[0]-k*n], rtol=t, what='object moved by whole rows')
        d = build(c, m0=c['m0']+k)
        close(d, b, rtol=t, what='object moved by position or by offset parameter')
    elif law == 'angular-scale':
        s = c['zfac']
        a = build(c)
        b = build(c, pix=c['pix']*s, slit=c['slit']*s, fwhm=c['fwhm']*s, re=c['re']*s, rt=c['rt']*s,
                  dith=None if c['dith'] is None else c['dith']*s, xc=c['xc']*s, kprof=0)
        a = build(c, kprof=0)
        try:
            g1 = ref.grid2d(c)
            ref.grid2d(dict(c, pix=c['pix']*s, slit=c['slit']*s, fwhm=c['fwhm']*s))
        except ref.Skip:
            return False, ['tie']
        close(b/s**2, a, rtol=max(t, 1e-5), what='all angular sizes scaled together')
    elif law == 'lines':
        c['res'] = 0.
        if not c['vel']:
            tot = 0.
            for l, f in zip(c['rest'], c['ratio']):
                cc = dict(c, rest=[l], ratio=[f])
                w = ref.wave2d(c)
                g = galaxy(c)
                g.spec2D.restwave_arr = np.array([l])
                g.spec2D.flux_ratio_arr = np.array([1.])
                ins = instrument(c)
                one = AperModel2D(galaxy=g, instrument=ins, theta=theta(c), kinProfile=kinprof(c),
                                  intensityProfile=intprof(c, g), **options(c)).model
                tot = tot+f*one
            close(build(c), tot, rtol=max(t, 1e-5), what='sum of single-line models')
    elif law == 'subpixel-output':
        a = build(c, rebin=True)
        b = build(c, rebin=False)
        close(b.reshape(c['nY'], c['nsub'], -1).sum(axis=1), a, rtol=1e-8, what='subpixel rows summed')
    elif law == 'options':
        # narrow-line options have no effect on resolved lines
        if c['sclass'] != 'zero':
            a = build(c, adaptive=False, floor=False)
            for ad, fl in ((True, False), (False, True), (True, True)):
                close(build(c, adaptive=ad, floor=fl), a, rtol=1e-9, what='narrow-line options on a resolved line')
            close(build(c, sig=-c['sig'], absval=True), a, rtol=1e-9, what='sign of the dispersion with absolute values')
    return c['va'] != 0, [law] + labels2d(c)[:3]


def t_blur(c):
    """blurring keeps the total, also of light close to the edge of the field."""
    r = rng(c['seed'])
    ins = Spectrograph(PSF_type=c['ptype'], PSF_FWHM=c['fwhm'], PSF_beta=c['beta'], pixscale=.1)
    x = np.arange(-c['h'], c['h']+1)*c['dx']
    k = ins.PSF.generate_conv_stamp(x, x)
    ins.PSF.set_conv_stamp(k[None])
    nz, ny, nx = c['shape']
    ny, nx = max(ny, 2*c['h']+1), max(nx, 2*c['h']+1)
    cube = np.zeros((nz, ny, nx))
    if c['kind'] == 'noise':
        cube[:] = r.exponential(1., cube.shape)*(r.uniform(size=cube.shape) < .5)
    for j in range(c['nsrc']):
        cube[r.randint(nz), r.choice([0, ny-1, r.randint(ny)]), r.choice([0, nx-1, r.randint(nx)])] += r.uniform(.5, 2.)
    tot = cube.sum()
    out = kf.PSF_convolve(cube.copy(), ins.PSF)
    close(out.sum(), tot, rtol=1e-9, what='total light after blurring')
    check(out.min() >= -1e-9*out.max(), 'blurring of light gives negative light')
    moved = np.abs(out-cube).max() > 1e-6*cube.max()
    return bool(moved), [c['kind'], c['ptype']]


s_blur = st.fixed_dictionaries(dict(ptype=st.sampled_from(['Gaussian', 'Moffat']), fwhm=num(.1, 2, 2), beta=num(1.5, 5, 1), h=st.integers(1, 6), dx=num(.05, .5, 2),
                                    shape=st.tuples(st.integers(1, 4), st.integers(3, 16), st.integers(3, 16)), kind=st.sampled_from(['noise', 'sources']),
                                    nsrc=st.integers(1, 4), seed=seeds()))


def cfg(**kw):
    kw.setdefault('posshift', False)
    return st.tuples(cfg2d(maxW=8, maxsub=2, maxY=6, **kw), num(1.2, 2.5, 2), num(-4, 4, 2),
                     st.one_of(st.just(0.), num(.3, 2, 2))).map(
        lambda t: dict(t[0], sigpix=t[1], vpix=t[2], respix=t[3]))


def ext(s, **kw):
    keys = list(kw)
    return st.tuples(s, *[kw[k] for k in keys]).map(lambda t: dict(t[0], **dict(zip(keys, t[1:]))))


SUBS = [Sub('flux', ext(cfg(lines=False, dith=False)), t_flux, 320, 8000),
        Sub('linear-in-light', ext(cfg(), k=num(.01, 50, 2), n2=num(.5, 4, 1), re2=num(.05, 1.5, 2)), t_linear, 200, 5000),
        Sub('mirror', ext(cfg(lines=False, kprof=True), k=num(.1, 2, 1),
                          law=st.sampled_from(['reverse', 'half-turn', 'pa-mirror', 'pa-360', 'no-gradient'])),
            t_mirror, 480, 10000),
        Sub('shift-scale', ext(cfg(), k=st.integers(1, 4), zfac=num(.5, 3, 2),
                               law=st.sampled_from(['redshift', 'velshift', 'rows', 'angular-scale', 'lines',
                                                    'subpixel-output', 'options'])), t_shift, 560, 12000),
        Sub('blur', s_blur, t_blur, 800, 30000)]
