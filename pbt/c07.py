"""C07: instrumental broadening and wavelength resampling."""
from .core import *
from . import ref
from .build2d import *
from misfit.model import kin_functions as kf

PROPERTY = 'C07'
RULE = ('Random model arrays, wavelength grids (odd/even, any offset), resolutions and whole 2D models with and without resolution; oracle: '
        'direct-sum Gaussian blurring, moment laws (flux, centroid, variance), and finer-grid models averaged down. Non-trivial: '
        'non-zero resolution and a non-flat spectrum (resampling: factor > 1).')
ASSUMPTIONS = ['uniform wavelength grids', 'moment laws for lines at least 6 total dispersions from the edges and a resolution of at least 0.8 samples '
               '(a narrower sampled Gaussian has no exact variance)', 'relative tolerance 1e-8 of the maximum']


def warmup():
    kf.inst_convol_complete(np.ones((7, 2)), np.arange(7.), 1.)
    kf.inst_convol_complete(np.asfortranarray(np.ones((7, 2))), np.arange(7.), 1.)


def t_conv(c):
    r = rng(c['seed'])
    n, ny = c['n'], c['ny']
    w = c['w0']+(np.arange(n)-c['off'])*c['dw']
    m = r.exponential(1., (n, ny))*(r.uniform(size=(n, ny)) < c['fill'])
    if c['neg']:
        m = m - .2
    if m.sum() == 0 or abs(m.sum()) < .05*np.abs(m).sum():
        m[n//2] += m.size
    keep, wk = m.copy(), w.copy()
    sig = c['sig']*c['dw']
    if c['fortran']:
        m = np.asfortranarray(m)
    out = kf.inst_convol_complete(m, w, sig)
    same(w, wk, 'wavelengths unchanged')
    want = ref.inst_conv(keep, c['dw'], sig)
    close(out, want, rtol=1e-8, what='instrument-broadened spectrum')
    close(out.sum(), keep.sum(), rtol=1e-9, what='total flux')
    close(kf.inst_convol_complete(keep*c['k'], w, sig), want*c['k'], rtol=1e-8, what='broadening of a scaled spectrum')
    close(kf.inst_convol_complete(keep, w+c['k']*100, sig), want, rtol=1e-7, what='broadening does not depend on the wavelength offset')
    return True, ['even' if n % 2 == 0 else 'odd']


s_conv = st.fixed_dictionaries(dict(n=st.integers(3, 40), ny=st.integers(1, 5), w0=num(1000, 25000, 1), off=num(-2, 40, 2), dw=num(.3, 20, 2),
                                    sig=st.one_of(num(.3, 6, 2), num(.05, 20, 2)), fill=num(.2, 1, 1), neg=st.booleans(), k=num(.1, 9, 1),
                                    fortran=st.booleans(), seed=seeds()))


def mom(a, x):
    s = a.sum(axis=-1)
    m = (a*x).sum(axis=-1)/s
    return s, m, (a*(x-m[..., None])**2).sum(axis=-1)/s


def t_line(c):
    """lines away from the edges: flux and centroid of each row kept, variance grows by the resolution squared."""
    sl, si = c['sl'], c['si']
    half = 6.5*np.sqrt(sl**2+si**2)+3
    n = int(2*half+8)+c['odd']
    n += max(0, int(2*7*si)+4-n)
    x = np.arange(n)
    rows = []
    for (p, a) in c['rows']:
        mu = (n-1)/2.+p*((n-1)/2.-half)
        rows.append(a*np.exp(-.5*((x-mu)/sl)**2))
    m = np.array(rows).T
    w = c['w0']+x*c['dw']
    out = kf.inst_convol_complete(m.copy(), w, si*c['dw'])
    s0, m0, v0 = mom(m.T, x)
    s1, m1, v1 = mom(out.T, x)
    close(s1, s0, rtol=1e-6, what='flux of every row')
    close(m1, m0, atol=1e-4, what='centroid of every row')
    close(v1-v0, np.full(len(rows), si*si), rtol=1e-3, what='added variance')
    return True, ['even' if n % 2 == 0 else 'odd']


s_line = st.fixed_dictionaries(dict(sl=num(.8, 4, 2), si=num(.8, 4, 2), odd=st.integers(0, 1), w0=num(1000, 25000, 1), dw=num(.3, 20, 2),
                                    rows=st.lists(st.tuples(num(-1, 1, 2), num(.1, 9, 1)), min_size=1, max_size=4)))


def t_model(c):
    """whole model with and without resolution."""
    c = dict(c, posshift=False, xc=0., dith=None, zw=c['z'])
    pixv = c['dw'] if c['vel'] else c['dw']/(c['rest'][0]*(1+c['z']))*ref.C_KMS
    c['res'] = c['si']*pixv
    if c['sclass'] != 'zero':
        c['sig'] = max(.9, abs(c['sig'])/pixv)*pixv
        c['sclass'] = 'wide'
    else:
        c['adaptive'] = False       # else the discrete velocity channels of both models differ
        c['floor'] = False
    c['va'] = np.clip(c['va'], -3*pixv, 3*pixv)
    c['rest'], c['ratio'] = c['rest'][:1], [1.]
    smax = np.hypot(c['si'], 1.5*max(abs(c['sig'])/pixv, .5))
    c['nW'] = int(2*(4+6.5*smax))+c['odd']
    if c['nW'] > 120:
        c['nsub'] = 1
    a = aper2d(dict(c, res=0.)).model
    b = aper2d(c).model
    x = np.arange(c['nW'])
    dw = c['dw']
    ok = a.sum(axis=1) > 1e-3*a.sum(axis=1).max()
    s0, m0, v0 = mom(a[ok], x)
    s1, m1, v1 = mom(b[ok], x)
    close(s1, s0, rtol=1e-5, what='flux of every row')
    close(m1, m0, atol=2e-3, what='centroid of every row')
    sig = c['res']/dw if c['vel'] else c['res']/ref.C_KMS*c['rest'][0]*(1+c['z'])/dw
    close(v1-v0, np.full(ok.sum(), sig**2), rtol=5e-3, atol=5e-3, what='added variance (squared resolution at the line)')
    # zero resolution equals no broadening at all: the reference without it
    return True, ['vel' if c['vel'] else 'wave', 'even' if c['nW'] % 2 == 0 else 'odd']


s_model = st.tuples(cfg2d(maxY=4, maxW=8, maxsub=2, posshift=False, lines=False), num(.8, 2.5, 2), st.integers(0, 1)).map(
    lambda t: dict(t[0], si=t[1], odd=t[2]))


def t_resample(c):
    """narrow lines computed on a finer grid and averaged back: equals a model on that finer grid, averaged."""
    c = dict(c, posshift=False, adaptive=True, floor=False, absval=False)
    f = c['factor']
    pixv = c['dw'] if c['vel'] else c['dw']/(c['rest'][0]*(1+c['z']))*ref.C_KMS
    c['sig'] = 0. if c['zero'] else c['sp']*pixv
    g = galaxy(c)
    m = aper2d(c, g).model
    fine = galaxy(c)
    w = fine.spec2D.wave
    n = len(w)*f
    dw = c['dw']
    fine.spec2D.wave = w[0]-.5*dw+(np.arange(n)+.5)*dw/f
    if c['gen']:
        fine.spec2D.shape = [c['nY'], n]
    else:
        fine.spec2D.flux = np.ones((c['nY'], n))
        fine.spec2D.flux_err = np.ones((c['nY'], n))
    up = c['zero'] or c['sp'] < 1/2.35
    if c['zero']:
        ref.ref2d(c)
    if not up:
        want = aper2d(dict(c, adaptive=False)).model
    else:
        if c['pix'] and c['res'] > 0:
            pass
        big = aper2d(dict(c, adaptive=False), fine).model
        want = big.reshape(big.shape[0], len(w), f).mean(axis=2)
    tol = 1e-8
    if c['zero']:
        # a voxel exactly on a sample edge may fall on either side
        close(m.sum(), want.sum(), rtol=1e-8, what='resampled total')
        tol = 1e-7
    close(m, want, rtol=max(tol, cusp_tol(c)), what='average over the fine samples of each pixel')
    return up, ['upsampled' if up else 'resolved', 'factor%d' % f]


s_resample = st.tuples(cfg2d(maxY=4, maxW=12, maxsub=2, posshift=False, lines=True), num(.06, .6, 3), st.integers(0, 4)).map(
    lambda t: dict(t[0], sp=t[1], zero=t[2] == 0))


def t_rebin(c):
    shape, fac = c['shape'], c['fac'][:len(c['shape'])]
    r = rng(c['seed'])
    a = r.normal(size=[s*f for s, f in zip(shape, fac)])
    keep = a.copy()
    out = kf.rebin(a, *shape)
    want = a
    for k, (s, f) in enumerate(zip(shape, fac)):
        want = np.stack([np.take(want, range(i*f, (i+1)*f), axis=k).sum(axis=k) for i in range(s)], axis=k)
    close(out, want, rtol=1e-10, what='sum over blocks')
    same(a, keep, 'input unchanged')
    if c['same']:
        b = kf.rebin(keep, *keep.shape)
        same(b, keep, 'identity')
        b[...] = -1.
        same(a, keep, 'result does not share memory with the input')
    return max(fac) > 1, ['%dd' % len(shape)]


s_rebin = st.fixed_dictionaries(dict(shape=st.lists(st.integers(1, 6), min_size=1, max_size=3), fac=st.lists(st.integers(1, 5), min_size=3, max_size=3),
                                     same=st.booleans(), seed=seeds()))

SUBS = [Sub('convolution', s_conv, t_conv, 1500, 60000),
        Sub('line-moments', s_line, t_line, 1000, 40000),
        Sub('model-moments', s_model, t_model, 240, 6000),
        Sub('resampling', s_resample, t_resample, 400, 12000),
        Sub('rebin', s_rebin, t_rebin, 600, 20000)]
