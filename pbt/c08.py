"""C08: error-weighted least-squares scaling of the model rows."""
from .core import *
from . import ref
from .build2d import *

PROPERTY = 'C08'
RULE = ('Random data, errors, masks, sky columns and model arrays (both arbitrary arrays and models computed from a galaxy); oracle: closed '
        'form and direct optimality of the per-row weighted chi-squared, and invariance laws. Non-trivial: at least one row with two or '
        'more usable pixels and unequal errors.')
ASSUMPTIONS = ['errors are non-zero; masked pixels hold arbitrary finite values (spectrum preparation replaces non-finite ones)',
               'relative tolerance 1e-9']


class Holder(object):
    pass


def data(c, sh):
    r = rng(c['seed'])
    d = Holder()
    ny, nw = sh
    d.flux = r.normal(size=sh)*c['amp'] + c['base']
    d.err = np.exp(r.normal(size=sh)*c['spread'])*c['esc']
    p = c['pmask']
    d.qual = (r.uniform(size=sh) > p).astype(float)
    for k in c['dead']:
        d.qual[k % ny] = 0.
    d.mask = d.qual.copy()
    for k in c['low']:
        d.mask[k % ny] = 0.                # low S/N rows: excluded from the fit, but still scaled when mask_qual is given
    ns = r.uniform(size=nw) > c['psky']
    d.nosky = np.where(ns)[0]
    d.bad = [0., 1e6, -99., -1e9][c['bad'] % 4]
    d.use_qual = c['qual']
    if not c['qual']:
        d.qual = d.mask
    d.flux[d.qual == 0] = d.bad
    d.err[d.qual == 0] = [1., 1e-3, -99., 5.][c['bad'] % 4]
    return d


def put(g, d, **kw):
    s = g.spec2D
    s.flux = d.flux.copy()
    s.flux_err = d.err.copy()
    s.spec_mask = d.mask.copy()
    s.wh_nosky = d.nosky.copy()
    if d.use_qual:
        s.mask_qual = d.qual.copy()
    else:
        s.mask_qual = None
    return g


def want_amp(m, d):
    """per-row amplitude by explicit loops."""
    out = np.zeros(m.shape[0])
    usable = np.zeros(m.shape[0], dtype=int)
    for i in range(m.shape[0]):
        num = den = 0.
        for k in d.nosky:
            if d.qual[i, k] == 0:
                continue
            num += d.flux[i, k]*m[i, k]/d.err[i, k]**2
            den += m[i, k]**2/d.err[i, k]**2
            usable[i] += 1
        out[i] = num/den if den != 0 else 0.
    return out, usable


def chi2(m, d):
    x = np.zeros(m.shape[0])
    for i in range(m.shape[0]):
        k = [j for j in d.nosky if d.qual[i, j] != 0]
        x[i] = np.sum(((d.flux[i, k]-m[i, k])/d.err[i, k])**2)
    return x


BASE = dict(vel=False, posshift=False, nY=3, nsub=1, pix=.2, slit=.5, ptype='Gaussian', beta=2.5, fwhm=0., pad=.5, dith=None,
            res=50., q0=.19, q=.5, pa=20., re=.5, n=1., z=2., zw=2., m0=1., m0s=0., rest=[5000.], ratio=[1.], nW=7, woff=.1, dw=2.,
            rt=.3, va=100., sig=60., absval=False, adaptive=False, floor=False, factor=3, rebin=True, xc=0., iprof=0, kprof=0, gen=False)


def warmup():
    aper2d(BASE)


def kin(g, c, **kw):
    vary = np.array(kw.pop('vary', [True]*5))
    set_ = kc.Theta2DSettingsFiducial(theta=theta(c), theta_vary=vary, theta_bounds=np.array([[-1e5, 1e5]]*5),
                                      theta_linked_posteriors=None)
    o = options(c)
    opt = KinModel2DOptions(**{k: o[k] for k in ('nSubpixels', 'pad_factor', 'do_position_wave_shift', 'absvalsigma',
                                                 'adaptive_upsample_wave', 'adaptive_upsample_factor', 'sigma_floor')})
    return KinModel2D(g, thetaSettings=set_, kinProfile=kinprof(c), intensityProfile=intprof(c, g), kinModelOptions=opt,
                      spec_type=o['spec_type'], **kw)


def judge(got, raw, d):
    a, usable = want_amp(raw, d)
    sc = np.abs(raw*a[:, None]).max()
    check(np.all(np.isfinite(got)), 'scaled model is not finite')
    for i in range(len(a)):
        s = max(np.abs(raw[i]*a[i]).max(), 1e-12*sc)
        close(got[i], raw[i]*a[i], rtol=1e-8, scale=s, what='scaled row %d' % i)
    best = chi2(got, d)
    fl = chi2(0*got, d)
    for e in (1e-2, -1e-2, .3, -.3):
        t = chi2(got*(1+e), d)
        check(np.all(t >= best-1e-9*(fl+best)), lambda: 'another amplitude fits a row better: %s %s' % (t, best))
    check(np.all(best <= fl*(1+1e-9)+1e-12), 'a scaled row fits worse than no model')
    return usable


def t_array(c):
    sh = tuple(c['shape'])
    d = data(c, sh)
    cc = dict(BASE, nY=sh[0], nW=sh[1])
    g = put(galaxy(cc), d)
    r = rng(c['seed']+1)
    raw = r.exponential(1., sh)*(r.uniform(size=sh) < c['mfill'])*c['mamp']
    if c['mneg']:
        raw = raw-.3*c['mamp']
    for k in c['zrows']:
        raw[k % sh[0]] = 0.
    km = kin(g, cc)

    def scaled(m, gg):
        km.model = m.copy()
        km.scale_model(gg)
        return km.model
    got = scaled(raw, g)
    usable = judge(got, raw, d)
    for nm, b in (('flux', d.flux), ('flux_err', d.err), ('spec_mask', d.mask), ('wh_nosky', d.nosky)):
        same(getattr(g.spec2D, nm), b, 'data '+nm)
    sc = np.abs(got).max()
    t = dict(rtol=1e-8, scale=sc)
    close(scaled(raw*c['k'], g), got, what='independent of the normalisation of the model', **t)
    close(scaled(-raw, g), got, what='independent of the sign of the model', **t)
    rowk = r.uniform(.1, 5, size=(sh[0], 1))
    close(scaled(raw*rowk, g), got, what='independent of the normalisation of each model row', **t)
    d2 = data(c, sh)
    d2.flux = d2.flux*c['k']
    close(scaled(raw, put(galaxy(cc), d2)), got*c['k'], rtol=1e-8, scale=sc*c['k'], what='scaled data')
    d2 = data(c, sh)
    d2.err = d2.err*c['k']
    close(scaled(raw, put(galaxy(cc), d2)), got, what='errors scaled together', **t)
    # masked and sky pixels are irrelevant
    d2 = data(c, sh)
    off = d2.qual == 0
    off[:, [j for j in range(sh[1]) if j not in set(d2.nosky.tolist())]] = True
    d2.flux[off] = r.normal(size=off.sum())*1e5
    d2.err[off] = r.uniform(.01, 1e3, size=off.sum())
    raw2 = raw.copy()
    close(scaled(raw, put(galaxy(cc), d2)), got, what='masked or sky pixels changed', **t)
    # idempotent
    close(scaled(got, g), got, what='scaling a scaled model', **t)
    return bool((usable > 1).any() and c['spread'] > 0), ['dead' if (usable == 0).any() else 'all-rows', 'mask_qual' if c['qual'] else 'spec_mask']


dat = dict(seed=seeds(), amp=num(.1, 50, 1), base=num(-5, 5, 1), esc=num(.01, 20, 2), spread=st.sampled_from([0., .5, 1., 2.]),
           pmask=st.sampled_from([0., .2, .5, .9]), psky=st.sampled_from([0., .2, .6]), dead=st.lists(st.integers(0, 9), max_size=2),
           low=st.lists(st.integers(0, 9), max_size=2), bad=st.integers(0, 3), qual=st.booleans())
s_array = st.fixed_dictionaries(dict(dat, shape=st.tuples(st.integers(1, 7), st.integers(2, 14)), mfill=st.sampled_from([1., .6, .2]), mamp=num(.001, 100, 3),
                                     mneg=st.booleans(), zrows=st.lists(st.integers(0, 9), max_size=2), k=num(.05, 20, 2)))


def t_model(c):
    """scaling as part of building and updating a model."""
    cc = dict(c['cfg'], gen=False, rebin=True, xc=0.)
    if c['narrow']:
        cc.update(adaptive=True)
    sh = (cc['nY'], cc['nW'])
    d = data(c, sh)
    cc['z'] = cc['zw']
    km = kin(put(galaxy(cc), d), cc)
    un = kin(put(galaxy(cc), d), cc, no_scale=True)
    g1, g2 = put(galaxy(cc), d), put(galaxy(cc), d)
    km.make_model(galaxy=g1, instrument=instrument(cc), theta_fitting=theta(cc))
    un.make_model(galaxy=g2, instrument=instrument(cc), theta_fitting=theta(cc))
    fresh = aper2d(cc).model
    same(un.model, fresh, 'model without scaling')
    judge(km.model, un.model, d)
    th = theta(cc)
    th[0] *= c['f']
    th[2] *= c['f']
    km.update_model(theta_fitting=th)
    un.update_model(theta_fitting=th)
    usable = judge(km.model, un.model, d)
    km.update_model(theta_fitting=th)
    judge(km.model, un.model, d)
    same(g1.spec2D.flux, d.flux, 'data unchanged')
    return bool((usable > 1).any() and c['spread'] > 0), ['scaled-model']


s_model = st.fixed_dictionaries(dict(dat, cfg=cfg2d(maxY=5, maxW=12, maxsub=2, posshift=False, zero_sig=True), narrow=st.booleans(), f=num(.5, 2, 1)))

SUBS = [Sub('arrays', s_array, t_array, 1600, 60000), Sub('models', s_model, t_model, 300, 8000)]
