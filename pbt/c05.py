"""C05: PSF kernels and PSF blurring."""
from .core import *
from . import ref
from . import build1d
from . import build2d
from .build2d import *
from misfit.instrument import Imager
from misfit.model import kin_functions as kf

PROPERTY = 'C05'
RULE = ('Random PSF families, widths, dither spacings, stamp sizes, images/cubes and sequences of models on one instrument; oracle: '
        'kernel formulas, direct-sum convolution, moment laws, and models built with an instrument of their own. Non-trivial: '
        'FWHM > 0 and more than one pixel (histories: at least two models).')
ASSUMPTIONS = ['stamps are handed over with an odd number of samples centred on zero (as the models do)', 'relative tolerance 1e-9 for '
               'kernels, 1e-8 of the maximum for FFT convolutions']


def warmup():
    for t in ('Gaussian', 'Moffat'):
        for d in (None, 1.):
            mk(dict(ptype=t, fwhm=.5, beta=2.5, dith=d)).PSF.generate_conv_stamp(np.arange(-1., 2.), np.arange(-1., 2.))


def mk(c):
    cls = Imager if c.get('imager') else Spectrograph
    kw = dict(PSF_type=c['ptype'], PSF_FWHM=c['fwhm'], yspace_dither_arc=c['dith'], pixscale=.1)
    if c.get('beta') is not None:
        kw['PSF_beta'] = c['beta']
    return cls(**kw)


def kind(c):
    return 'Moffat' if c['ptype'].strip().lower() == 'moffat' else 'Gaussian'


def t_kernel(c):
    ins = mk(c)
    x = (np.arange(c['nx'])-(c['nx']-1)/2.)*c['dx']
    y = (np.arange(c['ny'])-(c['ny']-1)/2.)*c['dy']
    f = c['fwhm']
    beta = c['beta'] if c['beta'] is not None else 2.5
    k = ins.PSF.generate_conv_stamp(x, y)
    want = ref.psf_kernel(kind(c), f, beta, c['dith'], x, y)
    close(k, want, rtol=1e-9, what='kernel')
    f2 = c['f2']
    close(ins.PSF.generate_conv_stamp(x, y, PSF_FWHM=f2), ref.psf_kernel(kind(c), f2, beta, c['dith'], x, y), rtol=1e-9,
          what='kernel of a given width')
    close(ins.PSF.generate_conv_stamp(x, y), want, rtol=1e-9, what='kernel after asking for another width')
    check(ins.PSF.PSF_FWHM == f, 'PSF width changed')
    # laws
    same_tol = dict(rtol=1e-9, scale=np.abs(want).max())
    close(k[::-1], k, what='kernel mirrored along the slit', **same_tol)
    close(k[:, ::-1], k, what='kernel mirrored across the slit', **same_tol)
    if c['dith'] is None:
        check(np.all(k >= 0), 'kernel must not be negative')
        close(ins.PSF.generate_conv_stamp(y, x), k.T, what='circular kernel', **same_tol)
        pts = np.array([-f/2., 0., f/2.])
        h = ins.PSF.generate_conv_stamp(pts, pts)
        close(h[1, [0, 2]]/h[1, 1], [.5, .5], rtol=1e-9, what='half maximum at half the FWHM')
        close(h[[0, 2], 1]/h[1, 1], [.5, .5], rtol=1e-9, what='half maximum at half the FWHM')
        th = np.deg2rad(c['ang'])
        e = ins.PSF.generate_conv_stamp(np.array([0., f*np.cos(th)]), np.array([0., f*np.sin(th)]))
        g = ins.PSF.generate_conv_stamp(np.array([0., f]), np.array([0.]))
        close(e[1, 1], g[0, 1], rtol=1e-9, what='circular kernel')
    else:
        # far images: positive peak in the centre, half-depth negative images along the slit only
        d = c['dith']
        base = mk(dict(c, dith=None))
        kb = base.PSF.generate_conv_stamp
        close(k, kb(x, y)-.5*kb(x, y-d)-.5*kb(x, y+d), what='negative images along the slit', **same_tol)
    return f > 0 and k.size > 1, [kind(c), 'dither' if c['dith'] else 'plain', 'given-beta' if c['beta'] else 'default-beta']


s_kernel = st.fixed_dictionaries(dict(
    ptype=st.sampled_from(['Gaussian', 'Moffat', 'gaussian', 'MOFFAT', ' Moffat ', 'Airy']), fwhm=num(.05, 3, 2), f2=num(.05, 3, 2),
    beta=st.one_of(st.none(), num(1.2, 8, 1)), dith=st.one_of(st.none(), num(.05, 4, 2)), nx=st.integers(1, 15), ny=st.integers(1, 15),
    dx=num(.02, 1, 2), dy=num(.02, 1, 2), ang=num(0, 90, 0), imager=st.booleans()))


def t_conv(c):
    r = rng(c['seed'])
    ins = mk(c)
    nz, ny, nx = c['shape']
    hx, hy = (nx-1)//2, (ny-1)//2
    xs = np.arange(-min(hx, c['h']), min(hx, c['h'])+1)*c['dx']
    ys = np.arange(-min(hy, c['h']), min(hy, c['h'])+1)*c['dy']
    k = ins.PSF.generate_conv_stamp(xs, ys)
    ins.PSF.set_conv_stamp(k if c['flatstamp'] else k[None])
    cube = r.exponential(1., (nz, ny, nx))*(r.uniform(size=(nz, ny, nx)) < .6)
    keep = cube.copy()
    if cube.sum() == 0:
        cube[0, ny//2, nx//2] = keep[0, ny//2, nx//2] = 1.
    direct = ref.conv_same(cube, k)
    ill = abs(direct.sum()) < .05*np.abs(direct).sum()
    sc = np.abs(direct).max()
    if not ill:
        out = kf.PSF_convolve(cube, ins.PSF)
        close(out, direct*(cube.sum()/direct.sum()), rtol=1e-8, what='blurred cube')
        close(out.sum(), cube.sum(), rtol=1e-9, what='total flux')
        close(kf.PSF_convolve(cube*c['k'], ins.PSF), out*c['k'], rtol=1e-8, what='blurring of scaled light')
        same(cube, keep, 'input cube unchanged')
        # every plane is blurred on its own, with the common normalisation
        if nz > 1:
            one = kf.PSF_convolve(cube[:1]+1e-3, ins.PSF)
            w = ref.conv_same(cube[:1]+1e-3, k)
            if abs(w.sum()) > .05*np.abs(w).sum():
                close(one, w*((cube[:1]+1e-3).sum()/w.sum()), rtol=1e-8, what='one plane')
    img = cube[0].copy()
    img0 = img.copy()
    if c['flatstamp']:
        fl = kf.PSF_convolve_flat(img, ins.PSF)
        close(fl, direct[0], rtol=1e-8, atol=1e-9*np.abs(k).max(), what='blurred image')
        same(img, img0, 'input image unchanged')
        im2 = r.exponential(1., img.shape)
        close(kf.PSF_convolve_flat(img*c['k']+im2, ins.PSF), fl*c['k']+kf.PSF_convolve_flat(im2, ins.PSF), rtol=1e-8,
              what='blurring of a sum')
    # no PSF
    no = mk(dict(c, fwhm=0.))
    no.PSF.set_conv_stamp(k)
    same(kf.PSF_convolve(cube, no.PSF), cube, 'blurring without PSF')
    same(kf.PSF_convolve_flat(img, no.PSF), img, 'blurring without PSF')
    return k.size > 1, [kind(c), 'ill-conditioned' if ill else 'ok', 'even' if nx % 2 == 0 or ny % 2 == 0 else 'odd']


s_conv = st.fixed_dictionaries(dict(
    ptype=st.sampled_from(['Gaussian', 'Moffat']), fwhm=num(.1, 2, 2), beta=num(1.5, 5, 1), dith=st.one_of(st.none(), st.none(), num(.2, 3, 1)),
    shape=st.tuples(st.integers(1, 4), st.integers(3, 14), st.integers(3, 14)), dx=num(.05, .6, 2), dy=num(.05, .6, 2),
    h=st.integers(0, 6), flatstamp=st.booleans(), k=num(.1, 20, 1), seed=seeds()))


def moments(img, x, y):
    s = img.sum()
    mx, my = (img.sum(0)*x).sum()/s, (img.sum(1)*y).sum()/s
    return mx, my, (img.sum(0)*(x-mx)**2).sum()/s, (img.sum(1)*(y-my)**2).sum()/s


def t_source(c):
    """A source away from the edges keeps its position and widens by the kernel in quadrature."""
    ins = mk(c)
    h = c['h']
    xs, ys = np.arange(-h, h+1)*c['dx'], np.arange(-h, h+1)*c['dy']
    k = ins.PSF.generate_conv_stamp(xs, ys)
    ny, nx = c['src'][0]+2*h+c['ex'][0], c['src'][1]+2*h+c['ex'][1]
    x, y = np.arange(nx)*c['dx'], np.arange(ny)*c['dy']
    cube = np.zeros((2, ny, nx))
    r = rng(c['seed'])
    s = r.exponential(1., (2,)+tuple(c['src']))
    oy, ox = h+c['ex'][0]//2, h+c['ex'][1]//2
    cube[:, oy:oy+c['src'][0], ox:ox+c['src'][1]] = s
    ins.PSF.set_conv_stamp(k)
    out = kf.PSF_convolve(cube, ins.PSF)
    fl = kf.PSF_convolve_flat(cube[0], ins.PSF)
    km = moments(k, xs, ys)
    for a, b in ((cube[0], out[0]), (cube[1], out[1]), (cube[0], fl)):
        ma, mb = moments(a, x, y), moments(b, x, y)
        sc = max(xs.max(), ys.max(), c['dx'], c['dy'], x.max(), y.max())
        close(mb[:2], ma[:2], atol=1e-7*sc, what='position of the blurred source')
        close(mb[2:], np.array(ma[2:])+km[2:], rtol=1e-6, atol=1e-7*sc**2, what='width of the blurred source')
    close(out.sum(axis=(1, 2)), cube.sum(axis=(1, 2)), rtol=1e-8, what='flux of every plane')
    return h > 0, [kind(c)]


s_source = st.fixed_dictionaries(dict(
    ptype=st.sampled_from(['Gaussian', 'Moffat']), fwhm=num(.1, 2, 2), beta=num(1.5, 5, 1), dith=st.none(), h=st.integers(0, 7),
    src=st.tuples(st.integers(1, 4), st.integers(1, 4)), ex=st.tuples(st.integers(0, 4), st.integers(0, 4)),
    dx=num(.05, .6, 2), dy=num(.05, .6, 2), seed=seeds()))


def t_model(c):
    """In a 2D model, a compact galaxy within a wide slit: blurring keeps flux and position along the slit, and spreads it."""
    c = dict(c, xc=0., rebin=False, pad=1., va=0., n=1., m0s=0., posshift=False, kprof=0, gen=True, res=0.)
    dy = c['pix']/c['nsub']
    c['fwhm'] = c['f']*dy
    c['re'] = c['rr']*dy
    need = int(np.ceil(2*(8*c['re']+c['fwhm'])/dy))
    c['nY'] = max(5, int(np.ceil(need/float(c['nsub']))))
    c['slit'] = (need+c['ex']+.5)*dy
    c['m0'] = (c['nY']-1)/2.+c['off']*.5
    c['dith'] = None
    c['nW'] = 8
    if c['nY']*c['nsub'] > 60:
        return False, ['too-large']
    ref.grid2d(c)
    m = aper2d(c).model
    m0 = aper2d(dict(c, fwhm=0.)).model
    close(m.sum(), m0.sum(), rtol=2e-3, what='total flux with and without PSF')
    k = np.arange(m.shape[0])
    cen = lambda a: (a.sum(1)*k).sum()/a.sum()
    close(cen(m), cen(m0), atol=5e-3*max(1., c['f']), what='row centroid with and without PSF')
    var = lambda a: (a.sum(1)*(k-cen(a))**2).sum()/a.sum()
    h = ref.stamp_offsets(10**4+1, dy, c['fwhm'])
    ker = ref.psf_kernel(c['ptype'], c['fwhm'], c['beta'], None, h, h)
    kv = (ker.sum(1)*(h/dy)**2).sum()/ker.sum()
    close(var(m)-var(m0), kv, rtol=.05, atol=.02*var(m0), what='broadening along the slit')
    return True, [c['ptype'], 'nsub%d' % c['nsub']]


s_model = st.tuples(cfg2d(maxY=5, maxW=8, posshift=False, dith=False, lines=False, zero_sig=False, vel=None), num(1.2, 6, 1), num(.8, 1.5, 1),
                    num(-1, 1, 1), st.integers(0, 3)).map(lambda t: dict(t[0], f=t[1], rr=t[2], off=t[3], ex=t[4]))


def t_shared(c):
    """One instrument used by several models in any order: each uses its own kernel."""
    base = c['cfgs'][0]
    ins = build2d.instrument(base)
    shared = ('ptype', 'fwhm', 'beta', 'dith', 'pix', 'slit', 'nY', 'res')
    models = []
    for cc in c['cfgs']:
        cc = dict(cc, **{k: base[k] for k in shared})
        # a grid of another size
        cc['posshift'] = False
        models.append([cc, aper2d(cc, ins=ins)])
    for k, what in c['ops']:
        cc, m = models[k % len(models)]
        if what == 0:
            th = theta(cc)
            th[0] *= .7
            cc['va'] *= .7
            m.update_model(theta=th)
        elif what == 1:
            one = dict(re=max(cc['re'], .2), q=cc['q'], q0=cc['q0'], n=1., pa=cc['pa'], fwhm=base['fwhm'], ptype=base['ptype'],
                       beta=base['beta'], dith=base['dith'], slit=base['slit'], ext='optimal', width=None, rad=None, xc=0., yc=0.,
                       z=2., rest=5000., posshift=False, nPix=3, pad=.5, va=100., vs=1., rt=.3, iprof=0, kprof=0, res=40.,
                       rem=.4, qm=.6, slope=-.089, rcore=1/300.)
            a = build1d.rot(one, ins=ins).disp_aper_ratio if k % 2 else build1d.disp(one, bool(k & 2), ins=ins).disp_aper_ratio
            b = build1d.rot(one).disp_aper_ratio if k % 2 else build1d.disp(one, bool(k & 2)).disp_aper_ratio
            if np.isfinite(b):
                close(a, b, rtol=1e-9, what='1D model on a shared instrument')
            continue
        else:
            ins.PSF.generate_conv_stamp(np.arange(-3., 4.), np.arange(-2., 3.), PSF_FWHM=.77)
            m.update_model(theta=theta(cc))
        close(m.model, aper2d(cc).model, rtol=1e-9, what='2D model on a shared instrument')
    return len(models) > 1 and base['fwhm'] > 0, ['%d models' % len(models)]


s_shared = st.fixed_dictionaries(dict(cfgs=st.lists(cfg2d(maxY=4, maxW=8, maxsub=2, posshift=False), min_size=1, max_size=3),
                                      ops=st.lists(st.tuples(st.integers(0, 7), st.integers(0, 2)), min_size=1, max_size=5),
                                      kw=st.booleans()))

SUBS = [Sub('kernel', s_kernel, t_kernel, 1600, 60000),
        Sub('convolution', s_conv, t_conv, 1200, 40000),
        Sub('point-source', s_source, t_source, 800, 30000),
        Sub('model-blur', s_model, t_model, 120, 3000),
        Sub('shared-instrument', s_shared, t_shared, 240, 6000)]
