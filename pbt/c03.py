"""C03: 2D model = documented pipeline."""
from .core import *
from . import ref
from .build2d import *

PROPERTY = 'C03'
RULE = ('Random galaxies, slits, PSFs, wavelength/velocity grids and every model option; oracle: an independent '
        'direct-sum implementation of the documented pipeline (no FFT, no shared code). Non-trivial: rotation and '
        'inclination both non-zero, and the reference model has flux.')
ASSUMPTIONS = ['uniform wavelength grids', 'relative tolerance 1e-7 of the model maximum (1e-4 with position shift, '
               'whose per-row Gaussian fit is iterative)',
               'configurations on a rounding tie (pad, slit width, dispersion threshold, voxel on a pixel edge) give no verdict',
               'slit offset xc is not combined with the position shift']


def warmup():
    c = dict(vel=False, posshift=False, nY=3, nsub=1, pix=.2, slit=.5, ptype='Gaussian', beta=2.5, fwhm=.4, pad=.5, dith=None,
             res=50., q0=.19, q=.5, pa=20., re=.5, n=1., z=2., zw=2., m0=1., m0s=0., rest=[5000.], ratio=[1.], nW=7,
             woff=.1, dw=2., rt=.3, va=100., sig=0., absval=False, adaptive=False, floor=False, factor=3, rebin=True,
             xc=0., iprof=0, kprof=0, gen=True)
    aper2d(c)
    aper2d(dict(c, ptype='Moffat', dith=1.))
    aper2d(dict(c, dith=1.))
    aper2d(dict(c, vel=True))


def t_model(c):
    try:
        want = ref.ref2d(c)
    except ref.Skip:
        return False, ['tie']
    m = aper2d(c)
    tol = max(1e-4 if c.get('posshift') else 1e-7, cusp_tol(c))
    close(m.model, want, rtol=tol, what='2D model')
    return bool(c['va'] != 0 and c['q'] < .999 and np.abs(want).max() > 0), labels2d(c)


def t_shift(c):
    return t_model(c)


def t_refuse(c):
    g, ins = galaxy(c), instrument(c)
    if c['which'] == 0:
        ins.slit_mask = np.ones((3, 3))
        raises(ValueError, lambda: aper2d(c, g, ins), 'slit mask')
    else:
        cc = dict(c, posshift=True, vel=True, dw=30., res=40., xc=0., slit=7.3*c['pix'], nsub=1, nY=5)
        raises(ValueError, lambda: aper2d(cc), 'position shift in velocity units')
    return True, ['refuse%d' % c['which']]


s_refuse = st.tuples(cfg2d(posshift=False, maxY=4, maxW=8, maxsub=1), st.integers(0, 1)).map(lambda t: dict(t[0], which=t[1]))

SUBS = [Sub('pipeline', cfg2d(posshift=False), t_model, 3000, 60000),
        Sub('position-shift', cfg2d(posshift=True, vel=False, zero_sig=True), t_shift, 400, 6000),
        Sub('refused', s_refuse, t_refuse, 24, 200)]
