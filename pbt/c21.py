"""C21: mock observations."""
from .core import *
from . import ref
from .build2d import VCustom, DCustom, cusp_tol
from .c13 import LINES, WAVE, RATIO
from misfit.mock import generate_mock_slit_obs, generate_mock_IFU_cube
from misfit.mock.generate_basic import generate_mock_basis
from misfit.model import kin_classes as kc
from misfit.galaxy import Galaxy

PROPERTY = 'C21'
RULE = ('Random mock settings (galaxy, kinematics, slit, PSF family, resolution, line group, wavelength or velocity grid, sub-sampling, user-defined profiles) for both generators; '
        'oracles: the independent direct-sum pipeline evaluated on the documented grid, the relation between cube and a slit covering the whole field, and repetition after calls with '
        'other settings. Non-trivial: rotating, inclined, and the reference has flux.')
ASSUMPTIONS = ['uniform wavelength grids', 'relative tolerance 1e-7 of the maximum (1e-4 with position shift)', 'configurations on a rounding tie give no verdict']


def warmup():
    generate_mock_slit_obs(**kwargs(BASE))
    generate_mock_IFU_cube(**kwargs(dict(BASE, ptype='Moffat')))


BASE = dict(vel=False, nymin=3, ny=3.5, nsub=1, pix=.2, slit=.5, ptype='Gaussian', fwhm=.4, pad=.5, res=50., q0=.19, q=.5, pa=20., re=.5, n=1., z=2., m0s=0., group='Halpha', nW=7,
            woff=.1, dw=2., rt=.3, va=100., sig=80., posshift=False, iprof=0, kprof=0, seed=1, deft=False)


@st.composite
def s_mock(draw, posshift=False, cube=False):
    c = dict(seed=draw(seeds()))
    c['vel'] = draw(st.integers(0, 4)) == 4 and not posshift
    c['posshift'] = posshift
    c['deft'] = draw(st.integers(0, 12)) == 12 and not cube and not posshift     # default number of rows, sub-sampling and padding
    c['nymin'] = 13 if c['deft'] else draw(st.integers(3, 6))
    c['ny'] = draw(st.one_of(num(2.2, 6.7, 1), st.just(float(c['nymin']))))
    c['nsub'] = 2 if c['deft'] else draw(st.integers(1, 3 if not cube else 2))
    c['pix'] = draw(st.sampled_from([.1, .18, .25, .5]))
    dy = c['pix']/c['nsub']
    c['slit'] = draw(st.integers(6 if posshift else 2, 12))*dy-draw(num(.05, .95, 2))*dy
    c['ptype'] = draw(st.sampled_from(['Gaussian', 'Moffat']))
    c['fwhm'] = draw(st.one_of(st.just(0.), num(.5, 5, 2)))*c['pix']
    c['pad'] = .5 if c['deft'] else draw(st.sampled_from([.5, 0., 1., .31]))
    if posshift:
        c['fwhm'] = max(c['fwhm'], 1.5*c['pix'])
        c['slit'] = max(c['slit'], 2.3*c['pix'])
    c['res'] = draw(num(5, 150, 1)) if posshift else draw(st.one_of(st.just(0.), num(5, 150, 1)))
    c['q0'] = draw(st.sampled_from([.19, .1, .25]))
    c['q'] = draw(st.one_of(num(.05, 1., 2), num(.3, .95, 2)))
    c['pa'] = draw(st.one_of(num(-90, 90, 1), st.sampled_from([0., 45., -45., 90.])))
    c['re'] = draw(num(1. if posshift else .5, 6, 2))*c['pix']
    c['n'] = draw(st.one_of(num(.5, 4., 1), st.just(1.)))
    c['z'] = draw(num(.1, 3, 3))
    c['m0s'] = draw(num(-1.5, 1.5, 2))
    c['group'] = draw(st.sampled_from(sorted(LINES)))
    c['nW'] = draw(st.integers(8, 22))
    c['woff'] = draw(num(-.47, .47, 3))
    c['dw'] = draw(num(10, 120, 1)) if c['vel'] else draw(num(.8, 6, 2))
    rest = WAVE[LINES[c['group']][0]]
    pixv = c['dw'] if c['vel'] else c['dw']/(rest*(1+c['z']))*ref.C_KMS
    c['rt'] = draw(num(.05, 6, 2))*c['pix']
    c['va'] = draw(num(-6, 6, 2))*pixv
    c['sig'] = draw(st.one_of(num(.6, 4, 2), num(.6, 4, 2), num(.16, .42, 3), st.just(0.)))*pixv
    c['iprof'], c['kprof'] = draw(st.sampled_from([0, 0, 1])), draw(st.sampled_from([0, 0, 1]))
    if cube:
        c['nymin'], c['ny'] = min(c['nymin'], 5), min(c['ny'], 5.)
        c['pad'] = min(c['pad'], .5)
    return c


def lineset(c):
    return [WAVE[k] for k in LINES[c['group']]], [RATIO[k] for k in LINES[c['group']]]


def wave(c):
    k = np.arange(c['nW'])-(c['nW']-1)/2.+c['woff']
    return k*c['dw'] if c['vel'] else lineset(c)[0][0]*(1.+c['z'])+k*c['dw']


def kwargs(c, **kw):
    a = dict(z=c['z'], ID=5, Va=c['va'], rt=c['rt'], sigma0=c['sig'], yshift=c['m0s'], n=c['n'], re_arcsec=c['re'], q=c['q'], q0=c['q0'], delt_PA=c['pa'],
             wave=wave(c), instrument_name='TEST', pixscale=c['pix'], instrument_resolution=c['res'], slit_width=c['slit'], slit_length=c['ny']*c['pix'],
             PSF_FWHM=c['fwhm'], PSF_type=c['ptype'], band='K', line_primary=LINES[c['group']][0], linegroup_name=c['group'],
             spec_type='velocity' if c['vel'] else 'wave')
    if not c['deft']:
        a.update(nymin=c['nymin'], nSubpixels=c['nsub'], pad_factor=c['pad'])
    if c['posshift']:
        a['do_position_wave_shift'] = True
    if c['kprof']:
        a['kinProfile'] = kc.KinProfile(velProfile=VCustom(), dispProfile=DCustom())
    if c['iprof']:
        # built for another galaxy: the mock has to use its own
        a['intensityProfile'] = kc.IntensityProfileSersicExpScale(Galaxy(z=1., n=2.2, re_arcsec=.33, q=.7, q0=.2, delt_PA=10., ID=9, generate_model=True))
    a.update(kw)
    return a


def full(c, nY):
    rest, ratio = lineset(c)
    return dict(c, nY=nY, beta=2.5, dith=None, zw=c['z'], m0=(nY-1)/2., rest=rest, ratio=ratio, absval=False, adaptive=True, factor=3, floor=True, rebin=True, xc=0., gen=True)


def rows(c, got):
    """documented number of rows: the requested slit, but at least nymin."""
    n = max(c['ny'], c['nymin'])
    lo = int(math.ceil(n-1e-9))
    check(got in (lo, int(math.ceil(n+1e-9))), lambda: '%d rows for a slit of %g rows and at least %d' % (got, c['ny'], c['nymin']))
    check(got >= c['nymin'], 'fewer rows than requested')
    return got


def nontriv(c, want):
    return bool(c['va'] != 0 and c['q'] < .999 and np.abs(want).max() > 0)


def labels(c):
    return ['vel' if c['vel'] else c['group'], 'deft' if c['deft'] else 'nsub%d' % c['nsub'], c['ptype'] if c['fwhm'] else 'noPSF', 'zero-sig' if c['sig'] == 0 else 'sig']


def t_slit(c):
    got = generate_mock_slit_obs(**kwargs(c))
    nY = rows(c, got.shape[0])
    check(got.shape[1] == c['nW'], lambda: 'shape %s' % (got.shape,))
    f = full(c, nY)
    want = ref.ref2d(f)
    close(got, want, rtol=max(1e-4 if c['posshift'] else 1e-7, cusp_tol(f)), what='mock slit spectrum')
    # the basis describes the same observation
    a = kwargs(c)
    w0 = a['wave'].copy()
    km, g, ins = generate_mock_basis(**a)
    same(a['wave'], w0, 'wavelengths handed over')
    check(g.z == c['z'] and g.q == c['q'] and g.n == c['n'] and g.re_arcsec == c['re'] and g.delt_PA == c['pa'] and g.q0 == c['q0'], 'galaxy of the mock')
    check(ins.slit_width == c['slit'] and ins.pixscale == c['pix'] and ins.instrument_resolution == c['res'], 'instrument of the mock')
    same(g.spec2D.wave, w0, 'wavelengths of the mock')
    check(g.spec2D.m0 == (nY-1)/2. and tuple(g.spec2D.shape) == (nY, c['nW']), lambda: 'object row %r of %r' % (g.spec2D.m0, g.spec2D.shape))
    km.make_model(galaxy=g, instrument=ins, theta_fitting=[])
    close(km.model, got, rtol=1e-10, what='model of the mock basis')
    check(ins.slit_width == c['slit'], 'slit width changed by making the model')
    return nontriv(c, want), labels(c)+(['posshift'] if c['posshift'] else [])


def t_cube(c):
    got = generate_mock_IFU_cube(**kwargs(c))
    nY = rows(c, got.shape[1])
    check(got.shape == (c['nW'], nY, nY), lambda: 'cube of shape %s' % (got.shape,))
    f = dict(full(c, nY), slit=nY*c['pix'])
    want = ref.ref3d(f)
    tol = max(1e-7, cusp_tol(f))
    close(got, want, rtol=tol, what='mock cube')
    # a slit covering the whole field, without spectral resolution
    s = generate_mock_slit_obs(**kwargs(c, slit_width=nY*c['pix'], slit_length=nY*c['pix']*(1-1e-12), nymin=nY-.5, instrument_resolution=0.))
    if s.shape[0] == nY:
        close(got.sum(axis=2).T*c['pix']/c['nsub'], s, rtol=1e-7, what='cube summed across the slit')
        lab = ['summed']
    else:
        lab = ['rows differ']
    return nontriv(c, want), labels(c)+lab


def t_debug(c):
    """intermediate products of the cube: light and velocity fields on the coarse grid."""
    cube = generate_mock_IFU_cube(**kwargs(c))
    with quiet():
        got = generate_mock_IFU_cube(debug=True, **kwargs(c))
    check(len(got) == 4, 'debug products')
    close(got[0], cube, rtol=1e-10, what='cube in debug mode')
    nY = cube.shape[1]
    f = dict(full(c, nY), slit=nY*c['pix'])
    g = ref.grid2d(f)
    I, V, r, zi = ref.field2d(f, g)
    I, V = [a[:, g['pady']:g['pady']+g['nPy'], g['padx']:g['padx']+g['nPx']] for a in (I, V)]
    n = c['nsub']
    sh = lambda a: a.reshape(nY, n, nY, n, nY, n)
    tol = max(1e-7, cusp_tol(f))
    close(got[1], sh(I).sum(axis=(1, 3, 5)), rtol=tol, what='light field')
    close(got[2], sh(V).mean(axis=(1, 3, 5)), rtol=1e-7, what='velocity field')
    close(got[3], sh(I*V*V).sum(axis=(1, 3, 5)), rtol=tol, what='light-weighted squared velocity')
    return nontriv(c, I), labels(c)


@st.composite
def s_seq(draw):
    cs = [draw(s_mock()) for k in range(draw(st.integers(2, 4)))]
    # several of them differ in one setting only
    for k in range(1, len(cs)):
        if draw(st.booleans()):
            key = draw(st.sampled_from(['va', 'sig', 'fwhm', 'slit', 'm0s', 'pa', 'q', 're', 'res']))
            if key != 'slit' or cs[k]['pix']/cs[k]['nsub'] == cs[k-1]['pix']/cs[k-1]['nsub']:
                cs[k] = dict(cs[k-1], **{key: cs[k][key]})
    return dict(cs=cs, ops=draw(st.lists(st.tuples(st.integers(0, len(cs)-1), st.sampled_from(['slit', 'slit', 'cube'])), min_size=3, max_size=7)))


def t_seq(c):
    cs = [dict(k, deft=False, nsub=min(k['nsub'], 2), nymin=min(k['nymin'], 4), ny=min(k['ny'], 4.), pad=min(k['pad'], .5)) for k in c['cs']]
    seen = {}
    live = []
    for i, kind in c['ops']:
        m = (generate_mock_slit_obs if kind == 'slit' else generate_mock_IFU_cube)(**kwargs(cs[i]))
        live.append((m, m.copy()))
        if (i, kind) in seen:
            close(m, seen[(i, kind)], rtol=1e-12, what='mock %d repeated after others' % i)
        else:
            nY = m.shape[0 if kind == 'slit' else 1]
            f = full(cs[i], nY)
            try:
                want = ref.ref2d(f) if kind == 'slit' else ref.ref3d(dict(f, slit=nY*f['pix']))
                close(m, want, rtol=max(1e-7, cusp_tol(f if kind == 'slit' else dict(f, slit=nY*f['pix']))), what='mock %d in a sequence' % i)
            except ref.Skip:
                pass
            seen[(i, kind)] = m.copy()
        for a, b in live:
            same(a, b, 'an earlier mock')
    return len(set(i for i, k in c['ops'])) > 1, ['sequence']


PAR = ['va', 'rt', 'sig', 'm0s', 'z']


@st.composite
def s_free(draw):
    c = draw(s_mock(cube=True))
    c['nsub'], c['nymin'], c['ny'], c['kprof'] = min(c['nsub'], 2), min(c['nymin'], 4), min(c['ny'], 4.), 0
    c['kind'] = draw(st.sampled_from(['cube', 'slit']))
    c['vary'] = draw(st.lists(st.booleans(), min_size=5, max_size=5).filter(any))
    dv = c['dw']/2. if c['vel'] else c['dw']/(WAVE[LINES[c['group']][0]]*(1+c['z']))*ref.C_KMS
    c['thetas'] = [[draw(num(-6, 6, 2))*dv, draw(num(.05, 6, 2))*c['pix'], draw(num(.6, 4, 2))*dv, draw(num(-1.5, 1.5, 2)), c['z']+draw(num(-2, 2, 2))*dv/ref.C_KMS*(1+c['z'])]
                   for k in range(draw(st.integers(1, 3)))]
    if c['vel']:
        c['vary'][4] = False
        c['vary'][0] = c['vary'][0] or not any(c['vary'])
    return c


def t_free(c):
    """a model with free parameters evaluated at some values is the mock made with these values."""
    a = kwargs(c)
    km0, g, ins = generate_mock_basis(**a)
    km = km0.__class__(g, thetaSettings=kc.Theta2DSettingsFiducial(theta=np.array([c['va'], c['rt'], c['sig'], c['m0s'], c['z']]), theta_vary=np.array(c['vary']),
                       theta_bounds=np.array([None]*5), theta_linked_posteriors=None), kinProfile=kc.KinProfileFiducial(), intensityProfile=km0.intensityProfile,
                       kinModelOptions=km0.kinModelOptions, spec_type=km0.spec_type, no_scale=True)
    free = [k for k in range(5) if c['vary'][k]]
    check(km.n_free_param == len(free), 'number of free parameters')
    nz = False
    for th in c['thetas']:
        make = km.make_3D_int_model if c['kind'] == 'cube' else km.make_model
        make(galaxy=g, instrument=ins, theta_fitting=[th[k] for k in free])
        got = km.model_cube if c['kind'] == 'cube' else km.model
        f = full(c, got.shape[1 if c['kind'] == 'cube' else 0])
        for k in free:
            f[PAR[k]] = th[k]
        if c['kind'] == 'cube':
            f['slit'] = f['nY']*c['pix']
        want = (ref.ref3d if c['kind'] == 'cube' else ref.ref2d)(f)
        close(got, want, rtol=max(1e-7, cusp_tol(f)), what='%s with free parameters' % c['kind'])
        check(ins.slit_width == c['slit'], 'slit of the instrument handed over')
        nz = nz or nontriv(f, want)
    return nz and len(c['thetas']) > 1, [c['kind'], 'free%d' % len(free)]


SUBS = [Sub('slit', s_mock(), t_slit, 500, 15000), Sub('slit-position-shift', s_mock(posshift=True), t_slit, 100, 2000), Sub('cube', s_mock(cube=True), t_cube, 250, 6000),
        Sub('fields', s_mock(cube=True), t_debug, 100, 2500), Sub('sequence', s_seq(), t_seq, 100, 2500),
        Sub('free-parameters', s_free(), t_free, 200, 5000)]
