"""C22: image resampling, rotation and angle helpers."""
from .core import *
from . import ref
from astropy.io import fits
from astropy.wcs import WCS
from astropy.coordinates import SkyCoord
import astropy.units as u
from misfit.plot import box_integrate, box_integrate_pstamp
from misfit.plot import plot_utils as pu
from misfit.general import general_utils as gu
from misfit.galaxy import Galaxy
from misfit.instrument import Spectrograph

PROPERTY = 'C22'
RULE = ('Random profiles, images, pixel grids (finer, coarser, offset, partly or wholly outside), points, angles, centres, headers, index lists and postage stamps; oracles: '
        'overlap integrals evaluated pixel pair by pixel pair, conservation and composition laws, rotation matrices, spherical trigonometry by unit vectors, astropy world coordinates, '
        'direct convolution sums. Non-trivial: more than one old and new pixel (integration), an angle that is not a multiple of 90 deg (rotation), a header with a rotation, at least two runs.')
ASSUMPTIONS = ['uniform pixel grids', 'blurring and rotation laws for compact sources away from the stamp edges', 'relative tolerance 1e-9 (rotated stamps: 0.05 pixel, spline interpolation)',
               'position angles between -360 and 360 deg']


def grid(draw, name, n, c):
    c[name+'n'] = draw(st.integers(2, n))
    c[name+'d'] = draw(st.sampled_from([1., .5, .18, .06, 2., .1]))*draw(st.sampled_from([1., 1., 1.3]))
    c[name+'0'] = draw(num(-3, 3, 2))


@st.composite
def s_box(draw):
    c = dict(seed=draw(seeds()))
    for k, n in (('x', 24), ('y', 12), ('a', 14), ('b', 10)):
        grid(draw, k, n, c)
    c['kind'] = draw(st.sampled_from(['any', 'any', 'cover', 'same', 'chain', 'outside']))
    c['m'] = draw(st.integers(2, 5))
    c['k'] = draw(num(-3, 3, 2))
    return c


def ax(c, k):
    return c[k+'0']+c[k+'d']*np.arange(c[k+'n'])


def want_box(x, y, xn):
    d, dn = x[1]-x[0], xn[1]-xn[0]
    out = []
    for a in xn:
        t = []
        for b, v in zip(x, y):
            o = min(b+d/2, a+dn/2)-max(b-d/2, a-dn/2)
            if o > 0:
                t.append(o*v)
        out.append(math.fsum(t)/dn)
    return np.array(out)


def t_box(c):
    r = rng(c['seed'])
    x, xn = ax(c, 'x'), ax(c, 'a')
    y = r.normal(size=len(x))
    S = np.abs(y).max()
    if c['kind'] == 'cover':
        d = x[1]-x[0]
        dn = xn[1]-xn[0]
        n = int(math.ceil(len(x)*d/dn))+3
        xn = x[0]-d/2+dn*(np.arange(n)-r.uniform(.5, 1.5))
    elif c['kind'] == 'same':
        xn = x.copy()
    elif c['kind'] == 'outside':
        xn = x[-1]+(x[1]-x[0])+(xn[1]-xn[0])*(.5+np.arange(4))
    b = [x.copy(), y.copy(), xn.copy()]
    got = box_integrate(x, y, xn)
    check(got.shape == xn.shape, 'shape')
    tol = 1e-9*S*max(1., (x[1]-x[0])/(xn[1]-xn[0]))
    close(got, want_box(x, y, xn), rtol=0, atol=tol, what='box-integrated profile')
    if c['kind'] == 'cover':
        close(got.sum()*(xn[1]-xn[0]), y.sum()*(x[1]-x[0]), rtol=1e-9, atol=1e-9*S*len(x)*(x[1]-x[0]), what='flux on a covering grid')
    if c['kind'] == 'same':
        close(got, y, rtol=0, atol=tol, what='same grid')
    if c['kind'] == 'outside':
        check(np.all(np.abs(got[1:]) < 1e-12), 'flux outside the old grid')
    # linear, translation invariant, mirrored
    y2 = r.normal(size=len(x))
    close(box_integrate(x, y+c['k']*y2, xn), got+c['k']*box_integrate(x, y2, xn), rtol=0, atol=1e-8*S*max(1., (x[1]-x[0])/(xn[1]-xn[0])), what='linearity')
    close(box_integrate(-x[::-1], y[::-1], -xn[::-1]), got[::-1], rtol=0, atol=tol*10, what='mirrored grids')
    close(box_integrate(x, np.ones(len(x)), xn), want_box(x, np.ones(len(x)), xn), rtol=0, atol=1e-9, what='flat profile')
    # composition with a coarser grid nested in an intermediate one
    if c['kind'] == 'chain':
        m = c['m']
        d = (xn[1]-xn[0])/m
        fine = xn[0]-(xn[1]-xn[0])/2+d*(.5+np.arange(m*len(xn)))
        z = box_integrate(x, y, fine)
        close(box_integrate(fine, z, xn), got, rtol=0, atol=tol*10, what='integration through a finer grid')
        close(z.reshape(-1, m).mean(axis=1), got, rtol=0, atol=tol*10, what='mean over a finer grid')
    for p, q in zip(b, [x, y, xn]):
        same(q, p, 'input')
    return len(x) > 1 and len(xn) > 1, [c['kind']]


def t_stamp(c):
    r = rng(c['seed'])
    x, y, a, b = [ax(c, k) for k in 'xyab']
    im = r.normal(size=(len(y), len(x)))
    S = np.abs(im).max()
    if c['kind'] == 'cover':
        def cov(o, n):
            d, dn = o[1]-o[0], n[1]-n[0]
            k = int(math.ceil(len(o)*d/dn))+3
            return o[0]-d/2+dn*(np.arange(k)-r.uniform(.5, 1.5))
        a, b = cov(x, a), cov(y, b)
    if c['kind'] == 'same':
        a, b = x.copy(), y.copy()
    i0 = im.copy()
    got = box_integrate_pstamp(im, x, y, a, b)
    check(got.shape == (len(b), len(a)), lambda: 'shape %s for %d rows and %d columns' % (got.shape, len(b), len(a)))
    M = np.array([want_box(x, e, a) for e in np.eye(len(x))])
    N = np.array([want_box(y, e, b) for e in np.eye(len(y))])
    f = max(1., (x[1]-x[0])/(a[1]-a[0]))*max(1., (y[1]-y[0])/(b[1]-b[0]))
    close(got, N.T.dot(im).dot(M), rtol=0, atol=1e-9*S*f, what='box-integrated image')
    if c['kind'] == 'cover':
        close(got.sum()*(a[1]-a[0])*(b[1]-b[0]), im.sum()*(x[1]-x[0])*(y[1]-y[0]), rtol=1e-9, atol=1e-8*S*im.size*(x[1]-x[0])*(y[1]-y[0]), what='flux of the image on a covering grid')
    if c['kind'] == 'same':
        close(got, im, rtol=0, atol=1e-9*S, what='same grid')
    close(box_integrate_pstamp(im.T, y, x, b, a), got.T, rtol=0, atol=1e-9*S*f, what='transposed image')
    same(im, i0, 'input image')
    return True, ['stamp-'+c['kind']]


@st.composite
def s_rot(draw):
    c = dict(seed=draw(seeds()))
    c['th'] = draw(st.one_of(num(-10, 10, 3), st.sampled_from([0., 90., 180., -90., 360.]).map(math.radians)))
    c['ph'] = draw(num(-5, 5, 3))
    c['x0'], c['y0'] = draw(num(-50, 50, 2)), draw(num(-50, 50, 2))
    c['pts'] = [[draw(num(-50, 50, 2)), draw(num(-50, 50, 2))] for k in range(draw(st.integers(1, 5)))]
    c['shape'] = draw(st.sampled_from([None, (3,), (2, 3)]))
    return c


def t_rot(c):
    r = rng(c['seed'])
    P = np.array(c['pts'])
    x0, y0, t, p = c['x0'], c['y0'], c['th'], c['ph']
    R = lambda a: np.array([[math.cos(a), -math.sin(a)], [math.sin(a), math.cos(a)]])
    cen = np.array([x0, y0])
    want = (P-cen).dot(R(t).T)+cen
    X, Y = pu.rot_corner_coords(c['pts'], t, x0=x0, y0=y0) if len(P) > 1 else pu.rot_object_center(P[0][0], P[0][1], [x0, y0], t)
    X, Y = np.atleast_1d(X), np.atleast_1d(Y)
    close(X, want[:, 0], rtol=0, atol=1e-9, what='x of rotated points')
    close(Y, want[:, 1], rtol=0, atol=1e-9, what='y of rotated points')
    for k, q in enumerate(P):
        gx, gy = pu.rot_coord_angle(list(q), t, x0=x0, y0=y0)
        close([gx, gy], want[k], rtol=0, atol=1e-9, what='rotated point')
        ox, oy = pu.rot_object_center(q[0], q[1], [x0, y0], t)
        close([float(np.ravel(ox)[0]), float(np.ravel(oy)[0])], want[k], rtol=0, atol=1e-9, what='rotated object centre')
        hx, hy = pu.rot_coord_angle([gx, gy], p, x0=x0, y0=y0)
        close([hx, hy], (q-cen).dot(R(t+p).T)+cen, rtol=0, atol=1e-9, what='two rotations')
        close(pu.rot_coord_angle([gx, gy], -t, x0=x0, y0=y0), q, rtol=0, atol=1e-9, what='rotation and inverse')
    close(pu.rot_coord_angle(list(P[0]), t), R(t).dot(P[0]), rtol=0, atol=1e-9, what='rotation about the origin')
    if c['shape']:
        A = r.uniform(-5, 5, size=(2,)+tuple(c['shape']))
        gx, gy = pu.rot_coord_angle(A, t, x0=x0, y0=y0)
        W = np.tensordot(R(t), A-cen.reshape((2,)+(1,)*len(c['shape'])), axes=1)
        close(gx, W[0]+x0, rtol=0, atol=1e-9, what='array rotation')
        close(gy, W[1]+y0, rtol=0, atol=1e-9, what='array rotation')
    return abs(math.sin(2*t)) > 1e-6, ['rotation']


@st.composite
def s_ang(draw):
    c = dict(seed=draw(seeds()))
    c['pa'] = draw(st.one_of(num(-180, 180, 2), st.sampled_from([0., 45., -45., 90.5, 89.5, 180., -135.])))
    c['sg'] = draw(st.one_of(num(-360, 360, 3), st.sampled_from([0., 90., -90., 270., -270., 180., -180., 360., 89.999, 90.001, 269.999, 270.001, -89.999, -90.001]), st.integers(-360, 360)))
    c['s'] = draw(st.sampled_from([1e-5, 5e-5, 1e-4]))
    c['ra'], c['dec'] = draw(num(0, 359, 2)), draw(num(-80, 80, 2))
    c['d'] = draw(st.sampled_from([1., 20., 3600.]))
    c['dra'], c['ddec'] = draw(num(-1, 1, 3)), draw(num(-1, 1, 3))
    c['miss'] = draw(st.sampled_from([None, None, 'CD2_1', 'both']))
    return c


def diffdeg(a, b):
    return abs((a-b+180.) % 360.-180.)


def t_ang(c):
    # header
    t = math.radians(c['pa'])
    h = fits.Header()
    h['CTYPE1'], h['CTYPE2'] = 'RA---TAN', 'DEC--TAN'
    h['CRVAL1'], h['CRVAL2'], h['CRPIX1'], h['CRPIX2'] = c['ra'], c['dec'], 10.5, 11.
    h['CD1_1'], h['CD1_2'] = -c['s']*math.cos(t), c['s']*math.sin(t)
    h['CD2_1'], h['CD2_2'] = c['s']*math.sin(t), c['s']*math.cos(t)
    k = h.copy()
    if c['miss']:
        del k['CD2_1']
        if c['miss'] == 'both':
            del k['CD2_2']
        want = 0. if math.cos(t) > 0 or c['miss'] == 'both' else 180.
        got = pu.pstamp_position_angle(k)
        check(diffdeg(got, want) < 1e-9, lambda: 'image position angle %r, expected %r' % (got, want))
    elif abs(math.cos(t)) > 1e-9:
        got = pu.pstamp_position_angle(k)
        check(diffdeg(got, c['pa']) < 1e-9, lambda: 'image position angle %r of a header rotated by %r' % (got, c['pa']))
        w = WCS(h)
        a = SkyCoord(*w.wcs_pix2world(10.5, 11., 1), unit='deg')
        b = SkyCoord(*w.wcs_pix2world(10.5, 11.5, 1), unit='deg')
        check(diffdeg(got, a.position_angle(b).deg) < .01*(1+abs(math.tan(math.radians(c['dec'])))), lambda: 'image position angle %r but the y axis points to %r' % (got, a.position_angle(b).deg))
    # angle between two positions
    a = SkyCoord(c['ra'], c['dec'], unit='deg')
    b = SkyCoord(c['ra']+c['dra']*c['d']/3600./math.cos(math.radians(c['dec'])), min(89., max(-89., c['dec']+c['ddec']*c['d']/3600.)), unit='deg')
    va, vb = [np.array([math.cos(p.dec.rad)*math.cos(p.ra.rad), math.cos(p.dec.rad)*math.sin(p.ra.rad), math.sin(p.dec.rad)]) for p in (a, b)]
    e = np.array([-math.sin(a.ra.rad), math.cos(a.ra.rad), 0.])
    n = np.cross(va, e)
    if np.linalg.norm(vb-va) > 1e-6:
        want = math.atan2((vb-va).dot(e), (vb-va).dot(n))
        # project on the tangent plane
        w2 = vb-va*va.dot(vb)
        want = math.atan2(w2.dot(e), w2.dot(n))
        got = pu.pos_angle(a, b)
        check(diffdeg(got, math.degrees(want)) < 1e-5, lambda: 'position angle %r, expected %r' % (got, math.degrees(want)))
        check(diffdeg(math.degrees(pu.pos_angle(a, b, units='radians')), got) < 1e-9, 'radians')
    raises(ValueError, lambda: pu.pos_angle(a, b, units='hours'), 'unknown unit')
    # signs
    x = c['sg']
    m = abs((x+180.) % 360.-180.)
    s = 0. if m == 90 else (1. if m < 90 else -1.)
    check(pu.sign_from_pos_angle(x) == s, lambda: 'sign of position angle %r is %r' % (x, pu.sign_from_pos_angle(x)))
    check(pu.y_sign_pos_angle(x) == s, 'sign along y')
    if abs((x-90.)-round(x-90., 6)) < 1e-12 or x == round(x):
        m2 = abs((x+90.) % 360.-180.)
        if x-90. >= -360. and abs(m2-90) > 1e-6:
            check(pu.x_sign_pos_angle(x) == (1. if m2 < 90 else -1.), lambda: 'sign along x of position angle %r is %r' % (x, pu.x_sign_pos_angle(x)))
    return c['pa'] % 90 != 0, ['header' if not c['miss'] else 'header-missing-'+c['miss']]


@st.composite
def s_img(draw):
    c = dict(seed=draw(seeds()))
    c['n'], c['m'] = draw(st.integers(47, 60)), draw(st.integers(47, 60))
    c['dx'], c['dy'] = draw(num(-4, 4, 1)), draw(num(-4, 4, 1))
    c['w'] = draw(num(1.6, 2.4, 1))
    c['pa'] = draw(st.one_of(num(-180, 180, 1), st.sampled_from([0., 90., -90., 180.])))
    c['img'] = draw(st.one_of(num(-180, 180, 1), st.just(0.)))
    c['sig'] = draw(num(.06, .15, 3))
    c['pix'] = draw(st.sampled_from([.06, .05]))
    c['psf'] = draw(st.sampled_from(['Gaussian', 'Moffat']))
    c['one'] = draw(st.booleans())
    c['flux'] = draw(st.sampled_from([1., 1e-18, 500.]))
    return c


class Obj(object):
    pass


def moments(im):
    y, x = np.mgrid[:im.shape[0], :im.shape[1]]
    s = im.sum()
    cx, cy = (im*x).sum()/s, (im*y).sum()/s
    return s, cx, cy, (im*(x-cx)**2).sum()/s, (im*(y-cy)**2).sum()/s


def stampgal(c):
    y, x = np.mgrid[:c['n'], :c['m']]
    X, Y = (c['m']-1)/2., (c['n']-1)/2.
    im = c['flux']*np.exp(-.5*((x-X-c['dx'])**2+(y-Y-c['dy'])**2)/c['w']**2)
    g = Galaxy(z=1., ID=1)
    s = Obj()
    s.slit_PA = c['pa']
    if c['one']:
        g.spec2D, g.spec1D = None, s
    else:
        g.spec2D = s
    g.pstamp = Obj()
    g.pstamp.pstamp = im
    g.pstamp.img_PA = c['img']
    h = fits.Header()
    h['CTYPE1'], h['CTYPE2'] = 'RA---TAN', 'DEC--TAN'
    h['CRVAL1'], h['CRVAL2'], h['CRPIX1'], h['CRPIX2'] = 150., 2., X+1, Y+1
    h['CD1_1'], h['CD1_2'], h['CD2_1'], h['CD2_2'] = -c['pix']/3600., 0., 0., c['pix']/3600.
    g.pstamp.pstamp_hdr = h
    g.RA, g.DEC = 150., 2.
    return g, im, X, Y


def t_img(c):
    g, im, X, Y = stampgal(c)
    i0 = im.copy()
    got = pu.rotate_pstamp(g)
    check(got.shape == im.shape, 'shape of the rotated stamp')
    a = -math.radians(c['pa']-c['img'])
    s, cx, cy, vx, vy = moments(got)
    wx, wy = X+c['dx']*math.cos(a)-c['dy']*math.sin(a), Y+c['dx']*math.sin(a)+c['dy']*math.cos(a)
    check(abs(cx-wx) < .05 and abs(cy-wy) < .05, lambda: 'source at (%.3f, %.3f) after rotation, expected (%.3f, %.3f)' % (cx, cy, wx, wy))
    close(s, im.sum(), rtol=.01, atol=0, what='flux of the rotated stamp')
    close([vx, vy], [c['w']**2]*2, rtol=.06, atol=0, what='size of the rotated source')
    # blurred
    ins = Spectrograph(PSF_type=c['psf'], PSF_FWHM=.6, PSF_beta=3.5, pixscale=.18, slit_width=.7)
    img = Obj()
    img.pixscale = c['pix']
    with quiet():
        b = pu.convolve_rot_gal(galaxy=g, instrument=ins, instrument_img=img, conv_sigma=c['sig'])
    check(b.shape == im.shape, 'shape of the blurred stamp')
    close(b.sum(), got.sum(), rtol=1e-9, atol=0, what='flux of the blurred stamp')
    s, bx, by, ux, uy = moments(b)
    lim = .02 if c['psf'] == 'Gaussian' else .3
    check(abs(bx-cx) < lim and abs(by-cy) < lim, lambda: 'blurring moved the source from (%.3f, %.3f) to (%.3f, %.3f)' % (cx, cy, bx, by))
    if c['psf'] == 'Gaussian':
        w = (c['sig']/c['pix'])**2
        close([ux-vx, uy-vy], [w, w], rtol=.05, atol=.05, what='variance added by blurring')
    same(im, i0, 'input stamp')
    return (c['pa']-c['img']) % 90 != 0, ['stamp-'+c['psf'], '1D' if c['one'] else '2D']


@st.composite
def s_runs(draw):
    n = draw(st.integers(1, 30))
    a = sorted(set(draw(st.lists(st.integers(-5, 40), min_size=1, max_size=n))))
    return dict(a=a, kind=draw(st.sampled_from(['list', 'array'])))


def t_runs(c):
    a = c['a']
    got = gu.wh_continuous(np.array(a) if c['kind'] == 'array' else list(a))
    want = []
    for v in a:
        if want and v == want[-1][-1]+1:
            want[-1].append(v)
        else:
            want.append([v])
    check([[int(x) for x in q] for q in got] == want, lambda: 'runs of %s are %s' % (a, got))
    return len(want) > 1, ['runs']


SUBS = [Sub('box', s_box(), t_box, 800, 40000), Sub('stamp', s_box(), t_stamp, 300, 10000), Sub('rotation', s_rot(), t_rot, 1200, 40000),
        Sub('angles', s_ang(), t_ang, 800, 20000), Sub('image', s_img(), t_img, 300, 8000), Sub('runs', s_runs(), t_runs, 1000, 30000)]
