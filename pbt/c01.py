"""C01: geometry."""
from .core import *
import types
from misfit.model import kin_functions as kf
from misfit.general import general_utils as ggu
from misfit.general import galaxy_utils as gu
from misfit.galaxy import Galaxy

PROPERTY = 'C01'
RULE = ('Random coordinates, angles (many branches), axis ratios, thicknesses and slit widths; oracle: rotation '
        'matrices built independently and trigonometric identities. Non-trivial: angle not a multiple of 90 deg and '
        'inclination neither face- nor edge-on (projections: object extends beyond the slit or is partly inside).')
ASSUMPTIONS = ['float64 rounding: relative tolerance 1e-9']

ang = st.one_of(num(-180, 180, 2), num(-1000, 1000, 1), st.sampled_from([0., 45., 90., -90., 180., 270., 30., -60.]))


def warmup():
    kf.transform_int_3d(np.zeros(3), np.zeros(3), np.zeros(3), 1., .5)
    kf.transform_int_3d(np.zeros((3, 1, 1)), np.zeros((3, 1, 1)), np.zeros((3, 1, 1)), 1., .5)
    kf.transform_int_3d(0.1, 0.1, 0.1, 1., .5)
    kf.sin_i(.5, q0=.2)


# ---------------------------------------------------------------- transform
def t_transform(c):
    n = c['n']
    r = rng(c['seed'])
    x, y, z = [r.uniform(-c['scale'], c['scale'], n) for _ in range(3)]
    pa, inc = c['pa'], c['inc']
    sh = (n,) if not c['cube'] else (n, 1, 1)
    x, y, z = x.reshape(sh), y.reshape(sh), z.reshape(sh)
    x0, y0, z0 = x.copy(), y.copy(), z.copy()
    xi, yi, zi = kf.transform_int_3d(x, y, z, pa, inc)
    same(x, x0, 'input x unchanged')
    same(y, y0, 'input y unchanged')
    same(z, z0, 'input z unchanged')
    t = np.deg2rad(pa)
    # rotate sky by -pa (so the direction at pa CCW from +y maps to +y), then about y by inc
    ex = np.array([np.cos(t), np.sin(t)])      # sky unit vector of the minor axis
    ey = np.array([-np.sin(t), np.cos(t)])     # sky unit vector of the major axis
    xm = x*ex[0] + y*ex[1]
    ym = x*ey[0] + y*ey[1]
    R = np.array([[np.cos(inc), 0, np.sin(inc)], [0, 1, 0], [-np.sin(inc), 0, np.cos(inc)]])
    v = np.stack([xm, ym, z])
    want = np.tensordot(R, v, axes=1)
    got = np.stack([xi, yi, zi])
    sc = max(c['scale'], 1e-3)
    close(got, want, rtol=1e-9, scale=sc, what='transformed coordinates')
    close((got**2).sum(0), x0**2+y0**2+z0**2, rtol=1e-9, scale=3*sc*sc, what='distance from centre')
    # scalars agree with arrays
    k = 0
    g0 = kf.transform_int_3d(float(x.flat[k]), float(y.flat[k]), float(z.flat[k]), pa, inc)
    close(g0, got.reshape(3, -1)[:, k], rtol=1e-9, scale=sc, what='scalar vs array coordinates')
    # undo
    bx, by, bz = kf.transform_int_3d(xi, yi, zi, 0., -inc)
    bx, by, bz = kf.transform_int_3d(bx, by, bz, -pa, 0.)
    close(np.stack([bx, by, bz]), np.stack([x0, y0, z0]), rtol=1e-9, scale=sc, what='reverse rotation')
    # major axis direction
    mx, my, mz = kf.transform_int_3d(np.array([ey[0]*2]), np.array([ey[1]*2]), np.array([0.]), pa, inc)
    close([mx[0], my[0], mz[0]], [0, 2, 0], rtol=1e-9, what='major axis direction')
    nt = abs(np.sin(2*t)) > 1e-3 and 0.02 < inc < np.pi/2-.02
    return nt, ['cube' if c['cube'] else 'flat', 'neg' if pa < 0 else 'pos']


s_transform = st.fixed_dictionaries(dict(n=st.integers(1, 12), seed=seeds(), pa=ang, inc=num(0, 1.5708, 4),
                                         scale=st.sampled_from([0.01, 1., 30.]), cube=st.booleans()))


# ---------------------------------------------------------------- inclination
def t_incl(c):
    q, q0 = c['q'], c['q0']
    s = float(kf.sin_i(q, q0=q0))
    check(0. <= s <= 1., 'sin i = %r outside [0,1] for q=%r q0=%r' % (s, q, q0))
    if q <= q0:
        close(s, 1., what='sin i at or below the intrinsic thickness')
    else:
        close(s, np.sqrt((1-q*q)/(1-q0*q0)), rtol=1e-9, what='sin i')
        i = float(ggu.inclination_angle(q, q0=q0))
        check(0. <= i <= np.pi/2+1e-12, 'inclination %r outside [0, 90] deg' % i)
        close(np.sin(i), s, rtol=1e-7, atol=2e-8, what='sin(inclination angle) vs sin i')
        # definition: observed ratio of an oblate spheroid
        close(np.sqrt(np.cos(i)**2 + (q0*np.sin(i))**2), q, rtol=1e-7, what='axis ratio of the inclined spheroid')
    q2 = c['q2']
    s2 = float(kf.sin_i(q2, q0=q0))
    if q2 > q:
        check(s2 <= s + 1e-12, 'sin i must decrease with axis ratio: q=%r->%r, q=%r->%r' % (q, s, q2, s2))
    if q2 > max(q, q0)+1e-6:
        check(s2 < s, 'sin i strictly decreasing above the thickness: q=%r->%r, q=%r->%r (q0=%r)' % (q, s, q2, s2, q0))
    close(float(kf.sin_i(1., q0=q0)), 0., atol=1e-12, what='face-on sin i')
    return (q0 < q < 1.), ['below' if q < q0 else 'above', 'q0=0' if q0 == 0 else 'thick']


s_incl = st.fixed_dictionaries(dict(q=num(0.02, 1, 3), q2=num(0.02, 1, 3), q0=st.one_of(num(0, .6, 3), st.just(.19))))


# ---------------------------------------------------------------- misalignment angle
def mkgal(spa, slit, img, **kw):
    g = Galaxy(sersicPA=spa, **kw)
    g.spec2D = types.SimpleNamespace(slit_PA=slit)
    g.pstamp = types.SimpleNamespace(img_PA=img)
    return g


def dpa(spa, slit, img):
    g = mkgal(spa, slit, img)
    g.calculate_slit_object_delta_PA()
    return g


def mod180(a):
    """angle difference as an axis, in [0,180): unit complex number of 2a."""
    return np.array([np.cos(2*np.deg2rad(a)), np.sin(2*np.deg2rad(a))])


def t_dpa(c):
    spa, slit, img = c['spa'], c['slit'], c['img']
    g = dpa(spa, slit, img)
    d = float(g.delt_PA)
    check(-90.-1e-6 <= d <= 90.+1e-6, 'misalignment %r outside +-90' % d)
    close(g.delt_PA_abs, abs(d), what='absolute misalignment')
    close(mod180(d), mod180(spa-(slit-img)), atol=1e-8, what='misalignment axis')
    # inputs untouched
    same([g.sersicPA, g.spec2D.slit_PA, g.pstamp.img_PA], [spa, slit, img], 'angles unchanged')
    k1, k2, k3 = c['k']
    close(mod180(dpa(spa+180*k1, slit+180*k2, img+180*k3).delt_PA), mod180(d), atol=1e-8, what='modulo 180')
    rot = c['rot']
    close(mod180(dpa(spa+rot, slit+rot, img).delt_PA), mod180(d), atol=1e-8, what='sky rotated')
    close(mod180(dpa(spa-rot, slit, img+rot).delt_PA), mod180(d), atol=1e-8, what='image frame rotated')
    close(mod180(dpa(-spa, -slit, -img).delt_PA), mod180(-d), atol=1e-8, what='mirrored sky')
    if abs(abs(d)-90) > 1e-3:
        close(dpa(-spa, -slit, -img).delt_PA, -d, atol=1e-6, what='mirrored misalignment')
        close(dpa(spa+180*k1, slit, img).delt_PA, d, atol=1e-6, what='misalignment of half-turned galaxy')
    # galaxies that are only models keep the requested misalignment
    g2 = mkgal(spa, slit, img, generate_model=True, delt_PA=c['pa_set'])
    g2.calculate_slit_object_delta_PA()
    close(g2.delt_PA, c['pa_set'], what='requested misalignment of a model galaxy')
    close(g2.delt_PA_abs, abs(c['pa_set']), what='abs requested misalignment')
    return abs(np.sin(2*np.deg2rad(d))) > 1e-3, ['neg' if d < 0 else 'pos', 'wrapped' if abs(spa-(slit-img)) > 90 else 'direct']


s_dpa = st.fixed_dictionaries(dict(spa=ang, slit=ang, img=ang, rot=ang, k=st.tuples(*[st.integers(-3, 3)]*3).map(list),
                                   pa_set=num(-90, 90, 1)))


# ---------------------------------------------------------------- projections
def t_proj(c):
    re, pa, q, w = c['re'], c['pa'], c['q'], c['w']
    t = np.deg2rad(pa)
    tip = np.array([-np.sin(t), np.cos(t)])*re      # end of the major axis on the sky (slit along y)
    close(ggu.y_proj_major(re, pa), abs(tip[1]), rtol=1e-9, atol=1e-12, what='y projection')
    close(ggu.x_proj_major(re, pa, q), abs(tip[0]), rtol=1e-9, atol=1e-12, what='x projection')
    labels = []
    # part of the half major axis inside the slit
    if abs(abs(tip[0])-0.5*w) > 1e-6*re and abs(np.sin(t)) > 1e-6:
        f = min(1., 0.5*w/abs(tip[0]))
        close(ggu.y_proj_major_inslit(re, pa, slit_width_arcsec=w), abs(tip[1])*f, rtol=1e-8, atol=1e-12,
              what='y extent of the major axis inside the slit')
        labels.append('cut' if f < 1 else 'inside')
    if abs(np.cos(t)) > 1e-3:
        close(ggu.r_unproj_major(ggu.y_proj_major(re, pa), pa, q), re, rtol=1e-9, what='unprojected radius')
        close(ggu.r_unproj_major(c['yp'], pa, q), abs(c['yp']/np.cos(t)), rtol=1e-9, what='unprojected radius of y')
    # ellipse radius along the slit axis / across it: points on ellipse of axes re, q re at angle
    for fn, th in ((ggu.y_proj_phys, t), (ggu.x_proj_phys, np.pi/2-t)):
        r = float(fn(re, pa, q))
        a, b = r*np.cos(th), r*np.sin(th)
        close((a/re)**2+(b/(q*re))**2, 1., rtol=1e-8, what=fn.__name__+' lies on the ellipse')
    return abs(np.sin(2*t)) > 1e-3, labels


s_proj = st.fixed_dictionaries(dict(re=num(.02, 4, 3), pa=ang, q=num(.1, 1, 2), w=num(.2, 2.5, 2), yp=num(-3, 3, 2)))

SUBS = [Sub('transform', s_transform, t_transform, 2000, 60000),
        Sub('inclination', s_incl, t_incl, 2000, 60000),
        Sub('misalignment', s_dpa, t_dpa, 2000, 60000),
        Sub('projections', s_proj, t_proj, 2000, 60000)]
