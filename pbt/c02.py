"""C02: kinematic and intensity profiles."""
from .core import *
from misfit.model import kin_classes as kc
from misfit.galaxy import Galaxy, GalaxyBasic

PROPERTY = 'C02'
RULE = ('Random profile parameters and radii/heights (scalars, 1-3D arrays); oracle: the documented formulas, laws '
        '(odd, monotonic, half value at the turnover radius) and a model of who owns which parameters over random '
        'update histories. Non-trivial: array input with a non-zero amplitude, or a history with at least two '
        'profiles and three updates.')
ASSUMPTIONS = ['radii are non-negative for light profiles (cylindrical radius), turnover radius > 0']


def t_kin(c):
    va, rt, s0 = c['va'], c['rt'], c['s0']
    kp = kc.KinProfileFiducial()
    th = np.array([va, rt, s0] + c['extra'])
    th0 = th.copy()
    kp.update_theta(th)
    r = np.array(c['r'], dtype=float)
    z = np.array(c['zz'][:len(r)], dtype=float)
    z = np.resize(z, r.shape)
    if c['shape3'] and len(r) % 2 == 0:
        r, z = r.reshape(2, -1, 1), z.reshape(2, -1, 1)
    v = kp.vel(r, z)
    s = kp.sigma(r, z)
    close(v, 2/np.pi*va*np.arctan(r/rt), rtol=1e-10, atol=1e-12, what='arctan velocity')
    close(s, np.full(r.shape, s0), rtol=1e-12, what='constant dispersion')
    close(kp.vel(-r, z), -v, rtol=1e-10, atol=1e-12, what='velocity is odd in radius')
    close(kp.vel(rt, 0.), va/2., rtol=1e-10, atol=1e-14, what='velocity at the turnover radius')
    check(np.all(np.abs(v) <= abs(va)*(1+1e-12)), 'speed exceeds the asymptotic velocity')
    close(kp.vel(1e9*rt, 0.), va, rtol=1e-7, atol=1e-9, what='asymptotic velocity')
    o = np.argsort(r.ravel())
    d = np.diff(v.ravel()[o])*np.sign(va)
    check(np.all(d >= -1e-12*max(1, abs(va))), 'velocity not monotonic')
    # scalar agrees, height is irrelevant
    close(kp.vel(float(r.flat[0]), 1.3), v.flat[0], rtol=1e-12, atol=1e-14, what='scalar velocity')
    close(kp.sigma(float(r.flat[0]), -.3), s0, rtol=1e-12, what='scalar dispersion')
    same(th, th0, 'parameter vector unchanged')
    return va != 0 and r.size > 1, ['neg' if va < 0 else 'pos']


s_kin = st.fixed_dictionaries(dict(va=num(-600, 600, 1), rt=num(.001, 3, 3), s0=num(-300, 300, 1),
                                   r=st.lists(num(0, 6, 3), min_size=1, max_size=12),
                                   zz=st.lists(num(-2, 2, 2), min_size=1, max_size=3), shape3=st.booleans(),
                                   extra=st.lists(num(-3, 3, 2), max_size=2)))


def t_custom(c):
    """Custom components of any number of parameters, several live profiles, random update order."""
    profs = []
    for (nv, nd) in c['sizes']:
        class V(kc.VelProfile):
            def __init__(self, n):
                kc.VelProfile.__init__(self)
                self.theta = np.zeros(n)

            def vel(self, r, z):
                return sum(t*r**k for k, t in enumerate(self.theta)) + 10.*z

        class D(kc.DispProfile):
            def __init__(self, n):
                kc.DispProfile.__init__(self)
                self.theta = np.zeros(n)

            def sigma(self, r, z):
                return sum(t*(1.+r)**k for k, t in enumerate(self.theta)) - z
        if nv == 0:
            kp = kc.KinProfileFiducial()
            profs.append([kp, None, None, None])
        else:
            kp = kc.KinProfile(velProfile=V(nv), dispProfile=D(nd))
            profs.append([kp, nv, nd, None])
    r, z = np.array([0., .3, 1.7]), np.array([0., -.4, .2])
    for (k, vals) in c['ops']:
        p = profs[k % len(profs)]
        n = 3 if p[1] is None else p[1]+p[2]
        th = np.resize(np.array(vals), n+2)        # the model's vector has further (position, redshift) entries
        if p[1] is None:
            th[1] = abs(th[1])+.1
        keep = th.copy()
        p[0].update_theta(th)
        same(th, keep, 'parameter vector unchanged')
        p[3] = keep
        for kp, nv, nd, cur in profs:
            if cur is None:
                continue
            if nv is None:
                wv = 2/np.pi*cur[0]*np.arctan(r/cur[1])
                ws = np.full(3, cur[2])
            else:
                wv = sum(cur[j]*r**j for j in range(nv)) + 10.*z
                ws = sum(cur[nv+j]*(1.+r)**j for j in range(nd)) - z
            close(kp.vel(r, z), wv, rtol=1e-10, atol=1e-9, what='velocity of a live profile')
            close(kp.sigma(r, z), ws, rtol=1e-10, atol=1e-9, what='dispersion of a live profile')
    return len(c['sizes']) > 1 and len(c['ops']) > 2, ['nprof%d' % len(c['sizes'])]


s_custom = st.fixed_dictionaries(dict(
    sizes=st.lists(st.one_of(st.tuples(st.integers(1, 4), st.integers(1, 3)), st.just((0, 0))), min_size=1, max_size=4),
    ops=st.lists(st.tuples(st.integers(0, 3), st.lists(num(-5, 5, 2), min_size=1, max_size=9)), min_size=1, max_size=8)))


def t_int(c):
    G = Galaxy if c['full'] else GalaxyBasic
    g = G(n=c['n'], re_arcsec=c['re'], q0=c['q0'], q=.5)
    P = kc.IntensityProfileFiducial if c['kind'] == 0 else kc.IntensityProfileSersicExpScale
    p = P(g)
    other = kc.IntensityProfileSersicExpScale(G(n=1.3, re_arcsec=.77, q0=.3)) if c['kind'] == 0 else \
        kc.IntensityProfileFiducial(G(n=1.3, re_arcsec=.77, q0=.3))
    r = np.array(c['r'])
    z = np.resize(np.array(c['zz']), r.shape)

    def want(n, re, q0, r, z, k):
        z0 = q0*re if k == 0 else q0*re/1.676
        return np.exp(-(2.*n-.324)*((r/re)**(1./n)-1.))*np.exp(-np.abs(z)/z0)
    close(p.int(r, z), want(c['n'], c['re'], c['q0'], r, z, c['kind']), rtol=1e-9, atol=1e-300, what='intensity')
    close(other.int(r, z), want(1.3, .77, .3, r, z, 1-c['kind']), rtol=1e-9, atol=1e-300, what='intensity of another galaxy')
    close(p.int(c['re'], 0.), 1., rtol=1e-10, what='intensity at the effective radius in the plane')
    close(p.int(r, -z), p.int(r, z), rtol=1e-12, what='symmetric in height')
    o = np.argsort(r)
    iz = p.int(r[o], np.zeros(len(r)))
    check(np.all(np.diff(iz) <= 1e-12*iz[:-1]), 'intensity must fall with radius')
    # refreshed from another galaxy
    g2 = G(n=c['n2'], re_arcsec=c['re2'], q0=c['q02'])
    p.update_values(g2)
    close(p.int(r, z), want(c['n2'], c['re2'], c['q02'], r, z, c['kind']), rtol=1e-9, atol=1e-300, what='refreshed intensity')
    # galaxy changed in place, then refreshed
    g.re_arcsec = c['re2']
    g.n = c['n2']
    p.update_values(g)
    close(p.int(r, z), want(c['n2'], c['re2'], c['q0'], r, z, c['kind']), rtol=1e-9, atol=1e-300, what='intensity after galaxy change')
    return len(r) > 1 and np.any(z != 0), ['kind%d' % c['kind']]


s_int = st.fixed_dictionaries(dict(n=num(.3, 6, 2), re=num(.02, 3, 3), q0=num(.05, .6, 2), n2=num(.3, 6, 2), re2=num(.02, 3, 3),
                                   q02=num(.05, .6, 2), kind=st.integers(0, 1), full=st.booleans(),
                                   r=st.lists(num(0, 5, 3), min_size=1, max_size=10),
                                   zz=st.lists(num(-2, 2, 2), min_size=1, max_size=4)))

SUBS = [Sub('kinematics', s_kin, t_kin, 3000, 60000),
        Sub('parameter-slices', s_custom, t_custom, 2000, 40000),
        Sub('intensity', s_int, t_int, 3000, 60000)]
