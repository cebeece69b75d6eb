"""C10: free and fixed parameters."""
from .buildfit import *

PROPERTY = 'C10'
RULE = ('Random patterns of free and fixed parameters (five-parameter default and user-defined profiles of other sizes), histories of builds and '
        'updates, bounds of every sign and size; oracle: positional filling of the free slots, models equal to those of a fully specified vector, '
        'walker positions compared with the bounds of their own parameter. Non-trivial: both free and fixed parameters are present (mapping), two or '
        'more free parameters with different bounds (walkers).')
ASSUMPTIONS = ['bounds are finite with lower below upper', 'relative tolerance 1e-10 between models of equal parameters']


def warmup():
    aper2d(BASE)


class VN(kc.VelProfile):
    def __init__(self, n, **kw):
        kc.VelProfile.__init__(self, **kw)
        self.theta = np.zeros(n)

    def vel(self, r, z):
        return sum(t*np.tanh(np.asarray(r)*(k+1)) for k, t in enumerate(self.theta)) + 0.*np.asarray(r)


class DN(kc.DispProfile):
    def __init__(self, n, **kw):
        kc.DispProfile.__init__(self, **kw)
        self.theta = np.zeros(n)

    def sigma(self, r, z):
        return self.theta[0] + 0.*np.asarray(r) + sum(t*np.exp(-np.asarray(r)*(k+1)) for k, t in enumerate(self.theta[1:]))


def kprof(c):
    if c['kind'] == 'fid':
        return kc.KinProfileFiducial()
    return kc.KinProfile(velProfile=VN(c['nv']), dispProfile=DN(c['nd']))


def start(c, cc):
    if c['kind'] == 'fid':
        return theta(cc)
    r = rng(c['seed']+4)
    pixv = cc['dw']/(cc['rest'][0]*(1+cc['z']))*ref.C_KMS
    return np.concatenate([r.normal(size=c['nv'])*2*pixv, [pixv*r.uniform(1, 3)], r.uniform(0, 1, size=c['nd']-1)*pixv, [cc['m0s'], cc['z']]])


def sets(c, th, vary, bounds):
    names = ['p%d' % k for k in range(len(th))]
    if c['kind'] == 'fid':
        return kc.Theta2DSettingsFiducial(theta=th.copy(), theta_vary=vary.copy(), theta_bounds=bounds.copy())
    return kc.Theta2DSettings(theta=th.copy(), theta_vary=vary.copy(), theta_bounds=bounds.copy(), theta_names=names, theta_names_nice=list(names))


def opts(cc, c):
    o = kmopts(cc)
    if c['kind'] != 'fid':
        o.adaptive_upsample_wave = False
        o.sigma_floor = False
    return o


def kmodel(c, cc, s, prof=None):
    g = galaxy(cc)
    g.spec2D.wh_nosky = np.arange(cc['nW'])
    g.spec2D.spec_mask = np.ones((cc['nY'], cc['nW']))
    r = rng(c['seed']+6)
    g.spec2D.flux = r.normal(size=(cc['nY'], cc['nW']))+1
    return g, KinModel2D(g, thetaSettings=s, kinProfile=prof or kprof(c), intensityProfile=intprof(cc, g), kinModelOptions=opts(cc, c),
                         no_scale=c['noscale'])


def t_map(c):
    cc = dict(c['cfg'], rebin=True, xc=0., kprof=0)
    th = start(c, cc)
    n = len(th)
    vary = np.array((c['vary']*3)[:n], dtype=bool)
    if c['all'] == 1:
        vary[:] = True
    elif c['all'] == 2:
        vary[:] = False
    free = np.where(vary)[0]
    bounds = np.stack([th-abs(th)-1, th+abs(th)+1], axis=1)
    s = sets(c, th, vary, bounds)
    init = fit_core.initialize_fitting_theta(s.theta, s.theta_vary)
    same(init, th[free], 'initial free vector')
    same(s.theta, th, 'settings after taking the initial vector')
    g, km = kmodel(c, cc, s)
    g2, km2 = kmodel(c, cc, s)                 # a second model from the same settings object
    cube = c['cube']

    def fresh(full):
        v = np.zeros(n, dtype=bool)
        gg, k = kmodel(c, cc, sets(c, full, v, bounds))
        if cube:
            k.make_3D_int_model(galaxy=gg, instrument=instrument(cc), theta_fitting=[])
            return k.model_cube
        k.make_model(galaxy=gg, instrument=instrument(cc), theta_fitting=[])
        return k.model

    def run(k, gg, x, first):
        a = dict(galaxy=gg, instrument=instrument(cc)) if first else {}
        if cube:
            (k.make_3D_int_model if first else k.update_3D_int_model)(theta_fitting=x, **a)
            return k.model_cube
        (k.make_model if first else k.update_model)(theta_fitting=x, **a)
        return k.model
    r = rng(c['seed']+8)
    cur = {}
    for step in range(c['nsteps']):
        who = step % 2 if c['two'] else 0
        k, gg = (km, g) if who == 0 else (km2, g2)
        x = th[free].copy() if step == 0 else th[free]*r.uniform(.7, 1.3, size=len(free))
        for j, i in enumerate(free):
            if i == n-1 and step:
                x[j] = cc['z']+r.uniform(-1, 1)*2e-4
        x0 = x.copy()
        first = who not in cur
        arg = [x, list(x), tuple(x)][c['form'] % 3]
        got = run(k, gg, arg, first)
        cur[who] = x0
        same(x, x0, 'fitting vector unchanged')
        full = th.copy()
        full[free] = x0
        same(k.theta, full, 'parameters of the model')
        for o in cur:
            ff = th.copy()
            ff[free] = cur[o]
            same((km, km2)[o].theta, ff, 'parameters of model %d' % o)
        want = fresh(full)
        close(got, want, rtol=1e-9, what='model for free values %s at %s' % (x0, free))
        same(s.theta, th, 'settings theta')
        same(s.theta_vary, vary, 'settings pattern')
        same(s.theta_bounds, bounds, 'settings bounds')
        if first:
            check(k.n_free_param == len(free), 'number of free parameters %s' % k.n_free_param)
            same(k.theta_init, th, 'initial parameters of the model')
        if c['bad'] and step == 1:
            for m in (len(free)+1, len(free)-1, n if n != len(free) else n+1, 0):
                if m < 0 or m == len(free):
                    continue
                raises(ValueError, lambda: run(k, gg, np.ones(m), False), 'vector of length %d for %d free parameters' % (m, len(free)))
            same(k.theta, full, 'parameters after a refused vector')
    return bool(0 < len(free) < n and c['nsteps'] > 1), [c['kind'], 'free%d/%d' % (len(free), n), 'cube' if cube else 'slit']


s_map = st.fixed_dictionaries(dict(cfg=cfg2d(maxY=4, maxW=10, maxsub=2, vel=False, posshift=False, zero_sig=False, gen=False, maxvox=5000),
                                   kind=st.sampled_from(['fid', 'user']), nv=st.integers(1, 4), nd=st.integers(1, 3), seed=seeds(),
                                   vary=st.lists(st.booleans(), min_size=3, max_size=9), all=st.sampled_from([0]*8+[1, 2]), cube=st.booleans(), two=st.booleans(),
                                   nsteps=st.integers(1, 4), form=st.integers(0, 2), bad=st.booleans(), noscale=st.booleans()))


def t_walk(c):
    """walkers, priors and fits built from one settings object."""
    cc = dict(c['cfg'], rebin=True, xc=0., kprof=0)
    cc['zw'] = cc['z']
    th = start(c, cc)
    n = len(th)
    vary = np.array((c['vary']*3)[:n], dtype=bool)
    if not vary.any():
        vary[c['seed'] % n] = True
    free = np.where(vary)[0]
    r = rng(c['seed'])
    bounds = np.stack([th-r.exponential(size=n)*10**r.uniform(-3, 3, size=n), th+r.exponential(size=n)*10**r.uniform(-3, 3, size=n)], axis=1)
    bounds[~vary] += 1e5                       # never relevant
    s = sets(c, th, vary, bounds)
    fits = []
    for k in range(2):
        g, d = fitgalaxy(cc, dict(c, amp=1., base=0., esc=1., spread=.5, pmask=0., psky=0., dead=[], low=[], bad=0, qual=True))
        f = FitEmissionLines2D(galaxy=g, instrument=instrument(cc), kinProfile=kprof(c), intensityProfile=intprof(cc, g), kinModelOptions=opts(cc, c),
                               thetaSettings=s, skip_fit_prep_calcs=True, linenames_arr=g.spec2D.linenames_arr, restwave_arr=g.spec2D.restwave_arr,
                               flux_ratio_arr=g.spec2D.flux_ratio_arr)
        f.setup_model()
        fits.append(f)

    def intact(what):
        same(s.theta, th, what+': settings theta')
        same(s.theta_vary, vary, what+': settings pattern')
        same(s.theta_bounds, bounds, what+': settings bounds')
    intact('setup')
    for f in fits:
        same(f.kinModel.theta, th, 'initial parameters')
        np.random.seed(c['seed'])
        nd, nw = len(free), c['nw']
        pos = np.array(fit_core.init_walker_pos(f, ndim=nd, nwalkers=nw))
        check(pos.shape == (nw, nd), 'walker array shape %s' % (pos.shape,))
        for j, i in enumerate(free):
            e = 1e-12*max(abs(bounds[i]).max(), 1e-300)
            check(np.all(pos[:, j] >= bounds[i][0]-e) and np.all(pos[:, j] <= bounds[i][1]+e),
                  lambda: 'walkers of parameter %d at %s..%s outside %s' % (i, pos[:, j].min(), pos[:, j].max(), bounds[i]))
        check(len(set(map(tuple, pos))) == nw, 'walkers coincide')
        mid = .5*(bounds[free, 0]+bounds[free, 1])
        check(f.thetaPrior.log_prior(theta_fitting=mid) == 0, 'the middle of the bounds is refused')
    a, b = fits
    mid = .5*(bounds[free, 0]+bounds[free, 1])
    low = bounds[free, 0]+.25*(bounds[free, 1]-bounds[free, 0])
    x = th[free]*r.uniform(.8, 1.2, size=len(free))
    for j, i in enumerate(free):
        if i == n-1:
            x[j] = cc['z']
    m0 = b.kinModel.model.copy()
    a.update_model(theta_fitting=x)
    same(b.kinModel.theta, th, 'other fit\'s parameters')
    same(b.kinModel.model, m0, 'other fit\'s model')
    intact('update')
    # changing one prior leaves the other and the settings alone
    for k in range(n):
        a.thetaPrior.theta_bounds[k][0] = mid.max()+1e9
    check(b.thetaPrior.log_prior(theta_fitting=low) == 0, 'changing the bounds of one prior changed another')
    intact('prior changed')
    if c['twice']:
        a.setup_model()
        same(a.kinModel.theta, th, 'parameters after setting the model up again')
        check(a.thetaPrior.log_prior(theta_fitting=low) == 0, 'bounds of the settings not restored by setting up again')
        intact('second setup')
    return len(free) > 1, [c['kind'], 'free%d' % len(free)]


s_walk = st.fixed_dictionaries(dict(cfg=cfg2d(maxY=4, maxW=8, maxsub=1, vel=False, posshift=False, zero_sig=False, gen=False, maxvox=3000),
                                    kind=st.sampled_from(['fid', 'user']), nv=st.integers(1, 4), nd=st.integers(1, 3), seed=seeds(),
                                    vary=st.lists(st.booleans(), min_size=3, max_size=9), nw=st.integers(2, 60), twice=st.booleans()))

SUBS = [Sub('mapping', s_map, t_map, 400, 12000), Sub('walkers', s_walk, t_walk, 400, 12000)]
