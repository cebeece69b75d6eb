"""C09: chi-squared, likelihood, prior, posterior."""
import pickle
import dill
from .buildfit import *

PROPERTY = 'C09'
RULE = ('Random data, errors, 0/1 masks, row weights, models, bounds and free/fixed patterns; oracle: the statistics re-computed pixel by pixel '
        'with exactly rounded sums, the box prior by direct comparison, the posterior from a freshly built model of the full parameter vector. '
        'Non-trivial: unmasked pixels with non-unit weights (statistics), a bound that separates points (prior), at least two posterior '
        'evaluations inside the bounds (posterior).')
ASSUMPTIONS = ['errors are non-zero; masked pixels hold arbitrary finite values', 'relative tolerance 1e-9 of the sum of absolute terms']


def warmup():
    aper2d(BASE)


def stats(m, g, w, mask, flux, err):
    chi, nw, gauss, size = [], [], [], 0.
    n = 0
    for i in range(m.shape[0]):
        for k in range(m.shape[1]):
            if mask[i, k] != 1:
                continue
            x = ((flux[i, k]-m[i, k])/err[i, k])**2
            n += 1
            chi.append(x*w[i, k])
            nw.append(x)
            gauss.append(-.5*(x*w[i, k]+math.log(2*math.pi*err[i, k]**2)))
    f = math.fsum
    return dict(n=n, chi=f(chi), nw=f(nw), ll=f(gauss), lls=f(abs(x) for x in gauss), w=f(w.ravel().tolist()))


def t_stats(c):
    sh = tuple(c['shape'])
    cc = dict(BASE, nY=sh[0], nW=sh[1])
    d = data(c, sh)
    vary = c['vary']
    r = rng(c['seed']+3)
    w = r.exponential(1., sh)*(r.uniform(size=sh) > .1) if c['wfull'] else weights(c, sh)
    raw = r.normal(size=sh)*c['mamp']

    def obj(dd):
        g = put(galaxy(cc), dd)
        g.spec2D.fitting_weight_matrix = w.copy()
        s = settings2d(cc, vary, [[-1e5, 1e5]]*5)
        km = KinModel2D(g, thetaSettings=s, kinProfile=kinprof(cc), intensityProfile=intprof(cc, g), kinModelOptions=kmopts(cc), no_scale=True)
        km.make_model(galaxy=g, instrument=instrument(cc), theta_fitting=theta(cc)[np.array(vary, dtype=bool)])
        km.model = raw.copy()
        return km
    km = obj(d)
    nf = sum(vary)
    x = stats(raw, None, w, d.mask, d.flux, d.err)
    dof = x['n']-nf

    def judge(km, what):
        close(km.model_chisq(), x['chi'], rtol=1e-9, what=what+'chi-squared')
        close(km.model_llike(), x['ll'], rtol=1e-9, scale=x['lls'], what=what+'log-likelihood')
        if dof > 0:
            close(km.model_redchisq(), x['chi']/dof, rtol=1e-9, what=what+'reduced chi-squared')
            close(km.model_redchisq_no_weight(), x['nw']/dof, rtol=1e-9, what=what+'unweighted reduced chi-squared')
            close(km.model_redchisq_weight_ref(), x['w']/dof, rtol=1e-9, what=what+'reference reduced chi-squared')
    judge(km, '')
    same(km.model, raw, 'model unchanged')
    for nm, b in (('flux', d.flux), ('flux_err', d.err), ('spec_mask', d.mask), ('fitting_weight_matrix', w)):
        same(getattr(km.aperModel.galaxy.spec2D, nm), b, 'data '+nm)
    # masked pixels never matter
    d2 = data(c, sh)
    off = d2.mask == 0
    d2.flux[off] = r.normal(size=off.sum())*10**r.uniform(-3, 6, size=off.sum())
    d2.err[off] = r.uniform(.01, 1e4, size=off.sum())*r.choice([-1, 1], size=off.sum())
    judge(obj(d2), 'after changing masked pixels: ')
    return bool(x['n'] > 1 and (w != 1).any()), ['masked' if off.any() else 'nomask', 'dof' if dof > 0 else 'nodof']


s_stats = st.fixed_dictionaries(dict(dat, shape=st.tuples(st.integers(1, 7), st.integers(2, 14)), mamp=num(.001, 100, 3), vary=vary5, wfull=st.booleans(),
                                     wone=st.booleans()))


def t_prior(c):
    n = len(c['b'])
    b = np.array([[min(x, y), max(x, y)] if not inf else [-np.inf, max(x, y)] if inf == 1 else [min(x, y), np.inf] if inf == 2 else [-np.inf, np.inf]
                  for x, y, inf, v in c['b']])
    vary = np.array([v for x, y, inf, v in c['b']])
    th = np.array(c['th'][:n])
    if c['fixedout']:
        th = th+1e6                                     # values of fixed parameters outside their bounds never matter
    b0, v0, th0 = b.copy(), vary.copy(), th.copy()
    p = kc.ThetaPriorFlat(theta=th, theta_vary=vary, theta_bounds=b if not c['aslist'] else b.tolist())
    r = rng(c['seed'])
    free = np.where(vary)[0]
    sep = 0
    for k in range(12):
        x = []
        for i in free:
            lo, hi = b[i]
            l = lo if np.isfinite(lo) else -1e5
            h = hi if np.isfinite(hi) else 1e5
            if k == 11:
                m = r.choice([0, 1])
            else:
                m = r.choice([2, 0, 1] if r.uniform() > .3 else [3, 4, 5, 6])
            x.append([l, h, l+(h-l)*r.uniform(), np.nextafter(l, -np.inf), np.nextafter(h, np.inf), l-r.exponential(), h+r.exponential()][m])
        x = np.array(x)
        inside = all(b[i][0] <= v <= b[i][1] for i, v in zip(free, x))
        x0 = x.copy()
        got = p.log_prior(theta_fitting=x)
        check(got == (0. if inside else -np.inf), lambda: 'prior %r at %s for bounds %s' % (got, x, b[free]))
        same(x, x0, 'parameter vector unchanged')
        sep += not inside
    same(b, b0, 'bounds unchanged')
    same(vary, v0, 'pattern unchanged')
    same(th, th0, 'theta unchanged')
    return bool(sep and len(free)), ['free%d' % min(len(free), 4), 'fixed-outside' if c['fixedout'] else 'plain']


s_prior = st.fixed_dictionaries(dict(b=st.lists(st.tuples(num(-300, 300, 2), num(-300, 300, 2), st.sampled_from([0, 0, 0, 1, 2, 3]), st.booleans()),
                                                min_size=1, max_size=8),
                                     th=st.lists(num(-10, 10, 1), min_size=8, max_size=8), fixedout=st.booleans(), seed=seeds(), aslist=st.booleans()))


class GaussPrior(object):
    """A user-defined prior: Gaussian in the first free parameter, inside a box."""
    def __init__(self, c0, s0, free, bounds):
        self.name = 'GaussPrior'
        self.c0, self.s0, self.free, self.theta_bounds = c0, s0, free, bounds

    def log_prior(self, theta_fitting=None):
        for i, v in zip(self.free, theta_fitting):
            if not self.theta_bounds[i][0] <= v <= self.theta_bounds[i][1]:
                return -np.inf
        return -.5*((theta_fitting[0]-self.c0)/self.s0)**2


class VHole(VCustom):
    """a velocity law without a value for large parameters."""
    def vel(self, r, z):
        return VCustom.vel(self, r, z)*(np.nan if self.theta[0] > self.limit else 1.)


def t_post(c):
    cc = dict(c['cfg'], rebin=True, xc=0.)
    cc['zw'] = cc['z']
    g, d = fitgalaxy(cc, c)
    vary = c['vary']
    free = np.where(vary)[0]
    bounds = box(cc, c)
    sets = settings2d(cc, vary, bounds)
    prior = None
    if c['userprior']:
        prior = GaussPrior(theta(cc)[free[0]], .3*(bounds[free[0]][1]-bounds[free[0]][0]), free.tolist(), bounds.tolist())
    f = fitobj(cc, g, sets, thetaPrior=prior)
    hole = None
    if c['hole'] and vary[0] and cc['kprof'] == 1:
        hole = bounds[0][0]+.6*(bounds[0][1]-bounds[0][0])
        vp = VHole()
        vp.limit = hole
        f.kinProfile = kc.KinProfile(velProfile=vp, dispProfile=DCustom())
    try:
        f.setup_model()
    except np.linalg.LinAlgError:
        raise ref.Skip('singular')
    pr = fit_core.make_pruned_fitEmis2D_class(f)
    how = c['how']
    if how == 1:
        pr = pickle.loads(pickle.dumps(pr)) if hole is None else dill.loads(dill.dumps(pr))
    elif how == 2:
        pr = pr.copy()
    elif how == 3:
        pr = dill.loads(dill.dumps(pr))
    r = rng(c['seed']+9)
    lo, hi = bounds[free, 0], bounds[free, 1]
    pts, want = [], []
    for k in range(c['npts']):
        x = lo+(hi-lo)*r.uniform(size=len(free))
        u = r.uniform()
        if u < .15:
            x[r.randint(len(free))] += 3*(hi-lo).max()
        elif u < .25:
            j = r.randint(len(free))
            x[j] = lo[j] if r.uniform() < .5 else hi[j]
        inside = bool(np.all((x >= lo) & (x <= hi)))
        if not inside:
            w = -np.inf
        elif hole is not None and x[0] > hole:
            w = -np.inf
        else:
            m = freshmodel(cc, c, full_theta(cc, vary, x))
            s = stats(m, None, weights(c, m.shape), d.mask, d.flux, d.err)
            w = s['ll'] + (prior.log_prior(theta_fitting=x) if prior else 0.)
            if not np.isfinite(w):
                w = -np.inf
        pts.append(x)
        want.append(w)
    order = list(range(len(pts)))+[int(k) for k in r.randint(0, len(pts), size=3)]
    for k in order:
        x = pts[k].copy()
        for nm, o in (('full', f), ('slim', pr)):
            got = fit_core.lnprob(x, o)
            same(x, pts[k], 'parameter vector unchanged')
            if np.isfinite(want[k]):
                close(got, want[k], rtol=1e-7, scale=max(1., abs(want[k])), what='%s log-posterior at %s' % (nm, x))
                if c['like']:
                    p = prior.log_prior(theta_fitting=x) if prior else 0.
                    close(fit_core.lnlike(x, o), want[k]-p, rtol=1e-7, scale=max(1., abs(want[k])), what='%s log-likelihood' % nm)
            else:
                check(got == -np.inf, '%s log-posterior %r at %s instead of -inf' % (nm, got, x))
    n = sum(np.isfinite(want))
    same(g.spec2D.flux, d.flux, 'data unchanged')
    return n > 1, ['free%d' % len(free), 'copy%d' % how] + (['outside'] if n < len(want) else []) + (['hole'] if hole is not None else []) + \
        (['user-prior'] if prior else [])


s_post = st.fixed_dictionaries(dict(dat, cfg=cfg_small, vary=vary5, userprior=st.sampled_from([False, False, True]), hole=st.booleans(), how=st.integers(0, 3),
                                    npts=st.integers(3, 6), like=st.booleans(), wone=st.booleans()))

SUBS = [Sub('statistics', s_stats, t_stats, 500, 12000), Sub('prior', s_prior, t_prior, 1200, 40000), Sub('posterior', s_post, t_post, 220, 6000)]
