"""C19: posterior summaries."""
from .buildfit import *

PROPERTY = 'C19'
RULE = ('Generated chains (normal, skewed, flat and two-peaked parameters, correlated or not, 300-1600 samples) for random free/fixed patterns, link groups, default and user-defined '
        'profiles; oracles: percentiles by sorting and interpolation, an independent kernel density estimate whose value at the reported best must be (locally, and for single-peaked '
        'chains globally) maximal, the velocity laws sample by sample, and relations under permutation, shift, scaling, mirroring and repeated analysis. '
        'Non-trivial: at least two free parameters with spread.')
ASSUMPTIONS = ['the reported peak is a peak of the Gaussian kernel density estimate (Scott bandwidth) to within 3% of its height (linked groups: 5%)', 'link groups hold indices of free parameters, or "all"',
               'dispersion folding with a one-parameter dispersion profile']


def warmup():
    aper2d(BASE)


CFG = dict(BASE, nY=3, nW=7)


@st.composite
def s_post(draw):
    c = dict(seed=draw(seeds()))
    c['vary'] = draw(st.lists(st.booleans(), min_size=5, max_size=5).filter(lambda v: any(v)))
    if draw(st.booleans()):
        c['vary'] = [True]*5
    n = sum(c['vary'])
    c['nw'] = draw(st.sampled_from([20, 30, 40]))
    c['ns'] = draw(st.integers(15, 40))
    c['dist'] = [draw(st.sampled_from(['gauss', 'gauss', 'gamma', 'neggamma', 'flat', 'two'])) for k in range(n)]
    c['corr'] = draw(st.sampled_from([0., 0., .3, .6]))
    c['mu'] = [draw(num(-1, 1, 2)) for k in range(5)]
    c['wid'] = [draw(num(.1, 1, 2)) for k in range(5)]
    g = []
    kind = draw(st.integers(0, 5))
    if n >= 2:
        if kind == 1:
            g = ['all']
        elif kind == 2:
            g = [sorted(draw(st.sets(st.integers(0, n-1), min_size=2, max_size=n)))]
        elif kind == 3 and n >= 4:
            p = draw(st.permutations(range(n)))
            g = [list(p[:2]), list(p[2:4])]
        elif kind == 4:
            p = draw(st.permutations(range(n)))
            g = [list(p[:2])]
    c['fan'] = draw(st.integers(0, 3)) == 0
    if c['fan'] and n >= 2 and (c['vary'][0] or c['vary'][3]) and draw(st.booleans()):
        # the parameter near zero and the one whose spread depends on it
        a = 0 if c['vary'][0] else sum(c['vary'][:3])
        g = [draw(st.permutations([a, a-1 if a else 1]))]
    c['linked'] = g
    c['kprof'] = draw(st.sampled_from([0, 0, 1]))
    c['abs'] = draw(st.integers(0, 3)) == 0
    c['rm'] = draw(num(.1, 2, 2))
    c['rt'] = draw(num(.1, 1, 2))
    c['amp'] = draw(st.sampled_from([1., 100.]))
    c['base'], c['spread'], c['esc'], c['pmask'], c['dead'], c['low'], c['psky'], c['qual'] = 0., .1, 1., 0., [], [], 0., False
    c['bad'] = 0
    c['rel'] = draw(st.sampled_from(['permute', 'shift', 'scale', 'mirror', 'unit']))
    c['unit'] = draw(st.sampled_from([1e-6, 1e-3, .1, 10., 1e3]))
    c['which'] = draw(st.integers(0, 4))
    c['tex'] = draw(st.booleans())
    return c


# typical value and width of the five parameters
TYP = np.array([[120., 30.], [.8, .1], [60., 12.], [.3, .2], [2., 3e-5]])


def samples(c):
    r = rng(c['seed'])
    ix = np.where(c['vary'])[0]
    N = c['nw']*c['ns']
    n = len(ix)
    x = r.normal(size=(N, n))
    if c['corr'] and n > 1:
        x = math.sqrt(1-c['corr'])*x+math.sqrt(c['corr'])*r.normal(size=(N, 1))
    for k, d in enumerate(c['dist']):
        if d == 'gamma':
            x[:, k] = np.exp(.6*x[:, k])
        elif d == 'neggamma':
            x[:, k] = -np.exp(.6*x[:, k])
        elif d == 'flat':
            x[:, k] = 3.*(.5+.5*np.tanh(.8*x[:, k]))
        elif d == 'two':
            x[:, k] = x[:, k]*.7+np.where(r.uniform(size=N) < .65, 0., 5.)
    t = TYP.copy()
    t[:, 0] += np.array(c['mu'])*np.array([150., .3, 50., .5, 1.])
    if c.get('fan') and n > 1 and (c['vary'][0] or c['vary'][3]):
        # values around zero, whose sign the joint and the marginal peak may not share
        i = 0 if c['vary'][0] else 3
        a = list(ix).index(i)
        b = a-1 if a else 1
        x[:, a] = r.normal(size=N)
        x[:, b] = r.normal(size=N)*.4*np.exp(.9*x[:, a])
        t[i, 0] = t[i, 1]*c['wid'][i]*.4*abs(c['mu'][i])
    t[:, 1] *= np.array(c['wid'])
    x = t[ix, 0]+x*t[ix, 1]
    for k, i in enumerate(ix):
        if i == 1:
            x[:, k] = np.maximum(np.abs(x[:, k]), 1e-3)
    return x, ix


def setup(c, x):
    cc = dict(CFG, kprof=c['kprof'], absval=c['abs'], rt=c['rt'])
    g, d = fitgalaxy(cc, c)
    g.re_mass_arcsec = c['rm']
    th = theta(cc)
    b = np.stack([th-1e5, th+1e5], axis=1)
    s = settings2d(cc, c['vary'], b, linked=[list(k) if k != 'all' else 'all' for k in c['linked']] or None)
    f = fitobj(cc, g, s, usetex=c['tex'])
    with quiet():
        f.setup_model()
    N, n = x.shape
    ch = x.reshape(c['nw'], c['ns'], n).copy()
    f.sampler_dict = dict(chain=ch, flatchain=x.copy(), lnprobability=np.zeros((c['nw'], c['ns'])), flatlnprobability=np.zeros(N), nIter=c['ns'], nParam=n, nCPU=1,
                          nWalkers=c['nw'], acceptance_fraction=np.ones(c['nw'])*.3, acor_time=np.ones(n))
    return f, th, cc


def columns(c, x, th):
    """free parameters plus the four derived quantities."""
    N = len(x)
    full = np.tile(th, (N, 1)).astype(float)
    full[:, np.where(c['vary'])[0]] = x
    va, rt, sg = full[:, 0], full[:, 1], full[:, 2]
    out = []
    for r in (c['rm'], 2.2/1.676*c['rm']):
        out.append(ref.custom_v(r, 0., va, rt) if c['kprof'] else 2./math.pi*va*np.arctan(r/rt))
    for r in (c['rm'], 2.2/1.676*c['rm']):
        out.append(ref.custom_s(r, 0., sg) if c['kprof'] else sg*1.)
    return np.hstack([x, np.array(out).T])


def pct(v, q):
    s = np.sort(v)
    p = q/100.*(len(s)-1)
    i = int(math.floor(p))
    return s[i] if i+1 >= len(s) else s[i]+(p-i)*(s[i+1]-s[i])


class KDE(object):
    """Gaussian kernel density with Scott's bandwidth."""
    def __init__(self, x):
        self.x = np.atleast_2d(x.T).T
        n, d = self.x.shape
        self.c = np.atleast_2d(np.cov(self.x.T, ddof=1))*n**(-2./(d+4))
        self.sd = np.sqrt(np.diag(self.c))
        L = np.linalg.cholesky(self.c/np.outer(self.sd, self.sd))
        self.w = np.linalg.inv(L)
        self.y = (self.x/self.sd).dot(self.w.T)

    def __call__(self, p):
        p = np.atleast_2d(p)
        q = (p/self.sd).dot(self.w.T)
        return np.array([np.exp(-.5*((self.y-k)**2).sum(axis=1)).mean() for k in q])

    def near(self, p, steps=40, reach=.7):
        """highest density along the (monotonic) mean-shift path from p, no further than reach bandwidths away."""
        q0 = (np.asarray(p)/self.sd).dot(self.w.T)
        q = q0
        top = 0.
        for k in range(steps):
            e = -.5*((self.y-q)**2).sum(axis=1)
            w = np.exp(e)
            top = max(top, w.mean())
            if not w.sum() > 0:
                break
            q = w.dot(self.y)/w.sum()
            if ((q-q0)**2).sum() > reach**2:
                break
        return top


def analyse(f):
    with quiet():
        f.get_chain_results()
    m = f.mcmc_results
    return np.array(m.bestfit_theta, dtype=float), np.array(m.err_theta_1sig, dtype=float), np.array(m.err_theta_2sig, dtype=float), np.array(m.percent_oppsign, dtype=float)


def groups(c, n):
    return [list(range(n)) if g == 'all' else list(g) for g in c['linked']]


def t_summary(c):
    x, ix = samples(c)
    f, th, cc = setup(c, x)
    n = x.shape[1]
    best, e1, e2, opp = analyse(f)
    if c['abs'] and c['vary'][2]:
        k = list(ix).index(2)
        x = x.copy()
        x[:, k] = np.abs(x[:, k])
        same(f.sampler_dict['chain'][:, :, k].ravel(), x[:, k], 'folded unflattened chain')
    col = columns(c, x, th)
    check(best.shape == (n+4,) and e1.shape == (n+4, 2) and e2.shape == (n+4, 2) and opp.shape == (n+4,), lambda: 'shapes %s %s %s %s' % (best.shape, e1.shape, e2.shape, opp.shape))
    close(f.sampler_dict['flatchain'], col, rtol=1e-12, atol=0, what='chain of free and derived quantities')
    same(f.sampler_dict['chain'].reshape(-1, n), x, 'unflattened chain')
    # names
    nm = [str(f.kinModel.theta_names[i]) for i in ix]+['V_RE', 'V_22', 'sigma_RE', 'sigma_22']
    check([str(k) for k in f.mcmc_results.theta_names] == nm and len(f.mcmc_results.theta_names_nice) == n+4, lambda: 'names %s' % (f.mcmc_results.theta_names,))
    close(f.mcmc_results.bestfit_theta_fitting, best[:n], rtol=0, what='best values of the fitted parameters')
    # limits
    for k in range(n+4):
        v = col[:, k]
        w = np.ptp(v)
        tol = 1e-9*w+1e-12*np.abs(v).max()
        close(best[k]-e1[k, 0], pct(v, 15.865), rtol=0, atol=tol, what='lower 1 sigma limit of %s' % nm[k])
        close(best[k]+e1[k, 1], pct(v, 84.135), rtol=0, atol=tol, what='upper 1 sigma limit of %s' % nm[k])
        close(best[k]-e2[k, 0], pct(v, 2.275), rtol=0, atol=tol, what='lower 2 sigma limit of %s' % nm[k])
        close(best[k]+e2[k, 1], pct(v, 97.725), rtol=0, atol=tol, what='upper 2 sigma limit of %s' % nm[k])
        s = np.sign(best[k])
        close(opp[k], 100.*np.mean(s*v < 0), rtol=0, atol=1e-9, what='fraction of samples of opposite sign of %s' % nm[k])
    # peaks
    gs = groups(c, n)
    inl = set(sum(gs, []))
    lab = []
    for k in range(n+4):
        v = col[:, k]
        if np.ptp(v) <= 1e-12*np.abs(v).max():
            close(best[k], v[0], rtol=1e-9, what='value of a constant quantity')
            lab.append('constant')
            continue
        if k in inl:
            continue
        kd = KDE(v)
        h = kd.sd[0]
        d0 = kd([[best[k]]])[0]
        loc = kd(best[k]+h*np.linspace(-.3, .3, 13)[:, None]).max()
        check(d0 >= .97*loc, lambda: 'best value %r of %s is not at a peak: density %.4g, nearby %.4g' % (best[k], nm[k], d0, loc))
        grid = np.linspace(v.min(), v.max(), 401)
        dd = kd(grid[:, None])
        med = kd([[pct(v, 50.)]])[0]
        single = np.sum((dd[1:-1] > dd[:-2]) & (dd[1:-1] >= dd[2:]) & (dd[1:-1] > .2*dd.max())) == 1
        if single:
            check(d0 >= .97*dd.max(), lambda: 'best value %r of %s misses the peak at %r: density %.4g of %.4g' % (best[k], nm[k], grid[dd.argmax()], d0, dd.max()))
        else:
            # start values are the highest histogram bin or the median
            check(d0 >= .5*dd.max() or d0 >= .97*med, lambda: 'best value %r of %s lies low: density %.4g of %.4g' % (best[k], nm[k], d0, dd.max()))
        lab.append('single' if single else 'several peaks')
    for gr in gs:
        v = col[:, gr]
        if any(np.ptp(v[:, j]) == 0 for j in range(v.shape[1])):
            continue
        kd = KDE(v)
        p = best[gr]
        d0 = kd([p])[0]
        loc = kd.near(p)
        check(d0 >= .95*loc, lambda: 'best values %s of the linked parameters %s are not at a peak: density %.4g, nearby %.4g' % (p, gr, d0, loc))
        if all(c['dist'][j] == 'gauss' for j in gr):
            med = kd([[pct(v[:, j], 50.) for j in range(len(gr))]])[0]
            check(d0 >= .9*med, lambda: 'best values %s of the linked parameters %s lie lower (%.4g) than their medians (%.4g)' % (p, gr, d0, med))
        lab.append('linked%d' % len(gr))
    # repeated analysis
    b2 = analyse(f)
    for a, b, w in zip(b2, (best, e1, e2, opp), ('best values', '1 sigma errors', '2 sigma errors', 'opposite signs')):
        close(a, b, rtol=1e-12, what=w+' of a repeated analysis')
    close(f.sampler_dict['flatchain'], col, rtol=1e-12, what='chain after a repeated analysis')
    # best fit model
    with quiet():
        f.set_bestfit(f.mcmc_results.bestfit_theta_fitting)
    full = th.copy()
    full[ix] = best[:n]
    close(f.kinModel.bestfit.theta, full, rtol=1e-12, what='parameters of the best-fit model')
    return n > 1, lab+(['abs'] if c['abs'] else [])


def t_relations(c):
    x, ix = samples(c)
    c = dict(c, abs=False)
    f, th, cc = setup(c, x)
    n = x.shape[1]
    A = analyse(f)
    r = rng(c['seed']+1)
    gs = groups(c, n)
    y = x.copy()
    k = c['which'] % n
    i = ix[k]
    w = 4e-3
    tolbest = np.array([w*np.ptp(v)+1e-10*np.abs(v).max()+2e-4 for v in columns(c, x, th).T])
    moved = None
    if c['rel'] == 'permute':
        y = x[r.permutation(len(x))]
    elif c['rel'] == 'shift':
        if i < 3:
            k = [j for j in range(n) if ix[j] >= 3]
            if not k:
                raise ref.Skip('no parameter to shift')
            k = k[0]
            i = ix[k]
        delta = (np.ptp(x[:, k])*3 if i == 3 else .5)
        y[:, k] += delta
        moved = k
    elif c['rel'] == 'unit':
        k = [j for j in range(n) if ix[j] >= 3]
        if not k:
            raise ref.Skip('no independent parameter')
        k = k[0]
        moved = k
        y[:, k] = (x[:, k]-TYP[ix[k], 0])*c['unit']
    elif c['rel'] == 'scale':
        if 0 not in ix or c['kprof']:
            raise ref.Skip('no amplitude')
        k = 0
        y[:, 0] *= 2.
    else:
        if 0 not in ix or c['kprof']:
            raise ref.Skip('no amplitude')
        y[:, 0] *= -1.
    fixva = c['vary'][0]
    f2, th2, cc2 = setup(c, y)
    B = analyse(f2)
    lim = lambda P, q: (P[0]-P[q][:, 0], P[0]+P[q][:, 1])
    inl = set(sum(gs, []))
    cols = [v for v in columns(c, y, th).T]
    rt = lambda v: 1e-9*np.ptp(v)+1e-11*np.abs(v).max()

    def single(v):
        if np.ptp(v) == 0:
            return True
        kd = KDE(v)
        dd = kd(np.linspace(v.min(), v.max(), 201)[:, None])
        return np.sum((dd[1:-1] > dd[:-2]) & (dd[1:-1] >= dd[2:]) & (dd[1:-1] > .05*dd.max())) == 1
    for j in range(n+4):
        for q in (1, 2):
            lo, hi = [a[j] for a in lim(A, q)]
            glo, ghi = [a[j] for a in lim(B, q)]
            best = A[0][j]
            if c['rel'] == 'shift' and j == moved:
                lo, hi, best = lo+delta, hi+delta, best+delta
            if c['rel'] == 'unit' and j == moved:
                lo, hi, best = [(u-TYP[ix[j], 0])*c['unit'] for u in (lo, hi, best)]
            if c['rel'] == 'scale' and j in (0, n, n+1):
                lo, hi, best = 2*lo, 2*hi, 2*best
            if c['rel'] == 'mirror' and j in (0, n, n+1):
                lo, hi, best = -hi, -lo, -best
            close([glo, ghi], [lo, hi], rtol=0, atol=max(rt(cols[j]), 1e-11*c['unit'] if j == moved else 0.), what='limits of quantity %d after %s' % (j, c['rel']))
            if j not in inl and single(cols[j]):
                v = cols[j]
                if np.ptp(v) == 0:
                    close(B[0][j], best, rtol=1e-9, what='constant')
                    continue
                kd = KDE(v)
                d = kd([[B[0][j]], [best]])
                check(min(d) > .95*max(d), lambda: 'best value of quantity %d after %s is %r, expected %r' % (j, c['rel'], B[0][j], best))
                if j != moved and not (c['rel'] in ('scale', 'mirror') and j in (0, n, n+1)) and c['rel'] != 'permute':
                    close(B[0][j], best, rtol=1e-10, what='best value of an untouched quantity')
    return n > 1, [c['rel']]


SUBS = [Sub('summary', s_post(), t_summary, 250, 6000), Sub('relations', s_post(), t_relations, 150, 4000)]
