"""C20: sampling runs, records and files."""
import shutil
import tempfile
import h5py
import emcee
import multiprocessing as mp
from .buildfit import *
from .c09 import stats, GaussPrior
from misfit.fit import fit_io

PROPERTY = 'C20'
RULE = ('Small real sampling runs over random walker/step/burn-in counts, free-parameter patterns, priors, seeds, stretch scales and 1-2 processes, followed by random sequences of '
        'further runs (replacing or extending), reloads, re-analyses and re-saves; oracles: counts and shapes, bounds, the log-posterior of stored positions from freshly built models, '
        'the affine-invariant stretch relation between consecutive steps, the raw HDF5 record, recomputed stopping criteria, and equality of reloaded data. '
        'Non-trivial: at least two steps with a moved walker.')
ASSUMPTIONS = ['emcee 3 with at least twice as many walkers as free parameters', 'the HDF5 file name is given', 'runs that extend an existing record use the same walker count',
               'early stopping judged with the integrated autocorrelation time of emcee']


def warmup():
    aper2d(BASE)


CFG = dict(BASE, nY=3, nW=7)


def unchanged(a, b, what):
    """deep equality of nested data."""
    if isinstance(a, dict):
        check(isinstance(b, dict) and list(a.keys()) == list(b.keys()), lambda: '%s: keys %s, not %s' % (what, list(b), list(a)))
        for k in a:
            unchanged(a[k], b[k], '%s[%r]' % (what, k))
    elif isinstance(a, (list, tuple)):
        check(type(a) is type(b) and len(a) == len(b), lambda: '%s: %r, not %r' % (what, type(b), type(a)))
        for k in range(len(a)):
            unchanged(a[k], b[k], '%s[%d]' % (what, k))
    elif isinstance(a, np.ndarray):
        check(isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape, lambda: '%s: array of %s' % (what, getattr(b, 'dtype', type(b))))
        if a.dtype == object:
            unchanged(a.ravel().tolist(), b.ravel().tolist(), what)
        else:
            check(a.tobytes() == b.tobytes(), lambda: '%s: array differs' % what)
    elif isinstance(a, float) and a != a:
        check(b != b, what)
    elif hasattr(a, '__dict__') and not isinstance(a, type):
        check(type(a) is type(b), lambda: '%s: %r, not %r' % (what, type(b), type(a)))
        unchanged(a.__dict__, b.__dict__, what)
    else:
        check(type(a) is type(b) and (a == b or a is b), lambda: '%s: %r, not %r' % (what, b, a))


class Box(object):
    def __init__(self):
        base = os.environ.get('PBT_SCRATCH')
        self.dir = tempfile.mkdtemp(dir=base)

    def __enter__(self):
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def make(c, d, prior=True, **kw):
    """a fit object ready to run, its data and its bounds."""
    cc = dict(CFG, **c['cfg'])
    g, dd = fitgalaxy(cc, c)
    g.re_mass_arcsec = .7
    b = box(cc, c)
    s = settings2d(cc, c['vary'], b)
    free = np.where(c['vary'])[0]
    pr = None
    if c['userprior']:
        pr = GaussPrior(theta(cc)[free[0]], .3*(b[free[0]][1]-b[free[0]][0]), free.tolist(), b.tolist())
    o = dict(nWalkers=c['nw'], nSteps=c['ns'], nBurn=c['nb'], scale_param_a=c['a'], nCPUs=c['cpu'], NoThread=c['cpu'] == 1, nEff=None, minAF=None, maxAF=None,
             filename_log=os.path.join(d, 'log.txt') if c['log'] else None, filename_sampler=os.path.join(d, 's.pickle'),
             filename_sampler_h5=os.path.join(d, 's.h5'), filename_bestfit_model=os.path.join(d, 'b.pickle'))
    o.update(kw)
    f = fitobj(cc, g, s, thetaPrior=pr, mcmcOptions=MCMC2DOptions(**o))
    f.plot_results = lambda: None
    return f, cc, dd, b, pr


def stretch(old, new, a, what):
    """each moved walker lies on the line through another walker, stretched by 1/a to a."""
    nw, nd = old.shape
    n = 0
    for k in range(nw):
        if (old[k] == new[k]).all():
            continue
        n += 1
        ok = False
        for cand in (old, new):
            for j in range(nw):
                if j == k:
                    continue
                u, v = old[k]-cand[j], new[k]-cand[j]
                z = v.dot(u/(SC[:nd]**2)[None, :][0])/max((u*u/SC[:nd]**2).sum(), 1e-300)
                if 1/a*(1-1e-6) <= z <= a*(1+1e-6) and (np.abs(v-z*u) <= 1e-7*np.abs(z*u)+1e-12*np.maximum(np.abs(old[k]), np.abs(cand[j]))+1e-13).all():
                    ok = True
                    break
            if ok:
                break
        check(ok, lambda: '%s: walker %d moved from %s to %s, which is no stretch (a=%r) along another walker' % (what, k, old[k], new[k], a))
    return n


SC = np.ones(5)


def judge(c, f, cc, dd, b, pr, total, h5, nburn, first=None):
    """invariants of the record of a run; returns the number of moves."""
    s = f.sampler_dict
    free = np.where(c['vary'])[0]
    nd = len(free)
    nw = c['nw']
    ch, lp = s['chain'], s['lnprobability']
    check(ch.shape == (nw, total, nd), lambda: 'chain of shape %s instead of %s' % (ch.shape, (nw, total, nd)))
    check(lp.shape == (nw, total), lambda: 'log-probabilities of shape %s' % (lp.shape,))
    same(s['flatchain'], ch.reshape(-1, nd), 'flattened chain')
    same(s['flatlnprobability'], lp.reshape(-1), 'flattened log-probabilities')
    check(s['nIter'] == total and s['nParam'] == nd and s['nWalkers'] == nw, lambda: 'counts %s %s %s' % (s['nIter'], s['nParam'], s['nWalkers']))
    check(s['nCPU'] == c['cpu'], lambda: 'processes %r' % (s['nCPU'],))
    check(np.isfinite(lp).all(), 'stored log-probabilities are not finite')
    check((ch >= b[free, 0]).all() and (ch <= b[free, 1]).all(), 'positions outside the bounds')
    af = np.array(s['acceptance_fraction'])
    check(af.shape == (nw,) and (af >= 0).all() and (af <= 1).all(), lambda: 'acceptance fractions %s' % (af,))
    with h5py.File(h5, 'r') as q:
        check('mcmc' in q and 'burnin_mcmc' in q and q['mcmc/chain'].shape == (total, nw, nd) and q['burnin_mcmc/chain'].shape == (nburn, nw, nd),
              'HDF5 record lacks the sampling or burn-in steps, or holds other counts')
        same(np.swapaxes(q['mcmc/chain'][:total], 0, 1), ch, 'positions of the HDF5 record')
        same(q['mcmc/log_prob'][:total].T, lp, 'log-probabilities of the HDF5 record')
        check(q['mcmc'].attrs['iteration'] == total and q['burnin_mcmc'].attrs['iteration'] == nburn, lambda: 'record of %d+%d steps instead of %d+%d' % (
            q['burnin_mcmc'].attrs['iteration'], q['mcmc'].attrs['iteration'], nburn, total))
        burn = q['burnin_mcmc/chain'][:nburn]
        blp = q['burnin_mcmc/log_prob'][:nburn]
        acc = q['mcmc/accepted'][...]
    close(af, acc/float(total), rtol=1e-12, what='acceptance fractions')
    check(burn.shape == (nburn, nw, nd), 'shape of the burn-in record')
    if nburn:
        check((burn >= b[free, 0]).all() and (burn <= b[free, 1]).all() and np.isfinite(blp).all(), 'burn-in positions outside the bounds')
    # stored log-posteriors
    seen = {}
    for x, v in list(zip(ch.reshape(-1, nd), lp.reshape(-1)))+list(zip(burn.reshape(-1, nd), blp.reshape(-1))):
        k = x.tobytes()
        if k in seen:
            check(seen[k][1] == v, 'the same position has two log-probabilities')
        seen[k] = (x, v)
    allp = list(seen.values())
    r = rng(c['seed']+4)
    for j in r.permutation(len(allp))[:25]:
        x, v = allp[j]
        m = freshmodel(cc, c, full_theta(cc, c['vary'], x))
        w = stats(m, None, weights(c, m.shape), dd.mask, dd.flux, dd.err)['ll']+(pr.log_prior(theta_fitting=x) if pr else 0.)
        close(v, w, rtol=1e-7, scale=max(1., abs(w)), what='stored log-probability at %s' % x)
    return ch, lp, burn


def setup_or_skip(f):
    try:
        with quiet():
            f.setup_model()
    except np.linalg.LinAlgError:
        raise ref.Skip('singular')


def moves(c, steps, b, what):
    global SC
    free = np.where(c['vary'])[0]
    SC = (b[free, 1]-b[free, 0])
    n = 0
    for k in range(len(steps)-1):
        n += stretch(steps[k], steps[k+1], c['a'], '%s step %d' % (what, k+1)) > 0
    return n


def results(f):
    m = f.mcmc_results
    return dict(best=np.array(m.bestfit_theta), e1=np.array(m.err_theta_1sig), e2=np.array(m.err_theta_2sig), opp=np.array(m.percent_oppsign),
                fit=np.array(m.bestfit_theta_fitting), model=np.array(f.kinModel.bestfit.model), theta=np.array(f.kinModel.bestfit.theta, dtype=float))


def agree(a, b, what):
    for k in a:
        close(b[k], a[k], rtol=1e-10, atol=1e-300, what='%s %s' % (k, what))


def whole(f):
    f.run_mcmc()
    f.analyze_results()
    f.save_bestfit_model()


def t_history(c):
    with Box() as d:
        f, cc, dd, b, pr = make(c, d)
        setup_or_skip(f)
        h5 = os.path.join(d, 's.h5')
        if c['cpu'] > 1:
            mp.current_process()._config['daemon'] = False
        np.random.seed(c['npseed'])
        flux = f.galaxy.spec2D.flux.copy()
        with quiet():
            if c['viafit']:
                f.fit()
            else:
                whole(f)
        k0 = f.sampler_dict
        n = f.kinModel.n_free_param
        raw = fit_io.loadpickle(os.path.join(d, 's.pickle'))
        f.sampler_dict = raw
        tot, bur = c['ns'], c['nb']
        ch, lp, burn = judge(c, f, cc, dd, b, pr, tot, h5, bur)
        check(f.galaxy.spec2D.flux.tobytes() == flux.tobytes(), 'data changed by the fit')
        f.sampler_dict = k0
        steps = list(burn)+list(np.swapaxes(ch, 0, 1))
        nm = moves(c, steps, b, 'first run')
        res = results(f)
        lab = ['cpu%d' % c['cpu'], 'burn' if bur else 'no-burn', 'free%d' % n]
        if c['log']:
            with open(f.mcmcOptions.filename_log) as q:
                txt = q.read()
        check(not c['log'] or 'nCPU, nParam, nWalker, nSteps = %d, %d, %d, %d ' % (c['cpu'], n, c['nw'], c['ns']) in txt and 'Finished %d steps' % c['ns'] in txt, 'log file')
        for iop, op in enumerate(c['ops']):
            lab.append(op)
            if op in ('replace', 'extend'):
                e = make(dict(c, ns=c['ns2']), d, overwrite=op == 'replace')[0]
                setup_or_skip(e)
                np.random.seed(c['npseed']+1+iop)
                with quiet():
                    whole(e)
                raw = fit_io.loadpickle(os.path.join(d, 's.pickle'))
                old = np.swapaxes(ch, 0, 1)
                if op == 'extend':
                    tot, bur = tot+c['ns2'], bur+c['nb']
                else:
                    tot, bur = c['ns2'], c['nb']
                k0 = e.sampler_dict
                e.sampler_dict = raw
                ob = burn
                ch, lp, burn = judge(c, e, cc, dd, b, pr, tot, h5, bur)
                e.sampler_dict = k0
                new = np.swapaxes(ch, 0, 1)
                if op == 'extend':
                    same(new[:len(old)], old, 'steps of the first run, kept')
                    same(burn[:len(ob)], ob, 'burn-in steps of the first run, kept')
                    steps = list(burn[len(ob):])+list(new[len(old):])
                else:
                    check(not any((new[0] == o).all() for o in old), 'replaced record still holds old steps')
                    steps = list(burn)+list(new)
                nm += moves(c, steps, b, op)
                res = results(e)
            elif op == 'reload':
                e = make(c, d)[0]
                with quiet():
                    e.reload_results(resave_bestfit=c['resave'])
                agree(res, results(e), 'after reloading the samples')
            elif op == 'best':
                e = make(c, d)[0]
                with quiet():
                    e.reload_bestfit_model()
                m = e.mcmc_results
                for k, v in (('best', m.bestfit_theta), ('e1', m.err_theta_1sig), ('e2', m.err_theta_2sig), ('opp', m.percent_oppsign), ('fit', m.bestfit_theta_fitting)):
                    close(v, res[k], rtol=1e-12, atol=1e-300, what=k+' of the reloaded fit')
                s = e.galaxy.spec2D
                for k in ('flux', 'flux_err', 'spec_mask', 'wave'):
                    same(getattr(s, k), getattr(f.galaxy.spec2D, k), k+' of the reloaded fit')
                check(e.instrument.instrument_resolution == f.instrument.instrument_resolution and e.galaxy.q == f.galaxy.q and e.galaxy.z == f.galaxy.z, 'settings of the reloaded fit')
                same(e.thetaSettings.theta_bounds, b, 'bounds of the reloaded fit')
                check(list(e.mcmc_results.theta_names) == list(f.mcmc_results.theta_names), 'names of the reloaded fit')
                # and its best-fit model from the reloaded pieces
                with quiet():
                    e.setup_model()
                    e.make_model(theta_fitting=m.bestfit_theta_fitting)
                close(e.kinModel.model, res['model'], rtol=1e-10, scale=np.abs(res['model']).max(), what='model of the reloaded fit')
            elif op == 'again':
                f2 = make(c, d)[0]
                f2.sampler_dict = fit_io.loadpickle(os.path.join(d, 's.pickle'))
                with quiet():
                    f2.setup_model()
                    f2.analyze_results()
                    f2.analyze_results()
                agree(res, results(f2), 'after analysing twice')
        return nm > 1, lab


def t_dict(c):
    """records cut by a burn-in, made from a sampler that was run outside."""
    with Box() as d:
        f, cc, dd, b, pr = make(c, d)
        setup_or_skip(f)
        slim = fit_core.make_pruned_fitEmis2D_class(f)
        free = np.where(c['vary'])[0]
        n, nw, ns, nb = len(free), c['nw'], c['ns'], c['cut'] % (c['ns']+1)
        np.random.seed(c['npseed'])
        pos = np.array(fit_core.init_walker_pos(f, ndim=n, nwalkers=nw))
        check(pos.shape == (nw, n) and (pos >= b[free, 0]).all() and (pos <= b[free, 1]).all(), 'starting positions outside the bounds')
        u = (pos-b[free, 0])/(b[free, 1]-b[free, 0])
        check(len(np.unique(u)) == u.size, 'starting positions repeat')
        r = rng(c['seed'])
        s = emcee.EnsembleSampler(nw, n, fit_core.lnprob, args=(slim,))
        s.backend.grow(ns, None)
        for k in range(ns):
            s.backend.save_step(emcee.State(r.normal(size=(nw, n)), log_prob=r.normal(size=nw)), r.uniform(size=nw) < .5)
        full, lp = np.swapaxes(s.backend.get_chain(), 0, 1).copy(), s.backend.get_log_prob().T.copy()
        with quiet():
            o = fit_io.make_emcee_sampler_dict(s, fitEmis2D=f, nBurn=nb)
        same(o['chain'], full[:, nb:], 'chain without its burn-in')
        same(o['lnprobability'], lp[:, nb:], 'log-probabilities without the burn-in')
        same(o['flatchain'], full[:, nb:].reshape(-1, n), 'flattened chain without its burn-in')
        same(o['flatlnprobability'], lp[:, nb:].reshape(-1), 'flattened log-probabilities without the burn-in')
        check(o['nIter'] == ns and o['nParam'] == n and o['nWalkers'] == nw, 'counts')
        close(o['acceptance_fraction'], s.backend.accepted/float(ns), rtol=1e-12, what='acceptance fractions')
        fn = os.path.join(d, 'x.pickle')
        fit_io.dumppickle(o, filename=fn)
        unchanged({k: v for k, v in o.items() if k != 'fitEmis2D'}, {k: v for k, v in fit_io.loadpickle(fn).items() if k != 'fitEmis2D'}, 'record')
        # the stored settings still build the same model
        q = fit_io.loadpickle(fn)['fitEmis2D']
        same(q.galaxy.spec2D.flux, f.galaxy.spec2D.flux, 'stored data')
        unchanged(f.kinModelOptions, q.kinModelOptions, 'stored model options')
        unchanged(f.mcmcOptions, q.mcmcOptions, 'stored sampling options')
        unchanged(f.thetaSettings, q.thetaSettings, 'stored parameter settings')
        return nb > 0, ['cut']


def t_stop(c):
    """stopping early, exactly when the criteria are met."""
    with Box() as d:
        f, cc, dd, b, pr = make(c, d, nEff=c['neff'], minAF=c['minaf'], maxAF=c['maxaf'], runAllSteps=c['all'])
        setup_or_skip(f)
        np.random.seed(c['npseed'])
        with quiet():
            f.run_mcmc()
        n = f.sampler_dict['chain'].shape[1]
        ch, lp, burn = judge(c, f, cc, dd, b, pr, n, os.path.join(d, 's.h5'), c['nb'])
        check(n <= c['ns'], 'more steps than asked for')
        if c['all'] or c['neff'] is None:
            check(n == c['ns'], lambda: '%d steps instead of %d' % (n, c['ns']))
            return True, ['all']
        st_ = np.concatenate([burn[-1:], np.swapaxes(ch, 0, 1)])
        moved = (st_[1:] != st_[:-1]).any(axis=2)
        close(moved.sum(axis=0)/float(n), f.sampler_dict['acceptance_fraction'], rtol=1e-9, what='acceptance fractions from the moves')
        af = np.cumsum(moved.mean(axis=1))/(np.arange(n)+1.)
        unsure = False
        for i in range(n):
            with quiet():
                try:
                    tau = np.max(emcee.autocorr.integrated_time(np.swapaxes(ch, 0, 1)[:i+1], tol=10, quiet=True))
                except Exception:
                    tau = np.nan
            met = i >= 49 and c['minaf'] < af[i] < c['maxaf'] and i > tau*c['neff']
            near = min(abs(af[i]-c['minaf']), abs(af[i]-c['maxaf'])) < 1e-9 or abs(i-tau*c['neff']) < 1e-6*i
            if near:
                unsure = True
                continue
            if i < n-1:
                check(not met, lambda: 'criteria met at step %d, stopped only after %d' % (i+1, n))
            elif n < c['ns']:
                check(met, lambda: 'stopped after %d of %d steps without meeting the criteria (acceptance %.3f, autocorrelation time %.3f)' % (n, c['ns'], af[i], tau))
        return n < c['ns'], ['early' if n < c['ns'] else 'full'] + (['near'] if unsure else [])


@st.composite
def s_run(draw, nsmax=8, stop=False):
    c = dict(seed=draw(seeds()), npseed=draw(st.integers(0, 10**6)))
    c['vary'] = draw(vary5)
    n = sum(c['vary'])
    c['nw'] = draw(st.integers(2*n+2, 2*n+8))
    c['ns'] = draw(st.integers(1, nsmax))
    c['ns2'] = draw(st.integers(1, nsmax))
    c['nb'] = draw(st.sampled_from([0, 0, 1, 2, 3, 5]))
    c['a'] = draw(st.sampled_from([1.5, 2., 3., 5.]))
    c['cpu'] = draw(st.sampled_from([1]*7+[2]))
    c['userprior'] = draw(st.integers(0, 3)) == 0
    c['log'] = draw(st.integers(0, 3)) > 0
    c['cfg'] = dict(kprof=draw(st.sampled_from([0, 0, 1])), absval=draw(st.booleans()), sig=draw(num(20., 80., 1)), va=draw(num(-150., 150., 1)), rt=draw(num(.2, 1., 2)))
    c['amp'] = draw(st.sampled_from([1., 10.]))
    c['base'], c['spread'], c['esc'], c['pmask'], c['dead'], c['low'], c['psky'], c['qual'], c['bad'] = 0., .3, draw(st.sampled_from([1., 10., 100.])), .1, [], [], 0., False, 0
    c['ops'] = draw(st.lists(st.sampled_from(['replace', 'extend', 'reload', 'best', 'again']), max_size=3))
    c['viafit'] = draw(st.booleans())
    c['resave'] = draw(st.booleans())
    c['cut'] = draw(st.integers(0, 20))
    if stop:
        c['vary'] = [True, False, True, False, False] if draw(st.booleans()) else [False, False, False, True, True]
        c['nw'] = draw(st.integers(6, 9))
        c['ns'] = draw(st.integers(45, 75))
        c['nb'] = draw(st.integers(1, 3))
        c['cpu'] = 1
        c['neff'] = draw(st.sampled_from([.5, 2., 4., 7., 10., None]))
        c['minaf'], c['maxaf'] = draw(st.sampled_from([(.05, .95), (.2, .5), (.3, .6), (.4, .9)]))
        c['all'] = draw(st.integers(0, 5)) == 0
    return c


@st.composite
def s_pick(draw):
    return dict(code=draw(seeds()), n=draw(st.integers(0, 12)), twice=draw(st.booleans()))


def tree(r, depth):
    k = r.randint(0, 9 if depth else 6)
    if k == 0:
        return None
    if k == 1:
        return [True, 5, -10**15, 'naïve', b'\x00\xff', float('nan'), -0., np.inf, np.float32(1.25), 1+2j][r.randint(10)]
    if k == 2:
        return float(r.normal()*10.**r.randint(-300, 300))
    if k < 6:
        return (r.normal(size=tuple(r.randint(0, 4, size=r.randint(0, 4))))*1e3).astype(['f8', 'f4', 'i8', 'c16'][r.randint(4)])
    if k < 7:
        return [tree(r, depth-1) for j in range(r.randint(0, 4))]
    if k < 8:
        return tuple(tree(r, depth-1) for j in range(r.randint(0, 4)))
    return {['a', 'b', 3, (1, 2)][j]: tree(r, depth-1) for j in range(r.randint(0, 5))}


def t_pick(c):
    r = rng(c['code'])
    a = {'root': tree(r, 3), 'n': [tree(r, 2) for j in range(c['n'])]}
    with Box() as d:
        fn = os.path.join(d, 'p')
        if c['twice']:
            fit_io.dumppickle(list(range(10000)), filename=fn)
        fit_io.dumppickle(a, filename=fn)
        unchanged(a, fit_io.loadpickle(fn), 'data')
    return c['n'] > 0, ['over' if c['twice'] else 'new']


SUBS = [Sub('history', s_run(), t_history, 300, 8000), Sub('record', s_run(nsmax=12), t_dict, 200, 2500), Sub('stopping', s_run(stop=True), t_stop, 100, 3000),
        Sub('pickle', s_pick(), t_pick, 500, 8000)]
