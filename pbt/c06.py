"""C06: histories of several models sharing galaxies, instruments and option objects."""
import copy as copymod
from .buildfit import *
from . import build1d as b1

PROPERTY = 'C06'
RULE = ('Random histories (up to 9 operations) of building, updating, re-making and copying slit models, cubes, low-level 2D models and 1D aperture '
        'models that share up to two galaxies, two instruments and two option objects; after every operation the model concerned is compared with one '
        'built from new objects with the same current parameters, every other model with its stored result, and the shared objects with their '
        'initial contents. Non-trivial: at least two models alive, at least one update, and at least one object shared.')
ASSUMPTIONS = ['relative tolerance 1e-9 between models of equal inputs', 'a galaxy\'s own attributes are not changed by the user during a history']

GK = ('z', 'n', 're', 'q', 'q0', 'pa', 'nY', 'nW', 'm0', 'zw', 'dw', 'rest', 'ratio', 'woff', 'gen', 'vel')
IK = ('ptype', 'fwhm', 'beta', 'dith', 'pix', 'slit', 'res')
TK = ('va', 'rt', 'sig', 'm0s')


def warmup():
    aper2d(BASE)


def mix(c, i, j, k):
    cs = c['cfgs']
    m = dict(cs[k % len(cs)])
    gi, ii = cs[i % len(cs)], cs[j % len(cs)]
    for x in GK+TK:
        m[x] = gi[x]
    for x in IK:
        m[x] = ii[x]
    m['rebin'] = True
    m['posshift'] = bool(m['posshift'] and not m['vel'] and m['res'] > 0 and m['slit']*m['nsub']/m['pix'] > 6)
    if m['posshift']:
        m['xc'] = 0.
    m['gseed'] = c['seed']+i
    return m


def mkgal(m):
    g = galaxy(m)
    g.re_mass_arcsec = 1.2*m['re']
    g.q_mass = min(1., m['q']*1.1)
    sh = (m['nY'], m['nW'])
    r = rng(m['gseed'])
    s = g.spec2D
    if not m['gen']:
        s.flux = r.normal(size=sh)+1.
        s.flux_err = r.uniform(.5, 2, size=sh)
        s.spec_mask = (r.uniform(size=sh) > .1).astype(float)
        s.mask_qual = s.spec_mask.copy()
        s.wh_nosky = np.where(r.uniform(size=m['nW']) > .15)[0]
        s.fitting_weight_matrix = np.ones(sh)
    return g


def snap(o, depth=0):
    out = {}
    for k, v in o.__dict__.items():
        if k.startswith('_') or k == 'conv_stamp':
            continue
        if hasattr(v, '__dict__') and depth < 2 and not isinstance(v, np.ndarray) and not callable(v):
            out[k] = snap(v, depth+1)
        elif isinstance(v, np.ndarray):
            out[k] = v.copy()
        else:
            try:
                out[k] = copymod.deepcopy(v)
            except Exception:
                pass
    return out


def differ(a, b, path=''):
    for k in a:
        x, y = a[k], b.get(k)
        if isinstance(x, dict):
            if not isinstance(y, dict):
                return path+k
            d = differ(x, y, path+k+'.')
            if d:
                return d
        elif isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            x, y = np.asarray(x), np.asarray(y)
            if x.shape != y.shape or not np.all((x == y) | ((x != x) & (y != y))):
                return path+k
        else:
            try:
                if not (x == y or (x != x and y != y)):
                    return path+k
            except Exception:
                pass
    return None


KINDS = ['aper', 'slit', 'cube', 'rot', 'dispA', 'dispM', 'slit', 'aper', 'default']


class Model(object):
    """One model of a history; ``out()`` is its current result, ``fresh()`` that of new objects."""
    def __init__(self, kind, m, th):
        self.kind, self.m, self.th = kind, m, th

    def sets(self, th):
        return kc.Theta2DSettingsFiducial(theta=th.copy(), theta_vary=self.vary.copy(), theta_bounds=np.array([[-1e9, 1e9]]*5))

    def build(self, g, ins, opt):
        m, th = self.m, self.th
        if self.kind == 'aper':
            self.arr = th.copy()
            return AperModel2D(galaxy=g, instrument=ins, theta=self.arr, kinProfile=kinprof(m), intensityProfile=intprof(m, g), **options(m))
        if self.kind in ('slit', 'cube', 'default'):
            kw = {} if self.kind == 'default' else dict(kinProfile=kinprof(m), intensityProfile=intprof(m, g), kinModelOptions=opt)
            km = KinModel2D(g, thetaSettings=self.sets(th), no_scale=bool(m['gen'] or self.kind == 'cube'),
                            spec_type='velocity' if m['vel'] else 'wave', **kw)
            (km.make_3D_int_model if self.kind == 'cube' else km.make_model)(galaxy=g, instrument=ins, theta_fitting=th[self.vary])
            return km
        if self.kind == 'rot':
            return AperModel1DRot(galaxy=g, instrument=ins, theta=[th[0]/max(abs(th[2]), 1.), th[0], th[1]], kinProfile=kinprof(m), intensityProfile=intprof(m, g),
                                  nPixels=self.npix, extraction_method=self.ext)
        cls = b1.AperModel1DDispMisalign if self.kind == 'dispM' else b1.AperModel1DDisp
        return cls(galaxy=g, instrument=ins, nPixels=self.npix, extraction_method=self.ext)

    def out(self, obj=None):
        o = self.obj if obj is None else obj
        if self.kind == 'cube':
            return np.array(o.model_cube)
        if self.kind in ('slit', 'default', 'aper'):
            return np.array(o.model)
        return np.array([o.disp_aper_ratio])

    def fresh(self):
        m = self.m
        return self.out(self.build(mkgal(m), instrument(m), kmopts(m)))


AperModel1DRot = b1.AperModel1DRot


def t_hist(c):
    cs = c['cfgs']
    G = [mkgal(mix(c, i, 0, 0)) for i in range(len(cs))]
    I = [instrument(mix(c, 0, j, 0)) for j in range(len(cs))]
    S = [[snap(x) for x in G], [snap(x) for x in I]]
    OPT = {}
    OS = {}
    models = []
    r = rng(c['seed'])
    nup = 0
    labels = set()

    def newtheta(m, th):
        t = th.copy()
        for k in range(3):
            if r.uniform() < .6:
                t[k] *= r.uniform(.5, 1.6)
        if r.uniform() < .4:
            t[3] += r.uniform(-.7, .7)
        if r.uniform() < .4:
            t[4] += r.uniform(-1, 1)*3e-4
        if r.uniform() < .2:
            t[0] = -t[0]
        return t

    def audit(what, skip=None):
        for k, mo in enumerate(models):
            if k != skip:
                same(mo.out(), mo.last, 'result of model %d (%s) after %s' % (k, mo.kind, what))
        for nm, objs, ss in (('galaxy', G, S[0]), ('instrument', I, S[1])):
            for k, o in enumerate(objs):
                d = differ(ss[k], snap(o))
                check(not d, lambda: '%s attribute %s changed by %s' % (nm, d, what))
        for k in OPT:
            d = differ(OS[k], snap(OPT[k]))
            check(not d, lambda: 'option %s changed by %s' % (d, what))

    def verify(mo, what):
        got = mo.out()
        want = mo.fresh()
        if not np.all(np.isfinite(want)):
            labels.add('non-finite')
        close(got, want, rtol=1e-9, what='%s (%s)' % (what, mo.kind))
        mo.last = got.copy()

    for step, (op, a, b, k) in enumerate([(0, c['k0'], 0, 0)] + c['ops']):
        if op == 0 or not models:
            i, j, o = a % len(cs), b % len(cs), k % len(cs)
            m = mix(c, i, j, o)
            kind = KINDS[(a+3*b+7*k) % len(KINDS)]
            if kind == 'cube' and m['vel'] and m['posshift']:
                kind = 'slit'
            if kind == 'default':
                m.update(nsub=2, pad=.5, posshift=False, xc=0., absval=False, adaptive=True, factor=3., floor=True, kprof=0, iprof=0)
            if kind in ('slit', 'cube'):
                m['xc'] = 0.
            if kind in ('rot', 'dispA', 'dispM') and (m['vel'] or m['slit'] > 30*m['re'] or m['fwhm'] > 30*m['re']):
                kind = 'aper'
            key = (o, m['posshift'], kind == 'default')
            if key not in OPT:
                OPT[key] = kmopts(m)
                OS[key] = snap(OPT[key])
            mo = Model(kind, m, theta(m))
            mo.vary = np.array([(a >> s) & 1 or s == b % 5 for s in range(5)], dtype=bool)
            mo.npix = 5+2*(a % 3)
            mo.ext = ['optimal', 'boxcar'][b % 2]
            mo.obj = mo.build(G[i], I[j], OPT[key])
            what = 'step %d: building a model' % step
            models.append(mo)
            mo.who = (i, j)
            verify(mo, what)
            skip = len(models)-1
            labels.add(kind)
        else:
            skip = a % len(models)
            mo = models[skip]
            m = mo.m
            if op in (1, 2, 5):
                t = newtheta(m, mo.th)
                if mo.kind == 'aper':
                    what = 'step %d: updating' % step
                    if op == 2:                       # the caller re-uses its own array
                        mo.arr[:] = t
                        arg = mo.arr
                    else:
                        arg = t.copy()
                    mo.arr = arg
                    mo.th = t
                    kw = dict(kinProfile=kinprof(m)) if op == 5 else {}
                    mo.obj.update_model(theta=arg, **kw)
                    same(arg, t, 'caller\'s parameter array')
                elif mo.kind in ('slit', 'cube', 'default'):
                    what = 'step %d: updating' % step
                    th = mo.th.copy()
                    th[mo.vary] = t[mo.vary]
                    x = t[mo.vary].copy()
                    x0 = x.copy()
                    mo.th = th
                    if op == 5:
                        what = 'step %d: making again' % step
                        (mo.obj.make_3D_int_model if mo.kind == 'cube' else mo.obj.make_model)(galaxy=G[mo.who[0]], instrument=I[mo.who[1]], theta_fitting=x)
                    else:
                        (mo.obj.update_3D_int_model if mo.kind == 'cube' else mo.obj.update_model)(theta_fitting=x)
                    same(x, x0, 'caller\'s parameter array')
                    same(mo.obj.theta, th, 'parameters of the model')
                else:
                    what = 'step %d: recalculating' % step
                    if mo.kind == 'rot':
                        mo.obj.calc_aper_correction(recalc=True)
                    else:
                        mo.obj.calc_aper_correction()
                verify(mo, what)
                nup += 1
                labels.add('update')
            elif op == 3:
                new = Model(mo.kind, m, mo.th.copy())
                new.__dict__.update({x: y for x, y in mo.__dict__.items() if x not in ('obj', 'th', 'last')})
                new.obj = mo.obj.copy() if hasattr(mo.obj, 'copy') else copymod.deepcopy(mo.obj)
                new.th = mo.th.copy()
                new.arr = mo.th.copy()
                new.last = mo.last.copy()
                what = 'step %d: copying' % step
                same(new.out(), mo.last, what)
                models.append(new)
                labels.add('copy')
            elif op == 4:
                what = 'step %d: a vector of the wrong length' % step
                if mo.kind in ('slit', 'cube', 'default'):
                    n = int(mo.vary.sum())
                    for nn in (n+1, n-1):
                        raises(ValueError, lambda: (mo.obj.update_3D_int_model if mo.kind == 'cube' else mo.obj.update_model)(theta_fitting=np.ones(nn)), what)
                        raises(ValueError, lambda: (mo.obj.make_3D_int_model if mo.kind == 'cube' else mo.obj.make_model)(
                            galaxy=G[mo.who[0]], instrument=I[mo.who[1]], theta_fitting=np.ones(nn)), what)
                    same(mo.obj.theta, mo.th, 'parameters after '+what)
                    labels.add('wrong-length')
        audit(what)
    # every model is still able to reproduce itself
    for mo in models:
        if mo.kind == 'aper':
            mo.obj.update_model(theta=mo.th.copy())
        elif mo.kind == 'cube':
            mo.obj.update_3D_int_model(theta_fitting=mo.th[mo.vary])
        elif mo.kind in ('slit', 'default'):
            mo.obj.update_model(theta_fitting=mo.th[mo.vary])
        else:
            continue
        close(mo.out(), mo.last, rtol=1e-9, what='repeating the last parameters (%s)' % mo.kind)
    who = [mo.who for mo in models]
    shared = len(set(x[0] for x in who)) < len(who) or len(set(x[1] for x in who)) < len(who)
    return bool(len(models) > 1 and nup and shared), sorted(labels)+['models%d' % min(len(models), 6)]


op = st.tuples(st.sampled_from([0, 0, 1, 1, 1, 2, 3, 4, 5]), st.integers(0, 31), st.integers(0, 9), st.integers(0, 9))
s_hist = st.fixed_dictionaries(dict(cfgs=st.lists(cfg2d(maxY=4, maxW=10, maxsub=2, zero_sig=False, dith=True, square=False, maxvox=2500), min_size=1, max_size=2),
                                    k0=st.integers(0, 31), ops=st.lists(op, min_size=2, max_size=9), seed=seeds()))

SUBS = [Sub('histories', s_hist, t_hist, 1600, 20000)]
