"""C15: continuum subtraction of 2D spectra."""
from .buildprep import *

PROPERTY = 'C15'
RULE = ('Random 2D spectra (line, band, redshift, coverage on one or both sides, bad pixels, dead rows, sky columns, units) with a matching 1D spectrum; oracles: the '
        'generating continuum for noise-free data, closed-form weighted least squares otherwise, and relations between pairs of spectra. Non-trivial: the continuum '
        'is not zero and at least ten rows have usable pixels.')
ASSUMPTIONS = ['the level above which 1D samples count as sky-affected is accepted in units of either the 2D or the 1D median error',
               'least-squares answers are compared within 2e-3 of the statistical error of the intercept plus 1e-6 of the continuum level']


def build(c, **over):
    d = raw(c)
    rest, full, lr, mr = TAB[c['line']]
    zz = 1+c['z']
    d.inl = (d.wave >= mr[0]*zz) & (d.wave <= mr[1]*zz)
    d.cw = (d.wave >= full[0]*zz) & (d.wave <= full[1]*zz) & ~d.inl          # continuum samples
    d.left, d.right = d.cw & (d.wave < mr[0]*zz), d.cw & (d.wave > mr[1]*zz)
    d.full = (d.wave >= full[0]*zz) & (d.wave <= full[1]*zz)
    if c.get('dead'):                                                        # no good continuum on one side
        d.mask1[d.left if c['dead'] == 1 else d.right] = 0.
    # lines confined to their window
    u = c['unit']
    out = ~d.inl
    d.flux[:, out] -= d.line[:, out]
    d.line[:, out] = 0.
    d.flux1[out] -= u*c['amp']*3*d.lprof[out]
    return d


def run(c, d):
    g, s, ins = objects(c, d)
    s.initialize_lineset()
    s.initialize_skylevels()
    s.initialize_derived_variables(g)
    s.subtract_continuum(g, no_cont_subtraction=c['nocont'])
    return g, s


def prepared(c, d):
    g, s, ins = objects(c, d)
    s.fit_prep_calcs(g, ins)
    return g, s


def usable(c, d):
    m, m1 = refmask(c, d)
    if m1 is not None and not (m1 == 1).any():
        raise ref.Skip('no good 1D data')
    return m, m1


def consistent(s, c):
    close(s.flux, s.flux_incl_cont-s.cont_model, rtol=0, atol=1e-12*max(np.abs(s.flux_incl_cont).max(), 1e-300), what='original minus continuum')


def slope1(c, d, m, m1):
    """candidate slopes of the 1D continuum."""
    if m1 is None:
        return []
    e = np.where(m == 1, d.err, 0.)
    med2 = np.median(np.sqrt((e**2).sum(axis=0)))
    ok1 = m1 == 1
    med1 = np.median(np.where(ok1, d.err1, 0.))
    out = []
    for med in (med2, med1):
        lim = cutoff(c)*med
        k = ok1 & ~(np.where(ok1, d.err1, 0.) >= lim)
        if np.any(np.abs(d.err1[ok1]-lim) < 1e-9*lim):
            raise ref.Skip('tie')
        if not (k & d.left).any() or not (k & d.right).any():
            out.append(0.)
            continue
        k = k & d.cw
        w = 1/(d.err1[k]/c['unit'])**2
        x, y = d.wave[k], d.flux1[k]
        xm, ym = np.average(x, weights=w), np.average(y, weights=w)
        out.append(float((w*(x-xm)*(y-ym)).sum()/(w*(x-xm)**2).sum()))
    return out


def rowref(c, d, m, a):
    """per-row weighted intercepts (None for rows without data) and their statistical error."""
    out, er = [], []
    for i in range(len(d.flux)):
        k = d.cw & (m[i] == 1)
        if not k.any():
            out.append(None)
            er.append(None)
            continue
        w = 1/(d.err[i, k]/c['unit'])**2
        out.append(float(np.average(d.flux[i, k]-a*d.wave[k], weights=w)))
        er.append(c['unit']/math.sqrt(w.sum()))
    return out, er


def t_fit(c):
    """closed-form least squares."""
    d = build(c)
    m, m1 = usable(c, d)
    before = {k: np.copy(v) for k, v in d.__dict__.items() if isinstance(v, np.ndarray)}
    g, s = run(c, d)
    for k in before:
        same(getattr(d, k), before[k], 'caller\'s array '+k)
    consistent(s, c)
    f = d.full
    close(s.wave, d.wave[f], rtol=1e-13, what='wavelengths kept')
    check(s.flux.shape == s.cont_model.shape == s.flux_incl_cont.shape == s.flux_err.shape == s.spec_mask.shape == (c['ny'], f.sum()), 'arrays are cut differently')
    good = m[:, f] == 1
    same(s.spec_mask, m[:, f], 'quality mask')
    same(s.flux_incl_cont[good], d.flux[:, f][good], 'flux including continuum')
    if c['nocont']:
        check(np.all(s.cont_model == 0), 'continuum model without subtraction')
        same(s.flux[good], d.flux[:, f][good], 'flux without subtraction')
        return True, ['disabled']
    best = None
    for a in slope1(c, d, m, m1):
        b, er = rowref(c, d, m, a)
        bad = 0.
        for i in range(c['ny']):
            if b[i] is None:
                continue
            want = a*d.wave[f]+b[i]
            tol = 2e-3*er[i]+1e-6*(np.abs(want).max()+abs(a)*d.wave[-1]*1e-3)
            dev = np.abs(s.cont_model[i]-want).max()
            if not dev <= tol:
                bad = max(bad, dev/tol if np.isfinite(dev) else 1e99)
        if best is None or bad < best[0]:
            best = (bad, a)
    check(best[0] == 0, lambda: 'continuum differs from the least-squares line of slope %.6g by %.3g tolerances' % (best[1], best[0]))
    return bool(best[1] != 0 or c['csc'] > 0), ['slope0' if best[1] == 0 else 'slope']


def t_recover(c):
    """noise-free continua are recovered, lines kept."""
    c = dict(c, noise=0., nocont=False)
    d = build(c)
    m, m1 = usable(c, d)
    sl = slope1(c, d, m, m1)
    if c['slope'] != 0 and 0. in sl:
        raise ref.Skip('one side only')
    g, s = run(c, d)
    consistent(s, c)
    f = d.full
    rows = [i for i in range(c['ny']) if (d.cw & (m[i] == 1)).any()]
    lev = max(np.abs(d.cont).max(), np.abs(d.line).max())
    tol = 1e-5*lev
    ncheck = 0
    for i in rows:
        close(s.cont_model[i], d.cont[i, f], rtol=0, atol=tol, what='continuum of row %d' % i)
        k = m[i, f] == 1
        close(s.flux[i, k], d.line[i, f][k], rtol=0, atol=tol, what='line flux of row %d' % i)
        ncheck += k.any()
    g, s = prepared(c, d)
    consistent(s, c)
    a, b = s.full_l_ind, s.full_r_ind
    rest, full, lr, mr = TAB[c['line']]
    zz = 1+c['z']
    f = d.full & (d.wave >= lr[0]*zz) & (d.wave <= lr[1]*zz)
    for i in rows:
        if a <= i < b:
            close(s.cont_model[i-a], d.cont[i, f], rtol=0, atol=tol, what='continuum of prepared row %d' % i)
            k = m[i, f] == 1
            close(s.flux[i-a, k], d.line[i, f][k], rtol=0, atol=tol, what='line flux of prepared row %d' % i)
    return ncheck >= 10 and bool(np.abs(d.cont).max() > 0), ['clip%d' % c['clip']]


def t_relations(c):
    c = dict(c, nocont=False)
    law = c['law']
    d = build(c)
    m, m1 = usable(c, d)
    slope1(c, d, m, m1)
    g, s = run(c, d)
    e = build(c)
    r = rng(c['seed']+1)
    u, f = c['unit'], d.full
    lev = max(np.abs(np.nan_to_num(d.flux[m == 1])).max(initial=0.), 20*u)
    tol = 1e-5*lev
    wantc, wantf = s.cont_model, s.flux
    good = m[:, f] == 1
    rows = [i for i in range(c['ny']) if (d.cw & (m[i] == 1)).any()]
    if law == 'masked':
        # pixels excluded whatever their flux
        for k in np.argwhere((d.mask == 0) | (d.weight == 0) | ~np.isfinite(d.err) | (m1 == 0)[None]):
            e.flux[k[0], k[1]] = r.choice([np.nan, 1e4*u, -1e4*u])
        bad1 = (m1 == 0) & np.isfinite(d.flux1)
        e.flux1[bad1] = r.normal(size=bad1.sum())*1e4*u
    elif law == 'line':
        e.flux[:, d.inl] += (r.normal(size=(c['ny'], d.inl.sum()))*300*u)
        e.flux1[d.inl] += r.normal(size=d.inl.sum())*300*u
    elif law == 'outside':
        o = ~d.full
        e.flux[:, o] += r.normal(size=(c['ny'], o.sum()))*300*u
        e.flux1[o] += r.normal(size=o.sum())*300*u
    elif law == 'sky1':
        k = (r.uniform(size=len(d.wave)) < .08) & (d.err1 != 0) & np.isfinite(d.err1)
        d = build(c)
        for q in (d, e):
            q.err1[k] = 100*u
        ok = (m1 == 1) & ~k
        g, s = run(c, d)
        wantc, wantf = s.cont_model, s.flux
        e.flux1[k] += r.normal(size=k.sum())*1e4*u
    elif law == 'row':
        j, v = r.randint(c['ny']), r.normal()*50*u
        e.flux[j] += v
        wantc = wantc.copy()
        wantc[j] += v
        tol += 1e-5*abs(v)
        if j not in rows:
            rows = [i for i in rows if i != j]
    elif law == 'linear':
        if not all(slope1(c, d, m, m1)):
            raise ref.Skip('one side only')
        a, v = r.normal()*.05*u, r.normal()*50*u
        lam = d.wave-d.wave.mean()
        e.flux += (a*lam+v)[None]
        e.flux1 += a*lam
        wantc = wantc+(a*lam+v)[f][None]
        tol += 1e-5*(abs(v)+abs(a)*np.abs(lam).max())
    elif law == 'scale':
        k = 10**r.uniform(-3, 3)
        for q in ('flux', 'err', 'flux1', 'err1'):
            setattr(e, q, getattr(e, q)*k)
        wantc, wantf, tol = wantc*k, wantf*k, tol*k
    elif law == 'flip':
        # rows in another order
        p = r.permutation(c['ny'])
        for q in ('flux', 'err', 'mask', 'weight'):
            setattr(e, q, getattr(e, q)[p])
        wantc, wantf, good = wantc[p], wantf[p], good[p]
        rows = [i for i in range(c['ny']) if p[i] in rows]
    g2, s2 = run(c, e)
    consistent(s2, c)
    for i in rows:
        close(s2.cont_model[i], wantc[i], rtol=0, atol=tol, what='continuum of row %d (%s)' % (i, law))
        if law in ('row', 'linear', 'scale', 'flip', 'sky1'):
            close(s2.flux[i][good[i]], wantf[i][good[i]], rtol=0, atol=tol, what='flux of row %d (%s)' % (i, law))
    return len(rows) >= 10 and bool(c['slope'] or c['csc']), [law]


@st.composite
def s_rel(draw):
    c = draw(prep_cfg())
    c['law'] = draw(st.sampled_from(['masked', 'line', 'outside', 'sky1', 'row', 'linear', 'scale', 'flip']))
    return c


@st.composite
def s_fit(draw):
    c = draw(prep_cfg())
    c['dead'] = draw(st.sampled_from([0]*6+[1, 2]))
    return c


SUBS = [Sub('least-squares', s_fit(), t_fit, 400, 6000), Sub('recovery', s_fit(), t_recover, 400, 6000), Sub('relations', s_rel(), t_relations, 600, 10000)]
